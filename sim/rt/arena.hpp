#pragma once
#include <cstddef>
#include <cstdint>
namespace simrt
{
constexpr uintptr_t ARENA_BASE = 0x200000000000ull;
constexpr uintptr_t ARENA_SIZE = 8ull << 30;
constexpr uintptr_t SHADOW_BASE = 0x300000000000ull;
#define SHADOW (reinterpret_cast<uint8_t *>(::simrt::SHADOW_BASE))
[[noreturn]] void arena_bad_access(const void * p, size_t n, uint8_t shadow);
}
