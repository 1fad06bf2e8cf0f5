#pragma once
#include <memory>
#include <type_traits>
namespace rcpputils
{
template <class T> struct is_pointer : std::is_pointer<T> {};
template <class T> struct is_pointer<std::shared_ptr<T>> : std::true_type {};
template <class T> struct is_pointer<std::unique_ptr<T>> : std::true_type {};
template <class T> struct is_pointer<const std::shared_ptr<T>> : std::true_type {};
template <class T> struct is_pointer<const std::unique_ptr<T>> : std::true_type {};
template <class T> struct remove_pointer { using type = std::remove_pointer_t<T>; };
}
