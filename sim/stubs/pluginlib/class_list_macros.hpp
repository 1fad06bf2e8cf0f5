#pragma once
#include "pluginlib/class_loader.hpp"
#define SIM_PL_CAT2(a, b) a##b
#define SIM_PL_CAT(a, b) SIM_PL_CAT2(a, b)
#define PLUGINLIB_EXPORT_CLASS(C, B) \
  namespace { struct SIM_PL_CAT(SimPl, __LINE__) { SIM_PL_CAT(SimPl, __LINE__)() { \
    ::pluginlib::Registry::get()[{std::type_index(typeid(B)), std::string(#C)}] = []() -> void * { return static_cast<B *>(new C()); }; } } SIM_PL_CAT(sim_pl_, __LINE__); }
#define CLASS_LOADER_REGISTER_CLASS(C, B) PLUGINLIB_EXPORT_CLASS(C, B)
