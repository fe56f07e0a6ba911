// Minimal host-only stand-in for LLNL/camp (the submodule is empty in this
// sandbox).  Only what Umpire's host-only sources use, with camp's semantics.
#ifndef VERIF_CAMP_CAMP_HPP
#define VERIF_CAMP_CAMP_HPP
#include <type_traits>
#include <utility>
#include "camp/list.hpp"
// camp: #define CAMP_EXPAND(...) static_cast<void>(::camp::sink((__VA_ARGS__, 0)...))
namespace camp {
template <typename... Ts>
constexpr void sink(Ts const&...) {}
} // namespace camp
#define CAMP_EXPAND(...) static_cast<void>(::camp::sink((static_cast<void>(__VA_ARGS__), 0)...))
#endif
