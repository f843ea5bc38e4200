#pragma once
#include <fmt/format.h>
#include <optional>
#if FMT_VERSION < 100000
template<typename T> struct fmt::formatter<std::optional<T>, char> {
  template<class C> constexpr auto parse(C& c){ return c.begin(); }
  template<class C> auto format(const std::optional<T>& o, C& c) const { if(o) return fmt::format_to(c.out(), "optional({})", *o); return fmt::format_to(c.out(),"none"); }
};
#endif
