// Minimal stand-in for spdlog's logging front end (compile time only: the
// checks judge what error_exit does, not how its message is formatted).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <string>
#include <string_view>
#include <array>
#include <cstring>
#include <memory>
#include <vector>
#include <iostream>
namespace spdlog {
inline void vh_say(std::string_view s) {
  static bool on = getenv("VH_LOG") != nullptr;
  if (on) fprintf(stderr, "[spdlog] %.*s\n", (int)s.size(), s.data());
}
#define VH_LVL(n)                                                              \
  template <class T, class... A> inline void n(T const &t, A const &...) {     \
    vh_say(t);                                                                 \
  }
VH_LVL(error) VH_LVL(warn) VH_LVL(info) VH_LVL(debug) VH_LVL(trace) VH_LVL(critical)
#undef VH_LVL
} // namespace spdlog
