#pragma once
#include <string>
namespace fmt {
template<typename F, typename... A> void println(F const&, A&&...) {}
template<typename F, typename... A> void print(F const&, A&&...) {}
template<typename F, typename... A> auto format(F const&, A&&...) -> std::string { return {}; }
}
