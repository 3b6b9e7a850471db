// A stand-in for pybind11 that prints what is bound.
#pragma once
#include <cstdio>
#include <memory>
#include <type_traits>
namespace pybind11 {
struct gil_scoped_release {};
template <class... T> struct call_guard {};
struct module_local {};
template <class... A> struct init {};
struct module_ {
  template <class F> module_ &def(const char *n, F f, call_guard<gil_scoped_release>) { std::printf("def %s %p\n", n, (void *)f); return *this; }
};
using module = module_;
template <class... A> struct OverloadCast {
  template <class R> auto operator()(R (*f)(A...)) const { return f; }
};
template <class... A> constexpr OverloadCast<A...> overload_cast{};
template <class T, class... H> struct class_ {
  const char *name;
  class_(module_ &, const char *n, module_local) : name(n) { std::printf("class %s %d\n", n, int(sizeof...(H))); }
  template <class... A> class_ &def(init<A...>) { std::printf("init %s\n", name); static_assert(std::is_constructible_v<T, A...>); return *this; }
  template <class R, class C, class... A> class_ &def(const char *n, R (C::*)(A...)) { static_assert(std::is_same_v<C, T>); std::printf("method %s.%s\n", name, n); return *this; }
  template <class M, class C> class_ &def_readwrite(const char *n, M C::*p) {
    static_assert(std::is_same_v<C, T>);
    static T t;
    std::printf("field %s.%s %d\n", name, n, int((char *)&(t.*p) - (char *)&t));
    return *this;
  }
};
}  // namespace pybind11
#define PYBIND11_MODULE(name, m)        \
  static void bind_##name(pybind11::module_ &m); \
  const char *bound_name = #name;       \
  void bind_module() { pybind11::module_ m; bind_##name(m); } \
  static void bind_##name(pybind11::module_ &m)
