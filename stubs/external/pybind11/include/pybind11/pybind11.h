// Registration with the Python interpreter has no effect; the functions that are registered are called directly.
#ifndef PYBIND_DOUBLE_H_
#define PYBIND_DOUBLE_H_
#include <cstring>
#include <functional>
#include <list>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
namespace pybind11 {
struct object {}; typedef object handle;
struct arg { arg(const char*) {} arg(const arg&) = default; template <class T> arg operator=(T&&) const { return *this; } };
template <class... A> struct init {}; template <int N, int P> struct keep_alive {};
// Methods that take a name and give a value are recorded with whether their result keeps the object alive.
template <class X> struct holds { static const bool value = false; }; template <> struct holds<keep_alive<0, 1>> { static const bool value = true; };
template <class R, class C> struct getter { R (C::*fn)(const std::string&) const = nullptr; bool keep = false; static getter& of(const std::string& n) { static std::vector<std::pair<std::string, getter>> t; for (auto& p : t) if (p.first == n) return p.second; t.reserve(16); t.emplace_back(n, getter()); return t.back().second; } };
template <class R, class C, class... A> void record(const char* n, R (C::*f)(const std::string&) const, A&&...) { bool keep = false; for (bool b : {false, holds<typename std::decay<A>::type>::value...}) keep |= b; auto& g = getter<R, C>::of(n); g.fn = f; g.keep = keep; }
template <class... A> void record(A&&...) {}
struct module { template <class... A> module(A&&...) {} template <class... A> module& def(A&&...) { return *this; } void* ptr() { return nullptr; } };
template <class... T> struct class_ { template <class... A> class_(A&&...) {} template <class... A> class_& def(A&&... a) { record(a...); return *this; } template <class... A> class_& def_property_readonly(A&&...) { return *this; } };
}
#endif
