// Stand-in for fmt: the text of messages is environment, but literal text, strings and concrete
// numbers are rendered so that file names built with it are right.
#ifndef STUB_FMT_H_
#define STUB_FMT_H_
#include "__prelude.h"
#include <string>
#include <type_traits>
#include "symx.h"
namespace fmt {
namespace stub {
inline std::string num(unsigned long long v, bool neg) {
  char b[24]; int i = 24;
  do { b[--i] = '0' + v % 10; v /= 10; } while (v);
  if (neg) b[--i] = '-';
  return std::string(b + i, 24 - i);
}
inline std::string str(const std::string& s) { return s; }
inline std::string str(const char* s) { return s; }
inline std::string str(char c) { return std::string(1, c); }
inline std::string str(bool b) { return b ? "true" : "false"; }
inline std::string str(double d) { return std::string(1, '\1') + std::string(reinterpret_cast<const char*>(&d), 8); }   // a token: \1 and the eight bytes of the value
inline std::string str(float d) { return str((double)d); }
inline std::string str(long double d) { return str((double)d); }
template <class T, class = typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type>
inline std::string str(T v) {
  if (__sym_is_symbolic(&v, sizeof v)) return "<int>";
  long long s = (long long)v;
  if (std::is_signed<T>::value && s < 0) return num(0ull - (unsigned long long)s, true);
  return num((unsigned long long)v, false);
}
inline void collect(std::string*) {}
template <class T, class... R> void collect(std::string* o, const T& t, const R&... r) { *o = str(t); collect(o + 1, r...); }
}
template <class... A> std::string format(const std::string& f, const A&... a) {
  std::string v[sizeof...(A) + 1];
  stub::collect(v, a...);
  std::string out;
  unsigned next = 0;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] == '{') {
      if (i + 1 < f.size() && f[i + 1] == '{') { out += '{'; ++i; continue; }
      unsigned idx = 0; bool has = false; ++i;
      while (i < f.size() && f[i] >= '0' && f[i] <= '9') { idx = idx * 10 + (f[i] - '0'); has = true; ++i; }
      while (i < f.size() && f[i] != '}') ++i;
      if (!has) idx = next++;
      if (idx < sizeof...(A)) out += v[idx]; else __sym_fatal("fmt: argument index out of range");
    } else if (f[i] == '}' && i + 1 < f.size() && f[i + 1] == '}') { out += '}'; ++i;
    } else out += f[i];
  }
  return out;
}
template <class T> std::string to_string(const T& t) { return stub::str(t); }
}
#endif
