#ifndef STUB_GLOG_H_
#define STUB_GLOG_H_
#include "__prelude.h"
#include <string>
#include "symx.h"
namespace google {
struct NullStream {
  template <class T> NullStream& operator<<(const T&) { return *this; }
  NullStream& operator<<(NullStream& (*)(NullStream&)) { return *this; }
};
struct FatalStream {
  [[noreturn]] ~FatalStream() { __sym_fatal("CHECK or LOG(FATAL)"); __builtin_unreachable(); }
  template <class T> FatalStream& operator<<(const T&) { return *this; }
};
struct Voidify { void operator&(const NullStream&) {} void operator&(const FatalStream&) {} };
enum { GLOG_INFO = 0, GLOG_WARNING = 1, GLOG_ERROR = 2, GLOG_FATAL = 3 };
inline void InitGoogleLogging(const char*) {}
template <class T> T& CheckNotNullS(T& t) { if (t == nullptr) __sym_fatal("CHECK_NOTNULL"); return t; }
template <class T> T CheckNotNullS(T&& t) { if (t == nullptr) __sym_fatal("CHECK_NOTNULL"); return static_cast<T&&>(t); }
}
#define STUB_NULL true ? (void)0 : ::google::Voidify() & ::google::NullStream()
#define STUB_LOG_INFO STUB_NULL
#define STUB_LOG_WARNING STUB_NULL
#define STUB_LOG_ERROR STUB_NULL
#define STUB_LOG_DFATAL STUB_NULL
#define STUB_LOG_FATAL ::google::FatalStream()
#define LOG(s) STUB_LOG_##s
#define LOG_IF(s, c) !(c) ? (void)0 : ::google::Voidify() & STUB_LOGX_##s
#define STUB_LOGX_INFO ::google::NullStream()
#define STUB_LOGX_WARNING ::google::NullStream()
#define STUB_LOGX_ERROR ::google::NullStream()
#define STUB_LOGX_FATAL ::google::FatalStream()
#define LOG_EVERY_N(s, n) STUB_LOG_##s
#define LOG_FIRST_N(s, n) STUB_LOG_##s
#define DLOG(s) STUB_NULL
#define VLOG(n) STUB_NULL
#define VLOG_IS_ON(n) false
#define PLOG(s) STUB_LOG_##s
#define CHECK(c) (c) ? (void)0 : ::google::Voidify() & ::google::FatalStream()
#define PCHECK(c) CHECK(c)
#define CHECK_OP_(a, op, b) CHECK((a) op (b))
#define CHECK_EQ(a, b) CHECK_OP_(a, ==, b)
#define CHECK_NE(a, b) CHECK_OP_(a, !=, b)
#define CHECK_LT(a, b) CHECK_OP_(a, <, b)
#define CHECK_LE(a, b) CHECK_OP_(a, <=, b)
#define CHECK_GT(a, b) CHECK_OP_(a, >, b)
#define CHECK_GE(a, b) CHECK_OP_(a, >=, b)
#define CHECK_NOTNULL(p) ::google::CheckNotNullS(p)
#define DCHECK(c) STUB_NULL
#define DCHECK_EQ(a, b) STUB_NULL
#define DCHECK_NE(a, b) STUB_NULL
#define DCHECK_LT(a, b) STUB_NULL
#define DCHECK_LE(a, b) STUB_NULL
#define DCHECK_GT(a, b) STUB_NULL
#define DCHECK_GE(a, b) STUB_NULL
#endif
