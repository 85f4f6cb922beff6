#ifndef STUB_GFLAGS_H_
#define STUB_GFLAGS_H_
#include "__prelude.h"
#include <stdint.h>
#include <string>
#define STUB_DECL(ty, ns, n) namespace ns { extern ty FLAGS_##n; } using ns::FLAGS_##n
#define STUB_DEFN(ty, ns, n, v) namespace ns { ty FLAGS_##n = v; } using ns::FLAGS_##n
#define DECLARE_int32(n) STUB_DECL(int32_t, fLI, n)
#define DECLARE_uint32(n) STUB_DECL(uint32_t, fLU, n)
#define DECLARE_int64(n) STUB_DECL(int64_t, fLI64, n)
#define DECLARE_uint64(n) STUB_DECL(uint64_t, fLU64, n)
#define DECLARE_bool(n) STUB_DECL(bool, fLB, n)
#define DECLARE_double(n) STUB_DECL(double, fLD, n)
#define DECLARE_string(n) STUB_DECL(std::string, fLS, n)
#define DEFINE_int32(n, v, h) STUB_DEFN(int32_t, fLI, n, v)
#define DEFINE_uint32(n, v, h) STUB_DEFN(uint32_t, fLU, n, v)
#define DEFINE_int64(n, v, h) STUB_DEFN(int64_t, fLI64, n, v)
#define DEFINE_uint64(n, v, h) STUB_DEFN(uint64_t, fLU64, n, v)
#define DEFINE_bool(n, v, h) STUB_DEFN(bool, fLB, n, v)
#define DEFINE_double(n, v, h) STUB_DEFN(double, fLD, n, v)
#define DEFINE_string(n, v, h) STUB_DEFN(std::string, fLS, n, v)
namespace google { inline unsigned ParseCommandLineFlags(int*, char***, bool) { return 0; } }
#endif
