// Compact program representation translated from LLVM bitcode.
#ifndef SYMX_IR_H_
#define SYMX_IR_H_
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>
#include "expr.h"

enum IOp : u8 {
  I_BIN,      // sub=Op, w
  I_FBIN,     // sub=Fop, w
  I_FUN,      // sub=Fop (neg/ext/trunc/sitofp/...), w=dst width, w2=src width
  I_ICMP,     // sub=predicate (below), w=operand width
  I_FCMP,     // sub=llvm FCmp predicate, w=operand width
  I_SELECT,   // a=cond b c ; x = number of lanes
  I_ZEXT, I_SEXT, I_TRUNC, I_COPY,
  I_LOAD, I_STORE, I_ALLOCA, I_GEP, I_GEPADD,
  I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACH, I_RESUME, I_LANDINGPAD,
  I_OVF,      // sub: 0 uadd 1 usub 2 umul 3 sadd 4 ssub 5 smul ; dst value, dst+1 flag
  I_RMW, I_CMPXCHG, I_FENCE, I_INTR, I_SELPTR
};
enum IPred : u8 { P_EQ, P_NE, P_ULT, P_ULE, P_UGT, P_UGE, P_SLT, P_SLE, P_SGT, P_SGE };
enum Intr : u8 { N_MEMCPY, N_MEMMOVE, N_MEMSET, N_UMAX, N_UMIN, N_SMAX, N_SMIN, N_ABS, N_BSWAP, N_CTPOP, N_CTLZ, N_CTTZ, N_FSHL, N_FSHR, N_NOP, N_TRAP, N_TYPEID, N_ISFPCLASS, N_FMINNUM, N_FMAXNUM, N_USUBSAT, N_UADDSAT, N_FMULADD, N_OBJSIZE, N_COPYSIGN };

struct Ins {
  u8 op, w, w2, sub;
  u32 dst;
  i32 a, b, c;
  u32 x, y;     // pool offset / count
  u64 imm;
  u32 loc;
};
struct Fn;
struct Edge { u32 ip; u32 copies, ncopies; u32 block; };
struct Fn {
  std::string name, file, pretty; u32 line = 0;
  u32 nslots = 0, nargs = 0, nret = 0;
  std::vector<Ins> code; std::vector<Val> consts; std::vector<i32> pool; std::vector<Edge> edges; std::vector<u64> cases;
  std::vector<u32> argslots;
  int builtin = -1; bool body = false; u64 addr = 0; u32 id = 0; bool vararg = false;
  const void* llvm = nullptr;
  std::vector<std::string> inl;   // "file:function" of source functions in this body (inlining included)
  bool in_repo = false; std::vector<u8> hit;
};
struct Loc { u32 file; u32 line; u32 func; };
struct GlobalInit { u64 addr; u64 size; std::vector<u8> bytes; std::string name; bool constant; };
struct Program {
  std::vector<Fn*> fns; std::unordered_map<std::string, Fn*> byname; std::unordered_map<u64, Fn*> byaddr;
  std::vector<GlobalInit> globals; u64 gend = 0; std::unordered_map<std::string, u64> gaddr;
  std::vector<Fn*> ctors;
  std::vector<Loc> locs; std::vector<std::string> files, funcs;
  std::unordered_map<u64, std::vector<u64>> bases;  // typeinfo address -> base typeinfo addresses
  std::unordered_map<u64, std::string> tinames;
  std::string locstr(u32 l) const { if (!l) return "?"; const Loc& x = locs[l]; return files[x.file] + ":" + std::to_string(x.line) + " (" + funcs[x.func] + ")"; }
};
static const u64 FN_BASE = 0x10000, G_BASE = 0x10000000;
bool load_program(const std::string& bc, Program& P, std::string& err);
int builtin_id(const std::string& name);   // -1: none (vm.cc)
#endif
