// Symbolic expressions: hash-consed bit-vector DAG plus a "number" domain (polynomials with a
// tracked rounding-error bound) for floating-point values that come from small integer inputs.
#ifndef SYMX_EXPR_H_
#define SYMX_EXPR_H_
#include <z3.h>
#include <boost/multiprecision/cpp_int.hpp>
#include <cstdint>
#include <cstring>
#include <deque>
#include <memory>
#include <mutex>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int32_t i32; typedef int64_t i64; typedef __int128 i128;
typedef boost::multiprecision::cpp_rational Rat;
typedef boost::multiprecision::cpp_int BigInt;

enum Op : u8 {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL,
  O_LSHR, O_ASHR, O_NOT, O_EQ, O_ULT, O_SLT, O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT,
  O_FEQ, O_FLT, O_FLE, O_FUNO,   // on IEEE bit patterns
  O_FPOP,                        // IEEE operation on bit patterns (sub = Fop)
  O_NUM,                         // numeric value (sub = Fop, num)
  O_NCMP                         // sub 0: p>0, 1: p>=0, 2: p==0
};
enum Fop : u8 { F_LEAFINT, F_REAL, F_ADD, F_SUB, F_MUL, F_DIV, F_NEG, F_ABS, F_EXT, F_TRUNC, F_SITOFP, F_UITOFP,
  F_EXP, F_LOG, F_SQRT, F_LOG1P, F_POW, F_REM, F_FLOOR, F_CEIL, F_ROUND, F_TOSI, F_TOUI, F_COS, F_SIN, F_LOG2, F_LOG10, F_EXP2, F_EXPM1, F_TANH, F_RINT, F_CONST };
enum { XF_FP = 1, XF_REAL = 2, XF_TIE = 4, XF_INTNUM = 8 };

struct Expr;
struct Mono { std::vector<u32> a; bool operator<(const Mono& o) const { return a < o.a; } bool operator==(const Mono& o) const { return a == o.a; } };
struct Term { Mono m; Rat c; };
typedef std::vector<Term> Poly;
struct Num {
  Poly p;
  double lo = 0, hi = 0;   // range of the exact polynomial value
  double err = 0;          // |machine value - p| <= err
  bool real = false;       // mentions a real-valued atom
  bool tie = false;
  // integer form for evaluation (int atoms only)
  bool iform = false; std::vector<std::pair<i128, std::vector<u32>>> it;
};
struct Expr {
  Op op; u8 w; u8 sub; u8 flags;
  u32 id;
  u64 vmask;
  u64 aux;
  Expr* k[3];
  Num* num;
  u64 umin, umax;
  u64 hash;
  u32 epoch; u64 val;
  Z3_ast zbv, zbool, zreal, zboolr;
};
struct Val { u64 c; Expr* e; };
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sextw(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct VarInfo { std::string name; u8 w; u8 kind; i64 lo, hi, den; double dlo, dhi; u64 bit; };  // kind 0 bv, 1 real, 2 tie bool
struct VarTable {  // shared by all workers
  std::mutex mu; std::unordered_map<std::string, u32> ids; std::deque<VarInfo> info;
  u32 get(const std::string& n, u8 w, u8 kind);
  VarInfo at(u32 i) { std::lock_guard<std::mutex> l(mu); return info[i]; }
  u32 size() { std::lock_guard<std::mutex> l(mu); return info.size(); }
};
extern VarTable g_vars;

struct Model { std::vector<u64> bv; std::vector<std::pair<u32, Rat>> re; bool inexact = false; };
typedef std::shared_ptr<const Model> ModelP;

struct Atom { Expr* e; u32 var; bool sgn; i64 off; i64 lo, hi; double dlo, dhi; bool real; };

struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0; double secs = 0, maxq = 0; };

enum Res { R_SAT, R_UNSAT, R_UNK };

struct Ctx {   // one per worker
  Ctx(); ~Ctx();
  // construction
  Expr* cst(u64 v, u8 w);
  Expr* var(u32 id, u8 w);
  Expr* mk(Op op, u8 w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, u64 aux = 0, u8 sub = 0);
  Expr* bin(Op op, u8 w, Expr* a, Expr* b);
  Expr* eq(Expr* a, Expr* b);
  Expr* ult(Expr* a, Expr* b); Expr* slt(Expr* a, Expr* b);
  Expr* not1(Expr* a); Expr* and1(Expr* a, Expr* b); Expr* or1(Expr* a, Expr* b);
  Expr* ite(Expr* c, Expr* a, Expr* b);
  Expr* zext(Expr* a, u8 w); Expr* sext(Expr* a, u8 w); Expr* extract(Expr* a, unsigned lo, u8 w); Expr* concat(Expr* hi, Expr* lo);
  Expr* fcmpbits(Op op, u8 w, Expr* a, Expr* b);   // w: operand width
  Expr* fpop(Fop f, u8 w, Expr* a, Expr* b);
  void ubound(Expr* e, u64 lo, u64 hi) { if (lo > e->umin) e->umin = lo; if (hi < e->umax) e->umax = hi; }
  // numbers
  Expr* numvar(u32 var, i64 lo, i64 hi, i64 den);           // double
  Expr* realvar(u32 var, double lo, double hi, u8 w = 64);
  Expr* num_from_int(Expr* bv, bool sgn, u8 w);            // sitofp/uitofp
  Expr* numconst(double v, u8 w);                           // O_NUM constant node
  Expr* numop(Fop f, u8 w, Expr* a, Expr* b);               // ADD SUB MUL NEG EXT TRUNC and DIV by constant
  Expr* nummk(Fop f, u8 w, Expr* a, Expr* b, const Num& n, u64 aux = 0);
  Expr* ncmp(int kind, const Poly& p);                      // returns w=1 expr
  Expr* ncmp_raw(int kind, const Poly& p);                  // the same, without folding by the interval of p
  // sign decision helper: compare a-b with rounding error; kind 0:>,1:>=,2:==
  Expr* numcmp(int kind, Expr* a, Expr* b);
  void bounds(Num& n);
  u32 atom_bv(Expr* e, bool sgn, i64 off, i64 lo, i64 hi);
  u32 atom_real(u32 var, double lo, double hi);
  // evaluation under model
  void setmodel(ModelP m);
  u64 eval(Expr* e);
  Rat evalpoly(const Poly& p);
  Rat evalatom(u32 a);
  ModelP model;
  u32 epoch = 1;
  // solving
  Res check(const std::vector<Expr*>& pc, Expr* q, ModelP base, ModelP* out);
  bool nice(const std::vector<Expr*>& fs, ModelP base, ModelP* out);
  void flush();       // drop all expressions
  u64 nexpr() const { return count; }
  SolverStats st;
  unsigned timeout_ms = 20000, quick_rlimit = getenv("SYMX_RL") ? atoi(getenv("SYMX_RL")) : 200000;
  std::vector<Atom> atoms;
  Expr* TRUE; Expr* FALSE;
  u64 tiecount = 0;
  std::string str(Expr* e, int depth = 6);
 private:
  Expr* alloc(); Expr* intern(Expr& t);
  Z3_ast tobv(Expr* e); Z3_ast tobool(Expr* e, bool real); Z3_ast polyreal(const Poly& p); Z3_ast robust(Expr* e, bool pos, const char* eps);
  Z3_ast ncmpbv(Expr* e); Z3_ast ncmpset(Expr* e); Z3_ast zt() { return hold(Z3_mk_true(z)); } Z3_ast zf() { return hold(Z3_mk_false(z)); } Z3_ast tofp(Expr* e);
  Z3_ast hold(Z3_ast a) { Z3_inc_ref(z, a); held.push_back(a); return a; }
  Z3_context z = nullptr; std::vector<Z3_ast> held;
  Z3_solver sbv = nullptr, squick = nullptr, sfp = nullptr, sre = nullptr;
  void mkz3();
  std::vector<Expr*> blocks; size_t used = 0, count = 0; std::deque<std::unique_ptr<Num>> nums;
  std::vector<Expr*> table; size_t tmask = 0;
  std::unordered_map<u64, std::vector<u32>> atomidx;
  struct CE { std::vector<u32> key; u8 r; std::vector<std::pair<u32, u64>> bv; std::vector<std::pair<u32, Rat>> re; bool inexact; };
  std::unordered_map<u64, std::vector<CE>> cache;
  void collectvars(Expr* e, std::unordered_set<u32>& seen, std::vector<u32>& vars);
  std::unordered_map<u32, Z3_ast> z3vars;
};
Poly poly_const(const Rat& r); Poly poly_add(const Poly& a, const Poly& b, bool sub); Poly poly_mul(const Poly& a, const Poly& b); Poly poly_scale(const Poly& a, const Rat& r);
Rat rat_of_double(double d); double dbl_of_bits(u64 b, u8 w); u64 bits_of_dbl(double d, u8 w);
u64 host_fop(Fop f, u8 w, u64 a, u64 b, u8 srcw);
#endif
