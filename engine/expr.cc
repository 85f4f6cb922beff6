#include "expr.h"
#include <algorithm>
#include <cfloat>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <limits>
using std::vector; using std::string;
VarTable g_vars;
u32 VarTable::get(const string& n, u8 w, u8 kind) {
  std::lock_guard<std::mutex> l(mu);
  auto it = ids.find(n);
  if (it != ids.end()) return it->second;
  u32 id = info.size();
  VarInfo vi; vi.name = n; vi.w = w; vi.kind = kind; vi.lo = 0; vi.hi = 0; vi.den = 1; vi.dlo = vi.dhi = 0;
  vi.bit = 1ull << (id % 61);
  info.push_back(vi); ids[n] = id; return id;
}
Rat rat_of_double(double d) {
  int ex; double m = frexp(d, &ex);
  i64 im = (i64)ldexp(m, 53); ex -= 53;
  BigInt n = im;
  if (ex >= 0) return Rat(n << ex);
  return Rat(n, BigInt(1) << -ex);
}
double dbl_of_bits(u64 b, u8 w) { if (w == 32) { float f; u32 x = b; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
u64 bits_of_dbl(double d, u8 w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }
template <class T> static T fop2(Fop f, T a, T b) {
  switch (f) {
    case F_ADD: return a + b; case F_SUB: return a - b; case F_MUL: return a * b; case F_DIV: return a / b;
    case F_REM: return std::fmod(a, b); case F_POW: return std::pow(a, b);
    case F_NEG: return -a; case F_ABS: return std::fabs(a); case F_EXP: return std::exp(a); case F_LOG: return std::log(a);
    case F_SQRT: return std::sqrt(a); case F_LOG1P: return std::log1p(a); case F_FLOOR: return std::floor(a); case F_CEIL: return std::ceil(a);
    case F_ROUND: return std::round(a); case F_COS: return std::cos(a); case F_SIN: return std::sin(a); case F_LOG2: return std::log2(a);
    case F_LOG10: return std::log10(a); case F_EXP2: return std::exp2(a); case F_EXPM1: return std::expm1(a); case F_TANH: return std::tanh(a); case F_RINT: return std::nearbyint(a);
    default: abort();
  }
}
u64 host_fop(Fop f, u8 w, u64 a, u64 b, u8 sw) {
  switch (f) {
    case F_EXT: case F_TRUNC: return bits_of_dbl(dbl_of_bits(a, sw), w);
    case F_SITOFP: { i64 v = sextw(a, sw); if (w == 32) { float x = (float)v; u32 r; memcpy(&r, &x, 4); return r; } double x = (double)v; u64 r; memcpy(&r, &x, 8); return r; }
    case F_UITOFP: { u64 v = a; if (w == 32) { float x = (float)v; u32 r; memcpy(&r, &x, 4); return r; } double x = (double)v; u64 r; memcpy(&r, &x, 8); return r; }
    case F_TOSI: { double d = dbl_of_bits(a, sw); return (u64)(i64)d & maskw(w); }
    case F_TOUI: { double d = dbl_of_bits(a, sw); return (u64)d & maskw(w); }
    default: break;
  }
  if (w == 32) { float x, y; u32 ia = a, ib = b; memcpy(&x, &ia, 4); memcpy(&y, &ib, 4); float r = fop2<float>(f, x, y); u32 o; memcpy(&o, &r, 4); return o; }
  double x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); double r = fop2<double>(f, x, y); u64 o; memcpy(&o, &r, 8); return o;
}
Poly poly_const(const Rat& r) { Poly p; if (r != 0) p.push_back(Term{Mono{}, r}); return p; }
Poly poly_add(const Poly& a, const Poly& b, bool sub) {
  Poly r; size_t i = 0, j = 0; r.reserve(a.size() + b.size());
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].m < b[j].m)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].m < a[i].m) { Term t = b[j++]; if (sub) t.c = -t.c; r.push_back(t); }
    else { Rat c = sub ? Rat(a[i].c - b[j].c) : Rat(a[i].c + b[j].c); if (c != 0) r.push_back(Term{a[i].m, c}); ++i; ++j; }
  }
  return r;
}
Poly poly_scale(const Poly& a, const Rat& s) { Poly r; if (s == 0) return r; r = a; for (auto& t : r) t.c *= s; return r; }
Poly poly_mul(const Poly& a, const Poly& b) {
  if (a.empty() || b.empty()) return Poly();
  if (a.size() == 1 && a[0].m.a.empty()) return poly_scale(b, a[0].c);
  if (b.size() == 1 && b[0].m.a.empty()) return poly_scale(a, b[0].c);
  vector<Term> all; all.reserve(a.size() * b.size());
  for (auto& x : a) for (auto& y : b) {
    Term t; t.c = x.c * y.c; t.m.a.resize(x.m.a.size() + y.m.a.size());
    std::merge(x.m.a.begin(), x.m.a.end(), y.m.a.begin(), y.m.a.end(), t.m.a.begin());
    all.push_back(std::move(t));
  }
  std::sort(all.begin(), all.end(), [](const Term& x, const Term& y) { return x.m < y.m; });
  Poly r;
  for (auto& t : all) {
    if (!r.empty() && r.back().m == t.m) { r.back().c += t.c; }
    else { if (!r.empty() && r.back().c == 0) r.pop_back(); r.push_back(t); }
  }
  if (!r.empty() && r.back().c == 0) r.pop_back();
  return r;
}

static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
void Ctx::mkz3() {
  Z3_config cfg = Z3_mk_config();
  z = Z3_mk_context_rc(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(z, z3err);
}
Ctx::Ctx() {
  mkz3();
  table.assign(1 << 16, nullptr); tmask = table.size() - 1;
  TRUE = cst(1, 1); FALSE = cst(0, 1);
}
Ctx::~Ctx() {}
void Ctx::flush() {
  for (auto a : held) Z3_dec_ref(z, a);
  held.clear(); z3vars.clear();
  if (sbv) { Z3_solver_dec_ref(z, sbv); sbv = nullptr; }
  if (squick) { Z3_solver_dec_ref(z, squick); squick = nullptr; }
  if (sfp) { Z3_solver_dec_ref(z, sfp); sfp = nullptr; }
  if (sre) { Z3_solver_dec_ref(z, sre); sre = nullptr; }
  Z3_del_context(z); mkz3();
  for (auto b : blocks) free(b);
  blocks.clear(); used = 0; count = 0; nums.clear();
  std::fill(table.begin(), table.end(), nullptr);
  cache.clear(); atoms.clear(); atomidx.clear();
  TRUE = cst(1, 1); FALSE = cst(0, 1);
}
Expr* Ctx::alloc() {
  const size_t N = 4096;
  if (blocks.empty() || used == N) { blocks.push_back((Expr*)calloc(N, sizeof(Expr))); used = 0; }
  return &blocks.back()[used++];
}
static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
Expr* Ctx::intern(Expr& t) {
  u64 h = mix(t.op, t.w); h = mix(h, t.sub); h = mix(h, t.aux);
  for (int i = 0; i < 3; ++i) h = mix(h, t.k[i] ? t.k[i]->hash : 77);
  size_t i = h & tmask;
  while (Expr* e = table[i]) {
    if (e->hash == h && e->op == t.op && e->w == t.w && e->sub == t.sub && e->aux == t.aux && e->k[0] == t.k[0] && e->k[1] == t.k[1] && e->k[2] == t.k[2]) return e;
    i = (i + 1) & tmask;
  }
  Expr* e = alloc(); *e = t; e->hash = h; e->id = count++;
  e->vmask = t.vmask; for (int j = 0; j < 3; ++j) if (e->k[j]) { e->vmask |= e->k[j]->vmask; e->flags |= e->k[j]->flags; }
  e->epoch = 0; e->zbv = e->zbool = e->zreal = e->zboolr = nullptr;
  // ranges
  u64 m = maskw(e->w); e->umin = 0; e->umax = m;
  Expr *a = e->k[0], *b = e->k[1];
  switch (e->op) {
    case O_CONST: e->umin = e->umax = e->aux; break;
    case O_ZEXT: e->umin = a->umin; e->umax = a->umax; break;
    case O_ADD: { unsigned __int128 hi = (unsigned __int128)a->umax + b->umax; if (hi <= m) { e->umin = a->umin + b->umin; e->umax = (u64)hi; }
      else if (b->op == O_CONST && (unsigned __int128)a->umin + b->aux > m) { e->umin = (a->umin + b->aux) & m; e->umax = (a->umax + b->aux) & m; } } break;
    case O_SUB: if (a->umin >= b->umax) { e->umin = a->umin - b->umax; e->umax = a->umax - b->umin; } break;
    case O_MUL: { unsigned __int128 hi = (unsigned __int128)a->umax * b->umax; if (hi <= m) { e->umin = a->umin * b->umin; e->umax = (u64)hi; } } break;
    case O_AND: e->umax = std::min(a->umax, b->umax); break;
    case O_OR: { e->umin = std::max(a->umin, b->umin); u64 x = a->umax | b->umax; int n = x ? 64 - __builtin_clzll(x) : 0; e->umax = std::min(m, maskw(n)); } break;
    case O_UDIV: if (b->umin > 0) { e->umin = a->umin / b->umax; e->umax = a->umax / b->umin; } break;
    case O_UREM: if (b->umin > 0) e->umax = std::min(a->umax, b->umax - 1); break;
    case O_LSHR: if (b->op == O_CONST && b->aux < e->w) { e->umin = a->umin >> b->aux; e->umax = a->umax >> b->aux; } break;
    case O_SHL: if (b->op == O_CONST && b->aux < e->w && a->umax <= (m >> b->aux)) { e->umin = a->umin << b->aux; e->umax = a->umax << b->aux; } break;
    case O_ITE: e->umin = std::min(e->k[1]->umin, e->k[2]->umin); e->umax = std::max(e->k[1]->umax, e->k[2]->umax); break;
    case O_EXTRACT: if (e->aux == 0 && a->umax <= m) { e->umin = a->umin; e->umax = a->umax; } break;
    case O_CONCAT: e->umin = (a->umin << b->w) | b->umin; e->umax = (a->umax << b->w) | b->umax; break;
    case O_SEXT: if (a->umax < (1ull << (a->w - 1))) { e->umin = a->umin; e->umax = a->umax; } break;
    default: break;
  }
  table[i] = e;
  if (count * 2 > table.size()) {
    vector<Expr*> old; old.swap(table); table.assign(old.size() * 2, nullptr); tmask = table.size() - 1;
    for (Expr* x : old) if (x) { size_t p = x->hash & tmask; while (table[p]) p = (p + 1) & tmask; table[p] = x; }
  }
  return e;
}
Expr* Ctx::cst(u64 v, u8 w) { Expr t; memset(&t, 0, sizeof t); t.op = O_CONST; t.w = w; t.aux = v & maskw(w); return intern(t); }
Expr* Ctx::var(u32 id, u8 w) { Expr t; memset(&t, 0, sizeof t); t.op = O_VAR; t.w = w; t.aux = id; t.vmask = 1ull << (id % 61); return intern(t); }
Expr* Ctx::mk(Op op, u8 w, Expr* a, Expr* b, Expr* c, u64 aux, u8 sub) {
  Expr t; memset(&t, 0, sizeof t); t.op = op; t.w = w; t.k[0] = a; t.k[1] = b; t.k[2] = c; t.aux = aux; t.sub = sub;
  if (op == O_FPOP) t.flags |= XF_FP;
  return intern(t);
}
static bool isc(Expr* e) { return e->op == O_CONST; }
static bool isc(Expr* e, u64 v) { return e->op == O_CONST && e->aux == v; }
Expr* Ctx::not1(Expr* a) { if (isc(a)) return a->aux ? FALSE : TRUE; if (a->op == O_NOT) return a->k[0]; return mk(O_NOT, 1, a); }
Expr* Ctx::and1(Expr* a, Expr* b) { if (isc(a)) return a->aux ? b : FALSE; if (isc(b)) return b->aux ? a : FALSE; if (a == b) return a; if (not1(a) == b) return FALSE; return mk(O_AND, 1, a, b); }
Expr* Ctx::or1(Expr* a, Expr* b) { return not1(and1(not1(a), not1(b))); }
static bool srange(Expr* e, i64& lo, i64& hi) {  // signed range when the sign bit is known
  u64 sb = 1ull << (e->w - 1);
  if (e->umax < sb) { lo = e->umin; hi = e->umax; return true; }
  if (e->umin >= sb) { lo = sextw(e->umin, e->w); hi = sextw(e->umax, e->w); return true; }
  if (e->op == O_SEXT) { Expr* k = e->k[0]; if (!srange(k, lo, hi)) { lo = sextw(1ull << (k->w - 1), k->w); hi = (i64)(maskw(k->w) >> 1); } return true; }
  if (e->op == O_ADD && e->k[1]->op == O_CONST) {
    i64 l, h; if (srange(e->k[0], l, h)) { i64 c = sextw(e->k[1]->aux, e->w); i64 mx = (i64)(maskw(e->w) >> 1), mn = -mx - 1;
      __int128 a = (__int128)l + c, b = (__int128)h + c; if (a >= mn && b <= mx) { lo = (i64)a; hi = (i64)b; return true; } }
  }
  if (e->op == O_ITE) { i64 l1, h1, l2, h2; if (srange(e->k[1], l1, h1) && srange(e->k[2], l2, h2)) { lo = std::min(l1, l2); hi = std::max(h1, h2); return true; } }
  return false;
}
Expr* Ctx::eq(Expr* a, Expr* b) {
  if (a == b) return TRUE;
  if (isc(a) && isc(b)) return a->aux == b->aux ? TRUE : FALSE;
  if (isc(a)) std::swap(a, b);
  if (a->umax < b->umin || b->umax < a->umin) return FALSE;
  if (isc(b)) {
    u64 c = b->aux;
    if (a->w == 1) return c ? a : not1(a);
    if (a->op == O_ZEXT) return eq(a->k[0], cst(c, a->k[0]->w));
    if (a->op == O_SEXT) { u64 t = c & maskw(a->k[0]->w); if (((u64)sextw(t, a->k[0]->w) & maskw(a->w)) != c) return FALSE; return eq(a->k[0], cst(t, a->k[0]->w)); }
    if (a->op == O_ADD && isc(a->k[1])) return eq(a->k[0], cst(c - a->k[1]->aux, a->w));
    if (a->op == O_XOR && isc(a->k[1])) return eq(a->k[0], cst(c ^ a->k[1]->aux, a->w));
    if (a->op == O_ITE) {
      Expr *x = a->k[1], *y = a->k[2];
      if (isc(x) && isc(y)) { bool tx = x->aux == c, ty = y->aux == c; if (tx && ty) return TRUE; if (tx) return a->k[0]; if (ty) return not1(a->k[0]); return FALSE; }
      if (isc(x) && x->aux != c) return and1(not1(a->k[0]), eq(y, b));
      if (isc(y) && y->aux != c) return and1(a->k[0], eq(x, b));
    }
    if (a->op == O_CONCAT) { Expr *h = a->k[0], *l = a->k[1]; return and1(eq(h, cst(c >> l->w, h->w)), eq(l, cst(c, l->w))); }
  } else if (a->op == O_ADD && b->op == O_ADD && isc(a->k[1]) && a->k[1] == b->k[1]) return eq(a->k[0], b->k[0]);
  else if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return eq(a->k[0], b->k[0]);
  if (!isc(b) && a->id > b->id) std::swap(a, b);
  return mk(O_EQ, 1, a, b);
}
Expr* Ctx::ult(Expr* a, Expr* b) {
  if (a == b) return FALSE;
  if (a->umax < b->umin) return TRUE;
  if (a->umin >= b->umax) return FALSE;
  if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return ult(a->k[0], b->k[0]);
  if (a->op == O_ZEXT && isc(b)) return ult(a->k[0], cst(b->aux, a->k[0]->w));
  if (b->op == O_ZEXT && isc(a)) return ult(cst(a->aux, b->k[0]->w), b->k[0]);
  if (isc(b, 1)) return eq(a, cst(0, a->w));
  if (a->w == 1) return and1(not1(a), b);
  return mk(O_ULT, 1, a, b);
}
Expr* Ctx::slt(Expr* a, Expr* b) {
  if (a == b) return FALSE;
  i64 l1, h1, l2, h2; bool r1 = srange(a, l1, h1), r2 = srange(b, l2, h2);
  if (r1 && r2) { if (h1 < l2) return TRUE; if (l1 >= h2) return FALSE; if (l1 >= 0 && l2 >= 0) return ult(a, b); 
    if (a->op == O_ADD && isc(a->k[1]) && isc(b)) { // offset form
      i64 xl, xh; if (srange(a->k[0], xl, xh)) { __int128 c = (__int128)l2 - sextw(a->k[1]->aux, a->w); i64 mx = (i64)(maskw(a->w) >> 1), mn = -mx - 1; if (c >= mn && c <= mx) return slt(a->k[0], cst((u64)(i64)c, a->w)); } }
    if (b->op == O_ADD && isc(b->k[1]) && isc(a)) {
      i64 xl, xh; if (srange(b->k[0], xl, xh)) { __int128 c = (__int128)l1 - sextw(b->k[1]->aux, b->w); i64 mx = (i64)(maskw(b->w) >> 1), mn = -mx - 1; if (c >= mn && c <= mx) return slt(cst((u64)(i64)c, b->w), b->k[0]); } }
    if (a->op == O_ADD && b->op == O_ADD && isc(a->k[1]) && a->k[1] == b->k[1]) { i64 p, q, r, s; if (srange(a->k[0], p, q) && srange(b->k[0], r, s)) return slt(a->k[0], b->k[0]); }
  }
  if (a->w == 1) return and1(a, not1(b));
  return mk(O_SLT, 1, a, b);
}
Expr* Ctx::ite(Expr* c, Expr* a, Expr* b) {
  if (isc(c)) return c->aux ? a : b;
  if (a == b) return a;
  if (c->op == O_NOT) { c = c->k[0]; std::swap(a, b); }
  if (a->w == 1) { if (isc(a, 1) && isc(b, 0)) return c; if (isc(a, 0) && isc(b, 1)) return not1(c); if (isc(a)) return a->aux ? or1(c, b) : and1(not1(c), b); if (isc(b)) return b->aux ? or1(not1(c), a) : and1(c, a); }
  if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
  return mk(O_ITE, a->w, c, a, b);
}
Expr* Ctx::zext(Expr* a, u8 w) {
  if (a->w == w) return a;
  if (isc(a)) return cst(a->aux, w);
  if (a->op == O_ZEXT) return zext(a->k[0], w);
  if (a->op == O_ITE && isc(a->k[1]) && isc(a->k[2])) return ite(a->k[0], cst(a->k[1]->aux, w), cst(a->k[2]->aux, w));
  return mk(O_ZEXT, w, a);
}
Expr* Ctx::sext(Expr* a, u8 w) {
  if (a->w == w) return a;
  if (isc(a)) return cst((u64)sextw(a->aux, a->w), w);
  if (a->umax < (1ull << (a->w - 1))) return zext(a, w);
  if (a->op == O_SEXT) return sext(a->k[0], w);
  if (a->op == O_ADD && isc(a->k[1])) { i64 l, h, l0, h0; if (srange(a, l, h) && srange(a->k[0], l0, h0)) return bin(O_ADD, w, sext(a->k[0], w), cst((u64)sextw(a->k[1]->aux, a->w), w)); }
  return mk(O_SEXT, w, a);
}
Expr* Ctx::extract(Expr* a, unsigned lo, u8 w) {
  if (lo == 0 && w == a->w) return a;
  if (isc(a)) return cst(a->aux >> lo, w);
  if (a->op == O_EXTRACT) return extract(a->k[0], lo + a->aux, w);
  if (a->op == O_CONCAT) { unsigned lw = a->k[1]->w; if (lo >= lw) return extract(a->k[0], lo - lw, w); if (lo + w <= lw) return extract(a->k[1], lo, w); }
  if (a->op == O_ZEXT || a->op == O_SEXT) { unsigned kw = a->k[0]->w; if (lo + w <= kw) return extract(a->k[0], lo, w); if (a->op == O_ZEXT && lo >= kw) return cst(0, w); if (lo == 0) return a->op == O_ZEXT ? zext(a->k[0], w) : sext(a->k[0], w); }
  if (lo == 0 && (a->op == O_ADD || a->op == O_SUB || a->op == O_MUL || a->op == O_AND || a->op == O_OR || a->op == O_XOR)) return bin((Op)a->op, w, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
  if (a->op == O_ITE && (isc(a->k[1]) || isc(a->k[2]))) return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
  return mk(O_EXTRACT, w, a, nullptr, nullptr, lo);
}
Expr* Ctx::concat(Expr* h, Expr* l) {
  u8 w = h->w + l->w;
  if (isc(h) && isc(l)) return cst((h->aux << l->w) | l->aux, w);
  if (isc(h, 0)) return zext(l, w);
  if (h->op == O_EXTRACT && l->op == O_EXTRACT && h->k[0] == l->k[0] && h->aux == l->aux + l->w) return extract(h->k[0], l->aux, w);
  if (l->op == O_EXTRACT && h->op == O_EXTRACT && h->k[0] == l->k[0]) {}
  return mk(O_CONCAT, w, h, l);
}
static u64 cbin(Op op, u8 w, u64 a, u64 b) {
  u64 m = maskw(w);
  switch (op) {
    case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? a / b : m; case O_UREM: return b ? a % b : a;
    case O_SDIV: { i64 x = sextw(a, w), y = sextw(b, w); if (y == 0) return x >= 0 ? m : 1; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
    case O_SREM: { i64 x = sextw(a, w), y = sextw(b, w); if (y == 0) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & m; case O_LSHR: return b >= w ? 0 : a >> b;
    case O_ASHR: { i64 x = sextw(a, w); return (u64)(x >> (b >= w ? w - 1 : b)) & m; }
    default: abort();
  }
}
Expr* Ctx::bin(Op op, u8 w, Expr* a, Expr* b) {
  if (isc(a) && isc(b)) return cst(cbin(op, w, a->aux, b->aux), w);
  bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR;
  if (comm && isc(a)) std::swap(a, b);
  if (w == 1) {
    if (op == O_AND) return and1(a, b);
    if (op == O_OR) return or1(a, b);
    if (op == O_XOR || op == O_ADD || op == O_SUB) { if (isc(b)) return b->aux ? not1(a) : a; if (isc(a)) return a->aux ? not1(b) : b; return not1(eq(a, b)); }
    if (op == O_MUL) return and1(a, b);
  }
  switch (op) {
    case O_ADD: if (isc(b, 0)) return a; if (isc(b) && a->op == O_ADD && isc(a->k[1])) return bin(O_ADD, w, a->k[0], cst(a->k[1]->aux + b->aux, w));
      if (a->op == O_ADD && isc(a->k[1]) && !isc(b)) return bin(O_ADD, w, bin(O_ADD, w, a->k[0], b), a->k[1]);
      if (!isc(b) && b->op == O_ADD && isc(b->k[1])) return bin(O_ADD, w, bin(O_ADD, w, a, b->k[0]), b->k[1]);
      break;
    case O_SUB: if (a == b) return cst(0, w); if (isc(b)) return bin(O_ADD, w, a, cst(0 - b->aux, w));
      if (a->op == O_ADD && a->k[0] == b) return a->k[1]; if (a->op == O_ADD && a->k[1] == b) return a->k[0];
      if (a->op == O_ADD && isc(a->k[1])) return bin(O_ADD, w, bin(O_SUB, w, a->k[0], b), a->k[1]);
      if (b->op == O_ADD && isc(b->k[1])) return bin(O_ADD, w, bin(O_SUB, w, a, b->k[0]), cst(0 - b->k[1]->aux, w));
      break;
    case O_MUL: if (isc(b, 0)) return b; if (isc(b, 1)) return a; break;
    case O_UDIV: if (isc(b, 1)) return a; if (isc(b) && b->aux && !(b->aux & (b->aux - 1))) return bin(O_LSHR, w, a, cst(__builtin_ctzll(b->aux), w)); if (isc(b) && a->umax < b->aux) return cst(0, w); break;
    case O_UREM: if (isc(b, 1)) return cst(0, w); if (isc(b) && b->aux && !(b->aux & (b->aux - 1))) return bin(O_AND, w, a, cst(b->aux - 1, w)); if (isc(b) && a->umax < b->aux) return a; break;
    case O_SDIV: case O_SREM: if (isc(b) && a->umax < (1ull << (w - 1)) && b->aux < (1ull << (w - 1))) return bin(op == O_SDIV ? O_UDIV : O_UREM, w, a, b); break;
    case O_AND: if (isc(b, 0)) return b; if (isc(b, maskw(w))) return a; if (a == b) return a;
      if (isc(b) && !(b->aux & (b->aux + 1))) { int n = 64 - __builtin_clzll(b->aux); if (a->umax <= b->aux) return a; return zext(extract(a, 0, n), w); } break;
    case O_OR: if (isc(b, 0)) return a; if (isc(b, maskw(w))) return b; if (a == b) return a;
      // (zext x) | (y << n) -> concat
      { Expr *x = a, *y = b; for (int s = 0; s < 2; ++s, std::swap(x, y)) if (y->op == O_SHL && isc(y->k[1])) { unsigned n = y->k[1]->aux; if (n > 0 && n < w && x->umax <= maskw(n)) return concat(extract(y->k[0], 0, w - n), extract(x, 0, n)); 
         } else if (y->op == O_CONCAT && isc(y->k[1], 0) && x->umax <= maskw(y->k[1]->w)) return concat(y->k[0], extract(x, 0, y->k[1]->w)); }
      break;
    case O_XOR: if (isc(b, 0)) return a; if (a == b) return cst(0, w); break;
    case O_SHL: if (isc(b, 0)) return a; if (isc(b)) { if (b->aux >= w) return cst(0, w); return concat(extract(a, 0, w - b->aux), cst(0, b->aux)); } break;
    case O_LSHR: if (isc(b, 0)) return a; if (isc(b)) { if (b->aux >= w) return cst(0, w); return zext(extract(a, b->aux, w - b->aux), w); } break;
    case O_ASHR: if (isc(b, 0)) return a; if (isc(b)) { u64 s = std::min<u64>(b->aux, w - 1); return sext(extract(a, s, w - s), w); } break;
    default: break;
  }
  if (comm && !isc(b) && a->id > b->id) std::swap(a, b);
  return mk(op, w, a, b);
}
static bool fcmpc(Op op, u8 w, u64 a, u64 b) {
  double x = dbl_of_bits(a, w), y = dbl_of_bits(b, w);
  switch (op) { case O_FEQ: return x == y; case O_FLT: return x < y; case O_FLE: return x <= y; default: return x != x || y != y; }
}
Expr* Ctx::fcmpbits(Op op, u8 w, Expr* a, Expr* b) {
  if (isc(a) && isc(b)) return fcmpc(op, w, a->aux, b->aux) ? TRUE : FALSE;
  // Encoded directly over the bit patterns (sign/magnitude ordering), no floating-point theory needed.
  unsigned eb = w == 32 ? 8 : 11, mb = w == 32 ? 23 : 52; (void)eb;
  auto isnan = [&](Expr* x) -> Expr* { if (isc(x)) { double d = dbl_of_bits(x->aux, w); return d != d ? TRUE : FALSE; } Expr* mag = extract(x, 0, w - 1); return ult(cst((maskw(eb) << mb), w - 1), mag); };
  if (op == O_FUNO) return a == b ? isnan(a) : or1(isnan(a), isnan(b));
  Expr* num = and1(not1(isnan(a)), not1(isnan(b)));
  if (a == b) return op == O_FLT ? FALSE : num;
  Expr *ma = extract(a, 0, w - 1), *mb2 = extract(b, 0, w - 1), *sa = extract(a, w - 1, 1), *sb = extract(b, w - 1, 1);
  Expr* bothz = and1(eq(ma, cst(0, w - 1)), eq(mb2, cst(0, w - 1)));
  if (op == O_FEQ) return and1(num, or1(bothz, eq(a, b)));
  // a < b : sa&!sb&!bothz | !sa&!sb&ma<mb | sa&sb&mb<ma
  Expr* lt = ite(sa, ite(sb, ult(mb2, ma), not1(bothz)), ite(sb, FALSE, ult(ma, mb2)));
  if (op == O_FLT) return and1(num, lt);
  Expr* gt = ite(sb, ite(sa, ult(ma, mb2), not1(bothz)), ite(sa, FALSE, ult(mb2, ma)));
  return and1(num, not1(gt));
}
Expr* Ctx::fpop(Fop f, u8 w, Expr* a, Expr* b) {
  if (isc(a) && (!b || isc(b))) return cst(host_fop(f, w, a->aux, b ? b->aux : 0, a->w), w);
  if (f == F_NEG) return bin(O_XOR, w, a, cst(1ull << (w - 1), w));
  if (f == F_ABS) return concat(cst(0, 1), extract(a, 0, w - 1));
  return mk(O_FPOP, w, a, b, nullptr, 0, f);
}
// ---- numbers ----------------------------------------------------------------------------------
u32 Ctx::atom_bv(Expr* e, bool sgn, i64 off, i64 lo, i64 hi) {
  auto& v = atomidx[e->hash];
  for (u32 i : v) if (!atoms[i].real && atoms[i].e == e && atoms[i].sgn == sgn && atoms[i].off == off) return i;
  Atom a; a.e = e; a.var = ~0u; a.sgn = sgn; a.off = off; a.lo = lo; a.hi = hi; a.dlo = lo; a.dhi = hi; a.real = false;
  atoms.push_back(a); v.push_back(atoms.size() - 1); return atoms.size() - 1;
}
u32 Ctx::atom_real(u32 var, double lo, double hi) {
  auto& v = atomidx[0x12345678ull + var];
  for (u32 i : v) if (atoms[i].real && atoms[i].var == var) return i;
  Atom a; a.e = nullptr; a.var = var; a.sgn = false; a.off = 0; a.lo = a.hi = 0; a.dlo = lo; a.dhi = hi; a.real = true;
  atoms.push_back(a); v.push_back(atoms.size() - 1); return atoms.size() - 1;
}
static double dn(double x) { return x - fabs(x) * 1e-15 - 1e-320; }
static double up(double x) { return x + fabs(x) * 1e-15 + 1e-320; }
static double ratd(const Rat& r) { return r.convert_to<double>(); }
void Ctx::bounds(Num& n) {
  double lo = 0, hi = 0; n.real = false;
  for (auto& t : n.p) {
    double l = 1, h = 1;
    for (size_t i = 0; i < t.m.a.size();) {
      size_t j = i; while (j < t.m.a.size() && t.m.a[j] == t.m.a[i]) ++j;
      Atom& a = atoms[t.m.a[i]]; if (a.real) n.real = true;
      unsigned k = j - i; double x = pow(a.dlo, k), y = pow(a.dhi, k), pl, ph;
      if (k % 2 == 0 && a.dlo < 0) { ph = std::max(x, y); pl = a.dhi > 0 ? 0 : std::min(x, y); } else { pl = std::min(x, y); ph = std::max(x, y); }
      auto mul = [](double p, double q) { return p == 0 || q == 0 ? 0.0 : p * q; };
      double c[4] = {mul(l, pl), mul(l, ph), mul(h, pl), mul(h, ph)};
      l = *std::min_element(c, c + 4); h = *std::max_element(c, c + 4); i = j;
    }
    double c = ratd(t.c); double x = c * l, y = c * h; if (x > y) std::swap(x, y);
    lo = dn(lo + dn(x)); hi = up(hi + up(y));
  }
  if (n.lo == 0 && n.hi == 0) { n.lo = lo; n.hi = hi; } else { n.lo = std::max(n.lo, lo); n.hi = std::min(n.hi, hi); if (n.lo > n.hi) { n.lo = lo; n.hi = hi; } }
}
// Is every value of the (integer-atom) polynomial exactly representable with `mant` bits?
static bool exact_in(const Num& n, int mant) {
  if (n.real) return false;
  unsigned g = 0;
  for (auto& t : n.p) {
    BigInt d = boost::multiprecision::denominator(t.c);
    unsigned b = boost::multiprecision::msb(d);
    if ((BigInt(1) << b) != d) return false;
    g = std::max(g, b);
  }
  double m = std::max(fabs(n.lo), fabs(n.hi));
  return g < 1000 && m * ldexp(1.0, g) <= ldexp(1.0, mant);
}
Expr* Ctx::nummk(Fop f, u8 w, Expr* a, Expr* b, const Num& n0, u64 aux) {
  Expr t; memset(&t, 0, sizeof t); t.op = O_NUM; t.w = w; t.sub = f; t.k[0] = a; t.k[1] = b; t.aux = aux;
  // look for an existing node first
  u64 before = count;
  if (f == F_REAL) t.vmask |= 1ull << (aux % 61);
  Expr* e = intern(t);
  if (count == before) return e;
  nums.emplace_back(new Num(n0)); e->num = nums.back().get();
  for (auto& tm : e->num->p) for (u32 x : tm.m.a) { if (atoms[x].real) { e->vmask |= 1ull << (atoms[x].var % 61); e->num->real = true; } else e->vmask |= atoms[x].e->vmask; }
  if (e->num->real) e->flags |= XF_REAL;
  return e;
}
Expr* Ctx::numvar(u32 var_, i64 lo, i64 hi, i64 den) {
  VarInfo vi = g_vars.at(var_);
  Expr* v = var(var_, vi.w); ubound(v, 0, (u64)(hi - lo));
  u32 a = atom_bv(v, false, lo, lo, hi);
  Num n; n.p.push_back(Term{Mono{{a}}, Rat(1, den)}); bounds(n);
  n.err = exact_in(n, 53) ? 0 : std::max(fabs(n.lo), fabs(n.hi)) * 1.2e-16;
  return nummk(F_LEAFINT, 64, v, nullptr, n, var_);
}
Expr* Ctx::realvar(u32 var_, double lo, double hi, u8 w) {
  u32 a = atom_real(var_, lo, hi);
  Num n; n.p.push_back(Term{Mono{{a}}, Rat(1)}); n.lo = lo; n.hi = hi; n.real = true;
  return nummk(F_REAL, w, nullptr, nullptr, n, var_);
}
Expr* Ctx::num_from_int(Expr* e, bool sgn, u8 w) {
  i64 lo, hi; i64 off = 0; Expr* base = e; bool asgn = false;
  if (sgn) { if (!srange(e, lo, hi)) { lo = sextw(1ull << (e->w - 1), e->w); hi = (i64)(maskw(e->w) >> 1); asgn = true; } else if (lo < 0) asgn = true; }
  else { if (e->umax > (1ull << 62)) return nullptr; lo = e->umin; hi = e->umax; }
  // strip  zext/sext/(+const)
  for (;;) {
    if (base->op == O_ZEXT) { base = base->k[0]; asgn = false; continue; }
    if (base->op == O_SEXT) { base = base->k[0]; asgn = true; continue; }
    if (base->op == O_ADD && base->k[1]->op == O_CONST) {
      i64 l0, h0; if (srange(base->k[0], l0, h0)) { i64 c = sextw(base->k[1]->aux, base->w); __int128 a = (__int128)l0 + c, b = (__int128)h0 + c; i64 mx = (i64)(maskw(base->w) >> 1);
        if (b <= mx && a >= -(__int128)mx - 1 && (asgn || a >= 0)) { off += c; base = base->k[0]; asgn = l0 < 0; continue; } }
    }
    break;
  }
  u32 a = atom_bv(base, asgn, off, lo, hi);
  Num n; n.p.push_back(Term{Mono{{a}}, Rat(1)}); n.lo = lo; n.hi = hi;
  bool ex = exact_in(n, w == 64 ? 53 : 24);
  n.err = ex ? 0 : std::max(fabs(n.lo), fabs(n.hi)) * (w == 64 ? 1.2e-16 : 6e-8);
  return nummk(sgn ? F_SITOFP : F_UITOFP, w, e, nullptr, n);
}
Expr* Ctx::numconst(double v, u8 w) {
  Num n; n.p = poly_const(rat_of_double(v)); n.lo = n.hi = v;
  return nummk(F_CONST, w, cst(bits_of_dbl(v, w), w), nullptr, n);
}
Expr* Ctx::numop(Fop f, u8 w, Expr* a, Expr* b) {
  Num n; const Num &x = *a->num; const Num* y = b ? b->num : nullptr;
  double carry = 0;
  auto pow2 = [](const Num& q) { if (q.err != 0 || q.p.size() != 1 || !q.p[0].m.a.empty()) return false; int ex; double d = ratd(q.p[0].c); return Rat(d) == q.p[0].c && fabs(std::frexp(d, &ex)) == 0.5 && fabs(d) >= 1e-3 && fabs(d) <= 1e3; };
  auto zero = [](const Num& q) { return q.err == 0 && q.p.empty(); };
  bool noround = y && (x.real || y->real) && ((f == F_MUL && (pow2(x) || pow2(*y))) || (f == F_DIV && pow2(*y)) || ((f == F_ADD || f == F_SUB) && (zero(x) || zero(*y))));
  switch (f) {
    case F_ADD: case F_SUB:
      n.p = poly_add(x.p, y->p, f == F_SUB); carry = x.err + y->err;
      n.lo = f == F_ADD ? x.lo + y->lo : x.lo - y->hi; n.hi = f == F_ADD ? x.hi + y->hi : x.hi - y->lo; n.lo = dn(n.lo); n.hi = up(n.hi); break;
    case F_MUL: {
      n.p = poly_mul(x.p, y->p);
      double ma = std::max(fabs(x.lo), fabs(x.hi)), mb = std::max(fabs(y->lo), fabs(y->hi));
      carry = ma * y->err + mb * x.err + x.err * y->err;
      double c[4] = {x.lo * y->lo, x.lo * y->hi, x.hi * y->lo, x.hi * y->hi};
      n.lo = dn(*std::min_element(c, c + 4)); n.hi = up(*std::max_element(c, c + 4)); if (a == b && n.lo < 0) n.lo = 0; break; }
    case F_DIV: {  // by a constant
      Rat d = y->p[0].c; n.p = poly_scale(x.p, Rat(1) / d); double dd = fabs(ratd(d)); carry = x.err / dd;
      double p = x.lo / ratd(d), q = x.hi / ratd(d); n.lo = dn(std::min(p, q)); n.hi = up(std::max(p, q)); break; }
    case F_NEG: n.p = poly_scale(x.p, Rat(-1)); n.lo = -x.hi; n.hi = -x.lo; n.err = x.err; n.real = x.real; return nummk(f, w, a, b, n);
    case F_EXT: n = x; return nummk(f, w, a, b, n);
    case F_TRUNC: n.p = x.p; n.lo = x.lo; n.hi = x.hi; carry = x.err; break;
    default: abort();
  }
  bounds(n);
  double M = std::max(fabs(n.lo), fabs(n.hi)) + carry;
  int mant = w == 64 ? 53 : 24;
  if (noround) n.err = up(carry);
  else if (carry == 0 && exact_in(n, mant)) n.err = 0;
  else n.err = up(up(carry) + M * (w == 64 ? 1.1103e-16 : 5.9605e-8) + (w == 64 ? 3e-324 : 1e-45)) * (1 + 1e-12);
  return nummk(f, w, a, b, n);
}
void Ctx_fill(Ctx* c, Expr* e);
Expr* Ctx::ncmp(int kind, const Poly& p0) {
  Num n; n.p = p0; bounds(n);
  if (kind == 0) { if (n.lo > 0) return TRUE; if (n.hi <= 0) return FALSE; }
  if (kind == 1) { if (n.lo >= 0) return TRUE; if (n.hi < 0) return FALSE; }
  if (kind == 2 && (n.lo > 0 || n.hi < 0)) return FALSE;
  return ncmp_raw(kind, p0);
}
Expr* Ctx::ncmp_raw(int kind, const Poly& p0) {
  Num n; n.p = p0;
  if (n.p.empty()) return kind == 0 ? FALSE : TRUE;
  if (n.p.size() == 1 && n.p[0].m.a.empty()) { bool g = n.p[0].c > 0; return kind == 2 ? FALSE : g ? TRUE : FALSE; }
  // canonical: integer coefficients with gcd 1; equality has positive leading coefficient
  BigInt l = 1, g = 0;
  for (auto& t : n.p) l = boost::multiprecision::lcm(l, boost::multiprecision::denominator(t.c));
  for (auto& t : n.p) { BigInt c = boost::multiprecision::numerator(t.c) * (l / boost::multiprecision::denominator(t.c)); g = g == 0 ? BigInt(abs(c)) : BigInt(boost::multiprecision::gcd(g, c)); }
  Rat s = Rat(l) / Rat(g); if (kind == 2 && n.p.back().c < 0) s = -s;
  bool neg = false;
  if (kind != 2 && n.p.back().c < 0) { neg = true; s = -s; }   // p>0 with negative lead == !( -p >= 0 )
  n.p = poly_scale(n.p, s); n.lo = n.hi = 0; bounds(n);
  if (neg) kind = kind == 0 ? 1 : 0;
  Expr t; memset(&t, 0, sizeof t); t.op = O_NCMP; t.w = 1; t.sub = kind; u64 h = 99;
  for (auto& tm : n.p) { for (u32 a : tm.m.a) h = mix(h, atoms[a].real ? atoms[a].var * 7919ull : atoms[a].e->hash + atoms[a].off * 31 + atoms[a].sgn); h = mix(h, std::hash<string>()(tm.c.str())); }
  t.aux = h;
  u64 before = count; Expr* r = intern(t);
  if (count != before) { nums.emplace_back(new Num(n)); r->num = nums.back().get(); Ctx_fill(this, r); }
  return neg ? not1(r) : r;
}
void Ctx_fill(Ctx* c, Expr* e) {
  Num& n = *e->num; double bound = 0; n.real = false;
  for (auto& tm : n.p) { double b = fabs(ratd(tm.c)); for (u32 x : tm.m.a) { Atom& a = c->atoms[x]; if (a.real) { e->vmask |= 1ull << (a.var % 61); n.real = true; } else e->vmask |= a.e->vmask, e->flags |= a.e->flags; b *= std::max(1.0, std::max(fabs(a.dlo), fabs(a.dhi))); } bound += b; }
  if (n.real) e->flags |= XF_REAL;
  if (!n.real && bound < 1e36) { n.iform = true; for (auto& tm : n.p) n.it.push_back({(i128)boost::multiprecision::numerator(tm.c), tm.m.a}); }
}
Expr* Ctx::numcmp(int kind, Expr* a, Expr* b) {
  if (a == b) return kind == 0 ? FALSE : TRUE;
  const Num &x = *a->num, &y = *b->num;
  double lo = dn(x.lo - y.hi), hi = up(x.hi - y.lo), E = x.err + y.err;
  if (x.err == 0 && y.err == 0) {
    if (kind == 0 || kind == 1) { if (lo > 0) return TRUE; if (hi < 0) return FALSE; }
    if (kind == 2 && (lo > 0 || hi < 0)) return FALSE;
    return ncmp(kind, poly_add(x.p, y.p, true));
  }
  E = up(E) * (1 + 1e-12);
  if (lo > E) return kind == 2 ? FALSE : TRUE;
  if (hi < -E) return FALSE;
  Poly d = poly_add(x.p, y.p, true); Poly ec = poly_const(rat_of_double(E));
  // certainly greater: d - E > 0 ; certainly less: -d - E > 0
  Expr* cg = ncmp(0, poly_add(d, ec, true));
  Expr* cl = ncmp(0, poly_add(poly_scale(d, Rat(-1)), ec, true));
  if (cg == TRUE) return kind == 2 ? FALSE : TRUE;
  if (cl == TRUE) return FALSE;
  bool sw = a->hash > b->hash; u64 h = sw ? mix(mix(b->hash, 5), a->hash) : mix(mix(a->hash, 5), b->hash);
  char nm[40]; snprintf(nm, sizeof nm, "~t%016llx", (unsigned long long)h);
  Expr* tg = var(g_vars.get(string(nm) + "g", 1, 2), 1); Expr* tl = var(g_vars.get(string(nm) + "l", 1, 2), 1);
  tg->flags |= XF_TIE; tl->flags |= XF_TIE; ++tiecount;
  Expr *gt = sw ? and1(tl, not1(tg)) : tg, *eqv = and1(not1(tg), not1(tl));
  Expr* r = kind == 0 ? gt : kind == 1 ? or1(gt, eqv) : eqv;
  return kind == 2 ? and1(and1(not1(cg), not1(cl)), r) : or1(cg, and1(not1(cl), r));
}
// ---- evaluation ---------------------------------------------------------------------------------
void Ctx::setmodel(ModelP m) { model = m; ++epoch; }
Rat Ctx::evalatom(u32 i) {
  Atom& a = atoms[i];
  if (a.real) { for (auto& p : model->re) if (p.first == a.var) return p.second; return rat_of_double(a.dlo > 0 ? a.dlo : a.dhi < 0 ? a.dhi : 0.0); }
  u64 v = eval(a.e); i64 s = a.sgn ? sextw(v, a.e->w) : (i64)v;
  return Rat(BigInt(s) + a.off);
}
Rat Ctx::evalpoly(const Poly& p) {
  Rat r = 0;
  for (auto& t : p) { Rat m = t.c; for (u32 a : t.m.a) m *= evalatom(a); r += m; }
  return r;
}
u64 Ctx::eval(Expr* e) {
  if (e->op == O_CONST) return e->aux;
  if (e->epoch == epoch) return e->val;
  u64 v = 0;
  switch (e->op) {
    case O_VAR: v = e->aux < model->bv.size() ? model->bv[e->aux] & maskw(e->w) : 0; break;
    case O_NOT: v = !eval(e->k[0]); break;
    case O_EQ: v = eval(e->k[0]) == eval(e->k[1]); break;
    case O_ULT: v = eval(e->k[0]) < eval(e->k[1]); break;
    case O_SLT: v = sextw(eval(e->k[0]), e->k[0]->w) < sextw(eval(e->k[1]), e->k[0]->w); break;
    case O_ITE: v = eval(e->k[0]) ? eval(e->k[1]) : eval(e->k[2]); break;
    case O_ZEXT: v = eval(e->k[0]); break;
    case O_SEXT: v = (u64)sextw(eval(e->k[0]), e->k[0]->w) & maskw(e->w); break;
    case O_EXTRACT: v = (eval(e->k[0]) >> e->aux) & maskw(e->w); break;
    case O_CONCAT: v = (eval(e->k[0]) << e->k[1]->w) | eval(e->k[1]); break;
    case O_FEQ: case O_FLT: case O_FLE: case O_FUNO: v = fcmpc(e->op, e->k[0]->w, eval(e->k[0]), eval(e->k[1])); break;
    case O_FPOP: v = host_fop((Fop)e->sub, e->w, eval(e->k[0]), e->k[1] ? eval(e->k[1]) : 0, e->k[0]->w); break;
    case O_NUM:
      switch (e->sub) {
        case F_LEAFINT: { Rat r = evalpoly(e->num->p); v = bits_of_dbl(ratd(r), e->w); } break;
        case F_REAL: v = bits_of_dbl(ratd(evalpoly(e->num->p)), e->w); break;
        case F_CONST: v = e->k[0]->aux; break;
        default: v = host_fop((Fop)e->sub, e->w, eval(e->k[0]), e->k[1] ? eval(e->k[1]) : 0, e->k[0]->w);
      }
      break;
    case O_NCMP: {
      Num& n = *e->num; int s;
      if (n.iform) { i128 r = 0; for (auto& t : n.it) { i128 m = t.first; for (u32 x : t.second) { Atom& a = atoms[x]; u64 q = eval(a.e); m *= (a.sgn ? sextw(q, a.e->w) : (i64)q) + a.off; } r += m; } s = r > 0 ? 1 : r < 0 ? -1 : 0; }
      else { Rat r = evalpoly(n.p); s = r > 0 ? 1 : r < 0 ? -1 : 0; }
      v = e->sub == 0 ? s > 0 : e->sub == 1 ? s >= 0 : s == 0;
    } break;
    default: v = cbin(e->op, e->w, eval(e->k[0]), eval(e->k[1]));
  }
  e->epoch = epoch; e->val = v; return v;
}
// ---- z3 -----------------------------------------------------------------------------------------
static Z3_sort bvs(Z3_context z, unsigned w) { return Z3_mk_bv_sort(z, w); }
static Z3_sort fps(Z3_context z, unsigned w) {   // kept alive per context
  static thread_local Z3_context last = nullptr; static thread_local Z3_sort s32, s64;
  if (last != z) { last = z; s32 = Z3_mk_fpa_sort_32(z); Z3_inc_ref(z, Z3_sort_to_ast(z, s32)); s64 = Z3_mk_fpa_sort_64(z); Z3_inc_ref(z, Z3_sort_to_ast(z, s64)); }
  return w == 32 ? s32 : s64;
}
Z3_ast Ctx::tofp(Expr* e) {
  if (e->op == O_FPOP) {
    Z3_ast rm = hold(Z3_mk_fpa_rne(z));
    auto k = [&](int i) { return tofp(e->k[i]); };
    switch (e->sub) {
      case F_ADD: return hold(Z3_mk_fpa_add(z, rm, k(0), k(1)));
      case F_SUB: return hold(Z3_mk_fpa_sub(z, rm, k(0), k(1)));
      case F_MUL: return hold(Z3_mk_fpa_mul(z, rm, k(0), k(1)));
      case F_DIV: return hold(Z3_mk_fpa_div(z, rm, k(0), k(1)));
      case F_SQRT: return hold(Z3_mk_fpa_sqrt(z, rm, k(0)));
      case F_EXT: case F_TRUNC: return hold(Z3_mk_fpa_to_fp_float(z, rm, k(0), fps(z, e->w)));
      case F_SITOFP: return hold(Z3_mk_fpa_to_fp_signed(z, rm, tobv(e->k[0]), fps(z, e->w)));
      case F_UITOFP: return hold(Z3_mk_fpa_to_fp_unsigned(z, rm, tobv(e->k[0]), fps(z, e->w)));
      case F_FLOOR: return hold(Z3_mk_fpa_round_to_integral(z, hold(Z3_mk_fpa_rtn(z)), k(0)));
      case F_CEIL: return hold(Z3_mk_fpa_round_to_integral(z, hold(Z3_mk_fpa_rtp(z)), k(0)));
      default: break;
    }
  }
  return hold(Z3_mk_fpa_to_fp_bv(z, tobv(e), fps(z, e->w)));
}
Z3_ast Ctx::tobv(Expr* e) {
  if (e->zbv) return e->zbv;
  Z3_ast r = nullptr;
  auto k = [&](int i) { return tobv(e->k[i]); };
  if (e->w == 1 && e->op != O_CONST && e->op != O_EXTRACT && e->op != O_VAR) {
    Z3_ast b = tobool(e, false);
    r = Z3_mk_ite(z, b, hold(Z3_mk_unsigned_int64(z, 1, bvs(z, 1))), hold(Z3_mk_unsigned_int64(z, 0, bvs(z, 1))));
    return e->zbv = hold(r);
  }
  switch (e->op) {
    case O_CONST: r = Z3_mk_unsigned_int64(z, e->aux, bvs(z, e->w)); break;
    case O_VAR: {
      if (e->w == 1) { r = Z3_mk_ite(z, tobool(e, false), hold(Z3_mk_unsigned_int64(z, 1, bvs(z, 1))), hold(Z3_mk_unsigned_int64(z, 0, bvs(z, 1)))); break; }
      r = Z3_mk_const(z, Z3_mk_int_symbol(z, e->aux), bvs(z, e->w)); break; }
    case O_ADD: r = Z3_mk_bvadd(z, k(0), k(1)); break;
    case O_SUB: r = Z3_mk_bvsub(z, k(0), k(1)); break;
    case O_MUL: r = Z3_mk_bvmul(z, k(0), k(1)); break;
    case O_UDIV: r = Z3_mk_bvudiv(z, k(0), k(1)); break;
    case O_SDIV: r = Z3_mk_bvsdiv(z, k(0), k(1)); break;
    case O_UREM: r = Z3_mk_bvurem(z, k(0), k(1)); break;
    case O_SREM: r = Z3_mk_bvsrem(z, k(0), k(1)); break;
    case O_AND: r = Z3_mk_bvand(z, k(0), k(1)); break;
    case O_OR: r = Z3_mk_bvor(z, k(0), k(1)); break;
    case O_XOR: r = Z3_mk_bvxor(z, k(0), k(1)); break;
    case O_SHL: r = Z3_mk_bvshl(z, k(0), k(1)); break;
    case O_LSHR: r = Z3_mk_bvlshr(z, k(0), k(1)); break;
    case O_ASHR: r = Z3_mk_bvashr(z, k(0), k(1)); break;
    case O_ITE: { Z3_ast c = tobool(e->k[0], false); r = Z3_mk_ite(z, c, k(1), k(2)); } break;
    case O_ZEXT: r = Z3_mk_zero_ext(z, e->w - e->k[0]->w, k(0)); break;
    case O_SEXT: r = Z3_mk_sign_ext(z, e->w - e->k[0]->w, k(0)); break;
    case O_EXTRACT: r = Z3_mk_extract(z, e->aux + e->w - 1, e->aux, k(0)); break;
    case O_CONCAT: r = Z3_mk_concat(z, k(0), k(1)); break;
    case O_FPOP:
      if (e->sub == F_TOSI) r = Z3_mk_fpa_to_sbv(z, hold(Z3_mk_fpa_rtz(z)), tofp(e->k[0]), e->w);
      else if (e->sub == F_TOUI) r = Z3_mk_fpa_to_ubv(z, hold(Z3_mk_fpa_rtz(z)), tofp(e->k[0]), e->w);
      else r = Z3_mk_fpa_to_ieee_bv(z, tofp(e));
      break;
    default: fprintf(stderr, "tobv: unexpected op %d\n", e->op); abort();
  }
  return e->zbv = hold(r);
}
static unsigned bitsof(const BigInt& b) { return b == 0 ? 1 : boost::multiprecision::msb(b) + 1; }
// A comparison over few small variables is encoded as the exact set of values that satisfy it.
Z3_ast Ctx::ncmpset(Expr* e) {
  Num& n = *e->num; vector<u32> as; BigInt bound = 0; u64 prod = 1;
  for (auto& t : n.p) {
    BigInt b = abs(boost::multiprecision::numerator(t.c));
    for (u32 x : t.m.a) { Atom& a = atoms[x]; if (a.real) return nullptr; b *= std::max(abs(BigInt(a.lo)), abs(BigInt(a.hi))); if (std::find(as.begin(), as.end(), x) == as.end()) { as.push_back(x); u64 d = (u64)(a.hi - a.lo) + 1; if (d > 2000) return nullptr; prod *= d; if (prod > 2000) return nullptr; } }
    bound += b;
  }
  if (as.empty() || as.size() > 4 || bitsof(bound) > 120) return nullptr;
  struct T { __int128 c; vector<int> v; }; vector<T> ts;
  for (auto& t : n.p) { T q; BigInt c = boost::multiprecision::numerator(t.c); q.c = (__int128)c; for (u32 x : t.m.a) q.v.push_back(std::find(as.begin(), as.end(), x) - as.begin()); ts.push_back(q); }
  vector<i64> val(as.size());
  auto holds = [&] { __int128 sum = 0; for (auto& t : ts) { __int128 m = t.c; for (int i : t.v) m *= val[i]; sum += m; } return e->sub == 0 ? sum > 0 : e->sub == 1 ? sum >= 0 : sum == 0; };
  auto at = [&](size_t i, i64 v) { Atom& a = atoms[as[i]]; return hold(Z3_mk_int64(z, v - a.off, bvs(z, a.e->w))); };
  auto le = [&](size_t i, Z3_ast x, Z3_ast y) { return hold(atoms[as[i]].sgn ? Z3_mk_bvsle(z, x, y) : Z3_mk_bvule(z, x, y)); };
  std::function<Z3_ast(size_t)> go = [&](size_t i) -> Z3_ast {
    Atom& a = atoms[as[i]]; Z3_ast v = tobv(a.e); vector<std::pair<Z3_ast, std::pair<i64, i64>>> runs;
    i64 start = a.lo; bool open = false;
    for (i64 x = a.lo; x <= a.hi + 1; ++x) {
      if (i + 1 < as.size()) { if (x > a.hi) break; val[i] = x; Z3_ast s = go(i + 1); if (!runs.empty() && runs.back().first == s) runs.back().second.second = x; else runs.push_back({s, {x, x}}); }
      else { bool h = false; if (x <= a.hi) { val[i] = x; h = holds(); } if (h && !open) { open = true; start = x; } if (!h && open) { open = false; runs.push_back({zt(), {start, x - 1}}); } }
    }
    vector<Z3_ast> os;
    for (auto& r : runs) {
      if (r.first == zf()) continue;
      vector<Z3_ast> cs; if (r.first != zt()) cs.push_back(r.first);
      if (r.second.first == r.second.second) cs.push_back(hold(Z3_mk_eq(z, v, at(i, r.second.first))));
      else { if (r.second.first > a.lo) cs.push_back(le(i, at(i, r.second.first), v)); if (r.second.second < a.hi) cs.push_back(le(i, v, at(i, r.second.second))); }
      os.push_back(cs.empty() ? zt() : cs.size() == 1 ? cs[0] : hold(Z3_mk_and(z, cs.size(), cs.data())));
    }
    return os.empty() ? zf() : os.size() == 1 ? os[0] : hold(Z3_mk_or(z, os.size(), os.data()));
  };
  return go(0);
}
Z3_ast Ctx::ncmpbv(Expr* e) {
  if (Z3_ast s = ncmpset(e)) return s;
  Num& n = *e->num; BigInt bound = 0;
  for (auto& t : n.p) { BigInt b = abs(boost::multiprecision::numerator(t.c)); for (u32 x : t.m.a) { Atom& a = atoms[x]; BigInt m = std::max(abs(BigInt(a.lo)), abs(BigInt(a.hi))); b *= m == 0 ? BigInt(1) : m; } bound += b; }
  unsigned W = bitsof(bound) + 2; if (W < 8) W = 8;
  auto atomz = [&](u32 x, unsigned w) -> Z3_ast {
    Atom& a = atoms[x]; Z3_ast v = tobv(a.e); unsigned vw = a.e->w;
    if (vw < w) v = hold(a.sgn ? Z3_mk_sign_ext(z, w - vw, v) : Z3_mk_zero_ext(z, w - vw, v)); else if (vw > w) v = hold(Z3_mk_extract(z, w - 1, 0, v));
    if (a.off) v = hold(Z3_mk_bvadd(z, v, hold(Z3_mk_numeral(z, std::to_string(a.off).c_str(), bvs(z, w)))));
    return v;
  };
  Z3_ast sum = nullptr;
  for (auto& t : n.p) {
    Z3_ast m = nullptr; unsigned mw = 0; BigInt mb = 1;
    for (u32 x : t.m.a) {
      Atom& a = atoms[x]; BigInt ab = std::max(abs(BigInt(a.lo)), abs(BigInt(a.hi))); if (ab == 0) ab = 1; mb *= ab;
      unsigned nw = bitsof(mb) + 1; if (nw > W) nw = W;
      if (!m) { m = atomz(x, nw); mw = nw; }
      else { if (nw > mw) m = hold(Z3_mk_sign_ext(z, nw - mw, m)); mw = nw; m = hold(Z3_mk_bvmul(z, m, atomz(x, mw))); }
    }
    Z3_ast c = hold(Z3_mk_numeral(z, BigInt(boost::multiprecision::numerator(t.c)).str().c_str(), bvs(z, W)));
    Z3_ast term;
    if (!m) term = c; else { if (mw < W) m = hold(Z3_mk_sign_ext(z, W - mw, m)); term = t.c == 1 ? m : hold(Z3_mk_bvmul(z, c, m)); }
    sum = sum ? hold(Z3_mk_bvadd(z, sum, term)) : term;
  }
  Z3_ast zero = hold(Z3_mk_unsigned_int64(z, 0, bvs(z, W)));
  return e->sub == 0 ? Z3_mk_bvsgt(z, sum, zero) : e->sub == 1 ? Z3_mk_bvsge(z, sum, zero) : Z3_mk_eq(z, sum, zero);
}
static string ratstr(const Rat& r) { BigInt n = boost::multiprecision::numerator(r), d = boost::multiprecision::denominator(r); return d == 1 ? n.str() : n.str() + "/" + d.str(); }
Z3_ast Ctx::polyreal(const Poly& p) {
  Z3_sort R = Z3_mk_real_sort(z); vector<Z3_ast> ts;
  for (auto& t : p) {
    vector<Z3_ast> fs;
    if (t.c != 1 || t.m.a.empty()) fs.push_back(hold(Z3_mk_numeral(z, ratstr(t.c).c_str(), R)));
    for (u32 x : t.m.a) {
      Atom& a = atoms[x];
      if (a.real) fs.push_back(hold(Z3_mk_const(z, Z3_mk_int_symbol(z, a.var), R)));
      else { Z3_ast i = hold(Z3_mk_int2real(z, hold(Z3_mk_bv2int(z, tobv(a.e), a.sgn)))); if (a.off) { Z3_ast q[2] = {i, hold(Z3_mk_numeral(z, std::to_string(a.off).c_str(), R))}; i = hold(Z3_mk_add(z, 2, q)); } fs.push_back(i); }
    }
    ts.push_back(fs.size() == 1 ? fs[0] : hold(Z3_mk_mul(z, fs.size(), fs.data())));
  }
  if (ts.empty()) return hold(Z3_mk_numeral(z, "0", R));
  return ts.size() == 1 ? ts[0] : hold(Z3_mk_add(z, ts.size(), ts.data()));
}
Z3_ast Ctx::tobool(Expr* e, bool real) {
  Z3_ast& slot = real ? e->zboolr : e->zbool;
  if (slot) return slot;
  Z3_ast r = nullptr;
  switch (e->op) {
    case O_CONST: r = e->aux ? Z3_mk_true(z) : Z3_mk_false(z); break;
    case O_VAR: if (e->w != 1) abort(); r = Z3_mk_const(z, Z3_mk_int_symbol(z, e->aux), Z3_mk_bool_sort(z)); break;
    case O_NOT: r = Z3_mk_not(z, tobool(e->k[0], real)); break;
    case O_AND: { Z3_ast a[2] = {tobool(e->k[0], real), tobool(e->k[1], real)}; r = Z3_mk_and(z, 2, a); } break;
    case O_OR: { Z3_ast a[2] = {tobool(e->k[0], real), tobool(e->k[1], real)}; r = Z3_mk_or(z, 2, a); } break;
    case O_ITE: r = Z3_mk_ite(z, tobool(e->k[0], real), tobool(e->k[1], real), tobool(e->k[2], real)); break;
    case O_EQ: if (e->k[0]->w == 1) r = Z3_mk_iff(z, tobool(e->k[0], real), tobool(e->k[1], real)); else r = Z3_mk_eq(z, tobv(e->k[0]), tobv(e->k[1])); break;
    case O_ULT: r = Z3_mk_bvult(z, tobv(e->k[0]), tobv(e->k[1])); break;
    case O_SLT: r = Z3_mk_bvslt(z, tobv(e->k[0]), tobv(e->k[1])); break;
    case O_EXTRACT: r = Z3_mk_eq(z, tobv(e), hold(Z3_mk_unsigned_int64(z, 1, bvs(z, 1)))); break;
    case O_NCMP:
      if (e->num->real || real) {
        Z3_ast p = polyreal(e->num->p), zero = hold(Z3_mk_numeral(z, "0", Z3_mk_real_sort(z)));
        r = e->sub == 0 ? Z3_mk_gt(z, p, zero) : e->sub == 1 ? Z3_mk_ge(z, p, zero) : Z3_mk_eq(z, p, zero);
      } else r = ncmpbv(e);
      break;
    default: fprintf(stderr, "tobool: unexpected op %d\n", e->op); abort();
  }
  return slot = hold(r);
}
void Ctx::collectvars(Expr* e, std::unordered_set<u32>& seen, vector<u32>& vars) {
  vector<Expr*> st{e};
  while (!st.empty()) {
    Expr* x = st.back(); st.pop_back();
    if (!seen.insert(x->id).second) continue;
    if (x->op == O_VAR) vars.push_back(x->aux);
    if (x->num) for (auto& t : x->num->p) for (u32 a : t.m.a) { if (atoms[a].real) vars.push_back(atoms[a].var); else st.push_back(atoms[a].e); }
    for (int i = 0; i < 3; ++i) if (x->k[i]) st.push_back(x->k[i]);
  }
}
Res Ctx::check(const vector<Expr*>& pc, Expr* q, ModelP base, ModelP* out) {
  if (q == FALSE) return R_UNSAT;
  ++st.queries;
  // independence slice
  vector<Expr*> sl{q}; u64 mask = q->vmask; vector<char> in(pc.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < pc.size(); ++i) if (!in[i] && (pc[i]->vmask & mask)) { in[i] = 1; sl.push_back(pc[i]); if (pc[i]->vmask & ~mask) { mask |= pc[i]->vmask; ch = true; } }
  }
  vector<u32> key; for (auto e : sl) key.push_back(e->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  u64 h = 1; for (u32 x : key) h = mix(h, x);
  CE* ce = nullptr;
  auto& bucket = cache[h];
  for (auto& c : bucket) if (c.key == key) { ce = &c; break; }
  if (ce) ++st.cached;
  else {
    auto t0 = std::chrono::steady_clock::now();
    bool real = false, fp = false;
    for (auto e : sl) { if (e->flags & XF_REAL) real = true; if (e->flags & XF_FP) fp = true; }
    Z3_solver s;
    if (real) { if (!sre) { sre = Z3_mk_solver(z); Z3_solver_inc_ref(z, sre); } s = sre; }
    else if (fp) { if (!sfp) { sfp = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_FPBV")); Z3_solver_inc_ref(z, sfp); } s = sfp; }
    else { if (!sbv) { sbv = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV")); Z3_solver_inc_ref(z, sbv); } s = sbv; }
    Z3_lbool r = Z3_L_UNDEF;
    if (!real && !fp) {   // most queries are small: try the core solver without preprocessing first
      if (!squick) { squick = Z3_mk_simple_solver(z); Z3_solver_inc_ref(z, squick); Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p); Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "rlimit"), quick_rlimit); Z3_solver_set_params(z, squick, p); Z3_params_dec_ref(z, p); }
      Z3_solver_reset(z, squick); for (auto e : sl) Z3_solver_assert(z, squick, tobool(e, real));
      r = Z3_solver_check(z, squick); if (r != Z3_L_UNDEF) s = squick;
    }
    if (r == Z3_L_UNDEF) {
      Z3_solver_reset(z, s);
      Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p); Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), timeout_ms); Z3_solver_set_params(z, s, p); Z3_params_dec_ref(z, p);
      for (auto e : sl) Z3_solver_assert(z, s, tobool(e, real));
      r = Z3_solver_check(z, s);
    }
    CE c; c.key = key; c.inexact = false; c.r = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNK;
    if (r == Z3_L_TRUE) {
      Z3_model m = Z3_solver_get_model(z, s); Z3_model_inc_ref(z, m);
      std::unordered_set<u32> seen; vector<u32> vars; for (auto e : sl) collectvars(e, seen, vars);
      std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
      for (u32 v : vars) {
        VarInfo vi = g_vars.at(v);
        Z3_sort so = vi.kind == 1 ? Z3_mk_real_sort(z) : vi.w == 1 ? Z3_mk_bool_sort(z) : bvs(z, vi.w);
        Z3_ast cst_ = Z3_mk_const(z, Z3_mk_int_symbol(z, v), so); Z3_inc_ref(z, cst_);
        Z3_ast val = nullptr; Z3_model_eval(z, m, cst_, true, &val); if (val) Z3_inc_ref(z, val);
        if (vi.kind == 1) {
          if (val && Z3_is_algebraic_number(z, val)) { Z3_ast up_ = Z3_get_algebraic_number_upper(z, val, 20); Z3_inc_ref(z, up_); c.re.push_back({v, Rat(Z3_get_numeral_string(z, up_))}); Z3_dec_ref(z, up_); c.inexact = true; }
          else if (val && Z3_is_numeral_ast(z, val)) c.re.push_back({v, Rat(Z3_get_numeral_string(z, val))});
          else c.inexact = true;
        } else if (vi.w == 1) c.bv.push_back({v, Z3_get_bool_value(z, val) == Z3_L_TRUE});
        else { uint64_t u = 0; Z3_get_numeral_uint64(z, val, &u); c.bv.push_back({v, u}); }
        if (val) Z3_dec_ref(z, val); Z3_dec_ref(z, cst_);
      }
      Z3_model_dec_ref(z, m);
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    st.secs += dt; if (dt > st.maxq) st.maxq = dt;
    bucket.push_back(std::move(c)); ce = &bucket.back();
  }
  if (ce->r == R_SAT) {
    ++st.sat;
    if (out) {
      auto m = std::make_shared<Model>(*base);
      for (auto& p : ce->bv) { if (m->bv.size() <= p.first) m->bv.resize(p.first + 1, 0); m->bv[p.first] = p.second; }
      for (auto& p : ce->re) { bool f = false; for (auto& x : m->re) if (x.first == p.first) { x.second = p.second; f = true; } if (!f) m->re.push_back(p); }
      if (ce->inexact) m->inexact = true;
      *out = m;
    }
  } else if (ce->r == R_UNSAT) ++st.unsat; else ++st.unknown;
  return (Res)ce->r;
}
// A satisfying assignment that keeps clear of the comparisons between real numbers it depends on and is
// made of round numbers, so that the real program, which computes in floating point, takes the same path.
Z3_ast Ctx::robust(Expr* e, bool pos, const char* eps) {
  if (e->op == O_NOT) return robust(e->k[0], !pos, eps);
  if (e->op == O_AND || e->op == O_OR) { Z3_ast a[2] = {robust(e->k[0], pos, eps), robust(e->k[1], pos, eps)}; return hold((e->op == O_AND) == pos ? Z3_mk_and(z, 2, a) : Z3_mk_or(z, 2, a)); }
  if (e->op == O_NCMP && (e->flags & XF_REAL)) {
    Z3_ast p = polyreal(e->num->p); hold(p); Z3_ast d = hold(Z3_mk_numeral(z, eps, Z3_mk_real_sort(z))); Z3_ast gt = hold(Z3_mk_gt(z, p, d)), lt = hold(Z3_mk_lt(z, p, hold(Z3_mk_unary_minus(z, d))));
    if (e->sub == 2) { if (pos) return tobool(e, true); Z3_ast a[2] = {gt, lt}; return hold(Z3_mk_or(z, 2, a)); }
    return pos ? gt : lt;
  }
  Z3_ast b = tobool(e, (e->flags & XF_REAL) != 0); return pos ? b : hold(Z3_mk_not(z, b));
}
bool Ctx::nice(const vector<Expr*>& fs, ModelP base, ModelP* out) {
  std::unordered_set<u32> seen; vector<u32> vars; for (auto e : fs) collectvars(e, seen, vars);
  std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
  for (const char* eps : {"1/64", "1/10000", "1/10000000"}) {
    Z3_solver s = Z3_mk_solver(z); Z3_solver_inc_ref(z, s);
    Z3_params p = Z3_mk_params(z); Z3_params_inc_ref(z, p); Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), 1500); Z3_solver_set_params(z, s, p); Z3_params_dec_ref(z, p);
    for (auto e : fs) Z3_solver_assert(z, s, robust(e, true, eps));
    bool ok = Z3_solver_check(z, s) == Z3_L_TRUE; Z3_model m = nullptr;
    if (ok) { m = Z3_solver_get_model(z, s); Z3_model_inc_ref(z, m); }
    auto value = [&](u32 v, Rat* r, u64* b) {
      VarInfo vi = g_vars.at(v); Z3_ast c = hold(Z3_mk_const(z, Z3_mk_int_symbol(z, v), vi.kind == 1 ? Z3_mk_real_sort(z) : vi.w == 1 ? Z3_mk_bool_sort(z) : bvs(z, vi.w))), val = nullptr;
      if (!Z3_model_eval(z, m, c, true, &val) || !val) return false; hold(val);
      if (vi.kind == 1) { if (Z3_is_algebraic_number(z, val)) { Z3_ast u = hold(Z3_get_algebraic_number_upper(z, val, 20)); *r = Rat(Z3_get_numeral_string(z, u)); return false; } if (!Z3_is_numeral_ast(z, val)) return false; *r = Rat(Z3_get_numeral_string(z, val)); return true; }
      if (vi.w == 1) *b = Z3_get_bool_value(z, val) == Z3_L_TRUE; else { uint64_t u = 0; Z3_get_numeral_uint64(z, val, &u); *b = u; } return true; };
    for (size_t i = 0; ok && i < vars.size(); ++i) if (g_vars.at(vars[i]).kind == 1) {   // round one unknown after the other
      Rat r = 0; u64 b; value(vars[i], &r, &b);
      for (int sh : {3, 10, 20}) {
        BigInt den = BigInt(1) << sh; Rat t = r * Rat(den) + Rat(1, 2); BigInt n = boost::multiprecision::numerator(t), d = boost::multiprecision::denominator(t), q = n / d; if (q * d > n) --q;
        Z3_solver_push(z, s); Z3_solver_assert(z, s, hold(Z3_mk_eq(z, hold(Z3_mk_const(z, Z3_mk_int_symbol(z, vars[i]), Z3_mk_real_sort(z))), hold(Z3_mk_numeral(z, ratstr(Rat(q) / Rat(den)).c_str(), Z3_mk_real_sort(z))))));
        if (Z3_solver_check(z, s) == Z3_L_TRUE) { Z3_model_dec_ref(z, m); m = Z3_solver_get_model(z, s); Z3_model_inc_ref(z, m); break; }
        Z3_solver_pop(z, s, 1);
      }
    }
    if (ok) {
      auto mm = std::make_shared<Model>(*base);
      for (u32 v : vars) { Rat r = 0; u64 b = 0; bool g = value(v, &r, &b); if (g_vars.at(v).kind == 1) { if (!g) mm->inexact = true; bool f = false; for (auto& x : mm->re) if (x.first == v) { x.second = r; f = true; } if (!f) mm->re.push_back({v, r}); } else { if (mm->bv.size() <= v) mm->bv.resize(v + 1, 0); mm->bv[v] = b; } }
      *out = mm;
    }
    if (m) Z3_model_dec_ref(z, m);
    Z3_solver_dec_ref(z, s);
    if (ok) return true;
  }
  return false;
}
string Ctx::str(Expr* e, int d) {
  static const char* nm[] = {"const","var","+","-","*","udiv","sdiv","urem","srem","&","|","^","shl","lshr","ashr","!","=","u<","s<","ite","zext","sext","extract","concat","f=","f<","f<=","funo","fpop","num","ncmp"};
  if (e->op == O_CONST) return std::to_string(e->aux) + ":" + std::to_string(e->w);
  if (e->op == O_VAR) return g_vars.at(e->aux).name;
  auto ps = [&](const Poly& p) { string s; for (auto& t : p) { s += " " + t.c.str(); for (u32 a : t.m.a) s += "*" + (atoms[a].real ? g_vars.at(atoms[a].var).name : "(" + str(atoms[a].e, d - 1) + "+" + std::to_string(atoms[a].off) + ")"); } return s; };
  if (d <= 0) return "..";
  if (e->op == O_NUM) return "num[" + ps(e->num->p) + " err " + std::to_string(e->num->err) + "]";
  if (e->op == O_NCMP) return "(" + ps(e->num->p) + (e->sub == 0 ? " >0" : e->sub == 1 ? " >=0" : " ==0") + ")";
  string s = string("(") + nm[e->op]; for (int i = 0; i < 3; ++i) if (e->k[i]) s += " " + str(e->k[i], d - 1);
  if (e->op == O_EXTRACT) s += " @" + std::to_string(e->aux) + ":" + std::to_string(e->w);
  return s + ")";
}
