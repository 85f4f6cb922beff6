// Symbolic virtual machine: memory, interpreter, threads, path exploration.
#include "vm.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <thread>
#include <functional>
#include <unordered_set>
using std::string; using std::vector;
double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

enum B {
  B_sym_int, B_sym_choice, B_sym_num, B_sym_real, B_sym_bits, B_assume, B_check, B_fail, B_reach, B_obs_i, B_obs_d, B_issym, B_conc, B_fatal, B_option, B_note, B_native, B_draw_int, B_draw_unit, B_param, B_pick,
  B_malloc, B_calloc, B_realloc, B_free, B_alignedalloc, B_memcpy, B_memmove, B_memset, B_memcmp, B_bcmp,
  B_cxa_alloc, B_cxa_throw, B_cxa_begin, B_cxa_end, B_cxa_rethrow, B_cxa_free, B_cxa_getptr, B_personality, B_terminate, B_guard_acq, B_guard_rel, B_nop0, B_pure, B_throwfn, B_abort,
  B_thr_start, B_thr_join, B_thr_detach, B_thr_hw, B_mx_lock, B_mx_unlock, B_mx_trylock, B_zero, B_cv_wait, B_cv_n1, B_cv_nall, B_yield, B_self,
  B_clock, B_time, B_localtime, B_strftime,
  B_exp, B_log, B_sqrt, B_pow, B_fabs, B_floor, B_ceil, B_log1p, B_log2, B_log10, B_fmod, B_round, B_expm1, B_tanh, B_sin, B_cos,
  B_expf, B_logf, B_sqrtf, B_powf, B_fabsf, B_floorf, B_ceilf,
  B_hashbytes, B_needrehash, B_nextbkt, B_strtof, B_strtod, B_strtol, B_strtoul, B_one, B_dyncast, B_lookup
};
static const std::unordered_map<string, int>& builtins() {
  static const std::unordered_map<string, int> m = {
    {"__sym_int", B_sym_int}, {"__sym_choice", B_sym_choice}, {"__sym_num", B_sym_num}, {"__sym_real", B_sym_real}, {"__sym_bits", B_sym_bits}, {"__sym_assume", B_assume}, {"__sym_check", B_check}, {"__sym_fail", B_fail}, {"__sym_reach", B_reach}, {"__sym_observe_i", B_obs_i}, {"__sym_observe_d", B_obs_d}, {"__sym_is_symbolic", B_issym}, {"__sym_concretize", B_conc}, {"__sym_fatal", B_fatal}, {"__sym_option", B_option}, {"__sym_note", B_note}, {"__sym_native", B_native}, {"__sym_draw_int", B_draw_int}, {"__sym_draw_unit", B_draw_unit}, {"__sym_param", B_param}, {"__sym_pick", B_pick},
    {"malloc", B_malloc}, {"_Znwm", B_malloc}, {"_Znam", B_malloc}, {"_ZnwmRKSt9nothrow_t", B_malloc}, {"_ZnamRKSt9nothrow_t", B_malloc}, {"_ZnwmSt11align_val_t", B_malloc}, {"calloc", B_calloc}, {"realloc", B_realloc}, {"free", B_free}, {"_ZdlPv", B_free}, {"_ZdaPv", B_free}, {"_ZdlPvm", B_free}, {"_ZdaPvm", B_free}, {"_ZdlPvSt11align_val_t", B_free}, {"_ZdlPvmSt11align_val_t", B_free}, {"aligned_alloc", B_alignedalloc},
    {"memcpy", B_memcpy}, {"memmove", B_memmove}, {"memset", B_memset}, {"memcmp", B_memcmp}, {"bcmp", B_bcmp},
    {"__cxa_allocate_exception", B_cxa_alloc}, {"__cxa_throw", B_cxa_throw}, {"__cxa_begin_catch", B_cxa_begin}, {"__cxa_end_catch", B_cxa_end}, {"__cxa_rethrow", B_cxa_rethrow}, {"__cxa_free_exception", B_cxa_free}, {"__cxa_get_exception_ptr", B_cxa_getptr}, {"_ZSt9terminatev", B_terminate}, {"__cxa_guard_acquire", B_guard_acq}, {"__cxa_guard_release", B_guard_rel}, {"__cxa_guard_abort", B_nop0}, {"__cxa_atexit", B_zero}, {"__cxa_pure_virtual", B_pure}, {"abort", B_abort}, {"exit", B_abort}, {"_exit", B_abort}, {"__assert_fail", B_abort}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_abort},
    {"_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", B_thr_start}, {"_ZNSt6thread4joinEv", B_thr_join}, {"_ZNSt6thread6detachEv", B_thr_detach}, {"_ZNSt6thread20hardware_concurrencyEv", B_thr_hw},
    {"pthread_mutex_lock", B_mx_lock}, {"pthread_mutex_unlock", B_mx_unlock}, {"pthread_mutex_trylock", B_mx_trylock}, {"pthread_mutex_init", B_zero}, {"pthread_mutex_destroy", B_zero}, {"_ZNSt18condition_variableC1Ev", B_nop0}, {"_ZNSt18condition_variableC2Ev", B_nop0}, {"_ZNSt18condition_variableD1Ev", B_nop0}, {"_ZNSt18condition_variableD2Ev", B_nop0},
    {"pthread_rwlock_wrlock", B_mx_lock}, {"pthread_rwlock_rdlock", B_mx_lock}, {"pthread_rwlock_unlock", B_mx_unlock},
    {"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", B_cv_wait}, {"_ZNSt18condition_variable10notify_oneEv", B_cv_n1}, {"_ZNSt18condition_variable10notify_allEv", B_cv_nall}, {"sched_yield", B_yield}, {"usleep", B_yield}, {"nanosleep", B_yield}, {"pthread_self", B_self}, {"gettid", B_self},
    {"_ZNSt6chrono3_V212steady_clock3nowEv", B_clock}, {"_ZNSt6chrono3_V212system_clock3nowEv", B_clock}, {"time", B_time}, {"localtime", B_localtime}, {"gmtime", B_localtime}, {"localtime_r", B_localtime}, {"strftime", B_strftime},
    {"exp", B_exp}, {"log", B_log}, {"sqrt", B_sqrt}, {"pow", B_pow}, {"fabs", B_fabs}, {"floor", B_floor}, {"ceil", B_ceil}, {"log1p", B_log1p}, {"log2", B_log2}, {"log10", B_log10}, {"fmod", B_fmod}, {"round", B_round}, {"expm1", B_expm1}, {"tanh", B_tanh}, {"sin", B_sin}, {"cos", B_cos},
    {"expf", B_expf}, {"logf", B_logf}, {"sqrtf", B_sqrtf}, {"powf", B_powf}, {"fabsf", B_fabsf}, {"floorf", B_floorf}, {"ceilf", B_ceilf},
    {"_ZSt11_Hash_bytesPKvmm", B_hashbytes}, {"_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm", B_needrehash}, {"_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm", B_nextbkt},
    {"strtof", B_strtof}, {"strtod", B_strtod}, {"strtol", B_strtol}, {"strtoll", B_strtol}, {"strtoul", B_strtoul}, {"strtoull", B_strtoul}, {"getenv", B_zero}, {"fflush", B_zero}, {"srand", B_nop0}, {"tzset", B_nop0}, {"__dynamic_cast", B_dyncast}, {"usleep", B_zero},
  };
  return m;
}
int builtin_id(const string& n) {
  auto it = builtins().find(n); if (it != builtins().end()) return it->second;
  if (n.rfind("_ZSt", 0) == 0 && n.find("__throw_") != string::npos) return B_throwfn;
  return -1;
}

struct PathEnd { int kind; };   // 0 done 1 infeasible 2 error 3 fatal-ok 4 unmodelled 5 aborted(time)
struct Obj { u64 base, size; u8 live, kind; u32 loc; };   // kind 0 global 1 heap 2 stack 3 constant
struct Frame { Fn* f; u32 ip; Val* r; u32 retdst; i32 enormal, eunwind; u32 allocabase; u32 callloc; };
struct Thr {
  int id; vector<Frame> fr; Val* stk; Val* top; Val* lim; vector<u32> allocas; int st = 0; u64 wait = 0; u64 wait2 = 0; int phase = 0; bool yielded = false;
  u64 exc = 0; u64 exctype = 0; u32 sel = 0; vector<u64> caught; u64 threadobj = 0; vector<u32> vc; bool uncounted = false;
};
enum { T_RUN, T_MX, T_CV, T_JOIN, T_DONE };
static const int NVC = 40;
struct Cell { u32 wc = 0; u8 wt = 0; u32 wloc = 0; u32 rc[NVC] = {0}; u32 rloc = 0; };

struct VM {
  Shared& S; Program& P; Ctx X; int wid;
  // memory
  static const u64 CAP = 192ull << 20;
  u8* host; u32* gran; u8* lf; u64* sh; u64 hw; vector<Obj> objs; vector<u64> flagged;
  vector<u8> snap; u64 snaphw = 0; vector<Obj> snapobjs; bool have_snap = false;
  // path state
  vector<Expr*> pc; std::unordered_set<Expr*> facts; std::unordered_map<Expr*, u64> eqs;
  vector<Dec> decs; size_t pos = 0; size_t npre = 0; bool frontier() const { return pos >= npre; }
  vector<Thr*> thr; Thr* T = nullptr; vector<Thr*> pool; u64 icount = 0, imax = 0; u32 curloc = 0;
  std::map<string, int> namecnt; struct In { string name; u32 var; int kind; i64 lo; i64 den; Expr* e; }; vector<In> inputs; std::unordered_map<u32, int> inputset;
  vector<std::tuple<string, Val, int>> obs; std::map<string, i64> opt; std::unordered_map<u64, u64> mutexes; vector<string> reached;
  int preempt = 0, spurious = 0; bool sched = false, race = false, weakhash = false, usedsched = false; bool infatal = false;
  std::unordered_map<u64, Cell> cells; std::unordered_map<u64, vector<u32>> syncvc;
  u64 clockv = 0; bool real_used = false; u64 tie0 = 0; bool tie_used = false;
  vector<Expr*> exps;   // O_NUM nodes for exp results
  std::unordered_map<u64, u64> exctypes;   // exception object -> type
  std::set<u32> fnseen; u64 steps = 0;
  std::vector<u8> fnflag; u64 rng;
  VM(Shared& s, int w) : S(s), P(*s.P), wid(w) {
    auto mm = [](u64 n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return (u8*)p; };
    host = mm(CAP); gran = (u32*)mm(CAP / 16 * 4); lf = mm(CAP / 64); sh = (u64*)mm(CAP * 8);
    fnflag.assign(P.fns.size(), 0); rng = s.seed * 7919 + w;
  }
  ~VM() { munmap(host, CAP); munmap(gran, CAP / 4); munmap(lf, CAP / 64); munmap(sh, CAP * 8); for (auto t : pool) { munmap(t->stk, (char*)t->lim - (char*)t->stk); delete t; } }
  // ---- memory ----
  u64 off(u64 a) const { return a - G_BASE; }
  u32 newobj(u64 base, u64 size, u8 kind) {
    u32 id = objs.size(); objs.push_back(Obj{base, size, 1, kind, curloc});
    u64 g0 = off(base) / 16, g1 = (off(base) + size + 15) / 16; if (g1 == g0) g1 = g0 + 1;
    for (u64 g = g0; g < g1; ++g) gran[g] = id;
    gran[g1] = 0; return id;
  }
  u64 alloc(u64 size, u8 kind, u64 align = 16, int fill = 0xCD) {
    if (size > (64ull << 20)) { violation("memory", "huge allocation of " + std::to_string(size) + " bytes"); }
    u64 base = (hw + 16 + align - 1) / align * align;
    u64 end = base + ((size + 15) & ~15ull); if (end == base) end += 16;
    if (off(end) + 64 >= CAP) { unmodelled("guest memory exhausted"); }
    for (u64 g = off(hw) / 16; g < off(base) / 16; ++g) gran[g] = 0;
    newobj(base, size, kind);
    if (anysym(base, end - base)) memset(sh + off(base), 0, (end - base) * 8);
    if (race && !cells.empty()) for (u64 i = base; i < end; ++i) cells.erase(i);
    memset(host + off(base), fill, end - base);
    hw = end + 16; gran[off(end) / 16] = 0;
    return base;
  }
  void reset_memory() {
    for (u64 l : flagged) { lf[l] = 0; memset(sh + l * 64, 0, 512); }
    flagged.clear();
    if (have_snap) { memcpy(host, snap.data(), snap.size()); objs = snapobjs; hw = snaphw; 
      return; }
    objs.clear(); objs.push_back(Obj{0, 0, 0, 0, 0}); hw = P.gend;
    for (u64 g = 0; g <= off(hw) / 16; ++g) gran[g] = 0;
    memset(host, 0, off(hw));
    for (auto& g : P.globals) { newobj(g.addr, g.size, g.constant ? 3 : 0); memcpy(host + off(g.addr), g.bytes.data(), g.size); }
  }
  [[noreturn]] void memerr(const char* what, u64 a, u64 n) {
    char b[200]; string d; u64 o = a - G_BASE;
    if (a >= G_BASE && a < hw) { u32 id = gran[o / 16]; for (int k = 1; !id && k <= 8 && o / 16 >= (u64)k; ++k) id = gran[o / 16 - k];
      if (id) { Obj& ob = objs[id]; snprintf(b, sizeof b, " (%s object of %llu bytes, offset %lld%s, allocated at %s)", ob.kind == 1 ? "heap" : ob.kind == 2 ? "stack" : "global", (unsigned long long)ob.size, (long long)(a - ob.base), ob.live ? "" : ", freed", P.locstr(ob.loc).c_str()); d = b; } }
    else { snprintf(b, sizeof b, " (address 0x%llx)", (unsigned long long)a); d = b; }
    violation("memory", string(what) + " of " + std::to_string(n) + " bytes" + d);
  }
  inline void acc(u64 a, u64 n, bool wr) {
    u64 o = a - G_BASE;
    if (__builtin_expect(o >= hw - G_BASE, 0)) memerr(wr ? "invalid write" : "invalid read", a, n);
    Obj& ob = objs[gran[o >> 4]];
    if (__builtin_expect(!ob.live || a < ob.base || a + n > ob.base + ob.size, 0)) { if (n == 0) return; memerr(wr ? (ob.live ? "out-of-bounds write" : "write of freed memory") : (ob.live ? "out-of-bounds read" : "read of freed memory"), a, n); }
    if (__builtin_expect(wr && ob.kind == 3, 0)) memerr("write to constant", a, n);
    if (__builtin_expect(race, 0) && thr.size() > 1) raceacc(a, n, wr);
  }
  bool anysym(u64 a, u64 n) { u64 o = off(a); for (u64 l = o >> 6; l <= (o + n - 1) >> 6; ++l) if (lf[l]) return true; return false; }
  Val load(u64 a, unsigned n, unsigned w) {
    acc(a, n, false);
    u64 o = off(a); u64 v = 0; memcpy(&v, host + o, n);
    if (__builtin_expect(lf[o >> 6] | lf[(o + n - 1) >> 6], 0)) {
      u64* s = sh + o; bool any = false; for (unsigned i = 0; i < n; ++i) any |= s[i] != 0;
      if (any) {
        Expr* e0 = (Expr*)(s[0] >> 4); bool whole = s[0] && e0->w == 8 * n;
        for (unsigned i = 0; whole && i < n; ++i) whole = s[i] == (((u64)e0 << 4) | 8 | i);
        Expr* r = nullptr;
        if (whole) r = e0;
        else {
          for (unsigned i = 0; i < n; ++i) if (s[i]) { Expr* e = (Expr*)(s[i] >> 4); if (e->op == O_NUM) concnum_at(a + i); }
          bool again = false; for (unsigned i = 0; i < n; ++i) again |= s[i] != 0;
          if (!again) { memcpy(&v, host + o, n); return Val{v & maskw(w), nullptr}; }
          for (unsigned i = 0; i < n; ++i) { Expr* b = s[i] ? X.extract((Expr*)(s[i] >> 4), 8 * (s[i] & 7), 8) : X.cst(host[o + i], 8); r = r ? X.concat(b, r) : b; }
        }
        if (w < 8 * n) { if (r->op == O_NUM) return Val{concretize(r) & maskw(w), nullptr}; r = X.extract(r, 0, w); }
        return norm(r);
      }
    }
    return Val{v & maskw(w), nullptr};
  }
  void concnum_at(u64 a) {   // replace the symbolic number covering byte a by its concrete bits
    u64 s = sh[off(a)]; Expr* e = (Expr*)(s >> 4); u64 b = a - (s & 7); u64 v = concretize(e);
    for (unsigned i = 0; i < e->w / 8u; ++i) { u64 o = off(b + i); if (sh[o] == (((u64)e << 4) | 8 | i)) { sh[o] = 0; host[o] = (u8)(v >> (8 * i)); } }
  }
  Val norm(Expr* e) { if (e->op == O_CONST) return Val{e->aux, nullptr}; return Val{0, e}; }
  void flag(u64 l) { if (!lf[l]) { lf[l] = 1; flagged.push_back(l); } }
  void store(u64 a, unsigned n, unsigned w, Val v) {
    acc(a, n, true);
    u64 o = off(a);
    if (__builtin_expect(v.e != nullptr, 0)) {
      Expr* e = v.e; if (e->w < 8 * n) e = X.zext(e, 8 * n);
      if (e->op == O_CONST) { v.c = e->aux; v.e = nullptr; }
      else { flag(o >> 6); flag((o + n - 1) >> 6); for (unsigned i = 0; i < n; ++i) sh[o + i] = ((u64)e << 4) | 8 | i; return; }
    }
    if (__builtin_expect(lf[o >> 6] | lf[(o + n - 1) >> 6], 0)) for (unsigned i = 0; i < n; ++i) sh[o + i] = 0;
    memcpy(host + o, &v.c, n);
  }
  void copymem(u64 d, u64 s, u64 n) {
    if (!n) return;
    acc(s, n, false); acc(d, n, true);
    u64 od = off(d), os = off(s); bool ss = anysym(s, n), ds = anysym(d, n);
    memmove(host + od, host + os, n);
    if (ss) { for (u64 l = od >> 6; l <= (od + n - 1) >> 6; ++l) flag(l); memmove(sh + od, sh + os, n * 8); }
    else if (ds) memset(sh + od, 0, n * 8);
  }
  string cstr(u64 a) { string s; for (int i = 0; i < 4096; ++i) { Val v = load(a + i, 1, 8); u8 c = v.e ? (u8)concretize(v.e) : (u8)v.c; if (!c) break; s += (char)c; } return s; }
  // ---- constraints and decisions ----
  void addc(Expr* c) { if (c == X.TRUE) return; if (c->op == O_AND && c->w == 1) { addc(c->k[0]); addc(c->k[1]); return; } if (facts.insert(c).second) pc.push_back(c);
    if (c->op == O_EQ && c->k[1]->op == O_CONST) eqs[c->k[0]] = c->k[1]->aux; }
  void push_alt(const Dec& d, ModelP m) {
    Work w; w.pre = decs; w.pre.push_back(d); w.model = m;
    std::lock_guard<std::mutex> l(S.mu); S.queue.push_back(std::move(w)); S.cv.notify_one();
  }
  void timecheck() { if (S.stop || now_s() > S.deadline) throw PathEnd{5}; }
  bool branch(Expr* c) {
    if (c->op == O_CONST) return c->aux;
    if (facts.count(c)) return true;
    { Expr* n = X.not1(c); if (facts.count(n)) return false; }
    if (pos < npre) { Dec& d = decs[pos++]; if (d.kind != 0) desync(); if (!d.implied) addc(d.val ? c : X.not1(c)); else facts.insert(d.val ? c : X.not1(c)); return d.val; }
    bool dir = X.eval(c); timecheck();
    ModelP m; Res r = X.check(pc, dir ? X.not1(c) : c, X.model, &m);
    if (r == R_SAT && S.prof) { std::lock_guard<std::mutex> l(S.mu); S.forks[S.proff ? stacktrace() : P.locstr(curloc)]++; }
    if (r == R_SAT) push_alt(Dec{0, (u8)!dir, 0, 0}, m); else if (r == R_UNK) note_unknown();
    Dec d{0, (u8)dir, (u8)(r == R_UNSAT), 0};
    decs.push_back(d); pos = npre = decs.size(); ++S.decisions;
    if (r == R_UNSAT) facts.insert(dir ? c : X.not1(c)); else addc(dir ? c : X.not1(c));
    return dir;
  }
  [[noreturn]] void desync() { fprintf(stderr, "engine: replay desynchronised at %s\n", P.locstr(curloc).c_str()); if (getenv("SYMX_DESYNC")) { fprintf(stderr, "pos %zu of %zu:", (size_t)pos, (size_t)npre); for (auto& d : decs) fprintf(stderr, " %d:%d:%d:%llu", d.kind, d.val, d.implied, (unsigned long long)d.cv); fprintf(stderr, "\n%s\n", stacktrace().c_str()); } ++S.unmodelled; { std::lock_guard<std::mutex> l(S.mu); S.unmod["replay desynchronised"]++; } throw PathEnd{4}; }
  u64 concretize(Expr* e) {
    if (e->op == O_CONST) return e->aux;
    if (e->op == O_NUM) return concnum(e);
    auto it = eqs.find(e); if (it != eqs.end()) return it->second;
    for (;;) {
      if (pos < npre) {
        Dec& d = decs[pos++]; if (d.kind != 1) desync();
        Expr* c = X.eq(e, X.cst(d.cv, e->w));
        if (d.val) { if (!d.implied) addc(c); eqs[e] = d.cv; return d.cv; }
        addc(X.not1(c)); continue;
      }
      timecheck();
      u64 v = X.eval(e); Expr* c = X.eq(e, X.cst(v, e->w));
      ModelP m; Res r = c == X.TRUE ? R_UNSAT : X.check(pc, X.not1(c), X.model, &m);
      if (r == R_SAT && S.prof) { std::lock_guard<std::mutex> l(S.mu); S.forks[S.proff ? stacktrace() : P.locstr(curloc)]++; }
      if (r == R_SAT) push_alt(Dec{1, 0, 0, v}, m); else if (r == R_UNK) note_unknown();
      decs.push_back(Dec{1, 1, (u8)(r == R_UNSAT), v}); pos = npre = decs.size(); ++S.decisions;
      if (r != R_UNSAT) addc(c);
      eqs[e] = v; return v;
    }
  }
  // A representative of a value that the path has not distinguished so far (seeds of generators).
  u64 pick(Expr* e) {
    if (e->op == O_CONST) return e->aux;
    if (e->op == O_NUM) return concnum(e);
    auto it = eqs.find(e); if (it != eqs.end()) return it->second;
    if (pos < npre) { Dec& d = decs[pos++]; if (d.kind != 1 || !d.val) desync(); addc(X.eq(e, X.cst(d.cv, e->w))); eqs[e] = d.cv; return d.cv; }
    u64 v = X.eval(e); decs.push_back(Dec{1, 1, 0, v}); pos = npre = decs.size(); addc(X.eq(e, X.cst(v, e->w))); eqs[e] = v; return v;
  }
  u64 concnum(Expr* e) {
    auto it = eqs.find(e); if (it != eqs.end()) return it->second;
    std::set<u32> as; for (auto& t : e->num->p) for (u32 a : t.m.a) as.insert(a);
    // atoms that cancelled out of the polynomial still influence rounding: walk the operation tree
    vector<Expr*> st{e}; std::unordered_set<Expr*> seen; vector<Expr*> leaves;
    while (!st.empty()) { Expr* x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; if (x->op != O_NUM || x->sub == F_SITOFP || x->sub == F_UITOFP) { if (x->op == O_NUM) leaves.push_back(x->k[0]); continue; } if (x->sub == F_REAL) { unmodelled("concretising a real-valued unknown at " + P.locstr(curloc)); } if (x->sub == F_LEAFINT) { leaves.push_back(x->k[0]); continue; } for (int i = 0; i < 2; ++i) if (x->k[i]) st.push_back(x->k[i]); }
    std::sort(leaves.begin(), leaves.end(), [](Expr* a, Expr* b) { return a->hash < b->hash; });
    for (Expr* l : leaves) concretize(l);
    u64 v = X.eval(e); eqs[e] = v; return v;
  }
  u64 C(Val v) { return v.e ? concretize(v.e) : v.c; }
  int choose(int n) {
    if (n <= 1) return 0;
    usedsched = true;
    if (pos < npre) { Dec& d = decs[pos++]; if (d.kind != 2) desync(); return (int)d.cv; }
    timecheck();
    for (int i = n - 1; i >= 1; --i) push_alt(Dec{2, 0, 0, (u64)i}, X.model);
    decs.push_back(Dec{2, 0, 0, 0}); pos = npre = decs.size(); ++S.scheds; return 0;
  }
  void assume(Expr* c) {
    if (c == X.TRUE) return;
    if (c == X.FALSE) throw PathEnd{1};
    if (facts.count(c)) return;
    if (!X.eval(c)) { ModelP m; timecheck(); Res r = X.check(pc, c, X.model, &m); if (r != R_SAT) { if (r == R_UNK) note_unknown(); throw PathEnd{1}; } X.setmodel(m); }
    addc(c);
  }
  void note_unknown() { std::lock_guard<std::mutex> l(S.mu); S.unmod["solver answered unknown"]++; ++S.unmodelled; }
  void check(Expr* c, const string& msg) {
    ++S.checks; if (c == X.TRUE) return;
    ++S.checks_sym;
    if (facts.count(c)) return;
    if (!frontier()) { addc(c); return; }
    timecheck();
    Expr* n = X.not1(c);
    if (c != X.FALSE && X.eval(c)) {
      ModelP m; Res r = X.check(pc, n, X.model, &m);
      if (r == R_SAT) { ModelP keep = X.model; X.setmodel(m); record("check", msg, n); X.setmodel(keep); }
      else if (r == R_UNK) note_unknown();
      addc(c);   // also when implied: a replay of this prefix does the same
    } else {
      record("check", msg, n);
      ModelP m; Res r = c == X.FALSE ? R_UNSAT : X.check(pc, c, X.model, &m);
      if (r != R_SAT) throw PathEnd{2};
      X.setmodel(m); addc(c);
    }
  }
  // ---- reporting ----
  string fmtval(const In& in) {
    char b[64];
    if (in.kind == 1) { Rat r = 0; bool f = false; for (auto& p : X.model->re) if (p.first == in.var) { r = p.second; f = true; } if (!f) { VarInfo vi = g_vars.at(in.var); r = rat_of_double(vi.dlo > 0 ? vi.dlo : vi.dhi < 0 ? vi.dhi : 0.0); } snprintf(b, sizeof b, "%.17g", r.convert_to<double>()); return b; }
    u64 v = in.var < X.model->bv.size() ? X.model->bv[in.var] & maskw(g_vars.at(in.var).w) : 0;
    if (in.kind == 3) { snprintf(b, sizeof b, "%llu", (unsigned long long)v); return b; }
    if (in.kind == 4) { snprintf(b, sizeof b, "%lld", (long long)in.lo); return b; }
    snprintf(b, sizeof b, "%lld", (long long)((i64)v + in.lo)); return b;
  }
  vector<std::pair<string, string>> dump_inputs() { vector<std::pair<string, string>> r; for (auto& i : inputs) r.push_back({i.name, fmtval(i)}); return r; }
  string stacktrace() { string s; if (!T) return s; int n = 0; for (size_t i = T->fr.size(); i-- > 0 && n < 12; ++n) { Frame& f = T->fr[i]; u32 l = i + 1 == T->fr.size() ? curloc : f.f->code[f.ip ? f.ip - 1 : 0].loc; s += P.locstr(l) + "; "; } return s; }
  string repoloc() { if (!T) return P.locstr(curloc); for (size_t i = T->fr.size(); i-- > 0;) { Frame& f = T->fr[i]; u32 l = i + 1 == T->fr.size() ? curloc : f.f->code[f.ip ? f.ip - 1 : 0].loc; if (l && P.files[P.locs[l].file].find("/src/") != string::npos && P.files[P.locs[l].file].find("/usr/") == string::npos) return P.locstr(l); } return P.locstr(curloc); }
  void record(const string& kind, const string& msg, Expr* neg = nullptr) {
    if (real_used) {   // prefer a witness that does not depend on how a number is rounded
      bool few; { std::lock_guard<std::mutex> l(S.mu); auto it = S.violn.find(kind + "|" + msg + "|" + (kind == "check" ? "" : repoloc())); few = it == S.violn.end() || it->second < 6; }
      ModelP keep = X.model, m; vector<Expr*> fs = pc; if (neg) fs.push_back(neg);
      if (few && X.nice(fs, X.model, &m)) { X.setmodel(m); real_used = false; record(kind, msg); real_used = true; X.setmodel(keep); return; }
    }
    Viol v; v.kind = kind; v.msg = msg; v.where = repoloc(); v.inputs = dump_inputs(); v.sched = usedsched; v.tie = tie_used; v.real = real_used; v.decs = decs; v.stack = stacktrace();
    ++S.errors; std::lock_guard<std::mutex> l(S.mu);
    int& n = S.violn[kind + "|" + msg + "|" + (kind == "check" ? "" : v.where)]; ++n;
    if (n <= 6 && S.viols.size() < 60) S.viols.push_back(std::move(v));
    if (S.first_viol == 0) { S.first_viol = now_s(); }
    S.deadline = std::min(S.deadline, S.first_viol + 12);
  }
  [[noreturn]] void violation(const string& kind, const string& msg) { if (frontier()) record(kind, msg); throw PathEnd{2}; }
  [[noreturn]] void unmodelled(const string& m) { std::lock_guard<std::mutex> l(S.mu); S.unmod[m]++; ++S.unmodelled; throw PathEnd{4}; }
  // ---- inputs ----
  string uniq(const string& n) { int& c = namecnt[n]; string r = c ? n + "#" + std::to_string(c) : n; ++c; return r; }
  static string vname(const string& name, i64 lo, i64 hi, i64 den = 1) { return name + "@" + std::to_string(lo) + "_" + std::to_string(hi) + "_" + std::to_string(den); }   // bounds are part of a variable's identity
  Expr* bvinput(const string& name, i64 lo, i64 hi, i64 den = 1) {   // offset-coded
    u64 span = (u64)hi - (u64)lo; u8 w = span == 0 ? 1 : 64 - __builtin_clzll(span); if (span == 0) w = 1;
    u32 id = g_vars.get(vname(name, lo, hi, den), w, 0);
    Expr* v = X.var(id, w); X.ubound(v, 0, span);
    if (!inputset.count(id)) { inputset[id] = 1; inputs.push_back(In{name, id, 0, lo, 1, v}); if (span != maskw(w)) assume_range(v, span, id); }
    return v;
  }
  void assume_range(Expr* v, u64 span, u32 id) {
    Expr* c = X.mk(O_NOT, 1, X.mk(O_ULT, 1, X.cst(span, v->w), v));
    if (id < X.model->bv.size() && (X.model->bv[id] & maskw(v->w)) > span) { auto m = std::make_shared<Model>(*X.model); m->bv[id] = 0; X.setmodel(m); }
    addc(c);
  }
  void setreal(u32 id, const Rat& r) { auto m = std::make_shared<Model>(*X.model); bool f = false; for (auto& p : m->re) if (p.first == id) { p.second = r; f = true; } if (!f) m->re.push_back({id, r}); X.setmodel(m); }
  bool hasreal(u32 id) { for (auto& p : X.model->re) if (p.first == id) return true; return false; }
  Expr* realvar_range(const string& name, double lo, double hi, bool input) {
    u32 id = g_vars.get(input ? name + "@" + std::to_string(lo) + "_" + std::to_string(hi) : name, 64, 1); { std::lock_guard<std::mutex> l(g_vars.mu); g_vars.info[id].dlo = lo; g_vars.info[id].dhi = hi; }
    real_used = true; Expr* e = X.realvar(id, lo, hi);
    if (!inputset.count(id)) {
      inputset[id] = 1; if (input) inputs.push_back(In{name, id, 1, 0, 1, e});
      Poly p = e->num->p;
      // range constraints (not folded by the interval)
      addraw(0, 1, poly_add(p, poly_const(rat_of_double(lo)), true)); if (hi < 1e300) addraw(0, 1, poly_add(poly_const(rat_of_double(hi)), p, true));
    }
    return e;
  }
  void addraw(int, int kind, const Poly& p) {   // add p>=0 (kind 1) / p==0 (kind 2) / p>0 without interval folding
    Expr* c = X.ncmp_raw(kind, p); if (facts.insert(c).second) pc.push_back(c);
  }
  // ---- numbers ----
  bool isnum(Val v) { return v.e && v.e->op == O_NUM; }
  Expr* tonum(Val v, u8 w) { if (v.e) return v.e; return X.numconst(dbl_of_bits(v.c, w), w); }
  Val fconst(double d, u8 w) { return Val{bits_of_dbl(d, w), nullptr}; }
  Val nnorm(Expr* e) {
    if (e->op == O_NUM && e->num->err == 0) { if (e->num->p.empty()) return fconst(0, e->w); if (e->num->p.size() == 1 && e->num->p[0].m.a.empty()) return fconst(e->num->p[0].c.convert_to<double>(), e->w); }
    return Val{0, e};
  }
  void tienote() { if (X.tiecount != tie0) { tie_used = true; } }
  bool nsign(int kind, Expr* e, double c = 0) { Expr* r = X.numcmp(kind, e, X.numconst(c, e->w)); tienote2(r); return branch(r); }
  void tienote2(Expr* r) { if (r->flags & XF_TIE) tie_used = true; }
  Val fbin(Fop f, u8 w, Val a, Val b) {
    if (!a.e && !b.e) return Val{host_fop(f, w, a.c, b.c, w), nullptr};
    bool na = isnum(a), nb = isnum(b);
    if (!na && !nb) { if (f == F_POW || f == F_REM) { return Val{host_fop(f, w, C(a), C(b), w), nullptr}; } 
      return norm(X.fpop(f, w, a.e ? a.e : X.cst(a.c, w), b.e ? b.e : X.cst(b.c, w))); }
    if (na && b.e && !nb) return fbin(f, w, Val{concretize(a.e), nullptr}, b);
    if (nb && a.e && !na) return fbin(f, w, a, Val{concretize(b.e), nullptr});
    if (f == F_POW && !b.e && dbl_of_bits(b.c, w) == 2.0) return fbin(F_MUL, w, a, a);
    if (f == F_POW || f == F_REM) return Val{host_fop(f, w, C(a), C(b), w), nullptr};
    double ca = na ? 0 : dbl_of_bits(a.c, w), cb = nb ? 0 : dbl_of_bits(b.c, w);
    if (!na && std::isnan(ca)) return a; if (!nb && std::isnan(cb)) return b;
    if (!na && std::isinf(ca)) { if (f == F_ADD || f == F_SUB) return a; if (nsign(2, b.e)) return f == F_MUL ? fconst(NAN, w) : a; return nsign(0, b.e) ? a : fconst(-ca, w); }
    if (!nb && std::isinf(cb)) { if (f == F_ADD) return b; if (f == F_SUB) return fconst(-cb, w); if (f == F_DIV) return fconst(0, w); if (nsign(2, a.e)) return fconst(NAN, w); return nsign(0, a.e) ? b : fconst(-cb, w); }
    if (f == F_ADD) { if (!na && ca == 0) return b; if (!nb && cb == 0) return a; }
    if (f == F_SUB) { if (!nb && cb == 0) return a; if (a.e == b.e) return fconst(0, w); if (!na && ca == 0) return nnorm(X.numop(F_NEG, w, b.e, nullptr)); }
    if (f == F_MUL) { if ((!na && ca == 0) || (!nb && cb == 0)) return fconst(0, w); if (!na && ca == 1) return b; if (!nb && cb == 1) return a; }
    if (f == F_DIV) {
      if (a.e == b.e) { if (nsign(2, b.e)) return fconst(NAN, w); return fconst(1, w); }
      if (nb) {
        if (!b.e->num->real) { u64 v = concretize(b.e); return fbin(f, w, a, Val{v, nullptr}); }
        if (nsign(2, b.e)) return fbin(f, w, a, fconst(0, w));
        if (!na && ca == 0) return fconst(0, w);
        Expr* ea = tonum(a, w); Expr* eb = b.e; const Num &x = *ea->num, &y = *eb->num;
        double bmin = y.lo > 0 ? y.lo : y.hi < 0 ? -y.hi : 0; double bl = std::max(bmin - y.err, 1e-300);
        double am = std::max(fabs(x.lo), fabs(x.hi)); double qm = am / bl; double ql = -qm, qh = qm;
        if (y.lo > 0) { if (x.lo >= 0) ql = x.lo / (y.hi * (1 + 1e-12)); if (x.hi <= 0) qh = x.hi / (y.hi * (1 + 1e-12)); }
        char nm[64]; snprintf(nm, sizeof nm, "~q%016llx_%016llx", (unsigned long long)ea->hash, (unsigned long long)eb->hash);
        Rat nv = X.evalpoly(x.p), dv = X.evalpoly(y.p);
        u32 id = g_vars.get(nm, 64, 1); if (dv != 0) setreal(id, Rat(nv / dv));
        qm = std::min(qm, 1e300); ql = std::max(ql, -1e300); qh = std::min(qh, 1e300);
        Expr* q = realvar_range(nm, ql, qh, false);
        addraw(0, 2, poly_add(poly_mul(q->num->p, y.p), x.p, true));
        Num n = *q->num; n.err = (x.err + qm * y.err) / bl + qm * (w == 64 ? 1.2e-16 : 6e-8);
        Expr* r = X.nummk(F_DIV, w, ea, eb, n);
        return Val{0, r};
      }
      if (cb == 0) { if (nsign(2, a.e)) return fconst(NAN, w); bool pos_ = nsign(0, a.e); return fconst((pos_ ? 1.0 : -1.0) / cb, w); }
      if (cb == 1) return a;
    }
    return nnorm(X.numop(f, w, tonum(a, w), tonum(b, w)));
  }
  Val fun(Fop f, u8 w, u8 sw, Val a) {
    if (!a.e) {
      if (f == F_TOSI || f == F_TOUI) {
        double d = dbl_of_bits(a.c, sw), t = std::trunc(d); bool bad = std::isnan(d);
        if (f == F_TOSI) bad |= !(t >= -ldexp(1.0, w - 1) && t < ldexp(1.0, w - 1)); else bad |= !(t > -1 && t < ldexp(1.0, w));
        if (bad) violation("undefined", "floating-point value " + std::to_string(d) + " is outside the range of the integer type it is converted to");
      }
      return Val{host_fop(f, w, a.c, 0, sw), nullptr};
    }
    Expr* e = a.e;
    if (f == F_SITOFP || f == F_UITOFP) { if (e->op == O_NUM) return fun(f, w, sw, Val{concretize(e), nullptr}); if (e->flags & XF_FP) {} else { Expr* n = X.num_from_int(e, f == F_SITOFP, w); if (n) return nnorm(n); } return norm(X.fpop(f, w, e, nullptr)); }
    if (e->op == O_NUM) {
      switch (f) {
        case F_NEG: case F_EXT: case F_TRUNC: return nnorm(X.numop(f, w, e, nullptr));
        case F_ABS: return nsign(1, e) ? a : nnorm(X.numop(F_NEG, w, e, nullptr));
        case F_EXP: return fexp(e, w); case F_LOG: return flog(e, w); case F_SQRT: return fsqrt(e, w);
        case F_LOG1P: if (e->num->real) return fun(F_LOG, w, sw, fbin(F_ADD, w, a, fconst(1, w))); return fun(f, w, sw, Val{concretize(e), nullptr});
        case F_EXPM1: if (e->num->real) return fbin(F_SUB, w, fun(F_EXP, w, sw, a), fconst(1, w)); return fun(f, w, sw, Val{concretize(e), nullptr});
        case F_TANH: if (e->num->real) return fbin(F_SUB, w, fconst(1, w), fbin(F_DIV, w, fconst(2, w), fbin(F_ADD, w, fun(F_EXP, w, sw, fbin(F_MUL, w, fconst(2, w), a)), fconst(1, w)))); return fun(f, w, sw, Val{concretize(e), nullptr});
        case F_LOG2: case F_LOG10: if (e->num->real) return fbin(F_MUL, w, fun(F_LOG, w, sw, a), fconst(f == F_LOG2 ? 1.4426950408889634 : 0.43429448190325182, w)); return fun(f, w, sw, Val{concretize(e), nullptr});
        default: return fun(f, w, sw, Val{concretize(e), nullptr});
      }
    }
    switch (f) {
      case F_NEG: case F_ABS: case F_EXT: case F_TRUNC: case F_SQRT: case F_FLOOR: case F_CEIL: return norm(X.fpop(f, w, e, nullptr));
      case F_TOSI: case F_TOUI: { u64 v = concretize(e); return fun(f, w, sw, Val{v, nullptr}); }
      default: return Val{host_fop(f, w, concretize(e), 0, sw), nullptr};
    }
  }
  Val fexp(Expr* e, u8 w) {
    if (!e->num->real) { bool isconst = true; for (auto& t : e->num->p) if (!t.m.a.empty()) isconst = false; if (isconst || opt["exp_exact"]) return Val{host_fop(F_EXP, w, concretize(e), 0, w), nullptr}; }
    if (e->num->hi > 709) { if (nsign(0, e, 709.78)) return fconst(INFINITY, w); }
    if (e->num->lo < -745) { if (!nsign(1, e, -745.14)) return fconst(0, w); }
    double lo = std::max(e->num->lo - e->num->err, -745.2), hi = std::min(e->num->hi + e->num->err, 709.79);
    if (hi > 1 && lo < 1) { if (nsign(0, e, 1.0)) lo = 1 - e->num->err; else hi = 1 + e->num->err; }   // keeps the error bound meaningful
    char nm[40]; snprintf(nm, sizeof nm, "~exp%016llx", (unsigned long long)e->hash);
    double l = std::exp(lo) * (1 - 1e-12), h = std::exp(hi) * (1 + 1e-12);
    u32 id = g_vars.get(nm, 64, 1); bool fresh = !inputset.count(id);
    if (fresh && !hasreal(id)) { double x = X.evalpoly(e->num->p).convert_to<double>(); double v = std::exp(std::max(lo, std::min(hi, x))); setreal(id, rat_of_double(v)); }
    Expr* v = realvar_range(nm, l, h, false);
    Num n = *v->num; n.err = e->num->err == 0 ? 0 : h * (e->num->err * 1.01 + 1e-300); n.err += h * 2.3e-16;
    Expr* r = X.nummk(F_EXP, w, e, nullptr, n);
    if (fresh) {
      Poly E = v->num->p, x = e->num->p, one = poly_const(Rat(1));
      addraw(0, 1, poly_add(E, poly_add(one, x, false), true));                     // E >= 1 + x
      addraw(0, 1, poly_add(one, poly_mul(E, poly_add(one, x, true)), true));   // E(1-x) <= 1
      for (Expr* o : exps) {
        Poly oE = expatom(o), d = poly_add(x, o->num->p, true), dE = poly_add(E, oE, true);   // monotone
        addc(X.or1(X.not1(X.ncmp_raw(1, d)), X.ncmp_raw(1, dE)));
        addc(X.or1(X.not1(X.ncmp_raw(1, poly_scale(d, Rat(-1)))), X.ncmp_raw(1, poly_scale(dE, Rat(-1)))));
        if (poly_add(x, o->num->p, false).empty()) addraw(0, 2, poly_add(poly_mul(E, oE), one, true));   // exp(-x) exp(x) = 1
      }
      exps.push_back(e);
    }
    return Val{0, r};
  }
  Poly expatom(Expr* o) { u32 id = g_vars.get(expname(o), 64, 1); Poly p; p.push_back(Term{Mono{{X.atom_real(id, 0, 0)}}, Rat(1)}); return p; }
  string expname(Expr* e) { char nm[40]; snprintf(nm, sizeof nm, "~exp%016llx", (unsigned long long)e->hash); return nm; }
  Val flog(Expr* e, u8 w) {
    if (!e->num->real) return Val{host_fop(F_LOG, w, concretize(e), 0, w), nullptr};
    if (nsign(2, e)) return fconst(-INFINITY, w); if (!nsign(0, e)) return fconst(NAN, w);
    char nm[40]; snprintf(nm, sizeof nm, "~log%016llx", (unsigned long long)e->hash);
    double l = std::log(std::max(e->num->lo - e->num->err, 1e-300)) - 1e-9, h = std::log(std::max(e->num->hi + e->num->err, 1e-300)) + 1e-9;
    u32 id = g_vars.get(nm, 64, 1); bool fresh = !inputset.count(id);
    if (fresh && !hasreal(id)) { double x = X.evalpoly(e->num->p).convert_to<double>(); setreal(id, rat_of_double(x > 0 ? std::log(x) : 0)); }
    Expr* v = realvar_range(nm, l, h, false);
    Num n = *v->num; double m = std::max(e->num->lo - e->num->err, 1e-300); n.err = e->num->err / m * 1.01 + (fabs(l) + fabs(h)) * 2.3e-16;
    if (fresh) { Poly L = v->num->p, x = e->num->p, one = poly_const(Rat(1));
      addraw(0, 1, poly_add(poly_add(x, one, true), L, true));             // L <= x-1
      addraw(0, 1, poly_add(poly_mul(x, L), poly_add(x, one, true), true)); }  // xL >= x-1
    return Val{0, X.nummk(F_LOG, w, e, nullptr, n)};
  }
  Val fsqrt(Expr* e, u8 w) {
    if (!e->num->real) return Val{host_fop(F_SQRT, w, concretize(e), 0, w), nullptr};
    if (!nsign(1, e)) return fconst(NAN, w);
    char nm[40]; snprintf(nm, sizeof nm, "~sqrt%016llx", (unsigned long long)e->hash);
    double h = std::sqrt(e->num->hi + e->num->err) * (1 + 1e-12); u32 id = g_vars.get(nm, 64, 1);
    if (!inputset.count(id) && !hasreal(id)) { double x = X.evalpoly(e->num->p).convert_to<double>(); setreal(id, rat_of_double(std::sqrt(std::max(x, 0.0)))); }
    Expr* v = realvar_range(nm, 0, h, false); addraw(0, 2, poly_add(poly_mul(v->num->p, v->num->p), e->num->p, true));
    Num n = *v->num; n.err = std::sqrt(e->num->err) + h * 2.3e-16; return Val{0, X.nummk(F_SQRT, w, e, nullptr, n)};
  }
  Val fcmp(u8 pred, u8 w, Val a, Val b) {
    if (!a.e && !b.e) {
      double x = dbl_of_bits(a.c, w), y = dbl_of_bits(b.c, w); bool uno = x != x || y != y; bool r;
      switch (pred & 7) { case 0: r = false; break; case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = !uno && x != y; break; default: r = !uno; }
      if (pred & 8) { r = uno || r; }
      if (pred == 15) r = true; return Val{r, nullptr};
    }
    bool na = isnum(a), nb = isnum(b);
    if (na && b.e && !nb) { a = Val{concretize(a.e), nullptr}; na = false; }
    if (nb && a.e && !na) { b = Val{concretize(b.e), nullptr}; nb = false; }
    if (na || nb) {
      double c = na ? (nb ? 0 : dbl_of_bits(b.c, w)) : dbl_of_bits(a.c, w);
      if (c != c) return Val{(u64)(pred >= 8), nullptr};
      int p = pred & 7;
      if (p == 0) return Val{pred == 15 || false, nullptr}; if (p == 7) return Val{1, nullptr};
      if (std::isinf(c)) { // compare a finite number with an infinity
        bool agt = na ? c < 0 : c > 0; bool r = p == 1 ? false : p == 6 ? true : (p == 2 || p == 3) ? agt : !agt; return Val{r, nullptr}; }
      Expr *x = tonum(a, w), *y = tonum(b, w), *r;
      switch (p) { case 1: r = X.numcmp(2, x, y); break; case 2: r = X.numcmp(0, x, y); break; case 3: r = X.numcmp(1, x, y); break; case 4: r = X.numcmp(0, y, x); break; case 5: r = X.numcmp(1, y, x); break; default: r = X.not1(X.numcmp(2, x, y)); }
      tienote2(r); return norm(r);
    }
    Expr *x = a.e ? a.e : X.cst(a.c, w), *y = b.e ? b.e : X.cst(b.c, w);
    Expr* uno = X.fcmpbits(O_FUNO, w, x, y); Expr* r;
    switch (pred & 7) { case 0: r = X.FALSE; break; case 1: r = X.fcmpbits(O_FEQ, w, x, y); break; case 2: r = X.fcmpbits(O_FLT, w, y, x); break; case 3: r = X.fcmpbits(O_FLE, w, y, x); break; case 4: r = X.fcmpbits(O_FLT, w, x, y); break; case 5: r = X.fcmpbits(O_FLE, w, x, y); break; case 6: r = X.and1(X.not1(uno), X.not1(X.fcmpbits(O_FEQ, w, x, y))); break; default: r = X.not1(uno); }
    if (pred & 8) r = X.or1(uno, r);
    return norm(r);
  }
  Expr* E(Val v, u8 w) { return v.e ? v.e : X.cst(v.c, w); }
  Val I(Val v) { if (v.e && v.e->op == O_NUM) return Val{concretize(v.e), nullptr}; return v; }   // integer view
  #include "exec.inc"
};

static void worker(Shared& S, int id) {
  VM vm(S, id);
  vm.init(); u64 rng = S.seed * 977 + id;
  for (;;) {
    Work w;
    {
      std::unique_lock<std::mutex> l(S.mu);
      while (S.queue.empty() && S.busy > 0 && !S.stop) S.cv.wait_for(l, std::chrono::milliseconds(50));
      if (S.stop || now_s() > S.deadline) { S.stop = true; S.cv.notify_all(); break; }
      if (S.queue.empty()) { if (S.busy == 0) { S.cv.notify_all(); break; } continue; }
      // Half of the workers go deep, the others anywhere: a run cut by time has still seen all regions.
      if (id % 2 && S.queue.size() < 50000) { rng = rng * 6364136223846793005ull + 1442695040888963407ull; std::swap(S.queue[(rng >> 33) % S.queue.size()], S.queue.back()); }
      w = std::move(S.queue.back()); S.queue.pop_back(); ++S.busy;
    }
    int k = vm.run_path(w);
    { std::lock_guard<std::mutex> l(S.mu); --S.busy; if (k == 5) S.queue.push_back(std::move(w)); S.cv.notify_all(); }
  }
  std::lock_guard<std::mutex> l(S.mu);
  S.st.queries += vm.X.st.queries; S.st.sat += vm.X.st.sat; S.st.unsat += vm.X.st.unsat; S.st.unknown += vm.X.st.unknown; S.st.cached += vm.X.st.cached; S.st.secs += vm.X.st.secs; S.st.maxq = std::max(S.st.maxq, vm.X.st.maxq);
  for (u32 i = 0; i < vm.fnflag.size(); ++i) if (vm.fnflag[i]) S.fns.insert(i);
}

static string jesc(const string& s) { string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static string jkv(const vector<std::pair<string, string>>& v) { string r = "{"; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + jesc(v[i].first) + ":" + jesc(v[i].second); return r + "}"; }

static string jlist(const vector<std::pair<string, string>>& v) { string r = "["; for (size_t i = 0; i < v.size(); ++i) r += string(i ? "," : "") + "[" + jesc(v[i].first) + "," + jesc(v[i].second) + "]"; return r + "]"; }

int main(int argc, char** argv) {
  string bc, out = "/dev/stdout", repo = "/repo"; vector<string> entries; int workers = 8; double tl = 60; std::map<string, i64> params; u64 seed = 1; string replay; bool verbose = false; u64 maxs = 24;
  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    auto nx = [&] { return string(argv[++i]); };
    if (a == "--out") out = nx(); else if (a == "--entry") entries.push_back(nx()); else if (a == "--workers") workers = std::stoi(nx()); else if (a == "--time") tl = std::stod(nx()); else if (a == "--seed") seed = std::stoull(nx());
    else if (a == "--param") { string p = nx(); size_t e = p.find('='); params[p.substr(0, e)] = std::stoll(p.substr(e + 1)); } else if (a == "--replay") replay = nx(); else if (a == "--repo") repo = nx(); else if (a == "--samples") maxs = std::stoull(nx()); else if (a == "-v") verbose = true; else if (a == "--version") { puts("symx 1"); return 0; } else bc = a;
  }
  Program P; string err;
  double t0 = now_s();
  if (!load_program(bc, P, err)) { fprintf(stderr, "cannot load %s: %s\n", bc.c_str(), err.c_str()); return 2; }
  for (auto f : P.fns) { f->hit.assign(f->code.size() + 1, 0); }
  double tload = now_s() - t0;
  string js = "{\"load_s\":" + std::to_string(tload) + ",\"entries\":[";
  bool first = true;
  for (auto& en : entries) {
    if (!P.byname.count(en) || !P.byname[en]->body) { fprintf(stderr, "no entry %s\n", en.c_str()); return 2; }
    Shared S; S.P = &P; S.entry = en; S.params = params; S.seed = seed; S.maxsamples = maxs;
    Work w; w.model = std::make_shared<Model>(); S.queue.push_back(w);
    if (!replay.empty()) {   // schedule/decision replay: kind val implied cv per line
      FILE* f = fopen(replay.c_str(), "r"); int k, v, im; unsigned long long cv; Work r; r.model = std::make_shared<Model>();
      while (f && fscanf(f, "%d %d %d %llu", &k, &v, &im, &cv) == 4) r.pre.push_back(Dec{(u8)k, (u8)v, (u8)im, (u64)cv}); if (f) fclose(f);
      S.queue.clear(); S.queue.push_back(r); workers = 1;
    }
    double s0 = now_s(); S.deadline = s0 + tl;
    vector<std::thread> ts; for (int i = 0; i < workers; ++i) ts.emplace_back(worker, std::ref(S), i);
    for (auto& t : ts) t.join();
    double el = now_s() - s0; bool complete = S.queue.empty() && !S.stop;
    if (!first) js += ","; first = false;
    js += "{\"entry\":" + jesc(en) + ",\"complete\":" + (complete ? "true" : "false") + ",\"wall_s\":" + std::to_string(el) + ",\"paths\":" + std::to_string(S.paths.load()) + ",\"done\":" + std::to_string(S.done.load()) + ",\"infeasible\":" + std::to_string(S.infeasible.load()) + ",\"fatal_ok\":" + std::to_string(S.fatal_ok.load()) + ",\"errors\":" + std::to_string(S.errors.load()) + ",\"unmodelled\":" + std::to_string(S.unmodelled.load()) + ",\"pending\":" + std::to_string(S.queue.size());
    js += ",\"instructions\":" + std::to_string(S.instrs.load()) + ",\"max_path_instr\":" + std::to_string(S.maxpath) + ",\"decisions\":" + std::to_string(S.decisions.load()) + ",\"sched_decisions\":" + std::to_string(S.scheds.load()) + ",\"checks\":" + std::to_string(S.checks.load()) + ",\"checks_symbolic\":" + std::to_string(S.checks_sym.load()) + ",\"ties\":" + std::to_string(S.ties.load());
    js += ",\"queries\":" + std::to_string(S.st.queries) + ",\"sat\":" + std::to_string(S.st.sat) + ",\"unsat\":" + std::to_string(S.st.unsat) + ",\"unknown\":" + std::to_string(S.st.unknown) + ",\"cached\":" + std::to_string(S.st.cached) + ",\"solver_s\":" + std::to_string(S.st.secs) + ",\"max_query_s\":" + std::to_string(S.st.maxq);
    js += ",\"unmodelled_reasons\":{"; { bool f = true; for (auto& p : S.unmod) { js += (f ? "" : ",") + jesc(p.first) + ":" + std::to_string(p.second); f = false; } } js += "}";
    js += ",\"fatals\":{"; { bool f = true; for (auto& p : S.fatals) { js += (f ? "" : ",") + jesc(p.first) + ":" + std::to_string(p.second); f = false; } } js += "}";
    js += ",\"reach\":{"; { bool f = true; for (auto& p : S.reach) { js += (f ? "" : ",") + jesc(p.first) + ":" + std::to_string(p.second); f = false; } } js += "}";
    js += ",\"violations\":["; { bool f = true; for (auto& v : S.viols) { js += string(f ? "" : ",") + "{\"kind\":" + jesc(v.kind) + ",\"msg\":" + jesc(v.msg) + ",\"where\":" + jesc(v.where) + ",\"stack\":" + jesc(v.stack) + ",\"sched\":" + (v.sched ? "true" : "false") + ",\"tie\":" + (v.tie ? "true" : "false") + ",\"real\":" + (v.real ? "true" : "false") + ",\"inputs\":" + jkv(v.inputs) + ",\"decs\":\""; for (auto& d : v.decs) js += std::to_string(d.kind) + " " + std::to_string(d.val) + " " + std::to_string(d.implied) + " " + std::to_string(d.cv) + ";"; js += "\"}"; f = false; } } js += "]";
    js += ",\"violation_counts\":{"; { bool f = true; for (auto& p : S.violn) { js += (f ? "" : ",") + jesc(p.first) + ":" + std::to_string(p.second); f = false; } } js += "}";
    js += ",\"samples\":["; { bool f = true; for (auto& s : S.samples) { js += string(f ? "" : ",") + "{\"inputs\":" + jkv(s.inputs) + ",\"obs\":" + jlist(s.obs) + ",\"end\":" + jesc(s.end) + "}"; f = false; } } js += "]";
    std::set<string> fs; for (u32 i : S.fns) for (auto& s : P.fns[i]->inl) if (s.rfind(repo + "/", 0) == 0) fs.insert(s.substr(repo.size() + 1));
    js += ",\"functions\":["; { bool f = true; for (auto& s : fs) { js += (f ? "" : ",") + jesc(s); f = false; } } js += "]}";
    if (S.prof) { vector<std::pair<u64, string>> v; for (auto& p : S.forks) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 20; ++i) fprintf(stderr, "fork %llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
    if (verbose) fprintf(stderr, "%s: %s paths=%llu errors=%llu unmod=%llu q=%llu t=%.1f\n", en.c_str(), complete ? "complete" : "partial", (unsigned long long)S.paths.load(), (unsigned long long)S.errors.load(), (unsigned long long)S.unmodelled.load(), (unsigned long long)S.st.queries, el);
  }
  // line coverage of repository sources
  std::map<string, std::pair<std::set<u32>, std::set<u32>>> cov;
  for (auto f : P.fns) {
    bool h = false;
    vector<char> starts(f->code.size() + 1, 0); for (auto& e : f->edges) starts[e.ip] = 1; if (!starts.empty()) starts[0] = 1;
    for (size_t i = 0; i < f->code.size(); ++i) {
      if (starts[i]) h = f->hit[i];
      u32 l = f->code[i].loc; if (!l) continue; const string& fi = P.files[P.locs[l].file]; if (fi.rfind(repo + "/", 0) != 0) continue;
      auto& c = cov[fi.substr(repo.size() + 1)]; c.first.insert(P.locs[l].line); if (h) c.second.insert(P.locs[l].line);
    }
  }
  js += "],\"coverage\":{"; { bool f = true; for (auto& p : cov) { string mis; for (u32 l : p.second.first) if (!p.second.second.count(l)) mis += std::to_string(l) + " "; js += string(f ? "" : ",") + jesc(p.first) + ":{\"lines\":" + std::to_string(p.second.first.size()) + ",\"hit\":" + std::to_string(p.second.second.size()) + ",\"missed\":" + jesc(mis) + "}"; f = false; } } js += "}}\n";
  FILE* f = fopen(out.c_str(), "w"); if (!f) { perror(out.c_str()); return 2; } fputs(js.c_str(), f); fclose(f);
  return 0;
}
