  // ---- path driver ------------------------------------------------------------------------------
  bool in_init = false;
  void init() {
    weakhash = S.params.count("weakhash") && S.params.at("weakhash");
    in_init = true;
    X.setmodel(std::make_shared<Model>());
    reset_path();
    try { for (Fn* c : P.ctors) { mainthread(c); run(); } }
    catch (PathEnd& e) { fprintf(stderr, "engine: static initialisation failed (%d) at %s\n", e.kind, P.locstr(curloc).c_str()); std::lock_guard<std::mutex> l(S.mu); S.unmod["static initialisation failed"]++; ++S.unmodelled; S.stop = true; }
    snap.assign(host, host + off(hw)); snapobjs = objs; snaphw = hw; have_snap = true; in_init = false;
  }
  void reset_path() {
    reset_memory();
    pc.clear(); facts.clear(); eqs.clear(); decs.clear(); pos = npre = 0;
    for (auto t : thr) { pool.push_back(t); } thr.clear(); T = nullptr;
    icount = 0; imax = S.params.count("max_instr") ? S.params.at("max_instr") : 30000000ull; curloc = 0; namecnt.clear(); inputs.clear(); inputset.clear(); obs.clear(); opt.clear(); mutexes.clear(); reached.clear();
    preempt = 0; spurious = 0; sched = race = usedsched = infatal = false; cells.clear(); syncvc.clear(); clockv = 0; real_used = tie_used = false; exps.clear(); exctypes.clear(); fnseen.clear();
  }
  Thr* mkthread() {
    Thr* t;
    if (!pool.empty()) { t = pool.back(); pool.pop_back(); Val *s = t->stk, *l = t->lim; *t = Thr(); t->stk = s; t->lim = l; }
    else { t = new Thr(); u64 n = 2u << 20; t->stk = (Val*)mmap(nullptr, n * sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); t->lim = t->stk + n; }
    t->top = t->stk; t->id = thr.size(); t->st = T_RUN; t->vc.assign(NVC, 0); if (t->id < NVC) t->vc[t->id] = 1;
    thr.push_back(t); return t;
  }
  void push_frame(Thr* t, Fn* f, const Val* args, u32 n, u32 retdst, i32 en, i32 eu, u32 loc) {
    if (!f->body) unmodelled("call of external function " + f->name);
    if (t->top + f->nslots + 64 >= t->lim || t->fr.size() > 20000) violation("stack overflow", "call depth exceeds " + std::to_string(t->fr.size()));
    Frame fr; fr.f = f; fr.ip = 0; fr.r = t->top; fr.retdst = retdst; fr.enormal = en; fr.eunwind = eu; fr.allocabase = t->allocas.size(); fr.callloc = loc;
    for (u32 i = 0; i < n && i < f->nargs; ++i) fr.r[i] = args[i];
    t->top += f->nslots; t->fr.push_back(fr); fnflag[f->id] = 1; f->hit[0] = 1;
  }
  void mainthread(Fn* f) { for (auto t : thr) pool.push_back(t); thr.clear(); T = mkthread(); push_frame(T, f, nullptr, 0, 0, -1, -1, 0); }
  int run_path(Work& w) {
    if (X.nexpr() > 1500000) X.flush();
    reset_path();
    decs = w.pre; pos = 0; npre = decs.size(); X.setmodel(w.model);
    int k = 0;
    try { mainthread(P.byname[S.entry]); run(); }
    catch (PathEnd& e) { k = e.kind; }
    S.instrs += icount;
    if (k == 5) return 5;
    ++S.paths;
    if (k == 1) ++S.infeasible; else if (k == 0) ++S.done; else if (k == 3) ++S.fatal_ok;
    if (tie_used) ++S.ties;
    std::lock_guard<std::mutex> l(S.mu);
    if (icount > S.maxpath) S.maxpath = icount;
    if (k == 0 || k == 3) {
      for (auto& r : reached) S.reach[r]++;
      if (!tie_used && !usedsched) {
        ++S.nsamples; rng = rng * 6364136223846793005ull + 1442695040888963407ull;
        size_t at = S.samples.size();
        if (at >= S.maxsamples) { at = (rng >> 20) % S.nsamples; }
        if (at < S.maxsamples) {
          Sample s; s.inputs = dump_inputs(); s.end = k == 0 ? (real_used ? "real" : "done") : "fatal";
          for (auto& o : obs) { Val v = std::get<1>(o); u64 c = v.e ? X.eval(v.e) : v.c; char b[64]; if (std::get<2>(o)) snprintf(b, sizeof b, "%.17g", dbl_of_bits(c, 64)); else snprintf(b, sizeof b, "%lld", (long long)c); s.obs.push_back({std::get<0>(o), b}); }
          if (at == S.samples.size()) S.samples.push_back(s); else S.samples[at] = s;
        }
      }
    }
    return k;
  }
  // ---- races --------------------------------------------------------------------------------------
  bool norace = false;
  void raceacc(u64 a, u64 n, bool wr) {
    if (norace || !T) return;
    u32 me = T->id; if (me >= 8) return;
    for (u64 i = a; i < a + n; ++i) {
      Cell& c = cells[i];
      auto rep = [&](const char* k, u32 l) { string m = string("data race: ") + k + " here and at " + P.locstr(l); usedsched = true; violation("race", m); };
      if (c.wc && c.wt != me && T->vc[c.wt] < c.wc) rep(wr ? "two unsynchronised writes," : "a read and an unsynchronised write,", c.wloc);
      if (wr) {
        for (u32 t = 0; t < NVC; ++t) if (t != me && c.rc[t] > T->vc[t]) rep("a write and an unsynchronised read,", c.rloc);
        c.wc = T->vc[me]; c.wt = me; c.wloc = curloc; memset(c.rc, 0, sizeof c.rc);
      } else { c.rc[me] = T->vc[me]; c.rloc = curloc; }
    }
  }
  void acquire(u64 a) { if (!race) return; auto it = syncvc.find(a); if (it != syncvc.end()) for (int i = 0; i < NVC; ++i) T->vc[i] = std::max(T->vc[i], it->second[i]); }
  void release(u64 a) { if (!race || T->id >= NVC) return; auto& v = syncvc[a]; if (v.empty()) v.assign(NVC, 0); for (int i = 0; i < NVC; ++i) v[i] = std::max(v[i], T->vc[i]); ++T->vc[T->id]; }
  // ---- scheduling ---------------------------------------------------------------------------------
  bool runnable(Thr* t) {
    switch (t->st) { case T_RUN: return true; case T_MX: return mutexes[t->wait] == 0; case T_JOIN: return thr[t->wait]->st == T_DONE; default: return false; }
  }
  void wake(Thr* t) { if (t->st == T_MX || t->st == T_JOIN) t->st = T_RUN; }
  // T cannot continue: pick another thread.
  void pick() {
    vector<Thr*> c; for (auto t : thr) if (runnable(t)) c.push_back(t);
    vector<Thr*> sp; if (sched && spurious > 0) for (auto t : thr) if (t->st == T_CV) sp.push_back(t);
    if (c.empty() && sp.empty()) {
      string m = "deadlock:"; for (auto t : thr) if (t->st != T_DONE) { m += " thread " + std::to_string(t->id) + (t->st == T_MX ? " waits for a mutex" : t->st == T_CV ? " waits on a condition variable" : " waits for a join") + " at "; string w = "?"; for (size_t i = t->fr.size(); i-- > 0;) { Frame& f = t->fr[i]; u32 l = f.f->code[f.ip ? f.ip - 1 : 0].loc; if (l && P.files[P.locs[l].file].find("/src/") != string::npos && P.files[P.locs[l].file].find("/usr/") == string::npos) { w = P.locstr(l); break; } } m += w + ";"; }
      if (thr.size() > 1) usedsched = true;
      violation("deadlock", m);
    }
    if (!sched) { T = c[0]; wake(T); return; }
    int k = choose(c.size() + sp.size());
    if (k < (int)c.size()) { T = c[k]; wake(T); } else { T = sp[k - c.size()]; T->st = T_RUN; --spurious; }
  }
  // A preemption point before a visible operation of T; true: another thread was chosen.
  bool yieldpt() {
    if (!sched || thr.size() < 2) return false;
    if (T->yielded) { T->yielded = false; return false; }
    if (preempt <= 0) return false;
    vector<Thr*> c; for (auto t : thr) if (t != T && runnable(t)) c.push_back(t);
    if (c.empty()) return false;
    int k = choose(c.size() + 1); if (k == 0) return false;
    --preempt; T->yielded = true; T = c[k - 1]; wake(T); return true;
  }
  // ---- exceptions -----------------------------------------------------------------------------------
  bool derives(u64 t, u64 base, int d = 0) { if (t == base) return true; if (d > 20) return false; auto it = P.bases.find(t); if (it == P.bases.end()) return false; for (u64 b : it->second) if (derives(b, base, d + 1)) return true; return false; }
  void pop_frame(Thr* t) {
    Frame& f = t->fr.back();
    while (t->allocas.size() > f.allocabase) { u32 id = t->allocas.back(); t->allocas.pop_back(); Obj& o = objs[id]; o.live = 0;
      if (id + 1 == objs.size()) { hw = o.base - 16; objs.pop_back(); } }
    t->top = f.r; t->fr.pop_back();
  }
  void edge_to(Frame& f, u32 e) {
    Edge& ed = f.f->edges[e];
    if (ed.ncopies) { Val tmp[64]; vector<Val> big; Val* t = tmp; if (ed.ncopies > 64) { big.resize(ed.ncopies); t = big.data(); }
      const i32* p = &f.f->pool[ed.copies]; for (u32 i = 0; i < ed.ncopies; ++i) { i32 s = p[2 * i + 1]; t[i] = s >= 0 ? f.r[s] : f.f->consts[-s - 1]; }
      for (u32 i = 0; i < ed.ncopies; ++i) f.r[p[2 * i]] = t[i]; }
    f.ip = ed.ip; f.f->hit[ed.ip] = 1;
  }
  void unwind() {   // T->exc / exctype set; frames above the throwing call already handle their own pads
    for (;;) {
      if (T->fr.empty()) break;
      // the top frame is at a call instruction (ip already advanced); its unwind edge:
      Frame& f = T->fr.back(); const Ins& in = f.f->code[f.ip - 1];
      if (in.op == I_CALL && in.c >= 0) { edge_to(f, in.c); return; }
      pop_frame(T);
    }
    uncaught();
  }
  [[noreturn]] void uncaught() {
    auto it = P.tinames.find(T->exctype); string n = it == P.tinames.end() ? "?" : it->second;
    if (opt["allow_exc"]) { note_end("uncaught exception " + n); throw PathEnd{3}; }
    violation("exception", "uncaught exception " + n);
  }
  void note_end(const string& m) { std::lock_guard<std::mutex> l(S.mu); S.fatals[m]++; }
  // ---- main loop --------------------------------------------------------------------------------------
#define V(i) ((i) >= 0 ? r[i] : cs[-(i)-1])
  Val binop(u8 op, u8 w, Val a, Val b) {
    a = I(a); b = I(b);
    if (!a.e && !b.e) {
      u64 m = maskw(w);
      switch (op) {
        case O_UDIV: case O_UREM: case O_SDIV: case O_SREM: {
          if (b.c == 0) violation("undefined", "integer division by zero");
          if (op == O_UDIV) return Val{a.c / b.c, nullptr}; if (op == O_UREM) return Val{a.c % b.c, nullptr};
          i64 x = sextw(a.c, w), y = sextw(b.c, w); if (y == -1) { if (x == sextw(1ull << (w - 1), w)) violation("undefined", "signed division overflow"); return Val{op == O_SDIV ? (u64)-x & m : 0, nullptr}; }
          return Val{(u64)(op == O_SDIV ? x / y : x % y) & m, nullptr}; }
        case O_SHL: return Val{b.c >= w ? 0 : (a.c << b.c) & m, nullptr};
        case O_LSHR: return Val{b.c >= w ? 0 : a.c >> b.c, nullptr};
        case O_ASHR: return Val{(u64)(sextw(a.c, w) >> (b.c >= w ? w - 1 : b.c)) & m, nullptr};
        default: abort();
      }
    }
    Expr *x = E(a, w), *y = E(b, w);
    if (op == O_UDIV || op == O_UREM || op == O_SDIV || op == O_SREM) { if (b.e && branch(X.eq(y, X.cst(0, w)))) violation("undefined", "integer division by zero"); if (!b.e && b.c == 0) violation("undefined", "integer division by zero"); }
    return norm(X.bin((Op)op, w, x, y));
  }
  Val icmp(u8 p, u8 w, Val a, Val b) {
    a = I(a); b = I(b); Expr *x = E(a, w), *y = E(b, w), *r;
    switch (p) { case P_EQ: r = X.eq(x, y); break; case P_NE: r = X.not1(X.eq(x, y)); break; case P_ULT: r = X.ult(x, y); break; case P_ULE: r = X.not1(X.ult(y, x)); break; case P_UGT: r = X.ult(y, x); break; case P_UGE: r = X.not1(X.ult(x, y)); break;
      case P_SLT: r = X.slt(x, y); break; case P_SLE: r = X.not1(X.slt(y, x)); break; case P_SGT: r = X.slt(y, x); break; default: r = X.not1(X.slt(x, y)); }
    return norm(r);
  }
  void run() {
    Frame* F; const Ins* code; Val* r; const Val* cs; u32 ip;
#define LOADF() do { F = &T->fr.back(); code = F->f->code.data(); r = F->r; cs = F->f->consts.data(); ip = F->ip; } while (0)
#define SAVEF() (F->ip = ip)
#define GOTO(e) do { Edge& ed_ = F->f->edges[e]; if (ed_.ncopies == 0) {} else if (ed_.ncopies == 1) { const i32* p_ = &F->f->pool[ed_.copies]; r[p_[0]] = V(p_[1]); } else { edge_to(*F, e); } ip = ed_.ip; F->f->hit[ip] = 1; } while (0)
    LOADF();
    for (;;) {
      const Ins& in = code[ip++];
      if (__builtin_expect((++icount & 0xffff) == 0, 0)) { SAVEF(); curloc = in.loc; if (icount > imax) violation("hang", "more than " + std::to_string(imax) + " instructions on one path"); timecheck(); }
      switch (in.op) {
        case I_BIN: {
          const Val &a = V(in.a), &b = V(in.b);
          if (__builtin_expect(!a.e && !b.e, 1)) {
            u64 m = maskw(in.w);
            switch (in.sub) {
              case O_ADD: r[in.dst] = Val{(a.c + b.c) & m, nullptr}; break;
              case O_SUB: r[in.dst] = Val{(a.c - b.c) & m, nullptr}; break;
              case O_MUL: r[in.dst] = Val{(a.c * b.c) & m, nullptr}; break;
              case O_AND: r[in.dst] = Val{a.c & b.c, nullptr}; break;
              case O_OR: r[in.dst] = Val{a.c | b.c, nullptr}; break;
              case O_XOR: r[in.dst] = Val{a.c ^ b.c, nullptr}; break;
              default: SAVEF(); curloc = in.loc; r[in.dst] = binop(in.sub, in.w, a, b);
            }
          } else { SAVEF(); curloc = in.loc; r[in.dst] = binop(in.sub, in.w, a, b); }
          break; }
        case I_FBIN: { SAVEF(); curloc = in.loc; Val a = V(in.a), b = V(in.b);
          if (!a.e && !b.e && in.w == 64 && in.sub <= F_DIV) { double x, y, z; memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); z = in.sub == F_ADD ? x + y : in.sub == F_SUB ? x - y : in.sub == F_MUL ? x * y : x / y; u64 o; memcpy(&o, &z, 8); r[in.dst] = Val{o, nullptr}; break; }
          r[in.dst] = fbin((Fop)in.sub, in.w, a, b); break; }
        case I_FUN: SAVEF(); curloc = in.loc; r[in.dst] = fun((Fop)in.sub, in.w, in.w2, V(in.a)); break;
        case I_ICMP: {
          const Val &a = V(in.a), &b = V(in.b);
          if (__builtin_expect(!a.e && !b.e, 1)) {
            bool c; u8 w = in.w;
            switch (in.sub) { case P_EQ: c = a.c == b.c; break; case P_NE: c = a.c != b.c; break; case P_ULT: c = a.c < b.c; break; case P_ULE: c = a.c <= b.c; break; case P_UGT: c = a.c > b.c; break; case P_UGE: c = a.c >= b.c; break;
              case P_SLT: c = sextw(a.c, w) < sextw(b.c, w); break; case P_SLE: c = sextw(a.c, w) <= sextw(b.c, w); break; case P_SGT: c = sextw(a.c, w) > sextw(b.c, w); break; default: c = sextw(a.c, w) >= sextw(b.c, w); }
            r[in.dst] = Val{c, nullptr};
          } else { SAVEF(); curloc = in.loc; r[in.dst] = icmp(in.sub, in.w, a, b); }
          break; }
        case I_FCMP: SAVEF(); curloc = in.loc; r[in.dst] = fcmp(in.sub, in.w, V(in.a), V(in.b)); break;
        case I_SELECT: {
          Val c = V(in.a);
          if (!c.e) { const i32* p = &F->f->pool[in.y]; if (in.x == 1) r[in.dst] = V(p[c.c ? 0 : 1]); else { Val t[16]; for (u32 l = 0; l < in.x; ++l) t[l] = V(p[2 * l + (c.c ? 0 : 1)]); for (u32 l = 0; l < in.x; ++l) r[in.dst + l] = t[l]; } break; }
          SAVEF(); curloc = in.loc;
          for (u32 l = 0; l < in.x; ++l) {
            const i32* p = &F->f->pool[in.y]; Val a = V(p[2 * l]), b = V(p[2 * l + 1]);
            bool fork = in.w2 == 1 || isnum(a) || isnum(b) || (in.w2 == 2 && !(a.e || b.e)) || in.x > 1;
            if (!a.e && !b.e && a.c == b.c) { r[in.dst + l] = a; continue; }
            if (fork) { bool t = branch(c.e); r[in.dst + l] = t ? a : b; }
            else r[in.dst + l] = norm(X.ite(c.e, E(a, in.w), E(b, in.w)));
          }
          break; }
        case I_ZEXT: { Val a = V(in.a); if (!a.e) r[in.dst] = a; else { SAVEF(); curloc = in.loc; a = I(a); r[in.dst] = a.e ? norm(X.zext(a.e, in.w)) : a; } break; }
        case I_SEXT: { Val a = V(in.a); if (a.e) { SAVEF(); curloc = in.loc; a = I(a); } r[in.dst] = a.e ? norm(X.sext(a.e, in.w)) : Val{(u64)sextw(a.c, in.w2) & maskw(in.w), nullptr}; break; }
        case I_TRUNC: { Val a = V(in.a); if (a.e) { SAVEF(); curloc = in.loc; a = I(a); } r[in.dst] = a.e ? norm(X.extract(a.e, 0, in.w)) : Val{a.c & maskw(in.w), nullptr}; break; }
        case I_COPY: r[in.dst] = V(in.a); break;
        case I_LOAD: {
          const Val& p = V(in.a); curloc = in.loc; SAVEF();
          u64 a = (__builtin_expect(p.e != nullptr, 0) ? concretize(p.e) : p.c) + in.imm;
          if (__builtin_expect(in.sub && race, 0)) { acquire(a); norace = true; r[in.dst] = load(a, in.w2, in.w); norace = false; }
          else r[in.dst] = load(a, in.w2, in.w);
          break; }
        case I_STORE: {
          const Val& p = V(in.b); curloc = in.loc; SAVEF();
          u64 a = (__builtin_expect(p.e != nullptr, 0) ? concretize(p.e) : p.c) + in.imm;
          if (__builtin_expect(in.sub && race, 0)) { release(a); norace = true; store(a, in.w2, in.w, V(in.a)); norace = false; }
          else store(a, in.w2, in.w, V(in.a));
          break; }
        case I_ALLOCA: { curloc = in.loc; SAVEF(); u64 n = C(V(in.a)) * in.imm; u64 a = alloc(n, 2); T->allocas.push_back(objs.size() - 1); r[in.dst] = Val{a, nullptr}; break; }
        case I_GEPADD: { const Val& a = V(in.a); if (!a.e) r[in.dst] = Val{a.c + in.imm, nullptr}; else r[in.dst] = norm(X.bin(O_ADD, 64, a.e, X.cst(in.imm, 64))); break; }
        case I_GEP: {
          const Val &a = V(in.a), &b = V(in.b);
          if (__builtin_expect(!a.e && !b.e, 1)) r[in.dst] = Val{a.c + (u64)sextw(b.c, in.w2) * in.x + in.imm, nullptr};
          else { SAVEF(); curloc = in.loc; Val bb = I(b); Expr* x = X.sext(E(bb, in.w2), 64); x = X.bin(O_MUL, 64, x, X.cst(in.x, 64)); x = X.bin(O_ADD, 64, x, X.cst(in.imm, 64)); r[in.dst] = norm(X.bin(O_ADD, 64, E(a, 64), x)); }
          break; }
        case I_BR: GOTO(in.x); break;
        case I_CBR: {
          const Val& c = V(in.a); bool t;
          if (__builtin_expect(c.e != nullptr, 0)) { SAVEF(); curloc = in.loc; t = branch(c.e); } else t = c.c;
          if (t) GOTO(in.x); else GOTO(in.y);
          break; }
        case I_SWITCH: {
          Val v = V(in.a); const u64* k = F->f->cases.data() + in.x; u32 e = (u32)in.imm;
          if (!v.e) { for (u32 i = 0; i < in.y; ++i) if (k[2 * i] == v.c) { e = (u32)k[2 * i + 1]; break; } }
          else { SAVEF(); curloc = in.loc; for (u32 i = 0; i < in.y; ++i) if (branch(X.eq(v.e, X.cst(k[2 * i], in.w)))) { e = (u32)k[2 * i + 1]; break; } }
          GOTO(e); break; }
        case I_RET: {
          Val ret[16]; const i32* p = in.y ? &F->f->pool[in.x] : nullptr; for (u32 i = 0; i < in.y && i < 16; ++i) ret[i] = V(p[i]);
          u32 n = in.y, dst = F->retdst; i32 en = F->enormal;
          pop_frame(T);
          if (T->fr.empty()) {
            if (thread_end()) return;
            LOADF(); break;
          }
          LOADF();
          for (u32 i = 0; i < n; ++i) r[dst + i] = ret[i];
          if (en >= 0) GOTO(en);
          break; }
        case I_UNREACH: SAVEF(); curloc = in.loc; violation("undefined", "control reached a point the compiler proved unreachable");
        case I_RESUME: { SAVEF(); curloc = in.loc; T->exc = C(V(in.a)); pop_frame(T); unwind(); LOADF(); break; }
        case I_LANDINGPAD: {
          SAVEF(); curloc = in.loc; u32 sel = 0; bool m = false;
          for (u32 i = 0; i < in.y && !m; ++i) { u64 c = V(F->f->pool[in.x + i]).c; if (c == ~0ull) continue; if (c == 0 || derives(T->exctype, c)) { m = true; sel = c ? (u32)c : 1; } }
          if (!m && !in.sub) { pop_frame(T); unwind(); LOADF(); break; }
          r[in.dst] = Val{T->exc, nullptr}; r[in.dst + 1] = Val{sel, nullptr}; break; }
        case I_OVF: { SAVEF(); curloc = in.loc; ovf(in, I(V(in.a)), I(V(in.b)), r); break; }
        case I_RMW: {
          SAVEF(); curloc = in.loc; u64 a = C(V(in.a)); Val v = V(in.b);
          acquire(a); norace = true; Val o = load(a, in.w2, in.w); Val nv; u8 w = in.w;
          switch (in.sub) { case 0: nv = v; break; case 1: nv = bin2(O_ADD, w, o, v); break; case 2: nv = bin2(O_SUB, w, o, v); break; case 3: nv = bin2(O_AND, w, o, v); break; case 5: nv = bin2(O_OR, w, o, v); break; case 6: nv = bin2(O_XOR, w, o, v); break; case 11: nv = fbin(F_ADD, w, o, v); break; case 12: nv = fbin(F_SUB, w, o, v); break; default: norace = false; unmodelled("atomic operation"); }
          store(a, in.w2, w, nv); norace = false; release(a); r[in.dst] = o; break; }
        case I_CMPXCHG: {
          SAVEF(); curloc = in.loc; u64 a = C(V(in.a)); acquire(a); norace = true; Val o = load(a, in.w2, in.w); Val c = icmp(P_EQ, in.w, o, V(in.b)); bool t = c.e ? branch(c.e) : c.c;
          Val nv = V(in.c); if (t) store(a, in.w2, in.w, nv); norace = false; release(a); r[in.dst] = o; r[in.dst + 1] = Val{t, nullptr}; break; }
        case I_FENCE: break;
        case I_INTR: SAVEF(); curloc = in.loc; intr(in, r, cs); break;
        case I_CALL: {
          curloc = in.loc; Fn* f;
          if (in.sub == 0) f = (Fn*)(uintptr_t)in.imm;
          else { SAVEF(); u64 a = C(V(in.a)); auto it = P.byaddr.find(a); if (it == P.byaddr.end()) violation("memory", "indirect call through an invalid function pointer"); f = it->second; }
          if (__builtin_expect(f->builtin >= 0, 0)) {
            SAVEF(); Val as[32]; u32 n = in.y; if (n > 32) unmodelled("too many arguments"); const i32* p = &F->f->pool[in.x]; for (u32 i = 0; i < n; ++i) as[i] = V(p[i]);
            Thr* me = T; size_t depth = T->fr.size(); Frame* before = F; (void)before;
            Val out[2] = {Val{0, nullptr}, Val{0, nullptr}};
            int k = builtin(f, as, n, out);
            // 0: finished, 1: control moved (exception, new frame or thread switch), 2: retry later (blocked)
            if (k == 0) { LOADF(); for (u32 i = 0; i < in.w && i < 2; ++i) r[in.dst + i] = out[i]; if (in.b >= 0) GOTO(in.b); }
            else { if (k == 2) { me->fr[depth - 1].ip--; pick(); } else if (k == 4) me->fr[depth - 1].ip--; LOADF(); }
            break;
          }
          SAVEF();
          if (__builtin_expect(!f->body, 0)) unmodelled("call of external function " + f->name);
          if (T->top + f->nslots + 64 >= T->lim || T->fr.size() > 20000) violation("stack overflow", "call depth exceeds " + std::to_string(T->fr.size()));
          Val* nr = T->top; const i32* p = F->f->pool.data() + in.x; for (u32 i = 0; i < in.y && i < f->nargs; ++i) nr[i] = V(p[i]);
          Frame fr; fr.f = f; fr.ip = 0; fr.r = nr; fr.retdst = in.dst; fr.enormal = in.b; fr.eunwind = in.c; fr.allocabase = T->allocas.size(); fr.callloc = in.loc;
          T->top += f->nslots; T->fr.push_back(fr); fnflag[f->id] = 1; f->hit[0] = 1;
          LOADF(); break; }
        default: unmodelled("instruction kind " + std::to_string(in.op));
      }
    }
  }
  Val bin2(Op op, u8 w, Val a, Val b) { return norm(X.bin(op, w, E(I(a), w), E(I(b), w))); }
  // The bottom frame of T returned.  True: the whole path is finished.
  bool thread_end() {
    if (T->id == 0) return true;
    if (T->phase == 0) {   // destroy the thread's state object (deleting destructor: vtable slot 1)
      T->phase = 1; u64 vt = load(T->threadobj, 8, 64).c; u64 fa = load(vt + 8, 8, 64).c; auto it = P.byaddr.find(fa);
      if (it != P.byaddr.end()) { Val a{T->threadobj, nullptr}; push_frame(T, it->second, &a, 1, 0, -1, -1, 0); return false; }
    }
    T->st = T_DONE; if (race) release(~(u64)T->id);
    pick(); return false;
  }
  void ovf(const Ins& in, Val a, Val b, Val* r) {
    u8 w = in.w; u64 m = maskw(w);
    if (!a.e && !b.e) {
      u64 v; bool o;
      switch (in.sub) {
        case 0: v = (a.c + b.c) & m; o = v < a.c; break;
        case 1: v = (a.c - b.c) & m; o = a.c < b.c; break;
        case 2: { unsigned __int128 p = (unsigned __int128)a.c * b.c; v = (u64)p & m; o = p > m; break; }
        default: { __int128 x = sextw(a.c, w), y = sextw(b.c, w), p = in.sub == 3 ? x + y : in.sub == 4 ? x - y : x * y; v = (u64)p & m; o = (__int128)sextw(v, w) != p; }
      }
      r[in.dst] = Val{v, nullptr}; r[in.dst + 1] = Val{o, nullptr}; return;
    }
    Expr *x = E(a, w), *y = E(b, w), *v, *o;
    if (in.sub == 0) { v = X.bin(O_ADD, w, x, y); o = (unsigned __int128)x->umax + y->umax <= m ? X.FALSE : X.ult(v, x); }
    else if (in.sub == 1) { v = X.bin(O_SUB, w, x, y); o = X.ult(x, y); }
    else if (in.sub == 2 && (unsigned __int128)x->umax * y->umax <= m) { v = X.bin(O_MUL, w, x, y); o = X.FALSE; }
    else if (in.sub == 2 && w <= 32) { v = X.bin(O_MUL, w, x, y); Expr* q = X.bin(O_MUL, 2 * w, X.zext(x, 2 * w), X.zext(y, 2 * w)); o = X.ult(X.cst(m, 2 * w), q); }
    else if (w < 64 && in.sub != 5) { v = X.bin(in.sub == 3 ? O_ADD : O_SUB, w, x, y); Expr* q = X.bin(in.sub == 3 ? O_ADD : O_SUB, w + 1, X.sext(x, w + 1), X.sext(y, w + 1)); o = X.not1(X.eq(X.sext(v, w + 1), q)); }
    else { ovf(in, Val{concretize(x), nullptr}, Val{concretize(y), nullptr}, r); return; }
    r[in.dst] = norm(v); r[in.dst + 1] = norm(o);
  }
  void intr(const Ins& in, Val* r, const Val* cs) {
    auto A = [&](int i) { return V(i); };
    switch (in.sub) {
      case N_MEMCPY: case N_MEMMOVE: copymem(C(A(in.a)), C(A(in.b)), C(A(in.c))); break;
      case N_MEMSET: setmem(C(A(in.a)), A(in.b), C(A(in.c))); break;
      case N_UMAX: case N_UMIN: case N_SMAX: case N_SMIN: {
        Val a = I(A(in.a)), b = I(A(in.b)); Val c = icmp(in.sub == N_UMAX ? P_UGT : in.sub == N_UMIN ? P_ULT : in.sub == N_SMAX ? P_SGT : P_SLT, in.w, a, b);
        r[in.dst] = c.e ? norm(X.ite(c.e, E(a, in.w), E(b, in.w))) : c.c ? a : b; break; }
      case N_ABS: { Val a = I(A(in.a)); Val n = bin2(O_SUB, in.w, Val{0, nullptr}, a), c = icmp(P_SLT, in.w, a, Val{0, nullptr}); r[in.dst] = c.e ? norm(X.ite(c.e, E(n, in.w), E(a, in.w))) : c.c ? n : a; break; }
      case N_BSWAP: { u64 v = C(A(in.a)), o = 0; for (int i = 0; i < in.w / 8; ++i) o |= ((v >> (8 * i)) & 255) << (in.w - 8 - 8 * i); r[in.dst] = Val{o, nullptr}; break; }
      case N_CTPOP: r[in.dst] = Val{(u64)__builtin_popcountll(C(A(in.a))), nullptr}; break;
      case N_CTLZ: { u64 v = C(A(in.a)); r[in.dst] = Val{v ? (u64)__builtin_clzll(v) - (64 - in.w) : in.w, nullptr}; break; }
      case N_CTTZ: { u64 v = C(A(in.a)); r[in.dst] = Val{v ? (u64)__builtin_ctzll(v) : in.w, nullptr}; break; }
      case N_FSHL: case N_FSHR: { u64 a = C(A(in.a)), b = C(A(in.b)), s = C(A(in.c)) % in.w, m = maskw(in.w); if (in.sub == N_FSHR) s = (in.w - s) % in.w; if (in.sub == N_FSHR && s == 0) { r[in.dst] = Val{b, nullptr}; break; } r[in.dst] = Val{s ? ((a << s) | (b >> (in.w - s))) & m : a, nullptr}; break; }
      case N_USUBSAT: { Val a = I(A(in.a)), b = I(A(in.b)), c = icmp(P_ULT, in.w, a, b), d = bin2(O_SUB, in.w, a, b); r[in.dst] = c.e ? norm(X.ite(c.e, X.cst(0, in.w), E(d, in.w))) : c.c ? Val{0, nullptr} : d; break; }
      case N_UADDSAT: { Val a = I(A(in.a)), b = I(A(in.b)), d = bin2(O_ADD, in.w, a, b), c = icmp(P_ULT, in.w, d, a); r[in.dst] = c.e ? norm(X.ite(c.e, X.cst(maskw(in.w), in.w), E(d, in.w))) : c.c ? Val{maskw(in.w), nullptr} : d; break; }
      case N_FMINNUM: case N_FMAXNUM: { Val a = A(in.a), b = A(in.b); Val ua = fcmp(8, in.w, a, a); if (ua.e ? branch(ua.e) : ua.c) { r[in.dst] = b; break; } Val c = fcmp(in.sub == N_FMINNUM ? 2 : 4, in.w, a, b); r[in.dst] = (c.e ? branch(c.e) : c.c) ? b : a; break; }
      case N_FMULADD: r[in.dst] = fbin(F_ADD, in.w, fbin(F_MUL, in.w, A(in.a), A(in.b)), A(in.c)); break;
      case N_COPYSIGN: { u64 a = C(A(in.a)), b = C(A(in.b)), s = 1ull << (in.w - 1); r[in.dst] = Val{(a & ~s) | (b & s), nullptr}; break; }
      case N_ISFPCLASS: {
        Val a = A(in.a); u8 w = in.w2; u64 t = in.imm;
        if (isnum(a)) {   // numbers are finite; signs and zero by comparison
          u64 fin = t & 0x1f8; if (fin == 0x1f8) { r[in.dst] = Val{1, nullptr}; break; } if (fin == 0) { r[in.dst] = Val{0, nullptr}; break; }
          a = Val{concretize(a.e), nullptr};
        }
        if (!a.e) { double d = dbl_of_bits(a.c, w); bool n = (a.c >> (w - 1)) & 1; u64 c; if (d != d) c = 3; else if (std::isinf(d)) c = n ? 4 : 0x200; else if (d == 0) c = n ? 0x20 : 0x40; else { bool sub = w == 64 ? fabs(d) < 2.2250738585072014e-308 : fabs(d) < 1.17549435082228751e-38; c = sub ? (n ? 0x10 : 0x80) : (n ? 8 : 0x100); } r[in.dst] = Val{(t & c) != 0, nullptr}; break; }
        unsigned mb = w == 32 ? 23 : 52; Expr* mag = X.extract(a.e, 0, w - 1); Expr* s = X.extract(a.e, w - 1, 1); u64 inf = (w == 32 ? 0xffull : 0x7ffull) << mb, minn = 1ull << mb; auto K = [&](u64 v) { return X.cst(v, w - 1); };
        Expr* isnan = X.ult(K(inf), mag); Expr* isinf = X.eq(mag, K(inf)); Expr* isz = X.eq(mag, K(0)); Expr* issub = X.and1(X.not1(isz), X.ult(mag, K(minn))); Expr* isn = X.and1(X.not1(X.ult(mag, K(minn))), X.ult(mag, K(inf)));
        Expr* o = X.FALSE; auto add = [&](u64 bit, Expr* c) { if (t & bit) o = X.or1(o, c); };
        add(3, isnan); add(4, X.and1(isinf, s)); add(0x200, X.and1(isinf, X.not1(s))); add(8, X.and1(isn, s)); add(0x100, X.and1(isn, X.not1(s))); add(0x10, X.and1(issub, s)); add(0x80, X.and1(issub, X.not1(s))); add(0x20, X.and1(isz, s)); add(0x40, X.and1(isz, X.not1(s)));
        r[in.dst] = norm(o); break; }
      case N_TYPEID: { u64 v = A(in.a).c; r[in.dst] = Val{(u32)v, nullptr}; break; }
      case N_TRAP: if (in.imm == 1) unmodelled("untranslated instruction at " + P.locstr(curloc)); violation("undefined", "trap");
      default: break;
    }
  }
  void setmem(u64 a, Val b, u64 n) {
    if (!n) return; acc(a, n, true);
    b = I(b); if (b.e && b.e->w != 8) b = norm(X.extract(b.e, 0, 8));
    if (b.e) { for (u64 i = 0; i < n; ++i) store(a + i, 1, 8, b); return; }
    u64 o = off(a); memset(host + o, (int)b.c, n); if (anysym(a, n)) memset(sh + o, 0, n * 8);
  }
  // ---- builtins -----------------------------------------------------------------------------------------
  Val mathfn(int id, Val a, Val b, u8 w) {
    switch (id) {
      case B_exp: case B_expf: return fun(F_EXP, w, w, a); case B_log: case B_logf: return fun(F_LOG, w, w, a); case B_sqrt: case B_sqrtf: return fun(F_SQRT, w, w, a);
      case B_pow: case B_powf: return fbin(F_POW, w, a, b); case B_fabs: case B_fabsf: return fun(F_ABS, w, w, a); case B_floor: case B_floorf: return fun(F_FLOOR, w, w, a); case B_ceil: case B_ceilf: return fun(F_CEIL, w, w, a);
      case B_log1p: return fun(F_LOG1P, w, w, a); case B_log2: return fun(F_LOG2, w, w, a); case B_log10: return fun(F_LOG10, w, w, a); case B_fmod: return fbin(F_REM, w, a, b); case B_round: return fun(F_ROUND, w, w, a);
      case B_expm1: return fun(F_EXPM1, w, w, a); case B_tanh: return fun(F_TANH, w, w, a); case B_sin: return fun(F_SIN, w, w, a); default: return fun(F_COS, w, w, a);
    }
  }
  string str0(Val v) { return cstr(C(v)); }
  bool mtx_try(u64 m) { u64& s = mutexes[m]; if (s) return false; s = T->id + 1; acquire(m); return true; }
  int builtin(Fn* f, Val* a, u32 n, Val* out) {
    int id = f->builtin; auto ret = [&](u64 v) { out[0] = Val{v, nullptr}; return 0; };
    switch (id) {
      // -- harness interface
      case B_sym_int: case B_sym_choice: {
        string nm = uniq(str0(a[0])); i64 lo = (i64)C(a[1]), hi = (i64)C(a[2]);
        if (hi < lo) throw PathEnd{1};
        if (hi == lo) { inputs.push_back(In{nm, 0, 4, lo, 1, nullptr}); return ret((u64)lo); }
        Expr* v = bvinput(nm, lo, hi); inputs.back().name = nm; Expr* e = X.bin(O_ADD, 64, X.zext(v, 64), X.cst((u64)lo, 64));
        if (id == B_sym_choice) return ret(concretize(v) + (u64)lo);
        out[0] = norm(e); return 0; }
      case B_sym_num: {
        string nm = uniq(str0(a[0])); i64 lo = (i64)C(a[1]), hi = (i64)C(a[2]), den = (i64)C(a[3]); if (hi < lo) throw PathEnd{1};
        if (hi == lo) { inputs.push_back(In{nm, 0, 4, lo, den, nullptr}); out[0] = fconst((double)lo / den, 64); return 0; }
        u64 span = (u64)(hi - lo); u8 w = 64 - __builtin_clzll(span); Expr* v = bvinput(nm, lo, hi, den); (void)v; u32 vid = g_vars.get(vname(nm, lo, hi, den), w, 0);
        for (auto& in : inputs) if (in.var == vid && in.kind == 0) { in.name = nm; in.den = den; }
        out[0] = nnorm(X.numvar(vid, lo, hi, den)); return 0; }
      case B_sym_real: { string nm = uniq(str0(a[0])); double lo = dbl_of_bits(C(a[1]), 64), hi = dbl_of_bits(C(a[2]), 64); out[0] = Val{0, realvar_range(nm, lo, hi, true)}; return 0; }
      case B_sym_bits: {
        string nm = uniq(str0(a[0])); u8 w = (u8)C(a[1]); u32 vid = g_vars.get(nm + "@b" + std::to_string(w), w, 0); Expr* v = X.var(vid, w);
        if (!inputset.count(vid)) { inputset[vid] = 1; inputs.push_back(In{nm, vid, 3, 0, 1, v}); } out[0] = norm(X.zext(v, 64)); return 0; }
      case B_assume: { Val v = I(a[0]); if (!v.e) { if (!(u32)v.c) throw PathEnd{1}; return 0; } assume(X.not1(X.eq(v.e, X.cst(0, v.e->w)))); return 0; }
      case B_check: { Val v = I(a[0]); if (!v.e) { ++S.checks; if (!(u32)v.c) violation("check", str0(a[1])); return 0; } check(X.not1(X.eq(v.e, X.cst(0, v.e->w))), str0(a[1])); return 0; }
      case B_fail: ++S.checks; violation("check", str0(a[0]));
      case B_reach: reached.push_back(str0(a[0])); return 0;
      case B_obs_i: obs.push_back({str0(a[0]), I(a[1]), 0}); return 0;
      case B_obs_d: obs.push_back({str0(a[0]), a[1], 1}); return 0;
      case B_issym: { u64 p = C(a[0]), k = C(a[1]); bool s = false; if (k) { acc(p, k, false); for (u64 i = 0; i < k; ++i) s |= sh[off(p) + i] != 0 && lf[(off(p) + i) >> 6]; } return ret(s); }
      case B_conc: return ret(C(I(a[0])));
      case B_pick: { Val v = I(a[0]); return ret(v.e ? pick(v.e) : v.c); }
      case B_fatal: { string m = str0(a[0]); if (opt["allow_fatal"]) { note_end(m + " at " + repoloc()); throw PathEnd{3}; } violation("fatal", m + " (" + repoloc() + ")"); }
      case B_option: { string k = str0(a[0]); i64 v = (i64)C(a[1]); opt[k] = v; if (k == "sched") sched = v; else if (k == "preempt") preempt = v; else if (k == "spurious") spurious = v; else if (k == "race") race = v; else if (k == "max_instr") imax = icount + v; return 0; }
      case B_note: return 0;
      case B_native: return ret(0);
      case B_draw_int: {
        u64 seed = C(I(a[0])), ctr = C(I(a[1])), lo = C(I(a[2])), hi = C(I(a[3])); if (hi == lo) return ret(lo);
        if (hi - lo == 0xffffffffu || hi - lo == ~0ull) { u64 z = (seed + 0x9e3779b97f4a7c15ull) * (2 * ctr + 0x2545f4914f6cdd1dull); z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ull; z ^= z >> 32; return ret(lo + (z & (hi - lo))); }   // the raw output of a generator is a fixed function of its seed (used to seed others)
        char nm[100]; snprintf(nm, sizeof nm, "draw_%llu_%llu_%llu", (unsigned long long)seed, (unsigned long long)ctr, (unsigned long long)(hi - lo));
        u64 span = hi - lo; Expr* v;
        if (span == ~0ull) { u32 vid = g_vars.get(string(nm) + "@b64", 64, 0); v = X.var(vid, 64); if (!inputset.count(vid)) { inputset[vid] = 1; inputs.push_back(In{nm, vid, 3, 0, 1, v}); } }
        else { size_t k = inputs.size(); v = bvinput(nm, 0, (i64)span); if (inputs.size() > k) inputs.back().name = nm; }
        out[0] = norm(X.bin(O_ADD, 64, X.zext(v, 64), X.cst(lo, 64))); return 0; }
      case B_draw_unit: {
        u64 seed = C(I(a[0])), ctr = C(I(a[1])); int bits = opt.count("draw_bits") ? opt["draw_bits"] : 6; char nm[100]; snprintf(nm, sizeof nm, "unit_%llu_%llu", (unsigned long long)seed, (unsigned long long)ctr);
        i64 hi = (1ll << bits) - 1; size_t k = inputs.size(); bvinput(nm, 0, hi, hi + 1); u32 vid = g_vars.get(vname(nm, 0, hi, hi + 1), bits, 0); if (inputs.size() > k) { inputs.back().name = nm; inputs.back().den = hi + 1; }
        out[0] = nnorm(X.numvar(vid, 0, hi, hi + 1)); return 0; }
      case B_param: { string k = str0(a[0]); auto it = S.params.find(k); return ret(it == S.params.end() ? C(a[1]) : (u64)it->second); }
      // -- memory
      case B_malloc: { u64 k = C(I(a[0])); u64 al = f->name.find("align_val") != string::npos ? C(a[1]) : 16; return ret(alloc(k, 1, std::max<u64>(al, 16))); }
      case B_alignedalloc: return ret(alloc(C(I(a[1])), 1, std::max<u64>(C(a[0]), 16)));
      case B_calloc: return ret(alloc(C(I(a[0])) * C(I(a[1])), 1, 16, 0));
      case B_realloc: { u64 p = C(a[0]), k = C(I(a[1])); u64 q = alloc(k, 1); if (p) { Obj o = objs[gran[off(p) / 16]]; copymem(q, p, std::min(k, o.size)); freep(p); } return ret(q); }
      case B_free: freep(C(a[0])); return 0;
      case B_memcpy: case B_memmove: { u64 d = C(a[0]); copymem(d, C(a[1]), C(I(a[2]))); return ret(d); }
      case B_memset: { u64 d = C(a[0]); setmem(d, a[1], C(I(a[2]))); return ret(d); }
      case B_memcmp: case B_bcmp: {
        u64 p = C(a[0]), q = C(a[1]), k = C(I(a[2])); if (!k) return ret(0); acc(p, k, false); acc(q, k, false);
        if (!anysym(p, k) && !anysym(q, k)) { int c = memcmp(host + off(p), host + off(q), k); return ret((u32)(c < 0 ? -1 : c > 0 ? 1 : 0)); }
        Expr* res = X.cst(0, 32);
        for (u64 i = k; i-- > 0;) { Val x = load(p + i, 1, 8), y = load(q + i, 1, 8); Expr *ex = E(x, 8), *ey = E(y, 8); Expr* e = X.eq(ex, ey); if (e == X.TRUE) continue; res = X.ite(e, res, id == B_bcmp ? X.cst(1, 32) : X.ite(X.ult(ex, ey), X.cst(~0u, 32), X.cst(1, 32))); }
        out[0] = norm(res); return 0; }
      // -- exceptions
      case B_cxa_alloc: return ret(alloc(C(a[0]), 1));
      case B_cxa_free: return 0;
      case B_cxa_throw: T->exc = C(a[0]); T->exctype = C(a[1]); exctypes[T->exc] = T->exctype; unwind(); return 1;
      case B_cxa_begin: T->caught.push_back(C(a[0])); return ret(C(a[0]));
      case B_cxa_getptr: return ret(C(a[0]));
      case B_cxa_end: if (!T->caught.empty()) T->caught.pop_back(); return 0;
      case B_cxa_rethrow: if (T->caught.empty()) violation("exception", "rethrow without exception"); T->exc = T->caught.back(); T->exctype = exctypes[T->exc]; unwind(); return 1;
      case B_personality: return 0;
      case B_terminate: if (opt["allow_exc"]) { note_end("std::terminate"); throw PathEnd{3}; } violation("exception", "std::terminate called");
      case B_guard_acq: { u64 g = C(a[0]); acquire(g); norace = true; Val v = load(g, 1, 8); norace = false; if (v.c) return ret(0); return ret(1); }
      case B_guard_rel: { u64 g = C(a[0]); norace = true; store(g, 1, 8, Val{1, nullptr}); norace = false; release(g); return 0; }
      case B_nop0: return 0;
      case B_zero: return ret(0);
      case B_one: return ret(1);
      case B_pure: violation("undefined", "pure virtual function called");
      case B_throwfn: if (opt["allow_exc"]) { note_end(f->pretty); throw PathEnd{3}; } violation("exception", f->pretty + " thrown by the standard library");
      case B_abort: if (opt["allow_fatal"]) { note_end(f->name); throw PathEnd{3}; } violation("fatal", f->name + " called (" + repoloc() + ")");
      // -- threads
      case B_thr_hw: return ret(4);
      case B_self: return ret(T->id + 1);
      case B_yield: if (yieldpt()) return yielded(); return ret(0);
      case B_thr_start: {
        u64 th = C(a[0]), up = C(a[1]); u64 st = load(up, 8, 64).c; store(up, 8, 64, Val{0, nullptr});
        if ((int)thr.size() >= (race ? NVC : 400)) unmodelled("too many threads");
        Thr* me = T; Thr* t = mkthread(); t->threadobj = st; u64 vt = load(st, 8, 64).c; u64 fa = load(vt + 16, 8, 64).c; auto it = P.byaddr.find(fa); if (it == P.byaddr.end()) unmodelled("thread entry");
        if (race) { for (int i = 0; i < NVC; ++i) if (i != t->id) t->vc[i] = std::max(t->vc[i], me->vc[i]); ++me->vc[me->id]; }
        Val x{st, nullptr}; push_frame(t, it->second, &x, 1, 0, -1, -1, 0);
        store(th, 8, 64, Val{(u64)t->id + 1, nullptr}); return 0; }
      case B_thr_join: {
        u64 th = C(a[0]); u64 tid = load(th, 8, 64).c; if (tid == 0 || tid > thr.size()) violation("exception", "join of a thread that is not joinable");
        if (yieldpt()) return yielded();
        Thr* o = thr[tid - 1]; if (o->st != T_DONE) { T->st = T_JOIN; T->wait = tid - 1; T->yielded = true; return 2; }
        T->yielded = false; if (race) acquire(~(u64)o->id); store(th, 8, 64, Val{0, nullptr}); return 0; }
      case B_thr_detach: { u64 th = C(a[0]); store(th, 8, 64, Val{0, nullptr}); return 0; }
      case B_mx_lock: {
        u64 m = C(a[0]); if (yieldpt()) return yielded();
        if (mutexes[m] == (u64)T->id + 1) { usedsched = usedsched || thr.size() > 1; violation("deadlock", "a thread locks a mutex it already holds"); }
        if (!mtx_try(m)) { T->st = T_MX; T->wait = m; T->yielded = true; return 2; }
        T->yielded = false; return ret(0); }
      case B_mx_trylock: { u64 m = C(a[0]); if (yieldpt()) return yielded(); T->yielded = false; return ret(mtx_try(m) ? 0 : 16); }
      case B_mx_unlock: { u64 m = C(a[0]); if (mutexes[m] != (u64)T->id + 1) violation("undefined", "unlock of a mutex the thread does not hold"); release(m); mutexes[m] = 0; return ret(0); }
      case B_cv_wait: {
        u64 cv = C(a[0]); u64 m = load(C(a[1]), 8, 64).c;
        if (T->phase != 5) {
          if (yieldpt()) return yielded(); T->yielded = false;
          if (mutexes[m] != (u64)T->id + 1) violation("undefined", "condition variable wait without holding the mutex");
          release(m); mutexes[m] = 0; T->st = T_CV; T->wait = cv; T->wait2 = m; T->phase = 5; return 2; }
        if (!mtx_try(m)) { T->st = T_MX; T->wait = m; return 2; }
        T->phase = 0; return 0; }
      case B_cv_n1: {
        u64 cv = C(a[0]); if (yieldpt()) return yielded(); T->yielded = false; vector<Thr*> w; for (auto t : thr) if (t->st == T_CV && t->wait == cv) w.push_back(t);
        if (w.empty()) return 0; Thr* t = w[sched ? choose(w.size()) : 0]; t->st = T_RUN; return 0; }
      case B_cv_nall: { u64 cv = C(a[0]); if (yieldpt()) return yielded(); T->yielded = false; for (auto t : thr) if (t->st == T_CV && t->wait == cv) t->st = T_RUN; return 0; }
      // -- environment
      case B_clock: return ret(clockv += 1000000);
      case B_time: { if (n && C(a[0])) store(C(a[0]), 8, 64, Val{1000000, nullptr}); return ret(1000000); }
      case B_localtime: { u64 p = f->name == "localtime_r" ? C(a[1]) : alloc(64, 1, 16, 0); return ret(p); }
      case B_strftime: { u64 p = C(a[0]); if (C(a[1]) > 1) { store(p, 1, 8, Val{'t', nullptr}); store(p + 1, 1, 8, Val{0, nullptr}); return ret(1); } return ret(0); }
      case B_exp: case B_log: case B_sqrt: case B_pow: case B_fabs: case B_floor: case B_ceil: case B_log1p: case B_log2: case B_log10: case B_fmod: case B_round: case B_expm1: case B_tanh: case B_sin: case B_cos: out[0] = mathfn(id, a[0], a[1], 64); return 0;
      case B_expf: case B_logf: case B_sqrtf: case B_powf: case B_fabsf: case B_floorf: case B_ceilf: out[0] = mathfn(id, a[0], a[1], 32); return 0;
      case B_hashbytes: {
        u64 p = C(a[0]), k = C(I(a[1])), seed = C(a[2]); if (weakhash) return ret(k * 0x9e3779b97f4a7c15ull + 17);
        string s; for (u64 i = 0; i < k; ++i) { Val v = load(p + i, 1, 8); s += (char)C(v); } return ret(std::_Hash_bytes(s.data(), k, seed)); }
      case B_needrehash: {
        u64 p = C(a[0]); std::__detail::_Prime_rehash_policy h; static_assert(sizeof h == 16, ""); acc(p, 16, true); memcpy(&h, host + off(p), 16);
        auto r = h._M_need_rehash(C(a[1]), C(a[2]), C(a[3])); memcpy(host + off(p), &h, 16); out[0] = Val{r.first, nullptr}; out[1] = Val{r.second, nullptr}; return 0; }
      case B_nextbkt: { u64 p = C(a[0]); std::__detail::_Prime_rehash_policy h; acc(p, 16, true); memcpy(&h, host + off(p), 16); u64 v = h._M_next_bkt(C(a[1])); memcpy(host + off(p), &h, 16); return ret(v); }
      case B_strtof: case B_strtod: {
        u64 p = C(a[0]), e = C(a[1]); string s = cstr(p); char* q; u64 v; if (id == B_strtof) { float x = strtof(s.c_str(), &q); u32 b; memcpy(&b, &x, 4); v = b; } else { double x = strtod(s.c_str(), &q); memcpy(&v, &x, 8); }
        if (e) store(e, 8, 64, Val{p + (q - s.c_str()), nullptr}); return ret(v); }
      case B_strtol: case B_strtoul: { u64 p = C(a[0]), e = C(a[1]); string s = cstr(p); char* q; u64 v = id == B_strtol ? (u64)strtoll(s.c_str(), &q, (int)C(a[2])) : strtoull(s.c_str(), &q, (int)C(a[2])); if (e) store(e, 8, 64, Val{p + (q - s.c_str()), nullptr}); return ret(v); }
      case B_dyncast: { u64 p = C(a[0]); if (!p) return ret(0); u64 vt = load(p, 8, 64).c; u64 ti = load(vt - 8, 8, 64).c; u64 top = load(vt - 16, 8, 64).c; (void)top; return ret(derives(ti, C(a[2])) ? p : 0); }
    }
    unmodelled("builtin " + f->name);
  }
  int yielded() { // the caller thread stays at its call; another thread was chosen
    return 4; }
  void freep(u64 p) {
    if (!p) return;
    u64 o = p - G_BASE; if (o >= hw - G_BASE) memerr("free of an invalid pointer", p, 0);
    Obj& ob = objs[gran[o / 16]]; if (ob.base != p || ob.kind != 1) memerr("free of a pointer that was not allocated", p, 0);
    if (!ob.live) memerr("double free", p, 0);
    if (race && thr.size() > 1 && ob.size) raceacc(p, std::min<u64>(ob.size, 256), true);
    ob.live = 0; ob.loc = curloc;
  }
#undef V
