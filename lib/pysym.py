"""Symbolic execution of the Python package: every path of an entry is executed by the Python interpreter itself, with values
that are Z3 terms; a comparison of such values forks where both outcomes are possible, and every check is put to Z3."""
import importlib, importlib.abc, importlib.util, json, multiprocessing, os, sys, time, traceback, types
from fractions import Fraction
import z3
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYSYM_REPO', '/repo')

class Infeasible(BaseException): pass
class Unmodelled(BaseException): pass
class Violated(BaseException):
    def __init__(self, msg, model=None): BaseException.__init__(self, msg); self.msg = msg; self.model = model

class Path:   # one execution
    cur = None
    def __init__(self, prefix, params, model=None):
        self.prefix = prefix; self.params = params; self.dec = []; self.todo = []; self.names = {}; self.solver = z3.Solver(); self.solver.set('timeout', 20000); self.pc = []
        self.model = model; self.log = []; self.reach = set(); self.queries = 0; self.solver_s = 0.; self.checks = 0; self.unknown = 0; self.sqrts = 0
    def name(self, n):
        k = self.names.get(n, 0); self.names[n] = k + 1; return n if k == 0 else '%s#%d' % (n, k)
    def ask(self, c):
        t = time.time(); self.solver.push(); self.solver.add(c); r = self.solver.check(); m = self.solver.model() if r == z3.sat else None; self.solver.pop(); self.queries += 1; self.solver_s += time.time() - t
        if r == z3.unknown: self.unknown += 1
        return r, m
    def add(self, c): self.solver.add(c); self.pc.append(c)
    def choose(self, n, lo, hi):
        n = self.name(n)
        if lo > hi: raise Infeasible()
        if self.model is not None: v = self.model[1][n]
        elif len(self.dec) < len(self.prefix): v = self.prefix[len(self.dec)]; self.dec.append(v)
        else:
            v = lo
            for w in range(hi, lo, -1): self.todo.append(self.dec + [w])
            self.dec.append(v)
        self.log.append((n, v)); return v
    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.model is not None: raise Unmodelled('a comparison of a replay is not ground: %s' % c)
        if len(self.dec) < len(self.prefix): v = self.prefix[len(self.dec)]
        else:
            a, _ = self.ask(c); b, _ = self.ask(z3.Not(c))
            if a == z3.unsat and b == z3.unsat: raise Infeasible()
            v = a != z3.unsat
            if v and b != z3.unsat: self.todo.append(self.dec + [False])
        self.dec.append(v); self.add(c if v else z3.Not(c)); return v
    def check(self, c, msg):
        self.checks += 1
        if isinstance(c, Bool): c = c.t
        if not z3.is_expr(c):
            if not c: raise Violated(msg, self.final_model())
            return
        c = z3.simplify(c)
        if z3.is_true(c): return
        if self.model is not None:
            if z3.is_false(c): raise Violated(msg)
            raise Unmodelled('a check of a replay is not ground')
        r, m = self.ask(z3.Not(c))
        if r == z3.sat: raise Violated(msg, m)
        if r == z3.unknown: raise Unmodelled('solver gave no answer')
    def final_model(self):
        if self.model is not None: return None
        return self.ask(z3.BoolVal(True))[1]

def P(): return Path.cur
def CH(n, lo, hi): return P().choose(n, lo, hi)
def CHECK(c, msg): P().check(c, msg)
def REACH(n): P().reach.add(n)
def PARAM(n, d): return P().params.get(n, d)
def ASSUME(c):
    if not c: raise Infeasible()

class Bool:
    def __init__(self, t): self.t = t
    def __bool__(self): return P().branch(self.t)
def term(x):
    if isinstance(x, Num): return x.t
    if isinstance(x, bool): raise Unmodelled('a truth value as a number')
    if isinstance(x, int): return z3.RealVal(x)
    if hasattr(x, 'dtype') and x.dtype.kind in 'iuf': x = x.item()
    if isinstance(x, int): return z3.RealVal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')): return None
        f = Fraction(x); return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
    return None
def num(op):
    def f(a, b):
        t = term(b)
        if t is None:
            if isinstance(b, float) and b != b: return b
            return NotImplemented
        return Num(z3.simplify(op(a.t, t)))
    return f
def cmp(op):
    def f(a, b):
        t = term(b)
        if t is None:
            if isinstance(b, float): raise Unmodelled('comparison with an infinite or missing value')
            return NotImplemented
        return Bool(op(a.t, t))
    return f
SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort()); LOG = z3.Function('log', z3.RealSort(), z3.RealSort())
class Num:   # a real number
    def __init__(self, t): self.t = t
    __add__ = num(lambda a, b: a + b); __radd__ = num(lambda a, b: b + a); __sub__ = num(lambda a, b: a - b); __rsub__ = num(lambda a, b: b - a); __mul__ = num(lambda a, b: a * b); __rmul__ = num(lambda a, b: b * a); __truediv__ = num(lambda a, b: a / b); __rtruediv__ = num(lambda a, b: b / a)
    __lt__ = cmp(lambda a, b: a < b); __le__ = cmp(lambda a, b: a <= b); __gt__ = cmp(lambda a, b: a > b); __ge__ = cmp(lambda a, b: a >= b); __eq__ = cmp(lambda a, b: a == b); __ne__ = cmp(lambda a, b: a != b)
    def __neg__(self): return Num(-self.t)
    def __abs__(self): return self if self >= 0 else -self
    def __pow__(self, n):
        if n == 2: return self * self
        if n == 0.5: return self.sqrt()
        raise Unmodelled('power')
    def conjugate(self): return self
    @property
    def real(self): return self
    def sqrt(self): r = SQRT(self.t); P().add(r >= 0); return Num(r)
    def log(self): return Num(LOG(self.t))
    def __hash__(self): raise Unmodelled('a symbolic number as a key')
    def __float__(self): raise Unmodelled('a symbolic number as a float')
    __int__ = __index__ = __float__
    def __repr__(self): return 'Num(%s)' % self.t
def real(n):
    n = P().name(n)
    if P().model is not None:
        m = P().model[0]; v = m.eval(z3.Real(n), model_completion=True) if m is not None else z3.RealVal(0); v = Fraction(v.numerator_as_long(), v.denominator_as_long()) if z3.is_rational_value(v) else Fraction(v.approx(10).as_fraction()); P().log.append((n, str(v))); return float(v)
    x = z3.Real(n); P().log.append((n, None)); return Num(x)
def apply(f, args):   # an arbitrary function of the model
    t = f(*args)
    if P().model is not None: m = P().model[0]; t = m.eval(t, model_completion=True) if m is not None else z3.RealVal(0); return float(Fraction(t.numerator_as_long(), t.denominator_as_long()))
    return Num(t)
def same(a, b):
    """Are two cells the same value?"""
    if isinstance(a, Num) or isinstance(b, Num):
        x, y = term(a), term(b)
        return False if x is None or y is None else z3.simplify(x == y) if not x.eq(y) else True
    if isinstance(a, float) and a != a: return isinstance(b, float) and b != b
    return isinstance(a, (int, float)) and isinstance(b, (int, float)) and bool(a == b) or type(a) == type(b) and a == b
def near(a, b):
    if isinstance(a, Num) or isinstance(b, Num): return z3.simplify(term(a) == term(b))
    return abs(float(a) - float(b)) <= 1e-6 * (1 + abs(float(b)))
def CHECK_SAME(a, b, msg):
    CHECK(len(a) == len(b), msg + ' (number)')
    for x, y in zip(a, b): CHECK(same(x, y), msg)

# ---- the package, freshly loaded on every path
_code = {}
class Loader(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name != 'gbdt' and not name.startswith('gbdt.'): return None
        p = os.path.join(REPO, *name.split('.')); pkg = os.path.isdir(p); f = os.path.join(p, '__init__.py') if pkg else p + '.py'
        if not os.path.exists(f): return None
        s = importlib.util.spec_from_loader(name, self, origin=f, is_package=pkg)
        if pkg: s.submodule_search_locations = [p]
        return s
    def create_module(self, spec): return None
    def exec_module(self, m):
        f = m.__spec__.origin
        if f not in _code: _code[f] = compile(open(f).read(), f, 'exec')
        exec(_code[f], m.__dict__)
sys.meta_path.insert(0, Loader())
class Stand(types.ModuleType):   # what a stand-in lacks is outside the model
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unmodelled('%s.%s' % (self.__name__, k))
def load(mods):
    for k in [k for k in sys.modules if k == 'gbdt' or k.startswith('gbdt.')]: del sys.modules[k]
    for k in list(mods):
        if mods[k] is None: sys.modules.pop(k, None)
        else: sys.modules[k] = mods[k]
    return importlib.import_module('gbdt')

def run_path(entry, prefix, params, model=None):
    p = Path(prefix, params, model); Path.cur = p; p.end = 'done'; p.v = None
    try: entry()
    except Infeasible: p.end = 'infeasible'
    except Violated as e: p.end = 'violation'; p.v = e; p.where = where(e)
    except Unmodelled as e: p.end = 'unmodelled'; p.why = str(e)
    except RecursionError as e: p.end = 'unmodelled'; p.why = 'recursion'
    except Exception as e: p.end = 'violation'; m = p.final_model(); p.v = Violated('unexpected %s: %s' % (type(e).__name__, e), m); p.where = where(e)
    return p
def where(e):
    fr = [f for f in traceback.extract_tb(e.__traceback__)]; own = [f for f in fr if f.filename.startswith(REPO)]; f = (own or fr)[-1]; return '%s:%d (%s)' % (f.filename, f.lineno, f.name)

def explore(mod, name, params, todo, deadline, stop_at=None):
    """Depth first; with stop_at: until that many prefixes are open, which are returned."""
    entry = getattr(mod, name); st = dict(paths=0, queries=0, solver_s=0., checks=0, unknown=0, unmodelled=0, infeasible=0, reach={}, samples=[], why={}, viol=[], validated=0, bad_replay=0, unconfirmed=[]); seen = set()
    while todo and time.time() < deadline and (stop_at is None or len(todo) < stop_at):
        prefix = todo.pop(0) if stop_at else todo.pop(); p = run_path(entry, prefix, params); todo += p.todo
        st['queries'] += p.queries; st['solver_s'] += p.solver_s; st['checks'] += p.checks; st['unknown'] += p.unknown
        if p.end == 'infeasible': st['infeasible'] += 1; continue
        st['paths'] += 1
        if p.end == 'unmodelled': st['unmodelled'] += 1; st['why'][p.why] = st['why'].get(p.why, 0) + 1; continue
        for r in p.reach: st['reach'][r] = st['reach'].get(r, 0) + 1
        take = p.end == 'violation' and (p.v.msg, p.where) not in seen or p.end == 'done' and st['paths'] % 97 == 1 and st['validated'] < 6
        if not take: continue
        m = p.v.model if p.end == 'violation' else p.final_model(); r = run_path(entry, [], params, (m, dict((k, v) for k, v in p.log if v is not None))); d = dict(entry=name, params=params, inputs=dict((k, str(v)) for k, v in r.log), end=r.end)
        if p.end == 'violation':
            if r.end == 'violation': seen.add((p.v.msg, p.where)); d.update(message=r.v.msg, where=r.where); st['viol'].append(d)
            else: st['unconfirmed'].append(p.v.msg + ' at ' + p.where)
        elif r.end == 'done': st['validated'] += 1; st['samples'].append(d)
        else: st['bad_replay'] += 1; st['why']['replay: ' + (r.v.msg if r.v else getattr(r, 'why', r.end))] = 1
    return st, todo
def merge(a, b):
    for k in ('paths', 'queries', 'solver_s', 'checks', 'unknown', 'unmodelled', 'infeasible', 'validated', 'bad_replay'): a[k] += b[k]
    for k in ('samples', 'viol', 'unconfirmed'): a[k] += b[k]
    for k in ('reach', 'why'):
        for x, y in b[k].items(): a[k][x] = a[k].get(x, 0) + y
def work(a):
    f, name, params, todo, deadline = a; return explore(harness(f), name, params, todo, deadline)
_mods = {}
def harness(f):
    if f not in _mods: s = importlib.util.spec_from_file_location('h_' + os.path.basename(f)[:-3], os.path.join(V, 'harness', f)); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); _mods[f] = m
    return _mods[f]
def stage(f, s, tier, pool):
    t0 = time.time(); params = dict(s.get('params', {}));
    if tier == 'thorough': params.update(s.get('thorough', {}))
    dl = t0 + (s.get('ttime', 8 * s['time']) if tier == 'thorough' else s['time'])
    st, todo = explore(harness(f), s['entry'], params, [[]], dl, 64)
    left = 0
    if todo:
        for r, rest in pool.imap_unordered(work, [(f, s['entry'], params, [t], dl) for t in todo]): merge(st, r); left += len(rest)
    st['pending'] = left; st['complete'] = left == 0; st['params'] = params; st['entry'] = s['entry']; st['wall'] = time.time() - t0; return st
def main(pid, tier):
    sys.path.insert(0, os.path.join(V, 'lib')); import checks; c = checks.CHECKS[pid]; t0 = time.time()
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool: res = [stage(c['python'], s, tier, pool) for s in c['stages'] if tier == 'thorough' or not s.get('thorough_only')]
    rd = os.path.join(V, 'evidence', 'replays'); os.makedirs(rd, exist_ok=True); [os.unlink(os.path.join(rd, f)) for f in os.listdir(rd) if f.startswith(pid + '-')]; out = []; seen = set()
    for r in res:
        for v in r['viol']:
            k = (v['message'], v['where'])
            if k in seen: continue
            seen.add(k); f = os.path.join(rd, '%s-py%d.json' % (pid, len(out))); json.dump(dict(v, property=pid), open(f, 'w'), indent=1); out.append((f, v))
        if r['unmodelled'] or r['bad_replay'] or r['unconfirmed'] or r['unknown']: print('%s %s: unmodelled %d, unknown %d, unconfirmed %s, %s' % (pid, r['entry'], r['unmodelled'], r['unknown'], r['unconfirmed'][:3], r['why']))
    missing = [(r['entry'], x) for r, s in zip(res, [s for s in c['stages'] if tier == 'thorough' or not s.get('thorough_only')]) for x in s.get('reach', []) if x not in r['reach'] and r['complete']]
    for e, x in missing: print('%s %s: the case "%s" was never reached' % (pid, e, x))
    tot = lambda k: sum(r[k] for r in res)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(out), coverage=dict(states=tot('paths'), transitions=tot('queries') + tot('checks'), traces_validated_against_impl=tot('validated'), samples=[x for r in res for x in r['samples'][:2]],
        explanation='states: symbolic path classes of the Python code executed to their end; transitions: checks decided and branch conditions put to Z3; traces: classes re-executed with the concrete values of a model', solver_queries=tot('queries'), solver_s=round(tot('solver_s'), 2), unknown=tot('unknown'), unmodelled=tot('unmodelled'), functions_encoded=[c.get('functions', 'every function of /repo/gbdt/*.py that the entries call')],
        stages=[dict(entry=r['entry'], params=r['params'], paths=r['paths'], complete=r['complete'], pending=r['pending'], reach=r['reach'], wall_s=round(r['wall'], 2)) for r in res]), assumptions=[c.get('assumptions', 'libgbdt, pandas, matplotlib and graphviz are represented by stand-ins with their documented interface; numpy is the installed one')])
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for f, v in out: print('VIOLATION property=%s replay=%s' % (pid, f)); print('  %s at %s' % (v['message'], v['where']))
    print('%s %s: %d paths, %d checks, %d queries (%d unknown), solver %.1f s, %d traces validated, complete=%s, %.1f s' % (pid, tier, tot('paths'), tot('checks'), tot('queries'), tot('unknown'), tot('solver_s'), tot('validated'), [r['complete'] for r in res], time.time() - t0))
    return 1 if out else 0
if __name__ == '__main__':
    sys.modules['pysym'] = sys.modules['__main__']; sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else 'quick'))
