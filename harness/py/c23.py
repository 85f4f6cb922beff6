# The Python package over a stand-in of the compiled module.
import json, os, shutil, sys, tempfile, types
import z3
from pysym import *
NAN = float('nan')
class LibError(Exception): pass

# ---- stand-in of libgbdt (as src/python defines it)
class _Col:
    def __init__(self, store, name, values): self._s = store; self._n = name; self._v = values; self._gone = False
    def _use(self): CHECK(not self._gone, 'a column is not used after it was erased')
    def __len__(self): self._use(); return len(self._v)
    def __getitem__(self, i):
        self._use()
        if not isinstance(i, int): raise TypeError('an index is an integer')
        if i < 0 or i >= len(self._v): raise IndexError('Index out of range.')
        return self._v[i]
    def __str__(self): return self._n
    def __repr__(self): return type(self).__name__ + '([...])'
class StringColumn(_Col): pass
class RawFloatColumn(_Col): pass
class BucketizedFloatColumn(_Col):
    def buckets(self): raise Unmodelled('buckets')
KINDS = {'bucketized_float': BucketizedFloatColumn, 'string': StringColumn, 'raw_float': RawFloatColumn}
def _float(v):
    if isinstance(v, (Num, int, float)) and not isinstance(v, str): return v
    if hasattr(v, 'item') and getattr(v, 'shape', None) == (): return v.item()
    raise TypeError('no number')
def _list(v):
    if isinstance(v, (str, bytes)) or not (hasattr(v, '__len__') and hasattr(v, '__getitem__')) or isinstance(v, dict): raise TypeError('no list')
    return list(v)
class DataStore:
    def __init__(self): self._c = {}
    def _add(self, kind, name, values):
        if not isinstance(name, str): raise TypeError('a name is a string')
        vals = _list(values)
        if kind == 'string':
            if not all(isinstance(v, str) for v in vals): raise TypeError('no strings')
        else: vals = [_float(v) for v in vals]
        if name in self._c: raise LibError('exists')
        for k, c in self._c.values():
            if len(c._v) != len(vals): raise LibError('rows')
        self._c[name] = (kind, KINDS[kind](self, name, vals))
    def add_string_col(self, name, values): self._add('string', name, values)
    def add_raw_float_col(self, name, values): self._add('raw_float', name, values)
    def add_bucketized_float_col(self, name, values): self._add('bucketized_float', name, values)
    def _get(self, kind, name):
        if name not in self._c or self._c[name][0] != kind: raise LibError('not found')
        return self._c[name][1]
    def get_string_col(self, name): return self._get('string', name)
    def get_raw_float_col(self, name): return self._get('raw_float', name)
    def get_bucketized_float_col(self, name): return self._get('bucketized_float', name)
    def get_column_type(self, name):
        if name not in self._c: raise LibError('not found')
        return self._c[name][0]
    def _names(self, kind): return [n for n in self._c if self._c[n][0] == kind]
    def bucketized_float_cols(self): return self._names('bucketized_float')
    def string_cols(self): return self._names('string')
    def raw_float_cols(self): return self._names('raw_float')
    def cols(self): return self.bucketized_float_cols() + self.string_cols() + self.raw_float_cols()
    def erase(self, name):
        if name in self._c: self._c.pop(name)[1]._gone = True
    def clear(self):
        for n in list(self._c): self.erase(n)
    def load_tsv(self, tsvs, bucketized_float_cols=[], raw_float_cols=[], string_cols=[]):
        tsvs = _list(tsvs); new = {}
        for kind, names in (('bucketized_float', bucketized_float_cols), ('raw_float', raw_float_cols), ('string', string_cols)):
            for n in _list(names):
                vals = []
                for t in tsvs:
                    if t not in FILES or n not in FILES[t]: raise LibError('not found')
                    vals += FILES[t][n][1 if kind == 'string' else 0]
                new[n] = (kind, KINDS[kind](self, n, vals))
        if not tsvs: raise LibError('no tsv')
        self._c = new
    def __len__(self): return len(next(iter(self._c.values()))[1]._v) if self._c else 0
    def __contains__(self, name):
        if not isinstance(name, str): raise TypeError('a name is a string')
        return name in self._c
    def __repr__(self): return 'DataStore(%s)' % ', '.join(self._c)
    __str__ = __repr__
FILES = {}
class Forest:
    def __init__(self, text):
        if not isinstance(text, str): raise TypeError('no text')
        json.loads(text); self._t = text
    def as_json(self): return self._t
    def predict(self, d):
        if not isinstance(d, DataStore): raise TypeError('no data store')
        return [score(row(d, i)) for i in range(len(d))]
    def predict_and_output(self, d, points, output_dir):
        if not isinstance(d, DataStore) or not isinstance(output_dir, str): raise TypeError('no data store')
        if not os.path.isdir(output_dir): raise LibError('no directory')
        for p in _list(points):
            if not isinstance(p, int): raise TypeError('no number')
            with open(os.path.join(output_dir, 'forest.%d.score' % p), 'w') as f: f.write('\n'.join(repr(v) for v in points_of(d, p)))
    def feature_importance(self): return list(IMPORTANCE)
def points_of(d, p): return [p * 100 + d._id * 10 + i + .5 for i in range(len(d))]
IMPORTANCE = []
CALLS = []
def lib_train(data_store, y, w=[], config=None, base_forest=None, random_seed=1234567, num_threads=16):
    if not isinstance(data_store, DataStore) or not isinstance(config, str) or not (base_forest is None or isinstance(base_forest, Forest)): raise TypeError('train')
    for x in _list(y) + _list(w): _float(x)
    CALLS.append(dict(d=data_store, y=list(y), w=list(w), config=json.loads(config), base=base_forest, seed=random_seed, threads=num_threads)); return Forest('{"tree": [], "metaInfo": "%d"}' % len(CALLS))

# An arbitrary function of a row: its cells by name.
FEATS = ('f', 'g', 's')
F = z3.Function('F', *([z3.IntSort(), z3.RealSort()] * 3 + [z3.RealSort()]))
CATS = ['a', 'b', 'c', 'd']
def row(d, i): return dict((n, d._c[n][1]._v[i]) for n in d._c)
def score(r):
    args = []
    for n in FEATS:
        v = r.get(n)
        if v is None: args += [z3.IntVal(0), z3.RealVal(0)]
        elif isinstance(v, str): args += [z3.IntVal(3), z3.RealVal(CATS.index(v))]
        elif not isinstance(v, Num) and v != v: args += [z3.IntVal(2), z3.RealVal(0)]
        else: args += [z3.IntVal(1), term(v)]
    return apply(F, args)

def package():
    lib = Stand('libgbdt'); lib.__dict__.update(DataStore=DataStore, Forest=Forest, StringColumn=StringColumn, RawFloatColumn=RawFloatColumn, BucketizedFloatColumn=BucketizedFloatColumn, train=lib_train, init_logging=lambda *a, **k: None)
    m = Stand('gbdt._libgbdt'); m.__dict__.update(libgbdt=lib, init_logging=lib.init_logging, BucketizedFloatColumn=BucketizedFloatColumn, StringColumn=StringColumn, RawFloatColumn=RawFloatColumn)
    six = types.ModuleType('six'); six.text_type = str; six.string_types = (str,); six.PY2 = False; six.PY3 = True; six.iteritems = lambda d: iter(d.items()); six.moves = types.SimpleNamespace(range=range)
    CALLS.clear(); FILES.clear(); del IMPORTANCE[:]
    return load({'gbdt._libgbdt': m, 'six': six})
def raises(f):
    try: f()
    except Exception as e: return e
    return None
def eq_store(d, want, msg):
    """d: a wrapped store, want: name -> (kind, values)"""
    s = d._data_store; CHECK(isinstance(s, DataStore), msg + ': a data store'); CHECK(set(s._c) == set(want), msg + ': the columns')
    for n in want: CHECK(s._c[n][0] == want[n][0], msg + ': a column has its kind'); CHECK_SAME(s._c[n][1]._v, want[n][1], msg + ': its rows')
def some_store(g, rows, names=('f', 'g', 's', 'r')):
    """A store with any subset of the columns and its content."""
    want = {}
    for n in names:
        if not CH('has ' + n, 0, 1): continue
        if n == 's': want[n] = ('string', ['t%d' % i for i in range(rows)])
        else: want[n] = ('raw_float' if n == 'r' else 'bucketized_float', [NAN if i == 1 and n == 'g' else real('%s%d' % (n, i)) for i in range(rows)])
    s = DataStore()
    for n, (k, v) in want.items(): s._add(k, n, v)
    return g.DataStore(s), want

def c23_rows():   # rows and ranges
    g = package(); n = CH('rows', 0, PARAM('rows', 3)); d, want = some_store(g, n); op = CH('op', 0, 5)
    if op == 0: a = CH('a', 0, n + 1); b = CH('b', 0, n + 1); idx = list(range(a, b)); f = lambda: d[(a, b)]
    elif op == 1: i = CH('i', 0, n); idx = [i]; f = lambda: d[i]
    elif op in (2, 3): k = CH('k', 0, PARAM('picked', 3)); idx = [CH('x', 0, n) for _ in range(k)]; f = (lambda: d[list(idx)]) if op == 2 else (lambda: d.slice(list(idx)))
    elif op == 4: idx = list(range(n)); f = d.copy
    else: idx = [i for i in range(n - 1, -1, -1)]; f = lambda: d.slice(range(n - 1, -1, -1))
    out = any(i >= n for i in idx) and want; cut = dict((c, (k, [v[i] for i in idx if i < n])) for c, (k, v) in want.items()); r = []
    e = raises(lambda: r.append(f())); CHECK((e is not None) == bool(out), 'a row outside is an error, others are not')
    if out: CHECK(isinstance(e, IndexError), 'a row outside is an index error'); eq_store(d, want, 'a refused slice'); REACH('outside'); return
    eq_store(r[0], cut, 'a slice'); eq_store(d, want, 'the sliced store'); CHECK(len(r[0]) == (len(idx) if want else 0), 'rows of a slice')
    x = [1.5] * len(idx); r[0].add_raw_float_col('new', x); CHECK('new' not in d and 'new' in r[0], 'a slice is a store of its own')
    if want: c = sorted(want)[0]; r[0].erase(c); eq_store(d, want, 'the sliced store')
    REACH('slice' if op < 4 else 'copy')

def c23_store():   # names and columns
    g = package(); n = CH('rows', 0, 2); d, want = some_store(g, n); names = ['f', 'g', 's', 'r', 'new']
    for step in range(PARAM('steps', 2)):
        op = CH('op', 0, 5 if step + 1 < PARAM('steps', 2) else 3)
        if op == 0:
            for c in names:
                CHECK((c in d) == (c in want), 'a column is in the store exactly when it was added')
                if c in want: v = d[c]; CHECK(type(v) is KINDS[want[c][0]], 'a column is given under its kind'); CHECK_SAME(list(v), want[c][1], 'with its rows')
                else: CHECK(isinstance(raises(lambda: d[c]), ValueError), 'an unknown column is a value error')
        elif op == 1:
            for f, k in ((d.cols, None), (d.keys, None), (d.bucketized_float_cols, 'bucketized_float'), (d.raw_float_cols, 'raw_float'), (d.string_cols, 'string')): CHECK(sorted(f()) == sorted(c for c in want if k in (None, want[c][0])), 'the names of the columns')
            CHECK(len(d) == (n if want else 0), 'rows')
        elif op == 2:
            got = list(d.items()); CHECK(sorted(k for k, _ in got) == sorted(want), 'items has every column once')
            for k, v in got: CHECK(type(v) is KINDS[want[k][0]], 'items gives each column under its kind'); CHECK_SAME(list(v), want[k][1], 'with its rows')
        elif op == 3: eq_store(d, want, 'the store')
        elif op == 4: c = names[CH('name', 0, 4)]; d.erase(c); want.pop(c, None)
        else:
            c = names[CH('name', 0, 4)]; k = CH('kind', 0, 2); m = n + (CH('more', 0, 1) if want else 0); v = ['z%d' % i for i in range(m)] if k == 0 else [real('v') for i in range(m)]; ok = c not in want and (not want or m == n)
            e = raises(lambda: (d.add_string_col, d.add_raw_float_col, d.add_bucketized_float_col)[k](c, v)); CHECK((e is None) == ok, 'a new column is added, a known name or another number of rows is an error')
            if ok: want[c] = (('string', 'raw_float', 'bucketized_float')[k], v)
        eq_store(d, want, 'the store'); REACH(('lookup', 'names', 'items', 'same', 'erase', 'add')[op])

class Frame:   # of pandas
    def __init__(self, cols): self._c = cols   # name -> (numeric, values)
    def keys(self): return list(self._c)
    columns = property(keys)
    def __iter__(self): return iter(self._c)
    def __contains__(self, n): return n in self._c
    def __len__(self): return len(next(iter(self._c.values()))[1]) if self._c else 0
    def __getitem__(self, n): return list(self._c[n][1])
    def items(self): return [(n, list(v)) for n, (_, v) in self._c.items()]
    def select_dtypes(self, include=None, exclude=None):
        import numpy
        for x in (include, exclude):
            if x not in (None, [numpy.number], (numpy.number,), numpy.number, ['number'], 'number'): raise Unmodelled('select_dtypes')
        return Frame(dict((n, c) for n, c in self._c.items() if (include is None or c[0]) and (exclude is None or not c[0])))
def c23_load():   # dictionaries, files, data frames
    g = package(); how = CH('how', 0, 2); n = CH('rows', 0, 2)
    for again in range(2):
        b = dict((c, [real(c) for _ in range(n)]) for c in ('x', 'y') if not again and CH('has ' + c, 0, 1)); r = dict((c, [real(c) for _ in range(n)]) for c in ('u',) if not again and CH('has ' + c, 0, 1)); s = dict((c, ['%s%d' % (c, i) for i in range(n)]) for c in ('p', 'q') if not again and CH('has ' + c, 0, 1))
        want = dict([(c, ('bucketized_float', v)) for c, v in b.items()] + [(c, ('raw_float', v)) for c, v in r.items()] + [(c, ('string', v)) for c, v in s.items()])
        if how == 0:
            kw = {};
            if b or CH('give', 0, 1): kw['bucketized_float_cols'] = b
            if r: kw['raw_float_cols'] = r
            if s: kw['string_cols'] = s
            eq_store(g.DataLoader.from_dict(**kw), want, 'a store of lists'); REACH('dict')
        elif how == 1:
            cut = CH('cut', 0, n); allc = dict(list(b.items()) + list(r.items())); t = ['1.tsv', '2.tsv'][:1 + CH('two', 0, 1)]; last = len(t) == 1
            for w, name in enumerate(t): lo, hi = (0, n) if last else (0, cut) if w == 0 else (cut, n); FILES[name] = dict((c, (allc.get(c, [0.] * n)[lo:hi], s.get(c, ['?'] * n)[lo:hi])) for c in 'xyupq')
            kw = {}
            if b: kw['bucketized_float_cols'] = list(b)
            if r: kw['raw_float_cols'] = list(r)
            if s: kw['string_cols'] = list(s)
            miss = CH('missing', 0, 1)
            if miss: kw.setdefault('string_cols', []).append('absent'); CHECK(raises(lambda: g.DataLoader.from_tsvs(t, **kw)) is not None, 'a missing column is an error'); REACH('missing'); continue
            eq_store(g.DataLoader.from_tsvs(t, **kw) if CH('named', 0, 1) == 0 else g.DataLoader.from_tsvs(tsvs=t, **kw), want, 'a store of files'); REACH('files')
        else:
            pd = Stand('pandas'); pd.DataFrame = Frame; sys.modules['pandas'] = pd; cols = {}; want = {}; over = {}
            for c in ('x', 'y', 'p')[:PARAM('columns', 2)]:
                if again or not CH('has ' + c, 0, 1): continue
                numeric = CH('numeric', 0, 1); vals = [i + (.5 if c == 'y' else .25) for i in range(n)] if numeric else ['%s%d' % (c, i) for i in range(n)]; o = CH('override', 0, 4) if numeric else CH('override', 0, 1); cols[c] = (numeric, vals)
                if o: over[c] = (None, 'string', 'bucketized_float', 'float', 'raw_float')[o]
                k = 'string' if o == 1 or not numeric else 'raw_float' if o >= 3 else 'bucketized_float'; want[c] = (k, [str(v) for v in vals] if k == 'string' else vals)
            df = Frame(cols); eq_store(g.DataLoader.from_df(df, over) if over or CH('give', 0, 1) else g.DataLoader.from_df(df), want, 'a store of a data frame'); REACH('frame')

def c23_frame():   # and back
    g = package(); d, want = some_store(g, CH('rows', 0, 2)); pd = Stand('pandas'); pd.DataFrame = lambda x: dict(x); sys.modules['pandas'] = pd; r = d.to_df(); CHECK(set(r) == set(want), 'a data frame has every column')
    for c in want: CHECK_SAME(list(r[c]), want[c][1], 'with its rows')
    REACH('frame')

def c23_train():
    g = package(); twice = PARAM('twice', 0); d, want = some_store(g, 2); config = None; CHX = (lambda n, a, b: a) if twice == 1 else CH
    for again in range(2 if twice else 1):
        feats = [c for c in ('f', 'g', 's') if CH('use ' + c, 0, 1)]; extra = CHX('extra', 0, 3); feats += [[], ['absent'], ['r'], feats[:1]][extra]; same_config = again and CH('same configuration', 0, 1)
        if not same_config:
            orig = {'loss_func': 'mse', 'num_trees': 7}; es = CHX('rates', 0, 2)
            if es: orig['example_sampling_rate'] = .5
            if es == 2: orig['feature_sampling_rate'] = .25
            config = dict(orig)
        kw = {}; give = CHX('give', 0, 2); y = [real('y') for _ in range(2)]; w = [real('w') for _ in range(2)]
        if give: kw['y'] = y
        if give == 2: kw['w'] = w
        base = g.Forest('{"tree": []}') if CHX('base', 0, 1) else None
        if base: kw['base_forest'] = base
        if CHX('seed', 0, 1): kw['random_seed'] = 7; kw['num_threads'] = 3
        bad = [c for c in feats if c not in want or want[c][0] == 'raw_float']; n = len(CALLS); r = []
        e = raises(lambda: r.append(g.train(d, config, features=list(feats), **kw)))
        if bad: CHECK(isinstance(e, ValueError) and len(CALLS) == n, 'an unknown feature is a value error'); REACH('unknown')
        else:
            CHECK(e is None and len(CALLS) == n + 1 and isinstance(r[0], g.Forest) and isinstance(r[0]._forest, Forest), 'training gives a forest'); c = CALLS[-1]; x = c['config']
            CHECK(c['d'] is d._data_store, 'on the given data'); CHECK(sorted(x.pop('float_feature', [])) == sorted(set(q for q in feats if q != 's')) and sorted(x.pop('categorical_feature', [])) == sorted(set(q for q in feats if q == 's')), 'with the given features under their kinds')
            for k, v in (('example_sampling_rate', 1), ('feature_sampling_rate', 1)): CHECK(x.pop(k, None) == orig.get(k, v), 'with the given rates, or all')
            CHECK(x == dict((k, v) for k, v in orig.items() if not k.endswith('_rate')), 'and the given configuration'); CHECK_SAME(c['y'], y if give else [], 'targets'); CHECK_SAME(c['w'], w if give == 2 else [], 'weights'); CHECK(c['base'] is (base._forest if base else None), 'base forest')
            CHECK(c['seed'] == kw.get('random_seed', 1234567) and c['threads'] == kw.get('num_threads', 16), 'seed and threads'); CHECK(json.loads(str(r[0]))['metaInfo'] == str(len(CALLS)), 'the forest is that of the library'); REACH('trained')
        eq_store(d, want, 'the data')

def c23_forest():
    g = package(); how = CH('how', 0, 3); text = '{"tree": [{"score": 1.5}], "metaInfo": ""}'
    if how == 3: CHECK(isinstance(raises(lambda: g.Forest([None, 3, {}, []][CH('what', 0, 3)])), TypeError), 'what is no forest is a type error'); REACH('type'); return
    if how == 2: CHECK(raises(lambda: g.Forest('no json')) is not None, 'a text that is no forest is an error'); return
    f = g.Forest(Forest(text)) if how else g.Forest(text); CHECK(str(f) == text, 'the text of the forest')
    k = CH('features', 0, 3); IMPORTANCE[:] = [('abc'[i], 1. / (i + 1)) for i in range(k)]; CHECK(list(f.feature_importance()) == IMPORTANCE and list(f.features()) == [a for a, _ in IMPORTANCE], 'features and importance of the forest')
    n = CH('rows', 0, 2); d, want = some_store(g, n, ('f', 'g')); CHECK_SAME(f.predict(d), [score(dict((c, v[i]) for c, (_, v) in want.items())) for i in range(n if want else 0)], 'a prediction is that of the library'); eq_store(d, want, 'the data'); REACH('forest')

def c23_points():   # scores at checkpoints, two computations in any interleaving
    g = package(); tmp = tempfile.mkdtemp(); old = tempfile.tempdir; tempfile.tempdir = tmp
    try:
        its = []
        for w in range(2):
            s = DataStore(); s._id = w; n = CH('rows', 0, 2) if w == 0 else 1; s.add_raw_float_col('r', [.5] * n); k = CH('points', w, 2); pts = [CH('point', 1, 3 - w) for _ in range(k)]; f = g.Forest('{"tree": []}'); want = [(p, points_of(s, p)) for p in pts]; its.append([iter(f.predict_at_checkpoints(g.DataStore(s), pts)), want, 0, s])
            if not PARAM('two', 1): break
        end = object()
        while its:
            w = CH('next', 0, len(its) - 1); it, want, i, s = its[w]; v = next(it, end)
            if v is end: CHECK(i == len(want), 'every checkpoint is given'); its.pop(w); continue
            CHECK(i < len(want) and v[0] == want[i][0], 'the checkpoints in order'); CHECK(list(v[1]) == want[i][1], 'with the scores of that many trees of its own data'); its[w][2] += 1
        REACH('points')
    finally: tempfile.tempdir = old; shutil.rmtree(tmp)

class Plot:   # of matplotlib
    def __init__(self): self.calls = []
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        def f(*a, **kw): self.calls.append((k, a, kw)); return (self, self) if k == 'subplots' else self
        return f
    def get(self, k): return [(a, kw) for n, a, kw in self.calls if n == k]
def plotter():
    p = Plot(); m = types.ModuleType('matplotlib'); m.pyplot = p; sys.modules['matplotlib'] = m; sys.modules['matplotlib.pyplot'] = p; return p
def mean(v): t = v[0]; t = sum(v[1:], t); return t / len(v)
def c23_plot():   # partial dependency of any function
    g = package(); p = plotter(); n = CH('rows', 1, PARAM('rows', 2)); kind = CH('kind', 0, 3); d, want = DataStore(), {}
    want['f'] = ('bucketized_float', [real('f') for _ in range(n)]); want['g'] = ('bucketized_float', [NAN if i else real('g') for i in range(n)]); want['s'] = ('string', [CATS[i] for i in range(n)]); want['r'] = ('raw_float', [real('r') for _ in range(n)])
    for c, (k, v) in want.items(): d._add(k, c, v)
    d = g.DataStore(d); f = g.Forest('{"tree": []}'); rows = [dict((c, v[i]) for c, (_, v) in want.items()) for i in range(n)]
    if kind >= 2: CHECK(isinstance(raises(lambda: g.plot_partial_dependency(f, d, 'absent' if kind == 2 else 'r', [1.])), ValueError), 'a column that is absent or no feature is a value error'); eq_store(d, want, 'the data'); REACH('refused'); return
    kw = {}; base = CH('base', 0, 1)
    if kind == 0:
        k = CH('values', 1, PARAM('values', 2)); xs = [real('x') for _ in range(k)]; x0 = NAN
        if base: x0 = kw['x0'] = real('x0')
        if CH('log', 0, 1):
            kw['log_scale'] = True
            for x in xs: ASSUME(x > 0)
        given = list(xs); g.plot_partial_dependency(f, d, 'f', given, **kw); plots = p.get('plot'); CHECK(len(plots) >= 1 and len(p.get('fill_between')) == 1, 'a curve and its band are drawn'); X, Y = plots[0][0][:2]; bx, lo, hi = p.get('fill_between')[0][0][:3]
        order = list(xs); import functools
        order.sort(key=functools.cmp_to_key(lambda a, b: -1 if a < b else 1 if a > b else 0)); import numpy as np
        CHECK(len(X) == k and len(Y) == k and len(bx) == k and len(lo) == k and len(hi) == k, 'one point per value')
        for i, x in enumerate(order):
            CHECK(near(X[i], np.log([x])[0] if 'log_scale' in kw else x), 'the values in ascending order'); m = mean([score(dict(r, f=x)) - score(dict(r, f=x0)) for r in rows]); CHECK(near(Y[i], m), 'the mean change of the score when the feature has the value'); CHECK(near(bx[i], X[i]), 'the band is at the values'); CHECK(near(hi[i] - Y[i], Y[i] - lo[i]), 'the band is around the mean')
            if isinstance(lo[i], Num): CHECK((lo[i] <= Y[i]), 'the band is around the mean')
        REACH('float')
    else:
        k = CH('values', 1, PARAM('cats', 3)); xs = CATS[:k] if not CH('rev', 0, 1) else CATS[:k][::-1]; x0 = xs[0]
        if base: x0 = kw['x0'] = 'd'
        g.plot_partial_dependency(f, d, 's', list(xs), **kw); b = p.get('bar'); t = p.get('set_xticklabels'); CHECK(len(b) == 1 and len(t) == 1, 'bars are drawn and labelled'); h = b[0][0][1]; lab = list(t[0][0][0]); CHECK(sorted(lab) == sorted(xs) and len(h) == k, 'one bar per value')
        for i in range(k):
            m = mean([score(dict(r, s=lab[i])) - score(dict(r, s=x0)) for r in rows]); CHECK(near(h[i], m), 'a bar is the mean change of the score when the feature has the value of its label')
            if i: CHECK(h[i - 1] <= h[i], 'the bars are in ascending order')
        REACH('category')
    eq_store(d, want, 'the data')

def c23_bars():   # importance
    g = package(); p = plotter(); k = CH('features', 0, 3); IMPORTANCE[:] = [('abc'[i], real('importance')) for i in range(k)]; g.Forest('{"tree": []}').feature_importance_bar_chart(); b = p.get('barh'); CHECK(len(b) == 1, 'bars are drawn'); pos, h = b[0][0][:2]; t = list(p.get('set_yticks')[0][0][0]); lab = list(p.get('set_yticklabels')[0][0][0])
    CHECK(len(h) == k and len(lab) == k, 'one bar per feature')
    for i in range(k): j = lab.index('abc'[i]); at = t[j]; q = [m for m in range(k) if pos[m] == at]; CHECK(len(q) == 1, 'one place per bar'); CHECK(same(h[q[0]], IMPORTANCE[i][1]), 'a bar is the importance of its feature')
    REACH('bars')

def c23_draw():   # the picture of a tree
    g = package(); draws = []; count = [0]
    class Digraph:
        def __init__(self, *a, **k): self.nodes = {}; self.edges = []; draws.append(self)
        def node(self, name, label=None, **k): CHECK(name not in self.nodes, 'a node has a name of its own'); self.nodes[name] = label
        def edge(self, a, b, **k): self.edges.append((a, b))
        def attr(self, *a, **k): pass
    gv = Stand('graphviz'); gv.Digraph = Digraph; sys.modules['graphviz'] = gv
    def tree(depth):
        count[0] += 1; n = {'score': count[0] + .125}; kind = CH('node', 0, 3) if depth else 0
        if kind:
            sp = n['split'] = {'feature': 'feature %d' % count[0], 'gain': 1.}
            if kind == 3: sp['catSplit'] = {'category': ['cat a', 'cat b', 'cat c'][:CH('categories', 1, 3)], 'internalCategoricalIndex': []}
            else: sp['floatSplit'] = {'threshold': count[0] / 4., 'missingToRightChild': kind == 2}
            n['leftChild'] = tree(depth - 1); n['rightChild'] = tree(depth - 1)
        return n
    k = CH('trees', 0, 2); forest = {'tree': [tree(0 if i else PARAM('depth', 2)) for i in range(k)], 'metaInfo': ''}; form = CH('form', 0, 1); v = g.ForestVisualizer(forest if form else g.Forest(json.dumps(forest))); CHECK(v.num_trees() == k, 'the number of trees')
    for i in range(k):
        r = v.visualize_tree(i); CHECK(r is draws[-1] and len(draws) == i + 1, 'the picture is given'); out = {}
        for a, b in r.edges: out.setdefault(a, []).append(b)
        used = set(); heads = set(b for _, b in r.edges); roots = [x for x in r.nodes if x not in heads]; CHECK(len(roots) == 1 and len(r.edges) == len(r.nodes) - 1, 'the picture is a tree')
        def walk(name, node):
            used.add(name); label = r.nodes[name]; ch = out.get(name, []); CHECK('%.6f' % node['score'] in label, 'a node shows its score')
            if 'split' not in node: CHECK(not ch, 'a leaf has no children'); return
            sp = node['split']; CHECK(sp['feature'] in label, 'an inner node shows its feature')
            if 'floatSplit' in sp: CHECK('%.3f' % sp['floatSplit']['threshold'] in label, 'and its threshold'); marks.setdefault(sp['floatSplit']['missingToRightChild'], set()).add(label.split(sp['feature'])[1].split('%.3f' % sp['floatSplit']['threshold'])[0].strip())
            else: CHECK(all((c in label) == (c in sp['catSplit']['category']) for c in ('cat a', 'cat b', 'cat c')), 'and its categories')
            CHECK(len(ch) == 2, 'an inner node has two children'); walk(ch[0], node['leftChild']); walk(ch[1], node['rightChild'])
        marks = {}; walk(roots[0], forest['tree'][i]); CHECK(used == set(r.nodes), 'no other nodes'); CHECK(not (marks.get(True, set()) & marks.get(False, set())), 'the picture tells where missing values go')
    REACH('drawn' if k else 'empty')
