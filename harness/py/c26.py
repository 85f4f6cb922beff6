# The scripts over a file system of their own.
import collections, csv, functools, glob, importlib, io, itertools, json, math, operator, optparse, os, re, shlex, sys
import z3
from pysym import *
import py2
NUM = re.compile('\x01([0-9]+)\x02')
class Fs:   # files and directories in memory
    def __init__(self): self.f = {}; self.d = {'.'}
    def n(self, p): return os.path.normpath(str(p))
    def put(self, p, text):
        p = self.n(p); self.f[p] = text; q = os.path.dirname(p)
        while q: self.d.add(q); q = os.path.dirname(q)
    def exists(self, p): return self.n(p) in self.f or self.n(p) in self.d
    def list(self, p):
        p = self.n(p)
        if p not in self.d: raise OSError(2, 'no such directory')
        return sorted(set(os.path.basename(x) for x in list(self.f) + list(self.d) if x != p and (os.path.dirname(x) or '.') == p))
    def mkdir(self, p, *a):
        p = self.n(p)
        if self.exists(p): raise OSError(17, 'exists')
        if (os.path.dirname(p) or '.') not in self.d: raise OSError(2, 'no parent')
        self.d.add(p)
    def makedirs(self, p, mode=0, exist_ok=False):
        p = self.n(p)
        if self.exists(p):
            if exist_ok: return
            raise OSError(17, 'exists')
        if os.path.dirname(p) and not self.exists(os.path.dirname(p)): self.makedirs(os.path.dirname(p))
        self.mkdir(p)
    def rmtree(self, p, ignore_errors=False):
        p = self.n(p)
        if p not in self.d:
            if ignore_errors: return
            raise OSError(2, 'no such directory')
        self.f = {k: v for k, v in self.f.items() if not k.startswith(p + '/')}; self.d = {k for k in self.d if k != p and not k.startswith(p + '/')}
class File:
    def __init__(self, fs, path, mode='r', *a, **k):
        self.fs = fs; self.p = fs.n(path); self.w = mode[0] in 'wa'; self.lines = None
        if mode[0] not in 'rwa' or '+' in mode: raise Unmodelled('open mode ' + mode)
        if not self.w:
            if self.p not in fs.f: raise IOError(2, 'no such file: ' + self.p)
            self.lines = iter(fs.f[self.p].splitlines(True))
        else:
            if (os.path.dirname(self.p) or '.') not in fs.d: raise IOError(2, 'no such directory: ' + self.p)
            fs.f[self.p] = fs.f.get(self.p, '') if mode[0] == 'a' else ''
    def __iter__(self): return self
    def __next__(self): return next(self.lines)
    def readlines(self): return list(self.lines)
    def readline(self): return next(self.lines, '')
    def xreadlines(self): return self
    def next(self): return next(self.lines)
    def read(self): return ''.join(self.lines)
    def write(self, s): self.fs.f[self.p] += s
    def writelines(self, l): [self.write(s) for s in l]
    def close(self): pass
    flush = close
    def __enter__(self): return self
    def __exit__(self, *a): return False
class Out:
    def __init__(self): self.t = ''
    def write(self, s): self.t += s
    def flush(self): pass
def toks(): 
    p = P()
    if not hasattr(p, 'toks'): p.toks = []
    return p.toks
def text(v):   # a number as it is printed
    if isinstance(v, Num): t = toks(); t.append(v); return '\x01%d\x02' % (len(t) - 1)
    return str(v)
Num.__str__ = text; Num.__format__ = lambda v, spec: text(v)
def number(x=0.):   # and read
    if isinstance(x, str):
        m = NUM.fullmatch(x.strip())
        if m: return toks()[int(m.group(1))]
    return x if isinstance(x, Num) else float(x)
def mod(a, b):
    if not isinstance(a, str): return a % b
    args = b if isinstance(b, tuple) else (b,)
    if not any(isinstance(x, Num) for x in args): return a % b
    it = iter(args)
    def one(m):
        if m.group(0) == '%%': return '%'
        x = next(it); return text(x) if isinstance(x, Num) else m.group(0) % x
    return re.sub(r'%%|%[-+ 0#]*[0-9]*(\.[0-9]+)?[a-zA-Z]', one, a)
class Mod(Stand):
    def __init__(self, name, **k): Stand.__init__(self, name); self.__dict__.update(k)
def script(name): return os.path.join(REPO, 'scripts', name)
_code = {}
def run(name, fs, argv, stdin='', call=None, hashed=None):
    """Runs a script; its output and whether it ended well."""
    path = script(name)
    if path not in _code:
        try: _code[path] = py2.code(path)
        except SyntaxError as e: _code[path] = e
    if isinstance(_code[path], SyntaxError): raise Unmodelled('the script cannot be parsed: %s' % _code[path])
    code, two = _code[path]; out = Out(); err = Out()
    def call_(cmd, shell=False, **k): return call(shlex.split(cmd) if isinstance(cmd, str) else list(cmd)) if call else 0
    ospath = Mod('os.path', exists=fs.exists, isdir=lambda p: fs.n(p) in fs.d, isfile=lambda p: fs.n(p) in fs.f, **{k: getattr(os.path, k) for k in ('join', 'dirname', 'basename', 'normpath', 'splitext', 'split', 'sep')})
    smath = Mod('math', **{k: getattr(math, k) for k in ('pi', 'e', 'exp', 'floor', 'ceil', 'pow', 'fabs', 'isnan', 'log', 'log10')}); smath.sqrt = lambda x: x.sqrt() if isinstance(x, Num) else math.sqrt(x)
    si = io.StringIO(stdin)
    mods = dict(os=Mod('os', path=ospath, mkdir=fs.mkdir, makedirs=fs.makedirs, listdir=fs.list, environ={}, sep='/', linesep='\n', system=lambda c: call_(c)), shutil=Mod('shutil', rmtree=fs.rmtree, **{k: functools.partial(Unmodelled_, 'shutil.' + k) for k in ('copytree', 'copy', 'copyfile', 'move')}), subprocess=Mod('subprocess', check_call=call_, call=call_, check_output=lambda *a, **k: call_(*a, **k) and '' or ''), sys=Mod('sys', argv=[path] + argv, stdin=si, stdout=out, stderr=err, exit=sys.exit, version_info=(2, 7) if two else (3, 9), maxint=2 ** 63 - 1), math=smath, json=json, csv=csv, re=re, collections=collections, operator=operator, itertools=itertools, functools=functools, optparse=optparse, shlex=shlex, **{k: importlib.import_module(k) for k in ('argparse', 'copy', 'string', 'textwrap', 'heapq', 'bisect', 'errno', 'contextlib', 'pprint', 'numbers', 'types')})
    mods['os.path'] = ospath; ns = py2.names(two, path)
    def imp(n, g=None, l=None, fromlist=(), level=0):
        if n == '__future__': return __import__(n, g, l, fromlist, level)
        if n not in mods: raise Unmodelled('import ' + n)
        return mods[n] if fromlist or '.' not in n else mods[n.split('.')[0]]
    def print2(f, nl, args): (out if f is None else f).write(' '.join(text(a) for a in (args if isinstance(args, tuple) else (args,))) + ('\n' if nl else ' '))
    def print3(*a, **k): (k.get('file') or out).write((k.get('sep') or ' ').join(text(x) for x in a) + k.get('end', '\n'))
    ns.update(int=Int, long=Int, __import__=imp, open=functools.partial(File, fs), file=functools.partial(File, fs), float=number, __mod__=mod, __print__=print2, print=print3, hash=hashed or (lambda x: Unmodelled_('hash')))
    def ev(s, g=None, l=None):
        f = sys._getframe(1); return eval(s, f.f_globals if g is None else g, f.f_locals if l is None else l)
    ns['eval'] = ev; ok = True; se, so, sa = sys.stderr, sys.stdout, sys.argv
    try: sys.argv = [path] + argv; sys.stderr = sys.stdout = io.StringIO(); exec(code, {'__name__': '__main__', '__builtins__': ns, '__file__': path})
    except SystemExit as e: ok = e.code in (None, 0)
    except (Exception, GeneratorExit) as e:
        if type(e) in (NameError, ImportError, ModuleNotFoundError) or isinstance(e, AttributeError) and re.match(r"module '|'(File|Out|Fs|Mod)' object|type object '", str(e)): raise Unmodelled('%s: %s' % (type(e).__name__, e))
        ok = False; run.error = e
    finally: sys.stderr, sys.stdout, sys.argv = se, so, sa
    return out.t, ok
def Unmodelled_(w, *a, **k): raise Unmodelled(w)
def well(ok, msg):
    if not ok: e = getattr(run, 'error', None); raise Violated('%s (%s: %s)' % (msg, type(e).__name__, e), P().final_model())
class IntType(type):
    def __instancecheck__(c, x): return isinstance(x, int)
    def __call__(c, x=0, *a):
        if not isinstance(x, Num): return int(x, *a)
        if x < 0: return -c(-x)
        return Num(z3.ToReal(z3.ToInt(term(x))))
Int = IntType('int', (), {})
def close(a, b, eps=2e-4):
    if isinstance(a, Num) or isinstance(b, Num): return Bool((term(a) - term(b) <= z3.RealVal('1/5000')) if False else z3.And(term(a) - term(b) <= z3.Q(1, 5000), term(b) - term(a) <= z3.Q(1, 5000)))
    return abs(a - b) <= eps
run.error = None
def c26_convert():   # a TSV becomes one flat file per column
    n = CH('rows', 0, PARAM('rows', 2)); cols = ['a', 'b c', 'd/e'][:CH('columns', 1, 3)]; sep = ',' if CH('delimiter', 0, 1) else '\t'; kinds = [CH('kind', 0, 2) for _ in cols]; fs = Fs(); cell = 0
    cells = [['v%d.%d' % (i, j) if CH('cell', 0, 1) else '' for j in range(len(cols))] for i in range(n)]
    if len(cols) == 1 and any(r == [''] for r in cells): raise Infeasible()   # an empty line is no row
    conf = {}
    if sep == ',': conf['delimiter'] = ','
    if 1 in kinds or CH('listed', 0, 1): conf['raw_float_columns'] = [c for c, k in zip(cols, kinds) if k == 1]
    if 2 in kinds: conf['string_columns'] = [c for c, k in zip(cols, kinds) if k == 2]
    fs.put('conf', json.dumps(conf)); there = CH('there', 0, 1)
    if there: fs.makedirs('out')
    end = '\n' if CH('end', 0, 1) else ''
    _, ok = run('convert_tsv_to_filatfiles.py', fs, ['conf', 'out'], '\n'.join(sep.join(r) for r in [cols] + cells) + end); well(ok, 'the conversion succeeds')
    CHECK(fs.list('out') == sorted(c.replace(' ', '_').replace('/', '_') for c in cols), 'there is a flat file for every column')
    for j, c in enumerate(cols):
        t = fs.f['out/' + c.replace(' ', '_').replace('/', '_')].split('\n'); CHECK(t[-1] == '', 'a flat file ends with a line end'); CHECK(t[0] == '# dtype=' + ['bucketized_floats', 'raw_floats', 'strings'][kinds[j]], 'a flat file names the type of its column, one that the data store knows'); CHECK([x for x in t[1:-1] if not x.startswith('#')] == [r[j] for r in cells], 'a flat file holds the cells of its column in order')
    REACH('converted')
def c26_wide():   # many columns, odd names, cells with blanks
    cols = ['column %02d' % i for i in range(12)] + ['a/b/c', 'two  blanks', ' x', 'Y', 'y', 'dtype=#', '1.5']; n = 12; fs = Fs(); k = CH('special', 0, len(cols) - 1); kind = CH('kind', 0, 2); odd = CH('row', 0, 1) * (n - 1); value = ['', ' v', 'v ', '#v', '-1e3'][CH('value', 0, 4)]
    cells = [[value if (i, j) == (odd, k) else 'v%d.%d' % (i, j) for j in range(len(cols))] for i in range(n)]; conf = {'raw_float_columns': [cols[0]], 'string_columns': [cols[1], cols[13]]}
    if kind: q = conf[['raw_float_columns', 'string_columns'][kind - 1]]; q += [cols[k]] * (cols[k] not in q)
    if cols[k] in conf['raw_float_columns'] and cols[k] in conf['string_columns']: raise Infeasible()
    fs.put('conf', json.dumps(conf)); _, ok = run('convert_tsv_to_filatfiles.py', fs, ['conf', 'out'], '\n'.join('\t'.join(r) for r in [cols] + cells) + '\n'); well(ok, 'the conversion succeeds'); CHECK(fs.list('out') == sorted(c.replace(' ', '_').replace('/', '_') for c in cols), 'there is a flat file for every column')
    for j, c in enumerate(cols):
        t = fs.f['out/' + c.replace(' ', '_').replace('/', '_')].split('\n'); CHECK(t[0] == '# dtype=' + ('raw_floats' if c in conf['raw_float_columns'] else 'strings' if c in conf['string_columns'] else 'bucketized_floats'), 'a flat file names the type of its column'); CHECK(t[1:] == [r[j] for r in cells] + [''], 'a flat file holds the cells of its column in order')
    REACH('wide')
def c26_rmse():   # the root mean square of the differences
    n = CH('n', 1, PARAM('n', 3)); m = n + CH('more', -1, 1); fs = Fs(); s = [real('score') for _ in range(n)]; r = [real('target') for _ in range(m)]; head = ['', '# dtype=raw_floats\n', '#dtype=raw_floats\n#2\n'][CH('head', 0, 2)]; nl = '\n' if CH('end', 0, 1) else ''
    fs.put('scores', '\n'.join(text(x) for x in s) + nl); fs.put('targets', head + '\n'.join(text(x) for x in r) + nl); t, ok = run('compute_rmse.py', fs, ['scores', 'targets'])
    if n != m: CHECK(not ok, 'files of different lengths are refused'); REACH('refused'); return
    well(ok, 'the error is computed'); v = number(t.strip()); e = sum((a - b) * (a - b) for a, b in zip(s, r)) / n; CHECK(near(v, e.sqrt() if isinstance(e, Num) else math.sqrt(e)), 'the error is the root of the mean square'); REACH('rmse')
def c26_metrics():   # discounted gains and counts per group, averaged over the groups
    n = CH('rows', 1, PARAM('rows', 3)); fs = Fs(); g = []; k = 0
    for i in range(n): k += CH('next', 0, 1) if i else 0; g.append(k)
    s = [real('score') for _ in range(n)]; y = [CH('target', 0, PARAM('targets', 1)) * 1. for _ in range(n)]
    for i in range(n):
        for j in range(i):
            if g[i] == g[j]: ASSUME(s[i] != s[j])
    head = '# dtype=strings\n' if CH('head', 0, 1) else ''; nl = '\n' if CH('end', 0, 1) else ''
    names = ['g', '', 'g1'][CH('names', 0, 2):]
    if names[0] == '' or len(names) == 1: names = names + ['g2']
    fs.put('groups', head + '\n'.join(names[x % 2] for x in g) + ('\n' if names[g[-1] % 2] == '' else nl)); fs.put('scores', '\n'.join(text(x) for x in s) + nl); fs.put('targets', '# dtype=raw_floats\n' + '\n'.join(text(x) for x in y) + nl)
    t, ok = run('compute_metrics.py', fs, ['--group_file=groups', '--score_file=scores', '--target_file=targets']); well(ok, 'the metrics are computed'); got = dict(l.split('=') for l in t.strip().split('\n')); want = {}
    for i in range(n):
        rank = 0
        for j in range(n):
            if j != i and g[j] == g[i] and s[j] > s[i]: rank += 1
        u = math.log(2.4) / math.log(rank + 2.4) * y[i]
        for key, v in (('dcu_%s' % y[i], u), ('dcu_total', u), ('count_%s' % y[i], 1.), ('count_total', 1.)): want[key] = want.get(key, 0) + v / (k + 1)
    CHECK(sorted(got) == sorted(want), 'gain and count are given for every target and in total')
    for key in want: CHECK(abs(number(got[key]) - want[key]) < 2e-4, 'the mean over the groups of the %s' % ('discounted gain' if key.startswith('dcu') else 'count'))
    REACH('metrics')
    if k: REACH('groups')
def c26_groups():   # longer groups, targets of both signs, similar names
    m = CH('first', 1, 2) * 7; n = m + 5; fs = Fs(); ids = [['g', 'g ', 'G'], ['1', '1.0', '01'], ['a b', 'a  b', 'a'], [' ', '', ' g']][CH('ids', 0, 3)]; g = [0] * m + [1] * 2 + [2] * 3; s = [((7 * i) % 17) / 4. for i in range(n)]; y = [[2., 0., 1., -1., 3., .5][(5 * i + i // 6) % 6] for i in range(n)]; s[CH('symbolic', 0, n - 1)] = real('score')
    for i in range(n):
        for j in range(i):
            if g[i] == g[j]: ASSUME(s[i] != s[j])
    head = ['# dtype=strings\n', '#dtype=strings\n#\n'][CH('head', 0, 1)]; fs.put('groups', head + ''.join(ids[x] + '\n' for x in g)); fs.put('scores', ''.join(text(x) + '\n' for x in s)); fs.put('targets', head.replace('strings', 'raw_floats') + ''.join(text(x) + '\n' for x in y)); t, ok = run('compute_metrics.py', fs, ['--group_file=groups', '--score_file=scores', '--target_file=targets']); well(ok, 'the metrics are computed'); got = dict(l.split('=') for l in t.strip().split('\n')); want = {}
    for i in range(n):
        rank = sum(1 for j in range(n) if j != i and g[j] == g[i] and s[j] > s[i]); u = math.log(2.4) / math.log(rank + 2.4) * y[i]
        for key, v in (('dcu_%s' % y[i], u), ('dcu_total', u), ('count_%s' % y[i], 1.), ('count_total', 1.)): want[key] = want.get(key, 0) + v / 3
    CHECK(sorted(got) == sorted(want), 'gain and count are given for every target and in total')
    for key in want: CHECK(abs(number(got[key]) - want[key]) < 2e-4, 'the mean over the groups of the %s' % ('discounted gain' if key.startswith('dcu') else 'count'))
    REACH('long')
def c26_required():
    fs = Fs(); fs.put('f', '1\n'); miss = CH('missing', 0, 2); a = ['--%s_file=f' % x for i, x in enumerate(('group', 'score', 'target')) if i != miss]; _, ok = run('compute_metrics.py', fs, a); CHECK(not ok, 'a missing parameter is an error'); REACH('required')
def c26_bagged():   # every row is left out of exactly one bag
    nb = CH('bags', 2, PARAM('bags', 3)); n = CH('rows', 1, PARAM('rows', 2)); fs = Fs(); wide = PARAM('wide', 0); points = ['7', '12', '120'] if wide else [['4'], ['2', '4']][CH('points', 0, 1)]; memo = {}
    gap = CH('gap', -1, n - 1)   # a missing value
    for c in ('x', 'y'): fs.put('flat/' + c, '# dtype=raw_floats\n' + ''.join('%s%d\n' % (c == 'x' and '1' or '2', i) if i != gap or c == 'y' else '\n' for i in range(n)))
    if wide:   # a column of the name that the bags have, more comments
        fs.put('flat/bagging_weights', '# dtype=raw_floats\n' + '0\n' * n)
        for c in ('bagging_weights', 'x', 'y'): fs.put('flat/' + c, '#dtype\n#\n' + fs.f['flat/' + c])
    conf = {'float_feature': ['x'], 'target_column': 'y', 'num_trees': 4, 'loss_func': 'mse'}
    if CH('weighted', 0, 1): conf['weight_column'] = 'y'
    fs.put('conf', json.dumps(conf)); sc = {}; bags = []; tested = []
    def hashed(x):
        if x not in memo: memo[x] = CH('hash', 0, nb - 1)
        return memo[x]
    def rows(p): t = fs.f[p].split('\n'); return t[0], [x for x in t[1:] if x != '']
    def call(cmd):
        fl = dict(x[2:].split('=', 1) for x in cmd[1:] if x.startswith('--') and '=' in x); CHECK(cmd[0].endswith('bazel-bin/src/gbdt'), 'the program is run'); CHECK(fl.get('num_threads') == '3', 'with the number of threads asked for'); c = json.loads(fs.f[fs.n(fl['config_file'])]); dirs = fl['flatfiles_dirs'].split(',')
        if fl.get('mode', 'train') == 'train':
            w = c.get('weight_column'); found = [d for d in dirs if fs.exists(os.path.join(d, w or '?'))]; CHECK(bool(found), 'the weights of the bag are where the training looks for them'); typ, ws = rows(fs.n(os.path.join(found[0], w))); CHECK(typ == '# dtype=raw_floats' and len(ws) == n and all(x in ('0', '1') for x in ws), 'a bag is a column of weights'); CHECK({k: v for k, v in c.items() if k != 'weight_column'} == {k: v for k, v in conf.items() if k != 'weight_column'}, 'the rest of the configuration is the given one'); CHECK('flat' in [fs.n(d) for d in dirs], 'the data is the given one')
            bags.append([int(x) for x in ws]); fs.put(os.path.join(fl['output_dir'], fl['output_model_name'] + '.json'), str(len(bags) - 1))
        else:
            CHECK(c == conf and [fs.n(d) for d in dirs] == ['flat'], 'the test uses the given data'); k = int(fs.f[fs.n(fl['testing_model_file'])]); tested.append(k)
            for p in points: sc[k, p] = [real('score') for _ in range(n)]; fs.put(os.path.join(fl['output_dir'], 'forest.%s.score' % p), '\n'.join(text(x) for x in sc[k, p]))
        return 0
    if CH('again', 0, 1): fs.put('out/scores/in_bag.9.score', 'old'); fs.put('out/scores/in_bag.4.score', '5\n'); fs.put('out/scores/out_of_bag.4.score', '5\n')
    _, ok = run('bagged.py', fs, ['--num_bags=%d' % nb, '--flatfiles_dir=flat', '--config_file=conf', '--output_dir=out', '--num_threads=3'], call=call, hashed=hashed); well(ok, 'the bagging succeeds')
    CHECK(len(bags) == nb and sorted(tested) == list(range(nb)), 'one model is trained and tested per bag'); CHECK(all(sum(1 - b[i] for b in bags) == 1 for i in range(n)), 'every row is left out of exactly one bag')
    CHECK(fs.list('out/scores') == sorted('%s_bag.%s.score' % (a, p) for a in ('in', 'out_of') for p in points), 'there are scores for every test point')
    for p in points:
        for kind in (1, 0):
            got = [number(x) for x in fs.f['out/scores/%s_bag.%s.score' % ('in' if kind else 'out_of', p)].split('\n') if x != '']; CHECK(len(got) == n, 'one score per row')
            for i in range(n): v = [sc[k, p][i] for k in range(nb) if bags[k][i] == kind]; CHECK(near(got[i], sum(v) / len(v)), 'a score is the mean of the models that %s the row' % ('were trained with' if kind else 'have not seen'))
    REACH('bagged')
def c26_many():   # many trees, many categories, special thresholds
    k = 12; fs = Fs(); cats = ['c%d' % i for i in range(8)]; th = [0., -1.5, 1e6, 1 / 3.][CH('threshold', 0, 3)]; right = bool(CH('right', 0, 1)); at = CH('tree', 0, k - 1); nc = CH('categories', 1, 8); lone = CH('lone', 0, 1)
    def leaf(x): return {'score': x}
    trees = [leaf(i + .25) for i in range(k)] if lone else [{'score': i + .25, 'split': {'feature': 'f%d' % i, 'floatSplit': {'threshold': i + .5, 'missingToRightChild': False}}, 'leftChild': leaf(i + .375), 'rightChild': leaf(i + .625)} for i in range(k)]
    trees[at] = {'score': 0., 'split': {'feature': 'cat', 'catSplit': {'category': cats[:nc]}}, 'leftChild': {'score': 0., 'split': {'feature': 'num', 'floatSplit': {'threshold': th, 'missingToRightChild': right}}, 'leftChild': leaf(-1.0625), 'rightChild': leaf(0.)}, 'rightChild': leaf(100.)}
    fs.put('model', json.dumps({'tree': trees})); _, ok = run('draw_trees.py', fs, ['model', 'pic'], call=lambda c: 0); well(ok, 'the forest is drawn'); gs = fs.f['pic/forest.dot'].split('digraph ')[1:]; CHECK(len(gs) == k, 'one drawing per tree')
    for i, g in enumerate(gs):
        labels = dict(re.findall(r'(\w+)\s*\[label="(.*)" color=\w+\]', g)); edges = re.findall(r'(\w+)\s*->\s*(\w+)\s*;', g)
        heads = {b for a, b in edges}; roots = [x for x in labels if x not in heads]; CHECK(len(roots) == 1 and len(labels) == (5 if i == at else 1 if lone else 3) == len(edges) + 1, 'every node is drawn once')
        def sub(x): return [labels[x]] + [sub(b) for a, b in edges if a == x]
        t = sub(roots[0])
        if i == at: CHECK(len(t) == 3 and len(t[1]) == 3 and all((c in t[0]) == (c in cats[:nc]) for c in cats) and '%.3f' % th in t[1][0] and '-1.062500' in t[1][1][0] and '0.000000' in t[1][2][0] and '100.000000' in t[2][0], 'an inner node shows what it splits by, a leaf its score')
        elif lone: CHECK('%.6f' % (i + .25) in t[0], 'a leaf shows its score')
        else: CHECK('f%d' % i in t[0] and '%.3f' % (i + .5) in t[0] and '%.6f' % (i + .375) in t[1][0] and '%.6f' % (i + .625) in t[2][0], 'the trees are drawn in their order')
    REACH('many')
def c26_draw():   # the drawing of a forest
    count = [0]; fs = Fs(); cmds = []
    def tree(depth):
        count[0] += 1; n = {'score': count[0] + .125}; kind = CH('node', 0, 3) if depth else 0
        if kind:
            sp = n['split'] = {'feature': 'feature%d' % count[0], 'gain': 1.}
            if kind == 3: sp['catSplit'] = {'category': ['cat a', 'cat b', 'cat c'][:CH('categories', 1, 3)], 'internalCategoricalIndex': []}
            else: sp['floatSplit'] = {'threshold': count[0] / 4., 'missingToRightChild': kind == 2}
            n['leftChild'] = tree(depth - 1); n['rightChild'] = tree(depth - 1)
        return n
    def chain(depth):   # one long branch
        count[0] += 1; n = {'score': count[0] + .125}
        if not depth: return n
        n['split'] = {'feature': 'feature%d' % count[0], 'gain': 1., 'floatSplit': {'threshold': count[0] / 4., 'missingToRightChild': False}}; side = ['leftChild', 'rightChild']
        if CH('turn', 0, 1): side.reverse()
        n[side[0]] = chain(depth - 1); n[side[1]] = chain(0); return n
    k = CH('trees', 0, 2); long = PARAM('chain', 0); trees = [chain(long) if long and not i else tree(0 if i else PARAM('depth', 2)) for i in range(k)]; fs.put('model', json.dumps({'tree': trees, 'metaInfo': ''}))
    if CH('there', 0, 1): fs.makedirs('pic')
    _, ok = run('draw_trees.py', fs, ['model', 'pic'], call=lambda c: cmds.append(c) or 0); well(ok, 'the forest is drawn'); CHECK(any(c[0] == 'dot' and 'pic/forest.dot' in c for c in cmds), 'the drawing is made from the description'); marks = {}
    gs = [g for g in fs.f['pic/forest.dot'].split('digraph ')[1:]]; CHECK(len(gs) == k, 'one drawing per tree')
    for g, t in zip(gs, trees):
        nodes = dict(); edges = {}; heads = set()
        for l in g.split('\n'):
            m = re.match(r'\s*(\w+)\s*\[label="(.*)" color=\w+\];?$', l); e = re.match(r'\s*(\w+)\s*->\s*(\w+)\s*;$', l)
            if m: CHECK(m.group(1) not in nodes, 'a node has a name of its own'); nodes[m.group(1)] = m.group(2)
            if e: edges.setdefault(e.group(1), []).append(e.group(2)); heads.add(e.group(2))
        roots = [x for x in nodes if x not in heads]; CHECK(len(roots) == 1, 'a tree has one root'); used = set()
        def walk(name, node):
            CHECK(name in nodes and name not in used, 'every node is drawn'); used.add(name); label = nodes[name]; ch = edges.get(name, [])
            if 'split' not in node: CHECK('%.6f' % node['score'] in label, 'a leaf shows its score'); CHECK(not ch, 'a leaf has no children'); return
            sp = node['split']; CHECK(sp['feature'] in label and len(ch) == 2, 'an inner node shows its feature and has two children')
            if 'floatSplit' in sp: th = '%.3f' % sp['floatSplit']['threshold']; CHECK(th in label, 'and its threshold'); marks.setdefault(sp['floatSplit']['missingToRightChild'], set()).add(label.split(sp['feature'])[1].split(th)[0].strip())
            else: CHECK(all((c in label) == (c in sp['catSplit']['category']) for c in ('cat a', 'cat b', 'cat c')), 'and its categories')
            walk(ch[0], node['leftChild']); walk(ch[1], node['rightChild'])
        walk(roots[0], t); CHECK(len(used) == len(nodes), 'nothing else is drawn')
    if len(marks) == 2: CHECK(len(marks[True]) == 1 and len(marks[False]) == 1 and marks[True] != marks[False], 'where missing values go can be seen'); REACH('missing')
    REACH('drawn' if k else 'empty')
