"""Python 2 scripts on the Python 3 interpreter: print statements, list-valued builtins, integer division, next methods."""
import ast, builtins, functools, io, itertools, re, tokenize, warnings
warnings.simplefilter('ignore', SyntaxWarning)
def statements(src):
    """Rewrites print statements as calls."""
    toks = list(tokenize.generate_tokens(io.StringIO(src).readline)); lines = src.splitlines(True); start = [0]
    for l in lines: start.append(start[-1] + len(l))
    off = lambda p: start[p[0] - 1] + p[1]; out = []; last = 0; begin = True; i = 0; skip = (tokenize.NL, tokenize.COMMENT)
    while i < len(toks):
        t = toks[i]
        if begin and t.type == tokenize.NAME and t.string == 'print' and toks[i + 1].string not in ('=', '.'):
            j = i + 1; depth = 0; commas = []
            while not (depth == 0 and (toks[j].type in (tokenize.NEWLINE, tokenize.ENDMARKER, tokenize.COMMENT) or toks[j].string == ';')):
                if toks[j].string in ('(', '[', '{'): depth += 1
                elif toks[j].string in (')', ']', '}'): depth -= 1
                elif toks[j].string == ',' and depth == 0: commas.append(j)
                j += 1
            a, b = i + 1, j; file = 'None'
            if toks[a].string == '>>': c = commas.pop(0) if commas else b; file = src[off(toks[a].end):off(toks[c].start)]; a = min(c + 1, b)
            rest = src[off(toks[a].start):off(toks[b - 1].end)].strip() if a < b else ''; nl = not rest.endswith(',')
            out.append(src[last:off(t.start)] + '__print__(%s, %s, (%s))' % (file.strip(), nl, rest + (',' if rest and nl else ''))); last = off(toks[b - 1].end) if b > i + 1 else off(t.end); i = j; begin = False; continue
        if t.type in skip: pass
        else: begin = t.type in (tokenize.NEWLINE, tokenize.INDENT, tokenize.DEDENT) or t.string in (';', ':')
        i += 1
    return ''.join(out) + src[last:]
def parameters(src):
    """Tuple parameters become one parameter each, whose name carries the tuple."""
    toks = [t for t in tokenize.generate_tokens(io.StringIO(src).readline)]; lines = src.splitlines(True); start = [0]
    for l in lines: start.append(start[-1] + len(l))
    off = lambda p: start[p[0] - 1] + p[1]; out = []; last = 0; i = 0
    while i < len(toks):
        s = toks[i].string; end = None
        if toks[i].type == tokenize.NAME and s == 'lambda': j = i + 1; end = ':'
        elif toks[i].type == tokenize.NAME and s == 'def' and toks[i + 2].string == '(': j = i + 3; end = ')'
        if end:
            while toks[j].string != end and toks[j].type != tokenize.ENDMARKER:
                if toks[j].string == '(' and toks[j - 1].string in ('lambda', '(', ','):
                    a = j; depth = 0
                    while True:
                        depth += (toks[j].string == '(') - (toks[j].string == ')')
                        if not depth: break
                        j += 1
                    out.append(src[last:off(toks[a].start)] + ' __tuple__' + src[off(toks[a].start):off(toks[j].end)].encode().hex()); last = off(toks[j].end)
                elif toks[j].string in ('=',):
                    depth = 0
                    while depth or toks[j + 1].string not in (',', end): j += 1; depth += (toks[j].string in '([{') - (toks[j].string in ')]}')
                j += 1
        i += 1
    return ''.join(out) + src[last:]
def syntax(src):
    """Forms that only Python 2 reads."""
    try: src = parameters(src)
    except (tokenize.TokenError, IndexError): pass
    src = re.sub(r'(?m)^(\s*except\s+(?:\([^)]*\)|[\w.]+))\s*,\s*(\w+)\s*:', r'\1 as \2:', src)
    src = re.sub(r'(?m)^(\s*raise\s+[\w.]+)\s*,\s*(.+)$', r'\1(\2)', src)
    src = re.sub(r'(?<![\w.])0([0-7]+)(?![\w.])', r'0o\1', src) if re.search(r'[(,=]\s*0[0-7]+\s*[,)\n]', src) else src
    return src
for k, f in dict(izip=zip, imap=map, ifilter=filter, izip_longest=itertools.zip_longest, ifilterfalse=itertools.filterfalse).items(): setattr(itertools, k, f)
def cmp(a, b): return 1 if a > b else -1 if a < b else 0
def bycmp(f): return functools.cmp_to_key(f) if f else None
def listed(x): return list(x) if isinstance(x, (type({}.keys()), type({}.values()), type({}.items()))) else x
FUTURE = set()
class Rewrite(ast.NodeTransformer):
    def __init__(self, two): self.two = two
    def visit_Call(self, n):
        self.generic_visit(n); a = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
        if self.two:
            new = None
            if a == 'has_key' and len(n.args) == 1: new = ast.Compare(n.args[0], [ast.In()], [n.func.value])
            elif a in ('keys', 'values', 'items') and isinstance(n.func, ast.Attribute) and not n.args: new = ast.Call(ast.Name('__listed__', ast.Load()), [n], [])
            if new: return ast.copy_location(new, n)
            k = 0 if a == 'sort' and isinstance(n.func, ast.Attribute) else 1 if a == 'sorted' and isinstance(n.func, ast.Name) else None
            if k is not None:
                c = n.args[k] if len(n.args) > k else next((w.value for w in n.keywords if w.arg == 'cmp'), None)
                if c is not None: n.args = n.args[:k]; n.keywords = [w for w in n.keywords if w.arg not in ('cmp',)] + [ast.keyword('key', ast.Call(ast.Name('__bycmp__', ast.Load()), [c], []))]
        if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords:
            to = {'iteritems': 'items', 'iterkeys': 'keys', 'itervalues': 'values'}.get(n.func.attr)
            if to: n.func.attr = to
            elif n.func.attr == 'next': return ast.copy_location(ast.Call(ast.Name('next', ast.Load()), [n.func.value], []), n)
        return n
    def tuples(self, args):
        return [(a.arg, ast.parse(bytes.fromhex(a.arg[9:]).decode(), mode='eval').body) for a in args.args if a.arg.startswith('__tuple__')]
    def visit_Lambda(self, n):
        self.generic_visit(n); ts = self.tuples(n.args)
        for name, t in ts:
            flat = [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]; inner = ast.Lambda(ast.arguments([], [ast.arg(x) for x in flat], None, [], [], None, []), n.body)
            n.body = ast.Call(inner, [ast.Starred(ast.Call(ast.Name('__flat__', ast.Load()), [ast.Constant(self.shape(t)), ast.Name(name, ast.Load())], []), ast.Load())], [])
        return n
    def shape(self, t): return tuple(self.shape(x) for x in t.elts) if isinstance(t, ast.Tuple) else 0
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        for name, t in self.tuples(n.args):
            for x in ast.walk(t):
                if hasattr(x, 'ctx'): x.ctx = ast.Store()
            n.body.insert(0, ast.copy_location(ast.Assign([t], ast.Name(name, ast.Load())), n.body[0]))
        return n
    def visit_BinOp(self, n):
        self.generic_visit(n); f = {ast.Div: '__div__', ast.Mod: '__mod__'}.get(type(n.op))
        return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.right], []), n) if f else n
def flat(shape, x):
    if not shape: return [x]
    x = list(x)
    if len(x) != len(shape): raise ValueError('unpacking %d values into %d names' % (len(x), len(shape)))
    return [y for s, e in zip(shape, x) for y in flat(s, e)]
def div2(a, b): return a // b if isinstance(a, int) and isinstance(b, int) else a / b
def div3(a, b): return a / b
def code(path):
    """(code, is it Python 2)"""
    src = open(path).read(); two = False
    try:
        t = ast.parse(src, path); calls = [n for n in ast.walk(t) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print']; two = not calls or any(isinstance(n, ast.BinOp) and isinstance(n.op, ast.RShift) and isinstance(n.left, ast.Name) and n.left.id == 'print' for n in ast.walk(t))
        if two: t = ast.parse(statements(src), path)
    except SyntaxError: two = True; t = ast.parse(syntax(statements(src)), path)
    if any(isinstance(n, ast.ImportFrom) and n.module == '__future__' and any(a.name == 'division' for a in n.names) for n in ast.walk(t)): FUTURE.add(path)
    return compile(ast.fix_missing_locations(Rewrite(two).visit(t)), path, 'exec'), two
def names(two, path):
    d = dict(vars(builtins)); d['__div__'] = div2 if two and path not in FUTURE else div3
    if two: d.update(__flat__=flat, xrange=range, range=lambda *a: list(range(*a)), map=lambda f, *s: list(map(f, *s)), zip=lambda *s: list(zip(*s)), filter=lambda f, s: list(filter(f, s)), unicode=str, basestring=str, long=int, raw_input=None, cmp=cmp, reduce=functools.reduce, __bycmp__=bycmp, __listed__=listed)
    return d
