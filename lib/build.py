"""Builds: engine, bitcode of the code under check (symbolic build), native replay program."""
import glob, hashlib, os, re, subprocess, sys, shutil, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
LLVM = '/usr/lib/llvm-18/bin/'
JOBS = os.cpu_count() or 8

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout

class BuildError(Exception): pass

def must(cmd, **kw):
    rc, o = sh(cmd, **kw)
    if rc != 0: raise BuildError('command failed: %s\n%s' % (' '.join(cmd)[:400], o[-4000:]))
    return o

# ---- engine ---------------------------------------------------------------------------------------
def engine_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(V + '/engine/*.cc') + glob.glob(V + '/engine/*.h') + glob.glob(V + '/engine/*.inc') + [V + '/engine/build.sh']):
        h.update(os.path.basename(f).encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()

def engine():
    """Path of the engine binary; built from /verif/engine when the prebuilt one is stale or cannot run."""
    hsh = engine_hash()
    for d in (V + '/engine/bin', V + '/.cache/engine'):
        try:
            if open(d + '/stamp').read().strip() == hsh and sh([d + '/symx', '--version'])[0] == 0: return d + '/symx'
        except OSError: pass
    d = V + '/.cache/engine'; os.makedirs(d, exist_ok=True)
    must([V + '/engine/build.sh', d]); open(d + '/stamp', 'w').write(hsh)
    return d + '/symx'

# ---- sources --------------------------------------------------------------------------------------
def lib_sources():
    r = []
    for f in sorted(glob.glob(REPO + '/src/**/*.cc', recursive=True)):
        if f.endswith('_test.cc') or f.endswith('/src/main.cc') or '/src/python/' in f: continue
        r.append(f)
    return r

def extra_sources(pats):
    r = []
    for p in pats:
        if p.startswith('harness/'): r.append(V + '/' + p); continue
        for f in sorted(glob.glob(REPO + '/' + p)):
            if not f.endswith('_test.cc') and not f.endswith('/gbdt_py.cc') and f not in r: r.append(f)   # gbdt_py.cc only registers the module
    return r

def pmap(fn, xs):
    with ThreadPoolExecutor(JOBS) as ex: return list(ex.map(fn, xs))

SYM_FLAGS = ['-std=gnu++14', '-Wno-everything', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_GLIBCXX_ASSERTIONS', '-gline-tables-only', '-ffp-contract=off', '-O1', '-Xclang', '-disable-llvm-passes']
PASSES = 'function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>),cgscc(inline,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>)),internalize,globaldce,function(simplifycfg)'

def build_bitcode(work, harness, entries, extra=(), py=None):
    """Compile every library source of the current tree, the harness and the guest runtime; link; optimise."""
    os.makedirs(work, exist_ok=True)
    gen = work + '/gen'
    must([sys.executable, V + '/stubs/mini_protoc.py', gen] + sorted(glob.glob(REPO + '/src/proto/*.proto')))
    inc = ['-I' + V + '/stubs', '-I' + gen, '-I' + V + '/harness', '-I' + REPO]
    srcs = [f for f in lib_sources() if not f.endswith('/json_utils.cc')] + list(extra) + [V + '/harness/' + harness, V + '/stubs/rt.cc', V + '/stubs/rt_c.c']
    outs = []
    def comp(f):
        o = work + '/' + re.sub(r'\W', '_', f) + '.bc'
        fl = SYM_FLAGS + (['-fno-builtin'] if '/stubs/rt' in f else [])
        c = f.endswith('.c')
        rc, out = sh(['clang-18', '-O1', '-fno-builtin', '-Xclang', '-disable-llvm-passes', '-w'] + ['-c', '-emit-llvm', f, '-o', o]) if c else sh(['clang++-18'] + fl + inc + ['-c', '-emit-llvm', f, '-o', o])
        return o, rc, out, f
    for o, rc, out, f in pmap(comp, srcs):
        if rc != 0: raise BuildError('cannot compile %s\n%s' % (f, out[-4000:]))
        outs.append(o)
    must([LLVM + 'llvm-link'] + outs + ['-o', work + '/all.bc'])
    must([LLVM + 'opt', '-passes=' + PASSES, '-internalize-public-api-list=' + ','.join(entries), work + '/all.bc', '-o', work + '/prog.bc'])
    return work + '/prog.bc'

def compat(d):
    t = open('/usr/include/google/protobuf/stubs/status.h').read()
    t = t.replace('  StatusCode code() const { return error_code_; }\n', '  StatusCode code() const { return error_code_; }\n  StatusCode error_code() const { return error_code_; }\n  static const Status OK;\n')
    c = 'namespace error {\n'
    for p in 'OK=kOk CANCELLED=kCancelled UNKNOWN=kUnknown INVALID_ARGUMENT=kInvalidArgument DEADLINE_EXCEEDED=kDeadlineExceeded NOT_FOUND=kNotFound ALREADY_EXISTS=kAlreadyExists PERMISSION_DENIED=kPermissionDenied UNAUTHENTICATED=kUnauthenticated RESOURCE_EXHAUSTED=kResourceExhausted FAILED_PRECONDITION=kFailedPrecondition ABORTED=kAborted OUT_OF_RANGE=kOutOfRange UNIMPLEMENTED=kUnimplemented INTERNAL=kInternal UNAVAILABLE=kUnavailable DATA_LOSS=kDataLoss'.split():
        a, b = p.split('='); c += 'constexpr StatusCode %s = StatusCode::%s;\n' % (a, b)
    t = t.replace('}  // namespace util\n', c + '}  // namespace error\n\n}  // namespace util\n')
    os.makedirs(d + '/google/protobuf/stubs', exist_ok=True)
    open(d + '/google/protobuf/stubs/status.h', 'w').write(t)

def build_native(work, harness, extra=(), sanitize=True, defs=(), py=None):
    os.makedirs(work, exist_ok=True)
    compat(work + '/compat'); gen = work + '/ngen'; os.makedirs(gen, exist_ok=True)
    protos = sorted(glob.glob(REPO + '/src/proto/*.proto'))
    must(['protoc', '-I' + REPO, '--cpp_out=' + gen] + protos)
    san = ['-fsanitize=address,float-cast-overflow,integer-divide-by-zero,bounds,vptr,return,unreachable', '-fno-sanitize-recover=all'] if sanitize else []
    san = [s for s in san]
    base = ['g++', '-std=gnu++14', '-w', '-O1', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-D_GLIBCXX_ASSERTIONS', '-ffp-contract=off', '-g1'] + list(defs) + san
    inc = ['-I' + V + '/native', '-I' + work + '/compat', '-I' + V + '/stubs_api', '-I' + REPO, '-I' + gen, '-I' + V + '/harness']
    srcs = [V + '/harness/' + harness, V + '/native/native_rt.cc'] + lib_sources() + list(extra) + [V + '/native/protobuf_status_ok.cc'] + glob.glob(gen + '/src/proto/*.pb.cc')
    def comp(f):
        o = work + '/n' + re.sub(r'\W', '_', f) + '.o'
        rc, out = sh(base + inc + ['-c', f, '-o', o])
        return o, rc, out, f
    outs = []
    for o, rc, out, f in pmap(comp, srcs):
        if rc != 0: raise BuildError('cannot compile %s natively\n%s' % (f, out[-4000:]))
        outs.append(o)
    exe = work + '/native'
    must(base + ['-rdynamic', '-o', exe] + outs + ['-lprotobuf', '-lgflags', '-lglog', '-lfmt', '-lpthread', '-ldl'])
    return exe
