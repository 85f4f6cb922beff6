#!/usr/bin/env python3
"""Run one check: symbolic execution of the current tree, native replay of every counterexample, evidence file."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, checks
V = build.V
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=66:new_delete_type_mismatch=0:allocator_may_return_null=1:detect_stack_use_after_return=1', UBSAN_OPTIONS='exitcode=66:print_stacktrace=1', GLOG_minloglevel='3', MALLOC_PERTURB_='165')

def native_run(exe, entry, inputs, params, work, timeout=20):
    """-> (verdict, detail, observations); verdict: done fatal infeasible check crash abort hang error"""
    d = tempfile.mkdtemp(dir=work)
    fi, fo = d + '/in.tsv', d + '/out.tsv'
    with open(fi, 'w') as f:
        for k, v in inputs.items(): f.write('%s\t%s\n' % (k, v))
    cmd = [exe, entry, fi, fo] + ['%s=%s' % kv for kv in params.items()]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout, cwd=d)
        rc, log = r.returncode, r.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired: rc, log = 'timeout', ''
    obs, msg, end = [], '', ''
    try:
        for l in open(fo, errors='replace'):
            p = l.rstrip('\n').split('\t')
            if p[0] == 'obs': obs.append((p[1], p[2]))
            elif p[0] in ('check', 'crash'): msg = p[1]
            elif p[0] == 'end': end = p[1]
    except OSError: pass
    shutil.rmtree(d, ignore_errors=True)
    if rc == 'timeout': return 'hang', 'no result within %d s' % timeout, obs
    if rc == 0: return end or 'done', '', obs
    if rc == 78: return 'infeasible', '', obs
    if rc == 77: return 'check', msg, obs
    if rc == 76: return 'abort', log[-300:], obs
    if rc == 75: return 'error', 'harness', obs
    m = re.search(r'(runtime error: .*|ERROR: AddressSanitizer: [^\n]*)', log)
    return 'crash', m.group(1)[:300] if m else 'exit status %s' % rc, obs

def same(a, b):
    if a == b: return True
    try: x, y = float(a), float(b)
    except ValueError: return False
    if x != x and y != y: return True
    return abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    C = checks.CHECKS[pid]; t0 = time.time()
    if 'python' in C: os.execv('/opt/veriftools/pyvenv/bin/python', ['/opt/veriftools/pyvenv/bin/python', V + '/lib/pysym.py', pid, tier])
    work = tempfile.mkdtemp(prefix='symx-%s-' % pid, dir=os.environ.get('SYMX_TMP', '/tmp'))
    rdir = V + '/evidence/replays'; os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'): os.unlink(rdir + '/' + f)
    rc = 1
    try: rc = run(pid, C, tier, seed, work, rdir, t0)
    except build.BuildError as e:
        print('check %s cannot be built against the current tree:\n%s' % (pid, e)); rc = 3
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(pid, C, tier, seed, work, rdir, t0):
    nat = {}
    def bn():
        try: nat['exe'] = build.build_native(work + '/n', C['harness'], build.extra_sources(C.get('extra', [])), defs=C.get('defs', []), py=C.get('py'))
        except build.BuildError as e: nat['err'] = str(e)
    th = threading.Thread(target=bn); th.start()
    eng = build.engine()
    entries = sorted(set(s['entry'] for s in C['stages']))
    prog = build.build_bitcode(work + '/s', C['harness'], entries, build.extra_sources(C.get('extra', [])), py=C.get('py'))
    if os.environ.get('SYMX_VERBOSE'): print('bitcode built %.1fs' % (time.time() - t0))
    th.join()
    if 'err' in nat: raise build.BuildError(nat['err'])
    exe = nat['exe']
    tb = time.time() - t0
    if os.environ.get('SYMX_VERBOSE'): print('native built %.1fs' % tb)
    known = [k for k in json.load(open(V + '/known_findings.json'))['findings'] if k['property'] == pid and k.get('status') == 'known']
    tot = dict(paths=0, done=0, decisions=0, sched_decisions=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, cached=0, solver_s=0.0, checks=0, checks_symbolic=0)
    ev_stages, funcs, reasons, samples, confirmed, unconfirmed, notes, validated, mismatch = [], set(), {}, [], [], [], [], 0, 0
    knownhit = set(); vio = []; cov = {}
    left_total = C.get('budget', {}).get(tier, 70 if tier == 'quick' else 780)
    stages = [s for s in C['stages'] if tier == 'thorough' or not s.get('thorough_only')]
    for si, s in enumerate(stages):
        params = dict(s.get('params', {}))
        if tier == 'thorough': params.update(s.get('thorough', {}))
        tl = s.get('time', 20) if tier == 'quick' else s.get('ttime', s.get('time', 20) * 8)
        tl = max(3, min(tl, left_total - (time.time() - t0 - tb)))
        out = work + '/o%d.json' % si
        cmd = [eng, prog, '--entry', s['entry'], '--workers', str(build.JOBS), '--time', str(tl), '--seed', str(seed), '--out', out, '--repo', build.REPO, '--samples', str(s.get('samples', 12))]
        for k, v in params.items(): cmd += ['--param', '%s=%s' % (k, v)]
        r, o = build.sh(cmd, timeout=tl + 300)
        if os.environ.get('SYMX_FORKS'): print(o)
        if r != 0: raise build.BuildError('engine failed on %s: %s' % (s['entry'], o[-2000:]))
        j = json.load(open(out)); e = j['entries'][0]
        for f, c in j['coverage'].items():
            a = cov.setdefault(f, [c['lines'], set()]); mis = set(c['missed'].split()); a[1] = mis if not a[1] and len(a) == 2 else a[1] & mis; a.append(1)
        for k in tot: tot[k] += e[k]
        funcs |= set(e['functions'])
        for k, v in e['unmodelled_reasons'].items(): reasons[k] = reasons.get(k, 0) + v
        st = dict(entry=s['entry'], bounds=params, what=s.get('what', ''), complete=e['complete'], wall_s=round(e['wall_s'], 2), paths=e['paths'], finished=e['done'] + e['fatal_ok'], pending=e['pending'], infeasible=e['infeasible'], unmodelled=e['unmodelled'], decisions=e['decisions'], schedule_decisions=e['sched_decisions'], queries=e['queries'], unsat=e['unsat'], sat=e['sat'], unknown=e['unknown'], solver_s=round(e['solver_s'], 2), checks=e['checks'], checks_symbolic=e['checks_symbolic'], reach=e['reach'], counterexamples=len(e['violations']))
        ev_stages.append(st)
        missing = [m for m in s.get('reach', []) if not e['reach'].get(m)]
        if missing: notes.append('stage %s: markers not reached: %s' % (s['entry'], ','.join(missing))); st['vacuous'] = True
        # existential guarantees: some behaviour must reach the marker; the solver has shown that none does
        for m in s.get('can', []):
            if e['complete'] and not e['violations'] and not e['unmodelled'] and not e['reach'].get(m):
                ver, det, obs = native_run(exe, s['entry'], {}, dict(params, native=1), work)
                rec = dict(entry=s['entry'], params=dict(params, native=1), kind='never', msg=det or m, where='', inputs={}, stack='', replay='real build with its real generator over many rounds: ' + ver + ' ' + det, decs='')
                (vio if ver == 'check' else unconfirmed).append(rec)
        # counterexamples: replay each distinct one on the real code
        seen = {}
        for v in e['violations']:
            key = (v['kind'], v['msg'], v['where'])
            if seen.get(key) == 'yes' or seen.get(key, 0) == 'no6': continue
            isknown = next((k for k in known if match(k, s['entry'], v)), None)
            if isknown: knownhit.add(isknown['what']); continue
            ok, how = confirm(eng, prog, exe, s, v, params, work)
            rec = dict(entry=s['entry'], params=params, kind=v['kind'], msg=v['msg'], where=v['where'], inputs=v['inputs'], stack=v['stack'], replay=how, decs=v['decs'] if v['sched'] else '')
            if ok: seen[key] = 'yes'; vio.append(rec)
            else: n = int(str(seen.get(key, 'no0'))[2:]) + 1; seen[key] = 'no%d' % n; unconfirmed.append(rec)
        # passing paths: the real code must do the same
        for smp in e['samples']:
            ver, det, obs = native_run(exe, s['entry'], smp['inputs'], params, work)
            rec = dict(entry=s['entry'], params=params, inputs=smp['inputs'], end=smp['end'])
            if ver in ('check', 'crash', 'abort', 'hang') and not (ver == 'abort' and smp['end'] == 'fatal'):
                v2 = dict(kind='native ' + ver, msg=det, where='', inputs=smp['inputs'])
                isknown = next((k for k in known if match(k, s['entry'], v2)), None)
                if isknown: knownhit.add(isknown['what']); continue
                vio.append(dict(rec, kind='native ' + ver, msg=det, where='', stack='', replay='the real build fails on an input the symbolic run passed: ' + det, decs='')); continue
            if ver == 'infeasible' or ver == 'error': mismatch += 1; notes.append('sample of %s ended %s natively' % (s['entry'], ver)); continue
            diffs = [] if smp['end'] == 'real' else compare(smp, obs)   # over the reals only the checks are compared
            if diffs: mismatch += 1; notes.append('sample of %s: observations differ: %s inputs %s' % (s['entry'], diffs[:2], smp['inputs']))
            else: validated += 1
            if len(samples) < 4: samples.append(dict(rec, observations=obs[:8]))
        if os.environ.get('SYMX_VERBOSE'):
            print(json.dumps({k: st[k] for k in ('entry', 'complete', 'wall_s', 'paths', 'finished', 'pending', 'unmodelled', 'queries', 'unknown', 'solver_s', 'checks', 'reach', 'counterexamples')}), 'validated', validated, 'mismatch', mismatch, flush=True)
        if vio and not os.environ.get('SYMX_ALL'): break
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(vio),
      coverage=dict(states=tot['paths'], transitions=tot['decisions'] + tot['sched_decisions'], traces_validated_against_impl=validated, samples=samples or [dict(note='no passing path was sampled')],
        explanation='states: symbolic path classes explored to their end (each stands for every input satisfying its path condition); transitions: solver-decided branch/value/schedule decisions; traces_validated: concretised passing paths re-executed by the real build with equal observations.',
        exhaustive=all(s['complete'] for s in ev_stages) and not reasons and not notes,
        stages=ev_stages, totals={k: (round(v, 2) if isinstance(v, float) else v) for k, v in tot.items()}, functions_encoded=sorted(funcs), unmodelled=reasons, unconfirmed_counterexamples=unconfirmed[:10], observation_mismatches=mismatch, notes=notes[:40], build_s=round(tb, 2), known_findings=sorted(knownhit)),
      assumptions=checks.COMMON_ASSUMPTIONS + C.get('assumptions', []))
    if os.environ.get('SYMX_COV'):
        for f, a in sorted(cov.items()): print('  cov', f, a[0], 'missed', ' '.join(sorted(a[1], key=int)))
    json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for n in notes[:10]: print('note:', n)
    for u in unconfirmed[:5]: print('unconfirmed (not reported): %s %s %s inputs=%s; %s' % (u['kind'], u['msg'], u['where'], u['inputs'], u['replay']))
    for k, n in list(reasons.items())[:8]: print('unmodelled x%d: %s' % (n, k))
    print('%s %s: %d paths, %d queries (%d unknown), solver %.1f s, %d traces validated, complete=%s, %.1f s' % (pid, tier, tot['paths'], tot['queries'], tot['unknown'], tot['solver_s'], validated, [s['complete'] for s in ev_stages], time.time() - t0))
    if vio:
        for i, v in enumerate(vio[:5]):
            p = '%s/%s-%d.json' % (rdir, pid, i); json.dump(v, open(p, 'w'), indent=1)
            print('%s: %s %s' % (v['kind'], v['msg'], v['where'])); print('  inputs: %s' % v['inputs']); print('  replay: %s' % v['replay'])
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    return 0

def compare(smp, obs):
    so = smp['obs']
    so = [tuple(x) for x in so] if isinstance(so, list) else list(so.items())
    if len(so) != len(obs): return ['%d observations against %d' % (len(so), len(obs))]
    return ['%s: %s against %s' % (a[0], a[1], b[1]) for a, b in zip(so, obs) if a[0] != b[0] or not same(a[1], b[1])]

def match(k, entry, v):
    if k.get('entry') and k['entry'] != entry: return False
    if k.get('msg') and k['msg'] not in v['msg']: return False
    if k.get('where') and k['where'] not in v.get('where', ''): return False
    return all(v['inputs'].get(a) == b for a, b in k.get('inputs', {}).items())

def confirm(eng, prog, exe, s, v, params, work):
    """Does the counterexample reproduce?"""
    if v['sched']:
        d = work + '/decs'
        open(d, 'w').write(v['decs'].replace(';', '\n'))
        cmd = [eng, prog, '--entry', s['entry'], '--workers', '1', '--time', '60', '--out', work + '/rp.json', '--replay', d]
        for k, x in params.items(): cmd += ['--param', '%s=%s' % (k, x)]
        r, o = build.sh(cmd, timeout=200)
        if r == 0:
            e = json.load(open(work + '/rp.json'))['entries'][0]
            if any(w['kind'] == v['kind'] for w in e['violations']): return True, 'schedule replayed on the compiled code of the tree: %s' % v['msg']
        return False, 'schedule did not replay'
    ver, det, _ = native_run(exe, s['entry'], v['inputs'], params, work, 30 if v['kind'] == 'hang' else 20)
    if ver in ('check', 'crash', 'abort', 'hang'): return True, 'the real build: %s %s' % (ver, det)
    if v['kind'] == 'memory' and s.get('trust_memory'): return True, 'memory model'
    return False, 'the real build: %s %s' % (ver, det)

if __name__ == '__main__': main()
