"""Write properties.jsonl and MANIFEST.json from lib/props.py and lib/checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = [p for p in props.PROPS if p['id'] in checks.CHECKS]
rest = [p for p in props.PROPS if p['id'] not in checks.CHECKS] 
assert not rest, [p['id'] for p in rest]
with open(V + '/properties.jsonl', 'w') as f:
    for p in claimed + props.NA: f.write(json.dumps(p) + '\n')
def note(pid):
    c = checks.CHECKS[pid]; st = []
    py = 'python' in c
    for s in c['stages']:
        if s.get('thorough_only'): continue
        b = ' '.join('%s=%s' % kv for kv in s['params'].items() if kv[0] not in ('weakhash', 'max_instr')) if s.get('params') else ''
        st.append(s['entry'] + (' (' + b + ')' if b else ''))
    if py: return ('Bounded: every path of the Python code through the entries [%s] is executed by the interpreter with values that are Z3 terms, Z3 deciding forks and checks for all values (and for every scoring function); sizes beyond are outside. Trusts CPython, numpy, the executor lib/pysym.py and the stand-ins' + (' for libgbdt, pandas, matplotlib and graphviz' if pid == 'C23' else ': ' + c['assumptions']) + '; a counterexample is re-executed with concrete values before it is reported, sampled passing paths too.').replace('%s', '; '.join(st), 1)
    return 'Bounded: every path within the harness bounds [%s] is decided by Z3 over all values; larger sizes are outside. Trusts clang, the symbolic engine in /verif/engine and the library stubs; every counterexample is replayed on the native build (schedules on the compiled bitcode) before it is reported, and sampled passing paths are re-executed natively.' % '; '.join(st)
m = dict(version=1, setup_cmd='python3 lib/setup.py', checks=[dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'], thorough_cmd='./check.sh %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'], technique='symbolic execution of the Python source of the tree, Z3 deciding every path (SMT)' if 'python' in checks.CHECKS[p['id']] else 'symbolic execution of the LLVM IR of the tree, Z3 deciding every path (SMT)', level='model_checking', level_note=note(p['id'])) for p in claimed],
  not_applicable=[dict(property=p['id'], reason=props.NA_REASON[p['id']]) for p in props.NA],
  notes='No hooks in /repo. Commits in /repo are fix: commits only; see known_findings.json and DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
