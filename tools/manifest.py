"""Rewrites MANIFEST.json from the property files present in props/ (python3-vt tools/manifest.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V + '/lib', V + '/tools']
import importlib.util
NA = dict(l.strip().split(' ', 1) for l in open(V + '/tools/not_applicable.txt') if l.strip())
checks = []; na = []
for l in open(V + '/properties.jsonl'):
    pid = json.loads(l)['id']; p = V + '/props/%s.py' % pid
    if pid in NA or not os.path.exists(p):
        na.append(dict(property=pid, reason=NA.get(pid, 'contracts not written yet'))); continue
    spec = importlib.util.spec_from_file_location('p', p); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    lv = getattr(m, 'LEVEL', 'proof')
    checks.append(dict(property=pid, quick_cmd='python3-vt run.py ' + pid, thorough_cmd='VERIF_TIER=thorough python3-vt run.py ' + pid, evidence_file='evidence/%s.json' % pid,
        technique=getattr(m, 'TECHNIQUE', 'deductive verification: contracts on the functions extracted from /repo, obligations discharged by z3/cvc5; counterexample search with a concrete harness linked against the same sources'), level=lv,
        level_note=getattr(m, 'NOTE', (m.__doc__ or '').strip().split('\n')[0])))
json.dump(dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='', enable='', source_commits=[]), checks=checks, not_applicable=na,
    notes='Checks read only /repo, /verif and system tools; see DESIGN.md.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
