"""Writes MANIFEST.json and properties.jsonl from one place."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import props_c
P = list(props_c.P)
try:
    import props_h
    P += props_h.P
except ImportError: props_h = None
TECH = {}
TR = 'TLA+ specification checked with TLC; recorded runs of the real code validated against it'
NOTE = {
 'C01': 'TLC runs the specified matching procedure on every input next to the recorded answer: all pairs of small trees plus seeded random trees up to 130 nodes. Trusts TLC, the harness encoding, and that hashes honour the Merkle contract.',
 'C10': 'Design: every script the contract allows, for every pair of small trees and matching, reproduces the new tree (exhaustive). Code: recorded scripts are executed step by step in the specification.',
}
checks = []
NA = []
for p in P:
    i = p['id']
    if getattr(props_h, 'NA', {}).get(i): NA.append(dict(property=i, reason=props_h.NA[i])); continue
    note = NOTE.get(i) or getattr(props_h, 'NOTE', {}).get(i) or 'Bounded-exhaustive small inputs plus seeded random larger ones; every recorded run of the real code is a behaviour that TLC checks against the specification. Nothing is shown about inputs that were not run.'
    checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i} thorough', evidence_file=f'evidence/{i}.json',
                       technique=getattr(props_h, 'TECH', {}).get(i, TR), level='model_checking', level_note=note))
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=NA)
if getattr(props_h, 'HOOKS', None): m['hooks'] = props_h.HOOKS
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
with open(f'{V}/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
        f.write(json.dumps(p) + '\n')
