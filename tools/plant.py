#!/usr/bin/env python3
"""plant.py <bug id>... [--check] [--all-checks]: confirms planted bugs in /repo (apply, build, stable tests, demo, undo)
and, with --check, runs the check of the bug's property (--all-checks: all claimed checks) against them."""
import json, os, subprocess, sys
V = '/verif'
def sh(c, t=900, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
def stable():
    o = '/tmp/plant-test.json'
    sh(f'bash /opt/vp/test.sh {o}')
    return json.load(open(o))
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(f'{V}/seeded'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo is dirty'
    for b in ids:
        d = f'{V}/seeded/{b}'; meta = json.load(open(f'{d}/meta.json'))
        res = {}
        try:
            r = sh(f'bash {d}/demo.sh', cwd='/repo'); res['demo0'] = r.returncode
            if r.returncode: print(r.stdout[-1500:])
            r = sh(f'git -C /repo apply {d}/patch.diff')
            if r.returncode: print(b, 'patch does not apply', r.stdout); continue
            r = sh('bash /opt/vp/build.sh'); res['build'] = r.returncode
            if r.returncode: print(r.stdout[-1500:])
            t = stable()
            res['tests'] = {k: t[k] if not isinstance(t[k], list) else len(t[k]) for k in t} if isinstance(t, dict) else t
            r = sh(f'bash {d}/demo.sh', cwd='/repo'); res['demo1'] = r.returncode
            if '--check' in sys.argv or '--all-checks' in sys.argv:
                props = [meta['property']] if '--all-checks' not in sys.argv else [c['property'] for c in json.load(open(f'{V}/MANIFEST.json'))['checks']]
                for p in props:
                    r = sh(f'python3 check.py {p}', cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
                    res[p] = {0: 'quiet', 1: 'CAUGHT'}.get(r.returncode, f'ERROR {r.returncode} {r.stdout[-300:]}')
        finally:
            sh('git -C /repo checkout -- .')
        ok = res.get('demo0') == 0 and res.get('build') == 0 and res.get('demo1') not in (0, None)
        print(b, meta['property'], 'VALID' if ok else 'INVALID', res, flush=True)
    sh('bash /opt/vp/build.sh')
main()
