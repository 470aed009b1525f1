#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from sym/props.py and properties.jsonl (run by hand after editing)."""
import json, os, sys, subprocess
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(R, 'sym'))
import props as P
ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
hooks = [l.split()[0] for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H %s'], text=True).splitlines() if 'verification hooks' in l]
checks, na = [], []
for i in ids:
    s = P.PROPS.get(i)
    if s is None:
        na.append(dict(property=i, reason=getattr(P, 'NA', {}).get(i, 'check under construction')))
        continue
    cmd = s.get('cmd', 'python3-vt sym/check.py %s' % i)
    checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd=cmd, evidence_file='evidence/%s.json' % i,
                       technique=s.get('technique', 'symbolic execution of the LLVM IR compiled from /repo, z3 decides every assertion; native replay'),
                       level=s['level'], level_note='Bounded: ' + s['bounds'] + '. Outside: ' + (s['outside'] or '-') + '. Assumes: ' + '; '.join(P.ASSUME_COMMON + s['assumptions'] if not s.get('own') else s['assumptions'])))
json.dump(dict(version=1, setup_cmd='bash setup.sh',
               hooks=dict(guard='latke_verif', enable="RUSTFLAGS='--cfg latke_verif' (set by the checks' own build)", source_commits=hooks[::-1]),
               checks=checks, not_applicable=na,
               notes='Every check rebuilds from /repo, symbolically executes the result and writes evidence/<id>.json; VERIF_TIER=thorough adds scenarios.'),
          open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
