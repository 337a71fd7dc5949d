#!/usr/bin/env python3
"""catch.py [ids]: apply each planted change to /repo, run the check of its property, undo; tools/catches.json says which caught it.
--all runs every check."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
ids = [a for a in sys.argv[1:] if a[0] != '-'] or sorted(os.listdir(H + '/seeded'))
ns = {}; exec(open(H + '/props.py').read(), ns)
f = H + '/tools/catches.json'; res = json.load(open(f)) if os.path.exists(f) else {}
assert not sh('git -C /repo status --porcelain').stdout.strip()
for b in ids:
    m = json.load(open('%s/seeded/%s/meta.json' % (H, b)))
    if sh('git -C /repo apply %s/seeded/%s/patch.diff' % (H, b)).returncode: print(b, 'DOES NOT APPLY'); continue
    try:
        got = []
        for p in ([m['property']] if '--all' not in sys.argv else sorted(ns['PROPS'])):
            r = sh('cd %s && python3 check.py %s' % (H, p))
            if r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout: got.append(p)
            elif r.returncode not in (0, 1): got.append(p + ' (no answer)')
    finally: sh('git -C /repo checkout -- .')
    res[b] = got; print(b, got, '' if m['property'] in got else 'MISSED', flush=True)
    json.dump(res, open(f, 'w'), indent=1, sort_keys=True)
