#!/usr/bin/env python3
"""quiet.py SPEC.py [ids]: edits that keep the behaviour. Each is applied to a scratch copy of /repo, built and tested,
and the checks (of the listed properties) must stay quiet on it."""
import concurrent.futures, json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from bug import edit, sh
def main(spec, only):
    ns = {}; exec(open(spec).read(), ns)
    for b in ns['EDITS']:
        if only and b['id'] not in only: continue
        t = tempfile.mkdtemp(prefix='quiet.')
        try:
            sh('cp -a /repo/src /repo/test %s/' % t)
            try:
                for e in b['edits']: edit(t, *e)
            except AssertionError as x:
                print(b['id'], 'EDIT FAILS', x); continue
            for p in b['props']:
                r = sh('python3 %s/check.py %s' % (HERE, p), env=dict(os.environ, VF_REPO=t))
                last = r.stdout.strip().split('\n')
                msg = '' if r.returncode == 0 else ' | ' + ' ; '.join(last)[:700]
                print('%-4s %s %s %d%s' % ('ok' if r.returncode == 0 else 'BAD', b['id'], p, r.returncode, msg), flush=True)
        finally:
            shutil.rmtree(t, ignore_errors=True)
if __name__ == '__main__': main(sys.argv[1], sys.argv[2:])
