#!/usr/bin/env python3
"""bug.py SPEC.py : plant the bugs of SPEC.py (list BUGS of dicts id, property, needs, what, edits=[(file, old, new)], demo=C++ text, san=bool)
into seeded/<id>/ and validate each: demo ok on the clean tree, builds, stable tests pass, demo fails; then which checks fire."""
import json, os, re, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def edit(root, f, old, new):
    p = os.path.join(root, f); s = open(p, newline='').read()
    if '\r\n' in s: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
    n = s.count(old)
    assert n == 1, (f, n, old)
    open(p, 'w', newline='').write(s.replace(old, new))
def ours(diff):
    f, n, bad = None, 0, []
    for l in diff.splitlines():
        if l.startswith('--- a/'): f = l[6:].strip()
        elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            bl = sh('git -C /repo blame -L %d,%d -s HEAD -- %s' % (n, n, f)).stdout
            if not bl.startswith('^'): bad.append((f, n))
            n += 1
        elif l.startswith(' '): n += 1
    return bad
DEMO = '''#!/bin/bash
# exit 0 iff the property's observable behaviour is right
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf -- "$t"' EXIT
g++ -std=c++11 -fno-access-control -g %s -w -D_FILE_OFFSET_BITS=64 -D__ABC__LINUX=1 -D__ABC__OPENSSL=1 -I"$PWD/src" "$d/demo.cpp" -o "$t/demo" -lpthread -lssl -lcrypto || exit 3
cd "$t" && timeout 60 ./demo
'''
def main(spec, only):
    ns = {}; exec(open(spec).read(), ns)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for b in ns['BUGS']:
        if only and b['id'] not in only: continue
        assert not sh('git -C /repo status --porcelain').stdout.strip()
        d = os.path.join(HERE, 'seeded', b['id']); os.makedirs(d, exist_ok=True)
        try:
            for e in b['edits']: edit('/repo', *e)
        except AssertionError as x:
            print(b['id'], 'EDIT FAILS', x); sh('git -C /repo checkout -- .'); continue
        diff = subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        sh('git -C /repo checkout -- .')
        own = ours(diff.decode('latin1'))
        open(d + '/demo.cpp', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write(DEMO % ('-fsanitize=address,undefined -fno-sanitize-recover=undefined' if b.get('san') else ''))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
        if own: print(b['id'], 'TOUCHES OWN LINES', own[:2])
        line = '%s clean-demo=%d' % (b['id'], r0.returncode)
        if r0.returncode: line += ' !!! ' + r0.stdout[-600:]
        a = sh('git -C /repo apply %s/patch.diff' % d)
        try:
            bl = sh('bash /opt/vp/build.sh')
            line += ' build=%d' % bl.returncode + ('' if bl.returncode == 0 else bl.stdout[-800:])
            sh('bash /opt/vp/test.sh /tmp/bug_out.json')
            res = json.load(open('/tmp/bug_out.json'))
            miss = stable - set(res['passed'])
            line += ' tests-missing=%d %s' % (len(miss), sorted(miss)[:4])
            r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
            line += ' bug-demo=%d' % r1.returncode
            c = sh('python3 check.py %s' % b['property'], cwd=HERE)
            line += ' check=%d' % c.returncode
            if c.returncode == 1: line += ' | ' + '; '.join(l.strip()[:150] for l in c.stdout.splitlines() if l.startswith('  ') and ': ' in l and not l.startswith('   '))[:400]
            elif c.returncode: line += ' | ' + c.stdout[-500:]
        finally:
            sh('git -C /repo checkout -- .')
        ok = a.returncode == 0 and r0.returncode == 0 and bl.returncode == 0 and not miss and r1.returncode
        print(('OK   ' if ok else 'BAD  ') + line, flush=True)
    sh('bash /opt/vp/build.sh')
if __name__ == '__main__': main(sys.argv[1], sys.argv[2:])
