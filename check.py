#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property from the current source under /repo.  For every harness of the
property: compile it to LLVM IR against /repo/src, interpret the IR abstractly with
bin/absint, and look at the obligations that belong to the property.

exit 0   every obligation is discharged (or is a listed known finding)
exit 1   an obligation is not discharged; prints VIOLATION property=.. replay=..
exit 2   no answer: a harness does not compile, an anchor vanished, the engine gave up
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
sys.path.insert(0, HERE)
import props

CLANG = '/usr/lib/llvm-18/bin/clang++'
FLAGS = ['-std=c++11', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-access-control', '-fno-delete-null-pointer-checks',
         '-fno-discard-value-names', '-w', '-D_FILE_OFFSET_BITS=64', '-D__ABC__LINUX=1', '-D__ABC__OPENSSL=1']

class NoAnswer(Exception):
    pass

def compile_harness(h, tmp):
    src = os.path.join(HERE, 'harness', h + '.cpp')
    bc = os.path.join(tmp, h + '.bc')
    r = subprocess.run([CLANG] + FLAGS + ['-I' + REPO + '/src', '-I' + HERE + '/harness', '-c', '-emit-llvm', src, '-o', bc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise NoAnswer('harness %s does not compile against %s/src:\n%s' % (h, REPO, r.stdout[:4000]))
    entries = re.findall(r'\bH_\w+', subprocess.run(['/usr/lib/llvm-18/bin/llvm-nm', '--defined-only', '-P', bc], stdout=subprocess.PIPE, text=True).stdout)
    return bc, entries

# Variants of the fixpoint iteration. Each is sound, so what one of them proves is proved: the
# first one runs on every entry, the others on entries with open obligations.
VARIANTS = [[], ['--wide'], ['--delay', '9', '--cap', '400']]
def variants(h):
    m = re.search(r'^// absint: (.*)$', open(os.path.join(HERE, 'harness', h + '.cpp')).read(), re.M)
    own = m.group(1).split() if m else []
    keep = [o for i, o in enumerate(own) if o in ('--consts', '--sums', '--count', '--recursion') or (i and own[i - 1] in ('--count', '--recursion'))] # what the harness cannot do without
    return [own] + [v for v in ([*keep, *v] for v in VARIANTS) if v != own]

def key_of(o):
    return (o['kind'], o['msg'], o['chain'])

def retry(h, bc, tmp, e, opts):
    for i, v in enumerate(variants(h)[1:]):
        if not e['failed'] and all(o['ok'] for o in e['obligations']):
            break
        d = analyse(h, bc, tmp, '%s.%d' % (e['name'], i), None, opts + v + ['--entry', e['name']])[1]['entries'][0]
        if d['failed']:
            continue
        if e['failed']:
            e = d
            continue
        bad = {key_of(o) for o in d['obligations'] if not o['ok']}
        for o in e['obligations']:
            if not o['ok'] and key_of(o) not in bad:
                o['ok'] = True
    return h, e

def analyse(h, bc, tmp, shard, shards, opts):
    out = os.path.join(tmp, '%s.%s.json' % (h, shard))
    r = subprocess.run([os.path.join(HERE, 'bin', 'absint'), bc, out, '--src', REPO + '/src/', '--models', os.path.join(HERE, 'harness', 'models.txt'), ] + (['--shard', str(shard), str(shards)] if shards else []) + opts,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(out):
        raise NoAnswer('absint failed on harness %s (exit %d):\n%s' % (h, r.returncode, r.stdout[-2000:]))
    return h, json.load(open(out))

def topic_of(o):
    if o['kind'] != 'assert':
        return o['kind']
    m = re.match(r'\[(\w+)\]', o['msg'])
    return m.group(1) if m else 'untagged'

def run(prop, tier):
    t0 = time.time()
    spec = props.PROPS[prop]
    if not os.path.exists(os.path.join(HERE, 'bin', 'absint')):
        subprocess.run(['bash', os.path.join(HERE, 'engine', 'build.sh')], check=True)
    tmp = tempfile.mkdtemp(prefix='vf.')
    try:
        uses = spec['use']
        def opts(h):
            return ['--format'] if any(u[0] == h and u[1] & {'format', 'text'} for u in uses) else []
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            hs = sorted({u[0] for u in uses})
            comp = dict(zip(hs, ex.map(lambda h: compile_harness(h, tmp), hs)))
            jobs = []
            for h in hs:
                n = max(1, min(len(comp[h][1]), os.cpu_count() or 4))
                jobs += [ex.submit(analyse, h, comp[h][0], tmp, i, n, opts(h) + variants(h)[0]) for i in range(n)]
            res, again = {}, []
            for j in jobs:
                h, d = j.result()
                for e in d['entries']:
                    if e['failed'] or any(not o['ok'] and any(u[0] == h and topic_of(o) in u[1] for u in uses) for o in e['obligations']):
                        again.append(ex.submit(retry, h, comp[h][0], tmp, e, opts(h)))
                    else:
                        res.setdefault(h, []).append(e)
            for j in again:
                h, e = j.result()
                res.setdefault(h, []).append(e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    obls, viol, entries, fns, unmod = [], [], 0, set(), set()
    states = 0
    for h, topics, ent in [(u + ('.',))[:3] for u in uses]:
        got = {e['name'] for e in res[h]}
        missing = set(comp[h][1]) - got
        if missing:
            raise NoAnswer('harness %s: entries not analysed: %s' % (h, ', '.join(sorted(missing))))
        sel = [e for e in res[h] if re.search(ent, e['name'])]
        if not sel:
            raise NoAnswer('harness %s has no entry matching %s' % (h, ent))
        for e in sel:
            entries += 1
            states += e['states']
            fns.update(e['functions'])
            unmod.update(e['unmodelled'])
            if e['failed']:
                raise NoAnswer('analysis of %s/%s failed: %s' % (h, e['name'], e['error']))
            mine = 0
            for o in e['obligations']:
                if topic_of(o) not in topics:
                    continue
                mine += 1
                o = dict(o, harness=h, entry=e['name'])
                obls.append(o)
                if not o['ok']:
                    viol.append(o)
            reached = {k: v for k, v in e['reach'].items()}
            for k, v in reached.items():
                if not v:
                    if k.startswith('must:') and not spec.get('noreach'):
                        o = {'kind': 'reach', 'msg': k[5:], 'loc': h, 'fn': e['name'], 'chain': '', 'ok': False, 'trivial': False, 'states': 0, 'witness': 'no path of the source reaches this outcome', 'harness': h, 'entry': e['name']}
                        obls.append(o); viol.append(o)
            if not any(reached.values()) and not viol:
                raise NoAnswer('%s/%s: no path reaches the end of the harness' % (h, e['name']))
        if not any(o['harness'] == h for o in obls) and not spec.get('noreach'):
            raise NoAnswer('harness %s: no obligation of topic %s was generated' % (h, ','.join(topics)))
    nontriv = sum(not o['trivial'] for o in obls)
    if nontriv < spec.get('min', 1):
        raise NoAnswer('only %d obligations with content, at least %d expected' % (nontriv, spec.get('min', 1)))
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['findings'] if k['property'] == prop]
    fresh, hit = [], {}
    for o in viol:
        for i, k in enumerate(known):
            if all(re.search(k[f], o[f]) for f in ('harness', 'entry', 'kind', 'fn', 'msg') if f in k):
                hit.setdefault(i, []).append(o)
                break
        else:
            fresh.append(o)
    for i in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[i]['what']))
    level = 'proof' if not spec.get('level') else spec['level']
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': level, 'wall_s': 0, 'violations': len(fresh),
          'coverage': {'obligations': len(obls), 'discharged': sum(o['ok'] for o in obls), 'nontrivial_obligations': nontriv,
                       'checker_cmd': 'python3 check.py %s --tier %s' % (prop, tier),
                       'trusted_base': ['clang 18 front end (C++ to LLVM IR)', 'engine/absint (transfer functions, joins, inlining)', 'models of the external functions in harness/'],
                       'explanation': spec.get('explain', '') + ' Every obligation is decided by abstract interpretation of the LLVM IR of the current source, entered through the harness entries below; nothing is executed.',
                       'known_findings': sum(len(v) for v in hit.values()),
                       'harnesses': hs, 'entries': entries, 'abstract_states': states, 'functions_analysed': sorted(fns), 'opaque_calls': sorted(unmod),
                       'samples': [{k: o[k] for k in ('harness', 'entry', 'kind', 'msg', 'loc', 'fn', 'ok')} for o in (fresh + [o for o in obls if not o['trivial']])[:12]]}}
    if level == 'other':
        pass
    ev['assumptions'] = spec.get('assume', [])
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d entries, %d functions of the library, %d obligations (%d with content), %d discharged, %d abstract states, %.1f s' % (prop, entries, len(fns), len(obls), nontriv, ev['coverage']['discharged'], states, ev['wall_s']))
    if fresh:
        rp = os.path.join('evidence', prop + '.violation.json')
        json.dump(fresh, open(os.path.join(HERE, rp), 'w'), indent=1)
        for o in fresh[:20]:
            print('  %s: %s\n     at %s\n     %s' % (o['kind'], o['msg'], o['chain'] or o['loc'], o['witness'][:300]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0

if __name__ == '__main__':
    p = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    try:
        sys.exit(run(p, tier))
    except NoAnswer as e:
        print('NO ANSWER property=%s: %s' % (p, e))
        sys.exit(2)
