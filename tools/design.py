#!/usr/bin/env python3
"""design.py: DESIGN.md from tools/design/*.md, tools/design/how.py, props.py, known_findings.json and tools/catches.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(H, 'tools', 'design')
rd = lambda *p: open(os.path.join(*p)).read()
ns = {}; exec(rd(H, 'props.py'), ns); hw = {}; exec(rd(D, 'how.py'), hw)
out = [rd(D, 'head.md')]
out.append('## Property by property\n')
for id in sorted(ns['PROPS']):
    p = ns['PROPS'][id]; how, oracle, bound = hw['HOW'][id]
    use = ', '.join('`%s`' % u[0] for u in p['use']) if id not in ('L01', 'L02') else 'all of them'
    out.append('**%s — %s.** %s *Oracle:* %s *Bounds:* %s *Tests cannot:* %s *Covers:* %s. *Harness:* %s.\n' % (id, p['title'], how, oracle, bound, p['why'], p['text'], use))
out.append('Costs: every quick check takes between 1 and 60 s on 8 cores; thorough runs add the expensive harnesses named DEEP in `check.py` and all option sets.\n')
out.append('## Not applicable\n')
for id in sorted(ns['NA']): out.append('* **%s — %s.** %s %s\n' % (id, ns['NA'][id]['title'], ns['NA'][id]['statement'], ns['NA'][id]['reason']))
c = json.load(open(os.path.join(H, 'tools', 'catches.json'))) if os.path.exists(os.path.join(H, 'tools', 'catches.json')) else {}
out.append('## Planted changes and the checks that catch them\n\nEach was confirmed (builds, stable tests pass, demonstration fails with it and passes without). `tools/catch.py` runs all checks that share a harness with the property.\n\n| change | needs | caught by |\n|---|---|---|')
for b in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', b, 'meta.json')))
    out.append('| %s | %s | %s |' % (b, m['needs'], ', '.join(c.get(b, ['not run'])) or 'none'))
out.append('\n## Genuine defects that were repaired\n')
for f in json.load(open(os.path.join(H, 'known_findings.json')))['fixed']: out.append('* ' + f[len('fixed: property='):])
out.append('')
out.append(rd(D, 'tail.md'))
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len('\n'.join(out).splitlines()), 'lines')
