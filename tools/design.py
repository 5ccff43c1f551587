#!/usr/bin/env python3
"""Write sections 5 (per property) and 6 (planted bugs) of DESIGN.md from meta, props, evidence and seeded."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'tools')]
import props, meta
p = os.path.join(V, 'DESIGN.md')
s = open(p).read().split('\n## 5. Per property')[0].rstrip('\n')
o = ['', '', '## 5. Per property', '',
     'Oracle: the reference written in `spec/FILE`; harness names are `h_NAME`. Cost: seconds and obligations of the last quick run here',
     '(written by tools/design.py from the evidence). Every check sees all inputs of its domain at once, which is what the sampled unit tests',
     'cannot do; the domain is what the line says.', '']
for m in meta.META:
    i = m['id']
    if i not in props.PROPS:
        o.append('* **%s** %s — not applicable: %s' % (i, m['title'], m['na']))
        continue
    q = props.PROPS[i]
    fs = {}
    for h in q['hs']:
        fs.setdefault(h[0], []).append(h[1].replace('h_', '', 1))
    how = '; '.join('%s: %s' % (f, ' '.join(n)) for f, n in fs.items()) or 'engine/structural.py'
    th = [h[1].replace('h_', '', 1) for h in q.get('thorough', ())]
    e = {}
    f = os.path.join(V, 'evidence', i + '.json')
    if os.path.exists(f):
        e = json.load(open(f))
    c = ' %.0f s, %d obligations, %d functions.' % (e['wall_s'], e['coverage']['obligations'], len(e['coverage']['functions'])) if e else ''
    o.append('* **%s** %s. %s. Domain: %s%s [%s]%s%s' % (i, m['title'], q['how'][0].upper() + q['how'][1:], m['quant'],
             ' Limits: ' + m['limits'] if m.get('limits') else '', how, ' thorough adds: ' + ' '.join(th) + '.' if th else '', c))
o += ['', '## 6. Planted bugs', '',
      'Each was confirmed to build, pass the stable tests and fail its demonstration; the check named is the one that reports it.', '',
      '| planted bug | property | needs | reported |', '|---|---|---|---|']
MISSED = {'r01-stale-context': 'after R01 registered receivers without a context', 'e09-alm-rate': 'after E09 got almanacs whose week is not known', 'o01-lock-top': 'after O01 was extended to the highest code of the table', 'l02-pivot-sign': 'after L02 got monomial matrices (every pivot order and sign)',
          'p03-stale-exclusion': 'after P03 got two competing exclusions (h_choose) and a second exclusion (h_twice)'}
try:
    MISSED.update(json.load(open(os.path.join(V, 'tools', 'missed.json'))))
except OSError:
    pass
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    k = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    o.append('| %s | %s | %s | %s |' % (n, k['property'], k['needs'].replace('|', '/'), MISSED.get(n, 'at once')))
o += [x.rstrip() for x in open(os.path.join(V, 'tools', 'design_tail.md')).read().rstrip('\n').split('\n')]
open(p, 'w').write(s + '\n'.join(o) + '\n')
