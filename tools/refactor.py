#!/usr/bin/env python3
"""Developer tool: behaviour preserving edits; every check that analyses the edited functions has to stay quiet.
usage: refactor.py DATA.py [-j N] [name...]     DATA.py: RF = [(name, file, [(old, new)...], 'fn fn')...]"""
import glob, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = '/verif'
A = sys.argv[1:]
J = 4
if '-j' in A: J = int(A[A.index('-j') + 1]); del A[A.index('-j'):A.index('-j') + 2]
ns = {}
exec(open(A[0]).read(), ns)
fs = {}
for f in glob.glob(V + '/evidence/*.json'):
    e = json.load(open(f))
    for fn in e['coverage'].get('functions', []): fs.setdefault(fn.split('.')[0], set()).add(os.path.basename(f)[:-5])
def one(t):
    name, file, edits, fns = t
    w = '/tmp/rfw_' + name; v = w + '_v'
    for d, s in ((w, '/repo'), (v, V)):
        shutil.rmtree(d, ignore_errors=True); subprocess.run(['cp', '-a', s, d])
    out = []
    try:
        for e in edits:
            fl, o, n = (file,) + e if len(e) == 2 else e
            p = w + '/' + fl; s = open(p).read()
            if s.count(o) < 1: return '%s: EDIT DOES NOT APPLY %r' % (name, o[:60])
            open(p, 'w').write(s.replace(o, n))
        p = subprocess.run("timeout 200 unshare -Urm bash -c 'mount --bind %s /repo && bash /opt/vp/test.sh %s/t.json'" % (w, v), shell=True, capture_output=True, text=True)
        try:
            miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open(v + '/t.json'))['passed'])
        except Exception: miss = {'no result'}
        if miss: return '%s: TESTS FAIL %s %s' % (name, sorted(miss)[:3], '\n'.join(x for x in (p.stdout + p.stderr).split('\n') if 'error' in x)[:300])
        cs = sorted(set().union(*[fs.get(f, set()) for f in fns.split()]) | {'I01', 'I02', 'I03'})
        for c in cs:
            r = subprocess.run('timeout 900 python3 check.py ' + c, shell=True, capture_output=True, text=True, cwd=v, env=dict(os.environ, VERIF_REPO=w))
            if r.returncode: out.append('  %s rc=%d\n      %s' % (c, r.returncode, '\n      '.join(x[:400] for x in (r.stdout + r.stderr).strip().split('\n')[:4])))
        return '%s: %s' % (name, 'quiet ' + ' '.join(cs) if not out else 'ALARM\n' + '\n'.join(out))
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(v, ignore_errors=True)
with ThreadPoolExecutor(J) as ex:
    for r in ex.map(one, [t for t in ns['RF'] if len(A) < 2 or t[0] in A[1:]]): print(r, flush=True)
