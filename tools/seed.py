#!/usr/bin/env python3
"""Developer tool: make and validate one planted bug.
usage: seed.py new FILE.py   (FILE.py defines id, prop, edits=[(file, old, new)...], demo (C source), needs, breaks)
       seed.py test ID [--check]"""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
SH = '''#!/bin/bash
# run with cwd = the repository, after it has been built
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
gcc -std=gnu11 -g -w -UNDEBUG -I include -I _build -I src/include -DMAX_CHANNELS=63 "$d/demo.c" _build/libswiftnav.a -lm -lpthread -o "$w/demo" || exit 2
timeout 120 "$w/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def new(f):
    ns = {}
    exec(open(f).read(), ns)
    d = '%s/seeded/%s' % (V, ns['id'])
    assert not sh('git -C %s status --porcelain -uno' % R).stdout.strip(), 'repo dirty'
    os.makedirs(d, exist_ok=True)
    for p, o, n in ns['edits']:
        s = open(R + '/' + p).read()
        assert s.count(o) == 1, (p, s.count(o), o)
        open(R + '/' + p, 'w').write(s.replace(o, n))
    df = sh('git -C %s diff' % R).stdout
    sh('git -C %s checkout -- .' % R)
    open(d + '/patch.diff', 'w').write(df)
    cxx = ns.get('cxx')
    open(d + ('/demo.cpp' if cxx else '/demo.c'), 'w').write(ns['demo'].lstrip())
    open(d + '/demo.sh', 'w').write(SH.replace('gcc -std=gnu11', 'g++ -std=gnu++14').replace('demo.c"', 'demo.cpp"') if cxx else SH)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=ns['prop'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(d + '/meta.json', 'w'), indent=1)
    return ns['id']


def test(i, check=True):
    d = '%s/seeded/%s' % (V, i)
    prop = json.load(open(d + '/meta.json'))['property']
    r = sh('bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh' % d, cwd=R)
    print(i, 'clean demo', r.returncode, (r.stdout + r.stderr)[-300:] if r.returncode else '')
    ok = r.returncode == 0
    a = sh('git -C %s apply %s/patch.diff' % (R, d))
    assert a.returncode == 0, a.stderr
    try:
        b = sh('bash /opt/vp/build.sh')
        if b.returncode:
            print('BUILD FAILS', b.stdout[-500:])
            return
        r = sh('bash %s/demo.sh' % d, cwd=R)
        print(i, 'patched demo', r.returncode, (r.stdout + r.stderr)[-300:].strip())
        ok &= r.returncode != 0
        t = sh('bash %s/engine/t.sh' % V)
        print(i, t.stdout.strip()[:300])
        if check:
            c = sh('timeout 900 python3 check.py %s' % prop, cwd=V)
            print(i, 'check', prop, 'exit', c.returncode)
            print('   ', '\n    '.join(x[:230] for x in c.stdout.strip().split('\n')[-4:]))
    finally:
        sh('git -C %s checkout -- .' % R)
        sh('bash /opt/vp/build.sh')


if sys.argv[1] == 'new':
    for f in sys.argv[2:]:
        test(new(f))
else:
    for i in sys.argv[2:]:
        if not i.startswith('--'):
            test(i)
