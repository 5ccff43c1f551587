#!/usr/bin/env python3
"""Developer tool: mutation campaign. Each mutant that builds, changes object code and passes the stable tests is given to the
checks whose evidence lists the mutated function. Works only in scratch copies under /tmp/mt (user-namespace bind mount for the tests).
usage: mutate.py OUT.jsonl [-k PER_FUNCTION] [-j WORKERS] [-s SEED] [--files a.c,b.c]"""
import json, glob, os, random, re, subprocess, sys, hashlib, threading, queue, shutil
A = sys.argv
def opt(n, d):
    return A[A.index(n) + 1] if n in A else d
OUT = A[1]; K = int(opt('-k', 4)); J = int(opt('-j', 6)); SEED = int(opt('-s', 1)); FILES = opt('--files', None); ALLC = '--all' in A
MT = '/tmp/mt'
fs = {}
wall = {}
for f in glob.glob('/verif/evidence/*.json'):
    e = json.load(open(f)); p = f[9+8:-5] if 0 else os.path.basename(f)[:-5]
    wall[p] = e['wall_s']
    for fn in e['coverage'].get('functions', []):
        fs.setdefault(fn.split('.')[0], set()).add(p)
STRUCT = ['I01', 'I02', 'I03']
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def functions(path):
    L = open(path).read().split('\n'); out = []; name = None; start = None; i = 0
    for n, l in enumerate(L):
        if name is None:
            if re.match(r'^[A-Za-z_].*', l) and not re.match(r'^(typedef|struct|enum|extern|#|namespace)', l):
                m = re.search(r'\b([A-Za-z_]\w*)\s*\(', l)
                if m: pend = m.group(1)
            if l.endswith('{') and not re.match(r'^\s*(struct|enum|typedef|static const|union|extern|namespace)', l) and '=' not in l and (l[0:1] not in (' ',) or ')' in l):
                name = locals().get('pend'); start = n + 1
        elif l.startswith('}'):
            out.append((name, start, n)); name = None
    return L, out
REL = {'<': ['<=', '>'], '<=': ['<', '>='], '>': ['>=', '<'], '>=': ['>', '<='], '==': ['!='], '!=': ['==']}
def mutants(l):
    r = []
    c = re.sub(r'//.*$', '', l)
    c = re.sub(r'/\*.*?\*/', lambda m: ' ' * len(m.group()), c)
    st = [(m.start(), m.end()) for m in re.finditer(r'"[^"]*"', c)]
    ins = lambda a: any(x <= a < y for x, y in st)
    for m in re.finditer(r'(?<![<>=!\-+*/&|^])(<=|>=|==|!=|<|>)(?![<>=])', c):
        if ins(m.start()) or '#include' in c: continue
        for n in REL[m.group()]: r.append((m.start(), m.end(), n))
    for m in re.finditer(r'(?<=[\w\)\]] )([+\-*/])(?= [\w\(\-&*])', c):
        if ins(m.start()): continue
        for n in {'+': '-', '-': '+', '*': '/', '/': '*'}[m.group()]: r.append((m.start(), m.end(), n))
    for m in re.finditer(r'(\+=|-=)', c):
        r.append((m.start(), m.end(), '-=' if m.group() == '+=' else '+='))
    for m in re.finditer(r'&&|\|\|', c):
        r.append((m.start(), m.end(), '||' if m.group() == '&&' else '&&'))
    for m in re.finditer(r'<<|>>', c):
        r.append((m.start(), m.end(), '>>' if m.group() == '<<' else '<<'))
    for m in re.finditer(r'(?<=[\w\)] )([&|])(?= [\w\(])', c):
        r.append((m.start(), m.end(), '|' if m.group() == '&' else '&'))
    for m in re.finditer(r'(?<![\w.])(\d+)(?:[uUlL]*)(?![\w.])', c):
        if ins(m.start()): continue
        v = int(m.group(1), 10); 
        for n in ([v + 1, v - 1] if v > 0 else [1]): r.append((m.start(1), m.end(1), str(n)))
    for m in re.finditer(r'(?<![\w.])(\d+\.\d*(?:[eE][-+]?\d+)?)', c):
        if ins(m.start()): continue
        v = float(m.group(1)); r.append((m.start(1), m.end(1), repr(v * 1.001 if v else 1.0)))
    for m in re.finditer(r'!(?=[\w\(])', c):
        r.append((m.start(), m.end(), ''))
    for m in re.finditer(r'\b(true|false)\b', c):
        r.append((m.start(), m.end(), 'false' if m.group() == 'true' else 'true'))
    for m in re.finditer(r'\b(break|continue);', c):
        r.append((m.start(), m.end(), ';'))
    for m in re.finditer(r'\b(sin|cos)(?=\()', c):
        r.append((m.start(), m.end(), 'cos' if m.group() == 'sin' else 'sin'))
    if re.match(r'^\s+[A-Za-z_*(][^;]*;\s*$', c) and not re.match(r'^\s*(return|break|continue|static|const|typedef|for|struct)\b', c) and not re.match(r'^\s*(const |unsigned |struct )?[A-Za-z_]\w* \**\w+( =|;|\[)', c):
        a = len(c) - len(c.lstrip()); r.append((a, len(c), ';'))
    return r
def allmut():
    rnd = random.Random(SEED); out = []
    files = sorted(glob.glob('/repo/src/*.c'))
    if FILES: files = [f for f in files if os.path.basename(f) in FILES.split(',')]
    for f in files:
        L, F = functions(f)
        for name, a, b in F:
            c = []
            for n in range(a, b):
                if L[n].lstrip().startswith(('*', '/*', '#', '//', 'log_', 'assert', 'DEBUG')): continue
                for x in mutants(L[n]): c.append((f, name, n) + x)
            rnd.shuffle(c)
            out += c[:max(K, (b - a) * K // 40)]
    rnd.shuffle(out)
    return out
def sh(c, t=300, **k):
    try:
        p = subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, **k); return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return 124, 'timeout'
def sig(w, f):
    o = glob.glob('%s/_build/**/%s.o' % (w, os.path.basename(f)), recursive=True)
    h = hashlib.sha1()
    for x in sorted(o):
        h.update(subprocess.run("objdump -d -r -s -j .text -j .rodata -j .data -j .rodata.cst8 -j .rodata.cst16 -j .rodata.cst4 %s | sed 1,3d" % x, shell=True, capture_output=True).stdout)
    return h.hexdigest()
def ns(w, cmd, t=300):
    return sh("timeout -k 2 %d unshare -Urm bash -c 'mount --bind %s /repo && %s'" % (t, w, cmd), t + 10)
Q = queue.Queue(); lock = threading.Lock(); done = set()
if os.path.exists(OUT):
    for l in open(OUT): d = json.loads(l); done.add((d['file'], d['line'], d['col'], d['new']))
def worker(i):
    w = '%s/w%d' % (MT, i); v = '%s/v%d' % (MT, i)
    for s, d in (('/repo', w), ('/verif', v)):
        shutil.rmtree(d, ignore_errors=True); sh('cp -a %s %s' % (s, d))
    ns(w, 'bash /opt/vp/build.sh')
    base = {}
    while True:
        try: f, name, n, a, b, new = Q.get_nowait()
        except queue.Empty: return
        wf = f.replace('/repo', w, 1); L = open(f).read().split('\n')
        if f not in base: base[f] = sig(w, f)
        old = L[n]; L[n] = old[:a] + new + old[b:]
        open(wf, 'w').write('\n'.join(L))
        r = dict(file=f[10:], fn=name, line=n + 1, col=a, old=old.strip(), new=new, mut=L[n].strip())
        try:
            rc, o = ns(w, 'bash /opt/vp/build.sh', 200)
            if rc: r['st'] = 'nobuild'; continue
            if sig(w, f) == base[f]: r['st'] = 'equiv'; continue
            rc, o = ns(w, 'rm -rf /repo/_build/results; mkdir -p /repo/_build/results; cd /repo/_build/results; CK_DEFAULT_TIMEOUT=20 timeout 60 ../test-swiftnav-common >/dev/null 2>&1; python3 /opt/vp/harness/check_xml.py test_results.xml; timeout 20 ../test-swiftnav-pedantic >/dev/null 2>&1 && echo PASS test-swiftnav-pedantic', 120)
            ps = {x.split(' ', 1)[1].strip() for x in o.split('\n') if x.startswith('PASS ')}
            if stable - ps: r['st'] = 'killed'; continue
            rel = sorted(fs.get(name, set()) - set(STRUCT), key=lambda p: wall.get(p, 0)) + STRUCT
            r['checks'] = rel; r['st'] = 'SURVIVED' if len(rel) > 3 else 'UNCOVERED'
            for p in rel:
                rc, o = sh('timeout 600 python3 check.py %s' % p, 620, cwd=v, env=dict(os.environ, VERIF_REPO=w, VERIF_TIER='quick'))
                if rc == 1: r['st'] = 'caught'; r['by'] = p; break
                if rc: r.setdefault('err', []).append((p, rc, o[-200:]))
        finally:
            shutil.copy(f, wf)
            with lock: open(OUT, 'a').write(json.dumps(r) + '\n')
if __name__ == '__main__':
    os.makedirs(MT, exist_ok=True)
    M = [m for m in allmut() if (m[0][10:], m[2] + 1, m[3], m[5]) not in done]
    print(len(M), 'mutants')
    if '--list' in A: sys.exit()
    for m in M: Q.put(m)
    T = [threading.Thread(target=worker, args=(i,)) for i in range(J)]
    [t.start() for t in T]; [t.join() for t in T]
