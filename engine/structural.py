"""Effect rules decided on the linked LLVM module of the library and on the declarations of its public headers.

A value is described by the set of memory roots it may point to: a mutable global, a parameter of the function, or nothing of interest (stack,
constants, loaded pointers).  Effects of a function are the roots it may write; calls substitute the argument roots (fixpoint over the call
graph).  A loaded pointer cannot designate a mutable global because storing the address of one is itself reported."""
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import build
import ll

# public functions whose purpose is to change the configuration of the library
CONFIG = {'glo_map_init', 'glo_map_set_slot_id', 'glo_map_clear_slot_id', 'glo_map_clear_all', 'glo_map_fill_dummy_data', 'logging_set_implementation',
          'swiftnav_subsystem_status_report_callback_register', 'swiftnav_subsystem_status_report_callback_deregister',
          'swiftnav_subsystem_status_report_callback_reset'}
MATH = '''acos asin atan atan2 cos sin tan sincos acosh asinh atanh cosh sinh tanh exp exp2 expm1 log log10 log2 log1p logb ilogb pow sqrt cbrt hypot erf erfc ceil
floor trunc round lround llround rint lrint llrint nearbyint fmod remainder remquo fdim fmax fmin fabs fma frexp ldexp modf scalbn scalbln copysign nan nextafter
isnan isinf finite signbit abs labs llabs div ldiv lldiv'''.split()
OK_EXT = set(MATH) | {m + 'f' for m in MATH} | {m + 'l' for m in MATH} | set('''memcpy memmove memset memcmp memchr memrchr memmem strlen strnlen strcmp strncmp strchr strrchr
strstr strspn strcspn strpbrk strcpy strncpy strcat strncat strcasecmp strncasecmp stpcpy fprintf vfprintf printf vprintf snprintf vsnprintf sprintf vsprintf fputs fputc fwrite
puts putchar bsearch __assert_fail abort strtol strtoul strtoll strtoull strtod'''.split())
NOT_REENTRANT = set('strtok localtime gmtime asctime ctime rand srand random srandom drand48 mktime getenv setenv setlocale strerror lgamma'.split())
HEAP = set('malloc calloc realloc free aligned_alloc posix_memalign strdup strndup reallocarray'.split())
WRITES = {'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'strcpy': (0,), 'strncpy': (0,), 'strcat': (0,), 'strncat': (0,), 'snprintf': (0,), 'vsnprintf': (0,),
          'sprintf': (0,), 'vsprintf': (0,), 'stpcpy': (0,), 'modf': (1,), 'modff': (1,), 'frexp': (1,), 'frexpf': (1,), 'remquo': (2,), 'sincos': (1, 2),
          'strtol': (1,), 'strtoul': (1,), 'strtod': (1,), 'strtoll': (1,), 'strtoull': (1,)}
RETURNS0 = {'memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'strcat', 'strncat', 'strchr', 'strrchr', 'memchr', 'strstr', 'strpbrk', 'stpcpy', 'bsearch'}


class Effects:
    def __init__(self):
        self.path, self.units = build.build([])
        try:
            self.mod = ll.Module(self.path)
            self.solve()
        finally:
            shutil.rmtree(os.path.dirname(self.path), ignore_errors=True)

    def croots(self, c, out):
        k = c[0]
        if k == 'global':
            if not c[1].const:
                out.add(('g', c[1].name))
        elif k == 'gep':
            self.croots(c[2][0], out)
        elif k == 'cexpr':
            for o in c[3]:
                self.croots(o, out)
        elif k == 'agg':
            for o in c[2]:
                self.croots(o, out)
        return out

    def solve(self):
        m = self.mod
        self.fns = {n: f for n, f in m.funcs.items() if not f.decl}
        # addresses of mutable globals in initialisers
        self.escapes = []
        for g in m.globals.values():
            c = m.init(g)
            if c is not None:
                for r in self.croots(c, set()) - {('g', g.name)} if c[0] != 'global' else self.croots(c, set()):
                    if r[1] != g.name and not m.globals[r[1]].name.startswith('.str'):
                        self.escapes.append((r[1], 'the initialiser of %s' % g.name, '', 0))
        for f in self.fns.values():
            m.body(f)
        self.writes = {n: {} for n in self.fns}    # root -> (file, line, via)
        self.ret = {n: set() for n in self.fns}    # roots returned
        self.reads = {n: set() for n in self.fns}
        self.calls = {n: {} for n in self.fns}
        self.indirect = {n: [] for n in self.fns}
        self.ext = {n: {} for n in self.fns}
        self.nstores = 0
        self.cb_args = []
        changed = True
        rounds = 0
        while changed:
            changed = False
            rounds += 1
            self.nstores = 0
            for n, f in self.fns.items():
                changed |= self.one(n, f, rounds == 1)
        self.rounds = rounds

    def one(self, n, f, first):
        vals = {}

        def roots(o):
            if o[0] == 'v':
                if o[1][0] == 'a':
                    return {('p', o[1][1])}
                return vals.get(o[1], set())
            if o[0] == 'c':
                return self.croots(o[1], set())
            return set()
        ch = False
        W = self.writes[n]

        def write(rs, i, via=None):
            nonlocal ch
            for r in rs:
                if r not in W:
                    W[r] = (i.file or f.file, i.line, via)
                    ch = True
        again = True
        while again:
            again = False
            for b in f._body:
                for i in b.instrs:
                    op = i.op
                    r = None
                    if op in ('getelementptr', 'bitcast', 'addrspacecast', 'freeze', 'inttoptr', 'ptrtoint', 'extractvalue'):
                        r = set(roots(i.ops[0]))
                    elif op in ('phi', 'select', 'insertvalue') or (op in ('add', 'sub', 'and', 'or', 'xor')):
                        r = set()
                        for o in i.ops[1:] if op == 'select' else i.ops:
                            r |= roots(o)
                    elif op == 'call':
                        c = i.x[0]
                        r = set()
                        if c[0] == 'func':
                            cn = c[1].name
                            base = cn.split('.')[1] if cn.startswith('llvm.') else cn
                            if cn in self.ret:
                                for q in self.ret[cn]:
                                    r |= roots(i.ops[q[1]]) if q[0] == 'p' and q[1] < len(i.ops) else {q} if q[0] == 'g' else set()
                            elif base in RETURNS0:
                                r = set(roots(i.ops[0]))
                    if r:
                        o = vals.get(i.id, set())
                        if not r <= o:
                            vals[i.id] = o | r
                            again = True
        for b in f._body:
            for i in b.instrs:
                op = i.op
                if op == 'store':
                    self.nstores += 1
                    write(roots(i.ops[1]), i)
                    for r in roots(i.ops[0]):
                        # the address of a global is kept somewhere
                        if r[0] == 'g' and first:
                            self.escapes.append((r[1], n, i.file or f.file, i.line))
                elif op in ('atomicrmw', 'cmpxchg'):
                    write(roots(i.ops[0]), i)
                elif op == 'load':
                    self.reads[n] |= {r for r in roots(i.ops[0]) if r[0] == 'g'}
                elif op == 'ret' and i.ops:
                    q = {r for r in roots(i.ops[0])}
                    if not q <= self.ret[n]:
                        self.ret[n] |= q
                        ch = True
                elif op == 'call':
                    c = i.x[0]
                    if c[0] == 'func':
                        cn = c[1].name
                        if cn in self.fns:
                            self.calls[n].setdefault(cn, (i.file or f.file, i.line))
                            for q in list(self.writes[cn]):
                                if q[0] == 'g':
                                    write([q], i, cn)
                                elif q[1] < len(i.ops) and not i.x[1][q[1]]:
                                    write(roots(i.ops[q[1]]), i, cn)
                            q = self.reads[cn] - self.reads[n]
                            if q:
                                self.reads[n] |= q
                                ch = True
                        else:
                            base = cn.split('.')[1] if cn.startswith('llvm.') else cn
                            if not cn.startswith('llvm.') or base in WRITES:
                                for k in WRITES.get(base, ()):
                                    if k < len(i.ops):
                                        write(roots(i.ops[k]), i, cn)
                            if not cn.startswith('llvm.'):
                                self.ext[n].setdefault(cn, (i.file or f.file, i.line))
                            # functions handed over are called
                            for o in i.ops:
                                if o[0] == 'c' and o[1][0] == 'func' and o[1][1].name in self.fns:
                                    self.calls[n].setdefault(o[1][1].name, (i.file or f.file, i.line))
                    elif first:
                        self.indirect[n].append((i.file or f.file, i.line))
                        for k, o in enumerate(i.ops):
                            for r in roots(o):
                                if r[0] == 'g':
                                    self.escapes.append((r[1], n, i.file or f.file, i.line))
        return ch


def rel(f):
    return f[len(build.REPO) + 1:] if f and f.startswith(build.REPO + '/') else os.path.basename(f or '?') if not f or f.startswith('/') else f


def api():
    """public functions: name -> (header, line, [(type of parameter)])"""
    hs = sorted(glob.glob(os.path.join(build.REPO, 'include', 'swiftnav', '*.h')))
    inc = os.path.join(build.REPO, 'include')
    src = ''.join('#include <swiftnav/%s>\n' % os.path.basename(h) for h in hs)
    p = subprocess.run(['clang', '-std=gnu99', '-w', '-x', 'c', '-fsyntax-only', '-I', inc, '-Xclang', '-ast-dump=json', '-'], input=src, text=True, capture_output=True)
    if p.returncode:
        raise build.BuildError('public headers: %s' % p.stderr[-2000:])
    out = {}
    for d in json.loads(p.stdout)['inner']:
        if d.get('kind') == 'FunctionDecl' and not d.get('isImplicit') and d.get('storageClass') != 'static':
            ps = [q for q in d.get('inner', ()) if q.get('kind') == 'ParmVarDecl']
            out[d['name']] = [(q.get('name', ''), q['type'].get('desugaredQualType', q['type']['qualType']), q['type']['qualType']) for q in ps]
    return out


def points_to_const(t):
    """the object a parameter of this type points to is const"""
    t = t.strip()
    m = re.match(r'^(.*)\*\s*(const|restrict|volatile|\s)*$', t)
    if m:
        base = m.group(1).strip()
        return bool(re.search(r'\bconst$', base)) if '*' in base else bool(re.search(r'\bconst\b', base))
    return False


_E = {}


def effects():
    if 'e' not in _E:
        _E['e'] = Effects()
        _E['api'] = api()
    return _E['e'], _E['api']


def chain(e, n, r):
    out, seen = [], set()
    while n not in seen:
        seen.add(n)
        out.append(n)
        w = e.writes[n].get(r)
        if not w or not w[2] or w[2] not in e.writes:
            return out, w
        nxt = w[2]
        if r not in e.writes[nxt] and r[0] == 'p':
            # written through one of its parameters
            return out + [nxt], w
        n = nxt
    return out, e.writes[n].get(r)


def viol(key, where, what, detail=''):
    return dict(key=key, where=where, what=what, entry=None, kind='effect', cond='', detail=detail)


def no_hidden_state():
    e, ap = effects()
    v, inst, nob = [], [], 0
    owners = {}
    for n in sorted(e.fns):
        if n in CONFIG:
            for r in e.writes[n]:
                if r[0] == 'g':
                    owners.setdefault(r[1], set()).add(n)
    for n in sorted(e.fns):
        f = e.fns[n]
        if n not in ap or n in CONFIG:
            continue
        nob += 1
        bad = [r for r in e.writes[n] if r[0] == 'g']
        inst.append('%s writes no static storage' % n)
        for r in bad:
            ch, w = chain(e, n, r)
            v.append(viol('state/%s/%s' % (n, r[1]), '%s:%d' % (rel(w[0]), w[1]), '%s changes the static object %s' % (n, r[1]), 'call chain: ' + ' > '.join(ch)))
    # internal functions nobody public reaches are harmless; functions of the API that are missing from the module are inline or not built
    for g in sorted(e.mod.globals.values(), key=lambda g: g.name):
        if g.const or g.name.startswith('.str') or g.name.startswith('llvm.') or not g.has_init:
            continue
        nob += 1
        ext = [x for x in e.escapes if x[0] == g.name]
        for x in ext:
            v.append(viol('escape/%s/%s' % (g.name, x[1]), '%s:%d' % (rel(x[2]), x[3]), 'the address of the static object %s is kept by %s' % (g.name, x[1])))
        inst.append('%s: written by %s' % (g.name, ', '.join(sorted(owners.get(g.name, ()))) or 'nobody'))
    for n in sorted(ap):
        if n in e.fns:
            nob += 1
            for r in e.ret[n]:
                if r[0] == 'g':
                    v.append(viol('returned/%s/%s' % (n, r[1]), '%s:%d' % (rel(e.fns[n].file), e.fns[n].line), '%s hands out the address of the static object %s' % (n, r[1])))
    return dict(rule='no public function outside the configuration interface writes or hands out static storage', obligations=nob, violations=v, instances=inst,
                units=e.units, fns=sorted(e.fns))


def const_inputs():
    e, ap = effects()
    v, inst, nob = [], [], 0
    for n in sorted(ap):
        if n not in e.fns:
            continue
        f = e.fns[n]
        # parameters of the IR function: an sret pointer comes first, byval ones stay one to one
        off = 1 if f.params and f.params[0][2] is not None else 0
        irp = list(range(off, f.nparams))
        if len(irp) != len(ap[n]):
            # structs passed in registers are split: match the pointers from the left as long as the source parameter is a pointer
            irp = match(ap[n], f, off)
        for k, (pn, t, t0) in zip(irp, ap[n]):
            if k is None or not points_to_const(t):
                continue
            nob += 1
            inst.append('%s(%s)' % (n, pn))
            w = e.writes[n].get(('p', k))
            if w:
                v.append(viol('const/%s/%s' % (n, pn), '%s:%d' % (rel(w[0]), w[1]), '%s writes through its const parameter %s' % (n, pn), 'via %s' % w[2] if w[2] else ''))
    return dict(rule='no store reaches an object through a parameter the public header declares as pointer to const', obligations=nob, violations=v, instances=inst,
                units=e.units, fns=sorted(e.fns))


def match(ps, f, off):
    kinds = [f.params[k][0].kind for k in range(off, f.nparams)]
    out, k = [], 0
    # a source pointer takes one pointer; a scalar takes one of its kind; a struct takes what is left over before the next fit
    isptr = [bool(re.search(r'[*\[]|\(\*\)', t)) for _, t, _ in ps]
    need = sum(isptr)
    ptrs = [i for i, q in enumerate(kinds) if q == 'ptr' and f.params[off + i][1] is None]
    if len(ptrs) == need:
        it = iter(ptrs)
        return [off + next(it) if q else None for q in isptr]
    return [None] * len(ps)


def bounded():
    """no heap, no non-reentrant or unknown external function"""
    e, ap = effects()
    v, inst, nob = [], [], 0
    for n in sorted(e.fns):
        for x, (fl, ln) in sorted(e.ext[n].items()):
            nob += 1
            if x in OK_EXT:
                continue
            why = 'allocates from the heap' if x in HEAP else 'is not reentrant' if x in NOT_REENTRANT else 'is not known to be free of effects'
            v.append(viol('external/%s/%s' % (n, x), '%s:%d' % (rel(fl), ln), '%s calls %s, which %s' % (n, x, why)))
    inst = ['%s: %s' % (n, ', '.join(sorted(e.ext[n]))) for n in sorted(e.fns) if e.ext[n]]
    return dict(rule='every external callee is in the list of pure or reentrant functions', obligations=nob, violations=v, instances=inst,
                units=e.units, fns=sorted(e.fns))


def assigned_first():
    """flow analysis of every function: no read of a local before it is given a value on a way through the function that leads to it"""
    import build
    e, ap = effects()
    srcs, txt = build.sources()
    d = tempfile.mkdtemp(prefix='swnav_sa_')
    v = []
    try:
        m = re.search(r'set\(MAX_CHANNELS "([0-9]+)"', txt)
        tmpl = open(os.path.join(build.REPO, 'src', 'max_channels.h.in')).read()
        open(os.path.join(d, 'max_channels.h'), 'w').write(tmpl.replace('${MAX_CHANNELS}', m.group(1)))
        inc = ['-I' + os.path.join(build.REPO, 'include'), '-I' + d, '-I' + os.path.join(build.REPO, 'src')]

        def one(s):
            cc = ['clang++', '-std=gnu++14'] if s.endswith(('.cc', '.cpp')) else ['clang', '-std=gnu99']
            p = subprocess.run(cc + ['-fsyntax-only', '-UNDEBUG', '-fno-caret-diagnostics', '-Wno-everything', '-Wuninitialized', '-Wsometimes-uninitialized',
                                     '-Wstatic-self-init', '-Wreturn-type'] + inc + [s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise build.BuildError(p.stdout[-2000:])
            return p.stdout
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, srcs))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for out in outs:
        for f, ln, what in re.findall(r'^(\S+?):(\d+):\d+: warning: (.*?) \[-W', out, re.M):
            v.append(viol('unassigned/%s/%s' % (rel(f), what), '%s:%s' % (rel(f), ln), what))
    fns = sorted(n for n in e.fns)
    return dict(rule='every use of a local variable is preceded by an assignment on each branch direction that forces the use; every non-void function returns a value',
                obligations=len(fns), violations=v, instances=['%s: all uses of locals' % n for n in fns], units=e.units, fns=fns)
