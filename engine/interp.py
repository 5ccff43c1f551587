"""Forward abstract interpreter over LLVM IR (one pass, states joined at every merge point)."""
from poly import refute
import struct
import time
from bisect import bisect_right
from fractions import Fraction
from bdd import BddLimit
from build import REPO
from dom import Dom, Int, FV, Ptr, Lazy, Agg, Leaf, Unsupported


class Budget(Exception):
    pass


class Obj:
    _n = 0
    __slots__ = ('id', 'name', 'size', 'kind', 'g', 'init', 'const')

    def __init__(self, name, size, kind, init=None, g=None, const=False):
        Obj._n += 1
        self.id = Obj._n
        self.name = name
        self.size = size
        self.kind = kind
        self.g = g
        self.const = const
        self.init = init if init is not None else Lazy('undef', self.id, 0)

    def __repr__(self):
        return '<%s>' % self.name


BIG = 1 << 40


class MemObj:
    """immutable snapshot of one object: sorted offs + cells off -> (size, val, loc)"""
    __slots__ = ('offs', 'cells')

    def __init__(self, offs, cells):
        self.offs = offs
        self.cells = cells


class State:
    __slots__ = ('pc', 'mem')

    def __init__(self, pc, mem):
        self.pc = pc
        self.mem = mem


class FnInfo:
    def __init__(self, fn, blocks):
        self.fn = fn
        self.blocks = blocks
        n = len(blocks)
        order = []
        seen = [False] * n
        st = [(0, iter(blocks[0].succs))]
        seen[0] = True
        while st:
            b, it = st[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    st.append((s, iter(blocks[s].succs)))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        self.rpo = rpo
        num = {b: i for i, b in enumerate(rpo)}
        self.num = num
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in blocks[b].preds if p in idom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while num[x] > num[y]:
                            x = idom[x]
                        while num[y] > num[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.dominates = dom
        loops = {}
        for b in rpo:
            for s in blocks[b].succs:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stack.extend(p for p in blocks[x].preds if p in num)
                elif num[s] <= num[b]:
                    raise Unsupported('irreducible control flow in %s' % fn.name)
        self.loops = loops
        # region order: innermost loop containing each block
        self.inner = {}
        for h, body in sorted(loops.items(), key=lambda t: -len(t[1])):
            for b in body:
                self.inner[b] = h
        self.parent = {}
        for h, body in loops.items():
            best = None
            for h2, b2 in loops.items():
                if h2 != h and h in b2 and (best is None or len(b2) < len(loops[best])):
                    best = h2
            self.parent[h] = best


LIBM1 = {'fabs', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'floor', 'ceil', 'round', 'rint', 'log', 'trunc'}
LIBM2 = {'atan2', 'pow', 'fmod', 'fmax', 'fmin', 'copysign'}


class Interp:
    def __init__(self, mod, config=None):
        self.mod = mod
        self.d = Dom()
        self.d.ub = self.on_ub
        cfg = config or {}
        self.stubs = cfg.get('stubs', {})
        self.d.b.cut_at = cfg.get('cut_at', self.d.b.cut_at)
        self.d.b.word_major = bool(cfg.get('word_major'))
        self.d.rip_budget = cfg.get('rip', self.d.rip_budget)
        self.maxbad, self.nbad = cfg.get('max_bad', 40), 0
        self.cfg = cfg
        self.max_iter = cfg.get('max_iter', 80)
        self.loop_budget = cfg.get('loop_budget', 60000)
        self.trace = cfg.get('trace', False)
        self.init_globals = set(cfg.get('init_globals', ()))
        self.opaque_fns = cfg.get('opaque', {})
        self.fresh_n = {}
        self.scopes = []
        self.watches = []
        self.volatiles = []
        self.fninfo = {}
        self.gobj = {}
        self.constmem = {}
        self.ckeys = {}
        self.d.signs = cfg.get('signs', False)
        self.d.narrow, self.d.noround = cfg.get('narrow', False), cfg.get('noround', False)
        self.side = 'h'
        self.events = []          # (kind, file:line, fn, cond, detail)
        self.results = []         # outcomes of spec_* calls
        self.stack = []
        self.stats = dict(instructions=0, blocks=0, joins=0, calls=0, mem_accesses=0, inbounds_proved=0,
                          loops_unrolled=0, loops_summarised=0)
        self.fns_seen = {}
        self.mu = {}
        self.loop_names = {}
        self.cut_n = {}
        self.any_undef = False
        self.undef_lv = {}
        self.undef_lf = {}
        self.mu_count = {}
        self.mu_desc = {}
        self.opq_count = {}
        self.cur = None
        self.eff_const = self.find_const_globals()
        self.ub_seen = set()
        self.deadline = cfg.get('deadline')
        self.quiet_ub = 0
        self.logs_called = 0

    # ------------------------------------------------------------- helpers
    def loc(self, ins=None):
        i = ins or self.cur
        if i is None:
            return '?'
        # innermost library frame
        return '%s:%s' % (relname(i.file), i.line) if i.file else '?'

    def on_ub(self, kind, cond, detail):
        if self.quiet_ub:
            return
        cond = refute(self.d, cond)
        if cond == 0:
            return
        self.events.append((kind, self.loc(), self.stack[-1] if self.stack else '?', cond, detail, tuple(self.stack)))

    def find_const_globals(self):
        """internal globals never stored to / escaping: their initialiser is their value forever"""
        m = self.mod
        bad = set()
        for f in m.funcs.values():
            if f.decl:
                continue
            derived = {}
            for b in m.body(f):
                for i in b.instrs + b.phis:
                    for k, o in enumerate(i.ops):
                        gs = set()
                        if o[0] == 'c':
                            collect_globals(o[1], gs)
                        elif o[0] == 'v' and o[1] in derived:
                            gs = derived[o[1]]
                        if not gs:
                            continue
                        if i.op == 'load':
                            continue
                        if i.op in ('getelementptr', 'phi', 'select'):
                            derived.setdefault(i.id, set()).update(gs)
                            continue
                        if i.op in ('icmp',):
                            continue
                        if i.op == 'call':
                            c = i.x[0]
                            nm = c[1].name if c[0] == 'func' else ''
                            if nm.startswith('llvm.memcpy') or nm in ('memcpy', 'memmove', 'memcpy_s'):
                                if k == 1 or (nm == 'memcpy_s' and k == 2):
                                    continue
                            if nm in ('strcmp', 'strlen', 'fprintf', '__assert_fail', 'printf', 'memcmp'):
                                continue
                        bad |= gs
        ok = set()
        for g in m.globals.values():
            if g.const:
                ok.add(g.name)
            elif g.internal and g.name not in bad:
                ok.add(g.name)
        # exported pointer tables that the library itself never writes
        return ok

    # ------------------------------------------------------------- objects
    def global_obj(self, g):
        o = self.gobj.get(g.name)
        if o is None:
            const = (g.name in self.eff_const) and g.has_init
            if const or g.name in self.init_globals:
                o = Obj(g.name, g.ty.size, 'global', Lazy('const', g.name, 0), g, g.const)
            else:
                o = Obj(g.name, g.ty.size, 'global', Lazy('sym', 'global:' + g.name, 0), g, g.const)
            self.gobj[g.name] = o
        return o

    def const_cells(self, gname):
        r = self.constmem.get(gname)
        if r is None:
            g = self.mod.globals[gname]
            cells = {}
            self.flatten(self.mod.init(g), 0, g.ty, cells)
            r = (sorted(cells), cells)
            self.constmem[gname] = r
        return r

    def flatten(self, c, off, ty, out):
        k = c[0]
        if k == 'agg':
            t = c[1]
            if t.kind == 'struct':
                for e, o, et in zip(c[2], t.offs, t.elems):
                    self.flatten(e, off + o, et, out)
            else:
                sz = t.elem.size
                for i, e in enumerate(c[2]):
                    self.flatten(e, off + i * sz, t.elem, out)
        elif k in ('zero', 'undef'):
            if c[1].size:
                out[off] = (c[1].size, Lazy('zero', 0, 0), None)
        else:
            v = self.constval(c)
            out[off] = (ty.size, v, None)

    def constval(self, c):
        k = c[0]
        if k == 'int':
            return self.d.ci(c[1], c[2])
        if k == 'fp':
            return self.d.fconst(c[2], c[1])
        if k == 'null':
            return Ptr(((1, None, 0),))
        if k == 'global':
            return Ptr(((1, self.global_obj(c[1]), 0),))
        if k == 'func':
            return Ptr(((1, c[1], 0),))
        if k == 'undef':
            # a local that was never assigned
            self.opq_count['undefc'] = n = self.opq_count.get('undefc', 0) + 1
            return self.mat(Lazy('undef', ('c', n), 0), 0, c[1])
        if k == 'zero':
            return self.zero(c[1])
        if k == 'agg':
            return Agg([self.constval(e) for e in c[2]])
        if k == 'gep':
            base = self.constval(c[2][0])
            off, ty = 0, c[1]
            first = True
            for o in c[2][1:]:
                v = o[2]
                if v >> 63:
                    v -= 1 << 64
                elif o[1] == 32 and v >> 31:
                    v -= 1 << 32
                if first:
                    off += v * ty.size
                    first = False
                elif ty.kind == 'struct':
                    off += ty.offs[v]
                    ty = ty.elems[v]
                else:
                    ty = ty.elem
                    off += v * ty.size
            return Ptr(tuple((q, ob, f + off) for q, ob, f in base.cases))
        if k == 'cexpr' and c[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast') and (c[1] != 'ptrtoint' or c[2].width == 64):
            return self.constval(c[3][0])
        raise Unsupported('constant %r' % (c,))

    def undef(self, ty):
        self.opq_count['undef'] = n = self.opq_count.get('undef', 0) + 1
        return self.mat(Lazy('undef', ('u', n), 0), 0, ty)

    def zero(self, ty):
        if ty.kind == 'int':
            return self.d.ci(ty.width, 0)
        if ty.kind in ('float', 'double'):
            return self.d.fconst(0.0, ty.kind)
        if ty.kind == 'ptr':
            return Ptr(((1, None, 0),))
        if ty.kind == 'struct':
            return Agg([self.zero(t) for t in ty.elems])
        if ty.kind == 'array':
            return Agg([self.zero(ty.elem) for _ in range(ty.n)])
        raise Unsupported('zero %r' % ty)

    # ------------------------------------------------------------- memory
    def memobj(self, mem, obj):
        m = mem.get(obj)
        if m is None:
            if obj.init.kind == 'const':
                offs, cells = self.const_cells(obj.init.name)
                m = MemObj(offs, cells)
            else:
                m = MemObj([0], {0: (obj.size if obj.size is not None else BIG, obj.init, None)})
            mem[obj] = m
        return m

    def mat(self, lz, off, ty):
        """materialise untyped contents at offset as a value of type ty"""
        d = self.d
        off += lz.off
        k = lz.kind
        if ty.kind in ('struct', 'array'):
            if ty.kind == 'struct':
                return Agg([self.mat(lz, off - lz.off + o, t) for o, t in zip(ty.offs, ty.elems)])
            return Agg([self.mat(lz, off - lz.off + i * ty.elem.size, ty.elem) for i in range(ty.n)])
        if k == 'zero':
            return self.zero(ty)
        if k == 'phi':
            c, a, b = lz.name
            return d.ite(c, self.mat(a, off, ty), self.mat(b, off, ty))
        if k == 'fill':
            # memset with a byte value
            if ty.kind == 'int':
                return Int(ty.width, (lz.name.bits * ty.size)[:ty.width])
            v = Int(8 * ty.size, lz.name.bits * ty.size)
            return self.convert(v, ty)
        base = (k, lz.name)
        if k == 'undef' and not (isinstance(lz.name, tuple) and lz.name[0] == 'u'):
            self.any_undef = True
        if ty.kind == 'int':
            bits = []
            w = ty.width
            for i in range((w + 7) // 8):
                for j in range(8):
                    bits.append(d.b.newvar(((k, lz.name, off + i), j), i * 8 + j))
            return Int(w, tuple(bits[:w]))
        if ty.kind in ('float', 'double'):
            return d.fv(d.latom(('in' if ty.kind == 'double' else 'in32', (k, lz.name, off))), ty.kind)
        if ty.kind == 'ptr':
            key = ('ptr', k, lz.name, off)
            o = self.gobj.get(key)
            if o is None:
                o = Obj('*(%s+%s)' % (lz.name, off), None, 'opaque', Lazy('sym', ('*', lz.name, off), 0))
                self.gobj[key] = o
            nul = d.b.newvar(('null', k, lz.name, off), 0)
            return Ptr(((nul, None, 0), (d.b.NOT(nul), o, 0)))
        raise Unsupported('materialise %r' % ty)

    def tobits(self, v, size):
        d = self.d
        if isinstance(v, Int):
            return v if v.w == size * 8 else d.zext(v, size * 8)
        if isinstance(v, FV):
            r = None
            for c, l in v.cases:
                k = d.lc(l)
                if k is not None:
                    raw = struct.pack('<d' if v.k == 'double' else '<f', float(k))
                    x = d.ci(size * 8, int.from_bytes(raw, 'little'))
                else:
                    x = d.opaque(('fbits', v.k, l.id), size * 8)
                r = x if r is None else d.iite(c, x, r)
            return r
        if isinstance(v, Ptr):
            r = None
            for c, o, f in v.cases:
                if o is None and isinstance(f, int):
                    x = d.ci(64, f)
                else:
                    x = d.opaque(('ptrbits', id(o), f if isinstance(f, int) else f.bits), 64)
                r = x if r is None else d.iite(c, x, r)
            return r
        raise Unsupported('bits of %r' % (v,))

    def convert(self, v, ty):
        d = self.d
        if isinstance(v, Lazy):
            return self.mat(v, 0, ty)
        if ty.kind == 'int':
            if ty.width == 64 and isinstance(v, Ptr):
                return v              # an address held in an integer keeps its provenance
            x = self.tobits(v, ty.size)
            return x if x.w == ty.width else d.trunc(x, ty.width)
        if ty.kind in ('float', 'double'):
            if isinstance(v, FV):
                return v
            x = self.tobits(v, ty.size)
            c = x.const()
            if c is not None:
                raw = c.to_bytes(ty.size, 'little')
                return d.fconst(struct.unpack('<d' if ty.kind == 'double' else '<f', raw)[0], ty.kind)
            nm = [d.bitname(b) for b in x.bits]
            if all(n is not None for n in nm) and nm[0][1] == 0:
                t = nm[0][0]
                if t[0] == 't' and t[1][0] == 'fbits' and all(n == (t, i) for i, n in enumerate(nm)):
                    return d.fv(d.leaf_list[t[1][2]], ty.kind)
                if len(t) == 3 and isinstance(t[2], int) and all(
                        n == ((t[0], t[1], t[2] + i // 8), i % 8) for i, n in enumerate(nm)):
                    return d.fv(d.latom(('in' if ty.kind == 'double' else 'in32', t)), ty.kind)
            # conditional composition of known encodings
            return d.fv(d.latom(('bitsf', x.bits)), ty.kind)
        if ty.kind == 'ptr':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, Int):
                c = v.const()
                if c is not None:
                    return Ptr(((1, None, c),))
                o = Obj('inttoptr', None, 'opaque')
                return Ptr(((1, o, 0),))
        raise Unsupported('convert %r to %r' % (v, ty))

    def load1(self, mem, obj, off, ty):
        """constant-offset load"""
        m = self.memobj(mem, obj)
        size = ty.size
        if ty.kind == 'struct':
            return Agg([self.load1(mem, obj, off + o, t) for o, t in zip(ty.offs, ty.elems)])
        if ty.kind == 'array':
            return Agg([self.load1(mem, obj, off + i * ty.elem.size, ty.elem) for i in range(ty.n)])
        c = m.cells.get(off)
        if c is not None and c[0] == size and not isinstance(c[1], Lazy):
            return self.convert(c[1], ty)
        i = bisect_right(m.offs, off) - 1
        if i >= 0:
            o = m.offs[i]
            c = m.cells[o]
            if o + c[0] >= off + size and isinstance(c[1], Lazy):
                return self.mat(c[1], off - o, ty)
        # compose bytes
        bits = ()
        p = off
        while p < off + size:
            i = bisect_right(m.offs, p) - 1
            o = m.offs[i] if i >= 0 else None
            c = m.cells[o] if o is not None else None
            if c is None or p >= o + c[0]:
                # hole: out of bounds or uninitialised
                v = self.mat(Lazy('undef', ('hole', obj.id), p), 0, I8)
                bits += v.bits
                p += 1
                continue
            n = min(o + c[0], off + size) - p
            if isinstance(c[1], Lazy):
                for q in range(n):
                    bits += self.mat(c[1], p + q - o, I8).bits
            else:
                b = self.tobits(c[1], c[0])
                bits += b.bits[(p - o) * 8:(p - o + n) * 8]
            p += n
        return self.convert(Int(size * 8, bits), ty)

    def carve(self, m, off, size):
        """copy of m with [off, off+size) removed"""
        cells = dict(m.cells)
        end = off + size
        i = bisect_right(m.offs, off) - 1
        if i < 0:
            i = 0
        j = i
        offs = m.offs
        new = []
        n = len(offs)
        lo = i
        while j < n and offs[j] < end:
            o = offs[j]
            sz, v, lc = cells[o]
            if o + sz <= off:
                j += 1
                lo = j
                continue
            del cells[o]
            if o < off or o + sz > end:
                if isinstance(v, Lazy):
                    if o < off:
                        cells[o] = (off - o, v, lc)
                        new.append(o)
                    if o + sz > end:
                        cells[end] = (o + sz - end, Lazy(v.kind, v.name, v.off + end - o), lc)
                        new.append(end)
                else:
                    b = self.tobits(v, sz)
                    for q in range(sz):
                        if o + q < off or o + q >= end:
                            cells[o + q] = (1, Int(8, b.bits[q * 8:q * 8 + 8]), lc)
                            new.append(o + q)
            j += 1
        no = offs[:lo] + new + offs[j:]
        return no, cells

    def store1(self, mem, obj, off, size, val, cond_pc=None):
        m = self.memobj(mem, obj)
        c = m.cells.get(off)
        lc = self.loc()
        if c is not None and c[0] == size:
            cells = dict(m.cells)
            cells[off] = (size, val, lc)
            mem[obj] = MemObj(m.offs, cells)
            return
        no, cells = self.carve(m, off, size)
        cells[off] = (size, val, lc)
        i = bisect_right(no, off)
        no = no[:i] + [off] + no[i:]
        mem[obj] = MemObj(no, cells)

    def copy_range(self, mem, dobj, doff, sobj, soff, n):
        if n == 0:
            return
        sm = self.memobj(mem, sobj)
        pieces = []
        i = max(0, bisect_right(sm.offs, soff) - 1)
        p = soff
        end = soff + n
        lc = self.loc()
        while i < len(sm.offs) and sm.offs[i] < end:
            o = sm.offs[i]
            sz, v, _ = sm.cells[o]
            i += 1
            if o + sz <= soff:
                continue
            a, b = max(o, soff), min(o + sz, end)
            if a == o and b == o + sz:
                pieces.append((a, sz, v))
            elif isinstance(v, Lazy):
                pieces.append((a, b - a, Lazy(v.kind, v.name, v.off + a - o)))
            else:
                bb = self.tobits(v, sz)
                for q in range(a - o, b - o):
                    pieces.append((o + q, 1, Int(8, bb.bits[q * 8:q * 8 + 8])))
        dm = self.memobj(mem, dobj)
        no, cells = self.carve(dm, doff, n)
        add = []
        for o, sz, v in pieces:
            t = o - soff + doff
            cells[t] = (sz, v, lc)
            add.append(t)
        k = bisect_right(no, doff)
        no = no[:k] + add + no[k:]
        no.sort()
        mem[dobj] = MemObj(no, cells)

    def merge_obj(self, c, a, b):
        """a where c, b elsewhere"""
        if a is b:
            return a
        d = self.d
        cells = {}
        if a.offs == b.offs:
            same = True
            for o in a.offs:
                x, y = a.cells[o], b.cells[o]
                if x is y:
                    cells[o] = x
                    continue
                if x[0] != y[0]:
                    same = False
                    break
                v = self.merge_val(c, x[1], y[1], x[0])
                if v is None:
                    same = False
                    break
                cells[o] = (x[0], v, x[2] if x[2] == y[2] else mergeloc(x[2], y[2]))
            if same:
                return MemObj(a.offs, cells)
        cells = {}
        ia = ib = 0
        A = [(o,) + a.cells[o] for o in a.offs]
        Bc = [(o,) + b.cells[o] for o in b.offs]
        # sweep with splitting
        A.reverse()
        Bc.reverse()

        def split(t, at):
            o, sz, v, lc = t
            if isinstance(v, Lazy):
                return [(o, at - o, v, lc), (at, o + sz - at, Lazy(v.kind, v.name, v.off + at - o), lc)]
            bb = self.tobits(v, sz)
            return [(o + q, 1, Int(8, bb.bits[8 * q:8 * q + 8]), lc) for q in range(sz)]
        while A and Bc:
            x, y = A.pop(), Bc.pop()
            if x[0] != y[0]:
                if x[0] < y[0]:
                    if x[0] + x[1] > y[0]:
                        A.extend(reversed(split(x, y[0])))
                        Bc.append(y)
                        continue
                    cells[x[0]] = x[1:]
                    Bc.append(y)
                else:
                    if y[0] + y[1] > x[0]:
                        Bc.extend(reversed(split(y, x[0])))
                        A.append(x)
                        continue
                    cells[y[0]] = y[1:]
                    A.append(x)
                continue
            if x[1] != y[1]:
                if x[1] > y[1]:
                    A.extend(reversed(split(x, x[0] + y[1])))
                    Bc.append(y)
                else:
                    Bc.extend(reversed(split(y, y[0] + x[1])))
                    A.append(x)
                continue
            v = self.merge_val(c, x[2], y[2], x[1])
            if v is None:
                xs, ys = self.tobits(x[2], x[1]), self.tobits(y[2], y[1])
                v = d.iite(c, xs, ys)
            cells[x[0]] = (x[1], v, x[3] if x[3] == y[3] else mergeloc(x[3], y[3]))
        for t in A + Bc:
            cells[t[0]] = t[1:]
        return MemObj(sorted(cells), cells)

    def merge_val(self, c, x, y, size):
        if x is y:
            return x
        if isinstance(x, Lazy) and isinstance(y, Lazy):
            if x == y:
                return x
            return Lazy('phi', (c, x, y), 0)
        if isinstance(x, Lazy):
            x = self.mat(x, 0, type_of(y, size))
        elif isinstance(y, Lazy):
            y = self.mat(y, 0, type_of(x, size))
        if type(x) is not type(y):
            if isinstance(x, Ptr) and isinstance(y, Int):
                y = self.convert(y, PTR)
            elif isinstance(y, Ptr) and isinstance(x, Int):
                x = self.convert(x, PTR)
            elif isinstance(x, FV) and isinstance(y, Int):
                y = self.convert(y, type_of(x, size))
            elif isinstance(y, FV) and isinstance(x, Int):
                x = self.convert(x, type_of(y, size))
            else:
                return None
        if isinstance(x, Int) and x.w != y.w:
            w = size * 8
            x = self.d.zext(x, w) if x.w < w else x
            y = self.d.zext(y, w) if y.w < w else y
        return self.d.ite(c, x, y)

    def merge(self, edges):
        """edges: list of (State, phivals) -> (State, phivals)"""
        if len(edges) == 1:
            return edges[0]
        B = self.d.b
        s, ph = edges[0]
        pc = s.pc
        mem = dict(s.mem)
        ph = dict(ph)
        for s2, ph2 in edges[1:]:
            self.stats['joins'] += 1
            tot = B.OR(pc, s2.pc)
            c = B.restrict(pc, tot)
            self.d.pc = tot
            for o in set(mem) | set(s2.mem):
                a, b = mem.get(o), s2.mem.get(o)
                if a is b:
                    continue
                if a is None or b is None:
                    a = a or self.memobj({}, o)
                    b = b or self.memobj({}, o)
                mem[o] = self.merge_obj(c, a, b)
            for k in ph:
                if k in ph2:
                    ph[k] = self.d.ite(c, ph[k], ph2[k])
            pc = tot
        return State(pc, mem), ph

    # --------------------------------------------------- pointer accesses
    def resolve(self, st, p, size, write):
        """-> [(cond, obj, off)] with in-bounds obligations discharged or reported"""
        B = self.d.b
        out = []
        self.stats['mem_accesses'] += 1
        ok = True
        for c, o, f in p.cases:
            cc = B.AND(c, st.pc)
            if cc == 0 or not self.d.feas(cc):
                continue
            if o is None:
                self.on_ub('null', B.AND(cc, self.d.axioms), '%s through a null pointer' % ('store' if write else 'load'))
                ok = False
                continue
            if not isinstance(o, Obj):
                raise Unsupported('access to function pointer memory')
            if isinstance(f, int):
                if o.size is not None and not (0 <= f and f + size <= o.size):
                    self.on_ub('oob', B.AND(cc, self.d.axioms), '%s of %d bytes at offset %d of %s (size %d)' % (
                        'store' if write else 'load', size, f, o.name, o.size))
                    ok = False
                    continue
                if write and o.const:
                    self.on_ub('constwrite', cc, 'store to constant %s' % o.name)
                if self.watches:
                    self.watch(cc, o, f, size, write)
                out.append((c, o, f))
            else:
                if self.watches:
                    self.watch(cc, o, 0, o.size or BIG, write)
                # symbolic offset
                self.d.pc = cc
                if o.size is not None:
                    lo, hi = self.d.irange(f, True)
                    if lo < 0 or hi + size > o.size:
                        self.on_ub('oob?', cc, '%s of %d bytes at offset in [%d,%d] of %s (size %d)' % (
                            'store' if write else 'load', size, lo, hi, o.name, o.size))
                        ok = False
                self.d.pc = st.pc
                out.append((c, o, f))
        if ok:
            self.stats['inbounds_proved'] += 1
        return out

    def watch(self, cc, o, f, size, write):
        """ownership and ordering rules over accesses, in program order under path conditions"""
        if self.side != 'lib':
            return
        B = self.d.b
        for w in self.watches:
            if w['kind'] == 'readonly':
                if write and w['o'] is o and f < w['f'] + w['n'] and w['f'] < f + size:
                    self.on_ub('owner', B.AND(cc, self.d.axioms), 'store to %s, which the other side owns' % w['name'])
            else:
                if w['o'] is o and f < w['f'] + w['n'] and w['f'] < f + size:
                    if self.d.feas(B.AND(cc, w['stored'])):
                        self.on_ub('order', B.AND(B.AND(cc, w['stored']), self.d.axioms), '%s of %s after it was published' % (
                            'store' if write else 'load', w['name']))
                if write and w['go'] is o and f < w['gf'] + w['gn'] and w['gf'] < f + size:
                    w['stored'] = B.OR(w['stored'], cc)

    def one(self, p):
        (c, o, f), = p.cases
        return o, f

    def spec_readonly(self, st, args, i):
        o, f = self.one(args[0])
        self.watches.append(dict(kind='readonly', o=o, f=f, n=args[1].const(), name=self.cstr(st, args[2])))
        return st, None

    def spec_order(self, st, args, i):
        o, f = self.one(args[0])
        go, gf = self.one(args[2])
        self.watches.append(dict(kind='order', o=o, f=f, n=args[1].const(), go=go, gf=gf, gn=args[3].const(), stored=0,
                                 name=self.cstr(st, args[4])))
        return st, None

    def spec_nowatch(self, st, args, i):
        self.watches = []
        return st, None

    def spec_volatile(self, st, args, i):
        o, f = self.one(args[0])
        (c, fn, _), = args[2].cases
        self.volatiles.append((o, f, args[1].const(), fn))
        return st, None

    def spec_novolatile(self, st, args, i):
        self.volatiles = []
        return st, None

    def interfere(self, st, p, size):
        """the other side may run before each library load of a shared location"""
        for o, f, n, fn in self.volatiles:
            for c, po, pf in p.cases:
                if po is o and (not isinstance(pf, int) or (pf < f + n and f < pf + size)) and self.d.feas(self.d.b.AND(c, st.pc)):
                    self.side = 'spec'
                    s, r = self.call(State(st.pc, dict(st.mem)), fn, [])
                    self.side = 'lib'
                    if s is None or s.pc != st.pc:
                        raise Unsupported('interference model changes the path condition')
                    st.mem.clear()
                    st.mem.update(s.mem)
                    self.d.pc = st.pc
                    break

    def load(self, st, p, ty):
        d = self.d
        if self.volatiles and self.side == 'lib':
            self.interfere(st, p, ty.size)
        acc = None
        got = self.resolve(st, p, ty.size, False)
        for c, o, f in got:
            if isinstance(f, int):
                v = self.load1(st.mem, o, f, ty)
            else:
                m = self.memobj(st.mem, o)
                ck = self.content_key(o)
                v = self.opq_value(('ld', 'tab', f.bits, ck) if ck else
                                   ('ld', o.id if o.kind != 'global' else o.name, f.bits, self.memkey(m)), ty, o, f)
            acc = v if acc is None else d.ite(c, v, acc)
        if acc is None:
            return self.undef(ty)
        return acc

    def content_key(self, o):
        """constant tables are identified by their contents"""
        if o.kind != 'global' or o.init is None or o.init.kind != 'const':
            return None
        k = self.ckeys.get(o.id)
        if k is None:
            offs, cells = self.const_cells(o.init.name)
            try:
                k = hash(tuple((q, cells[q][0], self.ckey1(cells[q][1])) for q in offs))
            except TypeError:
                k = 0
            self.ckeys[o.id] = k
        return k

    def ckey1(self, v):
        if isinstance(v, Int):
            return v.const()
        if isinstance(v, Lazy):
            return (v.kind, v.off) if v.kind == 'zero' else []
        c = self.d.lc(v.cases[0][1]) if hasattr(v, 'cases') and len(v.cases) == 1 and not isinstance(v.cases[0][1], Obj) and \
            hasattr(v.cases[0][1], 'poly') else None
        return c if c is not None else []

    def memkey(self, m):
        if isinstance(m.cells, dict) and len(m.offs) == 1 and isinstance(m.cells[m.offs[0]][1], Lazy):
            lz = m.cells[m.offs[0]][1]
            return (lz.kind, lz.name, lz.off)
        if any(m is MemObjConst for MemObjConst in ()):
            return None
        for g, (offs, cells) in self.constmem.items():
            if cells is m.cells:
                return ('const', g)
        return id(m)

    def opq_value(self, desc, ty, o=None, f=None):
        d = self.d
        if ty.kind == 'int':
            x = d.opaque(desc, ty.width)
            if o is not None and o.size is not None and o.size <= 4096 and o.kind == 'global':
                rng = self.table_range(o, ty)
                if rng:
                    d.assume_range(x, *rng)
            return x
        if ty.kind in ('float', 'double'):
            return d.fv(d.latom(('call', desc)), ty.kind)
        if ty.kind == 'ptr':
            key = ('opq', desc)
            ob = self.gobj.get(key)
            if ob is None:
                ob = self.gobj[key] = Obj('opq:%s' % (desc[0],), None, 'opaque', Lazy('sym', desc, 0))
            return Ptr(((1, ob, 0),))
        if ty.kind == 'struct':
            return Agg([self.opq_value(desc + (i,), t) for i, t in enumerate(ty.elems)])
        if ty.kind == 'array':
            return Agg([self.opq_value(desc + (i,), ty.elem) for i in range(ty.n)])
        if ty.kind == 'void':
            return None
        raise Unsupported('opaque %r' % ty)

    def table_range(self, o, ty):
        if o.init.kind != 'const':
            return None
        offs, cells = self.const_cells(o.init.name)
        vs = []
        for q in offs:
            sz, v, _ = cells[q]
            if not isinstance(v, Int) or v.w != ty.width:
                return None
            vs.append(v.const())
        if not vs or max(vs) >> (ty.width - 1):
            return None
        return min(vs), max(vs)

    def store(self, st, p, ty, val):
        d = self.d
        B = d.b
        tg = self.resolve(st, p, ty.size, True)
        if not tg:
            return
        # any feasible case not covered by tg was reported
        if len(tg) == 1 and isinstance(tg[0][2], int):
            self.put(st.mem, tg[0][1], tg[0][2], ty, val)
            return
        # an object with unresolved offset is clobbered as a whole
        for c, o, f in tg:
            if isinstance(f, int):
                cr = B.restrict(c, st.pc)
                if cr == 1:
                    self.put(st.mem, o, f, ty, val)
                elif cr != 0:
                    old = self.load1(st.mem, o, f, ty)
                    self.put(st.mem, o, f, ty, d.ite(cr, val, old))
            else:
                self.clobber(st, o, ('st', f.bits))

    def clobber(self, st, o, why):
        k = ('clob', self.side, o.name)
        self.opq_count[k] = n = self.opq_count.get(k, 0) + 1
        st.mem[o] = MemObj([0], {0: (o.size if o.size is not None else BIG, Lazy('sym', ('clob', o.name, n), 0), self.loc())})

    def put(self, mem, o, off, ty, val):
        if isinstance(val, Agg):
            if ty.kind == 'struct':
                for e, q, t in zip(val.elems, ty.offs, ty.elems):
                    self.put(mem, o, off + q, t, e)
            else:
                for i, e in enumerate(val.elems):
                    self.put(mem, o, off + i * ty.elem.size, ty.elem, e)
            return
        if isinstance(val, Int) and val.w != ty.size * 8:
            val = self.d.zext(val, ty.size * 8)
        self.store1(mem, o, off, ty.size, val)

    # ------------------------------------------------------------- running
    def info(self, fn):
        r = self.fninfo.get(fn.name)
        if r is None:
            r = self.fninfo[fn.name] = FnInfo(fn, self.mod.body(fn))
        return r

    def call(self, st, fn, args):
        """-> (State or None, retval)"""
        if fn.decl:
            raise Unsupported('call to undefined %s' % fn.name)
        if len(self.stack) > 60:
            raise Unsupported('recursion')
        fi = self.info(fn)
        self.stack.append(fn.name)
        self.stats['calls'] += 1
        self.fns_seen[fn.name] = self.fns_seen.get(fn.name, 0) + 1
        act = {'env': {}, 'fi': fi, 'allocas': [], 'rets': []}
        env = act['env']
        for i, a in enumerate(args):
            env[('a', i)] = a
        st = State(st.pc, dict(st.mem))
        # byval copies
        for i, (t, bv, sr) in enumerate(fn.params):
            if bv is not None and i < len(args):
                o = Obj('%s.byval%d' % (fn.name, i), bv.size, 'alloca')
                p = args[i]
                got = self.resolve(st, p, bv.size, False)
                if len(got) == 1 and isinstance(got[0][2], int):
                    self.copy_range(st.mem, o, 0, got[0][1], got[0][2], bv.size)
                else:
                    v = None
                    for c, ob, f in got:
                        tmp = {}
                        tmp.update(st.mem)
                        self.copy_range(tmp, o, 0, ob, f, bv.size)
                        v = tmp[o] if v is None else self.merge_obj(c, tmp[o], v)
                    st.mem[o] = v
                env[('a', i)] = Ptr(((1, o, 0),))
                act['allocas'].append(o)
        back, exits = self.region(act, None, 0, [(st, {})])
        self.stack.pop()
        rets = act['rets']
        if not rets:
            return None, None
        s, ph = self.merge([(s, {'r': v} if v is not None else {}) for s, v in rets])
        for o in act['allocas']:
            s.mem.pop(o, None)
        self.d.pc = s.pc
        return s, ph.get('r')

    def region(self, act, loop, header, in_edges):
        fi = act['fi']
        blocks = fi.blocks
        pending = {header: list(in_edges)}
        back, exits = [], []
        body = fi.loops[loop] if loop is not None else None
        for b in fi.rpo:
            if not pending:
                break
            if b not in pending:
                continue
            if body is not None and b not in body:
                continue
            edges = pending.pop(b)
            if b in fi.loops and not (loop is not None and b == header):
                outs = self.loop(act, b, edges)
            else:
                outs = self.block(act, b, edges)
            for tgt, s, ph in outs:
                if loop is not None and tgt == header:
                    back.append((s, ph))
                elif body is not None and tgt not in body:
                    exits.append((tgt, s, ph))
                else:
                    pending.setdefault(tgt, []).append((s, ph))
        return back, exits

    def loop(self, act, h, edges):
        """execute the loop with header h; -> list of exit edges"""
        key = (act['fi'].fn.name, h)
        snap = len(self.events)
        nres = len(self.results)
        if (key, self.mu_force_key(act)) not in self.mu_forced:
            exits = []
            cur = edges
            n = und = 0
            start = self.work()
            try:
                while True:
                    s, ph = self.merge(cur)
                    if self.cfg.get('loop_cut'):
                        if n:
                            s, ph = self.loop_cut(s, ph, prev, bpc)
                        prev = (dict(s.mem), ph)
                    if n and s.pc == last[1] and self.unchanged(s, ph, last):
                        # the iteration came back to the state it began with: it will for ever
                        self.on_ub('hang', s.pc, 'loop without progress never ends')
                        self.stats['loops_unrolled'] += 1
                        return self.fold_exits(exits)
                    last = (dict(s.mem), s.pc, ph)
                    back, ex = self.region(act, h, h, [(s, ph)])
                    if self.cfg.get('loop_cut'):
                        bpc = 0
                        for s1, p1 in list(back) + [e[1:] for e in ex]:
                            if self.carried(s1, p1, prev):
                                bpc = self.d.b.OR(bpc, s1.pc)
                        ex = [(t,) + self.loop_cut(s1, p1, prev, bpc) for t, s1, p1 in ex]
                    exits.extend(ex)
                    n += 1
                    if not back:
                        self.stats['loops_unrolled'] += 1
                        return self.fold_exits(exits)
                    if ex:
                        und += 1
                    if und > self.max_iter or n > 3000:
                        raise Budget('loop %s:%s not bounded' % key)
                    if und and self.work() - start > self.loop_budget:
                        raise Budget('loop %s:%s too complex' % key)
                    cur = back
            except Budget as e:
                del self.events[snap:]
                del self.results[nres:]
                if self.trace:
                    print('MU', e)
            except Unsupported as e:
                if 'too many' not in str(e) and 'too large' not in str(e):
                    raise
                del self.events[snap:]
                del self.results[nres:]
            self.mu_forced.add((key, self.mu_force_key(act)))
        return self.mu_loop(act, h, edges)

    def undef_branch(self, pc, cs):
        """does the way a branch goes depend on memory that was never written?"""
        B = self.d.b
        sup = frozenset().union(*[B.support(c) for c in cs]) - B.support(pc)
        for lv in sup:
            t = self.undef_level(lv)
            if t:
                self.on_ub('uninit', pc, 'the branch depends on memory that was never written')
                return

    def undef_level(self, lv):
        t = self.undef_lv.get(lv)
        if t is None:
            nm = self.d.b.names[lv]
            t = self.undef_lv[lv] = False
            if isinstance(nm[0], tuple) and len(nm[0]) == 3:
                t = nm[0][0] == 'undef' and not (isinstance(nm[0][1], tuple) and nm[0][1][0] == 'u')
            elif nm[0] in ('lt', 'eq') and nm in self.d.cmp_desc:
                t = self.undef_leaf(self.d.cmp_desc[nm][0])
            self.undef_lv[lv] = t
        return t

    def undef_leaf(self, l):
        r = self.undef_lf.get(l.id)
        if r is None:
            r = self.undef_lf[l.id] = False
            B = self.d.b
            for a in self.d.leaf_atoms(l):
                at = self.d.atoms[a]
                if at[0] in ('in', 'in32'):
                    r = r or at[1][0] == 'undef' and not (isinstance(at[1][1], tuple) and at[1][1][0] == 'u')
                elif at[0] == 'cvt':
                    r = r or any(self.undef_level(v) for q in at[1] for v in B.support(q))
                else:
                    r = r or any(isinstance(x, int) and 0 <= x < len(self.d.leaf_list) and self.undef_leaf(self.d.leaf_list[x]) for x in at[1:])
            self.undef_lf[l.id] = r
        return r

    def unchanged(self, s, ph, last):
        if set(ph) != set(last[2]) or not all(self.same(v, last[2][k]) for k, v in ph.items()):
            return False
        for o, m in s.mem.items():
            m0 = last[0].get(o)
            if m0 is m:
                continue
            if m0 is None or m.offs != m0.offs:
                return False
            for off in m.offs:
                a, b = m.cells[off], m0.cells[off]
                if a[0] != b[0] or not (a[1] is b[1] or a[1] == b[1]):
                    return False
        return True

    def carried(self, s, ph, prev):
        """the reals of an edge that differ from those at the loop header -> [(phi or cell, value)]"""
        olds = [v for v in prev[1].values() if isinstance(v, FV)]
        out = [((k,), v) for k, v in ph.items() if isinstance(v, FV) and not any(v is o or v == o for o in olds)]
        for o, m in s.mem.items():
            m0 = prev[0].get(o)
            if m0 is None or m0 is m:
                continue
            for off in m.offs:
                sz, v, lc = m.cells[off]
                c0 = m0.cells.get(off)
                if isinstance(v, FV) and not (c0 is not None and (c0[1] is v or c0[1] == v)):
                    out.append(((o, off, sz), v))
        return out

    def loop_cut(self, s, ph, prev, pc):
        """name the reals an iteration hands on or out: equal normal forms (under pc, the condition that the body ran) get equal names"""
        d, B = self.d, self.d.b
        names = self.loop_names
        st, ph = State(s.pc, dict(s.mem)), dict(ph)
        for at, v in self.carried(s, ph, prev):
            cs = [(B.AND(c, pc), l) for c, l in v.cases]
            cs = [(c, l) for c, l in cs if c]
            if len(cs) == 1 and len(cs[0][1].poly) < 2:
                continue
            k = frozenset((c, d.lkey(d.fold(l))) for c, l in cs)
            if k not in names:
                names[k] = d.latom(('in', ('sym', 'loop#%d' % len(names), 0)))
            w = d.fv(names[k], v.k)
            if len(at) == 1:
                ph[at[0]] = w
            else:
                self.store1(st.mem, *at, w)
        return st, ph

    def mu_force_key(self, act):
        return tuple(self.stack[-2:])

    mu_forced = set()

    def work(self):
        return self._monos()

    def _monos(self):
        d = self.d
        return len(d.leaf_list) * 4 + len(d.b.lvl) // 8

    def fold_exits(self, exits):
        by = {}
        for t, s, ph in exits:
            by.setdefault(t, []).append((s, ph))
        out = []
        for t, es in by.items():
            s, ph = self.merge(es)
            out.append((t, s, ph))
        return out

    # ---- loops whose trip count is not bounded by constants -------------
    def initkey(self, v):
        if isinstance(v, Int):
            return ('i', v.w, v.bits)
        if isinstance(v, FV):
            return ('f', tuple((c, self.d.canon(l)) for c, l in v.cases))
        if isinstance(v, Ptr):
            return ('p', tuple((c, id(o), f if isinstance(f, int) else f.bits) for c, o, f in v.cases))
        return ('?',)

    def placeholder(self, init, tag):
        ik = self.initkey(init)
        ck = (self.side, ik)
        n = self.mu_count.get(ck, 0)
        self.mu_count[ck] = n + 1
        name = ('mu', ik, n)
        d = self.d
        if isinstance(init, Int):
            v = d.sym(name, init.w)
        elif isinstance(init, FV):
            v = d.fv(d.latom(('mu', name)), init.k)
        elif isinstance(init, Ptr):
            objs = set(o for c, o, f in init.cases)
            if len(objs) == 1:
                o, = objs
                v = Ptr(((1, o, d.sym(name, 64)),)) if o is not None else init
            else:
                v = init
        else:
            raise Unsupported('loop-carried %r' % (init,))
        return name, v

    def mu_loop(self, act, h, edges):
        self.stats['loops_summarised'] += 1
        s0, ph0 = self.merge(edges)
        base_count = dict(self.mu_count)
        havoc = {}      # (obj) -> set of (off,size) or 'all'
        names_out = None
        for attempt in range(8):
            self.mu_count = dict(base_count)
            ev, rs = len(self.events), len(self.results)
            st = State(s0.pc, dict(s0.mem))
            ph = {}
            names = {}
            for k in sorted(ph0, key=str):
                nm, v = self.placeholder(ph0[k], k)
                ph[k] = v
                names[nm] = ('phi', k, ph0[k])
            for o in sorted(havoc, key=lambda o: o.id):
                if havoc[o] == 'all':
                    self.clobber(st, o, 'mu')
                    continue
                for off, size, ty in sorted(havoc[o], key=lambda t: t[:2]):
                    init = self.load1(s0.mem, o, off, ty)
                    nm, v = self.placeholder(init, (o.name, off))
                    names[nm] = ('mem', (o, off, ty), init)
                    self.store1(st.mem, o, off, size, v)
            hdr_mem = dict(st.mem)
            back, exits = self.region(act, h, h, [(st, ph)])
            if not back:
                break
            sb, phb = self.merge(back)
            grew = False
            for o, m in sb.mem.items():
                m0 = hdr_mem.get(o)
                if m0 is m:
                    continue
                if m0 is None:
                    if o.kind == 'alloca' and o not in s0.mem:
                        continue
                    m0 = self.memobj({}, o)
                if havoc.get(o) == 'all':
                    continue
                # find changed cells
                hs = havoc.setdefault(o, set())
                for off in m.offs:
                    sz, v, lc = m.cells[off]
                    c0 = m0.cells.get(off)
                    if c0 is not None and c0[0] == sz and (c0[1] is v or c0[1] == v):
                        continue
                    if isinstance(v, Lazy):
                        # Lazy remainder of a split region: unchanged when it denotes the same source
                        i = bisect_right(m0.offs, off) - 1
                        if i >= 0:
                            oo = m0.offs[i]
                            cc = m0.cells[oo]
                            if isinstance(cc[1], Lazy) and oo + cc[0] >= off + sz and \
                                    Lazy(cc[1].kind, cc[1].name, cc[1].off + off - oo) == v:
                                continue
                        havoc[o] = 'all'
                        grew = True
                        break
                    ty = type_of(v, sz)
                    old = self.load1(hdr_mem, o, off, ty)
                    if self.same(old, v):
                        continue
                    if (off, sz) in {(a, b) for a, b, t in hs}:
                        continue
                    hs.add((off, sz, ty))
                    grew = True
            if not grew:
                break
            del self.events[ev:]
            del self.results[rs:]
        else:
            raise Unsupported('loop summary did not stabilise')
        if back:
            for nm, (k, a, init) in names.items():
                v = phb[a] if k == 'phi' else self.load1(sb.mem, a[0], a[1], a[2])
                self.mu.setdefault(self.side, {})[nm] = (init, v, sb.pc, s0.pc)
        return self.fold_exits(exits)

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Int) and isinstance(b, Int):
            return a.bits == b.bits
        if isinstance(a, FV) and isinstance(b, FV):
            return a.cases == b.cases
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.cases == b.cases
        return False

    # ------------------------------------------------------------- blocks
    def val(self, env, o):
        if o[0] == 'v':
            return env[o[1]]
        return self.constval(o[1])

    def block(self, act, bid, edges):
        fi = act['fi']
        env = act['env']
        blk = fi.blocks[bid]
        st, ph = self.merge(edges)
        for k, v in ph.items():
            env[k] = v
        st = State(st.pc, dict(st.mem))
        d = self.d
        B = d.b
        d.pc = st.pc
        self.stats['blocks'] += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('analysis deadline exceeded')
        for i in blk.instrs:
            self.cur = i
            self.stats['instructions'] += 1
            op = i.op
            if op == 'br':
                if not i.ops:
                    return self.edge(act, bid, [(i.x[0], st.pc)], st)
                c = self.val(env, i.ops[0]).bits[0]
                c1 = B.AND(st.pc, c)
                c0 = B.AND(st.pc, B.NOT(c))
                if self.any_undef and c1 and c0 and self.side != 'spec':
                    self.undef_branch(st.pc, (c1, c0))
                if i.x[0] == i.x[1]:
                    return self.edge(act, bid, [(i.x[0], st.pc)], st)
                return self.edge(act, bid, [(i.x[0], c1), (i.x[1], c0)], st)
            if op == 'switch':
                v = self.val(env, i.ops[0])
                rest = st.pc
                by = {}
                for cv, tgt in i.x[1]:
                    c = d.icmp('eq', v, d.ci(v.w, cv))
                    t = B.AND(rest, c)
                    if t:
                        by[tgt] = B.OR(by.get(tgt, 0), t)
                        rest = B.AND(rest, B.NOT(c))
                if rest:
                    by[i.x[0]] = B.OR(by.get(i.x[0], 0), rest)
                return self.edge(act, bid, list(by.items()), st)
            if op == 'ret':
                v = self.val(env, i.ops[0]) if i.ops else None
                act['rets'].append((st, v))
                return []
            if op == 'unreachable':
                return []
            if op == 'call':
                st2, r = self.do_call(act, st, i)
                if st2 is None:
                    return []
                st = st2
                d.pc = st.pc
                self.cur = i
                if r is not None:
                    env[i.id] = r
                continue
            r = self.instr(act, st, i, env)
            if r is not None:
                env[i.id] = r
        raise Unsupported('block without terminator')

    def edge(self, act, bid, outs, st):
        fi = act['fi']
        env = act['env']
        res = []
        for tgt, pc in outs:
            if pc == 0 or not self.d.feas(pc):
                continue
            ph = {}
            self.d.pc = pc
            for p in fi.blocks[tgt].phis:
                for o, b in zip(p.ops, p.x):
                    if b == bid:
                        v = self.val(env, o)
                        ph[p.id] = v
                        break
            res.append((tgt, State(pc, st.mem), ph))
        return res

    def instr(self, act, st, i, env):
        d = self.d
        op = i.op
        if op == 'load':
            return self.load(st, self.val(env, i.ops[0]), i.ty)
        if op == 'store':
            self.store(st, self.val(env, i.ops[1]), i.x, self.val(env, i.ops[0]))
            return None
        if op == 'getelementptr':
            return self.gep(env, i, st)
        if op == 'alloca':
            n = self.val(env, i.ops[0])
            c = n.const()
            size = i.x.size * c if c is not None else None
            o = Obj('%s.local@%s' % (act['fi'].fn.name, i.line), size, 'alloca')
            act['allocas'].append(o)
            return Ptr(((1, o, 0),))
        if op in ('add', 'sub'):
            x, y = self.val(env, i.ops[0]), self.val(env, i.ops[1])
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                r = self.addr_arith(op, x, y, st)
                if r is not None:
                    return r
                x, y = self.tobits(x, 8), self.tobits(y, 8)
            return d.add(x, y, i.x[0], op == 'sub')
        if op in ('mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem', 'zext', 'sext',
                  'trunc', 'sitofp', 'uitofp'):
            if any(isinstance(self.val(env, o), Ptr) for o in i.ops):
                env = dict((('t', k), self.tobits(v, 8) if isinstance(v, Ptr) else v)
                           for k, v in enumerate([self.val(env, o) for o in i.ops]))
                i = _Shadow(i)
        if op == 'mul':
            return d.mul(self.val(env, i.ops[0]), self.val(env, i.ops[1]), i.x[0])
        if op in ('shl', 'lshr', 'ashr'):
            return d.shift(op, self.val(env, i.ops[0]), self.val(env, i.ops[1]))
        if op in ('and', 'or', 'xor'):
            return d.bitop(op, self.val(env, i.ops[0]), self.val(env, i.ops[1]))
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            return d.divrem(op, self.val(env, i.ops[0]), self.val(env, i.ops[1]))
        if op == 'icmp':
            x, y = self.val(env, i.ops[0]), self.val(env, i.ops[1])
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                return Int(1, (self.pcmp(i.x, x, y),))
            return Int(1, (d.icmp(i.x, x, y),))
        if op == 'fcmp':
            return Int(1, (d.fcmp(i.x, self.val(env, i.ops[0]), self.val(env, i.ops[1])),))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            return d.fop(op, self.val(env, i.ops[0]), self.val(env, i.ops[1]), i.ty.kind)
        if op == 'fneg':
            return d.fun(self.val(env, i.ops[0]), d.lneg, i.ty.kind)
        if op == 'zext':
            return d.zext(self.val(env, i.ops[0]), i.ty.width)
        if op == 'sext':
            return d.sext(self.val(env, i.ops[0]), i.ty.width)
        if op == 'trunc':
            return d.trunc(self.val(env, i.ops[0]), i.ty.width)
        if op in ('sitofp', 'uitofp'):
            return d.cvt(self.val(env, i.ops[0]), op == 'sitofp', i.ty.kind)
        if op in ('fptosi', 'fptoui'):
            return d.fptoi(self.val(env, i.ops[0]), i.ty.width, op == 'fptosi')
        if op == 'fptrunc':
            return d.fun(self.val(env, i.ops[0]), d.f32, 'float')
        if op == 'fpext':
            x = self.val(env, i.ops[0])
            return FV(x.cases, 'double')
        if op == 'select':
            c = self.val(env, i.ops[0]).bits[0]
            return d.ite(c, self.val(env, i.ops[1]), self.val(env, i.ops[2]))
        if op == 'freeze' or op == 'bitcast':
            v = self.val(env, i.ops[0])
            if op == 'bitcast':
                return self.convert(v, i.ty)
            return v
        if op == 'extractvalue':
            v = self.val(env, i.ops[0])
            for k in i.x:
                v = v.elems[k]
            return v
        if op == 'insertvalue':
            v = self.val(env, i.ops[0])
            e = self.val(env, i.ops[1])

            def ins(a, path):
                r = Agg(a.elems)
                r.elems[path[0]] = e if len(path) == 1 else ins(a.elems[path[0]], path[1:])
                return r
            return ins(v, i.x)
        if op == 'ptrtoint':
            v = self.val(env, i.ops[0])
            if i.ty.width == 64 and isinstance(v, Ptr):
                return v
            return d.trunc(self.tobits(v, 8), i.ty.width) if i.ty.width < 64 else self.tobits(v, 8)
        if op == 'inttoptr':
            return self.convert(self.val(env, i.ops[0]), PTR)
        raise Unsupported('instruction %s' % op)

    def addr_arith(self, op, x, y, st):
        d = self.d
        B = d.b
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if op == 'sub':
                r = None
                for c, o, f in x.cases:
                    for c2, o2, f2 in y.cases:
                        q = B.AND(c, c2)
                        if q == 0 or B.AND(q, d.pc) == 0:
                            continue
                        if o is not o2:
                            return None
                        if isinstance(f, int) and isinstance(f2, int):
                            k = d.ci(64, f - f2)
                        else:
                            k = d.add(f if isinstance(f, Int) else d.ci(64, f), f2 if isinstance(f2, Int) else d.ci(64, f2), 0, True)
                        r = k if r is None else d.iite(q, k, r)
                return r
            return None
        if isinstance(y, Ptr):
            if op == 'sub':
                return None
            x, y = y, x
        vals = d.values(y, 520)
        if vals is None:
            return None
        m = {}
        for c, o, f in x.cases:
            if not isinstance(f, int):
                return None
            for v, q in vals:
                if v >> 63:
                    v -= 1 << 64
                t = B.AND(c, q)
                if t:
                    k = (o, f - v if op == 'sub' else f + v)
                    m[k] = B.OR(m.get(k, 0), t)
        return Ptr(tuple((c, o, f) for (o, f), c in m.items()))

    def pcmp(self, pred, x, y):
        B = self.d.b
        if isinstance(x, Int):
            x = self.convert(x, PTR)
        if isinstance(y, Int):
            y = self.convert(y, PTR)
        r = 0
        for c1, o1, f1 in x.cases:
            for c2, o2, f2 in y.cases:
                c = B.AND(c1, c2)
                if c == 0 or B.AND(c, self.d.pc) == 0:
                    continue
                if o1 is o2 and isinstance(f1, int) and isinstance(f2, int):
                    t = {'eq': f1 == f2, 'ne': f1 != f2, 'ult': f1 < f2, 'ule': f1 <= f2, 'ugt': f1 > f2,
                         'uge': f1 >= f2}[pred]
                    t = 1 if t else 0
                elif o1 is o2:
                    a = f1 if isinstance(f1, Int) else self.d.ci(64, f1)
                    b = f2 if isinstance(f2, Int) else self.d.ci(64, f2)
                    t = self.d.icmp(pred, a, b)
                elif pred == 'eq':
                    t = 0
                elif pred == 'ne':
                    t = 1
                elif o1 is None or o2 is None:
                    t = 1 if pred[1] == ('l' if o1 is None else 'g') else 0
                else:
                    # distinct objects: some fixed but unknown address order
                    oa, ob = (o1, o2) if o1.id < o2.id else (o2, o1)
                    lt = B.newvar(('below', oa.name, oa.id, ob.name, ob.id), 0)
                    t = lt if (pred[1] == 'l') == (oa is o1) else B.NOT(lt)
                r = B.OR(r, B.AND(c, t))
        return r

    def gep(self, env, i, st):
        d = self.d
        B = d.b
        base = self.val(env, i.ops[0])
        ty = i.x
        off = 0
        sym = []
        first = True
        for o in i.ops[1:]:
            v = self.val(env, o)
            c = v.const()
            if c is not None and c >> (v.w - 1):
                c -= 1 << v.w
            if first:
                stride = ty.size
                first = False
            elif ty.kind == 'struct':
                off += ty.offs[c]
                ty = ty.elems[c]
                continue
            else:
                ty = ty.elem
                stride = ty.size
            if c is not None:
                off += c * stride
            else:
                sym.append((v, stride))
        cases = [(c, o, (f + off) if isinstance(f, int) else
                  (d.add(f, d.ci(64, off)) if off else f)) for c, o, f in base.cases]
        for v, stride in sym:
            v64 = d.sext(v, 64) if v.w < 64 else v
            n = []
            for c, o, f in cases:
                cc = B.AND(c, st.pc)
                if cc == 0:
                    continue
                vals = None
                if isinstance(f, int) and o is not None:
                    d.pc = cc
                    lim = 520 if (o.size is None or o.kind != 'global' or o.size < 8192) else 40
                    vals = d.values(v, lim)
                    d.pc = st.pc
                if vals is not None:
                    for val, q in vals:
                        if val >> (v.w - 1):
                            val -= 1 << v.w
                        t = B.AND(c, q)
                        if t:
                            n.append((t, o, f + val * stride))
                else:
                    s = d.mul(v64, d.ci(64, stride), True)
                    n.append((c, o, d.add(s, d.ci(64, f) if isinstance(f, int) else f)))
            cases = n
            if len(cases) > 3000:
                raise Unsupported('pointer fan-out')
        # merge equal targets
        m = {}
        for c, o, f in cases:
            k = (o, f if isinstance(f, int) else f.bits)
            m[k] = (B.OR(m[k][0], c) if k in m else c, o, f)
        return Ptr(tuple(m.values()))

    # ------------------------------------------------------------- calls
    def do_call(self, act, st, i):
        env = act['env']
        callee, byval = i.x
        args = [self.val(env, o) if o[0] != 'meta' else None for o in i.ops]
        if callee[0] == 'func':
            return self.call_fn(st, callee[1], args, i)
        if callee[0] == 'asm':
            raise Unsupported('inline asm')
        p = self.val(env, callee)
        B = self.d.b
        outs = []
        for c, o, f in p.cases:
            t = B.AND(c, st.pc)
            if t == 0 or not self.d.feas(t):
                continue
            s = State(t, dict(st.mem))
            self.d.pc = t
            if o is None:
                self.on_ub('nullcall', t, 'call through a null function pointer')
                continue
            if not isinstance(o, Obj):
                s, r = self.call_fn(s, o, args, i)
            else:
                r = self.indirect(s, o, args, i)
            if s is not None:
                outs.append((s, {'r': r} if r is not None else {}))
        if not outs:
            return None, None
        s, ph = self.merge(outs)
        self.d.pc = s.pc
        return s, ph.get('r')

    def indirect(self, st, o, args, i):
        """call through an unknown function pointer (callback)"""
        if 'log_' in o.name:
            self.logs_called += 1
        if i.ty.kind == 'void':
            return None
        return self.opq_value(('callback', o.name) + tuple(self.argkey(a) for a in args), i.ty)

    def argkey(self, a):
        return self.initkey(a) if a is not None else None

    def call_fn(self, st, fn, args, i):
        name = fn.name
        if name.startswith('__unassigned_'):
            # one unknown per variable
            return st, self.mat(Lazy('undef', ('v', self.stack[-1] if self.stack else '', i.id), 0), 0, i.ty)
        if name in self.stubs and self.stubs[name] not in self.stack:
            fn = self.mod.funcs[self.stubs[name]]
            return self.call(st, fn, args)
        if name in self.opaque_fns:
            return self.opaque_fns[name](self, st, fn, args, i)
        h = INTRIN.get(name)
        if h is None and name.startswith('llvm.'):
            for pre, hh in LLVM_INTRIN:
                if name.startswith(pre):
                    h = hh
                    break
            else:
                raise Unsupported('intrinsic %s' % name)
        if h is None and name.startswith('spec_'):
            h = getattr(self, name, None)
            if h is not None:
                return h(st, args, i)
        if h is not None:
            r = h(self, st, args, i)
            if r is DEAD:
                return None, None
            return st, r
        base = name[:-1] if name.endswith('f') else name
        if fn.decl and (name in LIBM1 or name in LIBM2 or base in LIBM1 or base in LIBM2):
            k = i.ty.kind
            nm = name if (name in LIBM1 or name in LIBM2) else base
            if self.any_undef and self.side != 'spec':
                for v in args:
                    if any(self.d.b.AND(c, st.pc) and self.undef_leaf(l) for c, l in v.cases):
                        self.on_ub('uninit', st.pc, 'the argument of %s depends on memory that was never written' % nm)
                        break
            return st, self.d.fcall(nm, args, k)
        return self.call(st, fn, args)

    # ------------------------------------------------------- spec intrinsics
    def cstr(self, st, p):
        if len(p.cases) != 1 or p.cases[0][1] is None:
            return '?'
        c, o, f = p.cases[0]
        s = b''
        while len(s) < 4000:
            v = self.load1(st.mem, o, f, I8).const()
            if not v:
                break
            s += bytes([v])
            f += 1
        return s.decode('utf8', 'replace')

    def record(self, kind, ok, msg, cond, detail='', locs=None):
        self.results.append(dict(kind=kind, ok=ok, msg=msg, cond=cond, detail=detail, at=self.loc(), locs=locs))
        if not ok and kind != 'cover':
            self.nbad += 1
            if self.nbad >= self.maxbad:
                raise Budget('%d obligations refuted' % self.nbad)

    def spec_side(self, st, args, i):
        v = args[0].const()
        self.side = 'spec' if v else 'lib'
        return st, None

    def spec_assume(self, st, args, i):
        B = self.d.b
        c = self.d.icmp('ne', args[0], self.d.ci(args[0].w, 0))
        pc = B.AND(st.pc, c)
        if not self.d.feas(pc):
            return None, None
        return State(pc, st.mem), None

    def spec_check(self, st, args, i):
        B = self.d.b
        c = self.d.icmp('ne', args[0], self.d.ci(args[0].w, 0))
        bad = refute(self.d, B.AND(B.AND(st.pc, self.d.axioms), B.NOT(c)))
        msg = self.cstr(st, args[1])
        self.record('check', bad == 0, msg, bad)
        return st, None

    def spec_cover(self, st, args, i):
        """non-vacuity: the condition must be feasible here"""
        B = self.d.b
        c = self.d.icmp('ne', args[0], self.d.ci(args[0].w, 0))
        good = B.AND(B.AND(st.pc, self.d.axioms), c)
        self.record('cover', good != 0, self.cstr(st, args[1]), good)
        return st, None

    def spec_eq(self, st, x, y, msg, locs=None):
        d = self.d
        d.pc = st.pc
        diff = refute(d, d.eq_cond(x, y, st.pc))
        det = ''
        if diff == 0:
            bad = self.mu_check(x, y, st.pc)
            if bad:
                diff = st.pc
                det = bad
        if diff and not det:
            det = 'library: %s\n      spec:    %s' % (d.show(x, diff), d.show(y, diff))
        self.record('eq', diff == 0, msg, diff, det, locs)

    def mu_check(self, *vals):
        """names of loop summaries in vals: the two sides' loops must have equal bodies"""
        lib, spec = self.mu.get('lib', {}), self.mu.get('spec', {})
        if not lib or not spec:
            return None
        todo = set()
        for v in vals:
            todo |= self.mu_names(v)
        seen = set()
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if n in lib and n in spec:
                _, a, pa, qa = lib[n]
                _, b, pb, qb = spec[n]
                care = self.d.b.OR(pa, pb)
                if self.d.b.AND(self.d.axioms, self.d.b.XOR(pa, pb)):
                    return 'loop continuation conditions differ: library %s / spec %s' % (
                        self.d.show_cond(self.d.b.AND(pa, self.d.b.NOT(pb))), self.d.show_cond(self.d.b.AND(pb, self.d.b.NOT(pa))))
                if self.d.eq_cond(a, b, care):
                    return 'loop bodies differ: library next=%s / spec next=%s' % (self.d.show(a), self.d.show(b))
                todo |= self.mu_names(a) | self.mu_names(b)
                todo |= self.cond_names(pa)
        return None

    def mu_names(self, v):
        out = set()
        d = self.d

        def fromkey(key):
            for b in key:
                if b > 1:
                    for l in d.b.support(b):
                        nm = d.b.names[l]
                        nm_atoms(nm)

        def nm_atoms(nm):
            if isinstance(nm, tuple):
                if nm and nm[0] == 'mu' and len(nm) == 3:
                    out.add(nm)
                elif nm and nm[0] in ('lt', 'eq') and nm in d.cmp_desc:
                    leaf(d.cmp_desc[nm][0])
                elif len(nm) == 2 and isinstance(nm[0], tuple):
                    nm_atoms(nm[0])

        seen = set()

        def leaf(l):
            if l.id in seen:
                return
            seen.add(l.id)
            for m in l.poly:
                for at, e in m:
                    ds = d.atoms[at]
                    if ds[0] == 'mu':
                        out.add(ds[1])
                    elif ds[0] == 'cvt':
                        fromkey(ds[1])
                    elif ds[0] in ('in', 'in32', 'call', 'bool', 'bitsf', 'nan', 'inf', 'div0'):
                        pass
                    else:
                        for x in ds[1:]:
                            if isinstance(x, int):
                                leaf(d.leaf_list[x])
        if isinstance(v, FV):
            for c, l in v.cases:
                leaf(l)
                fromkey((c,))
        elif isinstance(v, Int):
            fromkey(v.bits)
        return out

    def cond_names(self, c):
        return self.mu_names(Int(1, (c,)))

    def spec_eq_u(self, st, args, i):
        self.spec_eq(st, args[0], args[1], self.cstr(st, args[2]))
        return st, None

    spec_eq_i = spec_eq_u
    spec_eq_d = spec_eq_u
    spec_eq_p = spec_eq_u

    def spec_begin(self, st, args, i):
        """an independent sub-problem: assumptions and fresh names are local to it"""
        self.scopes.append((st.pc, dict(self.fresh_n), dict(self.d.cuts)))
        return st, None

    def spec_end(self, st, args, i):
        pc, self.fresh_n, self.d.cuts = self.scopes.pop()
        self.d.fold_cache.clear()
        self.d.pc = pc
        return State(pc, st.mem), None

    def fresh(self, nm):
        n = self.fresh_n.get(nm, 0)
        self.fresh_n[nm] = n + 1
        return nm if n == 0 else '%s#%d' % (nm, n + 1)

    def spec_any_u(self, st, args, i):
        """spec_any_u(nbits, name) -> u64 with nbits free bits"""
        n = args[0].const()
        nm = self.fresh(self.cstr(st, args[1]))
        return st, self.d.sym(('sym', nm, 0), 64, n)

    def spec_any_i(self, st, args, i):
        n = args[0].const()
        nm = self.fresh(self.cstr(st, args[1]))
        x = self.d.sym(('sym', nm, 0), n)
        return st, self.d.sext(x, 64)

    def spec_any_d(self, st, args, i):
        return st, self.d.fv(self.d.latom(('in', ('sym', self.fresh(self.cstr(st, args[0])), 0))), 'double')

    def spec_any_f(self, st, args, i):
        return st, self.d.fv(self.d.latom(('in32', ('sym', self.fresh(self.cstr(st, args[0])), 0))), 'float')

    def spec_fill(self, st, args, i):
        """spec_fill(ptr, n, name): contents become symbolic, identical for equal names"""
        (c, o, f), = args[0].cases
        n = args[1].const()
        nm = self.fresh(self.cstr(st, args[2]))
        m = self.memobj(st.mem, o)
        no, cells = self.carve(m, f, n)
        cells[f] = (n, Lazy('sym', nm, 0), None)
        no.append(f)
        no.sort()
        st.mem[o] = MemObj(no, cells)
        return st, None

    def spec_reads(self, st, args, i):
        """spec_depends(double/u64...) not used"""
        return st, None

    def spec_cut(self, st, args, i):
        """name a value: from now on whatever evaluates to the same normal form is that name, on both sides"""
        d = self.d
        v = args[0]
        name = self.cstr(st, args[1])
        n = [0]

        def f(l):
            if len(l.poly) < 2:
                return l
            r = d.fold(l)
            if r is l:
                n[0] += 1
                # (never the name of another value, also not of one from an earlier sub-problem)
                k = self.cut_n[name] = self.cut_n.get(name, 0) + 1
                r = d.latom(('in', ('sym', name if k == 1 else '%s~%d' % (name, k), 0)))
                d.cuts[d.lkey(l)] = r
            return r
        return st, d.fun(v, f, v.k)

    def spec_is(self, st, args, i):
        """1 when both values have the same normal form (on every case), else 0"""
        d = self.d
        a, b = [{d.lkey(d.fold(l)) for _, l in v.cases} for v in args]
        return st, self.d.ci(32, int(len(a) == 1 and a == b))

    def spec_nan_aware(self, st, args, i):
        self.d.nan_aware = bool(args[0].const())
        return st, None

    def spec_ub_off(self, st, args, i):
        self.quiet_ub = args[0].const()
        return st, None

    def spec_eq_cells(self, st, args, i):
        """spec_eq_cells(pa, pb, n, msg): typed comparison of two regions, cell by cell"""
        (c1, a, fa), = args[0].cases
        (c2, b, fb), = args[1].cases
        n = args[2].const()
        msg = self.cstr(st, args[3])
        pts = set()
        ma, mb = self.memobj(st.mem, a), self.memobj(st.mem, b)
        seg = {}
        for m, f in ((ma, fa), (mb, fb)):
            for o in m.offs:
                sz, v, lc = m.cells[o]
                if o + sz <= f or o >= f + n:
                    continue
                if not isinstance(v, Lazy):
                    t = type_of(v, sz)
                    k = o - f
                    if k not in seg or seg[k].size < t.size:
                        seg[k] = t
        p = 0
        for k in sorted(seg):
            if k < p:
                continue
            t = seg[k]
            x = self.load1(st.mem, a, fa + k, t)
            y = self.load1(st.mem, b, fb + k, t)
            if type(x) is not type(y):
                x, y = self.tobits(x, t.size), self.tobits(y, t.size)
            self.spec_eq(st, x, y, '%s at offset %d' % (msg, k))
            p = k + t.size
        # untouched remainder must be the same source on both sides
        for off in range(0, n):
            pass
        return st, None

    def spec_same_bytes(self, st, args, i):
        """spec_same_bytes(pa, pb, n, msg): regions equal byte for byte (any typing)"""
        (c1, a, fa), = args[0].cases
        (c2, b, fb), = args[1].cases
        n = args[2].const()
        msg = self.cstr(st, args[3])
        ma, mb = self.memobj(st.mem, a), self.memobj(st.mem, b)
        k = 0
        while k < n:
            ca, cb = self.cell_at(ma, fa + k), self.cell_at(mb, fb + k)
            step = 1
            if ca and cb:
                (oa, sa, va), (ob, sb, vb) = ca, cb
                if isinstance(va, Lazy) and isinstance(vb, Lazy):
                    step = min(oa + sa - fa, ob + sb - fb) - k
                    la = Lazy(va.kind, va.name, va.off + fa + k - oa)
                    lb = Lazy(vb.kind, vb.name, vb.off + fb + k - ob)
                    if la == lb:
                        k += step
                        continue
                    step = 1
                elif oa - fa == k or ob - fb == k:
                    v, sz = (va, sa) if (not isinstance(va, Lazy) and oa - fa == k) else (vb, sb)
                    if not isinstance(v, Lazy) and k + sz <= n:
                        t = type_of(v, sz)
                        x, y = self.load1(st.mem, a, fa + k, t), self.load1(st.mem, b, fb + k, t)
                        if type(x) is not type(y):
                            x, y = self.tobits(x, sz), self.tobits(y, sz)
                        self.spec_eq(st, x, y, '%s at offset %d' % (msg, k))
                        k += sz
                        continue
            x, y = self.load1(st.mem, a, fa + k, I8), self.load1(st.mem, b, fb + k, I8)
            self.spec_eq(st, x, y, '%s at offset %d' % (msg, k))
            k += step
        return st, None

    def cell_at(self, m, off):
        i = bisect_right(m.offs, off) - 1
        if i < 0:
            return None
        o = m.offs[i]
        c = m.cells[o]
        if off >= o + c[0]:
            return None
        return o, c[0], c[1]

    def spec_note(self, st, args, i):
        print('NOTE', self.cstr(st, args[0]), [self.d.show(a, st.pc) for a in args[1:]])
        return st, None

    def spec_pc(self, st, args, i):
        print('PC', self.d.show_cond(st.pc), self.d.b.size(st.pc))
        return st, None


class _Dead:
    pass


DEAD = _Dead()


def collect_globals(c, out):
    if c[0] == 'global':
        out.add(c[1].name)
    elif c[0] == 'gep':
        for o in c[2]:
            collect_globals(o, out)
    elif c[0] == 'agg':
        for o in c[2]:
            collect_globals(o, out)
    elif c[0] == 'cexpr':
        for o in c[3]:
            collect_globals(o, out)


def mergeloc(a, b):
    s = set()
    for x in (a, b):
        if x is None:
            continue
        if isinstance(x, frozenset):
            s |= x
        else:
            s.add(x)
    return frozenset(s)


def relname(f):
    if not f:
        return '?'
    return f[len(REPO) + 1:] if f.startswith(REPO + '/') else f


class _T:
    def __init__(self, kind, width, size):
        self.kind, self.width, self.size = kind, width, size
        self.elems = self.elem = self.offs = None

    def __repr__(self):
        return '%s%d' % (self.kind, self.width)

    def __eq__(self, o):
        return self.kind == o.kind and self.width == o.width

    def __hash__(self):
        return hash((self.kind, self.width))


I8 = _T('int', 8, 1)
PTR = _T('ptr', 64, 8)
_TS = {}


def type_of(v, size):
    if isinstance(v, Int):
        k = ('int', size * 8, size)
    elif isinstance(v, FV):
        k = (v.k, size * 8, size)
    elif isinstance(v, Ptr):
        return PTR
    else:
        raise Unsupported('type_of %r' % (v,))
    t = _TS.get(k)
    if t is None:
        t = _TS[k] = _T(*k)
    return t


# ------------------------------------------------------------------ externs
def x_memcpy(I, st, args, i):
    n = args[2].const()
    dst, src = args[0], args[1]
    if n == 0:
        return dst
    if n is None:
        # unknown length: destination clobbered
        vals = I.d.values(args[2], 64)
        if vals is None:
            unknown_len(I, st, dst, args[2], True)
            unknown_len(I, st, src, args[2], False)
            for c, o, f in dst.cases:
                if o is not None:
                    I.clobber(st, o, 'memcpy')
            return dst
        B = I.d.b
        base = dict(st.mem)
        acc = None
        for v, c in vals:
            t = B.AND(st.pc, c)
            if t == 0:
                continue
            s = State(t, dict(base))
            I.d.pc = t
            if v:
                copy_bytes(I, s, dst, src, v)
            acc = (s, {}) if acc is None else I.merge([acc, (s, {})])
        st.mem.clear()
        st.mem.update(acc[0].mem)
        I.d.pc = st.pc
        return dst
    copy_bytes(I, st, dst, src, n)
    return dst


def unknown_len(I, st, p, n, write):
    lo, hi = I.d.irange(n, False)
    I.resolve(st, p, max(int(hi), 1), write)


def copy_bytes(I, st, dst, src, n):
    B = I.d.b
    ds = I.resolve(st, dst, n, True)
    ss = I.resolve(st, src, n, False)
    if len(ds) == 1 and len(ss) == 1 and isinstance(ds[0][2], int) and isinstance(ss[0][2], int):
        I.copy_range(st.mem, ds[0][1], ds[0][2], ss[0][1], ss[0][2], n)
        return
    base = dict(st.mem)
    for c1, o1, f1 in ds:
        if not isinstance(f1, int):
            I.clobber(st, o1, 'memcpy')
            continue
        for c2, o2, f2 in ss:
            c = B.restrict(B.AND(c1, c2), st.pc)
            if c == 0:
                continue
            if not isinstance(f2, int):
                I.clobber(st, o1, 'memcpy')
                continue
            tmp = dict(base)
            I.copy_range(tmp, o1, f1, o2, f2, n)
            st.mem[o1] = I.merge_obj(c, tmp[o1], I.memobj(st.mem, o1))


def x_memset(I, st, args, i):
    n = args[2].const()
    v = args[1]
    b = I.d.trunc(v, 8) if v.w > 8 else v
    B = I.d.b
    if n == 0:
        return args[0]
    if n is None:
        vals = I.d.values(args[2], 64)
        if vals is None:
            unknown_len(I, st, args[0], args[2], True)
            for c, o, f in args[0].cases:
                if o is not None:
                    I.clobber(st, o, 'memset')
            return args[0]
        base = dict(st.mem)
        acc = None
        for nn, c in vals:
            t = B.AND(st.pc, c)
            if t == 0:
                continue
            s = State(t, dict(base))
            I.d.pc = t
            if nn:
                x_memset(I, s, [args[0], v, I.d.ci(64, nn)], i)
            acc = (s, {}) if acc is None else I.merge([acc, (s, {})])
        st.mem.clear()
        st.mem.update(acc[0].mem)
        I.d.pc = st.pc
        return args[0]
    lz = Lazy('zero', 0, 0) if b.const() == 0 else Lazy('fill', FillByte(b.bits), 0)
    for c, o, f in I.resolve(st, args[0], n, True):
        if not isinstance(f, int):
            I.clobber(st, o, 'memset')
            continue
        cr = B.restrict(c, st.pc)
        m = I.memobj(st.mem, o)
        no, cells = I.carve(m, f, n)
        cells[f] = (n, lz, I.loc())
        k = bisect_right(no, f)
        nm = MemObj(no[:k] + [f] + no[k:], cells)
        st.mem[o] = nm if cr == 1 else I.merge_obj(cr, nm, m)
    return args[0]


class _Shadow:
    """an instruction whose operands were converted to plain integers"""

    def __init__(self, i):
        self.op, self.x, self.ty, self.line, self.file = i.op, i.x, i.ty, i.line, i.file
        self.ops = [('v', ('t', k)) for k in range(len(i.ops))]


class FillByte:
    def __init__(self, bits):
        self.bits = bits

    def __eq__(self, o):
        return isinstance(o, FillByte) and self.bits == o.bits

    def __hash__(self):
        return hash(self.bits)


def x_memcmp(I, st, args, i):
    n = args[2].const()
    if n is None:
        vals = I.d.values(args[2], 16)
        if vals is None:
            raise Unsupported('memcmp of unknown length')
        r = None
        for v, c in vals:
            x = x_memcmp(I, st, [args[0], args[1], I.d.ci(64, v)], i)
            r = x if r is None else I.d.iite(c, x, r)
        return r
    d = I.d
    B = d.b
    eq = 1
    lt = 0
    und = 1
    I.resolve(st, args[0], n, False)
    I.resolve(st, args[1], n, False)
    for k in range(n):
        a = I.load(st, padd(args[0], k), I8)
        b = I.load(st, padd(args[1], k), I8)
        e = d.eq_bits(a.bits, b.bits)
        lt = B.OR(lt, B.AND(eq, d.ult_bits(a.bits, b.bits)))
        eq = B.AND(eq, e)
    # -1 / 0 / 1
    one = B.NOT(eq)
    neg = B.AND(lt, one)
    return Int(i.ty.width, (one,) + (neg,) * (i.ty.width - 1))


def padd(p, k):
    return Ptr(tuple((c, o, f + k) for c, o, f in p.cases))


def x_strlen(I, st, args, i):
    d = I.d
    r = None
    for c, o, f in args[0].cases:
        if o is None or not I.d.feas(I.d.b.AND(c, st.pc)):
            continue
        v = None
        lim = o.size if o.size is not None else f + 300
        seen = []
        notz = 1
        k = f
        while k < lim:
            ch = I.load1(st.mem, o, k, I8)
            z = d.eq_bits(ch.bits, (0,) * 8)
            seen.append((d.b.AND(notz, z), k - f))
            notz = d.b.AND(notz, d.b.NOT(z))
            if d.b.AND(notz, st.pc) == 0:
                break
            k += 1
        else:
            if d.feas(d.b.AND(notz, st.pc)):
                I.on_ub('oob', d.b.AND(notz, st.pc), 'strlen reads past the end of %s' % o.name)
        for q, n in seen:
            x = d.ci(64, n)
            v = x if v is None else d.iite(q, x, v)
        r = v if r is None else d.iite(c, v, r)
    return r if r is not None else I.undef(i.ty)


def x_strcmp(I, st, args, i):
    d = I.d
    B = d.b
    res = None
    for c1, o1, f1 in args[0].cases:
        for c2, o2, f2 in args[1].cases:
            c = B.AND(c1, c2)
            if c == 0 or o1 is None or o2 is None or not d.feas(B.AND(c, st.pc)):
                if c and d.feas(B.AND(c, st.pc)):
                    I.on_ub('null', B.AND(c, st.pc), 'strcmp of a null pointer')
                continue
            eq = 1
            lt = 0
            live = 1
            k = 0
            while live and k < 300:
                if (o1.size is not None and f1 + k >= o1.size) or (o2.size is not None and f2 + k >= o2.size):
                    if d.feas(B.AND(B.AND(c, live), st.pc)):
                        I.on_ub('oob', B.AND(B.AND(c, live), st.pc), 'strcmp reads past the end')
                    break
                a = I.load1(st.mem, o1, f1 + k, I8)
                b = I.load1(st.mem, o2, f2 + k, I8)
                e = d.eq_bits(a.bits, b.bits)
                z = d.eq_bits(a.bits, (0,) * 8)
                lt = B.OR(lt, B.AND(live, d.ult_bits(a.bits, b.bits)))
                eq = B.AND(eq, B.OR(B.NOT(live), e))
                live = B.AND(live, B.AND(e, B.NOT(z)))
                if B.AND(live, B.AND(c, st.pc)) == 0:
                    break
                k += 1
            one = B.NOT(eq)
            neg = B.AND(lt, one)
            v = Int(32, (one,) + (neg,) * 31)
            res = v if res is None else d.iite(c, v, res)
    return res if res is not None else I.undef(i.ty)


def bounded(I, l, cond):
    d = I.d
    lo, hi = d.leaf_bounds(l, cond)
    return lo is not None and hi is not None and -10**38 < lo and hi < 10**38


Interp.bounded = bounded


def x_modf(I, st, args, i):
    d = I.d
    k = i.ty.kind
    x = args[0]
    t = d.fun(x, lambda l: d.lfn('trunc', l), k)
    ty = type_of(FV((), k), 8 if k == 'double' else 4)
    I.store(st, args[1], ty, t)
    # exact: |x| < 2^24/2^53 domain; fractional part x - trunc(x)
    def frac(l):
        c = d.lc(l)
        if c is not None:
            return d.ladd(l, d.lconst(int(c)), -1)
        return d.ladd(l, d.lfn('trunc', l), -1)
    return d.fun(x, frac, k)


def x_fpclass(I, st, args, i):
    d = I.d
    B = d.b
    mask = args[1].const()
    r = 0
    for c, l in args[0].cases:
        v = d.lc(l)
        atoms = d.leaf_atoms(l)
        if v is not None:
            f = float(v)
            cls = 0x40 | 0x20 if f == 0 else (0x100 if f > 0 else 0x8)   # +0/-0, normals
            t = 1 if mask & cls else 0
        elif l is d.latom(('nan',)):
            t = 1 if mask & 3 else 0
        elif all(d.atoms[a][0] in ('cvt', 'bool') for a in atoms) or \
                (not d.nan_aware and I.bounded(l, B.AND(d.pc, c))):
            t = 1 if (mask & 0x1f8) == 0x1f8 else 0 if not mask & 0x1f8 else None
            if t is None:
                raise Unsupported('fpclass mask %x' % mask)
        else:
            base = l
            # rounding to float keeps non-finiteness of doubles (and may create it)
            nm = ('fpclass', mask if mask != 0x207 else 0x1f8, d.canon(d.norm(base)[1]) if base.poly else 0)
            t = B.newvar(nm, 0)
            if mask == 0x207:
                t = B.NOT(t)
        r = B.OR(r, B.AND(c, t))
    return Int(1, (r,))


def x_assert_fail(I, st, args, i):
    msg = I.cstr(st, args[0])
    c = refute(I.d, st.pc)
    if c:
        I.events.append(('assert', I.loc(), I.stack[-1], c, msg, tuple(I.stack)))
    return DEAD


def x_nop(I, st, args, i):
    if i.ty.kind == 'void':
        return None
    return I.undef(i.ty)


def x_exit(I, st, args, i):
    return DEAD


INTRIN = {'memcpy': x_memcpy, 'memmove': x_memcpy, 'memset': x_memset, 'memcmp': x_memcmp, 'strlen': x_strlen,
          'strcmp': x_strcmp, 'modf': x_modf, 'modff': x_modf, '__assert_fail': x_assert_fail, 'fprintf': x_nop,
          'vfprintf': x_nop, 'printf': x_nop, 'abort': x_exit, 'exit': x_exit}
LLVM_INTRIN = [('llvm.memcpy', x_memcpy), ('llvm.memmove', x_memcpy), ('llvm.memset', x_memset),
               ('llvm.is.fpclass', x_fpclass), ('llvm.stacksave', x_nop), ('llvm.stackrestore', x_nop),
               ('llvm.va_start', x_nop), ('llvm.va_end', x_nop), ('llvm.lifetime', x_nop), ('llvm.dbg', x_nop),
               ('llvm.assume', x_nop), ('llvm.fabs', lambda I, st, a, i: I.d.fcall('fabs', a, i.ty.kind))]
