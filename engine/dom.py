"""Abstract domain: decision trees (BDD guards) over
 - bit-level integers (each bit a Boolean function of input bits / predicates, plus an exact linear form),
 - real-valued expressions in polynomial normal form over opaque atoms,
 - pointers (object, offset).
Values at control-flow joins are merged by guard; nothing is run and no solver is called.
"""
import bisect
import heapq
import math
import random
import struct
from fractions import Fraction
from bdd import Bdd, BddLimit


class Unsupported(Exception):
    pass


# --------------------------------------------------------------------- numbers
def rndc(x, bits=80):
    """bound the size of a coefficient"""
    n, d = x.numerator, x.denominator
    if n == 0:
        return x
    if d == 1 and n.bit_length() <= 200:
        return x
    if d > 1 << 40:
        k = (2 * n + d) // (2 * d)
        if k and abs(k) < 1 << 50 and (abs(n - k * d) << 68) < abs(k) * d:
            return Fraction(k)
    if d & (d - 1) == 0 and abs(n).bit_length() <= 160:
        return x
    # round to `bits` significant bits
    e = abs(n).bit_length() - d.bit_length() - bits
    if e >= 0:
        q = Fraction(n, d << e)
    else:
        q = Fraction(n << -e, d)
    q = round(q)
    r = Fraction(q << e) if e >= 0 else Fraction(q, 1 << -e)
    return r


def keyc(x, bits=38):
    """rounded coefficient used in hash keys"""
    n, d = x.numerator, x.denominator
    if n == 0:
        return (0, 0)
    e = abs(n).bit_length() - d.bit_length() - bits
    q = Fraction(n, d << e) if e >= 0 else Fraction(n << -e, d)
    q = round(q)
    while q and q % 2 == 0:
        q //= 2
        e += 1
    return (q, e)


class Leaf:
    """hash-consed Laurent polynomial over atoms"""
    __slots__ = ('id', 'poly', 'special')

    def __repr__(self):
        return 'L%d' % self.id


class Int:
    __slots__ = ('w', 'bits', 'lin')

    def __init__(self, w, bits, lin=None):
        self.w = w
        self.bits = bits
        self.lin = lin   # (const, ((key,coef),...), lo, hi) or None

    def __repr__(self):
        c = self.const()
        return 'i%d:%s' % (self.w, c if c is not None else self.bits)

    def const(self):
        v = 0
        for i, b in enumerate(self.bits):
            if b > 1:
                return None
            v |= b << i
        return v


class FV:
    """float value: tuple of (cond, Leaf)"""
    __slots__ = ('cases', 'k')

    def __init__(self, cases, k):
        self.cases = cases
        self.k = k   # 'float' | 'double'

    def __repr__(self):
        return 'FV%r' % (self.cases,)


class Ptr:
    """tuple of (cond, obj, off); obj None = null/absolute, off int or Int(64)"""
    __slots__ = ('cases',)

    def __init__(self, cases):
        self.cases = cases

    def __repr__(self):
        return 'Ptr%r' % (self.cases,)


class Lazy:
    """contents not yet typed: source is a symbolic region / undef / zero / constant"""
    __slots__ = ('kind', 'name', 'off')

    def __init__(self, kind, name, off):
        self.kind = kind      # 'sym' 'undef' 'zero' 'const' 'byte'
        self.name = name
        self.off = off

    def __eq__(self, o):
        if not (isinstance(o, Lazy) and self.kind == o.kind):
            return False
        if self.kind == 'zero':
            return True
        return self.name == o.name and self.off == o.off

    def __hash__(self):
        return hash((self.kind, self.name, self.off))

    def __repr__(self):
        return 'Lazy(%s,%s,%s)' % (self.kind, self.name, self.off)


class Agg:
    __slots__ = ('elems',)

    def __init__(self, elems):
        self.elems = list(elems)


COMM_FN = {'fmax', 'fmin'}


class Dom:
    def __init__(self):
        self.cuts, self.fold_cache = {}, {}
        self.narrow = self.noround = self.signs = False
        self.b = Bdd()
        self.pc = 1
        self.axioms = 1
        self.leaves = {}
        self.leaf_list = []
        self.atoms = []          # id -> descr tuple
        self.atom_id = {}
        self.thr = {}            # compare chains: key -> {const: (lt, eq)}
        self.cmp_desc = {}
        self.eq_nodes = {}
        self.f2i_src = {}
        self.nan_aware = False
        self.pending = []        # constraints to add to the path condition
        self.ub = None           # callback(kind, cond)
        self.rip_budget = 40000
        self.term_desc = {}
        self.ranges = {}         # atom id -> (lo,hi)
        self.zero = self.leaf({})
        self.rangecache = {}
        self.icorr = {}
        self.thr_order = {}
        self.ibcache = {}
        self.stats = {'atoms': 0, 'cmps': 0}
        self.eq_cache = {}

    # ------------------------------------------------------------------ ints
    def ci(self, w, v):
        v &= (1 << w) - 1
        return Int(w, tuple((v >> i) & 1 for i in range(w)))

    def sym(self, name, w, nbits=None):
        """w-bit symbolic integer; only the low nbits are free (others 0)"""
        n = w if nbits is None else nbits
        return Int(w, tuple(self.b.newvar((name, i), i) for i in range(n)) + (0,) * (w - n))

    def opaque(self, desc, w):
        """opaque integer term (uninterpreted function of its operands)"""
        self.term_desc.setdefault(desc, len(self.term_desc))
        return self.sym(('t', desc), w)

    @staticmethod
    def strip(bits, signed=True):
        """canonical two's complement key of a bit tuple read as signed"""
        n = len(bits)
        while n > 1 and bits[n - 1] == bits[n - 2]:
            n -= 1
        return bits[:n]

    def krange(self, key):
        """range of a stripped signed key, using constant bits"""
        n = len(key)
        lo = hi = 0
        for i, b in enumerate(key):
            wgt = (1 << i) if i < n - 1 else -(1 << i)
            if b == 1:
                lo += wgt
                hi += wgt
            elif b != 0:
                if wgt > 0:
                    hi += wgt
                else:
                    lo += wgt
        return lo, hi

    def linof(self, x):
        """(const, {key:coef}, lo, hi) exact modulo 2^w"""
        if x.lin is not None:
            c, t, lo, hi = x.lin
            return c, dict(t), lo, hi
        v = x.const()
        if v is not None:
            if v >> (x.w - 1):
                v -= 1 << x.w
            return v, {}, v, v
        k = self.strip(x.bits)
        lo, hi = self.krange(k)
        return 0, {k: 1}, lo, hi

    def mklin(self, w, c, t, lo, hi, bits=None):
        t = {k: v for k, v in t.items() if v}
        if not t:
            return self.ci(w, c)
        m = 1 << w
        if len(t) == 1 and c == 0:
            (k, v), = t.items()
            if v == 1:
                bb = (k + (k[-1],) * w)[:w]
                return Int(w, bb)
        tt = tuple(sorted(t.items()))
        if bits is None:
            cc = c % m
            kk = tuple(sorted(((k, v % m) for k, v in t.items())))
            bits = self.opaque(('lin', w, cc, kk), w).bits
        return Int(w, bits, (c, tt, lo, hi))

    def ripple(self, a, b, cin):
        B = self.b
        out = []
        c = cin
        XOR, AND, OR = B.XOR, B.AND, B.OR
        for x, y in zip(a, b):
            t = XOR(x, y)
            out.append(XOR(t, c))
            c = OR(AND(x, y), AND(c, t))
        return tuple(out)

    def try_ripple(self, a, b, cin):
        B = self.b
        old = B.budget
        B.budget = self.rip_budget
        try:
            return self.ripple(a, b, cin)
        except BddLimit:
            if len(B.lvl) > B.limit:
                raise
            return None
        finally:
            B.budget = old

    def sat_signed(self, w, lo, hi):
        return max(lo, -(1 << (w - 1))), min(hi, (1 << (w - 1)) - 1)

    def add(self, x, y, nsw=False, neg=False):
        w = x.w
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None:
            return self.ci(w, cx - cy if neg else cx + cy)
        if cy == 0:
            return x
        if cx == 0 and not neg:
            return y
        bits = None
        if not neg and all(p == 0 or q == 0 for p, q in zip(x.bits, y.bits)):
            bits = tuple(p or q for p, q in zip(x.bits, y.bits))
            if x.lin is None and y.lin is None:
                return Int(w, bits)
        c1, t1, lo1, hi1 = self.linof(x)
        c2, t2, lo2, hi2 = self.linof(y)
        if neg:
            c = c1 - c2
            for k, v in t2.items():
                t1[k] = t1.get(k, 0) - v
            lo, hi = lo1 - hi2, hi1 - lo2
        else:
            c = c1 + c2
            for k, v in t2.items():
                t1[k] = t1.get(k, 0) + v
            lo, hi = lo1 + lo2, hi1 + hi2
        if nsw:
            lo, hi = self.sat_signed(w, lo, hi)
        if bits is None:
            if neg:
                bits = self.try_ripple(x.bits, tuple(self.b.NOT(q) for q in y.bits), 1)
            else:
                bits = self.try_ripple(x.bits, y.bits, 0)
        return self.mklin(w, c, t1, lo, hi, bits)

    def mul(self, x, y, nsw=False):
        w = x.w
        cx, cy = x.const(), y.const()
        if cx is not None and cy is not None:
            return self.ci(w, cx * cy)
        if cx is not None:
            x, y, cx, cy = y, x, cy, cx
        if cy is not None:
            if cy == 0:
                return y
            if cy == 1:
                return x
            if cy & (cy - 1) == 0 and cy >> (w - 1) == 0:
                return self.shlc(x, cy.bit_length() - 1, nsw)
            s = cy - (1 << w) if cy >> (w - 1) else cy
            c1, t1, lo, hi = self.linof(x)
            t1 = {k: v * s for k, v in t1.items()}
            lo, hi = sorted((lo * s, hi * s))
            if nsw:
                lo, hi = self.sat_signed(w, lo, hi)
            bits = None
            B = self.b
            old = B.budget
            B.budget = self.rip_budget
            try:
                acc = None
                a = abs(s)
                for i in range(a.bit_length()):
                    if (a >> i) & 1:
                        sh = ((0,) * i + x.bits)[:w]
                        acc = sh if acc is None else self.ripple(acc, sh, 0)
                if s < 0:
                    acc = self.ripple((0,) * w, tuple(B.NOT(q) for q in acc), 1)
                bits = acc
            except BddLimit:
                if len(B.lvl) > B.limit:
                    raise
                bits = None
            finally:
                B.budget = old
            return self.mklin(w, c1 * s, t1, lo, hi, bits)
        a, b2 = sorted((x.bits, y.bits))
        # small operands: shift-and-add
        B = self.b
        s1 = set()
        for q in x.bits + y.bits:
            s1 |= B.support(q)
        if len(s1) <= 20:
            acc = (0,) * w
            for i in range(w):
                if y.bits[i] != 0:
                    sh = ((0,) * i + x.bits)[:w]
                    acc = self.ripple(acc, tuple(B.AND(y.bits[i], q) for q in sh), 0)
            return Int(w, acc)
        return self.opaque(('mul', a, b2), w)

    def shlc(self, x, n, nsw=False):
        w = x.w
        if n >= w:
            return self.ci(w, 0)
        bits = ((0,) * n + x.bits)[:w]
        if x.lin is None:
            r = Int(w, bits)
            # keep exact linear form when nothing is lost
            c, t, lo, hi = self.linof(x)
            if len(t) == 1:
                k = next(iter(t))
                if len(k) + n <= w:
                    return r      # the shifted bits are themselves an exact atom
            return r
        c, t, lo, hi = self.linof(x)
        f = 1 << n
        return self.mklin(w, c * f, {k: v * f for k, v in t.items()}, lo * f, hi * f, bits)

    def shift(self, op, x, y):
        w = x.w
        cy = y.const()
        B = self.b
        if cy is not None:
            if cy >= w:
                if self.ub:
                    self.ub('shift', self.pc, 'shift by %d of a %d-bit value' % (cy, w))
                return self.opaque(('badshift', op, x.bits, y.bits), w)
            if op == 'shl':
                return self.shlc(x, cy)
            if op == 'lshr':
                return Int(w, x.bits[cy:] + (0,) * cy)
            return Int(w, x.bits[cy:] + (x.bits[-1],) * cy)
        # symbolic amount: barrel shifter on the low bits, rest must be zero
        n = max(1, (w - 1).bit_length())
        over = self.ult_bits(self.ci(w, w - 1).bits, y.bits)
        if self.feas(B.AND(self.pc, over)):
            if self.ub:
                self.ub('shift', B.AND(self.pc, over), 'shift amount may reach the width %d' % w)
        bits = x.bits
        for i in range(n):
            k = 1 << i
            s = y.bits[i]
            if s == 0:
                continue
            if op == 'shl':
                sh = ((0,) * k + bits)[:w]
            elif op == 'lshr':
                sh = bits[k:] + (0,) * min(k, w)
            else:
                sh = bits[k:] + (bits[-1],) * min(k, w)
            bits = tuple(B.ITE(s, p, q) for p, q in zip(sh, bits))
        return Int(w, bits)

    def bitop(self, op, x, y):
        B = self.b
        f = {'and': B.AND, 'or': B.OR, 'xor': B.PXOR}[op]
        if op == 'or' or op == 'xor':
            if y.const() == 0:
                return x
            if x.const() == 0:
                return y
        if op == 'and' and y.const() == (1 << y.w) - 1:
            return x
        return Int(x.w, tuple(f(p, q) for p, q in zip(x.bits, y.bits)))

    def zext(self, x, w):
        bits = x.bits + (0,) * (w - x.w)
        if x.lin is not None:
            c, t, lo, hi = x.lin
            if lo >= 0 and hi < (1 << x.w):
                return Int(w, bits, x.lin)
        return Int(w, bits)

    def sext(self, x, w):
        bits = x.bits + (x.bits[-1],) * (w - x.w)
        if x.lin is not None:
            c, t, lo, hi = x.lin
            if lo >= -(1 << (x.w - 1)) and hi < (1 << (x.w - 1)):
                return Int(w, bits, x.lin)
        return Int(w, bits)

    def trunc(self, x, w):
        if x.lin is not None:
            return Int(w, x.bits[:w], x.lin)
        return Int(w, x.bits[:w])

    def ult_bits(self, a, b):
        """a < b unsigned, LSB first"""
        B = self.b
        r = 0
        for x, y in zip(a, b):
            # r = (!x & y) | (!(x^y) & r)
            if x == y:
                continue
            r = B.ITE(x, B.AND(y, r), B.OR(y, r))
        return r

    def eq_bits(self, a, b):
        B = self.b
        r = 1
        df = [(x, y) for x, y in zip(reversed(a), reversed(b)) if x != y]
        if len(df) == 1:
            return B.NOT(B.PXOR(*df[0]))    # comparing truth values is an xor
        for x, y in df:
            r = B.AND(r, B.NOT(B.XOR(x, y)))
            if r == 0:
                break
        return r

    def icmp(self, pred, x, y):
        B = self.b
        # exact linear comparison (no wrap): decide from the difference's range
        if pred in ('eq', 'ne'):
            r = self.eq_bits(x.bits, y.bits)
            return B.NOT(r) if pred == 'ne' else r
        if pred in ('ugt', 'ule', 'sgt', 'sle'):
            x, y = y, x
            pred = {'ugt': 'ult', 'ule': 'uge', 'sgt': 'slt', 'sle': 'sge'}[pred]
        if (x.lin is not None or y.lin is not None) and self.pc:
            r = self.lin_lt(x, y, pred[0] == 's')
            if r is not None:
                return r ^ pred.endswith('ge')
        a, b = x.bits, y.bits
        if pred[0] == 's':
            a = a[:-1] + (B.NOT(a[-1]),)
            b = b[:-1] + (B.NOT(b[-1]),)
        r = self.ult_bits(a, b)
        return B.NOT(r) if pred.endswith('ge') else r

    def lin_range(self, c, t):
        lo = hi = c
        for k, v in t.items():
            a, b = self.irange(Int(len(k), tuple(k)), True)
            lo += min(a * v, b * v)
            hi += max(a * v, b * v)
        return lo, hi

    def lin_lt(self, x, y, signed):
        """x < y for linear forms, when their ranges under pc decide it"""
        lim = (-(1 << (x.w - 1)), 1 << (x.w - 1)) if signed else (0, 1 << (x.w - 1))
        f = []
        for z in (x, y):
            c, t, lo, hi = self.linof(z)
            if len(t) > 6:
                return None
            if lo < lim[0] or hi >= lim[1]:
                lo, hi = self.lin_range(c, t)
                if lo < lim[0] or hi >= lim[1]:
                    return None
            f.append((c, t))
        d = dict(f[0][1])
        for k, v in f[1][1].items():
            d[k] = d.get(k, 0) - v
        lo, hi = self.lin_range(f[0][0] - f[1][0], {k: v for k, v in d.items() if v})
        return 1 if hi < 0 else 0 if lo >= 0 else None

    def lin_div(self, x, q):
        """(x / q, x % q) for x = q*a + r >= 0 with 0 <= r < q by bounds"""
        if x.lin is None or not self.pc:
            return None
        c, t, lo, hi = x.lin
        if lo < 0 or hi >= 1 << (x.w - 1):
            l2, h2 = 0, 0
            for k, co in dict(t).items():
                a, b = self.irange(Int(len(k), tuple(k)), True)
                l2 += min(a * co, b * co)
                h2 += max(a * co, b * co)
            lo, hi = max(lo, l2 + c), min(hi, h2 + c)
            if lo < 0 or hi >= 1 << (x.w - 1):
                return None
        d = {k: v // q for k, v in dict(t).items() if v % q == 0}
        e = {k: v for k, v in dict(t).items() if v % q}
        if not d:
            return None
        rlo = rhi = c % q
        for k, v in e.items():
            a, b = self.irange(Int(len(k), tuple(k)), True)
            rlo += min(a * v, b * v)
            rhi += max(a * v, b * v)
        sh = rlo // q
        if rhi // q != sh:
            return None
        qc, rc = c // q + sh, c % q - sh * q
        return (self.mklin(x.w, qc, d, lo // q, hi // q), self.mklin(x.w, rc, e, max(0, rlo - sh * q), min(q - 1, rhi - sh * q)))

    def divrem(self, op, x, y):
        w = x.w
        B = self.b
        cx, cy = x.const(), y.const()
        signed = op[0] == 's'
        if cy == 0:
            if self.ub:
                self.ub('div', self.pc, 'division by zero')
            return self.opaque((op, x.bits, y.bits), w)
        if cx is not None and cy is not None:
            if signed:
                a = cx - (1 << w) if cx >> (w - 1) else cx
                b = cy - (1 << w) if cy >> (w - 1) else cy
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return self.ci(w, q if op == 'sdiv' else a - q * b)
            return self.ci(w, cx // cy if op == 'udiv' else cx % cy)
        if signed:
            # both provably non-negative?
            sx = self.feas(B.AND(self.pc, x.bits[-1]))
            sy = self.feas(B.AND(self.pc, y.bits[-1]))
            if not sx and not sy:
                return self.divrem('u' + op[1:], x, y)
            if sx and cy is not None and not cy >> (w - 1):
                r = self.lin_div(x, cy)
                if r is not None:
                    return r[0] if op == 'sdiv' else r[1]
            if cy is not None and not sy:
                # |x| / c with the sign of x
                nx = self.add(self.ci(w, 0), x, neg=True)
                if not sx:
                    ax = x
                else:
                    ax = Int(w, tuple(B.ITE(x.bits[-1], p, q) for p, q in zip(nx.bits, x.bits)))
                r = self.divrem('u' + op[1:], ax, y)
                nr = self.add(self.ci(w, 0), r, neg=True)
                return Int(w, tuple(B.ITE(x.bits[-1], p, q) for p, q in zip(nr.bits, r.bits)))
            return self.opaque((op, x.bits, y.bits), w)
        if cy is not None:
            if cy & (cy - 1) == 0:
                n = cy.bit_length() - 1
                if op == 'udiv':
                    return Int(w, x.bits[n:] + (0,) * n)
                return Int(w, x.bits[:n] + (0,) * (w - n))
            if x.lin is not None and len(x.lin[1]) and cy > 2:
                # a sum that spans few multiples of the divisor: compare instead of dividing
                lo, hi = self.irange(x, False)
                if lo <= hi and hi // cy - lo // cy <= 3:
                    q = self.ci(w, lo // cy)
                    r = self.add(x, self.ci(w, lo // cy * cy), neg=True)
                    for k in range(lo // cy + 1, hi // cy + 1):
                        ge = B.NOT(self.icmp('ult', x, self.ci(w, k * cy)))
                        r = self.ite(ge, self.add(x, self.ci(w, k * cy), neg=True), r)
                        q = self.ite(ge, self.ci(w, k), q)
                    return q if op == 'udiv' else r
            xb = tuple(B.restrict(q, self.pc) for q in x.bits) if self.pc != 0 else x.bits
            nb = max([i + 1 for i, q in enumerate(xb) if q != 0] or [1])
            old = B.budget
            B.budget = self.rip_budget * 4
            try:
                rem = (0,) * w
                quo = [0] * w
                cyb = y.bits
                rw = cy.bit_length() + 1
                rem = (0,) * rw
                cb = self.ci(rw, cy).bits
                ncb = tuple(B.NOT(q) for q in cb)
                for i in range(nb - 1, -1, -1):
                    rem = (xb[i],) + rem[:-1]
                    ge = B.NOT(self.ult_bits(rem, cb))
                    quo[i] = ge
                    sub = self.ripple(rem, ncb, 1)
                    rem = tuple(B.ITE(ge, p, q) for p, q in zip(sub, rem))
                if op == 'udiv':
                    return Int(w, tuple(quo))
                return Int(w, (rem + (0,) * w)[:w])
            except BddLimit:
                if len(B.lvl) > B.limit:
                    raise
                B.budget = old
                r = self.lin_div(x, cy)
                if r is not None:
                    return r[0] if op == 'udiv' else r[1]
            finally:
                B.budget = old
        else:
            z = self.eq_bits(y.bits, (0,) * w)
            if self.feas(B.AND(self.pc, z)) and self.ub:
                self.ub('div', B.AND(self.pc, z), 'division by zero possible')
        r = self.opaque((op, x.bits, y.bits), w)
        if cy is not None:
            if op == 'urem':
                self.assume_range(r, 0, cy - 1)
            else:
                lo, hi = self.irange(x, False)
                self.assume_range(r, 0, hi // cy)
        return r

    def assume_range(self, x, lo, hi):
        B = self.b
        m = (1 << x.w) - 1
        if lo < 0:
            c1 = self.icmp('sge', x, self.ci(x.w, lo))
            c2 = self.icmp('sle', x, self.ci(x.w, hi))
        else:
            c1 = self.icmp('uge', x, self.ci(x.w, lo))
            c2 = self.icmp('ule', x, self.ci(x.w, hi & m if hi <= m else m))
        self.axioms = B.AND(self.axioms, B.AND(c1, c2))

    def irange(self, x, signed=True):
        """tight range of x under pc & axioms"""
        B = self.b
        v = x.const()
        if v is not None:
            if signed and v >> (x.w - 1):
                v -= 1 << x.w
            return v, v
        care = self.care(self.pc, x.bits)
        bits = list(x.bits)
        if signed:
            bits[-1] = B.NOT(bits[-1])
        lo = hi = 0
        c = care
        for i in range(x.w - 1, -1, -1):
            t = B.AND(c, B.NOT(bits[i]))
            if t != 0:
                c = t
            else:
                lo |= 1 << i
        c = care
        for i in range(x.w - 1, -1, -1):
            t = B.AND(c, bits[i])
            if t != 0:
                c = t
                hi |= 1 << i
        if signed:
            o = 1 << (x.w - 1)
            lo -= o
            hi -= o
        if x.lin is not None and lo <= hi and hi - lo > 1 << (x.w - 2):
            # an address or sum whose bits were not worth computing
            c, t, a, z = x.lin
            a, z = self.lin_range(c, dict(t))
            if (-(1 << (x.w - 1)) <= a and z < 1 << (x.w - 1)) if signed else (0 <= a and z < 1 << x.w):
                lo, hi = max(lo, a), min(hi, z)
        return lo, hi

    def care(self, c, bits=()):
        return self.b.AND(c, self.axioms)

    def feas(self, c):
        if c == 0:
            return False
        if self.axioms == 1:
            return True
        return self.b.AND(c, self.axioms) != 0

    def values(self, x, limit=1100):
        """feasible values of x under pc, as [(value, cond)] or None if too many"""
        B = self.b
        v = x.const()
        if v is not None:
            return [(v, 1)]
        out = []
        bits = x.bits
        care = self.care(self.pc)

        def rec(i, val, cond):
            if len(out) > limit:
                return
            if i < 0:
                out.append((val, cond))
                return
            b = bits[i]
            c1 = B.AND(cond, b)
            c0 = B.AND(cond, B.NOT(b))
            if c0 != 0 and B.AND(c0, care) != 0:
                rec(i - 1, val, c0)
            if c1 != 0 and B.AND(c1, care) != 0:
                rec(i - 1, val | (1 << i), c1)
        rec(x.w - 1, 0, 1)
        return out if len(out) <= limit else None

    # ---------------------------------------------------------------- floats
    def atom(self, desc):
        r = self.atom_id.get(desc)
        if r is None:
            r = len(self.atoms)
            self.atoms.append(desc)
            self.atom_id[desc] = r
        return r

    def leaf(self, poly):
        poly = {m: c for m, c in poly.items() if c}
        key = frozenset(poly.items())
        r = self.leaves.get(key)
        if r is None:
            r = Leaf()
            r.id = len(self.leaf_list)
            r.poly = poly
            self.leaves[key] = r
            self.leaf_list.append(r)
        return r

    def lconst(self, v):
        if isinstance(v, float):
            if math.isnan(v):
                return self.latom(('nan',))
            if math.isinf(v):
                l = self.latom(('inf',))
                return l if v > 0 else self.lneg(l)
            v = Fraction(v)
        return self.leaf({(): Fraction(v)})

    def latom(self, desc):
        return self.leaf({((self.atom(desc), 1),): Fraction(1)})

    def lc(self, l):
        """constant value of a leaf or None"""
        p = l.poly
        if not p:
            return Fraction(0)
        if len(p) == 1 and () in p:
            return p[()]
        return None

    def lneg(self, a):
        return self.leaf({m: -c for m, c in a.poly.items()})

    def ladd(self, a, b, s=1):
        p = dict(a.poly)
        for m, c in b.poly.items():
            v = p.get(m)
            if v is None:
                p[m] = c * s
            else:
                r = rndc(v + c * s)
                if r and abs(r) * (1 << 60) > abs(v):
                    p[m] = r
                else:
                    del p[m]
        return self.leaf(p)

    @staticmethod
    def mmul(m1, m2):
        if not m1:
            return m2
        if not m2:
            return m1
        d = dict(m1)
        for a, e in m2:
            v = d.get(a, 0) + e
            if v:
                d[a] = v
            else:
                del d[a]
        return tuple(sorted(d.items()))

    def lmul(self, a, b):
        pa, pb = a.poly, b.poly
        if len(pa) * len(pb) > 60000:
            raise Unsupported('polynomial too large')
        r = {}
        red = False
        for m1, c1 in pa.items():
            for m2, c2 in pb.items():
                m = self.mmul(m1, m2)
                v = r.get(m)
                v = rndc(c1 * c2) if v is None else rndc(v + c1 * c2)
                r[m] = v
                if not red:
                    for at, e in m:
                        if abs(e) >= 2 and self.atoms[at][0] in ('sqrt', 'fabs'):
                            red = True
        l = self.leaf(r)
        return self.reduce(l) if red else l

    def reduce(self, l):
        """sqrt(x)^2 -> x"""
        out = self.zero
        for m, c in l.poly.items():
            t = self.leaf({(): c})
            for at, e in m:
                d = self.atoms[at]
                if d[0] in ('sqrt', 'fabs') and abs(e) >= 2:
                    k = int(e / 2)
                    base = self.leaf_list[d[1]]
                    if d[0] == 'fabs':
                        base = self.lmul(base, base)
                    pw = self.lpow(base, k)
                    t = self.lmul(t, pw)
                    rem = e - 2 * k
                    if rem:
                        t = self.lmul(t, self.leaf({((at, rem),): Fraction(1)}))
                else:
                    t = self.leaf({self.mmul(mm, ((at, e),)): cc for mm, cc in t.poly.items()})
            out = self.ladd(out, t)
        return out

    def norm(self, l):
        """(scale, normalised leaf) with leading coefficient 1"""
        if not l.poly:
            return Fraction(0), l
        lead = min(l.poly)
        if lead == () and len(l.poly) > 1:
            lead = sorted(l.poly)[1]
        c = l.poly[lead]
        if c == 1:
            return c, l
        return c, self.leaf({m: rndc(v / c) for m, v in l.poly.items()})

    def lkey(self, l):
        return tuple(sorted((m, keyc(c)) for m, c in l.poly.items()))

    def canon(self, l):
        """leaf id canonical up to coefficient rounding (for atom arguments)"""
        k = ('K', self.lkey(l))
        r = self.eq_cache.get(k)
        if r is None:
            self.eq_cache[k] = l.id
            r = l.id
        return r

    def linv(self, b):
        p = b.poly
        if len(p) == 1:
            (m, c), = p.items()
            return self.leaf({tuple((a, -e) for a, e in m): rndc(Fraction(1) / c)})
        if not p:
            return self.latom(('div0',))
        # pull out common monomial factor
        common = None
        for m in p:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {a: min(e, d[a], key=abs) for a, e in common.items()
                          if a in d and (d[a] > 0) == (e > 0)}
        cm = tuple(sorted(common.items()))
        inv = tuple((a, -e) for a, e in cm)
        q = self.leaf({self.mmul(m, inv): c for m, c in p.items()}) if cm else b
        s, n = self.norm(q)
        at = self.atom(('poly', self.canon(n)))
        m = self.mmul(inv, ((at, -1),))
        return self.leaf({m: rndc(Fraction(1) / s)})

    def ldiv(self, a, b):
        cb = self.lc(b)
        if cb is not None and cb != 0:
            return self.leaf({m: rndc(c / cb) for m, c in a.poly.items()})
        if a is b and b.poly:
            return self.lconst(1)
        if len(b.poly) > 1:
            # exact ratio of the same normalised polynomial
            sa, na = self.norm(a)
            sb, nb = self.norm(b)
            if na is nb:
                return self.leaf({(): rndc(sa / sb)})
        return self.lmul(a, self.linv(b))

    def lpow(self, a, n):
        if n == 0:
            return self.lconst(1)
        if n < 0:
            return self.lpow(self.linv(a), -n)
        r = a
        for _ in range(n - 1):
            r = self.lmul(r, a)
        return r

    def lrange(self, l):
        """interval of a leaf from intrinsic atom ranges"""
        r = self.rangecache.get(l.id)
        if r is not None:
            return r
        lo = hi = Fraction(0)
        inf = float('inf')
        lo = hi = 0
        for m, c in l.poly.items():
            a, b = Fraction(1), Fraction(1)
            unb = False
            for at, e in m:
                x, y = self.arange(at)
                if e == 2:
                    if x is None:
                        x, y = 0, None
                    elif y is not None:
                        if x >= 0:
                            x, y = x * x, y * y
                        elif y <= 0:
                            x, y = y * y, x * x
                        else:
                            x, y = 0, max(x * x, y * y)
                    else:
                        x, y = (x * x if x > 0 else 0), None
                elif e != 1:
                    x = y = None
                # multiply [a,b] by [x,y]  (None = infinite)
                a, b = imul(a, b, x, y)
            a, b = imul(a, b, c, c)
            lo = None if (lo is None or a is None) else lo + a
            hi = None if (hi is None or b is None) else hi + b
        self.rangecache[l.id] = (lo, hi)
        return lo, hi

    def arange(self, at):
        r = self.ranges.get(at)
        if r is not None:
            return r
        d = self.atoms[at]
        if d[0] == 'cvt':
            return self.krange(d[1])
        if d[0] in ('sqrt', 'fabs'):
            return (0, None)
        if d[0] in ('sin', 'cos'):
            return (-1, 1)
        if d[0] == 'frac':
            return (-1, 1)
        if d[0] == 'bool':
            return (0, 1)
        if d[0] == 'exp':
            return (0, None)
        return (None, None)

    # FV operations -----------------------------------------------------
    def fconst(self, v, k='double'):
        return FV(((1, self.lconst(v)),), k)

    def fv(self, leaf, k='double'):
        return FV(((1, leaf),), k)

    def mkcases(self, d):
        return tuple(sorted(((c, l) for l, c in d.items()), key=lambda t: t[1].id))

    def fbin(self, x, y, f, k):
        B = self.b
        d = {}
        pc = self.pc
        for c1, l1 in x.cases:
            for c2, l2 in y.cases:
                c = B.AND(c1, c2)
                if c == 0:
                    continue
                self.pc = B.AND(c, pc)
                if self.pc == 0:
                    continue
                l = f(l1, l2)
                d[l] = B.OR(d.get(l, 0), c)
        self.pc = pc
        if not d:
            raise Unsupported('empty float value')
        if len(d) > 600:
            raise Unsupported('too many float cases')
        return FV(self.mkcases(d), k)

    def fun(self, x, f, k):
        B = self.b
        d = {}
        pc = self.pc
        for c, l in x.cases:
            if len(x.cases) > 1:
                self.pc = B.AND(c, pc)
                if self.pc == 0:
                    continue
            r = f(l)
            d[r] = B.OR(d.get(r, 0), c)
        self.pc = pc
        return FV(self.mkcases(d), k)

    # rounding -------------------------------------------------------------
    def int_split(self, l):
        """l = I + R with I an integer combination of integral atoms"""
        i, r = {}, {}
        for m, c in l.poly.items():
            t = r
            if c.denominator == 1 and m and all(
                    e > 0 and self.atoms[at][0] in ('cvt', 'floor', 'ceil', 'trunc', 'round', 'rint', 'bool') for at, e in m):
                t = i
            t[m] = c
        return self.leaf(i), self.leaf(r)

    def lround(self, name, l):
        """floor / ceil / trunc / round, decided where the bounds under pc allow"""
        if not self.pc:
            return None
        if name == 'ceil':
            r = self.lround('floor', self.lneg(l))
            return None if r is None else self.lneg(r)
        if name == 'round':
            lo, hi = self.leaf_bounds(l, self.pc)
            half = self.lconst(Fraction(1, 2))
            if lo is not None and lo >= 0:
                return self.lround('floor', self.ladd(l, half))
            if hi is not None and hi <= 0:
                return self.lround('ceil', self.ladd(l, half, -1))
            return None
        i, r = self.int_split(l)
        if name == 'floor':
            lo, hi = self.leaf_bounds(r, self.pc)
            if lo is not None and hi is not None:
                k = math.floor(lo)
                if math.floor(hi) == k or (hi == k + 1 and self.strict(r, hi)):
                    return self.ladd(i, self.lconst(k))
            lo, hi = self.leaf_bounds(l, self.pc)
            if lo is not None and lo >= 0:
                if hi is not None and hi < 1 << 40:
                    t = self.int_quot(l)
                    if t is not None:
                        return t
                return self.latom(('trunc', self.canon(l)))
            if hi is not None and hi <= -1 and 0:
                return None
            return None
        lo, hi = self.leaf_bounds(l, self.pc)
        if lo is not None and lo >= 0:
            return self.lround('floor', l)
        if hi is not None and hi <= 0:
            return self.lround('ceil', l)
        return None

    def int_quot(self, l):
        """floor(l) for l = (N + r)/q >= 0 with integer N, q and 0 <= r < 1: an integer division"""
        qs = set()
        for m, c in l.poly.items():
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'cvt':
                f = c.limit_denominator(1000000)
                if abs(f - c) * (1 << 60) < abs(c) and f.denominator > 1:
                    qs.add(f.denominator)
        for q in sorted(qs):
            lq = self.lmul(l, self.lconst(q))
            i, r = self.int_split(lq)
            if not i.poly or not all(len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'cvt' for m in i.poly):
                continue
            c = r.poly.get((), Fraction(0))
            k = c.numerator // c.denominator
            if k:
                r = self.ladd(r, self.lconst(k), -1)
                i = self.ladd(i, self.lconst(k))
            lo, hi = self.leaf_bounds(r, self.pc)
            if lo is None or hi is None or lo < 0 or not (hi < 1 or (hi == 1 and self.strict(r, 1))):
                continue
            n = self.l2i_exact(i, 64)
            v = self.divrem('udiv', n, self.ci(64, q))
            f = self.cvt(v, False, 'double')
            if len(f.cases) == 1:
                return f.cases[0][1]
        return None

    def strict(self, l, v):
        """l < v under pc, where leaf_bounds only gives l <= v"""
        s, n = self.norm(self.ladd(l, self.lconst(v), -1))
        if s == 0 or not n.poly:
            return False
        c0 = n.poly.get((), Fraction(0))
        base = self.leaf({m: c for m, c in n.poly.items() if m != ()})
        ch = self.thr.get(self.canon(base))
        r = ch and ch.get(keyc(c0, 50))
        B = self.b
        if r:
            lt, eq, _ = r
            if B.AND(B.AND(self.pc, self.axioms), B.NOT(lt) if s > 0 else B.OR(lt, eq)) == 0:
                return True
        # a sum stays below the sum of the bounds when one of its terms does
        ts = [self.leaf({m: c}) for m, c in l.poly.items() if m != ()]
        if len(ts) < 2 or len(ts) > 6:
            return False
        bs = [self.leaf_bounds(t, self.pc)[1] for t in ts]
        if None in bs or sum(bs) + l.poly.get((), Fraction(0)) > v:
            return False
        return any(self.strict(t, b) for t, b in zip(ts, bs))

    def f32(self, l):
        """rounding to float"""
        c = self.lc(l)
        if c is not None:
            try:
                f = struct.unpack('f', struct.pack('f', float(c)))[0]
            except OverflowError:
                return self.latom(('inf',))
            return self.lconst(f)
        if self.noround:
            return l
        if len(l.poly) == 1:
            (m, co), = l.poly.items()
            if len(m) == 1 and m[0][1] == 1:
                d = self.atoms[m[0][0]]
                n, dd = co.numerator, co.denominator
                p2 = (dd & (dd - 1)) == 0 and abs(n) & (abs(n) - 1) == 0
                if d[0] in ('f32', 'in32') and p2:
                    return l
                if d[0] == 'cvt' and p2 and len(d[1]) <= 25:
                    return l
        if all(not m or (len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'bool') for m in l.poly):
            return l
        if self.f32_exact(l):
            return l
        s, n = self.norm(l)
        nn, dd = s.numerator, s.denominator
        if (dd & (dd - 1)) == 0 and abs(nn) & (abs(nn) - 1) == 0:
            return self.leaf({((self.atom(('f32', self.canon(n))), 1),): s})
        s = Fraction(1 if s > 0 else -1)
        if s < 0:
            l = self.lneg(l)
        return self.leaf({((self.atom(('f32', self.canon(l))), 1),): s})

    def f32_exact(self, l):
        """an integer multiple of a power of two that fits 24 bits"""
        e = 0
        for c in l.poly.values():
            dd = c.denominator
            if dd & (dd - 1):
                return False
            e = max(e, dd.bit_length() - 1)
        sc = self.leaf({m: c * (1 << e) for m, c in l.poly.items()}) if e else l
        if not self.is_integral(sc):
            return False
        lo, hi = self.lrange(sc)
        return lo is not None and hi is not None and -(1 << 24) <= lo and hi <= (1 << 24)

    def fop(self, op, x, y, k):
        f = {'fadd': lambda a, b: self.ladd(a, b), 'fsub': lambda a, b: self.ladd(a, b, -1),
             'fmul': self.lmul, 'fdiv': self.ldiv, 'frem': lambda a, b: self.lfn('fmod', a, b)}[op]
        if self.f2i_src and op in ('fadd', 'fsub'):
            g0 = f
            f = lambda a, b: self.cancel_src(g0(a, b))
        if k == 'float':
            g = f
            f = lambda a, b: self.f32(g(a, b))
        if self.cuts:
            h = f
            f = lambda a, b: self.small(self.fold(h(self.small(a, 30), self.small(b, 30))), 300)
        return self.fbin(x, y, f, k)

    def cancel_src(self, l):
        """x - n where n is the integer made of x (by cases): in the case at hand n is known exactly"""
        ms = [m for m in l.poly if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'cvt']
        if len(ms) < 2:
            return l
        for m in ms:
            src = self.f2i_src.get(self.atoms[m[0][0]][1])
            if src is None or self.feas(self.b.AND(self.pc, self.b.NOT(src[0]))):
                continue
            fs = [s for s, c in src[1].items() if self.feas(self.b.AND(self.pc, c))]
            if len(fs) == 1:
                d = self.ladd(fs[0], self.leaf({m: Fraction(1)}), -1)
                r = self.ladd(l, self.lmul(d, self.lconst(l.poly[m])))
                if len(r.poly) < len(l.poly) and not any(m2 in r.poly for m2 in ms):
                    return r
        return l

    def small(self, l, n):
        """an expression that is not one of the named ones may not grow without bound: it becomes a name itself"""
        if len(l.poly) <= n:
            return l
        return self.latom(('in', ('big', self.canon(l), 0)))

    def fold(self, l):
        """replace a value that the specification has named (spec_cut) by its name"""
        if len(l.poly) < 2 or not self.cuts:
            return l
        r = self.fold_cache.get(l.id)
        if r is None or r[0] != len(self.cuts):
            r = self.cuts.get(self.lkey(l))
            if r is None:
                r = self.cuts.get(self.lkey(self.lneg(l)))
                if r is not None:
                    r = self.lneg(r)
            r = (len(self.cuts), r or l)
            self.fold_cache[l.id] = r
        return r[1]

    def lfn(self, name, *ls):
        cs = [self.lc(l) for l in ls]
        if name == 'fabs':
            if cs[0] is not None:
                return self.lconst(abs(cs[0]))
            lo, hi = self.lrange(ls[0])
            if lo is not None and lo >= 0:
                return ls[0]
            s, n = self.norm(ls[0])
            return self.leaf({((self.atom(('fabs', self.canon(n))), 1),): abs(s)})
        if name in ('pow',):
            if cs[1] is not None and cs[1].denominator == 1 and abs(cs[1]) <= 8:
                return self.lpow(ls[0], int(cs[1]))
            if cs[1] == Fraction(1, 2):
                return self.lfn('sqrt', ls[0])
        if name == 'fmod' and cs[1] is not None and cs[1] != 0:
            q = self.lfn('trunc', self.lmul(ls[0], self.lconst(1 / cs[1])))
            return self.ladd(ls[0], self.lmul(q, self.lconst(cs[1])), -1)
        if all(c is not None for c in cs):
            try:
                fs = [float(c) for c in cs]
                v = {'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp,
                     'asin': math.asin, 'atan': math.atan, 'acos': math.acos, 'atan2': math.atan2,
                     'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'pow': math.pow,
                     'fmod': math.fmod, 'fmax': max, 'fmin': min, 'copysign': math.copysign, 'log': math.log,
                     'round': lambda z: math.floor(abs(z) + 0.5) * (1 if z >= 0 else -1),
                     'rint': lambda z: float(round(z))}[name](*fs)
                return self.lconst(Fraction(v) if not isinstance(v, float) else v)
            except (ValueError, OverflowError):
                pass
        if name in ('sin', 'tan', 'asin', 'atan', 'round', 'trunc', 'rint'):   # odd
            s, n = self.norm(ls[0])
            if s < 0:
                return self.lneg(self.lfn(name, self.lneg(ls[0])))
        if name == 'cos':
            s, n = self.norm(ls[0])
            if s < 0:
                return self.lfn(name, self.lneg(ls[0]))
        if name in ('floor', 'ceil', 'trunc', 'round', 'rint') and self.is_integral(ls[0]):
            return ls[0]
        if name in ('floor', 'ceil', 'trunc', 'round', 'rint'):
            r = self.lround(name, ls[0])
            if r is not None:
                return r
        if name in COMM_FN:
            if ls[0] is ls[1]:
                return ls[0]
            ls = sorted(ls, key=lambda l: l.id)
        return self.latom((name,) + tuple(self.canon(l) for l in ls))

    def is_integral(self, l):
        for m, c in l.poly.items():
            if c.denominator != 1:
                return False
            for at, e in m:
                if e < 0 or self.atoms[at][0] not in ('cvt', 'floor', 'ceil', 'trunc', 'round', 'rint', 'bool'):
                    return False
        return True

    def fcall(self, name, args, k):
        B = self.b
        f = lambda *ls: self.lfn(name, *ls)
        if self.cuts:
            f = lambda *ls: self.lfn(name, *[self.small(l, 12) for l in ls])
        if k == 'float':
            g = f
            f = lambda *ls: self.f32(g(*ls))
        if name == 'fmax' or name == 'fmin':
            # exact: select on the comparison
            lt = self.fcmp('olt', args[0], args[1])
            a, b = (args[1], args[0]) if name == 'fmax' else (args[0], args[1])
            return self.fite(lt, a, b)
        if name == 'copysign' and not self.nan_aware:
            # exact on the reals (zero has no sign there)
            m = self.fcall('fabs', [args[0]], k)
            return self.fite(self.fcmp('olt', args[1], self.fv(self.lconst(Fraction(0)))), self.fun(m, self.lneg, k), m)
        if name == 'fabs' and self.signs and not self.nan_aware:
            # by cases of the sign
            x = args[0]
            return self.fite(self.fcmp('olt', x, self.fv(self.lconst(Fraction(0)))), self.fun(x, self.lneg, k), x)
        if len(args) == 1:
            if name in ('floor', 'ceil', 'trunc', 'round') and k == 'double':
                x = args[0]
                r = None
                pc = self.pc
                for c, l in x.cases:
                    self.pc = B.AND(pc, c) if len(x.cases) > 1 else pc
                    v = self.lround_split(name, l) or self.fv(f(l))
                    r = v if r is None else self.fite(c, v, r)
                self.pc = pc
                return r
            return self.fun(args[0], f, k)
        return self.fbin(args[0], args[1], f, k)

    def lround_split(self, name, l):
        """rounding of integer + bounded remainder: one case per integer the remainder may round to"""
        if not self.pc or self.nan_aware:
            return None
        sg = 1
        if name == 'round':
            lo, hi = self.leaf_bounds(l, self.pc)
            half = self.lconst(Fraction(1, 2))
            if lo is not None and lo >= 0:
                l = self.ladd(l, half)
            elif hi is not None and hi <= 0:
                l = self.ladd(self.lneg(l), half)
                sg = -1
            else:
                return None
        elif name == 'trunc':
            lo, hi = self.leaf_bounds(l, self.pc)
            if lo is not None and lo >= 0:
                pass
            elif hi is not None and hi <= 0:
                l = self.lneg(l)
                sg = -1
            else:
                return None
        elif name == 'ceil':
            l = self.lneg(l)
            sg = -1
        i, r = self.int_split(l)
        if self.lc(r) is not None:
            return None
        lo, hi = self.leaf_bounds(r, self.pc)
        if lo is None or hi is None or hi - lo > 4:
            return None
        k0, k1 = math.floor(lo), math.floor(hi)
        if k1 == hi and k1 > k0 and self.strict(r, hi):
            k1 -= 1
        if k0 == k1 or k1 - k0 > 4:
            return None
        v = self.fv(self.ladd(i, self.lconst(k0)))
        for kk in range(k0 + 1, k1 + 1):
            L = self.lcmp(r, self.lconst(kk))[0]
            v = self.fite(L, v, self.fv(self.ladd(i, self.lconst(kk))))
        if sg < 0:
            v = FV(self.mkcases({self.lneg(x): c for c, x in v.cases}), 'double')
        return v

    def fite(self, c, x, y):
        B = self.b
        if c == 1:
            return x
        if c == 0:
            return y
        d = {}
        nc = B.NOT(c)
        for cc, l in x.cases:
            t = B.AND(cc, c)
            if t:
                d[l] = B.OR(d.get(l, 0), t)
        for cc, l in y.cases:
            t = B.AND(cc, nc)
            if t:
                d[l] = B.OR(d.get(l, 0), t)
        if len(d) > 600:
            raise Unsupported('too many float cases')
        return FV(self.mkcases(d), x.k)

    def cvt_leaf(self, key):
        """the integer with these (two's complement) bits; offset binary becomes two's complement plus the offset"""
        B = self.b
        if len(key) > 2 and key[-1] == 0 and key[-2] > 1 and B.lo[key[-2]] == 1 and B.hi[key[-2]] == 0:
            n = len(key) - 1
            key = self.strip(key[:-2] + (B.NOT(key[-2]),))
            return self.leaf({((self.atom(('cvt', key)), 1),): Fraction(1), (): Fraction(1 << (n - 1))})
        return self.leaf({((self.atom(('cvt', key)), 1),): Fraction(1)})

    def cvt(self, x, signed, k):
        """int -> float"""
        B = self.b
        v = x.const()
        if v is not None:
            if signed and v >> (x.w - 1):
                v -= 1 << x.w
            r = self.lconst(v)
            return self.fv(self.f32(r) if k == 'float' else r, k)
        # two-valued integers become a guard
        nb = set(q for q in x.bits if q > 1)
        if len(nb) == 1 and x.lin is None:
            q, = nb
            hi = lo = 0
            for i, t in enumerate(x.bits):
                wgt = (1 << i) if not (signed and i == x.w - 1) else -(1 << i)
                if t == 1:
                    hi += wgt
                    lo += wgt
                elif t == q:
                    hi += wgt
            return FV(self.mkcases_safe([(q, self.lconst(hi)), (B.NOT(q), self.lconst(lo))]), k)
        if len(nb) == 2 or len(nb) > 2 and x.lin is None:
            vs = self.values(x, 32)
            if vs is not None and (len(nb) > 2 and len(vs) * 4 <= (1 << len(nb)) or len(vs) <= 8 and
                                   any(B.names[B.lvl[q]][0] in ('lt', 'eq') for q in nb)):
                lst = []
                for v, cnd in vs:
                    if signed and v >> (x.w - 1):
                        v -= 1 << x.w
                    r = self.lconst(v)
                    lst.append((cnd, self.f32(r) if k == 'float' else r))
                return FV(self.mkcases_safe(lst), k)
        use = False
        if x.lin is not None:
            c, t, lo, hi = x.lin
            if signed:
                use = lo >= -(1 << (x.w - 1)) and hi < (1 << (x.w - 1))
            else:
                use = lo >= 0 and hi < (1 << x.w)
        if use and k == "double":
            # a sum of integers is the sum of the converted integers, each by cases of its own
            vs = [(self.cvt(Int(len(key), key), True, k), co) for key, co in t]
            if 1 < max(len(v.cases) for v, co in vs) <= 3 and math.prod(len(v.cases) for v, co in vs) <= 6:
                cs = {self.lconst(c): 1}
                for v, co in vs:
                    n = {}
                    for l1, g1 in cs.items():
                        for g2, l2 in v.cases:
                            g = B.AND(g1, g2)
                            if g:
                                l = self.ladd(l1, self.lmul(l2, self.lconst(co)))
                                n[l] = B.OR(n.get(l, 0), g)
                    cs = n
                return FV(self.mkcases(cs), k)
        if use:
            l = self.lconst(c)
            for key, co in t:
                l = self.ladd(l, self.lmul(self.cvt_leaf(key), self.lconst(co)))
        else:
            bits = x.bits if signed else x.bits + (0,)
            key = self.strip(bits)
            # factor out trailing zeros
            sh = 0
            while len(key) > 1 and key[0] == 0:
                key = key[1:]
                sh += 1
            l = self.lmul(self.cvt_leaf(key), self.lconst(1 << sh))
        return self.fv(self.f32(l) if k == 'float' else l, k)

    def mkcases_safe(self, lst):
        d = {}
        for c, l in lst:
            d[l] = self.b.OR(d.get(l, 0), c)
        return self.mkcases(d)

    def fptoi(self, x, w, signed):
        B = self.b
        r = None
        src = {}
        for c, l in x.cases:
            if len(x.cases) > 1 and B.AND(c, self.pc) == 0:
                continue
            self.exact_leaf = None
            v = self.l2i(l, w, signed, B.AND(c, self.pc))
            if src is not None and self.exact_leaf is not None:
                src[self.exact_leaf] = B.OR(src.get(self.exact_leaf, 0), c)
            else:
                src = None
            r = v if r is None else self.iite(c, v, r)
        if src and len(src) > 1:
            # where pc holds, converting this integer back gives the same cases
            self.f2i_src[self.strip(r.bits if signed else r.bits + (0,))] = (self.pc, src)
        return r

    def l2i(self, l, w, signed, cond):
        c = self.lc(l)
        lim = ((-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1))
        if c is not None:
            t = int(c)
            if not lim[0] <= t <= lim[1]:
                if self.ub:
                    self.ub('fptoi', cond, 'conversion of %g out of range' % float(c))
                return self.opaque(('fptoi', w, signed, l.id), w)
            self.exact_leaf = self.lconst(t)
            return self.ci(w, t)
        # exact integer linear forms
        if self.is_integral(l) and all(len(m) <= 1 and (not m or m[0][1] == 1) for m in l.poly) and \
                all((not m) or self.atoms[m[0][0]][0] == 'cvt' for m in l.poly):
            lo, hi = self.lrange(l)
            if lo is None or hi is None or lo < lim[0] or hi > lim[1]:
                lo, hi = self.leaf_bounds(l, cond)
            if lo is not None and hi is not None and lim[0] <= lo and hi <= lim[1]:
                self.exact_leaf = l
                return self.l2i_exact(l, w)
        r = self.l2i_enum(l, w, lim, cond)
        if r is not None:
            return r
        lo, hi = self.leaf_bounds(l, cond)
        # trunc toward zero
        pc = self.pc
        self.pc = cond
        l2 = self.lfn('trunc', l)
        self.pc = pc
        if l2 is not l:
            if self.is_integral(l2) and all(self.atoms[m[0][0]][0] == 'cvt' for m in l2.poly if m and len(m) == 1):
                if self.lc(l2) is not None or all(len(m) <= 1 for m in l2.poly):
                    blo, bhi = self.leaf_bounds(l2, cond)
                    if blo is not None and bhi is not None and lim[0] <= blo and bhi <= lim[1]:
                        self.exact_leaf = l2
                        return self.l2i_exact(l2, w)
            if len(l2.poly) == 1:
                (m, co), = l2.poly.items()
                if co == 1 and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'trunc':
                    l = self.leaf_list[self.atoms[m[0][0]][1]]
        elif len(l.poly) == 1:
            (m, co), = l.poly.items()
            if co == 1 and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'trunc':
                l = self.leaf_list[self.atoms[m[0][0]][1]]
        r = self.opaque(('fptoi', w, signed, self.canon(l)), w)
        clo = lim[0] if lo is None else max(lim[0], math.trunc(lo))
        chi = lim[1] if hi is None else min(lim[1], math.trunc(hi))
        if (lo is None or lo <= lim[0] - 1 or hi is None or hi >= lim[1] + 1):
            if self.ub:
                self.ub('fptoi?', cond, 'float-to-int range not bounded by the code')
        if clo <= chi and (clo, chi) != lim:
            a = self.icmp('sge' if signed else 'uge', r, self.ci(w, clo))
            b = self.icmp('sle' if signed else 'ule', r, self.ci(w, chi))
            # the bound holds where `cond` holds
            self.axioms = B_and(self.b, self.axioms, self.b.OR(self.b.NOT(cond), self.b.AND(a, b)))
            if self.narrow:
                # r is only used where `cond` holds
                if clo >= 0:
                    k = int(chi).bit_length()
                    r = Int(w, tuple(r.bits[:k]) + (0,) * (w - k))
                elif signed:
                    k = max(int(chi).bit_length(), int(-clo - 1).bit_length()) + 1
                    r = Int(w, tuple(r.bits[:k]) + (r.bits[k - 1],) * (w - k))
        return r

    def l2i_enum(self, l, w, lim, cond):
        """c0 + c1*n for an integer n with few values: evaluate each (rounding to double)"""
        ms = [m for m in l.poly if m]
        if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1 or self.atoms[ms[0][0][0]][0] != 'cvt' or not cond:
            return None
        k = self.atoms[ms[0][0][0]][1]
        pc = self.pc
        self.pc = cond
        vs = self.values(Int(len(k), k), 1500)
        self.pc = pc
        if vs is None:
            return None
        B = self.b
        out = [0] * w
        c0, c1 = l.poly.get((), Fraction(0)), l.poly[ms[0]]
        groups = {}
        for v, cnd in vs:
            if v >> (len(k) - 1):
                v -= 1 << len(k)
            t = int(float(c0 + Fraction(float(c1 * v))))
            if not lim[0] <= t <= lim[1]:
                return None
            groups[t] = B.OR(groups.get(t, 0), cnd)
        for t, cnd in groups.items():
            for i in range(w):
                if t >> i & 1:
                    out[i] = B.OR(out[i], cnd)
        return Int(w, tuple(out))

    def l2i_exact(self, l, w):
        acc = None
        c0 = 0
        for m, co in l.poly.items():
            if not m:
                c0 = int(co)
                continue
            k = self.atoms[m[0][0]][1]
            base = Int(w, (k + (k[-1],) * w)[:w])
            term = self.mul(base, self.ci(w, int(co) & ((1 << w) - 1)), True)
            acc = term if acc is None else self.add(acc, term, True)
        if acc is None:
            return self.ci(w, c0)
        if c0:
            acc = self.add(acc, self.ci(w, c0 & ((1 << w) - 1)), True)
        return acc

    # comparisons --------------------------------------------------------
    def cmpvars(self, n):
        """trichotomy variables (lt, eq) for normalised leaf n versus 0"""
        # split the constant
        c0 = n.poly.get((), Fraction(0))
        base = self.leaf({m: c for m, c in n.poly.items() if m != ()})
        key = self.canon(base)
        ch = self.thr.setdefault(key, {})
        kc = keyc(c0, 50)
        r = ch.get(kc)
        if r is None:
            B = self.b
            lt, eq, nb = self.thr_vars(key, kc, -c0)
            # base + c0 < 0  <=>  base < -c0
            r = (lt, eq, -c0)
            ch[kc] = r
            self.cmp_desc[('lt', key, kc)] = (n, '<')
            self.cmp_desc[('eq', key, kc)] = (n, '==')
            self.eq_nodes[eq] = n
            self.stats['cmps'] += 1
            # chain axioms with the neighbours: base<a or base==a  =>  base<b for a < b
            for (l1, e1), (l2, e2) in nb:
                self.axioms = B.AND(self.axioms, B.OR(B.NOT(B.OR(l1, e1)), l2))
            if len(base.poly) == 1:
                # a float never equals a number that is not a float
                (m, co), = base.poly.items()
                at = self.atoms[m[0][0]]
                if len(m) == 1 and m[0][1] == 1 and at[0] == 'fabs':
                    p1 = self.leaf_list[at[1]].poly
                    if len(p1) == 1 and abs(list(p1.values())[0]) == 1:
                        m = list(p1)[0]
                        at = self.atoms[m[0][0]] if m else at
                if len(m) == 1 and m[0][1] == 1 and at[0] in ('f32', 'in32'):
                    v = -c0 / co
                    if not (abs(v) < 1e30 and Fraction(struct.unpack('f', struct.pack('f', float(v)))[0]) == v):
                        self.axioms = B.AND(self.axioms, B.NOT(eq))
            lo, hi = self.lrange(base)
            if lo is not None:
                if lo > -c0:
                    self.axioms = B.AND(self.axioms, B.AND(B.NOT(lt), B.NOT(eq)))
                elif lo == -c0:
                    self.axioms = B.AND(self.axioms, B.NOT(lt))
            if hi is not None:
                if hi < -c0:
                    self.axioms = B.AND(self.axioms, lt)
                elif hi == -c0:
                    self.axioms = B.AND(self.axioms, B.OR(lt, eq))
        return r

    def lcmp(self, a, b):
        """(lt, eq, gt, uno) conditions for leaves"""
        d = self.ladd(a, b, -1)
        c = self.lc(d)
        B = self.b
        for l in (a, b):
            for m in l.poly:
                for at, e in m:
                    if self.atoms[at] == ('nan',):
                        return 0, 0, 0, 1
        ia, ib = self.infsign(a), self.infsign(b)
        if ia or ib:
            if ia == ib:
                return 0, 1, 0, 0
            if ia:
                return (0, 0, 1, 0) if ia > 0 else (1, 0, 0, 0)
            return (1, 0, 0, 0) if ib > 0 else (0, 0, 1, 0)
        if c is not None:
            return (1, 0, 0, 0) if c < 0 else (0, 1, 0, 0) if c == 0 else (0, 0, 1, 0)
        lo, hi = self.lrange(d)
        if lo is not None and lo > 0:
            return 0, 0, 1, 0
        if hi is not None and hi < 0:
            return 1, 0, 0, 0
        ab = None
        for m, co in d.poly.items():
            if m == ():
                continue
            if ab is None and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'fabs':
                ab = (self.leaf_list[self.atoms[m[0][0]][1]], co)
            else:
                ab = None
                break
        if ab is not None:
            # a tolerance far below the constant term would be lost in the rounding of constants: keep the absolute value as it is
            k = abs(ab[0].poly.get((), 0))
            if 0 < abs(d.poly.get((), 0) / ab[1]) < k * TOL:
                ab = None
        if ab is not None:
            # a*|q| + k against 0: two comparisons of q
            q, co = ab
            r = self.lconst(rndc(-d.poly.get((), Fraction(0)) / co))
            L1, E1, G1, u = self.lcmp(q, r)
            L2, E2, G2, _ = self.lcmp(self.leaf({m: -v for m, v in q.poly.items()}), r)
            L, G = B.AND(L1, L2), B.OR(G1, G2)
            E = B.NOT(B.OR(B.OR(L, G), u))
            if co < 0:
                L, G = G, L
            return L, E, G, u
        if self.pc and not self.nan_aware:
            lo, hi = self.leaf_bounds(d, self.pc)
            if lo is not None and lo > 0:
                return 0, 0, 1, 0
            if hi is not None and hi < 0:
                return 1, 0, 0, 0
        else:
            lo = hi = None
        s, n = self.norm(d)
        r = self.int_cmp(n)
        if r is not None:
            return (r[2], r[1], r[0], 0) if s < 0 else r
        lt, eq, _ = self.cmpvars(n)
        nlt = B.NOT(lt)
        L, E, G = lt, B.AND(nlt, eq), B.AND(nlt, B.NOT(eq))
        if s < 0:
            L, G = G, L
        if lo == 0:
            if self.strict(self.lneg(d), 0):
                return 0, 0, 1, 0
            L, G = 0, B.NOT(E)
        elif hi == 0:
            if self.strict(d, 0):
                return 1, 0, 0, 0
            L, G = B.NOT(E), 0
        u = 0
        if self.nan_aware:
            for l in (a, b):
                for m in l.poly:
                    for at, e in m:
                        if self.atoms[at][0] in ('in', 'in32', 'call'):
                            u = B.OR(u, B.newvar(('isnan', at), 0))
            nu = B.NOT(u)
            L, E, G = B.AND(L, nu), B.AND(E, nu), B.AND(G, nu)
        return L, E, G, u

    def thr_vars(self, key, kc, t):
        """variables for base < t and base == t, ordered by t among those of the same base"""
        B = self.b
        ch = self.thr_order.setdefault(key, [])     # sorted (t, level, lt, eq)
        i = bisect.bisect_left(ch, (t,))
        if not ch:
            lt = B.newvar(('lt', key, kc), 0, (B.nsym + 1) << 40 | 1 << 39)
            lv = B.lvl[lt]
            eq = B.newvar(('eq', key, kc), 0, lv + 1)
        else:
            if i == len(ch):
                lv = ch[-1][1] + (1 << 24)
            elif i == 0:
                lv = ch[0][1] - (1 << 24)
            else:
                lv = (ch[i - 1][1] + ch[i][1]) // 2 & ~1
            if (i and lv <= ch[i - 1][1] + 1) or (i < len(ch) and lv + 1 >= ch[i][1]) or lv >> 40 != ch[0][1] >> 40:
                raise Unsupported('too many thresholds')
            lt = B.newvar(('lt', key, kc), 0, lv)
            eq = B.newvar(('eq', key, kc), 0, lv + 1)
        nb = []
        if i:
            nb.append((ch[i - 1][2:], (lt, eq)))
        if i < len(ch):
            nb.append(((lt, eq), ch[i][2:]))
        ch.insert(i, (t, lv, lt, eq))
        return lt, eq, nb

    def int_bits(self, l):
        """two's complement bits of an integer combination of conversions, exact, or None"""
        r = self.ibcache.get(l.id)
        if r is not None:
            return r or None
        B = self.b
        t = []
        k0 = 0
        for m, c in l.poly.items():
            if not m:
                k0 = int(c)
            else:
                t.append((self.atoms[m[0][0]][1], int(c)))
        w = max([len(k) + abs(c).bit_length() for k, c in t] + [abs(k0).bit_length()]) + 4
        old = B.budget
        B.budget = self.rip_budget
        try:
            acc = tuple(k0 >> i & 1 for i in range(w))
            for k, c in t:
                b = (tuple(k) + (k[-1],) * w)[:w]
                if c < 0:
                    b = self.ripple((0,) * w, tuple(B.NOT(q) for q in b), 1)
                for i in range(abs(c).bit_length()):
                    if abs(c) >> i & 1:
                        acc = self.ripple(acc, ((0,) * i + b)[:w], 0)
        except BddLimit:
            if len(B.lvl) > B.limit:
                raise
            acc = None
        finally:
            B.budget = old
        self.ibcache[l.id] = acc or ()
        return acc

    def int_cmp(self, d):
        """integer + fraction in [0,1) against 0: compare the integer"""
        if not self.pc or self.nan_aware:
            return None
        ms = [m for m in d.poly if m]
        iv = [m for m in ms if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'cvt']
        if not iv or len(iv) > 6 or len(ms) - len(iv) > 2 or not any(len(self.atoms[m[0][0]][1]) <= 48 for m in iv):
            return None
        B = self.b
        sc = Fraction(1)
        den = 1
        for m in iv:
            f = d.poly[m].limit_denominator(1000000)
            if abs(f - d.poly[m]) * (1 << 60) > abs(f):
                return None
            den = den * f.denominator // math.gcd(den, f.denominator)
        if den > 1 << 24:
            return None
        x = self.lmul(d, self.lconst(den)) if den != 1 else d
        c0 = x.poly.get(())
        if c0:
            k = round(c0)
            if k != c0 and abs(c0 - k) * (1 << 46) < abs(k):
                x = self.ladd(x, self.lconst(k - c0))
        i = {m: c for m, c in x.poly.items() if m in iv}
        if any(c.denominator != 1 or abs(c) > 1 << 40 for c in i.values()):
            return None
        r = self.leaf({m: c for m, c in x.poly.items() if m not in iv})
        lo, hi = self.leaf_bounds(r, self.pc)
        if lo is None or hi is None:
            return None
        k = math.floor(lo)
        if not (hi < k + 1 or (hi == k + 1 and self.strict(r, hi))):
            return None
        i[()] = Fraction(k)
        r = self.ladd(r, self.lconst(k), -1)
        b = self.int_bits(self.leaf({m: c for m, c in i.items() if c}))
        if b is None:
            return None
        lt = b[-1]
        z = 1
        for q in b:
            z = B.AND(z, B.NOT(q))
        if not r.poly:
            return lt, z, B.NOT(B.OR(lt, z)), 0
        if self.lc(r) is not None or (lo > k):
            return lt, 0, B.NOT(lt), 0
        rl, re, rg, _ = self.lcmp(r, self.zero)
        e = B.AND(z, re)
        return lt, e, B.NOT(B.OR(lt, e)), 0

    def infsign(self, l):
        if len(l.poly) == 1:
            (m, c), = l.poly.items()
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]] == ('inf',):
                return 1 if c > 0 else -1
        return 0

    def fcmp(self, pred, x, y):
        B = self.b
        if pred == 'false':
            return 0
        if pred == 'true':
            return 1
        r = 0
        self.stats['atoms'] += 1
        pc = self.pc
        for c1, l1 in x.cases:
            for c2, l2 in y.cases:
                c = B.AND(c1, c2)
                if c == 0:
                    continue
                self.pc = B.AND(c, pc)
                if self.pc == 0:
                    continue
                L, E, G, U = self.lcmp(l1, l2)
                t = {'oeq': E, 'ogt': G, 'oge': B.OR(G, E), 'olt': L, 'ole': B.OR(L, E), 'one': B.OR(L, G),
                     'ord': B.NOT(U), 'uno': U, 'ueq': B.OR(E, U), 'ugt': B.OR(G, U),
                     'uge': B.OR(B.OR(G, E), U), 'ult': B.OR(L, U), 'ule': B.OR(B.OR(L, E), U),
                     'une': B.OR(B.OR(L, G), U)}[pred]
                r = B.OR(r, B.AND(c, t))
        self.pc = pc
        return r

    def leaf_bounds(self, l, cond, depth=0):
        """bounds of leaf l under path condition cond, using comparison facts on leaves"""
        lo, hi = self.lrange(l)
        flo, fhi = self.fact_bounds(l, cond)
        if flo is not None and (lo is None or flo > lo):
            lo = flo
        if fhi is not None and (hi is None or fhi < hi):
            hi = fhi
        if lo is not None and lo == hi:
            return lo, hi
        if 1:
            # recurse through rounding atoms / affine forms
            a, b = self.affine_bounds(l, cond)
            if a is not None and b is not None and a < 0 < b:
                # correlated integers: add them up exactly
                ip = {m: c for m, c in l.poly.items() if c.denominator == 1 and len(m) == 1 and m[0][1] == 1 and
                      self.atoms[m[0][0]][0] == 'cvt'}
                if 2 <= len(ip) <= 6 and max(abs(c) for c in ip.values()) < 1 << 40:
                    key = (l.id, cond)
                    r = self.icorr.get(key)
                    if r is None:
                        x = self.l2i_exact(self.leaf(ip), 64)
                        pc = self.pc
                        self.pc = cond
                        x, z = self.irange(x, True)
                        self.pc = pc
                        u, v = self.affine_bounds(self.leaf({m: c for m, c in l.poly.items() if m not in ip}), cond)
                        r = self.icorr[key] = (u + x, v + z)
                    a, b = max(a, r[0]), min(b, r[1])
            if depth < 3:
                # c*trunc(y) = c*y - c*frac(y)
                for m, c in l.poly.items():
                    if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] in ('trunc', 'floor'):
                        d = self.atoms[m[0][0]]
                        y = self.leaf_list[d[1]]
                        rest = self.ladd(self.leaf({k: v for k, v in l.poly.items() if k != m}),
                                         self.lmul(y, self.lconst(c)))
                        if sum(1 for k in rest.poly if k) >= len(l.poly):
                            continue
                        x, z = self.leaf_bounds(rest, cond, depth + 1)
                        ylo, yhi = (Fraction(0), None) if d[0] == 'floor' else self.leaf_bounds(y, cond, depth + 1)
                        f = (Fraction(0) if ylo is not None and ylo >= 0 else Fraction(-1),
                             Fraction(0) if d[0] == 'trunc' and yhi is not None and yhi <= 0 else Fraction(1))
                        g = imul(f[0], f[1], -c, -c)
                        if x is not None and (a is None or x + g[0] > a):
                            a = x + g[0]
                        if z is not None and (b is None or z + g[1] < b):
                            b = z + g[1]
            if lo is None or (a is not None and a > lo):
                lo = a if a is not None else lo
            if hi is None or (b is not None and b < hi):
                hi = b if b is not None else hi
        return lo, hi

    def fact_bounds(self, l, cond):
        s, n = self.norm(l)
        if s == 0:
            return None, None
        c0 = n.poly.get((), Fraction(0))
        base = self.leaf({m: c for m, c in n.poly.items() if m != ()})
        ch = self.thr.get(self.canon(base))
        if not ch:
            return None, None
        B = self.b
        cc = B.AND(cond, self.axioms)
        lo = hi = None
        for lt, eq, t in ch.values():
            if B.AND(cc, B.NOT(B.OR(lt, eq))) == 0:       # base <= t
                if hi is None or t < hi:
                    hi = t
            if B.AND(cc, lt) == 0:                        # base >= t
                if lo is None or t > lo:
                    lo = t
        # l = s*(base + c0)
        if lo is not None:
            lo = s * (lo + c0)
        if hi is not None:
            hi = s * (hi + c0)
        if s < 0:
            lo, hi = hi, lo
        return lo, hi

    def affine_bounds(self, l, cond):
        lo = hi = Fraction(0)
        for m, c in l.poly.items():
            a, b = Fraction(1), Fraction(1)
            if m:
                for at, e in m:
                    if e != 1:
                        return None, None
                    x, y = self.atom_bounds(at, cond)
                    a, b = imul(a, b, x, y)
            a, b = imul(a, b, c, c)
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        return lo, hi

    def atom_bounds(self, at, cond):
        d = self.atoms[at]
        x, y = self.arange(at)
        fx, fy = self.fact_bounds(self.leaf({((at, 1),): Fraction(1)}), cond)
        if fx is not None and (x is None or fx > x):
            x = fx
        if fy is not None and (y is None or fy < y):
            y = fy
        if d[0] == 'f32':
            a, b = self.leaf_bounds(self.leaf_list[d[1]], cond)
            if a is not None:
                a = Fraction(struct.unpack('f', struct.pack('f', float(a)))[0])
            if b is not None:
                b = Fraction(struct.unpack('f', struct.pack('f', float(b)))[0])
        elif d[0] in ('trunc', 'floor', 'ceil', 'round', 'rint'):
            a, b = self.leaf_bounds(self.leaf_list[d[1]], cond)
            fn = {'trunc': math.trunc, 'floor': math.floor, 'ceil': math.ceil,
                  'round': lambda z: math.floor(z + Fraction(1, 2)), 'rint': round}[d[0]]
            a = None if a is None else Fraction(fn(a))
            b = None if b is None else Fraction(fn(b))
        elif d[0] == 'frac':
            a, b = self.leaf_bounds(self.leaf_list[d[1]], cond)
            a, b = (Fraction(0) if a is not None and a >= 0 else Fraction(-1),
                    Fraction(0) if b is not None and b <= 0 else Fraction(1))
        elif d[0] == 'fabs':
            a, b = self.leaf_bounds(self.leaf_list[d[1]], cond)
            if a is not None and b is not None:
                a, b = (a, b) if a >= 0 else (-b, -a) if b <= 0 else (Fraction(0), max(-a, b))
            else:
                a, b = Fraction(0), None
        elif d[0] == 'cvt':
            k = d[1]
            old = self.pc
            self.pc = cond
            if cond and len(k) <= 64:
                lo, hi = self.irange(Int(len(k), k), True)
                a, b = Fraction(lo), Fraction(hi)
            else:
                a = b = None
            self.pc = old
        else:
            a = b = None
        if a is not None and (x is None or a > x):
            x = a
        if b is not None and (y is None or b < y):
            y = b
        return x, y

    # merging -------------------------------------------------------------
    def iite(self, c, x, y):
        if c == 1:
            return x
        if c == 0:
            return y
        if x.bits == y.bits:
            return x if x.lin == y.lin else Int(x.w, x.bits)
        B = self.b
        return Int(x.w, tuple(p if p == q else B.ITE(c, p, q) for p, q in zip(x.bits, y.bits)))

    def pite(self, c, x, y):
        B = self.b
        if c == 1:
            return x
        if c == 0:
            return y
        d = {}
        nc = B.NOT(c)
        for cc, o, f in x.cases:
            t = B.AND(cc, c)
            if t:
                k = (o, f if isinstance(f, int) else (f.bits,))
                d[k] = (B.OR(d[k][0], t) if k in d else t, o, f)
        for cc, o, f in y.cases:
            t = B.AND(cc, nc)
            if t:
                k = (o, f if isinstance(f, int) else (f.bits,))
                d[k] = (B.OR(d[k][0], t) if k in d else t, o, f)
        return Ptr(tuple(d.values()))

    def ite(self, c, x, y):
        if x is y:
            return x
        if isinstance(x, Int) and isinstance(y, Int):
            return self.iite(c, x, y)
        if isinstance(x, FV) and isinstance(y, FV):
            if x.cases == y.cases:
                return x
            return self.fite(c, x, y)
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.cases == y.cases:
                return x
            return self.pite(c, x, y)
        if isinstance(x, Agg) and isinstance(y, Agg):
            return Agg([self.ite(c, p, q) for p, q in zip(x.elems, y.elems)])
        if x is None or y is None:
            return x if y is None else y
        for p, q, sw in ((x, y, False), (y, x, True)):
            if isinstance(p, Ptr) and isinstance(q, Int) and q.const() is not None:
                q = Ptr(((1, None, q.const()),))
                return self.pite(c, q, p) if sw else self.pite(c, p, q)
        raise Unsupported('merge of %r and %r' % (type(x), type(y)))

    # equality ------------------------------------------------------------
    def zero_factors(self, a, b, d):
        """drop from d the conditions under which some factor of a - b is known to be zero"""
        B = self.b
        p = self.ladd(a, b, -1).poly
        at = {x for m in p for x, e in m}
        sup = None
        for eq, n in self.eq_nodes.items():
            if eq <= 1 or len(n.poly) > len(p) or not all(x in at for m in n.poly for x, e in m):
                continue
            if sup is None:
                sup = B.support(d)
            if not B.support(eq) <= sup:
                continue
            d1 = B.AND(d, B.NOT(eq))
            if d1 != d and divides(n.poly, p):
                d = d1
                if not d:
                    break
        return d

    def leaf_equal(self, a, b, care=1):
        if a is b:
            return True
        k = (a.id, b.id, care) if a.id < b.id else (b.id, a.id, care)
        r = self.eq_cache.get(k)
        if r is None:
            r = self._leaf_equal(a, b, care)
            self.eq_cache[k] = r
        return r

    def is_big(self, l):
        return any(self.atoms[at][0] == 'in' and self.atoms[at][1][0] == 'big' for at in self.leaf_atoms(l))

    def _leaf_equal(self, a, b, care, depth=0):
        if self.cuts and (self.is_big(a) or self.is_big(b)):
            return False
        sub = {}
        if self._iszero(a, b, care, sub):
            return True
        # unify atoms with equal arguments
        aa = self.leaf_atoms(a)
        bb = self.leaf_atoms(b)
        changed = False
        for x in bb - aa:
            dx = self.atoms[x]
            if dx[0] in ('in', 'in32', 'cvt', 'bool', 'inf', 'nan', 'mu'):
                continue
            for y in aa - bb:
                dy = self.atoms[y]
                if dy[0] != dx[0] or len(dy) != len(dx):
                    continue
                if all(p == q or (isinstance(p, int) and isinstance(q, int) and
                                  self.leaf_equal(self.leaf_list[p], self.leaf_list[q], care))
                       for p, q in zip(dx[1:], dy[1:])):
                    sub[x] = y
                    changed = True
                    break
        if changed:
            return self._iszero(a, b, care, sub)
        return False

    def leaf_atoms(self, l):
        return {at for m in l.poly for at, e in m}

    def _iszero(self, a, b, care, sub):
        """a == b as rational functions (poly atoms multiplied out, cvt atoms expanded to bits)"""
        B = self.b

        def step(p, expand):
            """p: {mono: (val, mag)} -> expand poly atoms with negative exponents"""
            need = {}
            for m in p:
                for at, e in m:
                    if self.atoms[at][0] == 'poly' and e < 0:
                        need[at] = max(need.get(at, 0), -e)
            for at, n in need.items():
                P = self.leaf_list[self.atoms[at][1]].poly
                for _ in range(n):
                    q = {}
                    for m, (v, g) in p.items():
                        d = dict(m)
                        e = d.get(at, 0)
                        if e < 0:
                            mm = self.mmul(m, ((at, 1),))
                            acc(q, mm, v, g)
                        else:
                            for m2, c2 in P.items():
                                c2 = float(c2)
                                acc(q, self.mmul(m, m2), v * c2, g * abs(c2))
                    p = q
                    if len(p) > 200000:
                        return None
            return p

        def acc(q, m, v, g):
            o = q.get(m)
            q[m] = (v, g) if o is None else (o[0] + v, o[1] + g)

        p = {}

        def addp(l, s):
            for m, c in l.poly.items():
                m2 = tuple(sorted((sub.get(at, at), e) for at, e in m)) if sub else m
                if sub:
                    d = {}
                    for at, e in m2:
                        d[at] = d.get(at, 0) + e
                    m2 = tuple(sorted((at, e) for at, e in d.items() if e))
                acc(p, m2, s * c, abs(c))
        addp(a, 1)
        addp(b, -1)
        p = {m: (Fraction(v), g) for m, (v, g) in p.items()}

        def clean(p):
            return {m: (v, g) for m, (v, g) in p.items() if abs(v) > g * TOL}
        p = clean(p)
        if not p:
            return True
        p = {m: (v if isinstance(v, float) else float_safe(v), float_safe(g)) for m, (v, g) in p.items()}
        for _ in range(4):
            p2 = step(p, True)
            if p2 is None:
                return False
            p2 = clean(p2)
            if not p2:
                return True
            # clear remaining negative sqrt powers is not needed; reduce sqrt^2, cos^2
            p3 = {}
            ch = p2.keys() != p.keys()
            for m, (v, g) in p2.items():
                done = False
                for at, e in m:
                    d = self.atoms[at]
                    if d[0] == 'sqrt' and e >= 2:
                        rest = self.mmul(m, ((at, -2),))
                        for m2, c2 in self.leaf_list[d[1]].poly.items():
                            acc(p3, self.mmul(rest, m2), v * float(c2), g * abs(float(c2)))
                        done = ch = True
                        break
                    if d[0] == 'sqrt' and e <= -2:
                        pa = self.linv(self.leaf_list[d[1]])
                        rest = self.mmul(m, ((at, 2),))
                        for m2, c2 in pa.poly.items():
                            acc(p3, self.mmul(rest, m2), v * float(c2), g * abs(float(c2)))
                        done = ch = True
                        break
                    if d[0] == 'cos' and e >= 2:
                        rest = self.mmul(m, ((at, -2),))
                        sn = self.atom_id.get(('sin', d[1]))
                        if sn is None:
                            continue
                        acc(p3, rest, v, g)
                        acc(p3, self.mmul(rest, ((sn, 2),)), -v, g)
                        done = ch = True
                        break
                if not done:
                    acc(p3, m, v, g)
            p = clean(p3)
            if not p:
                return True
            if not ch:
                break
        if self.int_zero(p, care):
            return True
        # expand integer conversions into bits
        q = {}
        for m, (v, g) in p.items():
            terms = [((), v, g)]
            for at, e in m:
                d = self.atoms[at]
                if d[0] == 'cvt' and e == 1:
                    nt = []
                    n = len(d[1])
                    for mm, vv, gg in terms:
                        for i, bit in enumerate(d[1]):
                            wgt = float(1 << i) if i < n - 1 else -float(1 << i)
                            bb = B.AND(bit, care)
                            if bb == 0:
                                continue
                            nn = B.AND(B.NOT(bit), care)
                            if nn == 0:
                                nt.append((mm, vv * wgt, gg * abs(wgt)))
                            elif bb <= nn:
                                nt.append((self.mmul(mm, ((self.atom(('bool', bb)), 1),)), vv * wgt, gg * abs(wgt)))
                            else:
                                nt.append((mm, vv * wgt, gg * abs(wgt)))
                                nt.append((self.mmul(mm, ((self.atom(('bool', nn)), 1),)), -vv * wgt, gg * abs(wgt)))
                    terms = nt
                    if len(terms) > 50000:
                        return False
                else:
                    terms = [(self.mmul(mm, ((at, e),)), vv, gg) for mm, vv, gg in terms]
            for mm, vv, gg in terms:
                acc(q, mm, vv, gg)
        return not clean(q)

    def int_zero(self, p, care):
        """sum of scaled integers: add them up bit by bit and compare with zero where care holds"""
        B = self.b
        cs = [abs(v) for m, (v, g) in p.items() if m]
        if not cs or len(cs) > 40:
            return False
        u = min(cs)
        t = []
        k0 = 0
        for m, (v, g) in p.items():
            c = v / u
            r = round(c)
            if abs(c - r) > 1e-9 * max(1, abs(c)) or abs(r) > 1 << 40:
                return False
            if not m:
                k0 = r
                continue
            if len(m) != 1 or m[0][1] != 1 or self.atoms[m[0][0]][0] != 'cvt':
                return False
            t.append((self.atoms[m[0][0]][1], r))
        w = max(len(k) for k, r in t) + max(abs(r).bit_length() for k, r in t) + 5
        old = B.budget
        B.budget = 3000000
        try:
            acc = tuple(k0 >> i & 1 for i in range(w))
            # opposite terms that agree where care holds cancel
            for k, r in list(t):
                if (k, r) not in t:
                    continue
                for k2, r2 in t:
                    if r2 == -r:
                        n = max(len(k), len(k2))
                        if all(B.AND(B.XOR(x, y), care) == 0 for x, y in
                               zip((tuple(k) + (k[-1],) * n)[:n], (tuple(k2) + (k2[-1],) * n)[:n])):
                            t.remove((k, r))
                            t.remove((k2, r2))
                            break
            for k, r in t:
                b = (tuple(k) + (k[-1],) * w)[:w]
                if r < 0:
                    b = self.ripple((0,) * w, tuple(B.NOT(q) for q in b), 1)
                for i in range(abs(r).bit_length()):
                    if abs(r) >> i & 1:
                        acc = self.ripple(acc, ((0,) * i + b)[:w], 0)
            return all(B.AND(q, care) == 0 for q in acc)
        except BddLimit:
            if len(B.lvl) > B.limit:
                raise
            return False
        finally:
            B.budget = old

    def eq_cond(self, x, y, care):
        """condition (within care) under which x and y may differ; 0 = proven equal"""
        B = self.b
        care = B.AND(care, self.axioms)
        if isinstance(x, Int):
            r = 0
            for p, q in zip(x.bits, y.bits):
                if p != q:
                    a, b = B.parity(p), B.parity(q)
                    if a is not None and b is not None:
                        if a == b:
                            continue
                        p, q = B.from_parity(*a), B.from_parity(*b)
                    r = B.OR(r, B.AND(B.XOR(p, q), care))
            if r and (x.lin is not None or y.lin is not None):
                c1, t1, _, _ = self.linof(x)
                c2, t2, _, _ = self.linof(y)
                m = 1 << x.w
                ks = set(t1) | set(t2)
                if (c1 - c2) % m == 0 and all((t1.get(k, 0) - t2.get(k, 0)) % m == 0 for k in ks):
                    return 0
            return r
        if isinstance(x, FV):
            r = 0
            for c1, l1 in x.cases:
                a = B.AND(c1, care)
                if a == 0:
                    continue
                for c2, l2 in y.cases:
                    c = B.AND(a, c2)
                    if c and not self.leaf_equal(l1, l2, c):
                        # equality facts under c?
                        L, E, G, U = self.lcmp(l1, l2)
                        d = B.AND(B.AND(c, self.axioms), B.NOT(E))
                        if d:
                            d = self.zero_factors(l1, l2, d)
                        if d:
                            r = B.OR(r, d)
            return r
        if isinstance(x, Ptr):
            r = 0
            for c1, o1, f1 in x.cases:
                for c2, o2, f2 in y.cases:
                    c = B.AND(B.AND(c1, c2), care)
                    if c and not (o1 is o2 and (f1 == f2 or (isinstance(f1, Int) and isinstance(f2, Int) and f1.bits == f2.bits))):
                        r = B.OR(r, c)
            return r
        raise Unsupported('eq of %r' % type(x))

    # pretty printing ------------------------------------------------------
    def show_key(self, key):
        """describe a bit tuple"""
        n = len(key)
        out = []
        i = 0
        while i < n:
            b = key[i]
            if b <= 1:
                j = i
                while j < n and key[j] == b:
                    j += 1
                out.append('%d' % b + ('*%d' % (j - i) if j - i > 1 else ''))
                i = j
                continue
            nm = self.bitname(b)
            if nm is None:
                out.append('f%d' % b)
                i += 1
                continue
            j = i + 1
            while j < n and key[j] > 1 and self.bitname(key[j]) == (nm[0], nm[1] + j - i):
                j += 1
            out.append('%s[%d..%d]' % (self.short(nm[0]), nm[1], nm[1] + j - i - 1))
            i = j
        return '|'.join(reversed(out))

    def bitname(self, b):
        if b <= 1 or self.b.lo[b] != 0 or self.b.hi[b] != 1:
            return None
        nm = self.b.names[self.b.lvl[b]]
        return nm if isinstance(nm, tuple) and len(nm) == 2 and isinstance(nm[1], int) else None

    def short(self, n):
        if isinstance(n, tuple):
            if len(n) == 3 and n[0] == 'par':
                return 'parity(%d bits)#%x' % (bin(n[1]).count('1'), hash(n[1]) & 0xffff)
            if n and n[0] == 't':
                d = n[1]
                return 'term:%s#%d' % (d[0], self.term_desc.get(d, -1))
            if n and n[0] == 'sym':
                return '%s+%s' % (n[1], n[2])
            return ':'.join(str(self.short(x)) for x in n)[:60]
        return str(n)

    def show_atom(self, at, depth=0):
        d = self.atoms[at]
        if d[0] == 'cvt':
            return 'int{%s}' % self.show_key(d[1])
        if d[0] in ('in', 'in32'):
            return self.short(d[1])
        if d[0] in ('bool',):
            return '[f%d]' % d[1]
        if depth > 3:
            return '%s(..)' % d[0]
        return '%s(%s)' % (d[0], ', '.join(self.show_leaf(self.leaf_list[x], depth + 1) if isinstance(x, int) and d[0] not in ('mu', 'call')
                                           else str(x)[:40] for x in d[1:]))

    def show_leaf(self, l, depth=0):
        if not l.poly:
            return '0'
        out = []
        for m, c in sorted(l.poly.items())[:8]:
            f = '%.12g' % float_safe(c)
            s = '*'.join(self.show_atom(at, depth) + ('^%d' % e if e != 1 else '') for at, e in m)
            out.append((f + ('*' + s if s else '')))
        if len(l.poly) > 8:
            out.append('...(%d terms)' % len(l.poly))
        return ' + '.join(out)

    def show_cond(self, c, maxn=int(__import__("os").environ.get("MAXN", 14))):
        if c == 1:
            return 'always'
        if c == 0:
            return 'never'
        cube = self.b.cube(c)
        words = {}
        out = []
        for n, v in cube.items():
            if n in self.cmp_desc:
                l, rel = self.cmp_desc[n]
                out.append('%s(%s %s 0)' % ('' if v else '!', self.show_leaf(l, 2), rel))
            elif isinstance(n, tuple) and len(n) == 2 and isinstance(n[1], int):
                words.setdefault(n[0], {})[n[1]] = v
            else:
                out.append('%s%s' % ('' if v else '!', self.short(n)))
        for k, d in words.items():
            val = sum((1 << i) for i, v in d.items() if v)
            out.append('%s=0x%x' % (self.short(k), val))
        return ' & '.join(out[:maxn]) + (' ...' if len(out) > maxn else '')

    def show(self, v, care=1):
        B = self.b
        if isinstance(v, Int):
            c = v.const()
            if c is not None:
                return '%d' % c
            return 'i%d{%s}' % (v.w, self.show_key(v.bits))
        if isinstance(v, FV):
            cs = [(c, l) for c, l in v.cases if B.AND(c, care)]
            if len(cs) == 1:
                return self.show_leaf(cs[0][1])
            return ' ; '.join('%s -> %s' % (self.show_cond(B.AND(c, care), 4), self.show_leaf(l)) for c, l in cs[:4])
        return repr(v)[:200]


TOL = 1e-10


def divides(g, p):
    """the polynomial g divides p up to rounding (a missed division is reported as False)"""
    at = sorted({x for m in list(g) + list(p) for x, e in m})
    ix = {x: i for i, x in enumerate(at)}

    def vec(m):
        v = [0] * len(at)
        for x, e in m:
            v[ix[x]] = e
        return tuple(v)
    # quick refusal: p at a zero of g
    rng = random.Random(7)
    val = {x: rng.uniform(0.5, 2.0) for x in at}
    lin = [x for x in at if {dict(m).get(x, 0) for m in g} == {0, 1}]
    if lin:
        x0 = lin[0]

        def ev(poly, skip=None):
            s = t = 0.0
            for m, c in poly.items():
                c = float(c)
                for x, e in m:
                    if x != skip:
                        c *= val[x] ** e
                s += c
                t += abs(c)
            return s, t
        k = ev({m: c for m, c in g.items() if dict(m).get(x0, 0)}, x0)[0]
        if k:
            val[x0] = -ev({m: c for m, c in g.items() if not dict(m).get(x0, 0)})[0] / k
            if val[x0]:
                s, t = ev(p)
                if abs(s) > 1e-7 * t:
                    return False
    g = sorted(((vec(m), float(c)) for m, c in g.items()), reverse=True)
    p = {vec(m): float(c) for m, c in p.items()}
    mag = {m: abs(c) for m, c in p.items()}
    heap = [tuple(-e for e in m) for m in p]
    heapq.heapify(heap)
    (lm, lc), rest = g[0], g[1:]
    for _ in range(4 * len(p) + 50):
        if not heap:
            return True
        m = tuple(-e for e in heapq.heappop(heap))
        q = p.pop(m) / lc
        if abs(q * lc) <= TOL * mag[m]:
            continue
        for m2, c2 in rest:
            t = tuple(a - b + c for a, b, c in zip(m, lm, m2))
            if t not in p:
                p[t] = 0.0
                heapq.heappush(heap, tuple(-e for e in t))
            p[t] -= q * c2
            mag[t] = mag.get(t, 0.0) + abs(q * c2)
    return False


def float_safe(v):
    try:
        return float(v)
    except OverflowError:
        return math.inf if v > 0 else -math.inf


def B_and(B, a, b):
    return B.AND(a, b)


def imul(a, b, x, y):
    """interval product, None = infinite"""
    if a == b == 0 or (x is not None and x == 0 and y is not None and y == 0):
        return Fraction(0), Fraction(0)
    INF = math.inf
    v = []
    for p in ((-INF if a is None else a), (INF if b is None else b)):
        for q in ((-INF if x is None else x), (INF if y is None else y)):
            if p == 0 or q == 0:
                v.append(0)
            elif isinstance(p, float) or isinstance(q, float):
                v.append(INF if (p > 0) == (q > 0) else -INF)
            else:
                v.append(p * q)
    lo, hi = min(v), max(v)
    return (None if lo == -INF else lo), (None if hi == INF else hi)
