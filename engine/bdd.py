"""Reduced ordered BDDs: the Boolean layer of the decision-tree abstract domain.

Variables carry an integer level key.  Bits of integers are interleaved (level =
bit index major) so that word comparisons and additions stay linear.
"""
import sys
sys.setrecursionlimit(1000000)


class BddLimit(Exception):
    pass


class Bdd:
    F = 0
    T = 1

    def __init__(self, limit=6000000):
        self.lvl = [1 << 100, 1 << 100]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.var = [None, None]
        self.uniq = {}
        self.ite_c = {}
        self.not_c = {0: 1, 1: 0}
        self.and_c = {}
        self.vars = {}       # name -> node
        self.names = {}      # level -> name
        self.nsym = 0
        self.limit = limit
        self.budget = None
        self.supp_c = {0: frozenset(), 1: frozenset()}
        self.par = {0: (0, 0), 1: (0, 1)}   # node -> (set of base variables as a bit mask, constant) if a parity
        self.cut = {}        # level -> mask of a named parity
        self.bynum = {}
        self.numof = {}
        self.cut_at = 12
        self.word_major = False   # order variables word by word instead of bit-interleaved

    def mk(self, level, lo, hi):
        if lo == hi:
            return lo
        k = (level, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.lvl)
            if r > self.limit:
                raise BddLimit('BDD node limit')
            if self.budget is not None:
                self.budget -= 1
                if self.budget < 0:
                    raise BddLimit('budget')
            self.lvl.append(level)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = r
        return r

    def newvar(self, name, bit=0, level=None):
        """a fresh variable; bit = interleaving rank"""
        r = self.vars.get(name)
        if r is not None:
            return r
        self.nsym += 1
        if level is None:
            level = ((0 if self.word_major else bit) << 64) | self.nsym << 40
        self.numof[level] = self.nsym
        self.names[level] = name
        r = self.mk(level, 0, 1)
        self.vars[name] = r
        self.bynum[self.nsym] = r
        return r

    # Parities (xor sums) of many variables are value-numbered: a parity of at
    # least cut_at variables is represented by one named variable.  Equal
    # parities get equal names, xors of named parities expand them first.
    def parity(self, f):
        r = self.par.get(f, 0)
        if r != 0:
            return r
        l = self.lvl[f]
        p0 = self.parity(self.lo[f])
        r = None
        if p0 is not None:
            p1 = self.parity(self.hi[f])
            if p1 is not None and p0[0] == p1[0] and p0[1] != p1[1]:
                m = self.cut.get(l)
                if m is None:
                    m = 1 << self.numof[l]
                r = (p0[0] ^ m, p0[1])
        self.par[f] = r
        return r

    def from_parity(self, m, c):
        if m == 0:
            return c
        n = bin(m).count('1')
        if n >= self.cut_at:
            v = self.newvar(('par', m, 0), 0)
            l = self.lvl[v]
            if l not in self.cut:
                self.cut[l] = m
                self.par[v] = (m, 0)
            return self.NOT(v) if c else v
        r = c
        k = 0
        vs = []
        while m:
            low = (m & -m).bit_length() - 1
            vs.append(self.bynum[low])
            m &= m - 1
        vs.sort(key=lambda v: self.lvl[v])
        for v in reversed(vs):
            r = self.ITE(v, self.NOT(r), r)
        return r

    def NOT(self, f):
        r = self.not_c.get(f)
        if r is not None:
            return r
        r = self.mk(self.lvl[f], self.NOT(self.lo[f]), self.NOT(self.hi[f]))
        self.not_c[f] = r
        self.not_c[r] = f
        return r

    def AND(self, f, g):
        if f == g:
            return f
        if f > g:
            f, g = g, f
        if f == 0:
            return 0
        if f == 1:
            return g
        k = (f, g)
        r = self.and_c.get(k)
        if r is not None:
            return r
        lf = self.lvl[f]
        lg = self.lvl[g]
        if lf == lg:
            r = self.mk(lf, self.AND(self.lo[f], self.lo[g]), self.AND(self.hi[f], self.hi[g]))
        elif lf < lg:
            r = self.mk(lf, self.AND(self.lo[f], g), self.AND(self.hi[f], g))
        else:
            r = self.mk(lg, self.AND(f, self.lo[g]), self.AND(f, self.hi[g]))
        self.and_c[k] = r
        return r

    def OR(self, f, g):
        if f == g or g == 0:
            return f
        if f == 0:
            return g
        if f == 1 or g == 1:
            return 1
        return self.NOT(self.AND(self.NOT(f), self.NOT(g)))

    def XOR(self, f, g):
        if f == g:
            return 0
        return self.ITE(f, self.NOT(g), g)

    def PXOR(self, f, g):
        """xor on the data path: keeps long parities value-numbered"""
        if f <= 1 or g <= 1:
            return self.ITE(f, self.NOT(g), g)
        if f == g:
            return 0
        a = self.parity(f)
        if a is not None:
            b = self.parity(g)
            if b is not None:
                return self.from_parity(a[0] ^ b[0], a[1] ^ b[1])
        return self.ITE(f, self.NOT(g), g)

    def IMP(self, f, g):
        """f implies g everywhere?"""
        return self.AND(f, self.NOT(g)) == 0

    def ITE(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        if g == 0 and h == 1:
            return self.NOT(f)
        if h == 0:
            return self.AND(f, g)
        if g == 0:
            return self.AND(self.NOT(f), h)
        k = (f, g, h)
        r = self.ite_c.get(k)
        if r is not None:
            return r
        lf, lg, lh = self.lvl[f], self.lvl[g], self.lvl[h]
        l = lf if lf < lg else lg
        if lh < l:
            l = lh
        f0, f1 = (self.lo[f], self.hi[f]) if lf == l else (f, f)
        g0, g1 = (self.lo[g], self.hi[g]) if lg == l else (g, g)
        h0, h1 = (self.lo[h], self.hi[h]) if lh == l else (h, h)
        r = self.mk(l, self.ITE(f0, g0, h0), self.ITE(f1, g1, h1))
        self.ite_c[k] = r
        return r

    def restrict(self, f, c):
        """Coudert/Madre restrict: f simplified under care set c (c != 0)."""
        if c == 1 or f <= 1 or c == 0:
            return f
        key = ('r', f, c)
        r = self.ite_c.get(key)
        if r is not None:
            return r
        lf, lc = self.lvl[f], self.lvl[c]
        if lc < lf:
            r = self.restrict(f, self.OR(self.lo[c], self.hi[c]))
        else:
            if lc == lf:
                c0, c1 = self.lo[c], self.hi[c]
            else:
                c0 = c1 = c
            if c0 == 0:
                r = self.restrict(self.hi[f], c1)
            elif c1 == 0:
                r = self.restrict(self.lo[f], c0)
            else:
                r = self.mk(lf, self.restrict(self.lo[f], c0), self.restrict(self.hi[f], c1))
        self.ite_c[key] = r
        return r

    def support(self, f):
        r = self.supp_c.get(f)
        if r is None:
            seen = set()
            st = [f]
            s = set()
            while st:
                x = st.pop()
                if x <= 1 or x in seen:
                    continue
                seen.add(x)
                s.add(self.lvl[x])
                st.append(self.lo[x])
                st.append(self.hi[x])
            r = frozenset(s)
            self.supp_c[f] = r
        return r

    def size(self, f):
        seen = set()
        st = [f]
        while st:
            x = st.pop()
            if x <= 1 or x in seen:
                continue
            seen.add(x)
            st.append(self.lo[x])
            st.append(self.hi[x])
        return len(seen)

    def cube(self, f):
        """one satisfying assignment as {name: bool} (f != 0)"""
        r = {}
        while f > 1:
            n = self.names[self.lvl[f]]
            if self.lo[f] != 0:
                r[n] = False
                f = self.lo[f]
            else:
                r[n] = True
                f = self.hi[f]
        return r

    def forced(self, f):
        """{level: bool} of variables with the same value in every model of f"""
        r = {}
        for l in self.support(f):
            v = self.vars[self.names[l]]
            if self.AND(f, v) == 0:
                r[self.names[l]] = False
            elif self.AND(f, self.NOT(v)) == 0:
                r[self.names[l]] = True
        return r
