"""Reduction of comparison facts with the (rational) polyhedra domain.

A path condition is a decision diagram over comparison variables "p < 0" / "p == 0".  The diagram does not know that
x < y and y < z exclude z < x.  refute() removes such cubes: the linear facts of a cube are projected (Fourier-Motzkin)
and, when they are contradictory, the subset used is excluded for good (it is an axiom)."""
from fractions import Fraction


def conflict(cons, limit=1500):
    """cons: [(coeffs {var: Fraction}, const, kind)] meaning sum+const kind 0, kind in '<', '<=', '='.
    Returns a set of indexes that is contradictory, or None."""
    todo = []
    for i, (co, k, kind) in enumerate(cons):
        todo.append((dict(co), k, kind, frozenset([i])))
    # equalities first: substitute
    while True:
        eq = next((c for c in todo if c[2] == '=' and c[0]), None)
        if eq is None:
            break
        todo.remove(eq)
        v, a = next(iter(eq[0].items()))
        new = []
        for co, k, kind, src in todo:
            b = co.get(v)
            if b:
                r = b / a
                co = dict(co)
                for u, x in eq[0].items():
                    y = co.get(u, 0) - r * x
                    if y:
                        co[u] = y
                    else:
                        co.pop(u, None)
                k = k - r * eq[1]
                src = src | eq[3]
            new.append((co, k, kind, src))
        todo = new

    def bad(k, kind):
        return k > 0 or (kind == '<' and k == 0) if kind != '=' else k != 0
    best = {}

    def add(c, out):
        co, k, kind, src = c
        if not co:
            return src if bad(k, kind) else None
        s = abs(next(iter(sorted(co.items())))[1])
        key = tuple(sorted((u, x / s) for u, x in co.items()))
        k /= s
        o = best.get(key)
        # keep only the strongest constraint per direction
        if o is not None and (o[0], o[1] == '<') >= (k, kind == '<'):
            return None
        best[key] = (k, kind)
        out[key] = (dict(key), k, kind, src)
        return None
    cur = {}
    for c in todo:
        r = add(c, cur)
        if r is not None:
            return r
    while cur:
        cnt = {}
        for co, k, kind, src in cur.values():
            for u, x in co.items():
                p = cnt.setdefault(u, [0, 0])
                p[x > 0] += 1
        v = min(cnt, key=lambda u: (cnt[u][0] * cnt[u][1], u))
        pos = [c for c in cur.values() if c[0].get(v, 0) > 0]
        neg = [c for c in cur.values() if c[0].get(v, 0) < 0]
        if len(pos) * len(neg) > limit:
            return None
        nxt = {}
        best = {}
        for c in cur.values():
            if v not in c[0]:
                add(c, nxt)
        for p in pos:
            for n in neg:
                a, b = p[0][v], -n[0][v]
                co = {u: x * b for u, x in p[0].items()}
                for u, x in n[0].items():
                    y = co.get(u, 0) + x * a
                    if y:
                        co[u] = y
                    else:
                        co.pop(u, None)
                co.pop(v, None)
                r = add((co, p[1] * b + n[1] * a, '<' if '<' in (p[2], n[2]) else '<=', p[3] | n[3]), nxt)
                if r is not None:
                    return r
        cur = nxt
    return None


def refute(d, cond, limit=3000):
    """the part of cond that linear arithmetic does not exclude (0: cond cannot happen)"""
    B = d.b
    c = B.AND(cond, d.axioms)
    if c == 0:
        return c
    n = 0
    while c and n < limit:
        n += 1
        # one cube
        lits = {}
        f = c
        while f != 1:
            desc = B.names.get(B.lvl[f])
            if B.hi[f]:
                lits[desc] = True
                f = B.hi[f]
            else:
                lits[desc] = False
                f = B.lo[f]
        cons, tag = [], []
        for desc, val in lits.items():
            if not (isinstance(desc, tuple) and desc and desc[0] in ('lt', 'eq') and desc in d.cmp_desc):
                continue
            if desc[0] == 'lt':
                co, k = lin(d, d.cmp_desc[desc][0])
                e = lits.get(('eq',) + desc[1:])
                if val:
                    cons.append((co, k, '<'))
                    tag.append([desc])
                elif e is True:
                    cons.append((co, k, '='))
                    tag.append([desc, ('eq',) + desc[1:]])
                else:
                    cons.append(({u: -x for u, x in co.items()}, -k, '<' if e is False else '<='))
                    tag.append([desc, ('eq',) + desc[1:]] if e is False else [desc])
        seen = set()
        for co, k, kind in list(cons):
            for u in co:
                if u in seen:
                    continue
                seen.add(u)
                lo, hi = mono_range(d, u)
                if lo is not None:
                    cons.append(({u: Fraction(-1)}, Fraction(lo), '<='))
                    tag.append([])
                if hi is not None:
                    cons.append(({u: Fraction(1)}, -Fraction(hi), '<='))
                    tag.append([])
        r = conflict(cons)
        ab = [u for u in seen if len(u) == 1 and u[0][1] == 1 and d.atoms[u[0][0]][0] == 'fabs'] if r is None else []
        # absolute values by cases of their sign: each alone, then up to three together
        for some in [[u] for u in ab] + ([ab] if 1 < len(ab) <= 3 else []):
            r = signs(d, cons, some)
            if r is not None:
                break
        if r is None:
            return c
        lem = 0
        used = {x for i in r for x in tag[i]}
        for desc in used:
            v = B.vars[desc]
            lem = B.OR(lem, B.NOT(v) if lits[desc] else v)
        d.axioms = B.AND(d.axioms, lem)
        d.stats['lemmas'] = d.stats.get('lemmas', 0) + 1
        c = B.AND(c, lem)
    return c


def signs(d, cons, ab):
    """conflict of cons for every choice of the signs below the absolute values ab, or None"""
    r = frozenset()
    for pick in range(1 << len(ab)):
        ex = list(cons)
        for j, u in enumerate(ab):
            co, k = lin(d, d.leaf_list[d.atoms[u[0][0]][1]])
            s = -1 if pick >> j & 1 else 1
            neg = {v: -s * x for v, x in co.items()}        # -(s x)
            ex.append((neg, -s * k, '<='))                  # s x >= 0
            eq = dict(neg)
            eq[u] = eq.get(u, 0) + Fraction(1)
            ex.append((eq, -s * k, '='))                    # |x| = s x
        q = conflict(ex)
        if q is None:
            return None
        r |= frozenset(i for i in q if i < len(cons))
    return r


def lin(d, leaf):
    co, k = {}, Fraction(0)
    for m, x in leaf.poly.items():
        if m == ():
            k = Fraction(x)
        else:
            co[m] = Fraction(x)
    return co, k


def mono_range(d, m):
    return d.lrange(d.leaf({m: Fraction(1)}))
