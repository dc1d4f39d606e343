"""Linear-inequality (polyhedra) domain over integer-valued atoms.

A linear expression is (terms, const): terms is a dict atom -> int coefficient.
A constraint is an expression e, meaning e >= 0.  Entailment is decided by Fourier-Motzkin
elimination on the (small) set of constraints connected to the query.
"""
from fractions import Fraction

LIMIT = 4000


class TooBig(Exception):
    pass


def add(a, b, k=1):
    t = dict(a[0])
    for v, c in b[0].items():
        n = t.get(v, 0) + k * c
        if n:
            t[v] = n
        else:
            t.pop(v, None)
    return (t, a[1] + k * b[1])


def const(k):
    return ({}, k)


def neg(a):
    return ({v: -c for v, c in a[0].items()}, -a[1])


def freeze(e):
    return (frozenset(e[0].items()), e[1])


def thaw(c):
    return (dict(c[0]), c[1])


def norm(e):
    """tighten: divide by gcd (integers)"""
    from math import gcd, floor
    g = 0
    for c in e[0].values():
        g = gcd(g, abs(c))
    if g > 1:
        return ({v: c // g for v, c in e[0].items()}, floor(Fraction(e[1], g)))
    return e


_cache = {}


def infeasible(cons):
    """cons: iterable of frozen constraints; True if certainly no integer solution"""
    key = frozenset(cons)
    r = _cache.get(key)
    if r is None:
        r = _infeasible(key)
        if len(_cache) > 200000:
            _cache.clear()
        _cache[key] = r
    return r


def _infeasible(cons):
    cs = {}
    for fc in cons:
        e = norm(thaw(fc))
        if not e[0]:
            if e[1] < 0:
                return True
            continue
        k = frozenset(e[0].items())
        if k not in cs or cs[k] > e[1]:
            cs[k] = e[1]
    while cs:
        # choose the variable with the fewest products
        cnt = {}
        for k in cs:
            for v, c in k:
                p = cnt.setdefault(v, [0, 0])
                p[c > 0] += 1
        v = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1], str(x)))
        pos, ng, rest = [], [], {}
        for k, c in cs.items():
            d = dict(k)
            if v not in d:
                rest[k] = c
            elif d[v] > 0:
                pos.append((d, c))
            else:
                ng.append((d, c))
        for dp, cp in pos:
            for dn, cn in ng:
                a, b = dp[v], -dn[v]
                t = {}
                for x, c in dp.items():
                    t[x] = t.get(x, 0) + b * c
                for x, c in dn.items():
                    t[x] = t.get(x, 0) + a * c
                t = {x: c for x, c in t.items() if c}
                e = norm((t, b * cp + a * cn))
                if not e[0]:
                    if e[1] < 0:
                        return True
                    continue
                k = frozenset(e[0].items())
                if k not in rest or rest[k] > e[1]:
                    rest[k] = e[1]
        if len(rest) > LIMIT:
            raise TooBig()
        cs = rest
    return False


def relevant(cons, e):
    """constraints connected to the atoms of e"""
    todo = set(e[0])
    seen = set()
    out = []
    left = list(cons)
    while True:
        new = []
        moved = False
        for fc in left:
            vs = {v for v, _ in fc[0]}
            if vs & todo:
                out.append(fc)
                seen |= vs
                moved = True
            else:
                new.append(fc)
        todo |= seen
        left = new
        if not moved:
            return out


def entails(cons, e):
    """do the constraints imply e >= 0 ?"""
    if not e[0]:
        return e[1] >= 0
    n = add(neg(e), const(-1))
    return infeasible(relevant(cons, e) + [freeze(n)])


def tighten(cons):
    """of the constraints on the same combination, only the strongest"""
    best = {}
    for t, c in cons:
        if t not in best or best[t] > c:
            best[t] = c
    return list(best.items())


def products(cons, v):
    """how many constraints the elimination of atom v gives, and is it exact over the integers"""
    p = n = 0
    ep = en = True
    for t, _ in cons:
        for a, c in t:
            if a == v:
                if c > 0:
                    p += 1
                    ep = ep and c == 1
                else:
                    n += 1
                    en = en and c == -1
    return p * n, ep or en


def eliminate(cons, v):
    """what the constraints imply without atom v (an over-approximation unless exact)"""
    pos, ng, rest = [], [], []
    for fc in cons:
        c = dict(fc[0]).get(v, 0)
        if not c:
            rest.append(fc)
        elif c > 0:
            pos.append((c, fc))
        else:
            ng.append((-c, fc))
    out = rest
    for cp, p in pos:
        for cn, n in ng:
            e = add(({a: k * cn for a, k in p[0]}, p[1] * cn), thaw(n), cp)
            e = norm(e)
            if not e[0]:
                if e[1] < 0:
                    return [freeze(e)]
                continue
            out.append(freeze(e))
    return tighten(out)


def prune(cons, n):
    """without the constraints (from the n-th on) that the others imply"""
    i = len(cons) - 1
    while i >= n:
        c = cons[i]
        others = cons[:i] + cons[i + 1:]
        try:
            if entails(others, thaw(c)):
                cons = others
        except TooBig:
            pass
        i -= 1
    return cons


def project(cons, dead):
    """eliminate the dead atoms"""
    cons = tighten(cons)
    todo = set(dead)
    while True:
        here = {a for t, _ in cons for a, _ in t}
        todo &= here
        if not todo:
            return cons
        rated = sorted(((not ex, k, str(a), a) for a in todo for k, ex in [products(cons, a)]),
                       key=lambda x: x[:3])
        inexact, k, _, a = rated[0]
        if k > 200:
            cons = [c for c in cons if all(x != a for x, _ in c[0])]
            continue
        n = len(cons)
        m = sum(1 for t, _ in cons if all(x != a for x, _ in t))
        cons = eliminate(cons, a)
        if len(cons) > 30 and len(cons) > m + 4:
            cons = prune(cons, m)
