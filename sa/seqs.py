"""Sequences as lists of segments (single elements and runs over arbitrary base sequences)."""
from .vals import *


def stepos(v):
    """(lo, step, k) of the position lo + k * step, for a symbolic step"""
    if type(v) is LinV and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and \
            v.t[0][0][0] == 'stepos':
        return v.t[0][0][1:]
    return None


def mkpos(st, lo, step, k):
    p = LinV(((('stepos', lo, step, k), 1),), 0)
    if type(step) is not LinV:
        d = ladd(ladd(p, lo, -1), lmul(k, step), -1)
        st.assume_ge(d)
        st.assume_ge(lmul(d, -1))
    elif st.entails_ge(k):
        st.assume_ge(ladd(ladd(p, lo, -1), k, -1))
    return p


def advance(st, i, step, hi=None):
    """the position one step after i"""
    if type(step) is not LinV and (step <= 1 or type(hi) is not LinV and type(i) is not LinV):
        return ladd(i, step)
    p = stepos(i)
    if p is not None and p[1] == step:
        return mkpos(st, p[0], step, ladd(p[2], 1))
    return mkpos(st, i, step, 1)


def pos_lt(st, i, hi, step):
    """i < hi for a position reached by steps"""
    p = stepos(i)
    if p is None or p[1] != step:
        return st.lt(i, hi)
    if st.le(hi, p[0]):
        return False
    if not st.lt(p[2], ceil_div(st, ladd(hi, p[0], -1), step)):
        return False
    st.assume_ge(ladd(ladd(i, p[0], -1), p[2], -1))
    st.assume_ge(ladd(ladd(hi, i, -1), -1))
    return True


def empty(st, s):
    if s.step != 1:
        p = stepos(s.hi)
        if p is not None and p[0] == s.lo and p[1] == s.step:
            return st.le(p[2], 0)
    return st.le(s.hi, s.lo)


def run_len(st, s):
    if s.step == 1:
        return ladd(s.hi, s.lo, -1)
    p = stepos(s.hi)
    if p is not None and p[0] == s.lo and p[1] == s.step:
        return p[2]
    # ceil((hi-lo)/step) for hi >= lo
    d = ladd(s.hi, s.lo, -1)
    return ceil_div(st, d, s.step)


def floor_div(st, e, k):
    """e // k for an integer constant k > 0, or a canonical atom for a symbolic positive k"""
    if type(e) is not LinV and type(k) is not LinV:
        return e // k
    if type(k) is not LinV:
        if all(c % k == 0 for _, c in e.t) and e.c % k == 0:
            return mklin({a: c // k for a, c in e.t}, e.c // k)
    q = LinV(((('div', e, k), 1),), 0)
    if type(k) is not LinV:
        st.assume_ge(ladd(e, lmul(q, k), -1))
        st.assume_ge(ladd(ladd(lmul(q, k), k - 1), e, -1))
    else:
        # k >= 1: |q| <= |e|, sign as e
        if st.entails_ge(e if type(e) is LinV else e):
            st.assume_ge(q)
            st.assume_ge(ladd(e, q, -1))
    return q


def ceil_div(st, e, k):
    return lmul(floor_div(st, lmul(e, -1), k), -1) if type(k) is not LinV else \
        _ceil_sym(st, e, k)


def _ceil_sym(st, e, k):
    q = LinV(((('cdiv', e, k), 1),), 0)
    if st.entails_ge(e):
        st.assume_ge(q)
        st.assume_ge(ladd(e, q, -1))
        if st.entails_ge(ladd(e, -1)):
            st.assume_ge(ladd(q, -1))
    return q


def length(st, segs):
    n = 0
    for s in segs:
        n = ladd(n, 1 if type(s) is Elt else run_len(st, s))
    return n


def as_run(s):
    if type(s) is Run:
        return s
    t = template(s.v)
    if t is None:
        return None
    return Run(t[0], t[1], t[2], ladd(t[2], 1))


def norm(st, segs):
    """drop segments known to be empty, merge contiguous ones"""
    out = []
    for s in segs:
        if type(s) is Run and s.step == 1:
            if st.entails_le(s.hi, s.lo):
                continue
        elif type(s) is Run and st.entails_le(s.hi, s.lo):
            continue
        if out:
            p = out[-1]
            a, b = as_run(p), as_run(s)
            if a is not None and b is not None and a.base is b.base and a.tmpl == b.tmpl \
                    and a.step == 1 and b.step == 1 and st.entails_eq(a.hi, b.lo):
                out[-1] = Run(a.base, a.tmpl, a.lo, b.hi)
                continue
            if a is not None and b is not None and a.base is b.base and a.tmpl == b.tmpl \
                    and type(s) is Elt:
                q = stepos(b.lo)
                if q is not None and q[0] == a.lo and (
                        q[2] == 1 if type(p) is Elt else a.step == q[1] and a.hi == b.lo):
                    out[-1] = Run(a.base, a.tmpl, a.lo, advance(st, b.lo, q[1], b.lo), q[1])
                    continue
            if a is not None and b is not None and type(p) is Run and a.step != 1 \
                    and a.base is b.base and a.tmpl == b.tmpl and type(s) is Elt \
                    and st.entails_eq(a.hi, ladd(s_lo(b), 0)):
                # a stepped run continued by its next position
                out[-1] = Run(a.base, a.tmpl, a.lo, ladd(b.lo, a.step), a.step)
                continue
        out.append(s)
    # single-element runs are elements
    res = []
    for s in out:
        if type(s) is Run and s.step == 1 and type(ladd(s.hi, s.lo, -1)) is int \
                and ladd(s.hi, s.lo, -1) == 1:
            s = Elt(inst_tmpl(s.tmpl, s.base, s.lo))
        res.append(s)
    return tuple(res)


def s_lo(r):
    return r.lo


def elem_at(st, s, k):
    """element k of segment s"""
    if type(s) is Elt:
        return s.v
    return inst_tmpl(s.tmpl, s.base, ladd(s.lo, k) if s.step == 1 else mulpos(st, s, k))


def mulpos(st, s, k):
    if type(s.step) is not LinV:
        return ladd(s.lo, lmul(k, s.step))
    if type(k) is not LinV:
        return ladd(s.lo, lmul(s.step, k))
    # symbolic step times symbolic index: canonical position atom
    p = LinV(((('stepos', s.lo, s.step, k), 1),), 0)
    st.assume_ge(ladd(p, s.lo, -1))
    st.assume_ge(ladd(ladd(s.hi, p, -1), -1))
    return p


def get(st, segs, i):
    """element at index i, 0 <= i < length assumed"""
    off = 0
    last = len(segs) - 1
    for j, s in enumerate(segs):
        n = 1 if type(s) is Elt else run_len(st, s)
        if j == last:
            return elem_at(st, s, ladd(i, off, -1))
        if st.lt(i, ladd(off, n)):
            return elem_at(st, s, ladd(i, off, -1))
        off = ladd(off, n)
    raise IndexError


def split(st, segs, i):
    """(first i elements, the others); 0 <= i <= length assumed"""
    off = 0
    for j, s in enumerate(segs):
        if st.le(i, off):
            return segs[:j], segs[j:]
        n = 1 if type(s) is Elt else run_len(st, s)
        if st.lt(i, ladd(off, n)):
            k = ladd(i, off, -1)
            if s.step == 1:
                m = ladd(s.lo, k)
                a, b = Run(s.base, s.tmpl, s.lo, m), Run(s.base, s.tmpl, m, s.hi)
            else:
                m = mulpos(st, s, k)
                a = Run(s.base, s.tmpl, s.lo, m, s.step)
                b = Run(s.base, s.tmpl, m, s.hi, s.step)
            return segs[:j] + (a,), (b,) + segs[j + 1:]
        off = ladd(off, n)
    return segs, ()


def sub(st, segs, lo, hi):
    """segs[lo:hi] for 0 <= lo, hi <= length (hi < lo gives empty)"""
    if st.le(hi, lo):
        return ()
    if len(segs) == 1 and type(segs[0]) is Run and segs[0].step == 1:
        s = segs[0]
        return (Run(s.base, s.tmpl, ladd(s.lo, lo), ladd(s.lo, hi)),)
    a, _ = split(st, segs, hi)
    _, b = split(st, a, lo)
    return b


def stepped(st, segs, step):
    """segs[::step], step >= 1"""
    if step == 1:
        return segs
    segs = norm(st, segs)
    if not segs:
        return ()
    if len(segs) == 1 and type(segs[0]) is Run and segs[0].step == 1:
        s = segs[0]
        return (Run(s.base, s.tmpl, s.lo, s.hi, step),)
    # general: walk (finite only when lengths are known)
    n = length(st, segs)
    if type(n) is LinV or type(step) is LinV:
        if type(step) is LinV and st.ieq(step, 1):
            return segs
        st.taint('stepping over a composite sequence')
        return segs
    return tuple(Elt(get(st, segs, i)) for i in range(0, n, step))


def bisect(I, segs, k, right):
    """number of leading elements < k (<= k if right), given that segs is sorted"""
    st = I.st
    off = 0
    for s in segs:
        if type(s) is Elt:
            stop = I.lt(k, s.v) if right else not I.lt(s.v, k)
            if stop:
                return off
            off = ladd(off, 1)
            continue
        if s.step != 1:
            st.taint('search in a stepped sequence')
        n = ladd(s.hi, s.lo, -1)
        if st.le(n, 0):
            continue
        if (s.base.order is None or s.tmpl != s.base.order) and st.entails_eq(n, 1):
            v = elem_at(st, s, 0)
            stop = I.lt(k, v) if right else not I.lt(v, k)
            if stop:
                return off
            off = ladd(off, 1)
            continue
        if s.base.order is not None and s.tmpl == s.base.order and I.is_keyterm(k):
            kb = st.basekey(k)
            if kb and kb[0] is s.base and s.base.strict:
                c = ladd(kb[1], 1 if right else 0)
            else:
                c = st.LR('R' if right else 'L', s.base, k)
            if st.le(s.hi, c):
                off = ladd(off, n)
                continue
            if st.le(c, s.lo):
                return off
            return ladd(off, ladd(c, s.lo, -1))
        if s.base.order is None or s.tmpl != s.base.order:
            # not (known to be) sorted by this template: any result
            st.taint('search in a sequence not known to be sorted')
            r = st.int('bisect', 0, n)
            return ladd(off, r)
        I.raise_py('TypeError', "'<' not supported between these keys")
    return off


def same(st, a, b):
    """are the two segment lists the same sequence of the same objects?  forks when unknown"""
    a, b = list(norm(st, a)), list(norm(st, b))
    while a and b:
        x, y = a[0], b[0]
        if type(x) is Elt and type(y) is Elt:
            if not same_val(st, x.v, y.v):
                return False
            a.pop(0)
            b.pop(0)
            continue
        rx, ry = as_run(x), as_run(y)
        # empty runs
        if type(x) is Run and empty(st, x):
            a.pop(0)
            continue
        if type(y) is Run and empty(st, y):
            b.pop(0)
            continue
        if rx is None or ry is None or rx.base is not ry.base or rx.tmpl != ry.tmpl:
            return False
        if not st.ieq(rx.lo, ry.lo):
            return False
        if rx.step != 1 or ry.step != 1:
            # a run of at most one element has no visible step
            if rx.step == ry.step or _steq(st, rx.step, ry.step):
                if st.ieq(rx.hi, ry.hi):
                    a.pop(0)
                    b.pop(0)
                    continue
                # equal last position?
                if st.ieq(run_len(st, rx), run_len(st, ry)):
                    a.pop(0)
                    b.pop(0)
                    continue
                return False
            ox, oy = (st.le(run_len(st, r), 1) if type(r.step) is LinV or stepos(r.hi) else
                      st.le(r.hi, ladd(r.lo, r.step)) for r in (rx, ry))
            if ox and oy:
                a.pop(0)
                b.pop(0)
                continue
            if ox or oy:
                if not ox:
                    a[0] = Run(rx.base, rx.tmpl, ladd(rx.lo, rx.step), rx.hi, rx.step)
                    b.pop(0)
                else:
                    b[0] = Run(ry.base, ry.tmpl, ladd(ry.lo, ry.step), ry.hi, ry.step)
                    a.pop(0)
                continue
            return False
        if st.ieq(rx.hi, ry.hi):
            a.pop(0)
            b.pop(0)
            continue
        if st.lt(rx.hi, ry.hi):
            a.pop(0)
            b[0] = Run(ry.base, ry.tmpl, rx.hi, ry.hi)
        else:
            b.pop(0)
            a[0] = Run(rx.base, rx.tmpl, ry.hi, rx.hi)
    for s in a + b:
        if type(s) is Elt or not empty(st, s):
            return False
    return True


def _steq(st, a, b):
    return st.ieq(a, b)


def same_val(st, a, b):
    """the same object (structurally for terms; positions may need a decision)"""
    if tsame(a, b):
        return True
    ta, tb = type(a), type(b)
    if ta in (int, LinV) and tb in (int, LinV):
        return st.ieq(a, b)
    if ta is not tb:
        return False
    if ta is tuple:
        return len(a) == len(b) and all(same_val(st, x, y) for x, y in zip(a, b))
    if ta is Elem:
        return a.base is b.base and st.ieq(a.pos, b.pos)
    if ta is App:
        return a.fn == b.fn and len(a.args) == len(b.args) and \
            all(same_val(st, x, y) for x, y in zip(a.args, b.args))
    if ta is Seq:
        return a is b
    return a is b


def known_sorted(I, segs, keyf):
    """is the sequence known to be sorted (non-decreasing) by the key template function keyf?"""
    st = I.st
    prev = None
    for s in segs:
        if type(s) is Elt:
            k = keyf(s.v)
            if prev is not None and not known_le(I, prev, k):
                return False
            prev = k
        else:
            if s.base.order is None:
                return False
            p = HOLEPOS
            k = template(keyf(inst_tmpl(s.tmpl, s.base, p)))
            if k is None or k[0] is not s.base or k[1] != s.base.order:
                return False
            if prev is not None and not known_le(I, prev, keyf(elem_at(st, s, 0))):
                return False
            prev = keyf(inst_tmpl(s.tmpl, s.base, ladd(s.hi, -1)))
    return True


HOLEPOS = LinV(((('n', -1, 'anypos'), 1),), 0)


def known_le(I, a, b):
    if type(a) in (int, float, str) and type(b) in (int, float, str):
        try:
            return a <= b
        except TypeError:
            return False
    if type(a) in (int, LinV) and type(b) in (int, LinV):
        return I.st.entails_le(a, b)
    return I.st.known_order(a, b) in ('<', '<=', '==')
