"""Fixpoint exploration of the abstract paths of a scenario.

Every loop head is a cut point: the abstract state there (all that the rest of the execution can
depend on) is compared with the states already analysed at the same continuation; it is either
included in one of them (the path ends there), or recorded and analysed, after widening what kept
changing from one visit to the next."""
import ast
import time
from . import lin, seqs
from .vals import *
from .state import State, Oracle, Cut, Undecided, Restart
from .interp import Interp, PyRaise, MISSING
from .live import live_at

WIDEN_AT = 2
MAX_VISITS = 26


class Walk:
    """Deterministic traversal of everything the continuation depends on.

    Produces a skeleton (hashable, alpha-renamed), the list of symbols, bases and integer
    expressions ("holes").  With repl/sub given, rewrites the state instead."""

    def __init__(self, I, repl=None, sub=None):
        self.I, self.st, self.prog = I, I.st, I.prog
        self.repl, self.sub = repl, sub
        self.rewriting = repl is not None or sub is not None
        self.ids = {}
        self.keep = []
        self.syms, self.symix = [], {}
        self.bases, self.baseix = [], {}
        self.holes, self.fixed = [], []
        self.tmp = 0  # > 0: inside an immutable value held by the evaluator
        self.tmp_syms = set()
        self.seqs = []

    def run(self):
        st = self.st
        out = []
        for ctx in st.ctxs:
            out.append(self.ctx(ctx))
        mon = []
        for k in sorted(st.mon, key=str):
            s, n = self.val(st.mon[k])
            if self.rewriting:
                st.mon[k] = n
            mon.append((k if isinstance(k, str) else str(k), s))
        out.append(tuple(mon))
        seen = set()
        mods = []
        for d, k, _, obj in st.undo:
            key = (id(d), k)
            if key in seen:
                continue
            seen.add(key)
            if k in d:
                v = d[k]
                if k == 'segs':
                    s, n = self.segs(v)
                elif k == 'items':
                    s, n = self.items(v)
                elif k == 'vals' and type(obj) is SetV:
                    r = [self.val(x) for x in v]
                    s, n = tuple(x for x, _ in r), [x for _, x in r]
                else:
                    s, n = self.val(v)
                if self.rewriting:
                    d[k] = n
                mods.append((self.prog.sid(obj), k, s))
            else:
                mods.append((self.prog.sid(obj), k, None))
        mods.sort(key=lambda x: (x[0], str(x[1])))
        out.append(tuple(mods))
        self.skel = tuple(out)
        return self

    def ctx(self, ctx):
        out = []
        for i, e in enumerate(ctx):
            if isinstance(e, ast.AST):
                out.append(('@', id(e)))
            elif isinstance(e, str):
                out.append(e)
            elif isinstance(e, Frame):
                out.append(self.val(e)[0])
            elif e[0] == 'tmp':
                self.tmp += 1
                s, _ = self.val(e[1])
                self.tmp -= 1
                out.append(('t', s))
            elif e[0] == 'cell':
                cs = []
                for j, v in enumerate(e[1]):
                    s, n = self.val(v)
                    if self.rewriting:
                        e[1][j] = n
                    cs.append(s)
                out.append(('c', tuple(cs)))
            else:
                out.append(e)
        return tuple(out)

    def hole(self, v):
        i = len(self.holes)
        self.holes.append(v)
        self.fixed.append(self.tmp > 0)
        if self.repl is not None:
            return self.repl[i]
        if self.sub is not None and type(v) is LinV:
            return subst(v, self.sub)
        return v

    def symref(self, s):
        i = self.symix.get(s)
        if i is None:
            i = self.symix[s] = len(self.syms)
            self.syms.append(s)
        if self.tmp:
            self.tmp_syms.add(s)
        return i

    def baseref(self, b):
        i = self.baseix.get(b)
        if i is None:
            i = self.baseix[b] = len(self.bases)
            self.bases.append(b)
            t, self.tmp = self.tmp, 1  # (attributes of a base are never rewritten in place)
            o = self.val(b.order)[0] if b.order is not None else None
            n = self.val(b.n)[0]
            x = tuple(self.val(y)[0] for y in b.excl)
            note = self.note(b.note)
            self.tmp = t
            return ('B', i, b.name.split('#')[0] if b.note == 'summary' else b.id
                    if b.note is None else 0, o, n, x, b.strict, b.distinct, b.kind, b.free, note)
        return ('b', i)

    def note(self, n):
        if isinstance(n, tuple):
            return tuple(self.baseref(x) if type(x) is Base else
                         self.val(x)[0] if isinstance(x, (Val, int)) else x for x in n)
        return n

    def val(self, v):
        """-> (skeleton, rebuilt value)"""
        t = type(v)
        if v is None or t in (bool, str, bytes, float, complex):
            return ((t.__name__, v), v)
        if t in (int, LinV):
            if t is LinV and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and \
                    v.t[0][0][0] == 'stepos':  # (its parts change on their own)
                r = [self.val(x) for x in v.t[0][0][1:]]
                return (('steps',) + tuple(s for s, _ in r),
                        seqs.mkpos(self.st, *[n for _, n in r]) if self.rewriting else v)
            n = self.hole(v)
            return ('#', n)
        if t is tuple:
            r = [self.val(x) for x in v]
            return (('T',) + tuple(s for s, _ in r),
                    tuple(n for _, n in r) if self.rewriting else v)
        if t is Sym:
            if v is HOLE or v.id == 0:
                return ('HOLE', v)
            n = v
            if self.sub is not None and not self.tmp:
                n = self.sub(v)
                if n is None:
                    n = v
            return (('S', self.symref(v), v.kind), n)
        if t is App:
            r = [self.val(x) for x in v.args]
            return (('A', v.fn) + tuple(s for s, _ in r),
                    App(v.fn, [n for _, n in r], v.kind) if self.rewriting else v)
        if t is Elem:
            b = self.baseref(v.base)
            s, n = self.val(v.pos)
            if self.rewriting:
                if self.sub is not None and not self.tmp:
                    e = self.sub(v)
                    if e is not None:
                        return (('E', b, s), e)
                v = Elem(v.base, n)
            return (('E', b, s), v)
        if t is Bound:
            a, x = self.val(v.func)
            b, y = self.val(v.self)
            return (('bound', a, b), Bound(x, y) if self.rewriting else v)
        if t is SuperV:
            return (('super', self.val(v.cls)[0], self.val(v.obj)[0]), v)
        if t in (RangeV, SliceV):
            r = [self.val(x) for x in (v.lo, v.hi, v.step)]
            return ((t.__name__,) + tuple(s for s, _ in r),
                    t(*[n for _, n in r]) if self.rewriting else v)
        if t is Ext:
            return (('ext', v.path), v)
        if t is Unk:
            return (('unk',), v)
        if v is NotImplemented or v is MISSING:
            return ((str(v),), v)
        if isinstance(v, Obj):
            return (self.obj(v), v)
        raise Undecided('state with %s' % t.__name__)

    def segs(self, segs):
        out, new = [], []
        for s in segs:
            if type(s) is Elt:
                k, n = self.val(s.v)
                out.append(('e', k))
                new.append(Elt(n))
            else:
                b = self.baseref(s.base)
                m = self.val(s.tmpl)
                r = [self.val(x) for x in (s.lo, s.hi, s.step)]
                out.append(('r', b, m[0]) + tuple(x for x, _ in r))
                if self.rewriting:
                    base = s.base
                    if self.sub is not None:
                        e = self.sub(base)
                        base = base if e is None else e
                    new.append(Run(base, m[1], r[0][1], r[1][1], r[2][1]))
        return tuple(out), tuple(new)

    def items(self, items):
        out, new = [], []
        for k, v in items:
            a, x = self.val(k)
            b, y = self.val(v)
            out.append((a, b))
            new.append([x, y])
        return tuple(out), new

    def dct(self, d):
        out = []
        for k in sorted(d, key=str):
            s, n = self.val(d[k])
            if self.rewriting:
                d[k] = n
            out.append((k, s))
        return tuple(out)

    def obj(self, o):
        t = type(o)
        if o.static or t in (Cls, BCls, Mod, Native):
            if t is Cls and not o.static:
                pass
            else:
                return ('static', self.prog.sid(o))
        i = self.ids.get(id(o))
        if i is not None:
            return ('o', i)
        i = self.ids[id(o)] = len(self.ids)
        self.keep.append(o)
        tmp, self.tmp = self.tmp, 0
        try:
            return ('O', i, t.__name__) + self.body(o, t)
        finally:
            self.tmp = tmp

    def body(self, o, t):
        if t is Frame:
            r = (self.val(o.func)[0] if o.func is not None else None, o.kind, self.dct(o.vars),
                 self.val(o.parent)[0] if o.parent is not None else None)
            return r
        if t is Inst:
            return (self.val(o.cls)[0], self.dct(o.attrs), self.tag(o.tag))
        if t is Seq:
            self.seqs.append(o)
            s, n = self.segs(o.segs)
            if self.rewriting:
                o.segs = n
            m, n = self.val(o.maxlen)
            if self.rewriting:
                o.maxlen = n
            return (self.val(o.cls)[0], s, m, self.dct(o.attrs) if o.attrs else None,
                    self.tag(o.tag))
        if t is DictV:
            s, n = self.items(o.items)
            if self.rewriting:
                o.items = n
            return (self.val(o.cls)[0] if o.cls else None, s, self.dct(o.attrs) if o.attrs else None,
                    self.val(o.owner)[0] if o.owner is not None else None)
        if t is SetV:
            r = [self.val(x) for x in o.vals]
            if self.rewriting:
                o.vals = [n for _, n in r]
            return (o.frozen,) + tuple(s for s, _ in r)
        if t is Func:
            return (id(o.node), self.val(o.parent)[0] if o.parent is not None else None,
                    tuple(self.val(x)[0] for x in o.defaults),
                    tuple((k, self.val(x)[0]) for k, x in sorted(o.kwdefaults.items())),
                    self.dct(o.attrs))
        if t is Cls:
            return (o.name, tuple(self.val(b)[0] for b in o.bases), self.dct(o.attrs))
        if t is PropV:
            return tuple(self.val(x)[0] for x in (o.fget, o.fset, o.fdel))
        if t in (StaticM, ClassM):
            return self.val(o.f)[0]
        if t is Partial:
            r = [self.val(x) for x in o.args]
            if self.rewriting:
                o.args = [n for _, n in r]
            return (self.val(o.func)[0], tuple(s for s, _ in r), self.dct(o.kw), self.dct(o.attrs))
        if t is Iter:
            src = o.src
            if isinstance(src, tuple):
                s = ('T',) + tuple(
                    ('T',) + tuple(self.val(y)[0] for y in x) if isinstance(x, tuple)
                    else self.val(x)[0] for x in src)
            else:
                s, n = self.val(src)
                if self.rewriting:
                    o.src = n
            r = []
            for f in ('i', 'hi', 'step'):
                k, n = self.val(getattr(o, f))
                if self.rewriting:
                    setattr(o, f, n)
                r.append(k)
            return (o.kind, o.done, s) + tuple(r)
        if t is Gen:
            if o.state == 'done':
                return ('done',)
            if o.state == 'running':
                return ('running',)  # its context is one of the active ones
            return (o.state, id(o.func.node), self.ctx(o.ctx))
        raise Undecided('state with object %s' % t.__name__)

    def tag(self, t):
        if t is None or isinstance(t, str):
            return t
        return self.val(t)[0]


def atoms_of(v, out):
    if type(v) is LinV:
        for a, _ in v.t:
            out.add(a)
            for x in a[1:]:
                if isinstance(x, (Val, tuple)) and a[0] != 'n':
                    atoms_in(x, out)
    return out


def atoms_in(v, out):
    t = type(v)
    if t is LinV:
        atoms_of(v, out)
    elif t is tuple:
        for x in v:
            atoms_in(x, out)
    elif t is App:
        for x in v.args:
            atoms_in(x, out)
    elif t is Elem:
        atoms_in(v.pos, out)
    return out


def refs(v, syms, bases, natoms):
    """symbols, bases and plain atoms mentioned in a value / atom"""
    t = type(v)
    if t is Sym:
        if v.id:
            syms.add(v)
    elif t is App:
        for x in v.args:
            refs(x, syms, bases, natoms)
    elif t is Elem:
        bases.add(v.base)
        refs(v.pos, syms, bases, natoms)
    elif t is Base:
        bases.add(v)
    elif t is LinV:
        for a, _ in v.t:
            refs(a, syms, bases, natoms)
    elif t is tuple:
        if len(v) == 3 and v[0] == 'n' and type(v[1]) is int:
            natoms.add(v)
        else:
            for x in v:
                refs(x, syms, bases, natoms)


class Snap:
    __slots__ = ('skel', 'syms', 'bases', 'holes', 'cons', 'facts', 'fixed')


class Heads(list):
    delayed = 0


class Explorer:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.nomap = set()
        self.stored_now = []
        self.unroll = None
        self.stats = {'bounded': 0, 'paths': 0, 'heads': 0, 'covered': 0, 'widened': 0, 'stored': 0,
                      'infeasible': 0, 'mapped': 0}

    def note(self, what):
        self.stats[what] += 1

    def fingerprint(self, I):
        w = Walk(I).run()
        return (w.skel, tuple(w.holes), tuple(w.syms), tuple(w.bases), len(I.st.failures))

    # ------------------------------------------------------------------ loop heads
    def chain(self, st):
        out = []
        for ctx in st.ctxs:
            for e in ctx:
                if isinstance(e, ast.AST):
                    out.append(id(e))
                elif isinstance(e, str):
                    out.append(e)
            out.append('|')
        return tuple(out)

    def loop_head(self, I, node):
        if self.prog.loading:
            return
        st = I.st
        if st.spec is not None:
            raise Restart(st.spec)
        self.stats['heads'] += 1
        chain = self.chain(st) + (id(node) if isinstance(node, ast.AST) else node,)
        hist = st.heads.setdefault(chain, Heads())
        if hist:  # a further round: the loops inside it start anew
            x = chain[:-2]
            for k in [k for k in st.heads if len(k) > len(chain) and k[:len(x)] == x]:
                del st.heads[k]
        self.drop_dead(st, node)
        if self.unroll is not None:  # a further round, exactly
            if len(hist) > self.unroll:
                self.stats['bounded'] += 1
                raise Cut('bound')
            hist.append(None)
            self.gc(st, Walk(I).run())
            return
        w = Walk(I).run()
        visit = len(hist)
        if visit > MAX_VISITS:
            raise Undecided('loop does not converge: %s' % self.why(hist), I.where())
        if visit >= WIDEN_AT and self.collapse(I, w):
            w = Walk(I).run()
        if visit >= WIDEN_AT:
            same = [h for h in hist if h.skel == w.skel]
            if same:
                r = self.widen(I, same, w, hist)
                if r is True:
                    w = Walk(I).run()
        if self.flatten(I, w):
            w = Walk(I).run()
        self.gc(st, w)
        s = Snap()
        s.skel, s.syms, s.bases, s.holes, s.fixed = w.skel, w.syms, w.bases, w.holes, w.fixed
        s.cons = list(st.cons)
        s.facts = self.live_facts(st, w)
        hist.append(s)
        if st.oracle.fresh:
            lst = self.memo.setdefault((chain, w.skel), [])
            for t in lst:
                if self.included(st, s, t):
                    self.stats['covered'] += 1
                    raise Cut('covered')
            lst.append(s)
            self.stored_now.append((lst, s))
            self.stats['stored'] += 1

    def flatten(self, I, w):
        """a canonical form of the numbers of the state: known equalities are used up, and a
        combination of unknowns that occurs only as such becomes one unknown"""
        st = I.st
        holes = list(w.holes)
        if not any(type(h) is LinV for h in holes):
            return False
        locked = set()  # atoms that also occur elsewhere
        for h, f in zip(holes, w.fixed):
            if f:
                refs(h, set(), set(), locked)
            elif type(h) is LinV:
                for a, _ in h.t:
                    if a[0] != 'n':
                        refs(a, set(), set(), locked)
        for c in st.cons:
            for a, _ in c[0]:
                if a[0] != 'n':
                    refs(a[1:], set(), set(), locked)
        for k, v in st.facts.items():
            refs(k, set(), set(), locked)
            refs(v, set(), set(), locked)
        for b in st.bases:
            refs(b.n, set(), set(), locked)
        cons = None
        changed = False

        def eliminate(a, e):
            nonlocal holes, cons, changed
            holes = [put(h, a, e) if type(h) is LinV and not f else h
                     for h, f in zip(holes, w.fixed)]
            cons = [put(mklin(dict(c[0]), c[1]), a, e) for c in st.cons] if cons is None else [
                put(c, a, e) if type(c) is LinV else c for c in cons]
            changed = True

        def put(h, a, e):
            for x, k in h.t:
                if x == a:
                    return ladd(mklin({y: j for y, j in h.t if y != a}, h.c), e, k)
            return h
        # explicit equalities
        for c in list(st.cons):
            neg = (tuple((a, -k) for a, k in c[0]), -c[1])
            if neg in st.conset and c[0]:
                e = mklin(dict(c[0]), c[1])
                for a, k in c[0]:
                    if a[0] == 'n' and abs(k) == 1 and a not in locked and any(
                            type(h) is LinV and any(x == a for x, _ in h.t) for h in holes):
                        rest = mklin({x: j for x, j in c[0] if x != a}, c[1])
                        eliminate(a, lmul(rest, -k))
                        break
                if changed:
                    break  # (one at a time)
        if not changed:
            bound = set()
            todo = [h for h in holes if type(h) is LinV]
            while todo:
                left = []
                for h in todo:
                    un = [(a, k) for a, k in h.t if a[0] == 'n' and a not in bound]
                    if len(un) == 1 and abs(un[0][1]) == 1:
                        bound.add(un[0][0])
                    elif un:
                        left.append(h)
                if len(left) == len(todo):
                    break
                todo = left
            for h in todo:
                un = [(a, k) for a, k in h.t if a[0] == 'n' and a not in bound]
                x = next(((a, k) for a, k in un if abs(k) == 1 and a not in locked), None)
                if x is None:
                    continue
                a, k = x
                v = st.int('c')
                rest = mklin({y: j for y, j in un if y != a}, 0)
                eliminate(a, lmul(ladd(v, rest, -1), k))
                break
        if not changed:
            return False
        st.cons, st.conset = [], set()
        for c in cons:
            st.assume_ge(c)
        Walk(I, repl=holes).run()
        w2 = Walk(I).run()
        self.flatten(I, w2)
        return True

    def drop_dead(self, st, node):
        """forget the local variables that are assigned before they are read again"""
        if not isinstance(node, (ast.While, ast.For)):
            return
        fr = next((e for e in reversed(st.ctxs[-1]) if isinstance(e, Frame)), None)
        if fr is None or fr.func is None or not isinstance(fr.func.node, ast.FunctionDef):
            return
        keep = live_at(fr.func.node, node)
        if keep is not None:
            for n in [n for n in fr.vars if n not in keep]:
                del fr.vars[n]

    def why(self, hist):
        a, b = hist[-2], hist[-1]
        if a.skel != b.skel:
            return 'shape keeps changing: ' + diff(a.skel, b.skel)
        return 'values keep changing: ' + ', '.join(
            '%s -> %s' % (show(x), show(y)) for x, y in zip(a.holes, b.holes) if x != y)[:300]

    def gc(self, st, w):
        """forget the constraints on what nothing refers to any more"""
        t = lin.tighten(st.cons)
        if len(t) < len(st.cons):
            st.cons, st.conset = t, set(t)
        live = self.live_atoms(st, w)
        dead = set()
        for c in st.cons:
            for a, _ in c[0]:
                if a not in live:
                    dead.add(a)
        if not dead:
            return
        st.cons = lin.project(st.cons, dead)
        st.conset = set(st.cons)
        for bid, ks in list(st.order_atoms.items()):
            b = next(x for x in st.bases if x.id == bid)
            st.order_atoms[bid] = [k for k in ks if ('L', b, k) in live or ('R', b, k) in live]
        st.keyring = {k for k in st.keyring if ('ord', k) in live}
        lf = self.live_facts(st, w)
        st.facts = dict(lf)

    def live_atoms(self, st, w):
        syms, bases = set(w.syms), set(w.bases)
        nat = set()
        for h in w.holes:
            a = set()
            refs(h, set(), set(), a)
            nat |= a
        live = set()
        allatoms = set()
        for c in st.cons:
            for a, _ in c[0]:
                allatoms.add(a)
        for a in allatoms:
            if a[0] == 'n':
                if a in nat:
                    live.add(a)
                continue
            s, b, n = set(), set(), set()
            for x in a[1:]:
                refs(x, s, b, n)
            if s <= syms and b <= bases and n <= nat:
                live.add(a)
        return live

    def live_facts(self, st, w):
        syms, bases = set(w.syms), set(w.bases)
        nat = set()
        for h in w.holes:
            refs(h, set(), set(), nat)
        out = []
        for k, v in st.facts.items():
            s, b, n = set(), set(), set()
            refs(k, s, b, n)
            refs(v, s, b, n)
            if s <= syms and b <= bases and n <= nat:
                out.append((k, v))
        return out

    def included(self, st, s, t):
        """is the current state s (constraints st.cons) included in the stored state t ?"""
        sym = dict(zip(t.syms, s.syms))
        bas = dict(zip(t.bases, s.bases))
        nat = {}
        todo = list(zip(t.holes, s.holes))

        def sub(x):
            ty = type(x)
            if ty is Sym:
                return sym.get(x)
            if ty is Base:
                return bas.get(x)
            if ty is Elem:
                return Elem(bas.get(x.base, x.base), subst(x.pos, sub))
            if ty is LinV:
                return mapexpr(x)
            return None

        def mapatom(a):
            """image of an atom as an expression, or None"""
            if a[0] == 'n':
                return nat.get(a)
            ok = set()
            for y in a[1:]:
                refs(y, set(), set(), ok)
            if any(n not in nat for n in ok):
                return None
            b = tuple(bas.get(y, y) if type(y) is Base else
                      subst(y, sub) if isinstance(y, (Val, tuple)) else y for y in a)
            return LinV(((b, 1),), 0)

        def mapexpr(v):
            if type(v) is not LinV:
                return v
            r = v.c
            for a, c in v.t:
                m = mapatom(a)
                if m is None:
                    raise KeyError(a)
                r = ladd(r, lmul(m, c))
            return r
        # bind the free atoms of t
        progress = True
        while progress and todo:
            progress = False
            left = []
            for th, sh in todo:
                if type(th) is not LinV:
                    if not st.entails_eq(th, sh):
                        return False
                    progress = True
                    continue
                unb = [(a, c) for a, c in th.t if mapatom(a) is None]
                if not unb:
                    if not st.entails_eq(mapexpr(th), sh):
                        return False
                    progress = True
                elif len(unb) == 1 and unb[0][0][0] == 'n' and abs(unb[0][1]) == 1:
                    a, c = unb[0]
                    rest = mklin({x: k for x, k in th.t if x != a}, th.c)
                    try:
                        r = ladd(sh, mapexpr(rest), -1)
                    except KeyError:
                        left.append((th, sh))
                        continue
                    nat[a] = lmul(r, c)
                    progress = True
                else:
                    left.append((th, sh))
            todo = left
        if todo:
            return False
        for k, v in t.facts:
            try:
                kk = tuple(bas.get(y, y) if type(y) is Base else
                           subst(y, sub) if isinstance(y, (Val, tuple)) else y for y in k)
                vv = subst(v, sub) if isinstance(v, Val) else v
            except KeyError:
                return False
            sv = st.facts.get(kk, MISSING)
            if sv is MISSING and len(kk) == 3:
                sv = st.facts.get((kk[0], kk[2], kk[1]), MISSING) if kk[0] == 'eq' else MISSING
            if sv is MISSING or (sv != vv and not (
                    type(sv) in (int, LinV) and type(vv) in (int, LinV) and type(sv) is not bool
                    and st.entails_eq(sv, vv))):
                return False
        for c in t.cons:
            e = c[1]
            try:
                for a, k in c[0]:
                    m = mapatom(a)
                    if m is None:
                        raise KeyError(a)
                    e = ladd(e, lmul(m, k))
            except KeyError:
                return False
            # a derived atom that s does not know yet: introduce it with its axioms
            self.introduce(st, e)
            if not st.entails_ge(e):
                return False
        return True

    def introduce(self, st, e):
        if type(e) is not LinV:
            return
        for a, _ in e.t:
            if a[0] in ('L', 'R'):
                st.LR(a[0], a[1], a[2])

    # ------------------------------------------------------------------ widening
    def widen(self, I, hist, w, every):
        st = I.st
        prev = hist[-1]
        force = len(hist) > 10 or every.delayed > 3
        pp = hist[-2] if len(hist) >= 2 and hist[-2].skel == w.skel else None
        if not force and pp is not None:
            # a value that starts to change now: another phase of the loop begins
            for i, (o, a, b) in enumerate(zip(pp.holes, prev.holes, w.holes)):
                if o == a and a != b and not w.fixed[i] and not st.entails_eq(a, b):
                    every.delayed += 1
                    return False
        changed = []
        for i, (a, b) in enumerate(zip(prev.holes, w.holes)):
            if a == b and type(a) is type(b):
                continue
            if st.entails_eq(a, b):
                continue
            if w.fixed[i]:
                continue
            if not force and pp is not None and pp.holes[i] == a:
                continue
            if not force and pp is None:
                continue
            changed.append(i)
        if not changed:
            return False
        groups = {}
        for i in changed:
            groups.setdefault((prev.holes[i], w.holes[i]), []).append(i)
        reps = []  # (prev, cur, new)
        derived = []
        new = {}
        # unchanged distinct expressions
        chg = set(changed)
        cands = {}
        for i, (a, b) in enumerate(zip(prev.holes, w.holes)):
            if i not in chg and a == b:
                cands[b] = (a, b, b)
        cands.setdefault(0, (0, 0, 0))
        for (a, b), ix in groups.items():
            v = None
            for ra, rb, rn in reps:
                d1, d2 = ladd(a, ra, -1), ladd(b, rb, -1)
                if type(d2) is int and (d1 == d2 or entails_eq(prev.cons, d1, d2)):
                    v = ladd(rn, d2)
                    break
                if d1 == d2:
                    v = ladd(rn, d2)
                    break
                if type(d1) is int and st.entails_eq(d2, d1):
                    v = ladd(rn, d1)
                    break
                s1, s2 = ladd(a, ra), ladd(b, rb)
                if s1 == s2:
                    v = ladd(s2, rn, -1)
                    break
            if v is None:
                v = st.int('w')
                reps.append((a, b, v))
            else:
                derived.append((a, b, v))
            for i in ix:
                new[i] = v
        self.stats['widened'] += 1
        # bounds that hold before and now
        def lin_entails(cons, e):
            if type(e) is not LinV:
                return e >= 0
            try:
                return lin.entails(cons, lexpr(e))
            except lin.TooBig:
                return False
        cand = list(cands.values()) + reps
        add = []
        for ra, rb, rn in reps + derived:
            if type(ra) is int and type(rb) is int:
                add.append(ladd(rn, min(ra, rb), -1) if rb >= ra else ladd(max(ra, rb), rn, -1))
            for ca, cb, cn in cand:
                if cn is rn:
                    continue
                for sgn in (1, -1):
                    d1, d2 = lmul(ladd(ra, ca, -1), sgn), lmul(ladd(rb, cb, -1), sgn)
                    for off in (-1, 0):
                        if lin_entails(st.cons, ladd(d2, off)) and \
                                lin_entails(prev.cons, ladd(d1, off)):
                            add.append(ladd(lmul(ladd(rn, cn, -1), sgn), off))
                            break
        # the constraints on the changed values that hold again
        now, then = {}, {}
        for ra, rb, rn in reps + derived:
            if type(ra) is LinV and len(ra.t) == 1 and ra.t[0][0][0] == 'n' and ra.t[0][1] == 1 \
                    and ra.t[0][0] not in now:
                now[ra.t[0][0]], then[ra.t[0][0]] = ladd(rb, -ra.c), ladd(rn, -ra.c)
        if now:
            for t, k in prev.cons:
                if len(t) < 3 or not any(a in now for a, _ in t):
                    continue
                e1 = e2 = k
                for a, j in t:
                    x = LinV(((a, 1),), 0)
                    e1 = ladd(e1, now.get(a, x), j)
                    e2 = ladd(e2, then.get(a, x), j)
                if lin_entails(st.cons, e1):
                    add.append(e2)
        for e in add:
            st.assume_ge(e)
        repl = [new.get(i, h) for i, h in enumerate(w.holes)]
        Walk(I, repl=repl).run()
        # sequences: an empty or merged segment may result
        st.widened = True
        return True

    # ------------------------------------------------------------------ summaries of grown sequences
    def collapse(self, I, w):
        """symbols that occur as consecutive elements become elements of a summary base"""
        st = I.st
        done = False
        for _ in range(8):
            c = self.find_chain(st, w)
            if c is None:
                break
            base, syms = c
            self.summarise(I, w, base, syms)
            done = True
            w = Walk(I).run()
        return done

    def one_sym(self, v):
        """the single symbol of a term, with its template"""
        s, b, n = set(), set(), set()
        refs(v, s, b, n)
        if len(s) != 1 or b or n or not pure(v):
            return None
        x = next(iter(s))
        if x.kind in ('callable', 'object', 'exc', 'attr'):
            return None
        return x, subst(v, lambda y: HOLE if type(y) is Sym and y == x else None)

    def find_chain(self, st, w):
        for q in w.seqs:
            prev = None
            for s in q.segs:
                if type(s) is Run:
                    prev = ('run', s) if s.base.note == 'summary' and s.step == 1 and \
                        st.entails_eq(s.hi, s.base.n) else None
                    continue
                es = elems_in(s.v, []) if pure(s.v) else []
                if es:
                    t = template(s.v)
                    prev = ('run', Run(t[0], t[1], t[2], ladd(t[2], 1))) \
                        if t is not None and t[0].note == 'summary' \
                        and st.entails_eq(ladd(t[2], 1), t[0].n) else None
                    continue
                o = self.one_sym(s.v)
                if o is None or o[0] in w.tmp_syms:
                    prev = None
                    continue
                if prev is not None and prev[0] == 'run' and prev[1].tmpl == o[1]:
                    return prev[1].base, [o[0]]
                if prev is not None and prev[0] == 'sym' and prev[1][1] == o[1] \
                        and prev[1][0] is not o[0]:
                    return None, [prev[1][0], o[0]]
                prev = ('sym', o)
        return None

    def summarise(self, I, w, base, syms):
        st = I.st
        st.widened = True
        n0 = base.n if base is not None else 0
        # the order of the elements, by some key template
        tmpls = []
        for q in w.seqs:
            for s in q.segs:
                if type(s) is Elt:
                    o = self.one_sym(s.v)
                    if o is not None and o[0] in syms and o[1] not in tmpls:
                        tmpls.append(o[1])
        order = None
        if base is not None:
            if base.order is not None:
                at = lambda t, x: subst(t, lambda y: x if type(y) is Sym and y == HOLE else None)
                if st.known_order(at(base.order, Elem(base, ladd(base.n, -1))),
                                  at(base.order, syms[0])) == '<':
                    order = base.order
        else:
            for t in tmpls:
                at = lambda x: subst(t, lambda y: x if type(y) is Sym and y == HOLE else None)
                if all(st.known_order(at(a), at(b)) == '<' for a, b in zip(syms, syms[1:])):
                    order = t
                    break
        n = ladd(n0, len(syms))
        st.nsum = getattr(st, 'nsum', 0) + 1
        b = Base(st.newid(), 'items', n, order=order, strict=order is not None,
                 free=any(x.free for x in st.bases))
        b.note = 'summary'
        st.bases.append(b)
        pos = {s: Elem(b, ladd(n0, i)) for i, s in enumerate(syms)}

        def sub(x):
            t = type(x)
            if t is Sym:
                return pos.get(x)
            if t is Elem and x.base is base and base is not None:
                return Elem(b, subst(x.pos, sub))
            if t is Base and x is base and base is not None:
                return b
            return None
        facts = {}
        for k, v in st.facts.items():
            kk = tuple(b if y is base and base is not None else
                       subst(y, sub) if isinstance(y, (Val, tuple)) else y for y in k)
            facts[kk] = subst(v, sub) if isinstance(v, Val) else v
        # constraints on what is renamed: order atoms are dropped (the base's order says it)
        gone = set(syms)
        cons = []
        for c in st.cons:
            bad = False
            for a, _ in c[0]:
                s, bb, nn = set(), set(), set()
                for x in a[1:]:
                    refs(x, s, bb, nn)
                if s & gone or (base is not None and base in bb):
                    bad = True
            if bad:
                continue
            cons.append(c)
        if base is not None:
            st.order_atoms.pop(base.id, None)
        for bid in list(st.order_atoms):
            st.order_atoms[bid] = [k for k in st.order_atoms[bid] if not (
                self._mentions(k, gone, base))]
        st.keyring = {k for k in st.keyring if not self._mentions(k, gone, base)}
        st.cons, st.conset = cons, set(cons)
        st.facts = facts
        Walk(I, sub=sub).run()
        from . import seqs
        for q in w.seqs:
            q.segs = seqs.norm(st, q.segs)

    def _mentions(self, k, gone, base):
        s, bb, nn = set(), set(), set()
        refs(k, s, bb, nn)
        return bool(s & gone) or (base is not None and base in bb)

    # ------------------------------------------------------------------ all paths
    def explore(self, body, max_paths=20000, max_time=600, on_path=None):
        """body(I) evaluates the scenario.  Returns a Result"""
        res = Result()
        self.memo = {}
        prefix = []
        t0 = time.time()
        while True:
            oracle = Oracle(prefix)
            st = State(oracle)
            I = Interp(self.prog, st)
            I.explorer = self
            self.prog.begin(I)
            end = 'done'
            self.stored_now = []
            try:
                body(I)
            except Restart as e:
                self.nomap.add(e.args[0])
                for lst, s in self.stored_now:
                    lst[:] = [t for t in lst if t is not s]
                I.rollback()
                continue
            except Cut as e:
                end = str(e)
            except Undecided as e:
                end = 'undecided'
                if st.feasible():
                    res.undecided.append((e.why, e.where or I.where(), list(st.branches)))
            except PyRaise as e:
                end = 'raised'
                st.failures.append(('uncaught %s%s' % (e.exc.cls.name, show(e.exc.attrs.get(
                    'args', ()))), getattr(e.exc, 'internal', None) or I.libwhere(), [], None))
            except RecursionError:
                end = 'undecided'
                res.undecided.append(('recursion too deep', I.where(), []))
            finally:
                I.rollback()
            self.stats['paths'] += 1
            res.paths += 1
            res.obligations += st.obligations
            res.taints.update(st.taints)
            res.events += len(st.events)
            if st.failures:
                if st.feasible():
                    res.add(st, end)
                else:
                    self.stats['infeasible'] += 1
            if on_path is not None:
                on_path(I, st, end)
            # next decision sequence
            taken = oracle.taken
            while taken and taken[-1][0] + 1 >= taken[-1][1]:
                taken.pop()
            if not taken:
                return res
            prefix = [c for c, _ in taken]
            prefix[-1] += 1
            if res.paths >= max_paths or time.time() - t0 > max_time:
                res.undecided.append(('analysis budget used up after %d paths' % res.paths, None, []))
                return res
            if len(res.failures) > 60 or len(res.undecided) > 25:
                return res


def entails_eq(cons, a, b):
    d = ladd(a, b, -1)
    if type(d) is not LinV:
        return d == 0
    try:
        return lin.entails(cons, lexpr(d)) and lin.entails(cons, lexpr(lmul(d, -1)))
    except lin.TooBig:
        return False


class Result:
    def __init__(self):
        self.paths = 0
        self.obligations = 0
        self.events = 0
        self.failures = {}
        self.tainted = {}
        self.undecided = []
        self.taints = set()

    def add(self, st, end):
        for msg, where, bt, detail in st.failures:
            d = self.tainted if st.taints else self.failures
            k = (msg, where)
            if k not in d:
                d[k] = {'message': msg, 'where': where, 'backtrace': bt, 'detail': detail,
                        'path': list(st.branches), 'taints': list(st.taints),
                        'widened': getattr(st, 'widened', False), 'count': 0}
            d[k]['count'] += 1


def diff(a, b, path=''):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + '/%s' % (
                    x[0] if isinstance(x, tuple) and x and isinstance(x[0], str) else i))
    return ('%s: %r / %r' % (path[-120:], a, b))[:600]
