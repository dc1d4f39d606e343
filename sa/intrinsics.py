"""Functions that the stubs of the standard library and the scenarios get from the module `sa`."""
import ast
import collections
from . import seqs
from .vals import *
from .state import Cut, Undecided
from .interp import PyRaise, MISSING, scope_of

KEYFN = 'KEY'


def make(prog, m):
    b = prog.builtins
    nat = prog.natives

    def fn(name):
        def deco(f):
            m.vars[name] = Native('sa.' + name, lambda I, a, k: f(I, *a, **k))
            return f
        return deco

    # ------------------------------------------------------------- for the stubs
    @fn('event')
    def _(I, name, *args):
        I.event(name, *args)

    @fn('blocked')
    def _(I, obj):
        I.event('blocked', obj)
        if I.st.mon.get('blocked_raises'):
            e = I.mkexc(m.vars['Blocked'], obj)
            raise PyRaise(e)
        I.fail('waits for ever: nothing can release what it waits for')
        raise Cut('blocked')

    @fn('env')
    def _(I, name):
        return I.st.mon.get('env:' + name)

    @fn('set_env')
    def _(I, name, f):
        if f is None:
            I.st.mon.pop('env:' + name, None)
        else:
            I.st.mon['env:' + name] = f

    @fn('fresh')
    def _(I, name, kind='any'):
        return I.st.sym(name, kind)

    @fn('partial')
    def _(I, *a, **k):
        f = a[0]
        if isinstance(f, Partial):
            kw = dict(f.kw)
            kw.update(k)
            return Partial(f.func, tuple(f.args) + tuple(a[1:]), kw)
        return Partial(f, tuple(a[1:]), dict(k))

    @fn('islice')
    def _(I, it, *args):
        src = I.iter(it)
        if len(args) == 1:
            lo, hi, step = 0, args[0], 1
        else:
            lo, hi = args[0], args[1]
            step = args[2] if len(args) > 2 else 1
        lo = 0 if lo is None else lo
        step = 1 if step is None else step
        for x in (lo, hi, step):
            if x is not None and not I.isnum(x):
                if type(x) in (Sym, App, Elem, Unk):
                    I.st.taint('islice argument %s' % show(x))
                    return Iter('unk', None)
                I.raise_py('ValueError', 'Indices for islice() must be None or an integer')
        if I.st.lt(lo, 0) or (hi is not None and I.st.lt(hi, 0)):
            I.raise_py('ValueError', 'Indices for islice() must be None or an integer: '
                       '0 <= x <= sys.maxsize.')
        if I.st.lt(step, 1):
            I.raise_py('ValueError', 'Step for islice() must be a positive integer or None.')
        if type(src) is Iter and src.kind == 'seq' and type(src.i) is int and src.i == 0 \
                and type(it) is not Iter:
            return Iter('window', src.src, lo, hi, step)
        f = m.vars['_islice']
        return I.call(f, [src, lo, hi, step])

    def bis(right):
        def f(I, a, x, lo=0, hi=None, key=None):
            if type(a) is Seq and type(a.cls) is BCls:
                I.touch_seq(a, 'r', 'bisect')
                n = seqs.length(I.st, a.segs)
                if I.isnum(lo) and type(lo) is int and lo == 0 and (
                        hi is None or I.st.entails_eq(hi, n)):
                    segs = a.segs
                    off = 0
                else:
                    if I.st.lt(lo, 0):
                        I.raise_py('ValueError', 'lo must be non-negative')
                    hi = n if hi is None else hi
                    if I.st.lt(n, hi):
                        I.raise_py('IndexError', 'list index out of range')
                    if I.st.le(hi, lo):
                        return lo
                    segs = seqs.sub(I.st, a.segs, lo, hi)
                    off = lo
                if key is not None:
                    segs = keyed(I, segs, key)
                return ladd(off, seqs.bisect(I, segs, x, right))
            # any other sequence: by its own length and items
            g = m.vars['_bisect']
            return I.call(g, [a, x, lo, hi, key, right])
        return f
    fn('bisect_left')(bis(False))
    fn('bisect_right')(bis(True))

    def keyed(I, segs, key):
        out = []
        for s in segs:
            if type(s) is Elt:
                out.append(Elt(I.call(key, [s.v])))
                continue
            p = I.st.int('i')
            I.st.assume_ge(ladd(p, s.lo, -1))
            if seqs.empty(I.st, s):
                continue
            I.st.assume_ge(ladd(ladd(s.hi, p, -1), -1))
            v = I.call(key, [inst_tmpl(s.tmpl, s.base, p)])
            t = template(v)
            if t is None or t[0] is not s.base:
                I.st.taint('key of an element')
                out.append(s)
                continue
            out.append(Run(s.base, t[1], s.lo, s.hi, s.step))
        return tuple(out)

    m.vars['deque'] = nat.hid['deque']

    @fn('params')
    def _(I, f):
        skip = 0
        while type(f) is Bound:
            f = f.func
            skip += 1
        if type(f) is Partial:
            inner = I.call(m.vars['params'], [f.func])
            if inner is None:
                return None
            ps, n, kwonly = [], len(f.args), False
            for (nm, kind, has, dflt) in [e.v for e in inner.segs]:
                if kind in (0, 1) and n > 0:
                    n -= 1
                    continue
                if kind in (1, 3) and nm in f.kw:
                    kwonly = True
                    ps.append((nm, 3, True, f.kw[nm]))
                elif kind == 1 and kwonly:
                    ps.append((nm, 3, has, dflt))
                elif kind == 2 and kwonly:
                    continue
                else:
                    ps.append((nm, kind, has, dflt))
            return Seq(b['list'], tuple(Elt(x) for x in ps))
        if isinstance(f, Cls):
            i = I.class_lookup(f, '__init__')
            if type(i) is not Func:
                return None
            f = i
            skip += 1
        if type(f) is Inst:
            c = I.class_lookup(f.cls, '__call__')
            if type(c) is not Func:
                return None
            f = c
            skip += 1
        if type(f) in (Sym,) and f.kind == 'callable':
            return None
        if type(f) is not Func:
            return None
        w = f.attrs.get('__wrapped__')
        if w is not None:
            f = w
            while type(f) is Bound:
                f = f.func
                skip += 1
            if type(f) is not Func:
                return None
        a = f.node.args
        out = []
        pos = [(x.arg, 0) for x in a.posonlyargs] + [(x.arg, 1) for x in a.args]
        nd = len(f.defaults)
        for i, (n, k) in enumerate(pos):
            j = i - (len(pos) - nd)
            out.append((n, k, j >= 0, f.defaults[j] if j >= 0 else None))
        out = out[skip:]
        if a.vararg:
            out.append((a.vararg.arg, 2, False, None))
        for x in a.kwonlyargs:
            h = x.arg in f.kwdefaults
            out.append((x.arg, 3, h, f.kwdefaults.get(x.arg)))
        if a.kwarg:
            out.append((a.kwarg.arg, 4, False, None))
        return Seq(b['list'], tuple(Elt(x) for x in out))

    @fn('isfunction')
    def _(I, f):
        return type(f) is Func or type(f) in (Sym,) and f.kind == 'callable'

    @fn('ismethod')
    def _(I, f):
        return type(f) is Bound

    @fn('unmodelled')
    def _(I, what):
        I.st.taint('%s is not modelled (%s)' % (what, I.where()))
        return Unk(what)

    @fn('shallow_copy')
    def _(I, x):
        if type(x) is Seq:
            I.touch_seq(x, 'r', 'copy')
            s = Seq(x.cls, x.segs, x.maxlen)
            s.attrs = dict(x.attrs) if x.attrs is not None else None
            return s
        if type(x) is DictV:
            d = DictV([list(i) for i in x.items])
            d.cls, d.attrs = x.cls, dict(x.attrs) if x.attrs is not None else None
            return d
        if type(x) is SetV:
            return SetV(list(x.vals), x.frozen)
        if type(x) is Inst:
            o = Inst(x.cls)
            o.attrs = dict(x.attrs)
            return o
        return x

    # ------------------------------------------------------------- for the scenarios
    @fn('sym')
    def _(I, name='x', kind='any'):
        return I.st.sym(name, kind)

    @fn('integer')
    def _(I, name='n', lo=None, hi=None):
        return I.st.int(name, lo, hi)

    @fn('items')
    def _(I, name='items', order=None, strict=False, n=None, distinct=False, kind='item',
          equal='key'):
        """an arbitrary list: order 'key' sorted by KEY(item), 'self' sorted by the items;
        equal 'any': items that are equal may have different keys"""
        o = None
        if order == 'key':
            o = App(KEYFN, (HOLE,), 'key')
        elif order == 'self':
            o = HOLE
        elif order is not None:
            raise Undecided('order %r' % (order,))
        base = I.st.base(name, n, order=o, strict=strict, free=equal == 'any',
                         distinct=distinct or strict and equal == 'key', kind=kind)
        return Seq(b['list'], (Run(base, HOLE, 0, base.n),))

    @fn('KEY')
    def _(I, x):
        I.event('key_call', x)
        return App(KEYFN, (x,), 'key') if pure(x) else I.st.sym('key', 'key')

    @fn('key')
    def _(I, x):
        """(specification side: no event)"""
        return App(KEYFN, (x,), 'key')

    @fn('apply')
    def _(I, name, x, kind='any'):
        """an uninterpreted total function"""
        return App(name, (x,), kind) if pure(x) else I.st.sym(name, kind)

    @fn('choose')
    def _(I, n=2, label='choice'):
        return I.st.choose(n, ['%s = %d' % (label, i) for i in range(n)])

    @fn('flag')
    def _(I, label='flag'):
        return I.st.choose(2, ['%s' % label, 'not %s' % label]) == 0

    @fn('same')
    def _(I, a, c):
        """the same object"""
        return same(I, a, c)

    @fn('importable')
    def _(I, f):
        """a function that can be found again by its module and name"""
        if not isinstance(f, Func):
            return True
        mangled = f.name.startswith('__') and not f.name.endswith('__')
        return isinstance(f.node, ast.FunctionDef) and f.parent is None \
            and not (getattr(f, 'owner_frame', None) and mangled)

    @fn('same_items')
    def _(I, a, c):
        """two sequences with the same objects in the same order"""
        sa, sc = I.segs_of(a), I.segs_of(c)
        return seqs.same(I.st, sa, sc)

    @fn('check')
    def _(I, cond, msg):
        st = I.st
        st.obligations += 1
        I.prog.sites.add(msg)
        if not I.truth(cond):
            if st.feasible():
                I.fail(msg)
            raise Cut('failed')

    @fn('fail')
    def _(I, msg, *detail):
        I.st.obligations += 1
        I.fail(msg + ''.join(' ' + show(d) for d in detail))
        raise Cut('failed')

    @fn('reach')
    def _(I, msg):
        I.prog.sites.add(msg)

    @fn('assume')
    def _(I, cond):
        if not I.truth(cond):
            raise Cut('assumed')

    @fn('assume_le')
    def _(I, x, y):
        I.st.assume_ge(ladd(y, x, -1))

    @fn('assume_eq')
    def _(I, x, y):
        d = ladd(y, x, -1)
        I.st.assume_ge(d)
        I.st.assume_ge(lmul(d, -1))

    @fn('assume_absent')
    def _(I, seq, x):
        """x is unequal to every element of the arbitrary list seq"""
        for s in seq.segs:
            if type(s) is Run:
                s.base.excl = s.base.excl + (x,)

    @fn('first_equal')
    def _(I, seq, x):
        """position of the first element equal to x of an arbitrary list (its length if none)"""
        if len(seq.segs) != 1:
            raise Undecided('first_equal')
        return I.first_eq(seq.segs[0].base, x)

    @fn('equal_from')
    def _(I, seq, x, lo):
        """position of the first element equal to x at or after lo of an arbitrary list, or None"""
        if len(seq.segs) != 1:
            raise Undecided('equal_from')
        return I.natives.first_from(I, seq.segs[0].base, x, lo)

    @fn('stop')
    def _(I):
        raise Cut('stopped by the scenario')

    @fn('user_error')
    def _(I, name='error', plain=False, exc=True):
        e = Inst(m.vars['UserError'])
        e.attrs['args'] = (name,)
        e.attrs['_sa_exc'] = exc  # (else a BaseException that is no Exception)
        e.attrs['_sa_plain'] = plain
        return e

    @fn('set_attr')
    def _(I, o, name, v):
        """set an attribute without descriptors"""
        o.attrs[name] = v

    @fn('mon')
    def _(I, name, *v):
        if v:
            I.st.mon[name] = v[0]
            return None
        return I.st.mon.get(name)

    @fn('guard')
    def _(I, o, tag='guarded'):
        """report every access to the object and to the sequences it holds"""
        todo, seen = [o], set()
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if type(x) in (Inst, Seq):
                x.tag = tag
            if type(x) is Inst or type(x) is Seq and x.attrs:
                todo += [y for y in x.attrs.values() if type(y) is Seq]

    @fn('attr')
    def _(I, o, name, *d):
        """instance attribute, without descriptors"""
        r = o.attrs.get(name, MISSING)
        if r is MISSING:
            if d:
                return d[0]
            I.raise_py('AttributeError', name)
        return r

    @fn('settle')
    def _(I, n, hi=3):
        """case split of a small number"""
        for c in range(hi):
            if I.st.ieq(n, c):
                return c
        return n

    @fn('debug')
    def _(I, *a):
        print('DEBUG', *[show(x) for x in a])

    c = Cls('UserError', [b['Exception']], {}, m)
    c.static = True
    c.mro = (c,) + b['Exception'].mro
    c.any_exc = True
    m.vars['UserError'] = c
    c = Cls('Blocked', [b['BaseException']], {}, m)
    c.static = True
    c.mro = (c,) + b['BaseException'].mro
    m.vars['Blocked'] = c
    h = prog.load('sa_helpers')
    m.vars['_islice'] = h.vars['islice']
    m.vars['_bisect'] = h.vars['bisect']


def same(I, a, c):
    return seqs.same_val(I.st, a, c) if not (
        type(a) is Bound and type(c) is Bound) else a == c
