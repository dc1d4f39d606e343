"""Abstract values.

Immutable primitives (None, bool, int, float, str, bytes), and tuples of values, represent
themselves.  Everything else is one of the classes below.  Heap objects are mutable host objects
(one abstract path owns its heap; the explorer re-derives a path from its decisions)."""
from . import lin

_count = [0]


class Val:
    __slots__ = ()


class LinV(Val):
    """an integer given as a linear expression over atoms"""
    __slots__ = ('t', 'c', '_h')

    def __init__(self, t, c):
        self.t = t  # tuple of (atom, coef), sorted by akey
        self.c = c
        self._h = hash((t, c))

    def __eq__(self, o):
        return type(o) is LinV and self._h == o._h and self.t == o.t and self.c == o.c

    def __hash__(self):
        return self._h

    def __repr__(self):
        s = ''.join(
            ('%+d*' % c if abs(c) != 1 else ('+' if c > 0 else '-')) + aname(a)
            for a, c in self.t)
        if self.c or not s:
            s += '%+d' % self.c
        return s.lstrip('+')


def aname(a):
    if a[0] == 'n':
        return '%s.%d' % (a[2], a[1])
    if a[0] in ('L', 'R'):
        return '#%s(%s%s)' % (a[1], '<' if a[0] == 'L' else '<=', show(a[2]))
    if a[0] == 'len':
        return 'len(%s)' % (a[1],)
    return '%s(%s)' % (a[0], ','.join(show(x) for x in a[1:]))


def akey(a):
    return _akey(a)


_akc = {}


def _akey(a):
    k = _akc.get(a)
    if k is None:
        k = _akc[a] = repr(_tok(a))
        if len(_akc) > 300000:
            _akc.clear()
    return k


def _tok(x):
    if isinstance(x, tuple):
        return tuple(_tok(y) for y in x)
    if isinstance(x, Sym):
        return 'S%06d' % x.id
    if isinstance(x, App):
        return ('A', x.fn) + tuple(_tok(y) for y in x.args)
    if isinstance(x, Elem):
        return ('E', '%06d' % x.base.id, _tok(x.pos))
    if isinstance(x, LinV):
        return ('V', tuple((_tok(a), c) for a, c in x.t), x.c)
    if isinstance(x, Base):
        return 'B%06d' % x.id
    return str(x) if not isinstance(x, int) else '%09d' % x


def mklin(d, c):
    """dict atom -> coef"""
    d = {a: k for a, k in d.items() if k}
    if not d:
        return c
    return LinV(tuple(sorted(d.items(), key=lambda ac: akey(ac[0]))), c)


def lexpr(v):
    """value -> (dict, const)"""
    if type(v) is LinV:
        return (dict(v.t), v.c)
    return ({}, int(v))


def ladd(a, b, k=1):
    if type(a) in (int, bool) and type(b) in (int, bool):
        return int(a) + k * int(b)
    e = lin.add(lexpr(a), lexpr(b), k)
    return mklin(e[0], e[1])


def lmul(a, k):
    if type(a) in (int, bool):
        return int(a) * k
    return mklin({x: c * k for x, c in a.t}, a.c * k)


class Sym(Val):
    """an opaque object; two Syms with different ids are different objects (possibly equal)"""
    __slots__ = ('id', 'name', 'kind')

    def __init__(self, id, name, kind='any'):
        self.id, self.name, self.kind = id, name, kind

    def __eq__(self, o):
        return type(o) is Sym and o.id == self.id

    def __hash__(self):
        return hash(('Sym', self.id))

    def __repr__(self):
        return self.name


HOLE = Sym(0, '_')


class App(Val):
    """a pure uninterpreted term"""
    __slots__ = ('fn', 'args', 'kind', '_h')

    def __init__(self, fn, args, kind='any'):
        self.fn, self.args, self.kind = fn, tuple(args), kind
        self._h = hash((fn, self.args))

    def __eq__(self, o):
        return type(o) is App and self._h == o._h and o.fn == self.fn and tsame(o.args, self.args)

    def __hash__(self):
        return self._h

    def __repr__(self):
        return '%s(%s)' % (self.fn, ','.join(show(a) for a in self.args))


def tsame(a, b):
    """structural sameness that tells True from 1"""
    if type(a) is not type(b):
        return False
    if type(a) is tuple:
        return len(a) == len(b) and all(tsame(x, y) for x, y in zip(a, b))
    return a is b or a == b


class Base(Val):
    """an arbitrary finite sequence of opaque elements Elem(base, 0..n-1)"""
    __slots__ = ('id', 'name', 'n', 'order', 'strict', 'distinct', 'kind', 'excl', 'note',
                 'free')

    def __init__(self, id, name, n, order=None, strict=False, distinct=False, kind='item',
                 free=False):
        self.id, self.name, self.n, self.order = id, name, n, order
        self.strict, self.distinct, self.kind = strict, distinct, kind
        self.free = free  # elements with different keys may be equal
        self.excl = ()  # symbols known to be unequal to every element
        self.note = None

    def __repr__(self):
        return self.name


class Elem(Val):
    __slots__ = ('base', 'pos')

    def __init__(self, base, pos):
        self.base, self.pos = base, pos

    def __eq__(self, o):
        return type(o) is Elem and o.base is self.base and o.pos == self.pos

    def __hash__(self):
        return hash(('Elem', self.base.id, self.pos))

    def __repr__(self):
        return '%s[%s]' % (self.base, show(self.pos))

    @property
    def kind(self):
        return self.base.kind


# ---- sequence segments
class Elt(Val):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return show(self.v)


class Run(Val):
    """tmpl[HOLE := base[p]] for p in lo, lo+step, ... below hi"""
    __slots__ = ('base', 'tmpl', 'lo', 'hi', 'step')

    def __init__(self, base, tmpl, lo, hi, step=1):
        self.base, self.tmpl, self.lo, self.hi, self.step = base, tmpl, lo, hi, step

    def __repr__(self):
        return '*%s[%s:%s%s]' % (
            '' if self.tmpl is HOLE else show(self.tmpl) + '~', show(self.lo), show(self.hi),
            '' if self.step == 1 else ':' + show(self.step)) if self.base is None else \
            '*%s%s[%s:%s%s]' % (
            '' if self.tmpl is HOLE else show(self.tmpl) + '/', self.base, show(self.lo),
            show(self.hi), '' if self.step == 1 else ':' + show(self.step))


class Obj:
    """mutable heap object"""
    static = False


class Seq(Obj):
    """list, deque (and iterated results)"""

    def __init__(self, cls, segs=(), maxlen=None):
        self.cls, self.segs, self.maxlen = cls, tuple(segs), maxlen
        self.attrs = None
        self.tag = None

    def __repr__(self):
        return '[%s]' % ', '.join(map(repr, self.segs))


class Inst(Obj):
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.tag = None

    def __repr__(self):
        if 'args' in self.attrs and is_exc_cls(self.cls):
            return '%s%s' % (self.cls.name, show(self.attrs['args']))
        return '<%s>' % self.cls.name


class DictV(Obj):
    def __init__(self, items=()):
        self.items = list(items)  # [key, value] pairs
        self.cls = None
        self.attrs = None
        self.owner = None  # (the object whose __dict__ this is)

    def __repr__(self):
        return '{%s}' % ', '.join('%s: %s' % (show(k), show(v)) for k, v in self.items)


class SetV(Obj):
    def __init__(self, vals=(), frozen=False):
        self.vals = list(vals)
        self.frozen = frozen

    def __repr__(self):
        return 'set(%r)' % (self.vals,)


class Cls(Obj):
    """an interpreted class"""

    def __init__(self, name, bases, attrs, module, node=None):
        self.name, self.bases, self.attrs, self.module, self.node = name, bases, attrs, module, node
        self.mro = None
        self.meta = None
        self.protocol = False
        self.static = False

    def __repr__(self):
        return '<class %s>' % self.name

    @property
    def qual(self):
        return '%s.%s' % (self.module.name if self.module else '?', self.name)


class BCls(Obj):
    """a builtin class"""

    def __init__(self, name, py):
        self.name, self.py = name, py
        self.attrs = {}
        self.bases = ()
        self.mro = None
        self.module = None
        self.static = True

    def __repr__(self):
        return '<class %s>' % self.name


def is_exc_cls(c):
    return any(isinstance(k, BCls) and k.py is BaseException for k in (c.mro or ()))


class Mod(Obj):
    def __init__(self, name, path=None):
        self.name, self.path = name, path
        self.vars = {}
        self.real = None
        self.static = False

    def __repr__(self):
        return '<module %s>' % self.name


class Frame(Obj):
    def __init__(self, func, parent=None, kind='function'):
        self.func = func
        self.vars = {}
        self.parent = parent
        self.kind = kind

    def __repr__(self):
        return '<frame %s>' % (self.func.name if self.func else '?')


class Func(Obj):
    def __init__(self, node, name, module, parent, defaults, kwdefaults, cls_name=None):
        self.node, self.name, self.module, self.parent = node, name, module, parent
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.cls_name = cls_name  # for private names
        self.owner = None  # class it was defined in (for super())
        self.attrs = {}
        self.static = False

    def __repr__(self):
        return '<function %s>' % self.name


class Native(Obj):
    """function implemented by the analyser; fn(I, args, kwargs)"""
    static = True

    def __init__(self, name, fn, raw=False):
        self.name, self.fn = name, fn
        self.attrs = {}

    def __repr__(self):
        return '<native %s>' % self.name


class Bound(Val):
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __eq__(self, o):
        return type(o) is Bound and o.func is self.func and o.self is self.self

    def __hash__(self):
        return hash((id(self.func), id(self.self)))

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self)


class PropV(Obj):
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class StaticM(Obj):
    def __init__(self, f):
        self.f = f


class ClassM(Obj):
    def __init__(self, f):
        self.f = f


class SuperV(Val):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SliceV(Val):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class RangeV(Val):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __repr__(self):
        return 'range(%s,%s,%s)' % (show(self.lo), show(self.hi), show(self.step))


class Iter(Obj):
    """iterator over a sequence value: kind in seq/rev/range/tuple/enum/zip/map/filter/islice/..."""

    def __init__(self, kind, src, i=0, hi=None, step=1):
        self.kind, self.src, self.i, self.hi, self.step = kind, src, i, hi, step
        self.done = False

    def __repr__(self):
        return '<iter %s %r @%s>' % (self.kind, self.src, show(self.i))


class Gen(Obj):
    def __init__(self, func, frame, g, ctx):
        self.func, self.frame, self.g, self.ctx = func, frame, g, ctx
        self.state = 'new'  # new / suspended / running / done

    def __repr__(self):
        return '<generator %s>' % self.func.name


class Partial(Obj):
    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw
        self.attrs = {}


class Ext(Val):
    """something of the standard library that is not modelled (or an intrinsic name)"""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return type(o) is Ext and o.path == self.path

    def __hash__(self):
        return hash(('Ext', self.path))

    def __repr__(self):
        return '<%s>' % self.path


class Unk(Val):
    """unknown value (result of something unmodelled)"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return '<unknown: %s>' % self.why


def show(v):
    if isinstance(v, tuple):
        return '(%s%s)' % (', '.join(show(x) for x in v), ',' if len(v) == 1 else '')
    return repr(v)


def subst(v, fn):
    """rebuild the immutable value v, replacing leaves x by fn(x) (fn returns None to descend)"""
    r = fn(v)
    if r is not None:
        return r
    if type(v) is tuple:
        return tuple(subst(x, fn) for x in v)
    if type(v) is App:
        return App(v.fn, [subst(x, fn) for x in v.args], v.kind)
    if type(v) is Elem:
        p = subst(v.pos, fn)
        return v if p is v.pos else Elem(v.base, p)
    if type(v) is LinV:
        changed = False
        e = ({}, v.c)
        for a, c in v.t:
            na = tuple(subst(x, fn) if isinstance(x, (Val, tuple)) else x for x in a)
            r = fn(na) if na == a else None
            e = lin.add(e, ({na: 1}, 0), c)
            changed |= na != a
        return mklin(e[0], e[1]) if changed else v
    return v


def inst_tmpl(tmpl, base, pos):
    if tmpl is HOLE:
        return Elem(base, pos)
    el = Elem(base, pos)
    return subst(tmpl, lambda x: el if x is HOLE or x == HOLE and type(x) is Sym else None)


def elems_in(v, out):
    t = type(v)
    if t is tuple:
        for x in v:
            elems_in(x, out)
    elif t is App:
        for x in v.args:
            elems_in(x, out)
    elif t is Elem:
        out.append(v)
    return out


def pure(v):
    """value made of symbols, terms and primitives only (no heap object)"""
    t = type(v)
    if t is tuple:
        return all(pure(x) for x in v)
    if t is App:
        return all(pure(x) for x in v.args)
    return v is None or t in (bool, int, float, str, bytes, LinV, Sym, Elem)


def template(v):
    """v -> (base, tmpl, pos) if v is a term over exactly one base element"""
    t = type(v)
    if t is Elem:
        return (v.base, HOLE, v.pos)
    if t not in (App, tuple) or not pure(v):
        return None
    es = elems_in(v, [])
    if not es:
        return None
    e0 = es[0]
    if any(e != e0 for e in es[1:]):
        return None
    return (e0.base, subst(v, lambda x: HOLE if x == e0 and type(x) is Elem else None), e0.pos)
