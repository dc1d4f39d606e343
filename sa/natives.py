"""Models of the builtin types and functions."""
import ast
import builtins as pyb
import collections
from .vals import *
from . import seqs
from .state import Cut, Undecided, Restart
from .interp import drive, PyRaise, MISSING, scope_of, inst_key, _tok_safe


def nat(name):
    def deco(f):
        f.sa_name = name
        return f
    return deco


class Natives:
    def __init__(self, prog):
        self.prog = prog
        self.meth = {}  # (python type, name) -> Native
        self.cons = {}
        b = prog.builtins = {}
        for n in dir(pyb):
            v = getattr(pyb, n)
            if isinstance(v, type) and issubclass(v, BaseException):
                b[n] = BCls(n, v)
        for n in ('object', 'type', 'int', 'float', 'str', 'bytes', 'bytearray', 'bool', 'tuple', 'list',
                  'dict', 'set', 'frozenset', 'range', 'slice', 'property', 'staticmethod',
                  'classmethod', 'super', 'complex'):
            b[n] = BCls(n, getattr(pyb, n))
        b['NoneType'] = BCls('NoneType', type(None))
        b['deque'] = BCls('deque', collections.deque)
        b['function'] = BCls('function', type(nat))
        b['builtin_function'] = BCls('builtin_function_or_method', type(len))
        b['method'] = BCls('method', type(self.setup))
        b['module'] = BCls('module', type(pyb))
        b['generator'] = BCls('generator', type((x for x in ())))
        b['iterator'] = BCls('iterator', type(iter([])))
        import functools
        b['partial'] = BCls('partial', functools.partial)
        by = {c.py: c for c in b.values()}
        for c in b.values():
            c.mro = tuple(by[k] for k in c.py.__mro__ if k in by)
            c.bases = tuple(by[k] for k in c.py.__bases__ if k in by)
        self.hidden = {'NoneType', 'deque', 'function', 'builtin_function', 'method', 'module',
                       'generator', 'iterator', 'partial'}
        self.hid = {n: b[n] for n in self.hidden}
        self.setup()
        for n in ('NotImplemented',):
            b[n] = NotImplemented
        b['Ellipsis'] = Ext('builtins.Ellipsis')
        b['__debug__'] = True

    def bi(self, n):
        return self.prog.builtins[n]

    def method(self, cls, name):
        if not isinstance(cls, BCls):
            return None
        for k in cls.mro or (cls,):
            m = self.meth.get((k.py, name))
            if m is not None:
                return m
        return None

    # ---------------------------------------------------------------- helpers on sequences
    def is_deque(self, o):
        return any(isinstance(k, BCls) and k.py is collections.deque
                   for k in (o.cls.mro or (o.cls,)))

    def new_list(self, segs=()):
        return Seq(self.bi('list'), segs)

    def raw_append(self, I, s, v, left=False):
        I.touch_seq(s, 'w', 'append')
        st = I.st
        if s.maxlen is not None:
            n = seqs.length(st, s.segs)
            if st.ieq(s.maxlen, 0):
                return
            if not st.lt(n, s.maxlen):
                s_segs = I.nonempty_runs(s.segs)
                if left:
                    a, _ = seqs.split(st, s_segs, ladd(n, -1))
                    I.set_segs(s, (Elt(v),) + a)
                else:
                    _, b = seqs.split(st, s_segs, 1)
                    I.set_segs(s, b + (Elt(v),))
                return
        I.set_segs(s, (Elt(v),) + s.segs if left else s.segs + (Elt(v),))

    def trim(self, I, s):
        """after extension: keep the last maxlen elements"""
        st = I.st
        if s.maxlen is None:
            return
        n = seqs.length(st, s.segs)
        if st.le(n, s.maxlen):
            return
        segs = I.nonempty_runs(s.segs)
        _, b = seqs.split(st, segs, ladd(n, s.maxlen, -1))
        I.set_segs(s, b)

    def seq_extend(self, I, s, v, left=False):
        I.touch_seq(s, 'w', 'extend')
        if v is s:
            segs = s.segs
        else:
            it = None
            if type(v) not in (tuple, Seq, DictV):
                it = I.iter(v)
                r = self.drain(I, it) if type(it) is Iter else None
                if r is None:
                    self.extend_by_iteration(I, s, it, left)
                    return
                segs = r
            else:
                segs = I.segs_of(v)
        if left:
            segs = I.reverse_segs(segs)
            I.set_segs(s, segs + s.segs)
            if s.maxlen is not None:
                raise Undecided('extendleft of a bounded deque')
        else:
            I.set_segs(s, s.segs + segs)
            self.trim(I, s)

    # ---------------------------------------------------------------- summaries of plain maps
    def source_segs(self, I, it):
        """the values of an iterator as segments, when that needs no iteration; else None"""
        if type(it) is Iter:
            if it.kind in ('seq', 'window', 'rev'):
                i, d = it.i, it.done
                r = self.drain(I, it)
                if r is None:
                    it.i, it.done = i, d
                return r
            if it.kind == 'map' and len(it.src[1]) == 1 and not it.done:
                f = it.src[0]
                return self.map_segs(I, ('map', id(it.src[1][0].src) if type(it.src[1][0]) is Iter
                                         else 0), it.src[1][0], lambda v: I.call(f, [v]), it)
            return None
        if type(it) is Gen and it.state == 'new' and getattr(it, 'comp', None) is not None:
            n, f, it0 = it.comp
            r = self.map_segs(I, n, it0, lambda v: I.comp_value(n, f, v), it)
            return r
        return None

    def map_segs(self, I, node, it, fn, done=None):
        """segments of fn(v) for the values v of iterator it, by one evaluation on an arbitrary
        element of each run; None when that is not possible"""
        ex = self.prog.explorer
        key = id(node) if isinstance(node, ast.AST) else node
        if ex is None or self.prog.loading or key in ex.nomap:
            return None
        # look before consuming anything
        top = it
        while type(top) is Gen and getattr(top, 'comp', None) is not None:
            top = top.comp[2]
        while type(top) is Iter and top.kind == 'map' and len(top.src[1]) == 1:
            top = top.src[1][0]
        if type(top) is not Iter or top.kind not in ('seq', 'window', 'rev') or top.done:
            return None
        if not any(type(s) is Run and type(seqs.run_len(I.st, s)) is LinV for s in top.src.segs):
            return None
        segs = self.source_segs(I, it)
        if segs is None:
            return None
        if not any(type(s) is Run for s in segs):
            # nothing to summarise (any more)
            if type(it) is Iter:
                it.kind, it.src, it.i, it.done = 'seq', I.new_list_seq(segs), 0, False
                it.hi, it.step = None, 1
                return None
        st = I.st
        if self.prog.monitors:
            segs = tuple(s for s in segs if type(s) is Elt or not seqs.empty(st, s))
        ex.note('mapped')
        nested = st.spec is not None
        if not nested:
            st.spec = key
            before = ex.fingerprint(I)
        keep = (list(st.cons), set(st.conset), dict(st.facts), set(st.keyring),
                {k: list(v) for k, v in st.order_atoms.items()})
        out = []
        try:
            for s in segs:
                if type(s) is Elt:
                    v = fn(s.v)
                    if v is not MISSING:
                        out.append(Elt(v))
                    continue
                p = st.int('i')
                st.assume_ge(ladd(p, s.lo, -1))
                st.assume_ge(ladd(ladd(s.hi, p, -1), -1))
                v = fn(inst_tmpl(s.tmpl, s.base, p))
                if v is MISSING:
                    continue
                t = template(v)
                if t is None or t[0] is not s.base or not st.entails_eq(t[2], p):
                    raise Restart(key)
                out.append(Run(s.base, t[1], s.lo, s.hi, s.step))
        except PyRaise:
            raise Restart(key)
        st.cons, st.conset, st.facts, st.keyring, st.order_atoms = keep
        if not nested:
            st.spec = None
            if ex.fingerprint(I) != before:
                raise Restart(key)
        if done is not None:
            if type(done) is Gen:
                done.state = 'done'
            else:
                done.done = True
        return tuple(out)

    def undelegate(self, I, it):
        """the iterator that a generator not yet begun only passes on"""
        while type(it) is Gen and it.state == 'new' and getattr(it, 'comp', None) is None and \
                isinstance(it.func.node, ast.FunctionDef):
            body = [s for s in it.func.node.body if not (
                isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if len(body) != 1:
                break
            s = body[0]
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom):
                e = s.value.value
            elif isinstance(s, ast.For) and isinstance(s.target, ast.Name) and not s.orelse and \
                    len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and \
                    isinstance(s.body[0].value, ast.Yield) and \
                    isinstance(s.body[0].value.value, ast.Name) and \
                    s.body[0].value.value.id == s.target.id:
                e = s.iter
            else:
                break
            it.state = 'done'
            ctx = I.st.ctxs[-1]
            m = len(ctx)
            ctx.append(it.frame)
            it = I.iter(drive(I.ev(e, it.frame)))
            del ctx[m:]
        return it

    def extend_by_iteration(self, I, acc, it, left=False):
        it = self.undelegate(I, it)
        if not left:
            segs = self.source_segs(I, it)
            if segs is not None:
                I.set_segs(acc, acc.segs + segs)
                self.trim(I, acc)
                return
        ctx = I.st.ctxs[-1]
        ctx.append('drain')
        ctx.append(('tmp', it))
        ctx.append(('tmp', acc))
        m = len(ctx)
        while True:
            r = I.remaining(it)
            if r is None or r > 64:
                self.prog.explorer.loop_head(I, 'drain')
            v = I.next(it)
            if v is MISSING:
                break
            self.raw_append(I, acc, v, left)
        del ctx[m - 3:]

    # ---------------------------------------------------------------- iterators
    def iter_next(self, I, it):
        st = I.st
        k = it.kind
        if it.done:
            return MISSING
        if k == 'seq':
            s = it.src
            I.touch_seq(s, 'r', 'iterate')
            n = seqs.length(st, s.segs)
            if not st.lt(it.i, n):
                it.done = True
                return MISSING
            v = seqs.get(st, I.nonempty_runs(s.segs), it.i)
            it.i = ladd(it.i, 1)
            return v
        if k == 'window':
            s = it.src
            I.touch_seq(s, 'r', 'iterate')
            n = seqs.length(st, s.segs)
            hi = n if it.hi is None else it.hi
            if type(it.step) is LinV or seqs.stepos(it.i):
                hi = n if st.le(n, hi) else hi
                ok = seqs.pos_lt(st, it.i, hi, it.step)
            else:
                ok = st.lt(it.i, n) and st.lt(it.i, hi)
            if not ok:
                it.done = True
                return MISSING
            v = seqs.get(st, I.nonempty_runs(s.segs), it.i)
            it.i = seqs.advance(st, it.i, it.step, hi)
            return v
        if k == 'rev':
            s = it.src
            I.touch_seq(s, 'r', 'iterate')
            if not st.le(0, it.i):
                it.done = True
                return MISSING
            v = seqs.get(st, I.nonempty_runs(s.segs), it.i)
            it.i = ladd(it.i, -1)
            return v
        if k == 'range':
            r = it.src
            if type(r.step) is LinV or r.step > 0:
                ok = seqs.pos_lt(st, it.i, r.hi, r.step)
            else:
                ok = st.lt(r.hi, it.i)
            if not ok:
                it.done = True
                return MISSING
            v = it.i
            it.i = seqs.advance(st, it.i, r.step, r.hi)
            return v
        if k == 'enum':
            v = I.next(it.src)
            if v is MISSING:
                it.done = True
                return MISSING
            i = it.i
            it.i = ladd(it.i, 1)
            return (i, v)
        if k == 'zip':
            out = []
            for s in it.src:
                v = I.next(s)
                if v is MISSING:
                    it.done = True
                    return MISSING
                out.append(v)
            return tuple(out)
        if k == 'map':
            f, its = it.src
            out = []
            for s in its:
                v = I.next(s)
                if v is MISSING:
                    it.done = True
                    return MISSING
                out.append(v)
            return I.call(f, out)
        if k == 'filter':
            f, s = it.src
            ctx = st.ctxs[-1]
            while True:
                v = I.next(s)
                if v is MISSING:
                    it.done = True
                    return MISSING
                ok = I.truth(v if f is None else I.call(f, [v]))
                if ok == (it.step == 1):
                    return v
                ctx.append('filter')
                ctx.append(('tmp', it))
                r = I.remaining(s)
                if r is None or r > 64:
                    self.prog.explorer.loop_head(I, 'filter')
                del ctx[-2:]
        if k == 'calliter':
            f, sentinel = it.src
            v = I.call(f, [])
            if I.eq(v, sentinel):
                it.done = True
                return MISSING
            return v
        if k == 'getitem':
            try:
                v = I.getitem(it.src, it.i)
            except PyRaise as e:
                if I.isinstance(e.exc, I.bcls('IndexError')):
                    it.done = True
                    return MISSING
                raise
            it.i = ladd(it.i, 1)
            return v
        if k == 'unk':
            if st.choose(2) == 0:
                it.done = True
                return MISSING
            return Unk('element')
        raise Undecided('iterator %s' % k)

    def iter_remaining(self, I, it):
        k = it.kind
        st = I.st
        if it.done:
            return 0
        if k == 'seq':
            n = 0
            for s in it.src.segs:
                n = ladd(n, 1 if type(s) is Elt else seqs.run_len(st, s))
            d = ladd(n, it.i, -1)
            return d if type(d) is int else None
        if k == 'rev':
            return it.i + 1 if type(it.i) is int else None
        if k == 'range':
            d = ladd(it.src.hi, it.i, -1)
            return abs(d) if type(d) is int else None
        if k == 'enum':
            return I.remaining(it.src)
        if k == 'zip':
            rs = [I.remaining(s) for s in it.src]
            rs = [r for r in rs if r is not None]
            return min(rs) if rs else None
        if k == 'map':
            rs = [I.remaining(s) for s in it.src[1]]
            rs = [r for r in rs if r is not None]
            return min(rs) if rs else None
        return None

    def drain(self, I, it):
        """remaining values of a plain iterator as segments (None: must be iterated)"""
        st = I.st
        k = it.kind
        if it.done:
            return ()
        if k == 'seq':
            I.touch_seq(it.src, 'r', 'iterate')
            if type(it.i) is int and it.i == 0:
                r = it.src.segs
            else:
                n = seqs.length(st, it.src.segs)
                r = seqs.sub(st, it.src.segs, it.i, n)
            it.done = True
            return r
        if k == 'window':
            I.touch_seq(it.src, 'r', 'iterate')
            segs = it.src.segs
            n = seqs.length(st, segs)
            hi = n if it.hi is None or st.le(n, it.hi) else it.hi
            it.done = True
            if not st.lt(it.i, hi):
                return ()
            return seqs.stepped(st, seqs.sub(st, segs, it.i, hi), it.step)
        if k == 'rev':
            n = seqs.length(st, it.src.segs)
            if st.entails_eq(ladd(it.i, 1), n):
                I.touch_seq(it.src, 'r', 'iterate')
                it.done = True
                return I.reverse_segs(it.src.segs)
        return None

    def find_in(self, I, segs, x):
        """index of the first value equal to x in these segments; None: not there"""
        st = I.st
        off = 0
        for s in segs:
            if type(s) is Elt:
                if I.is_(x, s.v) or I.eq(s.v, x):
                    return off
                off = ladd(off, 1)
                continue
            ln = seqs.run_len(st, s)
            if st.le(ln, 0):
                continue
            b = s.base
            if s.step == 1 and s.tmpl is b.order and type(s.tmpl) is not Sym and (
                    I.is_keyterm(x)):
                L, R = st.LR('L', b, x), st.LR('R', b, x)
                p = L if st.le(s.lo, L) else s.lo
                if st.lt(p, R) and st.lt(p, s.hi):
                    return ladd(off, ladd(p, s.lo, -1))
            elif s.step == 1 and s.tmpl is HOLE and b.kind == 'item' and pure(x) and \
                    b.order is not HOLE:
                if type(x) in (Sym, App, Elem) and x.kind not in ('object',) and \
                        not any(tsame(x, z) for z in b.excl):
                    p = self.first_from(I, b, x, s.lo)
                    if p is not None and st.lt(p, s.hi):
                        return ladd(off, ladd(p, s.lo, -1))
            else:
                i = self.find_by_loop(I, Seq(I.bcls('list'), (s,)), x)
                if i is not None:
                    return ladd(off, i)
            off = ladd(off, ln)
        return None

    def first_from(self, I, b, x, lo):
        """position of the first element equal to x at or after lo; None: there is none"""
        st = I.st
        if type(x) is Elem and x.base is b and b.distinct:
            return x.pos if st.le(lo, x.pos) else None
        if type(x) is Elem and x.base is b and st.entails_eq(x.pos, lo):
            return lo
        F = I.first_eq(b, x)
        if st.le(lo, F):
            return F if st.lt(F, b.n) else None
        if b.distinct:
            return None
        memo = ('next', b, x, lo)
        p = st.facts.get(memo, MISSING)
        if p is not MISSING:
            return p
        if type(x) is Elem and x.base is b and st.le(lo, x.pos):
            p = st.int('next', lo)
            st.assume_ge(ladd(x.pos, p, -1))
        elif st.choose(2, ('%s occurs again' % show(x), '%s does not occur again' % show(x))):
            st.facts[memo] = None
            return None
        else:
            p = st.int('next', lo)
            st.assume_ge(ladd(ladd(b.n, p, -1), -1))
            k = inst_key(b, x)
            if b.order is not None and k is not None and not b.free:
                st.assume_ge(ladd(ladd(st.LR('R', b, k), p, -1), -1))
        st.facts[memo] = p
        e = Elem(b, p)
        ka, kb = sorted((e, x), key=lambda v: repr(_tok_safe(v)))
        st.facts[('eq', ka, kb)] = True
        return p

    def find_by_loop(self, I, c, x):
        it = I.iter(c)
        st = I.st
        cell = [0]
        ctx = st.ctxs[-1]
        ctx.append('search')
        ctx.append(('tmp', it))
        ctx.append(('tmp', x))
        ctx.append(('cell', cell))
        m = len(ctx)
        try:
            while True:
                r = I.remaining(it)
                if r is None or r > 64:
                    self.prog.explorer.loop_head(I, 'search')
                v = I.next(it)
                if v is MISSING:
                    return None
                if I.is_(x, v) or I.eq(v, x):
                    return cell[0]
                cell[0] = ladd(cell[0], 1)
        finally:
            del ctx[m - 4:]

    def search(self, I, c, x):
        """x in c, by iteration"""
        it = I.iter(c)
        if type(it) is Iter and it.kind in ('seq', 'window') and not it.done:
            fresh = type(c) is Seq
            if fresh:
                segs = self.drain(I, it)
                return self.find_in(I, segs, x) is not None
            lo = it.i
            segs = self.drain(I, it)
            i = self.find_in(I, segs, x)
            if i is not None:
                it.done = False
                it.i = ladd(lo, lmul(ladd(i, 1), it.step if it.step is not None else 1)) \
                    if type(it.step) is not LinV else seqs.advance(
                        st, seqs.mulpos(st, Run(None, HOLE, lo, it.hi, it.step), i), it.step)
            return i is not None
        return self.find_by_loop(I, it, x) is not None

    def seq_index(self, I, s, x, lo=0, hi=None):
        """list.index / deque.index"""
        st = I.st
        n = seqs.length(st, s.segs)
        lo, hi = I.clamp(lo, n, 0), I.clamp(hi, n, n)
        I.touch_seq(s, 'r', 'index')
        i = None
        if st.lt(lo, hi):
            i = self.find_in(I, seqs.sub(st, s.segs, lo, hi), x)
        if i is None:
            I.raise_py('ValueError', '%s is not in list' % show(x))
        return ladd(lo, i)

    def count_in(self, I, segs, x):
        st = I.st
        n = 0
        for s in segs:
            if type(s) is Elt:
                if I.is_(x, s.v) or I.eq(s.v, x):
                    n = ladd(n, 1)
                continue
            i = self.find_in(I, (s,), x)
            if i is None:
                continue
            b = s.base
            if b.distinct and s.tmpl is HOLE:
                n = ladd(n, 1)
                continue
            ln = seqs.run_len(st, s)
            if b.order is not None and s.tmpl == b.order and s.step == 1 and I.is_keyterm(x):
                R = st.LR('R', b, x)
                top = R if st.le(R, s.hi) else s.hi
                n = ladd(n, ladd(ladd(top, s.lo, -1), i, -1))
                continue
            c = st.int('count', 1)
            st.assume_ge(ladd(ladd(ln, i, -1), c, -1))
            n = ladd(n, c)
        return n

    # ---------------------------------------------------------------- opaque values
    def opaque_attr(self, I, o, name):
        if o.kind in ('str', 'bytes'):
            if not hasattr({'str': '', 'bytes': b''}[o.kind], name):
                I.raise_py('AttributeError', "'%s' object has no attribute '%s'" % (o.kind, name))
        if name == '__class__':
            return I.type_of(o)
        if name in ('__name__', '__qualname__', '__doc__', '__module__') and o.kind == 'callable':
            return App('attr:' + name, (o,), 'str')
        if name == '__dict__' and o.kind == 'callable':
            return DictV()
        if o.kind == 'num' and name not in ('real', 'imag', 'is_integer', 'bit_length', 'numerator'):
            I.raise_py('AttributeError', "number has no attribute '%s'" % name)
        return App('attr:' + name, (o,), 'attr')

    def opaque_call(self, I, f, args, kw):
        if type(f) is App and f.fn.startswith('attr:'):
            name = f.fn[5:]
            o = f.args[0]
            I.event('user_call', f, tuple(args), tuple(kw.items()))
            if all(pure(a) for a in args) and all(pure(a) for a in kw.values()):
                if name in ('encode', 'decode'):
                    return codec(name, o, args, kw)
                kind = {'encode': 'bytes', 'decode': 'str', 'upper': 'str', 'lower': 'str',
                        'strip': 'str'}.get(name, 'any')
                return App('call:' + name, (o,) + tuple(args) + tuple(
                    x for kv in sorted(kw.items()) for x in kv), kind)
            return I.st.sym('result', 'any')
        if f.kind in ('callable', 'any', 'item', 'attr'):
            I.event('user_call', f, tuple(args), tuple(kw.items()))
            if all(pure(a) for a in args) and all(pure(a) for a in kw.values()) and pure(f):
                return App('call', (f,) + tuple(args) + tuple(
                    x for kv in sorted(kw.items()) for x in kv), 'any')
            return I.st.sym('result', 'any')
        I.raise_py('TypeError', "'%s' object is not callable" % I.type_of(f).name)

    def to_str(self, I, v, how='str'):
        t = type(v)
        if t in (str, int, float, bool, type(None), bytes):
            return repr(v) if how == 'repr' else str(v)
        if t in (Sym, App, Elem) and v.kind == 'str' and how == 'str':
            return v
        if t is Inst:
            m = I.class_lookup(v.cls, '__repr__' if how == 'repr' else '__str__')
            if m is MISSING or type(m) is Native:
                m = I.class_lookup(v.cls, '__repr__')
            if type(m) is Func:
                return I.call(m, [v])
            if is_exc_cls(v.cls):
                a = v.attrs.get('args', ())
                return self.to_str(I, a[0]) if len(a) == 1 else App('str', (), 'str')
        if pure(v):
            return App(how, (v,), 'str')
        if isinstance(v, Obj):
            return App('%s-obj' % how, (I.prog.obj_token(I, v),), 'str')
        return I.st.sym('str', 'str')

    # ---------------------------------------------------------------- construction
    def raw_new(self, I, c, args, kw):
        """the instance that object.__new__ of the builtin ancestor gives for class c"""
        for k in I.mro(c):
            if isinstance(k, BCls):
                if k.py in (list, collections.deque):
                    s = Seq(c)
                    s.attrs = {}
                    return s
                if k.py is dict:
                    d = DictV()
                    d.cls = c
                    d.attrs = {}
                    return d
                if issubclass(k.py, BaseException):
                    e = Inst(c)
                    e.attrs['args'] = tuple(args)
                    return e
                if k.py in (int, str, float, tuple, set, bytes):
                    raise Undecided('subclass of %s' % k.name)
                break
        return Inst(c)

    def construct(self, I, c, args, kw):
        f = self.cons.get(c.py)
        if f is not None:
            return f(I, args, kw)
        if issubclass(c.py, BaseException):
            return I.mkexc(c, *args)
        raise Undecided('construction of %s' % c.name)

    def sorted_segs(self, I, segs, key, reverse, what='sorted'):
        """stable sort"""
        st = I.st
        segs = I.nonempty_runs(seqs.norm(st, segs))
        segs = tuple(s for s in segs if type(s) is Elt or not seqs.empty(st, s)) \
            if len(segs) > 1 else segs
        kf = (lambda v: v) if key is None else (lambda v: I.call(key, [v]))
        if not any(type(s) is Run for s in segs) and not reverse:
            # insertion by comparisons
            out = []
            for s in segs:
                k = kf(s.v)
                j = len(out)
                while j > 0 and I.lt(k, out[j - 1][0]):
                    j -= 1
                out.insert(j, (k, s))
            return tuple(s for _, s in out)
        if len(segs) == 1 and type(segs[0]) is Run and segs[0].step == 1:
            s = segs[0]
            if seqs.empty(st, s):
                return ()
            # the key of an arbitrary element
            p = st.int('i')
            st.assume_ge(ladd(p, s.lo, -1))
            st.assume_ge(ladd(ladd(s.hi, p, -1), -1))
            nch = len(st.oracle.taken)
            k = kf(inst_tmpl(s.tmpl, s.base, p))
            t = template(k)
            if t is not None and t[0] is s.base and st.entails_eq(t[2], p):
                if not reverse and s.base.order is not None and t[1] == s.base.order:
                    return segs
                if not reverse and type(t[1]) is tuple and s.base.order is not None and \
                        t[1][0] == s.base.order and s.base.strict:
                    return segs
                order = t[1]
                tie = False
                if type(order) is tuple and order:
                    order = order[0]
                    tie = True
                n = ladd(s.hi, s.lo, -1)
                note = ('perm', s.base, s.lo, s.hi, order, 'tie' if tie else None, reverse)
                if st.le(n, 1):
                    return segs
                # (the same items sorted by the same keys: the same sequence)
                for b in st.bases:
                    if type(b.note) is tuple and b.note[:2] == note[:2] and b.note[4:] == note[4:] \
                            and st.entails_eq(b.n, n) and st.entails_eq(b.note[2], s.lo):
                        return (Run(b, s.tmpl, 0, n),)
                b = st.base('sorted(%s)' % s.base.name, n, order=None if reverse else order,
                            distinct=s.base.distinct, kind=s.base.kind,
                            free=s.base.free)
                b.excl = s.base.excl
                b.note = note
                if tie and what == 'sorted':
                    # equal first components: the others are compared (they may not be comparable)
                    I.event('tie_compare')
                return (Run(b, s.tmpl, 0, n),)
            st.taint('sort key of an element')
        else:
            if not reverse:
                if seqs.known_sorted(I, segs, kf):
                    return segs
        st.taint('sorting a composite sequence')
        n = seqs.length(st, segs)
        b = st.base('sorted', n)
        return (Run(b, HOLE, 0, n),)

    def dict_update(self, I, d, o):
        if type(o) is DictV:
            for k, v in list(o.items):
                I.dict_set(d, k, v)
        elif type(o) is Inst and I.class_lookup(o.cls, 'keys') is not MISSING:
            for k in I.concrete(I.call(I.getattr(o, 'keys'))):
                I.dict_set(d, k, I.getitem(o, k))
        elif type(o) in (Unk, Ext, Sym, App, Elem):
            I.st.taint('dict update with %s' % show(o))
        else:
            for kv in I.concrete(o):
                k, v = I.concrete(kv)
                I.dict_set(d, k, v)

    def folded(self, a, o, name):
        """method of a concrete primitive, on concrete arguments"""
        def fn(I, args, kw):
            conc = (int, float, str, bytes, bool, type(None), complex)

            def prim(v):
                if type(v) in conc:
                    return v
                if type(v) is tuple:
                    return tuple(prim(x) for x in v)
                if type(v) is Seq and all(type(s) is Elt for s in v.segs):
                    return [prim(s.v) for s in v.segs]
                raise KeyError
            try:
                pa = [prim(x) for x in args]
                pk = {k: prim(v) for k, v in kw.items()}
            except KeyError:
                if name == 'join' and len(args) == 1:
                    vals = I.segs_of(args[0])
                    if all(type(s) is Elt and pure(s.v) for s in vals):
                        return App('join', (o,) + tuple(s.v for s in vals), 'str')
                    return I.st.sym('joined', 'str')
                if name == 'format' and o in ('{}', '{!s}', '{0}') and len(args) == 1:
                    return self.to_str(I, args[0])
                if all(pure(x) for x in args):
                    return App('call:' + name, (o,) + tuple(args), 'str' if type(o) is str else 'any')
                return I.st.sym(name, 'str')
            try:
                r = a(*pa, **pk)
            except Exception as e:
                I.raise_py(type(e).__name__, str(e))
            return lift(I, r)
        return fn

    # ---------------------------------------------------------------- tables
    def setup(self):
        b = self.prog.builtins

        def fn(name):
            def deco(f):
                b[name] = Native(name, f)
                return f
            return deco

        def me(py, *names):
            def deco(f):
                for n in names:
                    self.meth[(py, n)] = Native('%s.%s' % (py.__name__, n), f)
                return f
            return deco

        def ctor(py):
            def deco(f):
                self.cons[py] = f
                return f
            return deco
        L, D = list, collections.deque

        # --- object
        @me(object, '__init__')
        def _(I, a, k):
            return None

        @me(object, '__new__')
        def _(I, a, k):
            return self.raw_new(I, a[0], a[1:], k)

        @me(object, '__setattr__')
        def _(I, a, k):
            I.raw_setattr(a[0], a[1], a[2])

        @me(object, '__getattribute__')
        def _(I, a, k):
            return I.getattr(a[0], a[1])

        @me(object, '__delattr__')
        def _(I, a, k):
            I.delattr(a[0], a[1])

        @me(object, '__repr__', '__str__')
        def _(I, a, k):
            return self.to_str(I, a[0], 'repr') if type(a[0]) is not Inst else \
                App('repr-obj', (I.prog.obj_token(I, a[0]),), 'str')

        @me(object, '__hash__')
        def _(I, a, k):
            return App('hash', (I.prog.obj_token(I, a[0]),), 'num')

        @me(object, '__init_subclass__')
        def _(I, a, k):
            return None

        @ctor(object)
        def _(I, a, k):
            return Inst(b['object'])

        # --- exceptions
        @me(BaseException, '__init__')
        def _(I, a, k):
            a[0].attrs['args'] = tuple(a[1:])

        @me(BaseException, 'with_traceback', 'add_note')
        def _(I, a, k):
            return a[0]

        @me(BaseException, '__str__')
        def _(I, a, k):
            return self.to_str(I, a[0])

        # --- type
        @ctor(type)
        def _(I, a, k):
            if len(a) == 1:
                return I.type_of(a[0])
            name, bases, d = a
            attrs = {kk: v for kk, v in d.items}
            return I.mkclass(name, list(bases), attrs, I.stack[-1][0].module if I.stack else None,
                             None, k)

        @me(type, '__call__')
        def _(I, a, k):
            return I.instantiate2(a[0], a[1:], k) if isinstance(a[0], Cls) else I.call(a[0], a[1:], k)

        @me(type, 'mro')
        def _(I, a, k):
            return self.new_list([Elt(x) for x in I.mro(a[0])])

        @fn('isinstance')
        def _(I, a, k):
            return I.isinstance(a[0], a[1])

        @fn('issubclass')
        def _(I, a, k):
            cs = a[1] if isinstance(a[1], tuple) else (a[1],)
            if not isinstance(a[0], (Cls, BCls)):
                I.raise_py('TypeError', 'issubclass() arg 1 must be a class')
            return any(isinstance(c, (Cls, BCls)) and I.is_sub(a[0], c) for c in cs)

        @fn('callable')
        def _(I, a, k):
            v = a[0]
            if isinstance(v, (Func, Native, Bound, Cls, BCls, Partial)):
                return True
            if type(v) in (Inst, Seq, DictV):
                return I.class_lookup(I.type_of(v), '__call__') is not MISSING
            if type(v) in (Sym, App, Elem):
                if v.kind in ('callable', 'attr'):
                    return True
                if v.kind in ('any', 'item'):
                    return I.st.fact(('callable', v))
                return False
            if type(v) in (Unk, Ext):
                return True
            return False

        @fn('len')
        def _(I, a, k):
            return I.len_of(a[0])

        @fn('iter')
        def _(I, a, k):
            if len(a) == 2:
                return Iter('calliter', (a[0], a[1]))
            return I.iter(a[0])

        @fn('next')
        def _(I, a, k):
            it = a[0]
            if type(it) is Inst:
                m = I.class_lookup(it.cls, '__next__')
                if m is MISSING:
                    I.raise_py('TypeError', "'%s' object is not an iterator" % it.cls.name)
                if len(a) == 1:
                    return I.call(m, [it])
            v = I.next(it)
            if v is MISSING:
                if len(a) > 1:
                    return a[1]
                e = getattr(I, 'last_stop', None) if type(it) in (Gen, Inst) else None
                raise PyRaise(e or I.mkexc('StopIteration'))
            return v

        @fn('getattr')
        def _(I, a, k):
            if type(a[1]) in (Inst, Func, Cls, Bound, int, Seq, type(None)):
                I.raise_py('TypeError', 'attribute name must be string')
            if type(a[1]) is not str:
                I.st.taint('getattr with computed name')
                return Unk('getattr')
            return I.getattr(a[0], a[1], *([a[2]] if len(a) > 2 else []))

        @fn('hasattr')
        def _(I, a, k):
            try:
                I.getattr(a[0], a[1])
                return True
            except PyRaise as e:
                if I.isinstance(e.exc, I.bcls('AttributeError')):
                    return False
                raise

        @fn('setattr')
        def _(I, a, k):
            I.setattr(a[0], a[1], a[2])

        @fn('delattr')
        def _(I, a, k):
            I.delattr(a[0], a[1])

        @fn('vars')
        def _(I, a, k):
            return I.getattr(a[0], '__dict__')

        @fn('dir')
        def _(I, a, k):
            return self.new_list()

        @fn('print')
        def _(I, a, k):
            I.event('print', tuple(a))

        @fn('input')
        def _(I, a, k):
            return I.st.sym('input', 'str')

        @fn('repr')
        def _(I, a, k):
            return self.to_str(I, a[0], 'repr')

        @fn('format')
        def _(I, a, k):
            return self.to_str(I, a[0])

        @fn('hash')
        def _(I, a, k):
            return App('hash', (a[0],), 'num') if pure(a[0]) else I.st.sym('hash', 'num')

        @fn('id')
        def _(I, a, k):
            return App('id', (a[0] if pure(a[0]) else I.prog.obj_token(I, a[0]),), 'num')

        @fn('abs')
        def _(I, a, k):
            v = a[0]
            if type(v) in (int, float, bool):
                return abs(v)
            if type(v) is LinV:
                return v if I.st.decide_ge(v) else lmul(v, -1)
            return App('abs', (v,), 'num')

        @fn('round')
        def _(I, a, k):
            if all(type(x) in (int, float) for x in a):
                return round(*a)
            return App('round', tuple(a), 'num')

        @fn('divmod')
        def _(I, a, k):
            import ast
            return (I.binop(ast.FloorDiv(), a[0], a[1]), I.binop(ast.Mod(), a[0], a[1]))

        @fn('pow')
        def _(I, a, k):
            import ast
            return I.binop(ast.Pow(), a[0], a[1])

        @fn('globals')
        def _(I, a, k):
            m = I.stack[-1][0].module
            return DictV([[x, y] for x, y in m.vars.items()])

        @fn('open')
        def _(I, a, k):
            return self.prog.open_file(I, a, k)

        def minmax(less):
            def f(I, a, k):
                vals = I.concrete(a[0]) if len(a) == 1 else list(a)
                key = k.get('key')
                if not vals:
                    if 'default' in k:
                        return k['default']
                    I.raise_py('ValueError', 'arg is an empty sequence')
                kf = (lambda v: v) if key is None else (lambda v: I.call(key, [v]))
                best, bk = vals[0], kf(vals[0])
                for v in vals[1:]:
                    kv = kf(v)
                    if (I.lt(kv, bk) if less else I.lt(bk, kv)):
                        best, bk = v, kv
                return best
            return f
        b['min'] = Native('min', minmax(True))
        b['max'] = Native('max', minmax(False))

        def loop(I, it, tag, step, extra=()):
            """run step(v) for each value of it; stops when step returns something"""
            ctx = I.st.ctxs[-1]
            m0 = len(ctx)
            ctx.append(tag)
            ctx.append(('tmp', it))
            cell = list(extra)
            ctx.append(('cell', cell))
            try:
                while True:
                    r = I.remaining(it)
                    if r is None or r > 64:
                        self.prog.explorer.loop_head(I, tag)
                    v = I.next(it)
                    if v is MISSING:
                        return MISSING, cell
                    r = step(v, cell)
                    if r is not None:
                        return r[0], cell
            finally:
                del ctx[m0:]

        @fn('sum')
        def _(I, a, k):
            import ast
            start = a[1] if len(a) > 1 else k.get('start', 0)
            it = I.iter(a[0])

            def step(v, cell):
                cell[0] = I.binop(ast.Add(), cell[0], v)
            _, cell = loop(I, it, 'sum', step, [start])
            return cell[0]

        @fn('any')
        def _(I, a, k):
            r, _ = loop(I, I.iter(a[0]), 'any', lambda v, c: (True,) if I.truth(v) else None)
            return r is not MISSING

        @fn('all')
        def _(I, a, k):
            r, _ = loop(I, I.iter(a[0]), 'all', lambda v, c: None if I.truth(v) else (False,))
            return r is MISSING

        @fn('sorted')
        def _(I, a, k):
            segs = I.segs_of(a[0])
            return self.new_list(self.sorted_segs(I, segs, k.get('key'),
                                                  I.truth(k.get('reverse', False))))

        @fn('reversed')
        def _(I, a, k):
            v = a[0]
            if type(v) is Seq and type(v.cls) is BCls:
                return Iter('rev', v, ladd(seqs.length(I.st, v.segs), -1))
            if type(v) is tuple:
                s = self.new_list(tuple(Elt(x) for x in v))
                return Iter('rev', s, len(v) - 1)
            if type(v) is RangeV and all(type(x) is int for x in (v.lo, v.hi, v.step)):
                r = range(v.lo, v.hi, v.step)[::-1]
                return Iter('range', RangeV(r.start, r.stop, r.step), r.start)
            if type(v) is RangeV and v.step == 1:
                return Iter('range', RangeV(ladd(v.hi, -1), ladd(v.lo, -1), -1), ladd(v.hi, -1))
            if type(v) in (Inst, Seq):
                m = I.class_lookup(I.type_of(v), '__reversed__')
                if m is not MISSING:
                    return I.call(m, [v])
            if type(v) is DictV:
                s = self.new_list(tuple(Elt(x) for x, _ in reversed(v.items)))
                return I.iter(s)
            raise Undecided('reversed of %r' % (v,))

        @fn('enumerate')
        def _(I, a, k):
            return Iter('enum', I.iter(a[0]), a[1] if len(a) > 1 else k.get('start', 0))

        @fn('zip')
        def _(I, a, k):
            return Iter('zip', tuple(I.iter(x) for x in a))

        @fn('map')
        def _(I, a, k):
            return Iter('map', (a[0], tuple(I.iter(x) for x in a[1:])))

        @fn('filter')
        def _(I, a, k):
            return Iter('filter', (a[0], I.iter(a[1])))

        @me(type(iter([])), '__next__')
        def _(I, a, k):
            v = I.next(a[0])
            if v is MISSING:
                I.raise_py('StopIteration')
            return v

        @me(type(iter([])), '__iter__')
        def _(I, a, k):
            return a[0]

        # --- generators
        G = type((x for x in ()))

        @me(G, '__next__', 'send')
        def _(I, a, k):
            kk, v = I.gen_resume(a[0], send=a[1] if len(a) > 1 else None)
            if kk == 'return':
                raise PyRaise(I.mkexc('StopIteration', *(() if v is None else (v,))))
            return v

        @me(G, 'throw')
        def _(I, a, k):
            e = a[1] if len(a) > 1 and a[1] is not None else a[0]
            if isinstance(e, (Cls, BCls)):
                e = I.call(e)
            kk, v = I.gen_resume(a[0], exc=e)
            if kk == 'return':
                raise PyRaise(I.mkexc('StopIteration', *(() if v is None else (v,))))
            return v

        @me(G, 'close')
        def _(I, a, k):
            I.gen_close(a[0])

        @me(G, '__iter__')
        def _(I, a, k):
            return a[0]

        # --- simple constructors
        @ctor(bool)
        def _(I, a, k):
            return I.truth(a[0]) if a else False

        @ctor(int)
        def _(I, a, k):
            if not a:
                return 0
            v = a[0]
            if type(v) in (int, LinV):
                return v
            if type(v) in (float, str, bool, bytes) and (len(a) == 1 or type(a[1]) is int):
                try:
                    return int(*a)
                except (ValueError, TypeError, OverflowError) as e:
                    I.raise_py(type(e).__name__, str(e))
            if type(v) in (Sym, App, Elem):
                return App('int', (v,), 'num')
            if type(v) is Unk:
                return Unk('int')
            if type(v) is Inst:
                m = I.class_lookup(v.cls, '__int__')
                if m is not MISSING:
                    return I.call(m, [v])
            I.raise_py('TypeError', 'int() argument must be a number')

        @ctor(float)
        def _(I, a, k):
            if not a:
                return 0.0
            v = a[0]
            if type(v) in (int, float, str, bool):
                try:
                    return float(v)
                except ValueError as e:
                    I.raise_py('ValueError', str(e))
            if type(v) in (Sym, App, Elem, LinV):
                return App('float', (v,), 'num')
            if type(v) is Unk:
                return v
            I.raise_py('TypeError', 'float() argument must be a number')

        @ctor(str)
        def _(I, a, k):
            if not a:
                return ''
            if len(a) > 1 or k:
                v = a[0] if a else k.get('object', b'')
                kw2 = {n: x for n, x in k.items() if n != 'object'}
                if all(pure(x) for x in a) and all(pure(x) for x in k.values()):
                    if type(v) is bytes and all(type(x) is str for x in list(a[1:]) + list(kw2.values())):
                        return v.decode(*a[1:], **kw2)
                    return codec('decode', v, a[1:], kw2)
                return I.st.sym('str', 'str')
            return self.to_str(I, a[0])

        @ctor(bytes)
        def _(I, a, k):
            if not a:
                return b''
            if all(type(x) in (str, bytes, int) for x in list(a) + list(k.values())):
                return bytes(*a, **k)
            if all(pure(x) for x in a):
                if type(a[0]) in (Sym, App, Elem) and a[0].kind == 'bytes' and len(a) == 1:
                    return a[0]
                if len(a) > 1 or k:
                    return codec('encode', a[0], a[1:], k)
                return App('bytes', tuple(a), 'bytes')
            return Unk('bytes')

        @ctor(tuple)
        def _(I, a, k):
            if not a:
                return ()
            if type(a[0]) is tuple:
                return a[0]
            return I.to_tuple(self.new_list(I.segs_of(a[0])))

        @ctor(list)
        def _(I, a, k):
            return self.new_list(I.segs_of(a[0]) if a else ())

        def dq_init(I, s, a, k):
            ml = a[1] if len(a) > 1 else k.get('maxlen')
            if ml is not None and not I.isnum(ml):
                if type(ml) in (Unk, Ext):
                    I.st.taint('deque maxlen')
                else:
                    I.raise_py('TypeError', 'an integer is required')
            if ml is not None and I.isnum(ml) and I.st.lt(ml, 0):
                I.raise_py('ValueError', 'maxlen must be non-negative')
            s.maxlen = ml
            s.segs = ()
            it = a[0] if a else k.get('iterable', ())
            self.seq_extend(I, s, it)

        @ctor(D)
        def _(I, a, k):
            s = Seq(b['deque'])
            dq_init(I, s, a, k)
            return s

        @me(D, '__init__')
        def _(I, a, k):
            dq_init(I, a[0], a[1:], k)

        @me(L, '__init__')
        def _(I, a, k):
            if type(a[0]) is Seq:
                I.set_segs(a[0], ())
                if len(a) > 1:
                    self.seq_extend(I, a[0], a[1])

        @me(dict, '__init__')
        def _(I, a, k):
            d = a[0]
            d.items = []
            if len(a) > 1:
                self.dict_update(I, d, a[1])
            for kk, v in k.items():
                I.dict_set(d, kk, v)

        @ctor(dict)
        def _(I, a, k):
            d = DictV()
            if a:
                self.dict_update(I, d, a[0])
            for kk, v in k.items():
                I.dict_set(d, kk, v)
            return d

        @me(dict, 'fromkeys')
        def _(I, a, k):
            d = DictV()
            a = [x for x in a if not isinstance(x, BCls)]
            for kk in I.concrete(a[0]):
                I.dict_set(d, kk, a[1] if len(a) > 1 else None)
            return d

        def mkset(frozen):
            def f(I, a, k):
                s = SetV(frozen=frozen)
                for v in (I.concrete(a[0]) if a else ()):
                    if not any(I.eq(v, y) for y in s.vals):
                        s.vals.append(v)
                return s
            return f
        self.cons[set] = mkset(False)
        self.cons[frozenset] = mkset(True)

        @ctor(range)
        def _(I, a, k):
            for x in a:
                if not I.isnum(x):
                    if type(x) in (Sym, App, Elem, Unk):
                        I.st.taint('range of %s' % show(x))
                        return RangeV(0, I.st.int('n', 0), 1)
                    I.raise_py('TypeError', "'%s' object cannot be interpreted as an integer"
                               % I.type_of(x).name)
            if len(a) == 1:
                return RangeV(0, a[0], 1)
            st = a[2] if len(a) > 2 else 1
            if type(st) is int and st == 0:
                I.raise_py('ValueError', 'range() arg 3 must not be zero')
            return RangeV(a[0], a[1], st)

        @ctor(slice)
        def _(I, a, k):
            if len(a) == 1:
                return SliceV(None, a[0], None)
            return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)

        @ctor(property)
        def _(I, a, k):
            a = list(a) + [None] * 4
            return PropV(k.get('fget', a[0]), k.get('fset', a[1]), k.get('fdel', a[2]))

        @ctor(staticmethod)
        def _(I, a, k):
            return StaticM(a[0])

        @ctor(classmethod)
        def _(I, a, k):
            return ClassM(a[0])

        @ctor(super)
        def _(I, a, k):
            return SuperV(a[0], a[1])

        @ctor(complex)
        def _(I, a, k):
            return complex(*a)

        @ctor(bytearray)
        def _(I, a, k):
            return Unk('bytearray')

        # --- list / deque methods
        for T in (L, D):
            @me(T, 'append')
            def _(I, a, k):
                self.raw_append(I, a[0], a[1])

            @me(T, 'extend')
            def _(I, a, k):
                self.seq_extend(I, a[0], a[1])

            @me(T, 'clear')
            def _(I, a, k):
                I.touch_seq(a[0], 'w', 'clear')
                I.set_segs(a[0], ())

            @me(T, 'copy', '__copy__')
            def _(I, a, k):
                I.touch_seq(a[0], 'r', 'copy')
                return Seq(a[0].cls, a[0].segs, a[0].maxlen)

            @me(T, 'index')
            def _(I, a, k):
                return self.seq_index(I, *a)

            @me(T, 'count')
            def _(I, a, k):
                s, x = a
                I.touch_seq(s, 'r', 'count')
                return self.count_in(I, s.segs, x)

            @me(T, 'remove')
            def _(I, a, k):
                i = self.seq_index(I, a[0], a[1])
                I.delitem(a[0], i)

            @me(T, 'reverse')
            def _(I, a, k):
                I.touch_seq(a[0], 'w', 'reverse')
                I.set_segs(a[0], I.reverse_segs(a[0].segs))

            @me(T, 'insert')
            def _(I, a, k):
                s, i, v = a
                I.touch_seq(s, 'w', 'insert')
                st = I.st
                n = seqs.length(st, s.segs)
                if s.maxlen is not None and not st.lt(n, s.maxlen):
                    I.raise_py('IndexError', 'deque already at its maximum size')
                i = I.clamp(i, n, 0)
                x, y = seqs.split(st, s.segs, i)
                I.set_segs(s, x + (Elt(v),) + y)

            @me(T, '__len__')
            def _(I, a, k):
                return I.seq_len(a[0])

            @me(T, '__getitem__')
            def _(I, a, k):
                s = a[0]
                if type(s.cls) is Cls:
                    t = Seq(b['list' if T is L else 'deque'], s.segs, s.maxlen)
                    t.tag = s.tag
                    return I.getitem(t, a[1])
                return I.getitem(s, a[1])

            @me(T, '__setitem__')
            def _(I, a, k):
                I.setitem(*a)

            @me(T, '__delitem__')
            def _(I, a, k):
                I.delitem(*a)

            @me(T, '__iter__')
            def _(I, a, k):
                return Iter('seq', a[0])

            @me(T, '__reversed__')
            def _(I, a, k):
                return Iter('rev', a[0], ladd(seqs.length(I.st, a[0].segs), -1))

            @me(T, '__contains__')
            def _(I, a, k):
                return self.search(I, a[0], a[1])

            @me(T, '__eq__')
            def _(I, a, k):
                return I.eq(a[0], a[1])

            @me(T, 'pop')
            def _(I, a, k):
                s = a[0]
                i = a[1] if len(a) > 1 else -1
                I.touch_seq(s, 'w', 'pop')
                st = I.st
                n = seqs.length(st, s.segs)
                if st.ieq(n, 0):
                    I.raise_py('IndexError', 'pop from an empty sequence')
                i = I.index_pos(n, i, 'pop')
                segs = I.nonempty_runs(s.segs)
                v = seqs.get(st, segs, i)
                x, y = seqs.split(st, segs, i)
                _, z = seqs.split(st, y, 1)
                I.set_segs(s, x + z)
                return v

        @me(D, 'appendleft')
        def _(I, a, k):
            self.raw_append(I, a[0], a[1], True)

        @me(D, 'extendleft')
        def _(I, a, k):
            self.seq_extend(I, a[0], a[1], True)

        @me(D, 'popleft')
        def _(I, a, k):
            return I.call(self.meth[(D, 'pop')], [a[0], 0])

        @me(D, 'rotate')
        def _(I, a, k):
            s, n = a[0], (a[1] if len(a) > 1 else 1)
            I.touch_seq(s, 'w', 'rotate')
            st = I.st
            ln = seqs.length(st, s.segs)
            if st.ieq(ln, 0):
                return
            if type(n) is int and n < 0 and st.entails_le(-n, ln):
                x, y = seqs.split(st, s.segs, -n)
                I.set_segs(s, y + x)
                return
            if type(n) is int and n >= 0 and st.entails_le(n, ln):
                x, y = seqs.split(st, s.segs, ladd(ln, -n))
                I.set_segs(s, y + x)
                return
            raise Undecided('deque.rotate')

        @me(L, 'sort')
        def _(I, a, k):
            s = a[0]
            I.touch_seq(s, 'w', 'sort')
            I.set_segs(s, self.sorted_segs(I, s.segs, k.get('key'),
                                           I.truth(k.get('reverse', False))))

        # deque.maxlen is an attribute
        self.meth[(D, 'maxlen')] = PropV(Native('maxlen', lambda I, a, k: a[0].maxlen))

        # --- tuple
        @me(tuple, 'index')
        def _(I, a, k):
            for i, v in enumerate(a[0]):
                if I.eq(v, a[1]):
                    return i
            I.raise_py('ValueError', 'tuple.index(x): x not in tuple')

        @me(tuple, 'count')
        def _(I, a, k):
            return sum(1 for v in a[0] if I.eq(v, a[1]))

        @me(tuple, '__len__')
        def _(I, a, k):
            return len(a[0])

        @me(tuple, '__iter__')
        def _(I, a, k):
            return I.iter(a[0])

        @me(tuple, '__getitem__')
        def _(I, a, k):
            return I.getitem(*a)

        # --- dict
        @me(dict, 'get')
        def _(I, a, k):
            v = I.dict_get(a[0], a[1])
            return (a[2] if len(a) > 2 else k.get('default')) if v is MISSING else v

        @me(dict, 'setdefault')
        def _(I, a, k):
            v = I.dict_get(a[0], a[1])
            if v is MISSING:
                v = a[2] if len(a) > 2 else None
                I.dict_set(a[0], a[1], v)
            return v

        @me(dict, 'pop')
        def _(I, a, k):
            v = I.dict_get(a[0], a[1])
            if v is MISSING:
                if len(a) > 2:
                    return a[2]
                I.raise_py('KeyError', a[1])
            I.delitem(a[0], a[1])
            return v

        @me(dict, 'update')
        def _(I, a, k):
            if len(a) > 1:
                self.dict_update(I, a[0], a[1])
            for kk, v in k.items():
                I.dict_set(a[0], kk, v)

        @me(dict, 'keys', '__iter__')
        def _(I, a, k):
            return self.new_list(tuple(Elt(x) for x, _ in a[0].items))

        @me(dict, 'values')
        def _(I, a, k):
            return self.new_list(tuple(Elt(x) for _, x in a[0].items))

        @me(dict, 'items')
        def _(I, a, k):
            return self.new_list(tuple(Elt((x, y)) for x, y in a[0].items))

        @me(dict, 'copy')
        def _(I, a, k):
            return DictV([list(x) for x in a[0].items])

        @me(dict, 'clear')
        def _(I, a, k):
            for x, _ in list(a[0].items):
                I.delitem(a[0], x)

        @me(dict, '__getitem__')
        def _(I, a, k):
            return I.getitem(DictV(a[0].items), a[1])

        @me(dict, '__setitem__')
        def _(I, a, k):
            I.dict_set(a[0], a[1], a[2])

        @me(dict, '__contains__')
        def _(I, a, k):
            return I.dict_get(a[0], a[1]) is not MISSING

        @me(dict, '__len__')
        def _(I, a, k):
            return len(a[0].items)

        # --- set
        @me(set, 'add')
        def _(I, a, k):
            if not any(I.eq(a[1], y) for y in a[0].vals):
                I.touch_set(a[0])
                a[0].vals.append(a[1])

        @me(set, 'discard', 'remove')
        def _(I, a, k):
            for y in a[0].vals:
                if I.eq(a[1], y):
                    I.touch_set(a[0])
                    a[0].vals.remove(y)
                    return
            # (discard of a missing one is silent; remove raises: told apart below)
        @me(set, 'remove')
        def _(I, a, k):
            for y in a[0].vals:
                if I.eq(a[1], y):
                    I.touch_set(a[0])
                    a[0].vals.remove(y)
                    return
            I.raise_py('KeyError', a[1])

        @me(set, 'clear')
        def _(I, a, k):
            I.touch_set(a[0])
            a[0].vals = []

        @me(set, 'copy')
        def _(I, a, k):
            return SetV(list(a[0].vals))

        @me(set, 'update')
        def _(I, a, k):
            for o in a[1:]:
                for v in I.concrete(o):
                    if not any(I.eq(v, y) for y in a[0].vals):
                        I.touch_set(a[0])
                        a[0].vals.append(v)

        @me(set, 'pop')
        def _(I, a, k):
            if not a[0].vals:
                I.raise_py('KeyError', 'pop from an empty set')
            I.touch_set(a[0])
            return a[0].vals.pop(0)

        for n in ('union', 'intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint'):
            def mk(n):
                def f(I, a, k):
                    o = I.concrete(a[1]) if len(a) > 1 else []
                    ins = lambda x, vs: any(I.eq(x, y) for y in vs)
                    if n == 'union':
                        return SetV(a[0].vals + [x for x in o if not ins(x, a[0].vals)])
                    if n == 'intersection':
                        return SetV([x for x in a[0].vals if ins(x, o)])
                    if n == 'difference':
                        return SetV([x for x in a[0].vals if not ins(x, o)])
                    if n == 'issubset':
                        return all(ins(x, o) for x in a[0].vals)
                    if n == 'issuperset':
                        return all(ins(x, a[0].vals) for x in o)
                    return not any(ins(x, o) for x in a[0].vals)
                return f
            me(set, n)(mk(n))
            me(frozenset, n)(mk(n))

        # --- str methods on opaque strings are handled in opaque_attr


def lift(I, r):
    """host value -> abstract value"""
    if isinstance(r, list):
        return Seq(I.bcls('list'), tuple(Elt(lift(I, x)) for x in r))
    if isinstance(r, tuple):
        return tuple(lift(I, x) for x in r)
    if isinstance(r, dict):
        return DictV([[lift(I, k), lift(I, v)] for k, v in r.items()])
    if isinstance(r, (set, frozenset)):
        return SetV([lift(I, x) for x in sorted(r, key=repr)], isinstance(r, frozenset))
    if r is None or type(r) in (bool, int, float, str, bytes, complex):
        return r
    return Unk('host value')


def codec(name, o, args, kw):
    """text <-> bytes, in one form for all ways to write it"""
    enc = args[0] if args else kw.get('encoding', 'utf-8')
    err = args[1] if len(args) > 1 else kw.get('errors', 'strict')
    if type(enc) is str and enc.lower().replace('_', '-') in ('utf-8', 'utf8'):
        enc = 'utf-8'
    return App('call:' + name, (o, enc, err), 'bytes' if name == 'encode' else 'str')
