"""Abstract evaluator of Python syntax trees (direct style, one abstract path at a time).

Every ev_/ex_ method is a host generator: it only yields when the interpreted code yields."""
import ast
import builtins as pyb
import operator
from .vals import *
from . import seqs
from .state import Cut, Undecided


class PyRaise(Exception):
    """the interpreted program raises exc"""

    def __init__(self, exc):
        Exception.__init__(self, exc)
        self.exc = exc


class _Sig:
    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val


BREAK, CONTINUE = _Sig('break'), _Sig('continue')
MISSING = object()
MAX_DEPTH = 70


def drive(g):
    """run an evaluation that must not yield"""
    try:
        next(g)
    except StopIteration as e:
        return e.value
    raise Undecided('yield outside of a generator')


_scope = {}


def scope_of(node):
    """(locals, globals, nonlocals, is_generator) of a function node"""
    r = _scope.get(node)
    if r is None:
        loc, glo, non, gen = set(), set(), set(), [False]

        def targets(t):
            if isinstance(t, ast.Name):
                loc.add(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    targets(x)
            elif isinstance(t, ast.Starred):
                targets(t.value)

        def walk(n, top=False):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
                loc.add(n.name)
                for d in n.decorator_list:
                    walk(d)
                if not isinstance(n, ast.ClassDef):
                    for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                        walk(d)
                else:
                    for d in n.bases:
                        walk(d)
                return
            if isinstance(n, ast.Lambda) and not top:
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    walk(d)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                walk(n.generators[0].iter)
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        targets(x.target)
                return
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                gen[0] = True
            if isinstance(n, ast.Global):
                glo.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                non.update(n.names)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                loc.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    loc.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                loc.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                loc.add(n.name)
            for c in ast.iter_child_nodes(n):
                walk(c)
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            loc.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                loc.add(x.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            walk(s)
        r = _scope[node] = (loc - glo - non, glo, non, gen[0])
    return r


class Interp:
    def __init__(self, prog, st):
        self.prog = prog
        self.st = st
        self.depth = 0
        self.line = None
        self.stack = []  # (func, line) of active calls
        self.cur_exc = []
        self.natives = prog.natives
        self.hooks = prog.hooks

    # ------------------------------------------------------------------ errors
    def bcls(self, name):
        return self.prog.builtins[name]

    def mkexc(self, cls, *args):
        if isinstance(cls, str):
            cls = self.bcls(cls)
        e = Inst(cls)
        e.attrs['args'] = tuple(args)
        return e

    def raise_py(self, cls, *args):
        e = self.mkexc(cls, *args)
        e.internal = self.where()
        raise PyRaise(e)

    def where(self):
        if self.stack:
            f = self.stack[-1][0]
            return '%s:%s %s' % (f.module.path if f.module else '?', self.line, f.name)
        return '%s' % (self.line,)

    def backtrace(self):
        out = []
        lines = [x[1] for x in self.stack[1:]] + [self.line]
        for (f, _), ln in zip(self.stack, lines):
            out.append('%s:%s in %s' % (f.module.path if f.module else '?', ln, f.name))
        return out

    def libwhere(self):
        """innermost position inside the analysed repository"""
        lines = [x[1] for x in self.stack[1:]] + [self.line]
        for (f, _), ln in reversed(list(zip(self.stack, lines))):
            if f.module and f.module.path and f.module.path.startswith(self.prog.repo):
                return '%s:%s %s' % (f.module.path[len(self.prog.repo) + 1:], ln, f.name)
        return None

    def event(self, name, *args):
        st = self.st
        st.events.append((name, args, self.libwhere()))
        for m in self.prog.monitors:
            m(self, name, args)

    def fail(self, msg, **kw):
        """a definite violation on this path"""
        st = self.st
        st.failures.append((msg, self.libwhere(), self.backtrace(), kw.get('detail')))

    # ------------------------------------------------------------------ journal of static objects
    def touch(self, obj, d, k):
        if obj.static:
            self.st.undo.append((d, k, d.get(k, MISSING), obj))

    def rollback(self):
        for d, k, v, _ in reversed(self.st.undo):
            if v is MISSING:
                d.pop(k, None)
            else:
                d[k] = v

    # ------------------------------------------------------------------ types
    def type_of(self, v):
        b = self.prog.builtins
        t = type(v)
        if v is None:
            return b['NoneType']
        if t is bool:
            return b['bool']
        if t in (int, LinV):
            return b['int']
        if t in (float, str, bytes, complex):
            return b[t.__name__]
        if t is tuple:
            return b['tuple']
        if t in (Inst,):
            return v.cls
        if t is Seq:
            return v.cls
        if t is DictV:
            return v.cls or b['dict']
        if t is SetV:
            return b['frozenset' if v.frozen else 'set']
        if t is Cls:
            return v.meta or b['type']
        if t is BCls:
            return b['type']
        if t in (Func,):
            return b['function']
        if t in (Native,):
            return b['builtin_function']
        if t is Bound:
            return b['method']
        if t is Mod:
            return b['module']
        if t is Gen:
            return b['generator']
        if t is Iter:
            return b['iterator']
        if t is RangeV:
            return b['range']
        if t is SliceV:
            return b['slice']
        if t is PropV:
            return b['property']
        if t is Partial:
            return b['partial']
        if t in (Sym, App, Elem):
            k = v.kind
            if k in ('str', 'bytes', 'dict', 'callable'):
                return {'callable': b['function']}.get(k) or b[k]
            return b['object']
        return b['object']

    def mro(self, c):
        return c.mro or (c,)

    def is_sub(self, c, d):
        if c is d:
            return True
        if isinstance(d, BCls) and d.py is object:
            return True
        if isinstance(c, BCls) and isinstance(d, BCls):
            try:
                return issubclass(c.py, d.py)
            except TypeError:
                return False
        if d in self.mro(c):
            return True
        if isinstance(d, Cls):
            if getattr(d, 'protocol', False):
                return self.structural(c, d)
            reg = d.attrs.get('_sa_registered')
            if reg and any(self.is_sub(c, r) for r in reg):
                return True
        return False

    def structural(self, c, d):
        names = set()
        for k in d.mro:
            if isinstance(k, Cls) and getattr(k, 'protocol', False):
                names |= {n for n in k.attrs if not (n.startswith('__') and n.endswith('__'))
                          and not n.startswith('_sa_')}
        return all(self.class_lookup(c, n) is not MISSING for n in names)

    def isinstance(self, v, cls):
        if isinstance(cls, tuple):
            return any(self.isinstance(v, c) for c in cls)
        if isinstance(cls, (Ext, Unk)):
            if isinstance(cls, Ext):
                r = self.prog.ext_isinstance(self, v, cls)
                if r is not None:
                    return r
            self.st.taint('isinstance with %r' % (cls,))
            return self.st.choose(2) == 0
        if not isinstance(cls, (Cls, BCls)):
            self.raise_py('TypeError', 'isinstance() arg 2 must be a type')
        t = type(v)
        if t is Unk:
            return self.st.choose(2) == 0
        if t is Inst and getattr(v.cls, 'any_exc', None):
            return self.exc_isa(v, cls)
        if t in (Sym, App, Elem):
            k = v.kind
            if isinstance(cls, BCls) and cls.py is object:
                return True
            if k in ('str', 'bytes', 'dict'):
                return cls is self.bcls(k)
            if k == 'num':
                return cls in (self.bcls('int'), self.bcls('float')) and (
                    True if cls is None else self.num_isa(v, cls))
            if k == 'object':
                return False
            if k == 'callable':
                return cls is self.bcls('function')
            return self.st.fact(('isa', v, cls), ('%s is a %s' % (show(v), cls.name),
                                                  '%s is no %s' % (show(v), cls.name)))
        if t is bool and isinstance(cls, BCls):
            return cls.py in (bool, int, object)
        if t is Inst and isinstance(cls, Cls) and getattr(cls, 'protocol', False) \
                and cls not in self.mro(v.cls):
            names = set()
            for k in cls.mro:
                if isinstance(k, Cls) and getattr(k, 'protocol', False):
                    names |= {n for n in k.attrs if not (n.startswith('__') and n.endswith('__'))
                              and not n.startswith('_sa_')}
            return all(n in v.attrs or self.class_lookup(v.cls, n) is not MISSING for n in names)
        return self.is_sub(self.type_of(v), cls)

    def num_isa(self, v, cls):
        # a number is an int or a float; decided once per symbol
        isint = self.st.fact(('isint', v), ('%s is an int' % show(v), '%s is a float' % show(v)))
        return isint == (cls is self.bcls('int'))

    def exc_isa(self, e, cls):
        """an arbitrary exception raised by user code"""
        if isinstance(cls, BCls) and cls.py in (BaseException, object):
            return True
        isexc = e.attrs.get('_sa_exc', True)
        if isinstance(cls, BCls) and cls.py is Exception:
            return isexc
        if cls is e.cls:
            return True
        if isinstance(cls, BCls) and not isexc and issubclass(cls.py, Exception):
            return False
        if isinstance(cls, BCls) and isexc and not issubclass(cls.py, Exception):
            return False
        if not is_exc_cls(cls):
            return False
        pos = e.attrs.setdefault('_sa_isa', ())
        neg = e.attrs.setdefault('_sa_isnt', ())
        if any(self.is_sub(p, cls) for p in pos):
            return True
        if any(self.is_sub(cls, n) for n in neg):
            return False
        if pos and not any(self.is_sub(cls, p) for p in pos):
            return False
        if e.attrs.get('_sa_plain'):
            return False
        if self.st.choose(2, ('the user error is a %s' % cls.name,
                              'the user error is no %s' % cls.name)) == 0:
            e.attrs['_sa_isa'] = pos + (cls,)
            return True
        e.attrs['_sa_isnt'] = neg + (cls,)
        return False

    # ------------------------------------------------------------------ attributes
    def class_lookup(self, c, name):
        for k in self.mro(c):
            v = k.attrs.get(name, MISSING)
            if v is not MISSING:
                return v
            if isinstance(k, BCls):
                v = self.natives.method(k, name)
                if v is not None:
                    return v
        return MISSING

    def bind(self, v, obj, cls):
        """descriptor protocol for attribute v found in the class cls of obj (obj None: class)"""
        t = type(v)
        if t in (Func, Native):
            return v if obj is None else Bound(v, obj)
        if t is PropV:
            if obj is None:
                return v
            if v.fget is None:
                self.raise_py('AttributeError', 'unreadable attribute')
            return self.call(v.fget, [obj])
        if t is StaticM:
            return v.f
        if t is ClassM:
            return Bound(v.f, cls)
        if t is Partial:
            return v
        if t is Inst:
            g = self.class_lookup(v.cls, '__get__')
            if g is not MISSING:
                return self.call(g, [v, obj, cls])
        return v

    def getattr(self, o, name, default=MISSING):
        try:
            return self._getattr(o, name)
        except PyRaise as e:
            if default is not MISSING and self.isinstance(e.exc, self.bcls('AttributeError')):
                return default
            raise

    def _getattr(self, o, name):
        t = type(o)
        if t is Mod:
            return self.mod_attr(o, name)
        if t is Inst or t is Seq or t is DictV:
            cls = self.type_of(o)
            v = self.class_lookup(cls, name)
            if type(v) is PropV:
                return self.bind(v, o, cls)
            if o.attrs is not None:
                iv = o.attrs.get(name, MISSING)
                if iv is not MISSING:
                    if self.prog.shared_read is not None:
                        iv = self.prog.shared_read(self, o, name, iv)
                    return iv
            if v is not MISSING:
                if self.prog.shared_read is not None and (v is None or type(v) in (int, bool, str)):
                    return self.prog.shared_read(self, o, name, v)
                return self.bind(v, o, cls)
            if name == '__class__':
                return cls
            if name == '__dict__' and t is Inst:
                return self.attr_dict(o, [[k, x] for k, x in o.attrs.items() if not k.startswith('_sa_')])
            if name == '__doc__' and not (t is Inst and getattr(cls, 'node', None) is None):
                return ast.get_docstring(cls.node) if t is Inst else None
            if name == '__module__' and t is Inst and type(cls) is Cls and cls.module is not None:
                return cls.module.name
            ga = self.class_lookup(cls, '__getattr__')
            if ga is not MISSING:
                return self.call(ga, [o, name])
            if name == '__doc__':
                return None
            self.missing(o, name, "'%s' object has no attribute '%s'" % (cls.name, name))
        if t in (Cls, BCls):
            v = self.class_lookup(o, name)
            if v is not MISSING:
                if self.prog.shared_read is not None and (v is None or type(v) in (int, bool, str)):
                    return self.prog.shared_read(self, o, name, v)
                if type(v) in (ClassM, StaticM):
                    return self.bind(v, None, o)
                if type(v) is Inst:
                    return self.bind(v, None, o)
                return v
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__module__':
                return o.module.name if o.module else 'builtins'
            if name == '__class__':
                return self.type_of(o)
            if name == '__mro__':
                return tuple(self.mro(o))
            if name == '__bases__':
                return tuple(o.bases)
            if name == '__dict__':
                return DictV([[k, x] for k, x in o.attrs.items()])
            if name in ('__doc__', '__annotations__', '__wrapped__'):
                if name == '__wrapped__':
                    self.missing(o, name, "no attribute '__wrapped__'")
                return None if name == '__doc__' else DictV()
            if isinstance(o, Cls) and o.meta is not None:
                mv = self.class_lookup(o.meta, name)
                if mv is not MISSING:
                    return self.bind(mv, o, o.meta)
            self.missing(o, name, "type object '%s' has no attribute '%s'" % (o.name, name))
        if t in (Func, Native, Partial):
            if name in o.attrs:
                return o.attrs[name]
            if t is Func:
                if name in ('__name__', '__qualname__'):
                    return o.name
                if name == '__module__':
                    return o.module.name if o.module else None
                if name == '__doc__':
                    return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
                if name == '__dict__':
                    return self.attr_dict(o, [[k, v] for k, v in o.attrs.items()])
                if name == '__annotations__':
                    return DictV()
                if name == '__call__':
                    return o
                if name == '__defaults__':
                    return tuple(o.defaults) or None
                if name == '__get__':
                    return Native('__get__', lambda I, a, k: Bound(o, a[0]) if a[0] is not None else o)
            if t is Native and name in ('__name__', '__qualname__'):
                return o.name.split('.')[-1]
            if t is Partial:
                if name == 'func':
                    return o.func
                if name == 'args':
                    return tuple(o.args)
                if name == 'keywords':
                    return DictV([[k, v] for k, v in o.kw.items()])
            if name in ('__doc__', '__module__') and t is not Partial or name == '__doc__':
                return None
            if name == '__dict__':
                return self.attr_dict(o, [[k, v] for k, v in o.attrs.items()])
            self.missing(o, name, "function object has no attribute '%s'" % name)
        if t is Bound:
            if name == '__self__':
                return o.self
            if name == '__func__':
                return o.func
            if name == '__call__':
                return o
            return self._getattr(o.func, name)
        if t is SuperV:
            cls = o.obj if isinstance(o.obj, Cls) else self.type_of(o.obj)
            mro = self.mro(cls)
            i = mro.index(o.cls) if o.cls in mro else -1
            for k in mro[i + 1:]:
                v = k.attrs.get(name, MISSING)
                if v is MISSING and isinstance(k, BCls):
                    v = self.natives.method(k, name)
                    if v is None:
                        v = MISSING
                if v is not MISSING:
                    if isinstance(o.obj, Cls):
                        return self.bind(v, None, o.obj) if type(v) in (ClassM, StaticM) else v
                    return self.bind(v, o.obj, cls)
            self.missing(o, name, "'super' object has no attribute '%s'" % name)
        if t is PropV:
            if name in ('setter', 'getter', 'deleter'):
                return Native('property.' + name, lambda I, a, k: PropV(
                    a[0] if name == 'getter' else o.fget, a[0] if name == 'setter' else o.fset,
                    a[0] if name == 'deleter' else o.fdel))
            if name in ('fget', 'fset', 'fdel'):
                return getattr(o, name)
        if t is Unk:
            return Unk('%s.%s' % (o.why, name))
        if t is Ext:
            return self.prog.ext_attr(self, o, name)
        if t in (Sym, App, Elem):
            return self.natives.opaque_attr(self, o, name)
        if t in (StaticM, ClassM):
            if name == '__func__':
                return o.f
            return self._getattr(o.f, name)
        if t in (RangeV, SliceV) and name in ('start', 'stop', 'step'):
            return {'start': o.lo, 'stop': o.hi, 'step': o.step}[name]
        # methods of builtin types
        cls = self.type_of(o)
        if name == '__class__':
            return cls
        m = self.natives.method(cls, name)
        if m is not None:
            return Bound(m, o)
        if name == '__doc__':
            return None
        if t in (int, float, str, bytes, bool, complex) and hasattr(o, name):
            a = getattr(o, name)
            if callable(a):
                return Native('%s.%s' % (cls.name, name), self.natives.folded(a, o, name))
            return a
        self.missing(o, name, "'%s' object has no attribute '%s'" % (cls.name, name))

    def missing(self, o, name, msg):
        self.raise_py('AttributeError', msg)

    def mod_attr(self, m, name):
        v = m.vars.get(name, MISSING)
        if v is not MISSING:
            return v
        sub = self.prog.modules.get(m.name + '.' + name)
        if sub is not None and sub.loaded:
            return sub
        if name == '__name__':
            return m.name
        if name == '__file__':
            return m.path
        if name == '__dict__':
            return self.attr_dict(m, [[k, v] for k, v in m.vars.items()])
        if m.path is None or m.stub:
            return self.prog.ext_attr(self, Ext(m.name), name)
        self.raise_py('AttributeError', "module '%s' has no attribute '%s'" % (m.name, name))

    def attr_dict(self, o, items):
        """the __dict__ of o (as it is now; what is stored in it is stored in o)"""
        d = DictV(items)
        d.owner = o
        return d

    def setattr(self, o, name, v):
        t = type(o)
        if t is Inst or (t in (Seq, DictV) and o.attrs is not None):
            cls = self.type_of(o)
            sa = self.class_lookup(cls, '__setattr__')
            if type(sa) is Func:
                self.call(sa, [o, name, v])
                return
            self.raw_setattr(o, name, v)
            return
        if t in (Cls, Mod, Func, Native, Partial):
            d = o.vars if t is Mod else o.attrs
            self.touch(o, d, name)
            if self.prog.shared_write is not None:
                self.prog.shared_write(self, o, name, v)
            d[name] = v
            return
        if t is BCls:
            self.raise_py('TypeError', 'cannot set attribute of a builtin type')
        if t in (Unk, Ext):
            self.st.taint('attribute %s set on %r' % (name, o))
            return
        if t in (Sym, App, Elem):
            self.event('user_attr_set', o, name, v)
            return
        self.raise_py('AttributeError', "object has no attribute '%s'" % name)

    def raw_setattr(self, o, name, v):
        cls = self.type_of(o)
        d = self.class_lookup(cls, name)
        if type(d) is PropV:
            if d.fset is None:
                self.raise_py('AttributeError', "property '%s' has no setter" % name)
            self.call(d.fset, [o, v])
            return
        if type(d) is Inst:
            s = self.class_lookup(d.cls, '__set__')
            if s is not MISSING:
                self.call(s, [d, o, v])
                return
        self.touch(o, o.attrs, name)
        tag = o.tag
        if tag is not None:
            self.event('access', tag, 'w', name)
            if type(v) is Seq and v.tag is None:
                v.tag = tag
        if self.prog.shared_write is not None:
            self.prog.shared_write(self, o, name, v)
        o.attrs[name] = v

    def delattr(self, o, name):
        t = type(o)
        if t is Inst or t is Seq and o.attrs is not None:
            d = self.class_lookup(self.type_of(o), name)
            if type(d) is PropV:
                if d.fdel is None:
                    self.raise_py('AttributeError', "property '%s' has no deleter" % name)
                self.call(d.fdel, [o])
                return
            if name in o.attrs:
                self.touch(o, o.attrs, name)
                del o.attrs[name]
                return
            self.raise_py('AttributeError', name)
        if t in (Cls, Mod, Func):
            d = o.vars if t is Mod else o.attrs
            if name in d:
                self.touch(o, d, name)
                del d[name]
                return
            self.raise_py('AttributeError', name)
        self.st.taint('del attribute of %r' % (o,))

    # ------------------------------------------------------------------ operators on values
    def is_keyterm(self, v):
        return type(v) in (Sym, App, Elem) or type(v) is tuple

    def isnum(self, v):
        return type(v) in (int, bool, LinV)

    def truth(self, v):
        t = type(v)
        if v is None:
            return False
        if t in (bool, int, float, str, bytes, complex):
            return bool(v)
        if t is tuple:
            return len(v) > 0
        if t is LinV:
            return not self.st.ieq(v, 0)
        if t is Seq:
            if t is Seq and type(v.cls) is Cls:
                m = self.class_lookup(v.cls, '__bool__')
                if type(m) is Func:
                    return self.truth(self.call(m, [v]))
                m = self.class_lookup(v.cls, '__len__')
                if type(m) is Func:
                    return self.truth(self.call(m, [v]))
            return self.truth(self.seq_len(v))
        if t is DictV:
            return len(v.items) > 0
        if t is SetV:
            return len(v.vals) > 0
        if t is Inst:
            m = self.class_lookup(v.cls, '__bool__')
            if m is not MISSING:
                return self.truth(self.call(m, [v]))
            m = self.class_lookup(v.cls, '__len__')
            if m is not MISSING:
                return self.truth(self.call(m, [v]))
            return True
        if t in (Sym, App, Elem):
            k = v.kind
            if k in ('object', 'callable', 'exc'):
                return True
            if k == 'falsy':
                return False
            if k in ('bytes', 'sized', 'str', 'dict'):
                return not self.st.ieq(self.len_of(v), 0)
            return self.st.fact(('truth', v), ('%s is true' % show(v), '%s is false' % show(v)))
        if t is RangeV:
            return self.truth(self.range_len(v))
        if t is Unk:
            return self.st.choose(2) == 0
        return True

    def len_of(self, v):
        t = type(v)
        if t in (str, bytes, tuple):
            return len(v)
        if t is Seq:
            if type(v.cls) is Cls:
                m = self.class_lookup(v.cls, '__len__')
                if type(m) is Func:
                    return self.call(m, [v])
            return self.seq_len(v)
        if t is DictV:
            return len(v.items)
        if t is SetV:
            return len(v.vals)
        if t is RangeV:
            return self.range_len(v)
        if t is Inst:
            m = self.class_lookup(v.cls, '__len__')
            if m is not MISSING:
                return self.call(m, [v])
            self.raise_py('TypeError', "object of type '%s' has no len()" % v.cls.name)
        if t in (Sym, App, Elem):
            n = LinV(((('size', v), 1),), 0)
            self.st.assume_ge(n)
            return n
        if t in (Unk, Ext):
            self.st.taint('len of %r' % (v,))
            return self.st.int('len', 0)
        self.raise_py('TypeError', "object of type '%s' has no len()" % self.type_of(v).name)

    def range_len(self, r):
        st = self.st
        if r.step == 1:
            d = ladd(r.hi, r.lo, -1)
            if type(d) is int:
                return max(d, 0)
            return d if st.decide_ge(d) else 0
        if all(type(x) is int for x in (r.lo, r.hi, r.step)):
            return len(range(r.lo, r.hi, r.step))
        d = ladd(r.hi, r.lo, -1)
        if type(r.step) is int and r.step < 0:
            d = lmul(d, -1)
            if not st.decide_ge(d):
                return 0
            return seqs.ceil_div(st, d, -r.step)
        if not st.decide_ge(d):
            return 0
        return seqs.ceil_div(st, d, r.step)

    def touch_seq(self, s, mode, what):
        if s.tag is not None:
            self.event('access', s.tag, mode, what)

    def seq_len(self, s):
        self.touch_seq(s, 'len', 'len')
        return seqs.length(self.st, s.segs)

    def set_segs(self, s, segs):
        if s.static:
            d = s.__dict__
            self.st.undo.append((d, 'segs', d['segs'], s))
        s.segs = seqs.norm(self.st, segs)

    def is_(self, a, b):
        ta, tb = type(a), type(b)
        if a is b:
            return True
        if ta is Unk or tb is Unk:
            if a is None or b is None:
                return self.st.choose(2) == 0
            return self.st.choose(2) == 0
        if a is None or b is None:
            return False
        if ta is bool or tb is bool:
            return ta is tb and a == b
        if ta in (LinV, int) and tb in (LinV, int):
            if tsame(a, b):
                return True
            return self.st.ieq(a, b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            return False
        if ta is not tb:
            return False
        if ta is Bound:
            return False
        if ta in (str, float, bytes, Ext):
            return a == b
        if ta is tuple:
            return a == () and b == ()
        if ta is Elem and a.base is b.base:
            if a.pos == b.pos:
                return True
            return self.st.ieq(a.pos, b.pos)
        return tsame(a, b)

    def eq(self, a, b):
        ta, tb = type(a), type(b)
        if ta in (LinV, int, bool) and tb in (LinV, int, bool):
            return self.st.ieq(a, b)
        prim = (int, bool, float, str, bytes, complex, type(None))
        if ta in prim and tb in prim:
            return a == b
        if ta is Inst or tb is Inst:
            for x, y in ((a, b), (b, a)):
                if type(x) is Inst:
                    m = self.class_lookup(x.cls, '__eq__')
                    if m is not MISSING:
                        r = self.call(m, [x, y])
                        if r is not NotImplemented:
                            return self.truth(r)
            return a is b
        if ta is tuple and tb is tuple:
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if a is b:
            return True
        if ta is Unk or tb is Unk:
            return self.st.choose(2) == 0
        if ta is Seq and tb is Seq:
            self.touch_seq(a, 'r', '==')
            self.touch_seq(b, 'r', '==')
            if a.cls is not b.cls and not (self.is_sub(a.cls, b.cls) or self.is_sub(b.cls, a.cls)):
                return False
            return self.eq_segs(a.segs, b.segs)
        if ta is DictV and tb is DictV:
            if len(a.items) != len(b.items):
                return False
            for k, v in a.items:
                w = self.dict_get(b, k)
                if w is MISSING or not self.eq(v, w):
                    return False
            return True
        if ta is SetV and tb is SetV:
            return len(a.vals) == len(b.vals) and all(
                any(self.eq(x, y) for y in b.vals) for x in a.vals)
        if ta is Bound and tb is Bound:
            return a.func is b.func and a.self is b.self
        if ta in (Ext, RangeV, SliceV):
            return ta is tb and a == b
        op = (Sym, App, Elem)
        if ta in op or tb in op:
            return self.eq_opaque(a, b)
        return False

    def eq_segs(self, x, y):
        st = self.st
        if seqs.same(st, x, y):
            return True
        if not st.ieq(seqs.length(st, x), seqs.length(st, y)):
            return False
        if all(type(s) is Elt for s in tuple(x) + tuple(y)) and len(x) == len(y):
            return all(self.eq(a.v, b.v) for a, b in zip(x, y))
        self.st.taint('comparison of different sequences')
        return st.choose(2) == 0

    def eq_opaque(self, a, b):
        st = self.st
        if tsame(a, b):
            return True
        if a is None or b is None:
            return False
        op = (Sym, App, Elem)
        for x, y in ((a, b), (b, a)):
            # an opaque item is a plain value; structural objects are different
            if isinstance(y, (Obj, Bound, Ext)):
                return False
            if type(x) in op and x.kind == 'object':
                return False
        if type(a) is Elem and type(b) is Elem and a.base is b.base and a.base.distinct:
            return st.ieq(a.pos, b.pos)
        for x, y in ((a, b), (b, a)):
            if type(x) is Elem:
                if any(tsame(y, z) for z in x.base.excl):
                    return False
                if x.base.distinct and ('member', x.base, y) in st.facts:
                    return st.ieq(x.pos, st.facts[('member', x.base, y)])
        keyish = lambda v: st.basekey(v) is not None or (type(v) in op and v.kind == 'key')
        if keyish(a) and (keyish(b) or pure(b)) or keyish(b) and (keyish(a) or pure(a)):
            return st.key_eq(a, b)
        # first position of an equal element (for searches by equality)
        for x, y in ((a, b), (b, a)):
            if type(x) is Elem and x.base.kind == 'item' and pure(y):
                F = self.first_eq(x.base, y)
                if st.lt(x.pos, F):
                    return False
                if st.ieq(x.pos, F):
                    return True
                for k, p in list(st.facts.items()):
                    if k[0] == 'next' and k[1] is x.base and tsame(k[2], y) and \
                            st.le(k[3], x.pos):
                        if p is None or st.lt(x.pos, p):
                            return False
                        if st.ieq(x.pos, p):
                            return True
                break
        ka, kb = sorted((a, b), key=lambda v: repr(_tok_safe(v)))
        known = self.known_eq(ka, kb)
        if known is not None:
            return known
        return st.fact(('eq', ka, kb), ('%s == %s' % (show(ka), show(kb)),
                                        '%s != %s' % (show(ka), show(kb))))

    def known_eq(self, a, b):
        """whether a == b follows from the equalities decided before"""
        facts = [(k[1], k[2], v) for k, v in self.st.facts.items() if k[0] == 'eq' and len(k) == 3]
        if len(facts) < 2:
            return None

        def cls(x):
            out, more = [x], True
            while more:
                more = False
                for p, q, v in facts:
                    if v is True:
                        for y, z in ((p, q), (q, p)):
                            if any(tsame(y, o) for o in out) and not any(tsame(z, o) for o in out):
                                out.append(z)
                                more = True
            return out
        A, B = cls(a), cls(b)
        if any(tsame(b, x) for x in A):
            return True
        for p, q, v in facts:
            if v is False:
                for y, z in ((p, q), (q, p)):
                    if any(tsame(y, x) for x in A) and any(tsame(z, x) for x in B):
                        return False
        return None

    def first_eq(self, base, y):
        """position of the first element of base that equals y (base.n if none)"""
        st = self.st
        F = LinV(((('first', base, y), 1),), 0)
        if ('first', base, y) not in st.facts:
            st.facts[('first', base, y)] = True
            st.assume_ge(F)
            st.assume_ge(ladd(base.n, F, -1))
            if type(y) is Elem and y.base is base:
                st.assume_ge(ladd(y.pos, F, -1))
            if base.order is not None and not base.free:
                # equal items have equal keys
                k = inst_key(base, y)
                if k is not None:
                    L, R = st.LR('L', base, k), st.LR('R', base, k)
                    if type(y) is Elem and y.base is base:
                        st.assume_ge(ladd(F, L, -1))
                        st.assume_ge(ladd(ladd(R, F, -1), -1))
                    else:
                        # none, or within the equal keys
                        if not st.ieq(F, base.n):
                            st.assume_ge(ladd(F, L, -1))
                            st.assume_ge(ladd(ladd(R, F, -1), -1))
        return F

    def lt(self, a, b, sym='<'):
        """a < b"""
        ta, tb = type(a), type(b)
        if ta in (LinV, int, bool) and tb in (LinV, int, bool):
            return self.st.lt(a, b)
        prim = (int, bool, float, str, bytes)
        if ta in prim and tb in prim:
            try:
                return a < b
            except TypeError as e:
                self.raise_py('TypeError', str(e))
        if a is None or b is None or isinstance(a, Exception) or isinstance(b, Exception):
            self.raise_py('TypeError', "'%s' not supported between instances of '%s' and '%s'" % (
                sym, self.type_of(a).name, self.type_of(b).name))
        if ta is tuple and tb is tuple:
            for x, y in zip(a, b):
                if self.lt(x, y):
                    return True
                if self.lt(y, x):
                    return False
            return len(a) < len(b)
        if ta is Inst or tb is Inst:
            if ta is Inst:
                m = self.class_lookup(a.cls, '__lt__')
                if m is not MISSING:
                    return self.truth(self.call(m, [a, b]))
            if tb is Inst:
                m = self.class_lookup(b.cls, '__gt__')
                if m is not MISSING:
                    return self.truth(self.call(m, [b, a]))
            self.raise_py('TypeError', "'%s' not supported between instances" % sym)
        if ta is Unk or tb is Unk:
            return self.st.choose(2) == 0
        if self.is_keyterm(a) and (self.is_keyterm(b) or tb in prim + (LinV,)) or \
                self.is_keyterm(b) and ta in prim + (LinV,):
            for x, y in ((a, b), (b, a)):
                if type(y) in prim + (LinV,) and self.term_kind(x) == 'num':
                    return self.num_lt(a, b)
                if type(y) in prim + (LinV,) and type(x) is not tuple and \
                        self.st.basekey(x) is None and self.term_kind(x) not in ('key', 'any', 'item'):
                    self.raise_py('TypeError', "'%s' not supported" % sym)
            if ta is tuple or tb is tuple:
                if self.st.basekey(a) is None and self.st.basekey(b) is None:
                    self.raise_py('TypeError', "'%s' not supported" % sym)
            return self.st.key_lt(a, b)
        if ta is Seq and tb is Seq:
            self.st.taint('ordering of lists')
            return self.st.choose(2) == 0
        self.raise_py('TypeError', "'%s' not supported between instances of '%s' and '%s'" % (
            sym, self.type_of(a).name, self.type_of(b).name))

    def num_lt(self, a, b):
        return self.st.fact(('numlt', a, b), ('%s < %s' % (show(a), show(b)),
                                              'not %s < %s' % (show(a), show(b))))

    def term_kind(self, v):
        return v.kind if type(v) in (Sym, App, Elem) else None

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Is:
            return self.is_(a, b)
        if t is ast.IsNot:
            return not self.is_(a, b)
        if t in (ast.Eq, ast.NotEq):
            if t is ast.NotEq and type(a) is Inst:
                m = self.class_lookup(a.cls, '__ne__')
                if m is not MISSING:
                    return self.truth(self.call(m, [a, b]))
            r = self.eq(a, b)
            return r if t is ast.Eq else not r
        if t in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return r if t is ast.In else not r
        if type(a) is Inst or type(b) is Inst:
            d = {ast.Lt: ('__lt__', '__gt__'), ast.Gt: ('__gt__', '__lt__'),
                 ast.LtE: ('__le__', '__ge__'), ast.GtE: ('__ge__', '__le__')}[t]
            for x, y, n in ((a, b, d[0]), (b, a, d[1])):
                if type(x) is Inst:
                    m = self.class_lookup(x.cls, n)
                    if m is not MISSING:
                        r = self.call(m, [x, y])
                        if r is not NotImplemented:
                            return self.truth(r)
            self.raise_py('TypeError', 'comparison not supported between instances')
        if float in (type(a), type(b)) and LinV not in (type(a), type(b)) and \
                type(a) in (int, float, bool) and type(b) in (int, float, bool):
            return {ast.Lt: operator.lt, ast.Gt: operator.gt, ast.LtE: operator.le,
                    ast.GtE: operator.ge}[t](a, b)
        if type(a) is SetV and type(b) is SetV:
            sub = all(any(self.eq(x, y) for y in b.vals) for x in a.vals)
            sup = all(any(self.eq(x, y) for y in a.vals) for x in b.vals)
            return {ast.Lt: sub and not sup, ast.LtE: sub, ast.Gt: sup and not sub,
                    ast.GtE: sup}[t]
        if t is ast.Lt:
            return self.lt(a, b, '<')
        if t is ast.Gt:
            return self.lt(b, a, '>') if not (a is None or b is None) else self.lt(a, b, '>')
        if t is ast.LtE:
            return not self.lt(b, a, '<=')
        if t is ast.GtE:
            return not self.lt(a, b, '>=')
        raise Undecided('comparison %r' % op)

    def contains(self, c, x):
        t = type(c)
        if t is tuple:
            return any(self.is_(x, y) or self.eq(x, y) for y in c)
        if t is str:
            if type(x) is str:
                return x in c
            return self.st.fact(('in', x, c))
        if t is DictV:
            return self.dict_get(c, x) is not MISSING
        if t is SetV:
            return any(self.eq(x, y) for y in c.vals)
        if t is Inst or (t is Seq and type(c.cls) is Cls):
            m = self.class_lookup(c.cls, '__contains__')
            if m is not MISSING and not (t is Seq and type(m) is Native):
                return self.truth(self.call(m, [c, x]))
        if t is Cls and c.meta is not None:
            m = self.class_lookup(c.meta, '__contains__')
            if m is not MISSING:
                return self.truth(self.call(m, [c, x]))
        if t is RangeV and type(x) in (int, LinV) and c.step == 1:
            return self.st.le(c.lo, x) and self.st.lt(x, c.hi)
        if t in (Unk, Ext) or t in (Sym, App, Elem):
            if t in (Unk, Ext):
                self.st.taint('in %r' % (c,))
                return self.st.choose(2) == 0
            return self.st.fact(('in', x, c))
        # by iteration
        return self.natives.search(self, c, x)

    def dict_get(self, d, k):
        for kk, v in d.items:
            if type(k) in (str, int, bool, float, bytes, type(None)) and \
                    type(kk) in (str, int, bool, float, bytes, type(None)):
                if kk == k:
                    return v
            elif kk is k or self.eq(kk, k):
                return v
        return MISSING

    def touch_dict(self, d):
        if d.static:
            self.st.undo.append((d.__dict__, 'items', [list(x) for x in d.items], d))

    def touch_set(self, s):
        if s.static:
            self.st.undo.append((s.__dict__, 'vals', list(s.vals), s))

    def dict_set(self, d, k, v):
        self.touch_dict(d)
        o = d.owner
        if o is not None:
            at = o.vars if type(o) is Mod else o.attrs
            if type(k) is not str:
                self.st.taint('a key of __dict__ that is not known')
                return
            self.touch(o, at, k)
            if self.prog.shared_write is not None:
                self.prog.shared_write(self, o, k, v)
            at[k] = v
        for it in d.items:
            if type(k) is str and type(it[0]) is str:
                if it[0] == k:
                    it[1] = v
                    return
            elif it[0] is k or self.eq(it[0], k):
                it[1] = v
                return
        d.items.append([k, v])

    BINOPS = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__',
              ast.FloorDiv: '__floordiv__', ast.Mod: '__mod__', ast.Pow: '__pow__',
              ast.BitOr: '__or__', ast.BitAnd: '__and__', ast.BitXor: '__xor__',
              ast.LShift: '__lshift__', ast.RShift: '__rshift__', ast.MatMult: '__matmul__'}
    PYOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
             ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
             ast.Pow: operator.pow, ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
             ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift}

    def binop(self, op, a, b, inplace=False):
        t = type(op)
        ta, tb = type(a), type(b)
        prim = (int, bool, float, str, bytes, complex, type(None))
        if ta in prim and tb in prim:
            if t is ast.Mod and ta is str:
                return a % (b,) if not isinstance(b, tuple) else a % b
            try:
                return self.PYOPS[t](a, b)
            except Exception as e:
                self.raise_py(type(e).__name__, str(e))
        if ta in (int, bool, LinV) and tb in (int, bool, LinV):
            if t is ast.Add:
                return ladd(a, b)
            if t is ast.Sub:
                return ladd(a, b, -1)
            if t is ast.Mult:
                if tb is not LinV:
                    return lmul(a, int(b))
                if ta is not LinV:
                    return lmul(b, int(a))
                return App('mul', (a, b), 'num')
            if t in (ast.FloorDiv, ast.Mod):
                if self.st.ieq(b, 0):
                    self.raise_py('ZeroDivisionError', 'integer division or modulo by zero')
                if type(b) is not LinV and b > 0:
                    q = seqs.floor_div(self.st, a, b)
                    return q if t is ast.FloorDiv else ladd(a, lmul(q, b), -1)
            return App(t.__name__, (a, b), 'num')
        if ta is Inst or tb is Inst or ta is Cls or tb is Cls:
            n = self.BINOPS[t]
            if inplace and ta is Inst:
                m = self.class_lookup(a.cls, '__i' + n[2:])
                if m is not MISSING:
                    return self.call(m, [a, b])
            if ta is Inst:
                m = self.class_lookup(a.cls, n)
                if m is not MISSING:
                    r = self.call(m, [a, b])
                    if r is not NotImplemented:
                        return r
            if tb is Inst:
                m = self.class_lookup(b.cls, '__r' + n[2:])
                if m is not MISSING:
                    return self.call(m, [b, a])
            if t is ast.BitOr:
                return Ext('typing.Union')
            self.raise_py('TypeError', 'unsupported operand')
        if ta is str and t is ast.Mod:
            if a in ('%s', '%r') and (type(b) is not tuple or len(b) == 1):
                return self.natives.to_str(self, b[0] if type(b) is tuple else b,
                                           'repr' if a == '%r' else 'str')
            self.format_effects(b)
            return App('%', (a, b if pure(b) else 'obj'), 'str') if pure(b) else \
                self.st.sym('str', 'str')
        if ta is tuple and tb is tuple and t is ast.Add:
            return a + b
        if ta is tuple and tb is int and t is ast.Mult:
            return a * b
        if ta is Seq and t is ast.Add:
            if tb is not Seq:
                self.raise_py('TypeError', 'can only concatenate list to list')
            self.touch_seq(b, 'r', '+')
            if inplace:
                self.natives.seq_extend(self, a, b)
                return a
            self.touch_seq(a, 'r', '+')
            r = Seq(a.cls if type(a.cls) is BCls else self.bcls('list'), (), a.maxlen)
            r.segs = seqs.norm(self.st, a.segs + b.segs)
            return r
        if ta is Seq and t is ast.Mult and tb is int:
            return Seq(a.cls, seqs.norm(self.st, a.segs * b))
        if ta is DictV and tb is DictV and t is ast.BitOr:
            r = a if inplace else DictV([list(x) for x in a.items])
            for k, v in b.items:
                self.dict_set(r, k, v)
            return r
        if ta is SetV and tb is SetV:
            ina = lambda x, s: any(self.eq(x, y) for y in s.vals)
            if t is ast.BitOr:
                return SetV(a.vals + [x for x in b.vals if not ina(x, a)], a.frozen)
            if t is ast.BitAnd:
                return SetV([x for x in a.vals if ina(x, b)], a.frozen)
            if t is ast.Sub:
                return SetV([x for x in a.vals if not ina(x, b)], a.frozen)
        if ta is Unk or tb is Unk:
            return Unk('arithmetic')
        if t is ast.BitOr and (isinstance(a, (BCls, Ext)) or isinstance(b, (BCls, Ext))):
            return Ext('typing.Union')
        op_ = (Sym, App, Elem)
        if (ta in op_ or ta in prim + (LinV,)) and (tb in op_ or tb in prim + (LinV,)):
            for x in (a, b):
                if x is None:
                    self.raise_py('TypeError', 'unsupported operand type NoneType')
            k = 'str' if 'str' in (self.term_kind(a), self.term_kind(b)) or str in (ta, tb) else 'num'
            if k == 'num' and bytes in (ta, tb):
                k = 'bytes'
            if k == 'num' and t in (ast.Mult, ast.Add) and ta in (int, float) and self.term_kind(b) == 'num':
                a, b = b, a
            if k == 'num' and t is ast.Mult and type(b) is float and b.is_integer():
                b = int(b)
            return App(t.__name__, (a, b), k)
        if isinstance(a, Ext) or isinstance(b, Ext):
            self.st.taint('arithmetic on %r %r' % (a, b))
            return Unk('arithmetic')
        self.raise_py('TypeError', 'unsupported operand types: %s, %s' % (
            self.type_of(a).name, self.type_of(b).name))

    def format_effects(self, v):
        pass

    # ------------------------------------------------------------------ subscripts
    def getitem(self, o, i):
        t = type(o)
        st = self.st
        if t is tuple or t in (str, bytes):
            if type(i) is SliceV:
                if all(x is None or type(x) is int for x in (i.lo, i.hi, i.step)):
                    return o[i.lo:i.hi:i.step]
                if t is tuple:
                    s = Seq(self.bcls('list'), tuple(Elt(x) for x in o))
                    return self.to_tuple(Seq(s.cls, self.slice_segs(s.segs, i)))
                return App('slice', (o, i.lo, i.hi, i.step), 'str' if t is str else 'bytes')
            if type(i) in (int, bool):
                try:
                    return o[i]
                except IndexError:
                    self.raise_py('IndexError', '%s index out of range' % t.__name__)
            if type(i) is LinV:
                if t is tuple:
                    s = [Elt(x) for x in o]
                    return self.index_segs(tuple(s), i, 'tuple')
                return App('getitem', (o, i), 'str')
            self.raise_py('TypeError', 'indices must be integers')
        if t is Seq:
            if type(o.cls) is Cls:
                m = self.class_lookup(o.cls, '__getitem__')
                if type(m) is Func:
                    return self.call(m, [o, i])
            self.touch_seq(o, 'r', '[]')
            if type(i) is SliceV:
                if self.natives.is_deque(o):
                    self.raise_py('TypeError', 'sequence index must be integer, not slice')
                return Seq(self.bcls('list'), seqs.norm(st, self.slice_segs(o.segs, i)))
            if not self.isnum(i):
                if type(i) in (Sym, App, Elem, Unk):
                    st.taint('index %s' % show(i))
                    return Unk('element')
                self.raise_py('TypeError', 'sequence index must be integer')
            return self.index_segs(o.segs, i, o.cls.name)
        if t is DictV:
            v = self.dict_get(o, i)
            if v is MISSING:
                if o.cls is not None:
                    m = self.class_lookup(o.cls, '__missing__')
                    if m is not MISSING:
                        return self.call(m, [o, i])
                self.raise_py('KeyError', i)
            return v
        if t is Inst:
            m = self.class_lookup(o.cls, '__getitem__')
            if m is not MISSING:
                return self.call(m, [o, i])
            self.raise_py('TypeError', "'%s' object is not subscriptable" % o.cls.name)
        if t in (Cls, BCls):
            m = self.class_lookup(o, '__class_getitem__') if t is Cls else MISSING
            return o
        if t is Ext:
            return o
        if t is Unk:
            return Unk('item of ' + o.why)
        if t in (Sym, App, Elem):
            if type(i) is SliceV:
                return App('slice', (o, i.lo, i.hi, i.step), o.kind)
            return App('getitem', (o, i)) if pure(i) else Unk('item')
        if t is RangeV:
            if type(i) is SliceV:
                raise Undecided('slice of a range')
            n = self.range_len(o)
            if st.lt(i, 0):
                i = ladd(i, n)
            if st.lt(i, 0) or not st.lt(i, n):
                self.raise_py('IndexError', 'range object index out of range')
            if type(o.step) is int:
                return ladd(o.lo, lmul(i, o.step))
            raise Undecided('element of a stepped range')
        if t is Mod or t in (Func, Native):
            self.raise_py('TypeError', 'object is not subscriptable')
        self.raise_py('TypeError', "'%s' object is not subscriptable" % self.type_of(o).name)

    def index_pos(self, n, i, name):
        """normalised index or IndexError"""
        st = self.st
        if st.lt(i, 0):
            i = ladd(i, n)
            if st.lt(i, 0):
                self.raise_py('IndexError', '%s index out of range' % name)
        if not st.lt(i, n):
            self.raise_py('IndexError', '%s index out of range' % name)
        return i

    def index_segs(self, segs, i, name):
        n = seqs.length(self.st, segs)
        i = self.index_pos(n, i, name)
        segs = self.nonempty_runs(segs)
        return seqs.get(self.st, segs, i)

    def nonempty_runs(self, segs):
        return tuple(s for s in segs
                     if type(s) is Elt or len(segs) == 1 or not seqs.empty(self.st, s))

    def clamp(self, x, n, dflt):
        st = self.st
        if x is None:
            return dflt
        if not self.isnum(x):
            self.raise_py('TypeError', 'slice indices must be integers or None')
        if st.lt(x, 0):
            x = ladd(x, n)
            if st.lt(x, 0):
                return 0
            return x
        if st.lt(n, x):
            return n
        return x

    def slice_segs(self, segs, i):
        st = self.st
        n = seqs.length(st, segs)
        step = 1 if i.step is None else i.step
        if not self.isnum(step):
            self.raise_py('TypeError', 'slice indices must be integers or None')
        if st.ieq(step, 0):
            self.raise_py('ValueError', 'slice step cannot be zero')
        if st.lt(step, 0):
            if i.lo is None and i.hi is None and step == -1:
                return self.reverse_segs(segs)
            raise Undecided('negative slice step')
        lo, hi = self.clamp(i.lo, n, 0), self.clamp(i.hi, n, n)
        return seqs.stepped(st, seqs.sub(st, segs, lo, hi), step)

    def reverse_segs(self, segs):
        segs = seqs.norm(self.st, segs)
        if any(type(s) is Run for s in segs):
            out = []
            for s in reversed(segs):
                if type(s) is Run:
                    out.append(Elt(App('reversed', (s.base.name, s.lo, s.hi))))
                else:
                    out.append(s)
            self.st.taint('reversed run')
            return tuple(out)
        return tuple(reversed(segs))

    def setitem(self, o, i, v):
        t = type(o)
        st = self.st
        if t is DictV:
            self.dict_set(o, i, v)
            return
        if t is Seq:
            self.touch_seq(o, 'w', '[]=')
            if type(i) is SliceV:
                n = seqs.length(st, o.segs)
                if i.step not in (None, 1):
                    raise Undecided('extended slice assignment')
                lo, hi = self.clamp(i.lo, n, 0), self.clamp(i.hi, n, n)
                if st.lt(hi, lo):
                    hi = lo
                new = self.segs_of(v)
                a, b = seqs.split(st, o.segs, hi)
                a, _ = seqs.split(st, a, lo)
                self.set_segs(o, a + new + b)
                return
            n = seqs.length(st, o.segs)
            i = self.index_pos(n, i, o.cls.name + ' assignment')
            a, b = seqs.split(st, o.segs, i)
            _, c = seqs.split(st, b, 1)
            self.set_segs(o, a + (Elt(v),) + c)
            return
        if t is Inst:
            m = self.class_lookup(o.cls, '__setitem__')
            if m is not MISSING:
                self.call(m, [o, i, v])
                return
        if t in (Unk, Ext, Sym, App, Elem):
            if t in (Unk, Ext):
                st.taint('item set on %r' % (o,))
            else:
                self.event('user_item_set', o, i, v)
            return
        self.raise_py('TypeError', "'%s' object does not support item assignment"
                      % self.type_of(o).name)

    def delitem(self, o, i):
        t = type(o)
        st = self.st
        if t is Seq:
            self.touch_seq(o, 'w', 'del')
            n = seqs.length(st, o.segs)
            if type(i) is SliceV:
                if self.natives.is_deque(o):
                    self.raise_py('TypeError', 'sequence index must be integer, not slice')
                if i.step not in (None, 1):
                    raise Undecided('extended slice deletion')
                lo, hi = self.clamp(i.lo, n, 0), self.clamp(i.hi, n, n)
                if st.lt(lo, hi):
                    a, b = seqs.split(st, o.segs, hi)
                    a, _ = seqs.split(st, a, lo)
                    self.set_segs(o, a + b)
                return
            i = self.index_pos(n, i, o.cls.name)
            o_segs = self.nonempty_runs(o.segs)
            a, b = seqs.split(st, o_segs, i)
            _, c = seqs.split(st, b, 1)
            self.set_segs(o, a + c)
            return
        if t is DictV:
            for it in o.items:
                if self.eq(it[0], i):
                    self.touch_dict(o)
                    w = o.owner
                    if w is not None:
                        at = w.vars if type(w) is Mod else w.attrs
                        self.touch(w, at, it[0])
                        at.pop(it[0], None)
                    o.items = [x for x in o.items if x is not it]
                    return
            self.raise_py('KeyError', i)
        if t is Inst:
            m = self.class_lookup(o.cls, '__delitem__')
            if m is not MISSING:
                self.call(m, [o, i])
                return
        if t in (Unk, Ext):
            st.taint('del item')
            return
        self.raise_py('TypeError', "object doesn't support item deletion")

    # ------------------------------------------------------------------ iteration
    def iter(self, v):
        t = type(v)
        if t is Seq:
            if type(v.cls) is Cls:
                m = self.class_lookup(v.cls, '__iter__')
                if type(m) is Func:
                    return self.call(m, [v])
            return Iter('seq', v)
        if t is tuple:
            return Iter('seq', Seq(self.bcls('list'), tuple(Elt(x) for x in v)))
        if t in (Gen, Iter):
            return v
        if t is Inst:
            m = self.class_lookup(v.cls, '__iter__')
            if m is not MISSING:
                return self.call(m, [v])
            m = self.class_lookup(v.cls, '__getitem__')
            if m is not MISSING:
                return Iter('getitem', v)
            self.raise_py('TypeError', "'%s' object is not iterable" % v.cls.name)
        if t is DictV:
            return Iter('seq', Seq(self.bcls('list'), tuple(Elt(k) for k, _ in v.items)))
        if t is SetV:
            return Iter('seq', Seq(self.bcls('list'), tuple(Elt(k) for k in v.vals)))
        if t in (str, bytes):
            return Iter('seq', Seq(self.bcls('list'), tuple(Elt(k) for k in v)))
        if t is RangeV:
            return Iter('range', v, v.lo)
        if t is Unk or t is Ext:
            self.st.taint('iteration over %r' % (v,))
            return Iter('unk', None)
        if t in (Sym, App, Elem) and v.kind in ('any', 'item', 'str', 'bytes'):
            s = Seq(self.bcls('list'), (Run(self.st.base('elems(%s)' % show(v)), HOLE, 0, 0),))
            b = s.segs[0].base
            s.segs = (Run(b, HOLE, 0, b.n),)
            return Iter('seq', s)
        if t is Cls and v.meta is not None:
            m = self.class_lookup(v.meta, '__iter__')
            if m is not MISSING:
                return self.call(m, [v])
        self.raise_py('TypeError', "'%s' object is not iterable" % self.type_of(v).name)

    def next(self, it, default=MISSING):
        """next value, or MISSING when exhausted"""
        t = type(it)
        if t is Iter:
            return self.natives.iter_next(self, it)
        if t is Gen:
            return self.gen_next(it)
        if t is Inst:
            m = self.class_lookup(it.cls, '__next__')
            if m is MISSING:
                self.raise_py('TypeError', "'%s' object is not an iterator" % it.cls.name)
            try:
                return self.call(m, [it])
            except PyRaise as e:
                if self.isinstance(e.exc, self.bcls('StopIteration')):
                    self.last_stop = e.exc
                    return MISSING
                raise
        if t is Unk:
            return Unk('next')
        self.raise_py('TypeError', "'%s' object is not an iterator" % self.type_of(it).name)

    def remaining(self, it):
        """number of values an iterator still gives, if it is known to be concrete, else None"""
        if type(it) is Iter:
            return self.natives.iter_remaining(self, it)
        return None

    def segs_of(self, v):
        """all values of an iterable, as segments"""
        t = type(v)
        if t is tuple:
            return tuple(Elt(x) for x in v)
        if t is Seq and type(v.cls) is BCls:
            self.touch_seq(v, 'r', 'iterate')
            return v.segs
        if t is DictV:
            return tuple(Elt(k) for k, _ in v.items)
        it = self.iter(v)
        if type(it) is Iter:
            r = self.natives.drain(self, it)
            if r is not None:
                return r
        acc = Seq(self.bcls('list'))
        self.natives.extend_by_iteration(self, acc, it)
        return acc.segs

    def to_tuple(self, seq):
        segs = seqs.norm(self.st, seq.segs)
        if any(type(s) is Run for s in segs):
            r = Seq(self.bcls('tuple'), segs)
            return r
        return tuple(s.v for s in segs)

    def concrete(self, v):
        """list of values of an iterable of known length"""
        segs = self.segs_of(v)
        out = []
        for s in segs:
            if type(s) is Elt:
                out.append(s.v)
                continue
            n = seqs.run_len(self.st, s)
            if type(n) is LinV:
                # small known lengths?
                for c in range(0, 5):
                    if self.st.entails_eq(n, c):
                        n = c
                        break
                else:
                    raise Undecided('unpacking a sequence of unknown length')
            out += [seqs.elem_at(self.st, s, j) for j in range(max(n, 0))]
        return out

    # ------------------------------------------------------------------ generators
    def gen_resume(self, gen, send=None, exc=None):
        """run the generator to its next yield: ('yield', v) / ('return', v); may raise PyRaise"""
        if gen.state == 'running':
            self.raise_py('ValueError', 'generator already executing')
        if gen.state == 'done':
            if exc is not None:
                raise PyRaise(exc)
            return ('return', None)
        st = self.st
        first = gen.state == 'new'
        if first and exc is not None:
            gen.state = 'done'
            raise PyRaise(exc)
        gen.state = 'running'
        st.ctxs.append(gen.ctx)
        saved = (self.stack, self.line, self.cur_exc)
        self.stack = self.stack + [(gen.func, self.line)]
        self.cur_exc = gen.cur_exc
        self.depth += 1
        self.check_depth()
        try:
            try:
                if exc is not None:
                    v = gen.g.throw(PyRaise(exc))
                elif first:
                    v = next(gen.g)
                else:
                    v = gen.g.send(send)
                gen.state = 'suspended'
                return ('yield', v)
            except StopIteration as e:
                gen.state = 'done'
                r = e.value
                return ('return', r.val if isinstance(r, _Sig) else None)
            except PyRaise as e:
                gen.state = 'done'
                if self.isinstance(e.exc, self.bcls('StopIteration')):
                    n = self.mkexc('RuntimeError', 'generator raised StopIteration')
                    n.attrs['_sa_from'] = e.exc
                    n.internal = self.where()
                    raise PyRaise(n)
                raise
        finally:
            self.depth -= 1
            self.stack, self.line, self.cur_exc = saved
            st.ctxs.pop()

    def gen_next(self, gen):
        k, v = self.gen_resume(gen)
        if k == 'yield':
            return v
        self.last_stop = self.mkexc('StopIteration', *(() if v is None else (v,)))
        return MISSING

    def gen_close(self, gen):
        if gen.state in ('new', 'done'):
            gen.state = 'done'
            return
        try:
            k, v = self.gen_resume(gen, exc=self.mkexc('GeneratorExit'))
        except PyRaise as e:
            if self.isinstance(e.exc, self.bcls('GeneratorExit')) or \
                    self.isinstance(e.exc, self.bcls('StopIteration')):
                return
            raise
        if k == 'yield':
            self.raise_py('RuntimeError', 'generator ignored GeneratorExit')

    # ------------------------------------------------------------------ calls
    def check_depth(self):
        if self.depth > MAX_DEPTH:
            self.raise_py('RecursionError', 'maximum recursion depth exceeded')

    def call(self, f, args=(), kw=None):
        kw = kw or {}
        t = type(f)
        if t is Bound:
            return self.call(f.func, [f.self] + list(args), kw)
        if t is Func:
            return self.call_func(f, list(args), kw)
        if t is Native:
            return f.fn(self, list(args), kw)
        if t is Cls:
            return self.instantiate(f, list(args), kw)
        if t is BCls:
            return self.natives.construct(self, f, list(args), kw)
        if t is Partial:
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.func, list(f.args) + list(args), k)
        if t is Inst:
            m = self.class_lookup(f.cls, '__call__')
            if m is not MISSING:
                return self.call(m, [f] + list(args), kw)
            self.raise_py('TypeError', "'%s' object is not callable" % f.cls.name)
        if t is Ext:
            return self.prog.ext_call(self, f, list(args), kw)
        if t is Unk:
            self.st.taint('call of %r' % (f,))
            return Unk('result of ' + f.why)
        if t in (Sym, App, Elem):
            return self.natives.opaque_call(self, f, list(args), kw)
        if t in (StaticM, ClassM):
            return self.call(f.f, args, kw)
        self.raise_py('TypeError', "'%s' object is not callable" % self.type_of(f).name)

    def bind_args(self, f, args, kw):
        a = f.node.args
        name = f.name
        vars = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        npos = len(pos)
        if len(args) > npos and a.vararg is None:
            self.raise_py('TypeError', '%s() takes %d positional arguments but %d were given'
                          % (name, npos, len(args)))
        for n, v in zip(pos, args):
            vars[n] = v
        if a.vararg is not None:
            vars[a.vararg.arg] = tuple(args[npos:])
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        extra = []
        for k, v in kw.items():
            if (k in pos and k not in posonly) or k in kwonly:
                if k in vars:
                    self.raise_py('TypeError', "%s() got multiple values for argument '%s'"
                                  % (name, k))
                vars[k] = v
            elif a.kwarg is not None:
                extra.append([k, v])
            else:
                self.raise_py('TypeError', "%s() got an unexpected keyword argument '%s'"
                              % (name, k))
        if a.kwarg is not None:
            vars[a.kwarg.arg] = DictV(extra)
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in vars:
                j = i - (npos - nd)
                if j >= 0:
                    vars[n] = f.defaults[j]
                else:
                    self.raise_py('TypeError', "%s() missing required argument: '%s'" % (name, n))
        for n in kwonly:
            if n not in vars:
                if n in f.kwdefaults:
                    vars[n] = f.kwdefaults[n]
                else:
                    self.raise_py('TypeError',
                                  "%s() missing required keyword-only argument: '%s'" % (name, n))
        return vars

    def call_func(self, f, args, kw):
        h = self.hooks.get(self.prog.func_key(f))
        if h is not None and h.replace is not None:
            return h.replace(self, f, args, kw)
        if self.prog.note_func is not None:
            self.prog.note_func(f)
        fr = Frame(f, f.parent)
        fr.vars = self.bind_args(f, args, kw)
        node = f.node
        is_gen = scope_of(node)[3]
        if is_gen:
            g = Gen(f, fr, None, [fr])
            g.cur_exc = []
            g.g = self.exec_block(node.body, fr) if not isinstance(node, ast.Lambda) else \
                self.gen_lambda(node, fr)
            return g
        if h is not None and h.enter is not None:
            h.enter(self, f, args, kw)
        self.depth += 1
        if len(self.st.ctxs) > 400:
            raise Undecided('too deep')
        ctx = self.st.ctxs[-1]
        mark = len(ctx)
        ctx.append(fr)
        saved = (self.line, self.cur_exc)
        self.stack.append((f, self.line))
        self.cur_exc = []
        try:
            self.check_depth()
            if isinstance(node, ast.Lambda):
                self.line = node.lineno
                r = drive(self.ev(node.body, fr))
            else:
                sig = drive(self.exec_block(node.body, fr))
                r = sig.val if sig is not None and sig.kind == 'return' else None
        except PyRaise as e:
            if h is not None and h.exit is not None:
                h.exit(self, f, args, kw, None, e.exc)
            raise
        finally:
            self.stack.pop()
            self.line, self.cur_exc = saved
            self.depth -= 1
            del ctx[mark:]
        if h is not None and h.exit is not None:
            h.exit(self, f, args, kw, r, None)
        return r

    def gen_lambda(self, node, fr):
        r = yield from self.ev(node.body, fr)
        return _Sig('return', r)

    def abstract_names(self, c):
        out = set()
        for k in reversed(self.mro(c)):
            if not isinstance(k, Cls):
                continue
            for n, v in k.attrs.items():
                f = v
                if type(v) is PropV:
                    f = v.fget
                if type(v) in (StaticM, ClassM):
                    f = v.f
                if isinstance(f, Func) and f.attrs.get('__isabstractmethod__'):
                    out.add(n)
                else:
                    out.discard(n)
        return out

    def instantiate(self, c, args, kw):
        if any(getattr(k, 'ext_base', False) for k in self.mro(c)):
            self.st.taint('instance of %s, whose base class is not modelled' % c.name)
        if c.meta is not None and isinstance(c.meta, Cls):
            m = self.class_lookup(c.meta, '__call__')
            if type(m) is Func:
                return self.call(m, [c] + args, kw)
        return self.instantiate2(c, args, kw)

    def instantiate2(self, c, args, kw):
        if self.is_abc(c):
            ab = self.abstract_names(c)
            if ab:
                self.raise_py('TypeError', "Can't instantiate abstract class %s with abstract "
                              'methods %s' % (c.name, ', '.join(sorted(ab))))
        new = self.class_lookup(c, '__new__')
        if type(new) in (Func, StaticM):
            o = self.call(new.f if type(new) is StaticM else new, [c] + args, kw)
            if not (type(o) in (Inst, Seq, DictV) and self.is_sub(self.type_of(o), c)):
                return o
        else:
            o = self.natives.raw_new(self, c, args, kw)
        init = self.class_lookup(c, '__init__')
        if init is MISSING:
            if (args or kw) and type(o) is Inst and not is_exc_cls(c):
                self.raise_py('TypeError', '%s() takes no arguments' % c.name)
        else:
            self.call(init, [o] + args, kw)
        h = self.prog.new_hooks.get(c.name)
        if h is not None:
            h(self, o)
        else:
            for k in self.mro(c):
                h = self.prog.new_hooks.get(k.name)
                if h is not None:
                    h(self, o)
                    break
        return o

    def is_abc(self, c):
        return any(isinstance(k, Cls) and (k.meta is not None and k.meta.name == 'ABCMeta'
                                           or k.name == 'ABC') for k in self.mro(c))

    # ------------------------------------------------------------------ names
    def mangle(self, name, fr):
        if name.startswith('__') and not name.endswith('__'):
            c = fr.cls_name if hasattr(fr, 'cls_name') else (fr.func.cls_name if fr.func else None)
            if c:
                return '_%s%s' % (c.lstrip('_'), name)
        return name

    def load(self, name, fr):
        name = self.mangle(name, fr) if name[:2] == '__' else name
        f = fr
        mod = fr.module if fr.kind != 'function' else fr.func.module
        if fr.kind == 'function':
            loc, glo, non, _ = scope_of(fr.func.node)
            if name in fr.vars:
                return fr.vars[name]
            if name in loc:
                self.raise_py('UnboundLocalError',
                              "local variable '%s' referenced before assignment" % name)
            if name in glo:
                return self.global_(name, mod)
            f = fr.parent
        elif name in fr.vars:
            return fr.vars[name]
        else:
            f = fr.parent
        while f is not None:
            if f.kind != 'class' and name in f.vars:
                return f.vars[name]
            f = f.parent
        if name == '__class__' and fr.kind == 'function' and fr.func.owner is not None:
            return fr.func.owner
        return self.global_(name, mod)

    def global_(self, name, mod):
        v = mod.vars.get(name, MISSING)
        if v is not MISSING:
            return v
        v = self.prog.builtins.get(name, MISSING)
        if v is not MISSING:
            return v
        if name == '__name__':
            return mod.name
        if name == '__file__':
            return mod.path
        if name in ('__doc__', '__package__', '__spec__'):
            return None
        if hasattr(pyb, name):
            return Ext('builtins.' + name)
        self.raise_py('NameError', "name '%s' is not defined" % name)

    def store(self, name, v, fr):
        name = self.mangle(name, fr) if name[:2] == '__' else name
        if fr.kind == 'function':
            loc, glo, non, _ = scope_of(fr.func.node)
            if name in glo:
                m = fr.func.module
                self.touch(m, m.vars, name)
                m.vars[name] = v
                return
            if name in non:
                f = fr.parent
                while f is not None:
                    if f.kind == 'function' and name in f.vars:
                        f.vars[name] = v
                        return
                    f = f.parent
                raise Undecided('nonlocal %s' % name)
        elif fr.kind == 'comp' and name in getattr(fr, 'walrus', ()):
            return self.store(name, v, fr.parent)
        elif fr.kind == 'module':
            self.touch(fr.module, fr.vars, name)
        fr.vars[name] = v

    def delete(self, name, fr):
        if name in fr.vars:
            del fr.vars[name]
        else:
            self.raise_py('NameError', "name '%s' is not defined" % name)

    def assign(self, t, v, fr):
        k = type(t)
        if k is ast.Name:
            self.store(t.id, v, fr)
        elif k is ast.Attribute:
            o = yield from self.ev(t.value, fr)
            self.setattr(o, self.mangle(t.attr, fr), v)
        elif k is ast.Subscript:
            o = yield from self.ev(t.value, fr)
            i = yield from self.ev(t.slice, fr)
            self.setitem(o, i, v)
        elif k in (ast.Tuple, ast.List):
            if type(v) is Unk or type(v) is Ext:
                for x in t.elts:
                    yield from self.assign(x, Unk('part'), fr)
                return
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if type(v) in (Sym, App, Elem):
                if star:
                    raise Undecided('star unpacking of an opaque value')
                for i, x in enumerate(t.elts):
                    yield from self.assign(x, App('getitem', (v, i)), fr)
                return
            vals = self.concrete(v)
            if star:
                s = star[0]
                after = len(t.elts) - s - 1
                if len(vals) < len(t.elts) - 1:
                    self.raise_py('ValueError', 'not enough values to unpack')
                for x, w in zip(t.elts[:s], vals):
                    yield from self.assign(x, w, fr)
                mid = vals[s:len(vals) - after]
                yield from self.assign(t.elts[s].value,
                                       Seq(self.bcls('list'), [Elt(x) for x in mid]), fr)
                for x, w in zip(t.elts[s + 1:], vals[len(vals) - after:]):
                    yield from self.assign(x, w, fr)
            else:
                if len(vals) != len(t.elts):
                    self.raise_py('ValueError', 'wrong number of values to unpack')
                for x, w in zip(t.elts, vals):
                    yield from self.assign(x, w, fr)
        else:
            raise Undecided('assignment to %s' % k.__name__)

    # ------------------------------------------------------------------ expressions
    def ev(self, n, fr):
        k = type(n)
        if k is ast.Name:
            return self.load(n.id, fr)
        if k is ast.Constant:
            v = n.value
            if v is Ellipsis:
                return Ext('builtins.Ellipsis')
            return v
        m = getattr(self, 'ev_' + k.__name__, None)
        if m is None:
            raise Undecided('expression %s' % k.__name__, self.where())
        r = yield from m(n, fr)
        return r

    def ev_Attribute(self, n, fr):
        o = yield from self.ev(n.value, fr)
        self.line = n.lineno
        return self.getattr(o, self.mangle(n.attr, fr))

    def ev_Subscript(self, n, fr):
        ctx = self.st.ctxs[-1]
        o = yield from self.ev(n.value, fr)
        ctx.append(('tmp', o))
        i = yield from self.ev(n.slice, fr)
        ctx.pop()
        self.line = n.lineno
        return self.getitem(o, i)

    def ev_Slice(self, n, fr):
        r = []
        for x in (n.lower, n.upper, n.step):
            r.append((yield from self.ev(x, fr)) if x is not None else None)
        return SliceV(*r)

    def ev_Index(self, n, fr):
        r = yield from self.ev(n.value, fr)
        return r

    def ev_Starred(self, n, fr):
        raise Undecided('star expression')

    def seq_elts(self, elts, fr):
        ctx = self.st.ctxs[-1]
        mark = len(ctx)
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = yield from self.ev(e.value, fr)
                out.append(('*', v))
            else:
                v = yield from self.ev(e, fr)
                out.append(('', v))
            ctx.append(('tmp', v))
        del ctx[mark:]
        return out

    def ev_Tuple(self, n, fr):
        el = yield from self.seq_elts(n.elts, fr)
        if any(s for s, _ in el):
            out = ()
            for s, v in el:
                out += tuple(self.concrete(v)) if s else (v,)
            return out
        return tuple(v for _, v in el)

    def ev_List(self, n, fr):
        el = yield from self.seq_elts(n.elts, fr)
        segs = ()
        for s, v in el:
            segs += self.segs_of(v) if s else (Elt(v),)
        return Seq(self.bcls('list'), seqs.norm(self.st, segs))

    def ev_Set(self, n, fr):
        el = yield from self.seq_elts(n.elts, fr)
        r = SetV()
        for s, v in el:
            for x in (self.concrete(v) if s else [v]):
                if not any(self.eq(x, y) for y in r.vals):
                    r.vals.append(x)
        return r

    def ev_Dict(self, n, fr):
        d = DictV()
        ctx = self.st.ctxs[-1]
        ctx.append(('tmp', d))
        for k, v in zip(n.keys, n.values):
            if k is None:
                w = yield from self.ev(v, fr)
                self.natives.dict_update(self, d, w)
            else:
                kk = yield from self.ev(k, fr)
                vv = yield from self.ev(v, fr)
                self.dict_set(d, kk, vv)
        ctx.pop()
        return d

    def ev_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        for x in n.values[:-1]:
            v = yield from self.ev(x, fr)
            if self.truth(v) != isand:
                return v
        v = yield from self.ev(n.values[-1], fr)
        return v

    def ev_UnaryOp(self, n, fr):
        v = yield from self.ev(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            if type(v) in (int, float, bool):
                return -v
            if type(v) is LinV:
                return lmul(v, -1)
            if type(v) in (Sym, App, Elem):
                return App('neg', (v,), 'num')
        if isinstance(n.op, ast.UAdd) and type(v) in (int, float, LinV):
            return v
        if isinstance(n.op, ast.Invert) and type(v) in (int, bool):
            return ~v
        if type(v) is Unk:
            return v
        if type(v) is Inst:
            m = self.class_lookup(v.cls, {ast.USub: '__neg__', ast.UAdd: '__pos__',
                                          ast.Invert: '__invert__'}[type(n.op)])
            if m is not MISSING:
                return self.call(m, [v])
        self.raise_py('TypeError', 'bad operand type for unary operator')

    def ev_BinOp(self, n, fr):
        a = yield from self.ev(n.left, fr)
        ctx = self.st.ctxs[-1]
        ctx.append(('tmp', a))
        b = yield from self.ev(n.right, fr)
        ctx.pop()
        self.line = n.lineno
        return self.binop(n.op, a, b)

    def ev_Compare(self, n, fr):
        a = yield from self.ev(n.left, fr)
        ctx = self.st.ctxs[-1]
        for op, c in zip(n.ops, n.comparators):
            ctx.append(('tmp', a))
            b = yield from self.ev(c, fr)
            ctx.pop()
            self.line = n.lineno
            r = self.compare(op, a, b)
            if not r:
                return False
            a = b
        return True

    def ev_IfExp(self, n, fr):
        c = yield from self.ev(n.test, fr)
        r = yield from self.ev(n.body if self.truth(c) else n.orelse, fr)
        return r

    def ev_NamedExpr(self, n, fr):
        v = yield from self.ev(n.value, fr)
        self.store(n.target.id, v, fr)
        return v

    def ev_Lambda(self, n, fr):
        f = yield from self.mkfunc(n, fr, '<lambda>')
        return f

    def ev_JoinedStr(self, n, fr):
        parts = []
        for x in n.values:
            v = yield from self.ev(x, fr)
            parts.append(v)
        if all(type(p) is str for p in parts):
            return ''.join(parts)
        if len(parts) == 1 and not (type(n.values[0]) is ast.FormattedValue
                                    and n.values[0].format_spec is not None):
            return parts[0]  # what str or repr gives
        if all(pure(p) for p in parts):
            return App('fstr', tuple(parts), 'str')
        return self.st.sym('str', 'str')

    def ev_FormattedValue(self, n, fr):
        v = yield from self.ev(n.value, fr)
        spec = None
        if n.format_spec is not None:
            spec = yield from self.ev(n.format_spec, fr)
        if type(v) in (str, int, float, bool, type(None), bytes):
            w = {-1: lambda x: x, 115: str, 114: repr, 97: ascii}[n.conversion](v)
            if spec is None or type(spec) is str:
                try:
                    return format(w, spec or '')
                except (ValueError, TypeError) as e:
                    self.raise_py(type(e).__name__, str(e))
        return self.natives.to_str(self, v, 'repr' if n.conversion == 114 else 'str')

    def ev_Yield(self, n, fr):
        v = None
        if n.value is not None:
            v = yield from self.ev(n.value, fr)
        ctx = self.st.ctxs[-1]
        ctx.append(n)
        sent = yield v
        ctx.pop()
        return sent

    def ev_YieldFrom(self, n, fr):
        v = yield from self.ev(n.value, fr)
        ctx = self.st.ctxs[-1]
        it = self.iter(v)
        ctx.append(n)
        ctx.append(('tmp', it))
        mark = len(ctx)
        while True:
            self.head(n, fr, it)
            x = self.next(it)
            if x is MISSING:
                break
            try:
                yield x
            except PyRaise as e:
                # thrown into the delegating generator
                if type(it) is Gen:
                    if self.isinstance(e.exc, self.bcls('GeneratorExit')):
                        self.gen_close(it)
                        raise
                    k, x2 = self.gen_resume(it, exc=e.exc)
                    if k == 'return':
                        del ctx[mark - 2:]
                        return x2
                    raise Undecided('throw through yield from')
                raise
        del ctx[mark - 2:]
        e = getattr(self, 'last_stop', None)
        if type(it) is Gen and e is not None and e.attrs.get('args'):
            return e.attrs['args'][0]
        return None

    def ev_Await(self, n, fr):
        raise Undecided('await')

    def ev_Call(self, n, fr):
        fn = n.func
        ctx = self.st.ctxs[-1]
        mark = len(ctx)
        # zero-argument super()
        if isinstance(fn, ast.Name) and fn.id == 'super' and not n.args and \
                self.load('super', fr) is self.prog.builtins['super']:
            f = fr
            while f is not None and not (f.kind == 'function' and f.func.owner is not None):
                f = f.parent
            if f is None:
                raise Undecided('super() outside of a class')
            a = f.func.node.args
            first = (a.posonlyargs + a.args)[0].arg
            return SuperV(f.func.owner, f.vars[first])
        f = yield from self.ev(fn, fr)
        ctx.append(('tmp', f))
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = yield from self.ev(a.value, fr)
                vals = self.star_args(v)
                args += vals
                ctx += [('tmp', x) for x in vals]
            else:
                v = yield from self.ev(a, fr)
                args.append(v)
                ctx.append(('tmp', v))
        kw = {}
        for k in n.keywords:
            v = yield from self.ev(k.value, fr)
            if k.arg is None:
                if type(v) is DictV:
                    for kk, vv in v.items:
                        if kk in kw:
                            self.raise_py('TypeError', 'multiple values for keyword %r' % kk)
                        kw[kk] = vv
                elif type(v) is Inst and self.class_lookup(v.cls, 'keys') is not MISSING:
                    for kk in self.concrete(self.call(self.getattr(v, 'keys'))):
                        kw[kk] = self.getitem(v, kk)
                else:
                    self.st.taint('** of %s' % show(v))
            else:
                if k.arg in kw:
                    self.raise_py('TypeError', 'multiple values for keyword %r' % k.arg)
                kw[k.arg] = v
            ctx.append(('tmp', v))
        del ctx[mark:]
        ctx.append(n)
        self.line = n.lineno
        try:
            r = self.call(f, args, kw)
        finally:
            del ctx[mark:]
        self.line = n.lineno
        return r

    def star_args(self, v):
        if type(v) in (Unk, Ext):
            self.st.taint('* of %r' % (v,))
            return []
        return self.concrete(v)

    # comprehension
    def ev_ListComp(self, n, fr):
        acc = Seq(self.bcls('list'))
        yield from self.comp(n, fr, lambda f: self.comp_add(n.elt, f, acc), acc)
        return acc

    def comp_add(self, elt, f, acc):
        v = yield from self.ev(elt, f)
        self.natives.raw_append(self, acc, v)

    def ev_SetComp(self, n, fr):
        acc = SetV()

        def add(f):
            v = yield from self.ev(n.elt, f)
            if not any(self.eq(v, y) for y in acc.vals):
                acc.vals.append(v)
        yield from self.comp(n, fr, add, acc)
        return acc

    def ev_DictComp(self, n, fr):
        acc = DictV()

        def add(f):
            k = yield from self.ev(n.key, f)
            v = yield from self.ev(n.value, f)
            self.dict_set(acc, k, v)
        yield from self.comp(n, fr, add, acc)
        return acc

    def comp_frame(self, n, fr):
        f = Frame(fr.func, fr, 'comp')
        f.module = fr.module if fr.kind != 'function' else fr.func.module
        f.cls_name = fr.cls_name if hasattr(fr, 'cls_name') else (
            fr.func.cls_name if fr.func else None)
        f.walrus = {x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr)}
        return f

    def comp_value(self, n, f, v):
        """value of the element expression for one item; MISSING when a condition excludes it"""
        g = n.generators[0]
        ctx = self.st.ctxs[-1]
        m = len(ctx)
        ctx.append(f)
        drive(self.assign(g.target, v, f))
        for c in g.ifs:
            if not self.truth(drive(self.ev(c, f))):
                del ctx[m:]
                return MISSING
        r = drive(self.ev(n.elt, f))
        del ctx[m:]
        return r

    def new_list_seq(self, segs):
        return Seq(self.bcls('list'), tuple(segs))

    def comp(self, n, fr, add, acc):
        ctx = self.st.ctxs[-1]
        mark = len(ctx)
        first = yield from self.ev(n.generators[0].iter, fr)
        f = self.comp_frame(n, fr)
        ctx.append(n)
        ctx.append(('tmp', acc))
        ctx.append(f)

        def rec(i, it):
            g = n.generators[i]
            ctx.append(('tmp', it))
            m = len(ctx)
            try:
                while True:
                    self.head(g, f, it)
                    v = self.next(it)
                    if v is MISSING:
                        break
                    yield from self.assign(g.target, v, f)
                    ok = True
                    for c in g.ifs:
                        cv = yield from self.ev(c, f)
                        if not self.truth(cv):
                            ok = False
                            break
                    if not ok:
                        continue
                    if i + 1 < len(n.generators):
                        nx = yield from self.ev(n.generators[i + 1].iter, f)
                        yield from rec(i + 1, self.iter(nx))
                    else:
                        yield from add(f)
            finally:
                del ctx[m - 1:]
        it0 = self.iter(first)
        if type(n) is ast.ListComp and len(n.generators) == 1:
            segs = self.natives.map_segs(self, n, it0, lambda v: self.comp_value(
                n, self.comp_frame(n, fr), v))
            if segs is not None:
                acc.segs = segs
                del ctx[mark:]
                return
        yield from rec(0, it0)
        del ctx[mark:]

    def ev_GeneratorExp(self, n, fr):
        first = yield from self.ev(n.generators[0].iter, fr)
        it = self.iter(first)
        fn = Func(n, '<genexpr>', fr.module if fr.kind != 'function' else fr.func.module, fr, (), {},
                  fr.cls_name if hasattr(fr, 'cls_name') else (fr.func.cls_name if fr.func else None))
        f = self.comp_frame(n, fr)
        g = Gen(fn, f, None, [f, ('tmp', it)])
        g.cur_exc = []
        g.g = self.genexp_body(n, f, it, g.ctx)
        if len(n.generators) == 1:
            g.comp = (n, f, it)
        return g

    def genexp_body(self, n, f, it0, ctx):
        def rec(i, it):
            g = n.generators[i]
            if i:
                ctx.append(('tmp', it))
            m = len(ctx)
            try:
                while True:
                    self.head(g, f, it)
                    v = self.next(it)
                    if v is MISSING:
                        break
                    yield from self.assign(g.target, v, f)
                    ok = True
                    for c in g.ifs:
                        cv = yield from self.ev(c, f)
                        if not self.truth(cv):
                            ok = False
                            break
                    if not ok:
                        continue
                    if i + 1 < len(n.generators):
                        nx = yield from self.ev(n.generators[i + 1].iter, f)
                        yield from rec(i + 1, self.iter(nx))
                    else:
                        x = yield from self.ev(n.elt, f)
                        ctx.append(n)
                        yield x
                        ctx.pop()
            finally:
                if i:
                    del ctx[m - 1:]
        yield from rec(0, it0)
        return None

    # ------------------------------------------------------------------ loop heads
    def head(self, node, fr, it=None):
        if it is not None:
            r = self.remaining(it)
            if r is not None and r <= 64:
                return  # a loop of known length: unrolled
        self.prog.explorer.loop_head(self, node)

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        ctx = self.st.ctxs[-1]
        for s in stmts:
            ctx.append(s)
            self.line = s.lineno
            st = self.st
            st.steps += 1
            if st.steps > 400000:
                raise Undecided('path too long')
            sig = yield from getattr(self, 'ex_' + type(s).__name__, self.ex_unknown)(s, fr)
            ctx.pop()
            if sig is not None:
                return sig
        return None

    def ex_unknown(self, s, fr):
        raise Undecided('statement %s' % type(s).__name__, self.where())
        yield

    def ex_Expr(self, s, fr):
        if type(s.value) is not ast.Constant:
            yield from self.ev(s.value, fr)

    def ex_Pass(self, s, fr):
        return None
        yield

    def ex_Break(self, s, fr):
        return BREAK
        yield

    def ex_Continue(self, s, fr):
        return CONTINUE
        yield

    def ex_Global(self, s, fr):
        return None
        yield

    ex_Nonlocal = ex_Global

    def ex_Return(self, s, fr):
        v = None
        if s.value is not None:
            v = yield from self.ev(s.value, fr)
        return _Sig('return', v)

    def ex_Assign(self, s, fr):
        v = yield from self.ev(s.value, fr)
        ctx = self.st.ctxs[-1]
        ctx.append(('tmp', v))
        for t in s.targets:
            yield from self.assign(t, v, fr)
        ctx.pop()

    def ex_AnnAssign(self, s, fr):
        if s.value is not None:
            v = yield from self.ev(s.value, fr)
            yield from self.assign(s.target, v, fr)

    def ex_AugAssign(self, s, fr):
        t = s.target
        ctx = self.st.ctxs[-1]
        if isinstance(t, ast.Name):
            a = self.load(t.id, fr)
            ctx.append(('tmp', a))
            b = yield from self.ev(s.value, fr)
            ctx.pop()
            self.store(t.id, self.binop(s.op, a, b, True), fr)
            return
        o = yield from self.ev(t.value, fr)
        ctx.append(('tmp', o))
        if isinstance(t, ast.Attribute):
            n = self.mangle(t.attr, fr)
            a = self.getattr(o, n)
            ctx.append(('tmp', a))
            b = yield from self.ev(s.value, fr)
            ctx.pop()
            self.setattr(o, n, self.binop(s.op, a, b, True))
        else:
            i = yield from self.ev(t.slice, fr)
            a = self.getitem(o, i)
            ctx.append(('tmp', a))
            b = yield from self.ev(s.value, fr)
            ctx.pop()
            self.setitem(o, i, self.binop(s.op, a, b, True))
        ctx.pop()

    def ex_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.delete(t.id, fr)
            elif isinstance(t, ast.Attribute):
                o = yield from self.ev(t.value, fr)
                self.delattr(o, self.mangle(t.attr, fr))
            elif isinstance(t, ast.Subscript):
                o = yield from self.ev(t.value, fr)
                i = yield from self.ev(t.slice, fr)
                self.delitem(o, i)
            elif isinstance(t, (ast.Tuple, ast.List)):
                yield from self.ex_Delete(ast.Delete(targets=t.elts), fr)

    def ex_If(self, s, fr):
        c = yield from self.ev(s.test, fr)
        sig = yield from self.exec_block(s.body if self.truth(c) else s.orelse, fr)
        return sig

    def ex_Assert(self, s, fr):
        c = yield from self.ev(s.test, fr)
        if not self.truth(c):
            m = ()
            if s.msg is not None:
                m = ((yield from self.ev(s.msg, fr)),)
            self.raise_py('AssertionError', *m)

    def ex_While(self, s, fr):
        while True:
            self.head(s, fr)
            self.line = s.lineno
            c = yield from self.ev(s.test, fr)
            if not self.truth(c):
                sig = yield from self.exec_block(s.orelse, fr)
                return sig
            sig = yield from self.exec_block(s.body, fr)
            if sig is BREAK:
                return None
            if sig is not None and sig is not CONTINUE:
                return sig

    def ex_For(self, s, fr):
        v = yield from self.ev(s.iter, fr)
        it = self.iter(v)
        ctx = self.st.ctxs[-1]
        ctx.append(('tmp', it))
        while True:
            self.head(s, fr, it)
            self.line = s.lineno
            x = self.next(it)
            if x is MISSING:
                ctx.pop()
                sig = yield from self.exec_block(s.orelse, fr)
                return sig
            try:
                yield from self.assign(s.target, x, fr)
                sig = yield from self.exec_block(s.body, fr)
            except PyRaise:
                if type(it) is Gen and self.temp_gen(s.iter):
                    self.gen_close(it)
                raise
            if sig is BREAK:
                ctx.pop()
                if type(it) is Gen and self.temp_gen(s.iter):
                    self.gen_close(it)
                return None
            if sig is not None and sig is not CONTINUE:
                ctx.pop()
                if type(it) is Gen and self.temp_gen(s.iter):
                    self.gen_close(it)
                return sig

    def temp_gen(self, node):
        """an iterator that nothing else refers to is closed when the loop is left"""
        return not isinstance(node, (ast.Name, ast.Attribute))

    def ex_Try(self, s, fr):
        ctx = self.st.ctxs[-1]
        mark = len(ctx)
        sig = None
        pending = None
        try:
            try:
                sig = yield from self.exec_block(s.body, fr)
            except PyRaise as e:
                del ctx[mark:]
                h = yield from self.match_handler(s.handlers, e.exc, fr)
                if h is None:
                    raise
                sig = yield from self.run_handler(h, e.exc, fr)
            else:
                if sig is None:
                    sig = yield from self.exec_block(s.orelse, fr)
        except PyRaise as e:
            pending = e
        if not s.finalbody:
            if pending is not None:
                raise pending
            return sig
        del ctx[mark:]
        if pending is not None:
            ctx.append(('tmp', pending.exc))
            self.cur_exc = self.cur_exc + [pending.exc]
        elif sig is not None and sig.kind == 'return':
            ctx.append(('tmp', sig.val))
        ctx.append('finally-%s' % (sig.kind if sig is not None else pending is not None))
        fs = yield from self.exec_block(s.finalbody, fr)
        del ctx[mark:]
        if pending is not None:
            self.cur_exc = self.cur_exc[:-1]
        if fs is not None:
            return fs
        if pending is not None:
            raise pending
        return sig

    def match_handler(self, handlers, exc, fr):
        for h in handlers:
            if h.type is None:
                return h
            self.line = h.lineno
            t = yield from self.ev(h.type, fr)
            if self.isinstance(exc, t):
                return h
        return None

    def run_handler(self, h, exc, fr):
        ctx = self.st.ctxs[-1]
        ctx.append(('tmp', exc))
        ctx.append(h)
        if h.name:
            self.store(h.name, exc, fr)
        self.cur_exc = self.cur_exc + [exc]
        try:
            sig = yield from self.exec_block(h.body, fr)
        except PyRaise as e:
            if e.exc is not exc and '__context__' not in e.exc.attrs:
                e.exc.attrs['__context__'] = exc
            raise
        finally:
            self.cur_exc = self.cur_exc[:-1]
            if h.name:
                fr.vars.pop(h.name, None)
        ctx.pop()
        ctx.pop()
        return sig

    def ex_Raise(self, s, fr):
        if s.exc is None:
            if self.cur_exc:
                raise PyRaise(self.cur_exc[-1])
            self.raise_py('RuntimeError', 'No active exception to reraise')
        e = yield from self.ev(s.exc, fr)
        if isinstance(e, (Cls, BCls)):
            e = self.call(e)
        if s.cause is not None:
            yield from self.ev(s.cause, fr)
        if type(e) is Unk or type(e) is Ext:
            self.st.taint('raise of %r' % (e,))
            e = self.mkexc('Exception', 'unknown')
        if type(e) is not Inst:
            self.raise_py('TypeError', 'exceptions must derive from BaseException')
        raise PyRaise(e)

    def ex_With(self, s, fr):
        sig = yield from self.with_items(s.items, 0, s, fr)
        return sig

    def with_items(self, items, i, s, fr):
        if i == len(items):
            sig = yield from self.exec_block(s.body, fr)
            return sig
        ctx = self.st.ctxs[-1]
        mark = len(ctx)
        cm = yield from self.ev(items[i].context_expr, fr)
        self.line = s.lineno
        enter, exit_ = self.special(cm, '__enter__'), self.special(cm, '__exit__')
        ctx.append(('tmp', cm))
        v = self.call(enter, [])
        pend = None
        sig = None
        try:
            if items[i].optional_vars is not None:
                yield from self.assign(items[i].optional_vars, v, fr)
            ctx.append(('with', i))
            sig = yield from self.with_items(items, i + 1, s, fr)
        except PyRaise as e:
            pend = e
        del ctx[mark + 1:]
        self.line = s.lineno
        if pend is not None:
            ctx.append(('tmp', pend.exc))
            self.cur_exc = self.cur_exc + [pend.exc]
            try:
                r = self.call(exit_, [self.type_of(pend.exc), pend.exc, self.traceback(pend.exc)])
            finally:
                self.cur_exc = self.cur_exc[:-1]
            del ctx[mark:]
            if not self.truth(r):
                raise pend
            return None
        if sig is not None and sig.kind == 'return':
            ctx.append(('tmp', sig.val))
        self.call(exit_, [None, None, None])
        del ctx[mark:]
        return sig

    def traceback(self, exc):
        tb = exc.attrs.get('_sa_tb')
        if tb is None:
            tb = exc.attrs['_sa_tb'] = self.st.sym('traceback', 'object')
        return tb

    def special(self, o, name):
        """special method lookup (on the type)"""
        if type(o) in (Unk, Ext):
            self.st.taint('context manager %r' % (o,))
            return Native(name, lambda I, a, k: Unk('context') if name == '__enter__' else None)
        if type(o) in (Sym, App, Elem):
            return self.getattr(o, name)
        cls = self.type_of(o)
        v = self.class_lookup(cls, name)
        if v is MISSING:
            self.raise_py('TypeError' if name == '__enter__' else 'TypeError',
                          "'%s' object does not support the context manager protocol" % cls.name)
        return self.bind(v, o, cls)

    # definitions
    def mkfunc(self, n, fr, name):
        a = n.args
        defaults = []
        for d in a.defaults:
            v = yield from self.ev(d, fr)
            defaults.append(v)
        kwd = {}
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                v = yield from self.ev(d, fr)
                kwd[x.arg] = v
        mod = fr.module if fr.kind != 'function' else fr.func.module
        parent = fr if fr.kind != 'module' else None
        if fr.kind == 'class':
            parent = fr.parent if fr.parent is None or fr.parent.kind != 'module' else None
        cn = fr.cls_name if hasattr(fr, 'cls_name') else (fr.func.cls_name if fr.func else None)
        f = Func(n, name, mod, parent, tuple(defaults), kwd, cn)
        if fr.kind == 'class':
            f.owner_frame = fr
            fr.funcs.append(f)
        else:
            g = fr
            while g is not None and g.kind != 'function':
                g = g.parent
            f.owner = g.func.owner if g is not None and g.func is not None else None
        f.static = self.prog.loading
        return f

    def ex_FunctionDef(self, s, fr):
        f = yield from self.mkfunc(s, fr, s.name)
        v = f
        decs = []
        for d in s.decorator_list:
            x = yield from self.ev(d, fr)
            decs.append(x)
        for d in reversed(decs):
            self.line = s.lineno
            v = self.call(d, [v])
        self.store(s.name, v, fr)

    def ex_AsyncFunctionDef(self, s, fr):
        self.store(s.name, Unk('async function'), fr)
        return None
        yield

    def ex_ClassDef(self, s, fr):
        bases = []
        for b in s.bases:
            v = yield from self.ev(b, fr)
            bases.append(v)
        kw = {}
        for k in s.keywords:
            kw[k.arg] = yield from self.ev(k.value, fr)
        mod = fr.module if fr.kind != 'function' else fr.func.module
        cf = Frame(None, fr if fr.kind != 'module' else None, 'class')
        cf.module = mod
        cf.cls_name = s.name
        cf.funcs = []
        if fr.kind == 'class':
            cf.parent = fr.parent
        self.st.ctxs[-1].append(cf)
        sig = yield from self.exec_block(s.body, cf)
        self.st.ctxs[-1].pop()
        c = self.mkclass(s.name, bases, cf.vars, mod, s, kw)
        for f in cf.funcs:
            f.owner = c
        v = c
        for d in reversed(s.decorator_list):
            dv = yield from self.ev(d, fr)
            v = self.call(dv, [v])
        self.store(s.name, v, fr)

    def mkclass(self, name, bases, attrs, mod, node, kw):
        real = []
        proto = ext = False
        for b in bases:
            if isinstance(b, Ext):
                if b.path in ('typing.Protocol', 'typing_extensions.Protocol'):
                    proto = True
                    continue
                if b.path.startswith('typing.'):
                    continue
                ext = True
                continue
            if isinstance(b, Unk):
                self.st.taint('base class %r of %s' % (b, name))
                continue
            real.append(b)
        if not real:
            real = [self.bcls('object')]
        c = Cls(name, real, attrs, mod, node)
        c.protocol = proto
        c.ext_base = ext
        c.static = self.prog.loading
        c.mro = self.c3(c)
        c.any_exc = any(getattr(k, 'any_exc', False) for k in c.mro[1:])
        meta = kw.get('metaclass')
        if meta is None:
            for k in c.mro[1:]:
                if isinstance(k, Cls) and k.meta is not None:
                    meta = k.meta
                    break
        c.meta = meta if isinstance(meta, (Cls, BCls)) else None
        for n, v in attrs.items():
            if type(v) is Inst:
                sn = self.class_lookup(v.cls, '__set_name__')
                if sn is not MISSING:
                    self.call(sn, [v, c, n])
        for k in c.mro[1:]:
            isub = k.attrs.get('__init_subclass__') if isinstance(k, Cls) else None
            if isub is not None:
                f = isub.f if type(isub) in (ClassM, StaticM) else isub
                self.call(f, [c], {a: b for a, b in kw.items() if a != 'metaclass'})
                break
        return c

    def c3(self, c):
        def merge(ls):
            out = []
            ls = [list(l) for l in ls if l]
            while ls:
                for l in ls:
                    h = l[0]
                    if not any(h in m[1:] for m in ls):
                        break
                else:
                    self.raise_py('TypeError', 'Cannot create a consistent MRO')
                out.append(h)
                for l in ls:
                    if l[0] is h:
                        l.pop(0)
                ls = [l for l in ls if l]
            return out
        return tuple([c] + merge([self.mro(b) for b in c.bases] + [c.bases]))

    # imports
    def ex_Import(self, s, fr):
        for a in s.names:
            m = self.prog.import_module(self, a.name)
            if a.asname:
                self.store(a.asname, m, fr)
            else:
                self.store(a.name.split('.')[0],
                           self.prog.import_module(self, a.name.split('.')[0]), fr)
        return None
        yield

    def ex_ImportFrom(self, s, fr):
        mod = fr.module if fr.kind != 'function' else fr.func.module
        name = s.module or ''
        if s.level:
            parts = mod.name.split('.')
            if not mod.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        if name == '__future__':
            return None
        m = self.prog.import_module(self, name)
        for a in s.names:
            if a.name == '*':
                if type(m) is not Mod:
                    self.st.taint('import * from %r' % (m,))
                    continue
                al = m.vars.get('__all__')
                names = self.concrete(al) if al is not None else \
                    [n for n in m.vars if not n.startswith('_')]
                for n in names:
                    self.store(n, self.mod_attr(m, n), fr)
                continue
            self.line = s.lineno
            sub = self.prog.try_submodule(self, name, a.name, m)
            if sub is not None:
                v = sub
            else:
                try:
                    v = self.getattr(m, a.name)
                except PyRaise as e:
                    self.raise_py('ImportError', 'cannot import name %r from %r' % (a.name, name))
            self.store(a.asname or a.name, v, fr)
        return None
        yield

    # match statement
    def ex_Match(self, s, fr):
        v = yield from self.ev(s.subject, fr)
        for c in s.cases:
            ok = yield from self.match(c.pattern, v, fr)
            if ok and c.guard is not None:
                g = yield from self.ev(c.guard, fr)
                ok = self.truth(g)
            if ok:
                sig = yield from self.exec_block(c.body, fr)
                return sig

    def match(self, p, v, fr):
        k = type(p)
        if k is ast.MatchValue:
            w = yield from self.ev(p.value, fr)
            return self.eq(v, w)
        if k is ast.MatchSingleton:
            return self.is_(v, p.value)
        if k is ast.MatchAs:
            if p.pattern is not None:
                ok = yield from self.match(p.pattern, v, fr)
                if not ok:
                    return False
            if p.name:
                self.store(p.name, v, fr)
            return True
        if k is ast.MatchOr:
            for x in p.patterns:
                ok = yield from self.match(x, v, fr)
                if ok:
                    return True
            return False
        if k is ast.MatchClass and not p.patterns and not p.kwd_patterns:
            c = yield from self.ev(p.cls, fr)
            return self.isinstance(v, c)
        if k is ast.MatchSequence:
            if type(v) not in (tuple, Seq):
                return False
            vals = self.concrete(v)
            if any(isinstance(x, ast.MatchStar) for x in p.patterns):
                raise Undecided('star pattern')
            if len(vals) != len(p.patterns):
                return False
            for x, w in zip(p.patterns, vals):
                ok = yield from self.match(x, w, fr)
                if not ok:
                    return False
            return True
        raise Undecided('pattern %s' % k.__name__)


def _tok_safe(v):
    from .vals import _tok
    try:
        return _tok(v)
    except Exception:
        return (type(v).__name__, id(v))


def inst_key(base, y):
    """the sorting key term of a value y by base's order template"""
    if base.order is None:
        return None
    if base.order is HOLE:
        return y
    return subst(base.order, lambda x: y if type(x) is Sym and x == HOLE else None)
