"""The analysed program: modules of the repository, stubs of the standard library, scenarios."""
import ast
import os
from . import seqs
from .vals import *
from .state import State, Oracle, Cut, Undecided
from .interp import Interp, PyRaise, MISSING, drive, scope_of
from .natives import Natives, lift

HERE = os.path.dirname(os.path.abspath(__file__))
STUBS = os.path.join(HERE, 'stubs')
SCEN = os.path.join(HERE, 'scen')


class AnalysisError(Exception):
    pass


class Hook:
    def __init__(self, enter=None, exit=None, replace=None):
        self.enter, self.exit, self.replace = enter, exit, replace


class Program:
    def __init__(self, repo):
        self.repo = os.path.abspath(repo)
        self.modules = {}
        self.hooks = {}
        self.monitors = []
        self.new_hooks = {}
        self.shared_read = self.shared_write = None
        self.loading = 0
        self.note_func = None
        self.explorer = None
        self.sids = {}
        self.skeep = []
        self.trees = {}
        self.natives = Natives(self)
        self.funcs_seen = set()
        for n, c in self.natives.hid.items():
            pass
        self.load_taints = []
        self.cur = None
        self.sites = set()

    # ---------------------------------------------------------------- identity of static objects
    def sid(self, o):
        r = self.sids.get(id(o))
        if r is None:
            r = self.sids[id(o)] = len(self.sids)
            self.skeep.append(o)
        return r

    def obj_token(self, I, o):
        t = I.st.__dict__.setdefault('tokens', {})
        r = t.get(id(o))
        if r is None:
            r = I.st.sym('obj', 'object')
            t[id(o)] = r
            t[('k', id(o))] = o
        return r

    def func_key(self, f):
        return (f.owner.name if f.owner is not None else f.module.name, f.name)

    def begin(self, I):
        self.cur = I

    def seen(self, f):
        self.funcs_seen.add(f)

    # ---------------------------------------------------------------- modules
    def locate(self, name):
        """-> (path, is_pkg, stub) or None"""
        rel = name.replace('.', os.sep)
        if name == 'scen' or name.startswith('scen.'):
            roots = ((HERE, False),)
        else:
            roots = ((STUBS, True), (self.repo, False))
        for root, stub in roots:
            for cand, pkg in ((os.path.join(root, rel, '__init__.py'), True),
                              (os.path.join(root, rel + '.py'), False)):
                if os.path.isfile(cand):
                    return cand, pkg, stub
        return None

    def import_module(self, I, name):
        parts = name.split('.')
        m = None
        for i in range(1, len(parts) + 1):
            n = '.'.join(parts[:i])
            m = self.load(n)
            if m is None:
                if i > 1 and isinstance(self.modules.get('.'.join(parts[:i - 1])), Mod) and \
                        not self.modules['.'.join(parts[:i - 1])].stub:
                    I.raise_py('ModuleNotFoundError', 'No module named %r' % n)
                if parts[0] == 'stream2py':
                    I.raise_py('ModuleNotFoundError', 'No module named %r' % n)
                return Ext(name)
        return m

    def try_submodule(self, I, name, sub, m):
        """module name.sub for `from name import sub`, unless m has the attribute"""
        if type(m) is Mod and sub in m.vars:
            return None
        if type(m) is Ext:
            return self.load(m.path + '.' + sub)
        if type(m) is Mod and m.is_pkg:
            r = self.load(name + '.' + sub)
            return r
        return None

    def parse(self, path):
        t = self.trees.get(path)
        if t is None:
            with open(path, encoding='utf-8') as f:
                src = f.read()
            try:
                t = self.trees[path] = ast.parse(src, path)
            except SyntaxError as e:
                raise AnalysisError('%s does not parse: %s' % (path, e))
        return t

    def require(self, name):
        """import a module of the repository (its packages first)"""
        parts = name.split('.')
        m = None
        for i in range(1, len(parts) + 1):
            m = self.load('.'.join(parts[:i]))
        if m is None:
            raise AnalysisError('no module %s' % name)
        return m

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name == 'sa':
            from .intrinsics import make
            m = Mod('sa')
            m.loaded, m.stub, m.is_pkg = True, True, False
            m.static = True
            make(self, m)
            self.modules[name] = m
            return m
        loc = self.locate(name)
        if loc is None:
            return None
        path, pkg, stub = loc
        tree = self.parse(path)
        m = Mod(name, path)
        m.loaded, m.stub, m.is_pkg, m.static = False, stub, pkg, True
        self.modules[name] = m
        m.vars['__name__'] = name
        self.sid(m)
        st = State(Oracle([]))
        I = Interp(self, st)
        fr = Frame(None, None, 'module')
        fr.module, fr.cls_name, fr.vars = m, None, m.vars
        fr.static = True
        self.loading += 1
        try:
            drive(I.exec_block(tree.body, fr))
        except PyRaise as e:
            self.modules.pop(name, None)
            if self.loading > 1:
                raise
            raise AnalysisError('importing %s raises %r at %s' % (
                name, e.exc, getattr(e.exc, 'internal', I.where())))
        finally:
            self.loading -= 1
        if st.oracle.taken:
            raise AnalysisError('import of %s depends on unknown values: %s' % (name, st.branches))
        if not stub:
            self.load_taints += ['%s: %s' % (name, t) for t in st.taints]
        m.loaded = True
        self.mark_static(m)
        return m

    def mark_static(self, m):
        todo = list(m.vars.values())
        seen = set()
        while todo:
            o = todo.pop()
            if isinstance(o, tuple):
                todo += o
                continue
            if isinstance(o, Bound):
                todo += [o.func, o.self]
                continue
            if not isinstance(o, Obj) or id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, (BCls, Mod, Native)):
                continue
            o.static = True
            if isinstance(o, (Inst, Cls, Func)):
                todo += o.attrs.values()
                if isinstance(o, Func):
                    todo += list(o.defaults) + list(o.kwdefaults.values())
                    if o.parent is not None:
                        todo.append(o.parent)
                elif isinstance(o, Inst):
                    todo.append(o.cls)
                else:
                    todo += o.bases
            elif isinstance(o, Seq):
                todo += [s.v for s in o.segs if type(s) is Elt]
                if o.attrs:
                    todo += o.attrs.values()
            elif isinstance(o, DictV):
                todo += [x for kv in o.items for x in kv]
            elif isinstance(o, SetV):
                todo += o.vals
            elif isinstance(o, Frame):
                todo += o.vars.values()
                if o.parent is not None:
                    todo.append(o.parent)
            elif isinstance(o, PropV):
                todo += [o.fget, o.fset, o.fdel]
            elif isinstance(o, (StaticM, ClassM)):
                todo.append(o.f)
            elif isinstance(o, Partial):
                todo += [o.func] + list(o.args) + list(o.kw.values()) + list(o.attrs.values())

    # ---------------------------------------------------------------- what is not modelled
    IDENT = ('typing.runtime_checkable', 'typing.final', 'typing.overload', 'typing.no_type_check',
             'typing_extensions.runtime_checkable', 'abc.abstractproperty')

    def ext_attr(self, I, e, name):
        p = e.path + '.' + name
        if p == 'typing.TYPE_CHECKING':
            return False
        if p in ('sys.maxsize',):
            return 2 ** 63 - 1
        if p in ('os.sep',):
            return '/'
        return Ext(p)

    def ext_call(self, I, e, args, kw):
        p = e.path
        if p in self.IDENT:
            return args[0]
        if p == 'typing.NewType':
            n = args[0]
            return Native(n, lambda I, a, k: a[0])
        if p in ('typing.cast', 'typing_extensions.cast'):
            return args[1]
        if p.startswith('typing.') or p.startswith('typing_extensions.'):
            return Ext(p + '()')
        if p == 'builtins.Ellipsis':
            I.raise_py('TypeError', "'ellipsis' object is not callable")
        I.st.taint('call of %s, which is not modelled (%s)' % (p, I.where()))
        return Unk('result of ' + p)

    ABCS = {'Iterable': ('__iter__',), 'Iterator': ('__iter__', '__next__'), 'Sized': ('__len__',),
            'Container': ('__contains__',), 'Callable': ('__call__',), 'Hashable': ('__hash__',),
            'Mapping': ('__getitem__', 'keys', 'items'), 'MutableMapping': ('__setitem__', 'keys'),
            'Sequence': None, 'Generator': None, 'Dict': None, 'List': None, 'Tuple': None,
            'Set': None, 'Collection': ('__len__', '__iter__', '__contains__'),
            'Reversible': ('__reversed__',), 'Number': None, 'Integral': None, 'Real': None}

    def ext_isinstance(self, I, v, e):
        """isinstance with a class that is not modelled: True / False / None (unknown)"""
        n = e.path.split('.')[-1]
        if not (e.path.startswith('typing.') or e.path.startswith('collections.abc.')
                or e.path.startswith('numbers.')) or n not in self.ABCS:
            return None
        t = type(v)
        if n in ('Number', 'Real', 'Integral'):
            if t in (int, bool, LinV):
                return True
            if t is float:
                return n != 'Integral'
            if v is None or t in (str, bytes, tuple, Inst, Seq, DictV, Func):
                return False
            if t in (Sym, App, Elem) and v.kind == 'num':
                return True if n != 'Integral' else I.num_isa(v, I.bcls('int'))
            return None
        if t in (Sym, App, Elem):
            if v.kind == 'dict':
                return n in ('Mapping', 'Dict', 'MutableMapping', 'Iterable', 'Sized', 'Container',
                             'Collection')
            if v.kind == 'callable' and n == 'Callable':
                return True
            if v.kind in ('num', 'key', 'callable'):
                return False
            return None
        isd, iss = t is DictV, t in (Seq, tuple, str, bytes, RangeV)
        if n in ('Mapping', 'MutableMapping', 'Dict'):
            if isd:
                return True
            if t is not Inst:
                return False
        if n in ('Sequence', 'List', 'Tuple'):
            if n == 'Sequence':
                return iss and not (t is Seq and self.natives.is_deque(v))
            return (t is Seq and not self.natives.is_deque(v)) if n == 'List' else t is tuple
        if n == 'Set':
            return t is SetV
        if n == 'Generator':
            return t is Gen
        if n in ('Iterable', 'Sized', 'Container', 'Collection', 'Reversible'):
            if isd or iss or t is SetV:
                return True
            if t in (Gen, Iter):
                return n == 'Iterable'
        if n == 'Iterator':
            if t in (Gen, Iter):
                return True
        if n == 'Callable':
            return I.truth(I.call(self.builtins['callable'], [v]))
        if t is Inst:
            return all(I.class_lookup(v.cls, m) is not MISSING for m in self.ABCS[n])
        return False

    def open_file(self, I, a, k):
        h = self.load('builtins_open')
        return I.call(h.vars['open'], a, k)
