"""Whole-program name, attribute and call resolution over the syntax trees (property C31).

Every name a function or class body refers to, every attribute a method takes from its own instance
or class, every name imported from a module, and every call whose callee is a function, class or
method of the library is resolved in the source.  What cannot be resolved either way (a base class
from elsewhere, attributes set under computed names) is left alone and counted."""
import ast
import builtins
import glob
import importlib
import inspect
import os
import symtable
import sys

MODULE_NAMES = set(dir(builtins)) | {
    '__file__', '__name__', '__doc__', '__builtins__', '__spec__', '__loader__', '__package__',
    '__path__', '__annotations__', '__cached__', '__dict__', '__class__', '__module__',
    '__qualname__'}
KNOWN_DECORATORS = {'staticmethod', 'classmethod', 'property', 'abstractmethod', 'contextmanager',
                    'abc.abstractmethod', 'contextlib.contextmanager', 'lru_cache', 'cache'}
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FUNCS + (ast.Lambda, ast.ClassDef)


class Mod:
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.names, self.star, self.later = {}, [], set()
        self.future = False
        bind_block(self, self.tree.body)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                for x in n.names:
                    self.names.setdefault(x, []).append(n)

    def __repr__(self):
        return self.name


def target_names(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from target_names(e)
    elif isinstance(t, ast.Starred):
        yield from target_names(t.value)


def pattern_names(p):
    for n in ast.walk(p):
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            yield n.name
        elif isinstance(n, ast.MatchMapping) and n.rest:
            yield n.rest


def walk_here(n, into=()):
    """the nodes of n outside nested functions and classes"""
    todo = [n]
    while todo:
        x = todo.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if isinstance(c, SCOPES) and not isinstance(c, into):
                yield c
                # decorators, defaults, bases are evaluated here
                if isinstance(c, FUNCS):
                    todo += c.decorator_list + c.args.defaults + [d for d in c.args.kw_defaults if d]
                elif isinstance(c, ast.Lambda):
                    todo += c.args.defaults + [d for d in c.args.kw_defaults if d]
                else:
                    todo += c.decorator_list + c.bases + [k.value for k in c.keywords]
            else:
                todo.append(c)


def is_type_checking(test):
    return isinstance(test, ast.Name) and test.id == 'TYPE_CHECKING' or \
        isinstance(test, ast.Attribute) and test.attr == 'TYPE_CHECKING'


def bind_block(m, body):
    def bind(name, node):
        m.names.setdefault(name, []).append(node)
    for s in body:
        if isinstance(s, FUNCS + (ast.ClassDef,)):
            bind(s.name, s)
            continue
        if isinstance(s, ast.If) and is_type_checking(s.test):
            bind_block(m, s.orelse)
            continue
        for n in walk_here(s):
            if isinstance(n, FUNCS + (ast.ClassDef,)) and n is not s:
                bind(n.name, n)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                bind(n.id, s)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    bind(a.asname or a.name.split('.')[0], (n, a))
            elif isinstance(n, ast.ImportFrom):
                if n.module == '__future__':
                    m.future = m.future or any(a.name == 'annotations' for a in n.names)
                for a in n.names:
                    if a.name == '*':
                        m.star.append(n)
                    else:
                        bind(a.asname or a.name, (n, a))
            elif isinstance(n, ast.ExceptHandler) and n.name:
                bind(n.name, n)
            elif isinstance(n, ast.match_case):
                for x in pattern_names(n.pattern):
                    bind(x, n)


def stdlib(name):
    top = name.split('.')[0]
    if top not in sys.stdlib_module_names or top in ('this', 'antigravity', 'idlelib', 'test',
                                                     '__main__', 'turtle'):
        return None
    try:
        return importlib.import_module(name)
    except Exception:
        return None


class Ext:
    """something of a standard library module"""

    def __init__(self, obj, is_module=False):
        self.obj, self.is_module = obj, is_module


class Cls:
    def __init__(self, node, mod, outer=None):
        self.node, self.mod, self.outer = node, mod, outer
        self.name = node.name
        self.methods = {}
        self.attrs = set()
        for s in node.body:
            self._body(s)
        for n in ast.walk(node):
            # attributes set on the class or on objects made by its own factories
            pass

    def _body(self, s):
        if isinstance(s, FUNCS):
            self.methods.setdefault(s.name, []).append(s)
            self.attrs.add(s.name)
            return
        if isinstance(s, ast.AnnAssign) and s.value is None:
            return
        for n in walk_here(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.attrs.add(n.id)
            elif isinstance(n, FUNCS + (ast.ClassDef,)):
                self.attrs.add(n.name)
                if isinstance(n, FUNCS):
                    self.methods.setdefault(n.name, []).append(n)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.attrs.add(a.asname or a.name.split('.')[0])
        if isinstance(s, ast.ClassDef):
            self.attrs.add(s.name)

    def __repr__(self):
        return self.name


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    parts = []
    while isinstance(d, ast.Attribute):
        parts.append(d.attr)
        d = d.value
    if isinstance(d, ast.Name):
        parts.append(d.id)
        return '.'.join(reversed(parts))
    return '?'


def mangle(name, cls):
    if name.startswith('__') and not name.endswith('__') and cls.name.strip('_'):
        return '_%s%s' % (cls.name.lstrip('_'), name)
    return name


class Resolver:
    def __init__(self, repo):
        self.repo = repo
        self.mods, self.failures, self.funcs = {}, [], set()
        self.counts = dict.fromkeys(('names', 'locals', 'attributes', 'imports', 'calls',
                                     'left alone'), 0)
        for p in sorted(glob.glob(os.path.join(repo, 'stream2py', '**', '*.py'), recursive=True)):
            rel = os.path.relpath(p, repo)
            parts = rel[:-3].split(os.sep)
            if 'tests' in parts:
                continue
            pkg = parts[-1] == '__init__'
            name = '.'.join(parts[:-1] if pkg else parts)
            self.mods[name] = Mod(name, p, pkg)
        for extra in ('pack.py',):
            p = os.path.join(repo, extra)
            if os.path.exists(p):
                self.mods[extra[:-3]] = Mod(extra[:-3], p, False)
        self.classes = []
        for m in self.mods.values():
            self.find_classes(m, m.tree, None)
        self.by_node = {c.node: c for c in self.classes}

    def find_classes(self, m, node, outer):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.ClassDef):
                self.classes.append(Cls(c, m, node))
            self.find_classes(m, c, c)

    def fail(self, m, node, message, where=''):
        self.failures.append({
            'message': message, 'widened': False,
            'where': '%s:%s%s' % (os.path.relpath(m.path, self.repo),
                                  getattr(node, 'lineno', '?'), ' ' + where if where else '')})

    # -- modules and names ------------------------------------------------------------------------

    def import_base(self, m, n):
        """the absolute module name of a from-import"""
        if not n.level:
            return n.module
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)] if n.level > 1 else parts
        return '.'.join(parts + ([n.module] if n.module else []))

    def star_names(self, m, seen=()):
        """names a star import may bring, or None when it cannot be told"""
        out = set()
        for n in m.star:
            base = self.import_base(m, n)
            if base in self.mods:
                b = self.mods[base]
                if b in seen:
                    continue
                sub = self.star_names(b, seen + (m,))
                if sub is None:
                    return None
                out |= set(b.names) | sub
            else:
                s = stdlib(base)
                if s is None:
                    return None
                out |= set(dir(s))
        return out

    def module_has(self, m, name):
        if name in m.names or name in MODULE_NAMES or '__getattr__' in m.names:
            return True
        if m.is_pkg and m.name + '.' + name in self.mods:
            return True
        star = self.star_names(m)
        return star is None or name in star

    def lookup(self, m, name, depth=0):
        """what a module-level name stands for: Mod, Cls, function node, Ext or None (unknown)"""
        bs = m.names.get(name)
        if not bs or depth > 20:
            if name in MODULE_NAMES and hasattr(builtins, name) and not bs:
                return Ext(getattr(builtins, name))
            if not bs:
                for n in m.star:
                    base = self.import_base(m, n)
                    if base in self.mods and self.module_has(self.mods[base], name):
                        return self.lookup(self.mods[base], name, depth + 1)
            return None
        if len(bs) > 1:
            vals = [self.bound(m, b, name, depth) for b in bs]
            v = vals[0]
            return v if v is not None and all(
                x is v or isinstance(x, Ext) and isinstance(v, Ext) and x.obj is v.obj
                for x in vals) else None
        return self.bound(m, bs[0], name, depth)

    def bound(self, m, b, name, depth):
        if isinstance(b, ast.ClassDef):
            return self.by_node.get(b)
        if isinstance(b, FUNCS):
            return b
        if isinstance(b, tuple):
            n, a = b
            if isinstance(n, ast.Import):
                target = a.name if a.asname else a.name.split('.')[0]
                if target in self.mods:
                    return self.mods[target]
                s = stdlib(target)
                return Ext(s, True) if s is not None else None
            base = self.import_base(m, n)
            if base in self.mods:
                b2 = self.mods[base]
                if a.name in b2.names or not (base + '.' + a.name in self.mods):
                    return self.lookup(b2, a.name, depth + 1)
                return self.mods[base + '.' + a.name]
            s = stdlib(base or '')
            if s is not None and hasattr(s, a.name):
                o = getattr(s, a.name)
                return Ext(o, inspect.ismodule(o))
            return None
        if isinstance(b, ast.Assign) and isinstance(b.value, ast.Name) and b.value.id != name:
            return self.lookup(m, b.value.id, depth + 1)
        return None

    def resolve(self, m, e, local):
        """what an expression stands for (names not bound locally, attributes of modules)"""
        if isinstance(e, ast.Name):
            return None if e.id in local else self.lookup(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve(m, e.value, local)
            if isinstance(b, Mod):
                if b.is_pkg and e.attr not in b.names and b.name + '.' + e.attr in self.mods:
                    return self.mods[b.name + '.' + e.attr]
                return self.lookup(b, e.attr)
            if isinstance(b, Ext) and b.is_module and hasattr(b.obj, e.attr):
                o = getattr(b.obj, e.attr)
                return Ext(o, inspect.ismodule(o))
        if isinstance(e, ast.Subscript):
            return self.resolve(m, e.value, local)
        return None

    # -- rule (a): names --------------------------------------------------------------------------

    def check_names(self, m):
        annotation = set()
        for n in ast.walk(m.tree):
            anns = []
            if isinstance(n, ast.arg):
                anns.append(n.annotation)
            elif isinstance(n, FUNCS):
                anns.append(n.returns)
            elif isinstance(n, ast.AnnAssign):
                anns.append(n.annotation)
            for a in anns:
                if a is not None:
                    annotation |= {x for x in ast.walk(a)}
        lazy = annotation if m.future else set()
        self._scope(m, m.tree, symtable.symtable(m.src, m.path, 'exec'), lazy, [])
        for n in ast.walk(m.tree):
            if isinstance(n, FUNCS):
                self.funcs.add('%s:%s %s' % (os.path.relpath(m.path, self.repo), n.lineno, n.name))
                self.check_locals(m, n)

    def _scope(self, m, node, table, lazy, stack):
        """implicit globals of one scope, by the compiler's own scoping rules"""
        glob_names = set()
        for t in [table]:
            for s in t.get_symbols():
                if s.is_referenced() and (s.is_global() or t.get_type() == 'module'):
                    glob_names.add(s.get_name())
        # names bound by an enclosing class body are not seen by functions: symtable knows
        uses = {}
        kids = [c for c in table.get_children() if not c.get_name() in ('__annotate__',)]
        nodes = child_scopes(node)
        pairs, used, inlined = [], set(), set()
        for c in kids:
            for k in nodes:
                if k not in used and scope_name(k) == c.get_name() and k.lineno == c.get_lineno():
                    used.add(k)
                    pairs.append((k, c))
                    break
        here = list(walk_here_scope(node))
        todo = [k for k in nodes if k not in used and isinstance(k, COMPS)]
        while todo:             # comprehensions the compiler inlines
            k = todo.pop()
            for n in walk_here_scope(k):
                here.append(n)
                if isinstance(n, COMPS):
                    for c in kids:
                        if scope_name(n) == c.get_name() and n.lineno == c.get_lineno():
                            pairs.append((n, c))
                            break
                    else:
                        todo.append(n)
                elif isinstance(n, ast.Lambda):
                    for c in kids:
                        if c.get_name() == 'lambda' and n.lineno == c.get_lineno():
                            pairs.append((n, c))
                            break
        for n in here:
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in glob_names \
                    and n not in lazy:
                uses.setdefault(n.id, n)
                self.counts['names'] += 1
        for name, n in sorted(uses.items(), key=lambda x: x[1].lineno):
            if not self.module_has(m, name):
                self.fail(m, n, 'the name "%s" is not defined' % name,
                          '.'.join(getattr(x, 'name', '<lambda>') for x in stack[-2:]))
        for k, c in pairs:
            self._scope(m, k, c, lazy, stack + [k])

    def check_locals(self, m, f):
        """a local name read where no path can have bound it"""
        flow = Locals(self, m, f)
        flow.run()

    # -- imports ----------------------------------------------------------------------------------

    def check_imports(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                base = self.import_base(m, n)
                for a in n.names:
                    if a.name == '*':
                        continue
                    self.counts['imports'] += 1
                    if base in self.mods:
                        b = self.mods[base]
                        if not self.module_has(b, a.name):
                            self.fail(m, n, '"%s" is imported from %s, which does not define it'
                                      % (a.name, base))
                    elif (base or '').split('.')[0] == 'stream2py' and 'tests' not in base:
                        self.fail(m, n, 'the module "%s" does not exist' % base)
                    else:
                        s = stdlib(base or '')
                        if s is not None and not hasattr(s, a.name) and \
                                stdlib('%s.%s' % (base, a.name)) is None:
                            if not guarded(m.tree, n, ('ImportError', 'AttributeError')):
                                self.fail(m, n, '"%s" is imported from %s, which does not define it'
                                          % (a.name, base))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.counts['imports'] += 1
                    if a.name.split('.')[0] == 'stream2py' and a.name not in self.mods and \
                            'tests' not in a.name:
                        self.fail(m, n, 'the module "%s" does not exist' % a.name)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and \
                    isinstance(n.value, ast.Name):
                # an attribute of a module that the name can only stand for
                pass

    def check_module_attributes(self, m):
        """attributes taken from modules: the library's own and the standard library's"""
        def visit(node, local):
            if isinstance(node, FUNCS + (ast.Lambda,)):
                local = local | bound_in(node)
            if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
                b = self.resolve(m, node.value, local)
                if isinstance(b, Mod):
                    self.counts['attributes'] += 1
                    if not self.module_has(b, node.attr):
                        self.fail(m, node, 'the module %s does not define "%s"' % (b, node.attr))
                elif isinstance(b, Ext) and b.is_module:
                    self.counts['attributes'] += 1
                    if not hasattr(b.obj, node.attr) and not guarded(
                            m.tree, node, ('AttributeError',)):
                        s = '%s.%s' % (b.obj.__name__, node.attr)
                        if stdlib(s) is None:
                            self.fail(m, node, 'the module %s does not define "%s"' % (
                                b.obj.__name__, node.attr))
            for c in ast.iter_child_nodes(node):
                visit(c, local)
        visit(m.tree, frozenset())

    # -- classes ----------------------------------------------------------------------------------

    def bases(self, c):
        """base classes: Cls, Ext or None (unknown)"""
        out = []
        local = enclosing_locals(c)
        for b in c.node.bases:
            v = self.resolve(c.mod, b, local)
            if isinstance(v, Ext) and not inspect.isclass(v.obj):
                # typing generics
                v = Ext(object) if getattr(v.obj, '__module__', '') == 'typing' else None
            out.append(v if isinstance(v, (Cls, Ext)) else None)
        return out

    def mro(self, c, _seen=()):
        """linearisation (C3) or None if a base is unknown"""
        if c in _seen:
            return None
        key = c
        if not hasattr(self, '_mro'):
            self._mro = {}
        if key in self._mro:
            return self._mro[key]
        r = self._mro_of(c, _seen + (c,))
        self._mro[key] = r
        return r

    def _mro_of(self, c, seen):
        seqs_, direct = [], []
        for b in self.bases(c):
            if b is None:
                return None
            if isinstance(b, Ext):
                seq = list(b.obj.__mro__)
            else:
                seq = self.mro(b, seen)
                if seq is None:
                    return None
            seqs_.append(list(seq))
            direct.append(seq[0])
        seqs_.append(direct)
        out = [c]
        while any(seqs_):
            for s in seqs_:
                if s and not any(s[0] in t[1:] for t in seqs_):
                    h = s[0]
                    break
            else:
                return None
            out.append(h)
            for s in seqs_:
                if s and s[0] is h:
                    s.pop(0)
        if object not in out:
            out.append(object)
        return out

    def subclasses(self, c):
        out = []
        for d in self.classes:
            if d is c:
                continue
            r = self.mro(d)
            if r is not None and c in r:
                out.append(d)
        return out

    def opaque(self, c, own=False):
        """can the class have attributes that the source does not name?  (own: attributes the class
        takes from itself; passing on the others to another object does not provide these)"""
        r = self.mro(c)
        if r is None:
            return 'a base class is not known'
        for d in r:
            if isinstance(d, Cls):
                if '__getattribute__' in d.attrs or '__getattr__' in d.attrs and not (
                        own and delegates(d.methods.get('__getattr__', ()))):
                    return 'it looks attributes up itself'
                for k in d.node.keywords:
                    if k.arg == 'metaclass':
                        v = self.resolve(d.mod, k.value, enclosing_locals(d))
                        if not isinstance(v, Ext):
                            return 'its metaclass is not known'
                for x in d.node.decorator_list:
                    if deco_name(x).split('.')[-1] not in ('total_ordering', 'runtime_checkable',
                                                           'final'):
                        return 'it is decorated'
                for n in ast.walk(d.node):
                    if isinstance(n, ast.Attribute) and n.attr == '__dict__':
                        return 'it changes its dictionary'
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.args:
                        if n.func.id == 'setattr' and not (
                                len(n.args) > 1 and isinstance(n.args[1], ast.Constant)):
                            return 'it sets attributes under computed names'
                        if n.func.id == 'vars':
                            return 'it uses vars()'
            elif d.__module__ == 'unittest.case':
                return 'it is a test case'
        return None

    def ext_attrs(self, k):
        out = set(dir(k))
        if k.__module__ in ('builtins',):
            return out
        try:
            tree = ast.parse(inspect.cleandoc('\n' + inspect.getsource(k)))
        except Exception:
            return out
        for n in ast.walk(tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                    isinstance(n.value, ast.Name):
                out.add(n.attr)
        return out

    def class_attrs(self, c):
        """names the class hierarchy itself provides"""
        out = set()
        for d in self.mro(c):
            if isinstance(d, Cls):
                out |= {mangle(a, d) for a in d.attrs}
                for n in ast.walk(d.node):
                    if isinstance(n, FUNCS) and any(deco_name(x) == 'classmethod'
                                                    for x in n.decorator_list):
                        p = first_param(n)
                        out |= {mangle(a.attr, d) for a in attr_stores(n, p)}
                # set on the class from elsewhere
                out |= self.set_on_class.get(d, set())
            else:
                out |= self.ext_attrs(d)
        for d in self.mro(c):
            if isinstance(d, Cls):
                for k in d.node.keywords:
                    if k.arg == 'metaclass':
                        v = self.resolve(d.mod, k.value, enclosing_locals(d))
                        if isinstance(v, Ext) and inspect.isclass(v.obj):
                            self.meta.setdefault(c, set()).update(dir(v.obj))
        return out

    def collect_class_stores(self):
        self.set_on_class, self.meta = {}, {}
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    v = self.resolve(m, n.value, frozenset())
                    if isinstance(v, Cls):
                        self.set_on_class.setdefault(v, set()).add(n.attr)
                    # __class__.x / type(self).x
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                        n.func.id == 'setattr' and len(n.args) == 3:
                    v = self.resolve(m, n.args[0], frozenset())
                    if isinstance(v, Cls) and isinstance(n.args[1], ast.Constant):
                        self.set_on_class.setdefault(v, set()).add(n.args[1].value)

    def find_method(self, c, name, after=None):
        """(definition, class) of a method in the linearisation of c"""
        r = self.mro(c)
        if r is None:
            return None
        if after is not None:
            if after not in r:
                return None
            r = r[r.index(after) + 1:]
        for d in r:
            if isinstance(d, Cls):
                if name in d.attrs:
                    fs = d.methods.get(name)
                    return (fs[-1], d) if fs else (None, d)
            elif d is not object and name in dir(d):
                return (None, d)
        return None

    def stores_of(self, c, f, d, depth=0, seen=None):
        """attributes stored on self by method f of d, and by the methods it calls on self"""
        seen = set() if seen is None else seen
        if f in seen or depth > 12:
            return set()
        seen.add(f)
        p = first_param(f)
        out = {mangle(a.attr, d) for a in attr_stores(f, p)}
        for n in ast.walk(f):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == p \
                    and isinstance(n.ctx, ast.Load):
                # a method (or property) of the same object
                g = self.find_method(c, mangle(n.attr, d))
                g = g or self.find_method(c, n.attr)
                if g and g[0] is not None:
                    out |= self.stores_of(c, g[0], g[1], depth + 1, seen)
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                    isinstance(n.value, ast.Name) and n.value.id == p:
                g = self.find_method(c, n.attr)
                if g and g[0] is not None:      # a property setter
                    for x in g[1].methods[n.attr]:
                        out |= self.stores_of(c, x, g[1], depth + 1, seen)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                b = n.func.value
                if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'super':
                    g = self.find_method(c, n.func.attr, after=d)
                    if g and g[0] is not None:
                        out |= self.stores_of(c, g[0], g[1], depth + 1, seen)
                else:
                    v = self.resolve(d.mod, b, enclosing_locals(d))
                    if isinstance(v, Cls) and n.args and isinstance(n.args[0], ast.Name) and \
                            n.args[0].id == p:
                        g = self.find_method(v, n.func.attr)
                        if g and g[0] is not None:
                            out |= self.stores_of(c, g[0], g[1], depth + 1, seen)
                        elif v in (self.mro(c) or ()):
                            pass
        return out

    def init_attrs(self, c):
        out = set()
        for name in ('__new__', '__init__', '__init_subclass__', '__set_name__'):
            g = self.find_method(c, name)
            if g and g[0] is not None:
                out |= self.stores_of(c, g[0], g[1])
        # objects made by the class's own factories and finished there
        for d in self.mro(c):
            if isinstance(d, Cls):
                for fs in d.methods.values():
                    for f in fs:
                        p = first_param(f)
                        made = {x for s in ast.walk(f) if isinstance(s, ast.Assign)
                                and isinstance(s.value, ast.Call) for t in s.targets
                                for x in target_names(t)}
                        for n in ast.walk(f):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                                    isinstance(n.value, ast.Name) and n.value.id in made:
                                out.add(mangle(n.attr, d))
        return out

    def anywhere(self, c):
        out = set()
        for d in self.mro(c):
            if isinstance(d, Cls):
                for fs in d.methods.values():
                    for f in fs:
                        out |= {mangle(a.attr, d) for a in attr_stores(f, first_param(f))}
        return out

    def entry_attrs(self, c, provided):
        """attributes every caller of a private method has set before calling it"""
        ms = {}
        for d in self.mro(c):
            if isinstance(d, Cls):
                for name, fs in d.methods.items():
                    for f in fs:
                        ms[f] = (d, name)
        all_attrs = self.anywhere(c)
        entry = {f: (set(all_attrs) if name.startswith('_') and not name.endswith('__') else set())
                 for f, (d, name) in ms.items()}
        refs = {f: [] for f in ms}
        for f, (d, name) in ms.items():
            p = first_param(f)
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and \
                        isinstance(n.value, ast.Name) and n.value.id == p and p:
                    for g, (e, gn) in ms.items():
                        if mangle(gn, e) == mangle(n.attr, d):
                            refs[g].append((f, n))
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    for g, (e, gn) in ms.items():
                        if gn == n.attr and not (isinstance(n.value, ast.Call) and isinstance(
                                n.value.func, ast.Name) and n.value.func.id == 'super'):
                            # through something else: nothing is known
                            if gn.startswith('_') and not gn.endswith('__'):
                                refs[g].append((f, n))
        changed = True
        while changed:
            changed = False
            for g in ms:
                if not entry[g]:
                    continue
                if not refs[g]:
                    new = set()
                else:
                    new = None
                    for f, n in refs[g]:
                        here = entry[f] | self.before(c, ms[f][0], f, n)
                        new = here if new is None else new & here
                if new != entry[g]:
                    entry[g] = new
                    changed = True
        return entry, ms

    def before(self, c, d, f, n):
        """attributes stored by f before position n (directly or by methods it called before)"""
        p = first_param(f)
        pos = (n.lineno, n.col_offset)
        out = {mangle(a.attr, d) for a in attr_stores(f, p)
               if (a.lineno, a.col_offset) < pos or inside_nested(f, n)}
        for x in ast.walk(f):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == p \
                    and isinstance(x.ctx, ast.Load) and (x.lineno, x.col_offset) < pos:
                g = self.find_method(c, x.attr)
                if g and g[0] is not None and x is not n:
                    out |= self.stores_of(c, g[0], g[1])
        return out

    def check_attributes(self, c):
        why = self.opaque(c, own=True)
        if why:
            self.counts['left alone'] += 1
            return
        provided = self.class_attrs(c) | self.init_attrs(c)
        entry, ms = self.entry_attrs(c, provided)
        others = None
        for f, (d, name) in ms.items():
            p = first_param(f)
            static = any(deco_name(x) == 'staticmethod' for x in f.decorator_list)
            if p is None or static or rebinds(f, p):
                continue
            is_cls = any(deco_name(x) == 'classmethod' for x in f.decorator_list) or \
                name in ('__new__', '__init_subclass__')
            has = {x.args[1].value for x in ast.walk(f) if isinstance(x, ast.Call)
                   and isinstance(x.func, ast.Name) and x.func.id == 'hasattr'
                   and len(x.args) == 2 and isinstance(x.args[1], ast.Constant)}
            init = name == '__init__'
            for n in attr_stores(f, p):
                g = self.find_method(c, mangle(n.attr, d))
                if g is not None and not is_cls and g[0] is not None and \
                        self.only_read(g[1].methods[g[0].name]):
                    self.fail(d.mod, n, 'the property "%s" of %s cannot be set' % (n.attr, c.name),
                              '%s.%s' % (d.name, name))
            for n in ast.walk(f):
                if not (isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name)
                        and n.value.id == p and isinstance(n.ctx, (ast.Load, ast.Del))):
                    continue
                if shadowed(f, n, p):
                    continue
                attr = mangle(n.attr, d)
                self.counts['attributes'] += 1
                ok = attr in provided or attr in has or '__getattr__' in provided and \
                    attr.startswith('__') and attr.endswith('__')
                if ok and init and f is (self.find_method(c, '__init__') or (None,))[0] and \
                        attr not in self.class_attrs_cache(c) and not inside_nested(f, n):
                    # its own initialisation has to come first
                    ok = attr in self.before(c, d, f, n) or self.base_init_before(c, d, f, n, attr)
                if ok:
                    continue
                if is_cls and attr in self.meta.get(c, ()) or is_cls and hasattr(type, attr):
                    continue
                if attr in entry[f] or attr in self.before(c, d, f, n):
                    continue
                if guarded(f, n, ('AttributeError',)):
                    continue
                if others is None:
                    others = [self.class_attrs(x) | self.init_attrs(x) for x in self.subclasses(c)
                              if not self.opaque(x)]
                if others and all(attr in o for o in others):
                    continue
                if isinstance(n.ctx, ast.Del) and attr in self.anywhere(c):
                    continue
                self.fail(d.mod, n, 'neither the class %s nor its initialisation provides "%s"' % (
                    c.name, n.attr), '%s.%s' % (d.name, name))

    def only_read(self, fs):
        return len(fs) == 1 and [deco_name(x) for x in fs[0].decorator_list] in (
            ['property'], ['property', 'abstractmethod'])

    def class_attrs_cache(self, c):
        if not hasattr(self, '_ca'):
            self._ca = {}
        if c not in self._ca:
            self._ca[c] = self.class_attrs(c)
        return self._ca[c]

    def base_init_before(self, c, d, f, n, attr):
        """set by an initialiser of a base class called before (or not set by the library's code)"""
        pos = (n.lineno, n.col_offset)
        for x in ast.walk(f):
            if isinstance(x, ast.Call) and (x.lineno, x.col_offset) < pos and \
                    isinstance(x.func, ast.Attribute):
                b = x.func.value
                g = None
                if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'super':
                    g = self.find_method(c, x.func.attr, after=d)
                else:
                    v = self.resolve(d.mod, b, enclosing_locals(d))
                    if isinstance(v, Cls):
                        g = self.find_method(v, x.func.attr)
                if g and (g[0] is None or attr in self.stores_of(c, g[0], g[1])):
                    return True
        return False

    # -- rule (c): calls --------------------------------------------------------------------------

    def check_calls(self, m):
        def visit(node, local, cls, func):
            if isinstance(node, FUNCS + (ast.Lambda,)):
                local = local | bound_in(node)
            if isinstance(node, ast.ClassDef):
                cls2 = self.by_node[node]
                for c in ast.iter_child_nodes(node):
                    visit(c, local | ({node.name} if node.name not in m.names else set()), cls2,
                          None)
                return
            if isinstance(node, ast.Call):
                self.check_call(m, node, local, cls, func)
            elif isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load) and \
                    func is not None and self.opaque_free(cls):
                self.check_typed_attribute(node, (m, cls, func, local), func)
            nf = node if isinstance(node, FUNCS) and func is None else func
            for c in ast.iter_child_nodes(node):
                visit(c, local, cls, nf)
        visit(m.tree, frozenset(), None, None)

    def opaque_free(self, cls):
        return cls is None or self.mro(cls) is not None

    def check_call(self, m, call, local, cls, func):
        f = call.func
        target, skip, what = None, 0, None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and cls is not None and \
                func is not None and f.value.id == first_param(func) and \
                not any(deco_name(x) == 'staticmethod' for x in func.decorator_list):
            if self.mro(cls) is None or rebinds(func, f.value.id):
                return
            g = self.find_method(cls, mangle(f.attr, cls)) or self.find_method(cls, f.attr)
            if mangle(f.attr, cls) in self.anywhere(cls):
                return          # an attribute of the instance may hide the method
            if g is None or g[0] is None or len(g[1].methods.get(f.attr, ())) != 1:
                return
            target, d = g
            kind = self.kind(target)
            if kind in ('other', 'property'):
                return
            skip = 0 if kind == 'static' else 1
            what = '%s.%s' % (d.name, f.attr)
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and \
                isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and \
                not f.value.args and cls is not None and func is not None:
            if self.mro(cls) is None or len(self.mro(cls)) < 2:
                return
            g = self.find_method(cls, f.attr, after=cls)
            if g is None:
                if f.attr not in dir(object) and not self.subclasses(cls):
                    self.fail(m, call, 'no base class of %s provides "%s"' % (cls.name, f.attr))
                return
            if g[0] is None:
                return
            target, d = g
            kind = self.kind(target)
            if kind in ('other', 'property') or len(d.methods.get(f.attr, ())) != 1:
                return
            skip = 0 if kind == 'static' or target.name == '__new__' else 1
            what = '%s.%s' % (d.name, f.attr)
        else:
            v = self.resolve(m, f, local)
            if v is None and isinstance(f, ast.Attribute):
                b = self.resolve(m, f.value, local)
                if isinstance(b, Cls) and self.mro(b) is not None and not self.opaque(b):
                    g = self.find_method(b, f.attr)
                    if g is None:
                        if f.attr not in self.class_attrs(b) and not hasattr(type, f.attr) and \
                                f.attr not in self.meta.get(b, ()):
                            self.fail(m, call, 'the class %s does not provide "%s"' % (
                                b.name, f.attr))
                        return
                    if g[0] is None:
                        return
                    target, d = g
                    kind = self.kind(target)
                    if kind in ('other', 'property') or len(d.methods.get(f.attr, ())) != 1:
                        return
                    skip = 1 if kind == 'class' else 0
                    what = '%s.%s' % (d.name, f.attr)
                else:
                    r = self.typed_receiver(m, f, cls, func, local)
                    if r is None:
                        return
                    target, what = r
                    if target is None:
                        return
                    skip = 1
            elif isinstance(v, FUNCS):
                target, skip, what = v, 0, v.name
                if self.kind(v) != 'plain':
                    return
            elif isinstance(v, Cls):
                r = self.mro(v)
                if r is None or self.opaque(v) and self.opaque(v) != 'it looks attributes up itself':
                    return
                if self.find_method(v, '__new__'):
                    return
                if any(k.arg == 'metaclass' and not isinstance(
                        self.resolve(v.mod, k.value, enclosing_locals(v)), Ext)
                        for x in r if isinstance(x, Cls) for k in x.node.keywords):
                    return
                g = self.find_method(v, '__init__')
                if g is None:
                    if not any(not isinstance(x, Cls) and x is not object and
                               not getattr(x, '_is_protocol', False) for x in r):
                        self.counts['calls'] += 1
                        if (call.args or call.keywords) and not any(
                                isinstance(x, ast.Starred) for x in call.args) and not any(
                                k.arg is None for k in call.keywords):
                            self.fail(m, call, '%s() takes no arguments' % v.name)
                    return
                if g[0] is None or len(g[1].methods.get('__init__', ())) != 1 or \
                        self.kind(g[0]) != 'plain':
                    return
                target, skip, what = g[0], 1, v.name
            else:
                return
        self.counts['calls'] += 1
        e = bind_error(call, target, skip)
        if e:
            self.fail(m, call, 'the call of %s does not fit its parameters: %s' % (what, e))

    def kind(self, f):
        k = 'plain'
        for d in f.decorator_list:
            n = deco_name(d)
            if n == 'staticmethod':
                k = 'static'
            elif n == 'classmethod':
                k = 'class'
            elif n == 'property' or n.endswith('.setter') or n.endswith('.deleter') or \
                    n.endswith('cached_property'):
                return 'property'
            elif n not in KNOWN_DECORATORS:
                return 'other'
        return k

    # -- types of expressions: the one class of the library whose objects they are ------------------

    def type_of(self, e, ctx, depth=0):
        """the class of the library that every value of the expression (None apart) belongs to"""
        m, cls, func, local = ctx
        if depth > 8 or e is None:
            return None
        if isinstance(e, ast.Name):
            if func is None or e.id not in local:
                return None
            if cls is not None and e.id == first_param(func):
                return None             # (its own attributes are another rule)
            return self.local_type(e.id, ctx, depth)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and cls is not None and func is not None and \
                    e.value.id == first_param(func) and not rebinds(func, e.value.id) and \
                    self.kind(func) != 'static':
                return self.attr_type(cls, mangle(e.attr, cls), depth + 1)
            t = self.type_of(e.value, ctx, depth + 1)
            return self.attr_type(t, e.attr, depth + 1) if t is not None else None
        if isinstance(e, ast.Call):
            v = self.resolve(m, e.func, local)
            if isinstance(v, Cls):
                if self.mro(v) is None or self.find_method(v, '__new__'):
                    return None
                return v
            if isinstance(e.func, ast.Attribute):
                g = self.method_of(e.func, ctx, depth + 1)
                if g is not None and self.kind(g[0]) in ('plain', 'class', 'static') and \
                        not any('contextmanager' in deco_name(x) for x in g[0].decorator_list):
                    f, d, t = g
                    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f)):
                        return None
                    c2 = (d.mod, t, f, bound_in(f))
                    rs = [n.value for n in walk_fn(f) if isinstance(n, ast.Return)]
                    return self.one_type(rs, c2, depth + 1)
        if isinstance(e, ast.IfExp):
            return self.one_type([e.body, e.orelse], ctx, depth + 1)
        return None

    def one_type(self, es, ctx, depth):
        ts = set()
        for e in es:
            if e is None or isinstance(e, ast.Constant) and e.value is None:
                continue
            t = self.type_of(e, ctx, depth)
            if t is None:
                return None
            ts.add(t)
        return ts.pop() if len(ts) == 1 else None

    def method_of(self, a, ctx, depth):
        """(definition, class, class of the receiver) of the method an attribute stands for"""
        m, cls, func, local = ctx
        if isinstance(a.value, ast.Name) and cls is not None and func is not None and \
                a.value.id == first_param(func) and not rebinds(func, a.value.id) and \
                self.kind(func) == 'plain':
            t, name = cls, mangle(a.attr, cls)
        else:
            t, name = self.type_of(a.value, ctx, depth), a.attr
        if t is None or self.mro(t) is None or name in self.anywhere(t):
            return None
        g = self.find_method(t, name)
        if g is None or g[0] is None or len(g[1].methods.get(a.attr, ())) != 1:
            return None
        for x in self.subclasses(t):        # (overridden: another method may be meant)
            h = self.find_method(x, name)
            if h is None or h[0] is not g[0]:
                return None
        return g[0], g[1], t

    def local_type(self, name, ctx, depth):
        m, cls, func, local = ctx
        vals, ann = [], param_annotation(func, name)
        if ann is not None:
            t = self.resolve(m, ann, frozenset())
            return t if isinstance(t, Cls) else None
        a = func.args
        if name in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [
                x.arg for x in (a.vararg, a.kwarg) if x]:
            return None
        types = set()
        for n in walk_fn(func):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        vals.append(n.value)
                    elif name in set(target_names(t)):
                        return None
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                for i in n.items:
                    if i.optional_vars is None:
                        continue
                    if isinstance(i.optional_vars, ast.Name) and i.optional_vars.id == name:
                        t = self.entered(i.context_expr, ctx, depth + 1)
                        if t is None:
                            return None
                        types.add(t)
                    elif name in set(target_names(i.optional_vars)):
                        return None
            elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
                if name in set(target_names(n.target)):
                    return None
            elif isinstance(n, (ast.NamedExpr, ast.AugAssign, ast.AnnAssign)):
                if name in set(target_names(n.target)):
                    return None
            elif isinstance(n, ast.ExceptHandler) and n.name == name:
                return None
            elif isinstance(n, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
                names = n.names if isinstance(n, (ast.Global, ast.Nonlocal)) else [
                    x.asname or x.name.split('.')[0] for x in n.names]
                if name in names:
                    return None
            elif isinstance(n, ast.match_case) and name in set(pattern_names(n.pattern)):
                return None
            elif isinstance(n, FUNCS + (ast.ClassDef,)) and n.name == name and n is not func:
                return None
        for v in vals:
            if isinstance(v, ast.Constant) and v.value is None:
                continue
            t = self.type_of(v, ctx, depth + 1)
            if t is None:
                return None
            types.add(t)
        return types.pop() if len(types) == 1 else None

    def entered(self, e, ctx, depth):
        """the class of what a with statement binds"""
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            g = self.method_of(e.func, ctx, depth)
            if g is not None and any(deco_name(x).endswith('contextmanager')
                                     for x in g[0].decorator_list):
                f, d, t = g
                ys = [n.value for n in walk_fn(f) if isinstance(n, ast.Yield)]
                return self.one_type(ys, (d.mod, t, f, bound_in(f)), depth) if all(ys) else None
        return None

    def provides(self, t, attr):
        if self.opaque(t):
            return True
        if attr in self.class_attrs_cache(t) or attr in self.init_attrs(t) or \
                attr in self.anywhere(t) or attr in dir(object):
            return True
        for x in self.subclasses(t):
            if self.opaque(x) or attr in self.class_attrs_cache(x) | self.init_attrs(x) | \
                    self.anywhere(x):
                return True
        return self.set_outside(attr)

    def set_outside(self, attr):
        """is the attribute set on objects that are not the setter's own?"""
        if not hasattr(self, '_outside'):
            self._outside = set()
            for m in self.mods.values():
                for f in ast.walk(m.tree):
                    if isinstance(f, FUNCS):
                        p = first_param(f)
                        for n in ast.walk(f):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                                    not (isinstance(n.value, ast.Name) and n.value.id == p):
                                self._outside.add(n.attr)
        return attr in self._outside

    def check_typed_attribute(self, n, ctx, root):
        """an attribute taken from an object of a known class of the library"""
        m, cls, func, local = ctx
        if isinstance(n.value, ast.Name) and n.value.id == first_param(func):
            return
        t = self.type_of(n.value, ctx)
        if t is None:
            return
        self.counts['attributes'] += 1
        attr = mangle(n.attr, cls) if cls is not None else n.attr
        if not self.provides(t, attr) and not guarded(root, n, ('AttributeError',)) and not any(
                isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'hasattr'
                and len(x.args) == 2 and isinstance(x.args[1], ast.Constant)
                and x.args[1].value == n.attr for x in ast.walk(root)):
            self.fail(m, n, '%s objects do not provide "%s"' % (t.name, n.attr),
                      '%s%s' % (cls.name + '.' if cls is not None else '', func.name))

    def typed_receiver(self, m, f, cls, func, local):
        """x.method(..) where x only ever holds objects of one class of the library"""
        if func is None:
            return None
        if isinstance(f.value, ast.Name) and cls is not None and f.value.id == first_param(func):
            return None
        g = self.method_of(f, (m, cls, func, local), 0)
        if g is None or self.kind(g[0]) != 'plain' or self.opaque(g[2]):
            return None
        return g[0], '%s.%s' % (g[1].name, f.attr)

    def attr_type(self, c, attr, depth=0):
        """the one class of the library whose objects an attribute holds (None apart)"""
        if not hasattr(self, '_at'):
            self._at = {}
        key = (c, attr)
        if key not in self._at:
            self._at[key] = '?'
            self._at[key] = self._attr_type(c, attr, depth)
        r = self._at[key]
        return None if r == '?' else r

    def _attr_type(self, c, attr, depth):
        if self.mro(c) is None or depth > 8:
            return None
        types = set()

        def value(v, ctx):
            """adds the class of a value; False if it is not known"""
            if isinstance(v, ast.Constant) and v.value is None:
                return True
            m2, c2, f2, l2 = ctx
            if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and \
                    c2 is not None and f2 is not None and v.value.id == first_param(f2) and \
                    self._at.get((c2, mangle(v.attr, c2))) == '?':
                return True         # (being found out: whatever the other values are)
            t = self.type_of(v, ctx, depth + 1)
            if t is None:
                return False
            types.add(t)
            return True
        for x in [c] + self.subclasses(c):
            r = self.mro(x)
            for d in r:
                if not isinstance(d, Cls):
                    if d is not object and attr in self.ext_attrs(d):
                        return None
                    continue
                if attr in {mangle(y, d) for y in d.methods}:
                    f = self.find_method(x, attr)
                    if f and f[0] is not None and self.kind(f[0]) == 'property' and \
                            len(f[1].methods[f[0].name]) == 1:
                        rs = [n.value for n in walk_fn(f[0]) if isinstance(n, ast.Return)]
                        if any(isinstance(n, ast.Yield) for n in ast.walk(f[0])):
                            return None
                        if not all(value(v, (f[1].mod, f[1], f[0], bound_in(f[0]))) for v in rs):
                            return None
                        continue
                    return None
                for s in d.node.body:
                    v = None
                    if isinstance(s, ast.Assign) and attr in {
                            mangle(y, d) for t in s.targets for y in target_names(t)}:
                        v = s.value
                    elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and \
                            mangle(s.target.id, d) == attr and s.value is not None:
                        v = s.value
                    if v is not None and not value(v, (d.mod, None, None, frozenset())):
                        t = self.resolve(d.mod, v.func, enclosing_locals(d)) if isinstance(
                            v, ast.Call) else None
                        if not isinstance(t, Cls):
                            return None
                        types.add(t)
                for fs in d.methods.values():
                    for f in fs:
                        for a in attr_stores(f, first_param(f)):
                            if mangle(a.attr, d) == attr:
                                v = stored_value(f, a)
                                if v is None or not value(v, (d.mod, d, f, bound_in(f))):
                                    return None
        # set by others
        for m in self.mods.values():
            for f in ast.walk(m.tree):
                if not isinstance(f, FUNCS):
                    continue
                p = first_param(f)
                owner = self.owner(f)
                for n in walk_fn(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                            n.attr == attr and not (isinstance(n.value, ast.Name) and
                                                    n.value.id == p and owner is not None):
                        v = stored_value(f, n)
                        if v is None or not value(v, (m, owner, f, bound_in(f))):
                            return None
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                            n.func.id == 'setattr' and len(n.args) == 3 and not (
                                isinstance(n.args[1], ast.Constant) and n.args[1].value != attr):
                        return None
        return types.pop() if len(types) == 1 else None

    def owner(self, f):
        if not hasattr(self, '_owner'):
            self._owner = {g: d for d in self.classes for fs in d.methods.values() for g in fs}
        return self._owner.get(f)


def walk_fn(f):
    """the nodes of a function outside nested functions"""
    for s in f.body:
        yield s
        for n in walk_here(s):
            if n is not s:
                yield n


def delegates(fs):
    """does __getattr__ only pass the lookup on to another object?"""
    if len(fs) != 1 or len(fs[0].args.args) != 2:
        return False
    body = [s for s in fs[0].body if not (isinstance(s, ast.Expr) and
                                          isinstance(s.value, ast.Constant))]
    if len(body) != 1 or not isinstance(body[0], ast.Return):
        return False
    v = body[0].value
    return isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'getattr' and \
        len(v.args) == 2 and isinstance(v.args[1], ast.Name) and \
        v.args[1].id == fs[0].args.args[1].arg


def param_annotation(f, name):
    a = f.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == name and not rebinds(f, name):
            return x.annotation
    return None


def stored_value(f, a):
    for s in ast.walk(f):
        if isinstance(s, ast.Assign) and any(t is a for t in s.targets):
            return s.value
        if isinstance(s, ast.AnnAssign) and s.target is a:
            return s.value
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and \
                        len(t.elts) == len(s.value.elts):
                    for x, y in zip(t.elts, s.value.elts):
                        if x is a:
                            return y
    return None


def bind_error(call, f, skip):
    """why the arguments of a call do not fit the parameters (None: they may)"""
    a = f.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    nposonly = max(0, len(a.posonlyargs) - skip)
    n_default = len(a.defaults)
    required = pos[:len(pos) - n_default] if n_default else list(pos)
    kwonly = [x.arg for x in a.kwonlyargs]
    kw_required = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = sum(not isinstance(x, ast.Starred) for x in call.args)
    if npos > len(pos) and a.vararg is None:
        return '%d positional arguments for %d parameters' % (npos, len(pos))
    given = [k.arg for k in call.keywords if k.arg is not None]
    for k in given:
        if k in pos[nposonly:] or k in kwonly:
            if k in pos and pos.index(k) < npos and not star:
                return 'parameter "%s" is given twice' % k
            if k in pos and pos.index(k) < npos:
                return 'parameter "%s" is given twice' % k
            continue
        if a.kwarg is None:
            return 'there is no parameter "%s"' % k
    if not star and not dstar:
        for i, p in enumerate(required):
            if i >= npos and p not in given:
                return 'parameter "%s" is missing' % p
    if not dstar:
        for p in kw_required:
            if p not in given:
                return 'parameter "%s" is missing' % p
    return None


def first_param(f):
    a = f.args
    ps = a.posonlyargs + a.args
    return ps[0].arg if ps else None


def attr_stores(f, p):
    """attribute targets on parameter p anywhere in f"""
    out = []
    for n in ast.walk(f):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                isinstance(n.value, ast.Name) and n.value.id == p:
            out.append(n)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' \
                and len(n.args) == 3 and isinstance(n.args[0], ast.Name) and n.args[0].id == p and \
                isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
            x = ast.Attribute(n.args[0], n.args[1].value, ast.Store())
            ast.copy_location(x, n)
            out.append(x)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr == '__setattr__' and n.args:
            c = [y for y in n.args if isinstance(y, ast.Constant) and isinstance(y.value, str)]
            if c:
                x = ast.Attribute(n.func.value, c[0].value, ast.Store())
                ast.copy_location(x, n)
                out.append(x)
    # an augmented assignment reads first
    aug = {id(n.target) for n in ast.walk(f) if isinstance(n, ast.AugAssign)}
    return [x for x in out if id(x) not in aug]


def rebinds(f, p):
    return any(isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Store)
               for n in ast.walk(f))


def shadowed(f, n, p):
    """is n inside a nested function with a parameter of that name?"""
    for g in ast.walk(f):
        if g is not f and isinstance(g, FUNCS + (ast.Lambda,)):
            a = g.args
            names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            names += [x.arg for x in (a.vararg, a.kwarg) if x]
            if p in names and any(x is n for x in ast.walk(g)):
                return True
        elif isinstance(g, ast.comprehension) and p in set(target_names(g.target)):
            return True
    return False


def inside_nested(f, n):
    for g in ast.walk(f):
        if g is not f and isinstance(g, FUNCS + (ast.Lambda, ast.GeneratorExp)):
            if any(x is n for x in ast.walk(g)):
                return True
    return False


def bound_in(f):
    """names local to a function (parameters and bindings)"""
    a = f.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    out |= {x.arg for x in (a.vararg, a.kwarg) if x}
    globs = set()
    body = f.body if isinstance(f.body, list) else [f.body]
    for s in body:
        for n in walk_here(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, FUNCS + (ast.ClassDef,)):
                out.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    out.add(x.asname or x.name.split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, ast.Global):
                globs |= set(n.names)
            elif isinstance(n, ast.match_case):
                out |= set(pattern_names(n.pattern))
        if isinstance(s, FUNCS + (ast.ClassDef,)):
            out.add(s.name)
    return frozenset(out - globs)


def enclosing_locals(c):
    """names bound by the functions around a class (its own name apart)"""
    out = set()
    n = c.outer
    if isinstance(n, FUNCS):
        out |= bound_in(n) - {c.name}
    return frozenset(out)


def guarded(root, n, names):
    """is n inside a try block whose handlers take one of these errors?"""
    for t in ast.walk(root):
        if isinstance(t, ast.Try) and any(x is n for s in t.body for x in ast.walk(s)):
            for h in t.handlers:
                if any(isinstance(x, ast.Raise) for s in h.body for x in ast.walk(s)):
                    continue        # (it lets the error through)
                ts = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
                for x in ts:
                    if x is None or deco_name(x).split('.')[-1] in names + ('Exception',
                                                                           'BaseException'):
                        return True
        elif isinstance(t, ast.With) and any(x is n for s in t.body for x in ast.walk(s)):
            for i in t.items:
                e = i.context_expr
                if isinstance(e, ast.Call) and deco_name(e).split('.')[-1] == 'suppress' and any(
                        deco_name(x).split('.')[-1] in names + ('Exception', 'BaseException')
                        for x in e.args):
                    return True
    return False


# -- scopes of the compiler ---------------------------------------------------------------------

def scope_name(k):
    if isinstance(k, ast.Lambda):
        return 'lambda'
    if isinstance(k, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        return {ast.ListComp: 'listcomp', ast.SetComp: 'setcomp', ast.DictComp: 'dictcomp',
                ast.GeneratorExp: 'genexpr'}[type(k)]
    return k.name


def k_line(k):
    return k.lineno


COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def child_scopes(node):
    out, todo = [], list(scope_parts(node))
    while todo:
        x = todo.pop(0)
        if isinstance(x, SCOPES + COMPS):
            out.append(x)
            todo = outer_parts(x) + todo
        else:
            todo = list(ast.iter_child_nodes(x)) + todo
    return out


def outer_parts(x):
    """the parts of a nested scope's node that are evaluated in the scope around it"""
    if isinstance(x, FUNCS):
        a = x.args
        anns = [y.annotation for y in a.posonlyargs + a.args + a.kwonlyargs
                + [z for z in (a.vararg, a.kwarg) if z] if y.annotation] + \
            ([x.returns] if x.returns else [])
        return x.decorator_list + a.defaults + [d for d in a.kw_defaults if d] + anns
    if isinstance(x, ast.Lambda):
        return x.args.defaults + [d for d in x.args.kw_defaults if d]
    if isinstance(x, ast.ClassDef):
        return x.decorator_list + x.bases + [k.value for k in x.keywords]
    return [x.generators[0].iter]


def scope_parts(node):
    if isinstance(node, ast.Module):
        return node.body
    if isinstance(node, FUNCS + (ast.ClassDef,)):
        return node.body
    if isinstance(node, ast.Lambda):
        return [node.body]
    parts = [node.key, node.value] if isinstance(node, ast.DictComp) else [node.elt]
    for i, g in enumerate(node.generators):
        parts += [g.target] + ([g.iter] if i else []) + g.ifs
    return parts


def walk_here_scope(node):
    """the nodes evaluated in the scope of node itself"""
    todo = list(scope_parts(node))
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, SCOPES + COMPS):
            todo += outer_parts(x)
        else:
            todo += list(ast.iter_child_nodes(x))


# -- local names ---------------------------------------------------------------------------------

class Locals:
    """forward pass over one function: the names some path may have bound"""

    def __init__(self, r, m, f):
        self.r, self.m, self.f = r, m, f
        a = f.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        self.params |= {x.arg for x in (a.vararg, a.kwarg) if x}
        self.locals = set(bound_in(f))
        for n in ast.walk(f):
            if isinstance(n, ast.Nonlocal):
                self.locals -= set(n.names)
            if isinstance(n, FUNCS) and n is not f:
                # bound by a nested function (nonlocal): anything
                for y in ast.walk(n):
                    if isinstance(y, ast.Nonlocal):
                        self.locals -= set(y.names)
        self.reported = set()

    def run(self):
        self.block(self.f.body, set(self.params))

    def block(self, body, b):
        for s in body:
            if b is None:
                return None
            b = self.stmt(s, b)
        return b

    def use(self, e, b):
        """loads (and walrus bindings) of an expression"""
        if e is None:
            return b
        for n in walk_expr(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id in self.locals:
                    self.r.counts['locals'] += 1
                    if n.id not in b and n.id not in self.walrus(e) and n.id not in self.reported:
                        self.reported.add(n.id)
                        self.r.fail(self.m, n, 'the local name "%s" is read before anything binds '
                                    'it' % n.id, self.f.name)
        return b | self.walrus(e)

    def walrus(self, e):
        return {n.target.id for n in ast.walk(e) if isinstance(n, ast.NamedExpr)}

    def assign(self, t, b):
        for n in walk_expr(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                b = self.use(n, b)
        return b | set(target_names(t))

    def merge(self, *bs):
        bs = [x for x in bs if x is not None]
        return set().union(*bs) if bs else None

    def stmt(self, s, b):
        if isinstance(s, ast.Assign):
            b = self.use(s.value, b)
            for t in s.targets:
                b = self.assign(t, b)
            return b
        if isinstance(s, ast.AugAssign):
            b = self.use(s.value, b)
            if isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), b)
            return self.assign(s.target, b)
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                b = self.assign(s.target, self.use(s.value, b))
            return b
        if isinstance(s, (ast.Expr, ast.Return)):
            b = self.use(s.value, b)
            return None if isinstance(s, ast.Return) else b
        if isinstance(s, ast.Raise):
            self.use(s.exc, b)
            self.use(s.cause, b)
            return None
        if isinstance(s, ast.Assert):
            b = self.use(s.test, b)
            return b
        if isinstance(s, (ast.Break, ast.Continue)):
            return b        # (kept: what follows is another path)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    b = self.use(ast.copy_location(ast.Name(t.id, ast.Load()), t), b) - {t.id}
                else:
                    b = self.assign(t, b)
            return b
        if isinstance(s, ast.If):
            b = self.use(s.test, b)
            return self.merge(self.block(s.body, set(b)), self.block(s.orelse, set(b)))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            b = self.use(s.iter, b)
            b = b | self.binds(s.body)
            inner = self.block(s.body, self.assign(s.target, set(b)))
            b = self.assign(s.target, b)
            e = self.block(s.orelse, set(b)) if s.orelse else b
            return self.merge(inner, e, b)
        if isinstance(s, ast.While):
            b = b | self.binds(s.body) | self.walrus(s.test)
            b = self.use(s.test, b)
            inner = self.block(s.body, set(b))
            e = self.block(s.orelse, set(b)) if s.orelse else b
            return self.merge(inner, e, b)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                b = self.use(i.context_expr, b)
                if i.optional_vars is not None:
                    b = self.assign(i.optional_vars, b)
            r = self.block(s.body, set(b))
            # (the context manager may swallow an error of the body)
            return self.merge(r, b | self.binds(s.body))
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            r = self.block(s.body, set(b))
            some = b | self.binds(s.body)
            outs = []
            for h in s.handlers:
                hb = self.use(h.type, set(some)) if h.type is not None else set(some)
                if h.name:
                    hb = hb | {h.name}
                x = self.block(h.body, hb)
                if x is not None and h.name:
                    x = x - {h.name}
                outs.append(x)
            if s.orelse and r is not None:
                r = self.block(s.orelse, r)
            out = self.merge(r, *outs)
            if s.finalbody:
                every = some | self.binds(s.orelse)
                for h in s.handlers:
                    every |= self.binds(h.body)
                x = self.block(s.finalbody, every if out is None else every | out)
                if out is None:
                    return None
                return x
            return out
        if isinstance(s, FUNCS):
            for e in outer_parts(s):
                b = self.use(e, b) if not self.is_annotation(s, e) else b
            return b | {s.name}
        if isinstance(s, ast.ClassDef):
            for e in outer_parts(s):
                b = self.use(e, b)
            return b | {s.name}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return b | {a.asname or a.name.split('.')[0] for a in s.names}
        if isinstance(s, ast.Match):
            b = self.use(s.subject, b)
            outs = [b]
            for c in s.cases:
                x = b | set(pattern_names(c.pattern))
                if c.guard is not None:
                    x = self.use(c.guard, x)
                outs.append(self.block(c.body, x))
            return self.merge(*outs)
        return b

    def is_annotation(self, f, e):
        a = f.args
        return e is f.returns or any(
            x.annotation is e for x in a.posonlyargs + a.args + a.kwonlyargs
            + [z for z in (a.vararg, a.kwarg) if z])

    def binds(self, body):
        out = set()
        for s in body:
            for n in walk_here(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, FUNCS + (ast.ClassDef,)):
                    out.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    out |= {a.asname or a.name.split('.')[0] for a in n.names}
                elif isinstance(n, ast.match_case):
                    out |= set(pattern_names(n.pattern))
            if isinstance(s, FUNCS + (ast.ClassDef,)):
                out.add(s.name)
        return out


def walk_expr(e):
    """the nodes of an expression evaluated at once (not the bodies of lambdas)"""
    todo = [e]
    while todo:
        x = todo.pop()
        if isinstance(x, ast.Lambda):
            todo += x.args.defaults + [d for d in x.args.kw_defaults if d]
            continue
        if isinstance(x, COMPS):
            # its own names are bound by it; the first iterable is evaluated outside
            todo.append(x.generators[0].iter)
            own = {y for g in x.generators for y in target_names(g.target)}
            parts = scope_parts(x)
            for p in parts:
                for y in walk_expr(p):
                    if not (isinstance(y, ast.Name) and y.id in own):
                        yield y
            continue
        yield x
        todo += list(ast.iter_child_nodes(x))


def run(repo, tier='quick'):
    out = {'scenario': 'resolve', 'function': 'whole program', 'paths': 0, 'undecided': [],
           'failures': [], 'tainted': []}
    try:
        r = Resolver(repo)
        if not r.mods or 'stream2py' not in r.mods:
            out['error'] = 'the package was not found in %s' % repo
            return out
        r.collect_class_stores()
        for m in r.mods.values():
            r.check_names(m)
            r.check_imports(m)
            r.check_module_attributes(m)
        for c in r.classes:
            r.check_attributes(c)
        for m in r.mods.values():
            r.check_calls(m)
    except SyntaxError as e:
        out['error'] = 'the source does not parse: %s' % e
        return out
    except Exception:
        import traceback
        out['error'] = traceback.format_exc()
        return out
    seen, fs = set(), []
    for f in r.failures:
        k = (f['message'], f['where'])
        if k not in seen:
            seen.add(k)
            fs.append(f)
    out['failures'] = fs
    out['obligations'] = sum(v for k, v in r.counts.items() if k != 'left alone')
    out['functions'] = sorted(r.funcs)
    out['sites'] = ['%s resolved: %d' % kv for kv in sorted(r.counts.items())]
    out['analysed'] = sorted(os.path.relpath(m.path, repo) for m in r.mods.values())
    out['stats'] = {}
    return out


if __name__ == '__main__':
    o = run(sys.argv[1] if len(sys.argv) > 1 else '/repo')
    print(o.get('error') or '', o.get('sites'))
    for x in o['failures']:
        print(x['message'], '@', x['where'])
