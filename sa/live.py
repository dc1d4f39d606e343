"""Liveness of local variables at loop heads (conservative), by backward analysis of the syntax."""
import ast

_FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
_cache = {}


def loads(n, out=None):
    """names read in n (nested functions included)"""
    out = set() if out is None else out
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)):
            out.add(x.id)
        elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
            out.add(x.target.id)
    return out


def plain_targets(t):
    """names certainly bound by an assignment to t"""
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        return set().union(*[plain_targets(e) for e in t.elts]) if t.elts else set()
    if isinstance(t, ast.Starred):
        return plain_targets(t.value)
    return set()


class Liveness:
    def __init__(self, func):
        self.at = {}
        self.func = func
        self.always = set()
        self.all = None
        a = func.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        if ps:
            self.always.add(ps[0])  # super()
        for n in ast.walk(func):
            if n is func:
                continue
            if isinstance(n, _FUNCS + (ast.ClassDef, ast.GeneratorExp)):
                loads(n, self.always)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                self.always.update(n.names)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
                    'locals', 'vars', 'eval', 'exec', 'dir', 'globals'):
                self.all = True
            elif type(n).__name__ in ('Match', 'NamedExpr', 'TryStar'):
                self.all = True
        if not self.all:
            self.block(func.body, frozenset(), frozenset(), frozenset(), frozenset(), frozenset())

    def at_head(self, node):
        """names live at the head of the loop, or None (all of them)"""
        if self.all or node not in self.at:
            return None
        return self.at[node] | self.always

    def block(self, stmts, out, brk, cont, ret, exc):
        for s in reversed(stmts):
            out = self.stmt(s, out, brk, cont, ret, exc)
        return out

    def stmt(self, s, out, brk, cont, ret, exc):
        go = lambda b, o: self.block(b, o, brk, cont, ret, exc)
        if isinstance(s, ast.Assign):
            kill = set().union(*[plain_targets(t) for t in s.targets])
            return frozenset((out - kill) | loads(s) | exc)
        if isinstance(s, ast.AnnAssign):
            kill = plain_targets(s.target) if s.value is not None else set()
            return frozenset((out - kill) | (loads(s.value) if s.value is not None else set())
                             | loads(s.target) | exc)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return frozenset((out - {s.name}) | loads(s) | exc)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return frozenset(out | exc)
        if isinstance(s, ast.Return):
            return frozenset((loads(s.value) if s.value is not None else set()) | ret | exc)
        if isinstance(s, ast.Raise):
            return frozenset(loads(s) | exc)
        if isinstance(s, ast.Break):
            return brk
        if isinstance(s, ast.Continue):
            return cont
        if isinstance(s, ast.If):
            return frozenset(loads(s.test) | go(s.body, out) | go(s.orelse, out) | exc)
        if isinstance(s, ast.While):
            after = go(s.orelse, out)
            head = frozenset(loads(s.test) | after | exc)
            while True:
                b = self.block(s.body, head, out, head, ret, exc)
                n = frozenset(head | b)
                if n == head:
                    break
                head = n
            self.at[s] = self.at.get(s, frozenset()) | head
            return head
        if isinstance(s, (ast.For, ast.AsyncFor)):
            after = go(s.orelse, out)
            head = frozenset(after | exc)
            kill = plain_targets(s.target)
            while True:
                b = self.block(s.body, head, out, head, ret, exc)
                n = frozenset(head | (b - kill) | loads(s.target))
                if n == head:
                    break
                head = n
            self.at[s] = self.at.get(s, frozenset()) | head
            return frozenset(head | loads(s.iter) | exc)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            e2 = frozenset(exc | out)  # (the exception may be suppressed)
            b = self.block(s.body, out, brk, cont, ret, e2)
            for it in reversed(s.items):
                kill = plain_targets(it.optional_vars) if it.optional_vars is not None else set()
                b = frozenset((b - kill) | loads(it.context_expr) | e2 | (
                    loads(it.optional_vars) if it.optional_vars is not None else set()))
            return b
        if isinstance(s, ast.Try):
            fin = loads(ast.Module(s.finalbody, []))
            f_out = go(s.finalbody, out) if s.finalbody else out
            f2 = frozenset(exc | fin)
            b2, c2, r2 = frozenset(brk | fin), frozenset(cont | fin), frozenset(ret | fin)
            hs = set()
            for h in s.handlers:
                i = self.block(h.body, f_out, b2, c2, r2, f2)
                hs |= i - ({h.name} if h.name else set())
                if h.type is not None:
                    hs |= loads(h.type)
            e2 = frozenset(f2 | hs)
            o = self.block(s.orelse, f_out, b2, c2, r2, f2)
            return frozenset(self.block(s.body, o, b2, c2, r2, e2) | e2)
        if isinstance(s, ast.Delete):
            return frozenset(out | loads(s) | exc)
        return frozenset(out | loads(s) | exc)


def live_at(func, loop):
    k = id(func)
    r = _cache.get(k)
    if r is None or r[0] is not func:
        r = _cache[k] = (func, Liveness(func))
    return r[1].at_head(loop)
