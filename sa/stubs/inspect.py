import sa


class _empty:
    pass


class Parameter:
    POSITIONAL_ONLY, POSITIONAL_OR_KEYWORD, VAR_POSITIONAL, KEYWORD_ONLY, VAR_KEYWORD = range(5)
    empty = _empty

    def __init__(self, name, kind, *, default=_empty, annotation=_empty):
        self.name, self.kind, self.default, self.annotation = name, kind, default, annotation


class BoundArguments:
    def __init__(self, args, kwargs):
        self.args, self.kwargs = args, kwargs


class Signature:
    empty = _empty

    def __init__(self, parameters=None):
        self.parameters = {p.name: p for p in parameters or ()}

    def bind(self, *args, **kwargs):
        return self._bind(args, kwargs, False)

    def bind_partial(self, *args, **kwargs):
        return self._bind(args, kwargs, True)

    def _bind(self, args, kwargs, partial):
        n = 0
        used = []
        var, varkw = False, False
        for p in self.parameters.values():
            if p.kind == Parameter.VAR_POSITIONAL:
                var = True
            elif p.kind == Parameter.VAR_KEYWORD:
                varkw = True
            elif p.kind in (Parameter.POSITIONAL_ONLY, Parameter.POSITIONAL_OR_KEYWORD):
                if n < len(args):
                    n += 1
                    if p.name in kwargs and p.kind == Parameter.POSITIONAL_OR_KEYWORD:
                        raise TypeError('multiple values for argument')
                elif p.name in kwargs and p.kind == Parameter.POSITIONAL_OR_KEYWORD:
                    used.append(p.name)
                elif p.default is _empty and not partial:
                    raise TypeError('missing a required argument')
            else:
                if p.name in kwargs:
                    used.append(p.name)
                elif p.default is _empty and not partial:
                    raise TypeError('missing a required argument')
        if n < len(args) and not var:
            raise TypeError('too many positional arguments')
        for k in kwargs:
            if k not in used and not varkw:
                raise TypeError('got an unexpected keyword argument')
        return BoundArguments(args, kwargs)


def signature(obj, **kw):
    ps = sa.params(obj)
    if ps is None:
        if not callable(obj):
            raise TypeError('is not a callable object')
        raise ValueError('no signature found')
    return Signature([Parameter(n, k, default=d if h else _empty) for n, k, h, d in ps])


def getfullargspec(f):
    raise TypeError('unsupported callable')


def isfunction(f):
    return sa.isfunction(f)


def ismethod(f):
    return sa.ismethod(f)


def isclass(c):
    return isinstance(c, type)


def isgeneratorfunction(f):
    return False
