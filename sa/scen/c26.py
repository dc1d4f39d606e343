"""Context-wrapping a callable validates and forwards faithfully."""
from functools import partial
import sa
from stream2py.util import ContextualizeCall, contextualize_with_instance
from scen.common import attempt


class Takes:
    """(as a callable object, a class and by its methods)"""

    def __init__(self, a):
        pass

    def __call__(self, a, b, c, d):
        pass

    def none(self):
        pass

    def one(self, a):
        pass

    def four(self, a, b, c, d):
        pass

    @classmethod
    def of_class(cls, a):
        pass

    @staticmethod
    def of_nothing(a, b, c, d):
        pass


class NoneNeeded:
    def __call__(self):
        pass


# (function, takes one argument, takes four, takes arbitrarily many)
SHAPES = (
    (lambda: 1, False, False, False),
    (lambda a: 1, True, False, False),
    (lambda a, b: 1, False, False, False),
    (lambda a, b, c: 1, False, False, False),
    (lambda a, b, c, d: 1, False, True, False),
    (lambda a, b, c, d, e: 1, False, False, False),
    (lambda a=1: 1, True, False, False),
    (lambda a, b=1: 1, True, False, False),
    (lambda a, b=1, c=2: 1, True, False, False),
    (lambda a, b, c, d=1: 1, False, True, False),
    (lambda a, b=1, c=2, d=3: 1, True, True, False),
    (lambda a, b, c, d, e=1: 1, False, True, False),
    (lambda a, b, c, d, e, f=1: 1, False, False, False),
    (lambda a=1, b=1, c=1, d=1, e=1, f=1: 1, True, True, False),
    (lambda *a: 1, True, True, True),
    (lambda a, *b: 1, True, True, True),
    (lambda a, b, *c: 1, False, True, True),
    (lambda a, b, c, d, *e: 1, False, True, True),
    (lambda *a, **k: 1, True, True, True),
    (lambda **k: 1, False, False, False),
    (lambda *, a: 1, False, False, False),
    (lambda *, a, b, c, d: 1, False, False, False),
    (lambda *, a=1, b=1, c=1, d=1: 1, False, False, False),
    (lambda a, *, b=1: 1, True, False, False),
    (lambda a, *, b=1, c=1, d=1: 1, True, False, False),
    (lambda a, b, c, d, *, e=1: 1, False, True, False),
    (lambda a, **k: 1, True, False, False),
    (lambda a, b, c, d, **k: 1, False, True, False),
    (Takes(1), False, True, False),
    (NoneNeeded(), False, False, False),
    (Takes, True, False, False),
    (Takes(1).none, False, False, False),
    (Takes(1).one, True, False, False),
    (Takes(1).four, False, True, False),
    (Takes.of_class, True, False, False),
    (Takes.of_nothing, False, True, False),
    (partial(lambda a, b: 1, 1), True, False, False),
    (partial(lambda a, b, c, d: 1, 1), False, False, False),
    (partial(lambda a, b, c, d, e: 1, 1), False, True, False),
    (partial(lambda a, b: 1, b=1), True, False, False),
)
NOT_CALLABLE = (None, 1, 'a', (), [], {})


def rejected(kind, v, what):
    sa.check(kind == 'error' and isinstance(v, TypeError), what)


def accepted(kind, v, what):
    sa.check(kind == 'ok', what)


def wrap(**kw):
    return attempt(ContextualizeCall, lambda x: x, **kw)


def prove_not_callable():
    f = NOT_CALLABLE[sa.choose(len(NOT_CALLABLE), 'value')]
    rejected(*attempt(ContextualizeCall, f), 'something that is not callable is wrapped')
    rejected(*wrap(enter_func=f), 'an enter function that is not callable is accepted')
    rejected(*wrap(exit_func=f), 'an exit function that is not callable is accepted')


def prove_enter_shapes():
    for (f, one, four, many) in (SHAPES[sa.choose(len(SHAPES), 'shape')],):
        kind, v = wrap(enter_func=f)
        if one:
            accepted(kind, v, 'a valid enter function is rejected')
        else:
            rejected(kind, v, 'an enter function that cannot take one argument is accepted')


def prove_exit_shapes():
    for (f, one, four, many) in (SHAPES[sa.choose(len(SHAPES), 'shape')],):
        kind, v = wrap(exit_func=f)
        if four or many:
            accepted(kind, v, 'a valid exit function is rejected')
        else:
            rejected(kind, v, 'an exit function that cannot take four arguments is accepted')


def prove_wrapped_shapes():
    """any callable can be wrapped"""
    for (f, one, four, many) in (SHAPES[sa.choose(len(SHAPES), 'shape')],):
        accepted(*attempt(ContextualizeCall, f), 'a callable is not wrapped')


def prove_call():
    got = []
    result = sa.sym('result', 'any')

    def f(*args, **kwargs):
        got.append((args, kwargs))
        return result
    calls = []

    def enter(x):
        calls.append(1)

    def leave(*a):
        calls.append(1)
    w = ContextualizeCall(f, enter, leave) if sa.flag('with functions') else ContextualizeCall(f)
    a, b, c = sa.sym('a', 'any'), sa.sym('b', 'any'), sa.sym('c', 'any')
    k = sa.choose(4, 'arguments')
    if k == 0:
        args, kw = (), {}
    elif k == 1:
        args, kw = (a,), {}
    elif k == 2:
        args, kw = (a, b), {'c': c}
    else:
        args, kw = (), {'func': a, 'self_': b, 'enter_func': c}
    sa.check(w(*args, **kw) is result, 'the result of the wrapped function is not returned')
    sa.check(len(got) == 1, 'a call does not call the wrapped function once')
    sa.check(len(got[0][0]) == len(args) and all(x is y for x, y in zip(got[0][0], args)),
             'the positional arguments are not passed on')
    sa.check(list(got[0][1]) == list(kw) and all(got[0][1][n] is kw[n] for n in kw),
             'the keyword arguments are not passed on')
    sa.check(len(calls) == 0, 'a call enters or leaves the context')


def prove_call_again():
    """every call calls"""
    results = [sa.sym('first', 'any'), sa.sym('second', 'any')]
    got = []

    def f(*args):
        got.append(args)
        return results[len(got) - 1]
    w = ContextualizeCall(f)
    args = (sa.sym('a', 'any'),) if sa.flag('an argument') else ()
    between = sa.choose(3, 'meanwhile')
    sa.check(w(*args) is results[0], 'the result of the wrapped function is not returned')
    if between == 1:
        with w:
            pass
    elif between == 2:
        ContextualizeCall(w)
    sa.check(w(*args) is results[1], 'a second call does not return the result of the wrapped '
             'function')
    sa.check(len(got) == 2, 'a second call does not call the wrapped function once')


def prove_call_fails():
    e = sa.user_error('f')

    def f():
        raise e
    kind, v = attempt(ContextualizeCall(f))
    sa.check(kind == 'error' and v is e, 'the error of the wrapped function is replaced')


class Rec:
    """an enter and an exit function"""

    def __init__(self, name):
        self.entered = []
        self.left = []
        self.enters = sa.sym('entered', 'any')
        self.exits = sa.flag('swallows')

    def enter(self, obj):
        self.entered.append(obj)
        return self.enters

    def exit(self, *args):
        self.left.append(args)
        return self.exits


def prove_context():
    def f():
        return 1
    r = Rec('r')
    w = ContextualizeCall(f, enter_func=r.enter, exit_func=r.exit)
    e = sa.user_error('block')
    raised = sa.flag('an error in the block')
    try:
        with w as x:
            sa.check(x is r.enters, 'entering does not return what the enter function returns')
            sa.check(len(r.entered) == 1 and r.entered[0] is f,
                     'the enter function is not called with the wrapped function')
            sa.check(len(r.left) == 0, 'the exit function is called too early')
            if raised:
                raise e
        sa.check(r.exits or not raised, 'an exception is swallowed though the exit function does not')
    except sa.UserError as x:
        sa.check(x is e and not r.exits, 'an exception is raised though the exit function swallows it')
    sa.check(len(r.entered) == 1, 'the enter function is not called once')
    sa.check(len(r.left) == 1 and len(r.left[0]) == 4 and r.left[0][0] is f,
             'the exit function is not called with the wrapped function and the exception')
    if raised:
        sa.check(r.left[0][1] is type(e) and r.left[0][2] is e,
                 'the exit function is not called with the wrapped function and the exception')
    else:
        sa.check(r.left[0][1] is None and r.left[0][2] is None and r.left[0][3] is None,
                 'the exit function is not called with the wrapped function and the exception')


def prove_entered_again():
    """every entering and leaving calls the functions"""
    def f():
        return 1
    results = [sa.sym('result', 'any') for i in range(4)]
    got = []

    def enter(x):
        got.append((x,))
        return results[len(got) - 1]

    def leave(*a):
        got.append(a)
        return results[len(got) - 1]
    w = ContextualizeCall(f, enter, leave)
    for i in range(2):
        sa.check(w.__enter__() is results[2 * i],
                 'entering does not return what the enter function returns')
        sa.check(len(got) == 2 * i + 1 and got[2 * i][0] is f,
                 'the enter function is not called with the wrapped function')
        sa.check(w.__exit__(None, None, None) is results[2 * i + 1],
                 'leaving does not return what the exit function returns')
        sa.check(len(got) == 2 * i + 2 and len(got[-1]) == 4 and got[-1][0] is f,
                 'the exit function is not called with the wrapped function and the exception')


def prove_exit_arguments():
    """the three arguments of __exit__ as they are, and its result"""
    def f():
        return 1
    got = []
    res = sa.sym('result', 'any')

    def leave(*a):
        got.append(a)
        return res
    w = ContextualizeCall(f, exit_func=leave)
    a, b, c = sa.sym('type', 'any'), sa.sym('value', 'any'), sa.sym('traceback', 'any')
    sa.check(w.__exit__(a, b, c) is res, 'leaving does not return what the exit function returns')
    x = got[0]
    sa.check(len(x) == 4 and x[0] is f and x[1] is a and x[2] is b and x[3] is c,
             'the exit function is not called with the wrapped function and the exception')


def prove_defaults():
    """without functions: entering gives the wrapped function, leaving swallows nothing"""
    def f():
        return 1
    w = ContextualizeCall(f)
    e = sa.user_error('block')
    try:
        with w as x:
            sa.check(x is f, 'entering without enter function does not give the wrapped function')
            raise e
    except sa.UserError as x:
        sa.check(x is e, 'an exception is replaced')
        return
    sa.fail('an exception is swallowed without an exit function')


def prove_nested():
    """a wrapper of a wrapper uses its own functions"""
    def f(x):
        return (x, 1)
    inner, outer = Rec('inner'), Rec('outer')
    wi = ContextualizeCall(f, inner.enter, inner.exit)
    own = sa.flag('with functions of its own')
    wo = ContextualizeCall(wi, outer.enter, outer.exit) if own else ContextualizeCall(wi)
    a = sa.sym('a', 'any')
    sa.check(wo(a) == (a, 1), 'the result of the wrapped function is not returned')
    with wo as x:
        if own:
            sa.check(x is outer.enters, 'entering does not return what the enter function returns')
            sa.check(len(outer.entered) == 1 and outer.entered[0] is wi,
                     'the enter function is not called with the wrapped function')
        else:
            sa.check(x is wi, 'entering without enter function does not give the wrapped function')
    sa.check(len(inner.entered) == 0 and len(inner.left) == 0,
             'the functions of the inner wrapper are called')
    if own:
        sa.check(len(outer.left) == 1 and outer.left[0][0] is wi,
                 'the exit function is not called with the wrapped function and the exception')
    with wi as x:
        sa.check(x is inner.enters, 'entering does not return what the enter function returns')
    sa.check(len(inner.entered) == 1 and inner.entered[0] is f and len(inner.left) == 1
             and len(outer.entered) == (1 if own else 0),
             'wrapping a wrapper changes the wrapper')


class Streamer:
    def __init__(self):
        self.opens, self.closes = 0, []
        self.entered = sa.sym('entered', 'any')
        self.swallows = sa.flag('swallows')

    def __enter__(self):
        self.opens += 1
        return self.entered

    def __exit__(self, *a):
        self.closes.append(a)
        return self.swallows

    def read(self, x):
        return (self, x)


def prove_with_instance():
    s = Streamer()
    w = contextualize_with_instance(s.read)
    a = sa.sym('a', 'any')
    sa.check(w(a) == (s, a), 'the result of the wrapped function is not returned')
    e = sa.user_error('block')
    raised = sa.flag('an error in the block')
    try:
        with w as x:
            sa.check(x is s.entered and s.opens == 1, 'entering does not enter the instance')
            if raised:
                raise e
        sa.check(s.swallows or not raised, 'an exception is swallowed though the instance does not')
    except sa.UserError as x:
        sa.check(x is e and not s.swallows, 'an exception is raised though the instance swallows it')
    sa.check(s.opens == 1 and len(s.closes) == 1 and len(s.closes[0]) == 3,
             'leaving does not leave the instance')
    sa.check(s.closes[0][1] is (e if raised else None), 'the instance is not given the exception')


def prove_independent():
    def f():
        return 1
    a, b = Rec('a'), Rec('b')
    wa = ContextualizeCall(f, a.enter, a.exit)
    wb = ContextualizeCall(f, b.enter, b.exit)
    with wa:
        sa.check(len(b.entered) == 0 and len(a.entered) == 1, 'wrappers share their functions')
    with wb:
        sa.check(len(b.entered) == 1 and len(a.entered) == 1, 'wrappers share their functions')
    sa.check(len(a.left) == 1 and len(b.left) == 1, 'wrappers share their functions')


class Described:
    kind = 'x'
    _hidden = 'h'

    def __call__(self):
        return 1

    def extra(self):
        return self


def prove_attributes():
    """other attributes are those of the wrapped function"""
    d = Described()
    d.mine = sa.sym('attribute', 'any')
    d._own = sa.sym('attribute', 'any')
    w = ContextualizeCall(d)
    sa.check(w._own is d._own and w.mine is d.mine and w.kind == 'x' and w._hidden == 'h' and w.extra() is d,
             'an attribute of the wrapped function is not available')
    kind, v = attempt(lambda: w.other)
    sa.check(kind == 'error' and isinstance(v, AttributeError), 'a missing attribute is invented')


def prove_described_like_the_wrapped():
    """its name and documentation are those of the wrapped function"""
    def measured(a):
        """what it measures"""
        return a
    w = ContextualizeCall(measured)
    sa.check(w.__name__ == 'measured', 'the wrapper is not named as the wrapped function')
    sa.check(w.__doc__ == 'what it measures', 'the wrapper is not documented as the wrapped function')
    again = ContextualizeCall(w)
    sa.check(again.__name__ == 'measured' and again.__doc__ == 'what it measures',
             'a wrapper of a wrapper is not described as the wrapped function')
