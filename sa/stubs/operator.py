def itemgetter(*items):
    if len(items) == 1:
        item = items[0]
        return lambda obj: obj[item]
    return lambda obj: tuple(obj[i] for i in items)


def attrgetter(*attrs):
    if len(attrs) == 1:
        attr = attrs[0]
        return lambda obj: getattr(obj, attr)
    return lambda obj: tuple(getattr(obj, a) for a in attrs)


def methodcaller(name, *args, **kw):
    return lambda obj: getattr(obj, name)(*args, **kw)


def lt(a, b): return a < b
def le(a, b): return a <= b
def gt(a, b): return a > b
def ge(a, b): return a >= b
def eq(a, b): return a == b
def ne(a, b): return a != b
def add(a, b): return a + b
def sub(a, b): return a - b
def mul(a, b): return a * b
def not_(a): return not a
def truth(a): return bool(a)
def is_(a, b): return a is b
def is_not(a, b): return a is not b
def contains(a, b): return b in a
def getitem(a, b): return a[b]
def setitem(a, b, c): a[b] = c
def delitem(a, b): del a[b]
def index(a): return a
