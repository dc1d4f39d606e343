import sa

partial = sa.partial
WRAPPER_ASSIGNMENTS = ('__module__', '__name__', '__qualname__', '__doc__', '__annotations__')
WRAPPER_UPDATES = ('__dict__',)


def update_wrapper(wrapper, wrapped, assigned=WRAPPER_ASSIGNMENTS, updated=WRAPPER_UPDATES):
    for attr in assigned:
        try:
            value = getattr(wrapped, attr)
        except AttributeError:
            pass
        else:
            setattr(wrapper, attr, value)
    for attr in updated:
        for k, v in getattr(wrapped, attr, {}).items():
            setattr(wrapper, k, v)
    wrapper.__wrapped__ = wrapped
    return wrapper


def wraps(wrapped, assigned=WRAPPER_ASSIGNMENTS, updated=WRAPPER_UPDATES):
    def deco(wrapper):
        return update_wrapper(wrapper, wrapped, assigned, updated)

    return deco


def reduce(function, sequence, *initial):
    it = iter(sequence)
    if initial:
        value = initial[0]
    else:
        value = next(it)
    for x in it:
        value = function(value, x)
    return value


class cached_property:
    def __init__(self, func):
        self.func = func
        self.attrname = None

    def __set_name__(self, owner, name):
        self.attrname = name

    def __get__(self, instance, owner=None):
        if instance is None:
            return self
        val = self.func(instance)
        setattr(instance, self.attrname, val)
        return val


def cmp_to_key(f):
    class K:
        def __init__(self, obj):
            self.obj = obj

        def __lt__(self, other):
            return f(self.obj, other.obj) < 0

        def __gt__(self, other):
            return f(self.obj, other.obj) > 0

    return K


def total_ordering(cls):
    return cls
