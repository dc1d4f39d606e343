import sa

deque = sa.deque
OrderedDict = dict


class defaultdict(dict):
    def __init__(self, default_factory=None, *args, **kw):
        dict.__init__(self, *args, **kw)
        self.default_factory = default_factory

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v


class Counter(dict):
    def __missing__(self, key):
        return 0


def namedtuple(name, fields, **kw):
    return sa.unmodelled('collections.namedtuple')
