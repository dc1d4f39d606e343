import sa


def copy(x):
    c = getattr(type(x), '__copy__', None)
    if c is not None:
        return c(x)
    return sa.shallow_copy(x)


def deepcopy(x, memo=None):
    return sa.shallow_copy(x)
