import sa

islice = sa.islice


def chain(*its):
    for it in its:
        for x in it:
            yield x


def _from_iterable(its):
    for it in its:
        for x in it:
            yield x


chain.from_iterable = _from_iterable


def count(start=0, step=1):
    while True:
        yield start
        start += step


def repeat(x, times=None):
    if times is None:
        while True:
            yield x
    for _ in range(times):
        yield x


def takewhile(pred, it):
    for x in it:
        if not pred(x):
            return
        yield x


def dropwhile(pred, it):
    it = iter(it)
    for x in it:
        if not pred(x):
            yield x
            break
    for x in it:
        yield x


def filterfalse(pred, it):
    for x in it:
        if not (pred(x) if pred is not None else x):
            yield x


def starmap(f, it):
    for a in it:
        yield f(*a)


def accumulate(it, func=None):
    total = None
    first = True
    for x in it:
        total = x if first else (total + x if func is None else func(total, x))
        first = False
        yield total


def zip_longest(*its, fillvalue=None):
    its = [iter(i) for i in its]
    live = [True] * len(its)
    while True:
        row = []
        for j, it in enumerate(its):
            v = fillvalue
            if live[j]:
                try:
                    v = next(it)
                except StopIteration:
                    live[j] = False
            row.append(v)
        if not any(live):
            return
        yield tuple(row)
