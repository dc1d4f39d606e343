def islice(it, lo, hi, step):
    i = 0
    nxt = lo
    while hi is None or i < hi:
        try:
            x = next(it)
        except StopIteration:
            return
        if i == nxt:
            yield x
            nxt = nxt + step
        i = i + 1


def bisect(a, x, lo, hi, key, right):
    if lo < 0:
        raise ValueError('lo must be non-negative')
    if hi is None:
        hi = len(a)
    while lo < hi:
        mid = (lo + hi) // 2
        k = a[mid] if key is None else key(a[mid])
        if right:
            if x < k:
                hi = mid
            else:
                lo = mid + 1
        else:
            if k < x:
                lo = mid + 1
            else:
                hi = mid
    return lo
