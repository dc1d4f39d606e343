"""Shared oracle for the sorted collections."""
import sa


def attempt(f, *args, **kw):
    try:
        return ('ok', f(*args, **kw))
    except Exception as e:
        return ('error', e)


def agrees(c, want, key=sa.KEY, spec=sa.key):
    """iteration, length and the lookups of c are those of the sorted list want"""
    sa.check(sa.same_items(list(c), want), 'the collection does not hold the expected items in order')
    sa.check(len(c) == len(want), 'the length is not the number of items')
    lookups(c, want, spec)


def lookups(c, want, spec=sa.key, k=None, which=None):
    if k is None:
        k = sa.sym('probe', 'key')
    n = len(want)
    if which is None:
        which = sa.choose(3, 'lookup')
    if which == 0:
        kind, v = attempt(c.find_ge, k)
        at = sa.bisect_left(want, k, key=spec)
        found = at < n
    elif which == 1:
        kind, v = attempt(c.find_le, k)
        at = sa.bisect_right(want, k, key=spec) - 1
        found = at >= 0
    elif which == 2:
        kind, v = attempt(c.find, k)
        at = sa.bisect_left(want, k, key=spec)
        found = at < sa.bisect_right(want, k, key=spec)
    elif which == 3:
        kind, v = attempt(c.find_gt, k)
        at = sa.bisect_right(want, k, key=spec)
        found = at < n
    elif which == 4:
        kind, v = attempt(c.find_lt, k)
        at = sa.bisect_left(want, k, key=spec) - 1
        found = at >= 0
    else:
        kind, v = attempt(c.find_last_gt, k)
        at = n - 1
        found = sa.bisect_right(want, k, key=spec) < n
    if found:
        sa.check(kind == 'ok' and sa.same(v, want[at]),
                 'a lookup does not agree with the items held')
    else:
        sa.check(kind == 'error' and isinstance(v, ValueError),
                 'a lookup finds something that is not held')
