"""Lookups on an arbitrary sorted collection: position arithmetic is the oracle."""
import sa
from stream2py.utility.sorted_collection import SortedCollection
from stream2py.utility.sorted_deque import SortedDeque


def attempt(f, *args, **kw):
    try:
        return ('ok', f(*args, **kw))
    except ValueError as e:
        return ('missing', e)


def make(cls, distinct=False, **kw):
    src = sa.items('items', order='key', distinct=distinct, **kw)
    return src, cls(src, key=sa.KEY)


def some_cls():
    return SortedCollection if sa.flag('SortedCollection') else SortedDeque


def lookup(name, right, before, exact=False):
    cls = some_cls()
    src, c = make(cls)
    k = sa.sym('k', 'key')
    kind, v = attempt(getattr(c, name), k)
    n = len(src)
    lt = sa.bisect_left(src, k, key=sa.key)
    le = sa.bisect_right(src, k, key=sa.key)
    if exact:
        found = lt < le
        at = lt
    elif before:
        at = (le if right else lt) - 1
        found = at >= 0
    else:
        at = le if right else lt
        found = at < n
    if kind == 'ok':
        sa.check(found, 'a lookup returns an item although none qualifies')
        sa.check(sa.same(v, src[at]), 'a lookup returns another item than the one asked for')
    else:
        sa.check(not found, 'a lookup raises ValueError although an item qualifies')


def prove_find():
    lookup('find', None, None, exact=True)


def prove_find_le():
    lookup('find_le', True, True)


def prove_find_lt():
    lookup('find_lt', False, True)


def prove_find_ge():
    lookup('find_ge', False, False)


def prove_find_gt():
    lookup('find_gt', True, False)


def prove_find_last_gt():
    src, c = make(SortedDeque)
    k = sa.sym('k', 'key')
    kind, v = attempt(c.find_last_gt, k)
    n = len(src)
    le = sa.bisect_right(src, k, key=sa.key)
    if kind == 'ok':
        sa.check(le < n, 'find_last_gt returns an item although none qualifies')
        sa.check(sa.same(v, src[n - 1]), 'find_last_gt returns another item than the newest')
    else:
        sa.check(le >= n, 'find_last_gt raises ValueError although the newest item qualifies')


def prove_range():
    src, c = make(SortedDeque)
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    how = sa.choose(3, 'step')
    if how == 0:
        r = c.range(a, b)
    elif how == 1:
        r = c.range(a, b, None)
    else:
        step = sa.integer('step', 1)
        r = c.range(a, b, step)
    lo = sa.bisect_left(src, a, key=sa.key)
    hi = sa.bisect_right(src, b, key=sa.key)
    sa.check(isinstance(r, list), 'range does not return a list')
    if lo < hi:
        want = src[lo:hi] if how < 2 else src[lo:hi:step]
    else:
        want = []
    sa.check(sa.same_items(r, want), 'range returns other items than those within the bounds')


def prove_range_with_a_step_that_is_none():
    """zero or less"""
    src, c = make(SortedDeque)
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    step = 0 if sa.flag('zero') else -1
    kind, v = attempt(c.range, a, b, step)
    sa.check(kind == 'missing', 'a step that is not positive is not refused')


def prove_range_by_index():
    src, c = make(SortedDeque)
    n = len(src)
    i, j = sa.integer('i', 0), sa.integer('j', 0)
    r = c.range_by_index(i, j)
    sa.check(isinstance(r, list), 'range_by_index does not return a list')
    lo = min(i, n)
    hi = min(j, n)
    want = src[lo:hi] if lo < hi else []
    sa.check(sa.same_items(r, want), 'range_by_index returns other items than those asked for')


def prove_membership():
    cls = some_cls()
    src, c = make(cls)
    x = sa.sym('x', 'item')
    lo = sa.bisect_left(src, sa.key(x), key=sa.key)
    hi = sa.bisect_right(src, sa.key(x), key=sa.key)
    first = sa.first_equal(src, x)
    inside = first < len(src)
    got = x in c
    sa.check(got is True or got is False, 'membership is no truth value')
    sa.check(got == inside, 'membership is wrong')


def prove_index():
    cls = some_cls()
    src, c = make(cls)
    x = sa.sym('x', 'item')
    first = sa.first_equal(src, x)
    kind, i = attempt(c.index, x)
    if kind == 'ok':
        sa.check(first < len(src), 'index finds an item that is not there')
        sa.check(i == first, 'index is not the position of the first equal item')
    else:
        sa.check(first >= len(src), 'index misses an item that is there')


def prove_index_of_element():
    cls = some_cls()
    src, c = make(cls)
    p = sa.integer('p', 0)
    sa.assume(p < len(src))
    first = sa.first_equal(src, src[p])
    i = c.index(src[p])
    sa.check(i == first, 'index of an element is not the position of the first equal one')
    sa.check(src[p] in c, 'an element is not found by membership')


def equal_elsewhere():
    """items may be equal although their keys differ -> collection, item, first position of an
    equal item from those with its key on (None: there is none), end of those with its key"""
    src, c = make(some_cls(), equal='any')
    if sa.flag('held item'):
        p = sa.integer('p', 0)
        sa.assume(p < len(src))
        x = src[p]
    else:
        x = sa.sym('x', 'item')
    lo = sa.bisect_left(src, sa.key(x), key=sa.key)
    hi = sa.bisect_right(src, sa.key(x), key=sa.key)
    return c, x, sa.equal_from(src, x, lo), hi


def prove_index_among_equal_keys():
    c, x, first, hi = equal_elsewhere()
    kind, i = attempt(c.index, x)
    inside = first is not None and first < hi
    if kind == 'ok':
        sa.check(inside, 'index finds an item with another key')
        sa.check(i == first, 'index is not the position of the first equal item')
    else:
        sa.check(not inside, 'index misses an item that is there')


def prove_membership_among_equal_keys():
    c, x, first, hi = equal_elsewhere()
    got = x in c
    inside = first is not None and first < hi
    sa.check(got == inside, 'membership is wrong (items with another key)')


def prove_count_among_equal_keys():
    a, b = sa.sym('a', 'item'), sa.sym('b', 'item')
    sa.assume(a == b)
    sa.assume(sa.key(a) < sa.key(b))
    c = some_cls()([a], key=sa.KEY)
    c.insert(b)
    sa.check(c.count(a) == 1, 'count considers items with another key')
    sa.check(c.count(b) == 1, 'count considers items with another key')


def prove_count_equal():
    """items that are equal without being the same"""
    a, b, d = sa.sym('a', 'item'), sa.sym('b', 'item'), sa.sym('d', 'item')
    sa.assume(a == b)
    sa.assume(sa.key(a) == sa.key(b) and sa.key(a) == sa.key(d))
    sa.assume(not a == d)
    c = some_cls()([a, b, d], key=sa.KEY)
    sa.check(c.count(a) == 2, 'count does not count every equal item')
    sa.check(c.count(d) == 1, 'count counts items that are not equal')


def prove_count_absent():
    cls = some_cls()
    src, c = make(cls)
    x = sa.sym('x', 'item')
    sa.assume_absent(src, x)
    sa.check(c.count(x) == 0, 'count of an absent item is not 0')


def prove_count_distinct():
    cls = some_cls()
    src, c = make(cls, distinct=True)
    p = sa.integer('p', 0)
    sa.assume(p < len(src))
    sa.check(c.count(src[p]) == 1, 'count of an item that occurs once is not 1')


def prove_count_all_equal():
    cls = some_cls()
    n = sa.choose(4, 'n')
    x = sa.sym('x', 'item')
    c = cls([x] * n, key=sa.KEY)
    sa.check(c.count(x) == n, 'count of a repeated item is wrong')


def prove_access():
    cls = some_cls()
    src, c = make(cls)
    n = len(src)
    sa.check(len(c) == n, 'len is wrong')
    p = sa.integer('p', 0)
    sa.assume(p < n)
    sa.check(sa.same(c[p], src[p]), 'item access by position is wrong')
    sa.check(sa.same(c[p - n], src[p]), 'item access from the end is wrong')
    sa.check(sa.same_items(list(c), src), 'iteration is wrong')
