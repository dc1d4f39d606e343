"""Bounded sorted deques."""
import sa
from scen.coll import attempt, agrees, lookups
from stream2py.utility.sorted_deque import SortedDeque
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque


def newest(src, m):
    n = len(src)
    return src if n <= m else src[n - m:]


def bounded(strict=True):
    src = sa.items('items', order='key', strict=strict)
    m = sa.integer('maxlen', 1)
    return src, m, SortedDeque(src, key=sa.KEY, maxlen=m)


def still_bounded(c, want, m):
    """(the bound in force: filling up to it keeps everything, one more drops the oldest)"""
    sa.check(c.maxlen == m, 'the maximum length is not reported')
    sa.check(len(c) <= m, 'more items than the maximum length are held')
    x = sa.sym('later', 'item')
    kind, v = attempt(c.append, x)
    if kind == 'ok':
        want = newest(want + [x], m)
    sa.check(len(c) <= m, 'more items than the maximum length are held after an append')
    sa.check(sa.same_items(list(c), want), 'an append to a bounded deque does not keep the newest '
             'items')


def prove_construct():
    src, m, c = bounded(strict=sa.flag('strict'))
    agrees(c, newest(src, m))
    sa.check(c.maxlen == m, 'the maximum length is not reported')


def prove_append():
    src, m, c = bounded()
    still_bounded(c, newest(src, m), m)


def prove_lookups_of_a_full_one():
    """(its length never changes: the same lookup before and after an append)"""
    src = sa.items('items', order='key', strict=True)
    sa.assume(len(src) > 0)
    c = SortedDeque(src, key=sa.KEY, maxlen=len(src))
    which = sa.choose(6, 'lookup')
    k = sa.sym('probe', 'key')
    lookups(c, src, sa.key, k, which)
    x = sa.sym('later', 'item')
    if attempt(c.append, x)[0] == 'ok':
        lookups(c, src[1:] + [x], sa.key, k, which)
    else:
        lookups(c, src, sa.key, k, which)


def prove_of_length_zero():
    """never holds anything"""
    src = sa.items('items', order='key', strict=True)
    op = sa.choose(5, 'how')
    if op == 0:
        c = SortedDeque(src, key=sa.KEY, maxlen=0)
    elif op == 1:
        c = SortedDeque(src, key=sa.KEY, maxlen=3)
        c.maxlen = 0
    else:
        c = SortedDeque((), key=sa.KEY, maxlen=0)
        if op == 2:
            c.clear()
        elif op == 3:
            c = c.copy()
        else:
            def key2(x):
                return sa.apply('KEY', x, 'key')
            c.key = key2
    sa.check(c.maxlen == 0, 'the maximum length is not reported')
    agrees(c, [])
    attempt(c.append, sa.sym('x', 'item'))
    agrees(c, [])


def prove_append_lookup():
    src, m, c = bounded()
    x = sa.sym('x', 'item')
    want = newest(src, m)
    if attempt(c.append, x)[0] == 'ok':
        want = newest(want + [x], m)
    agrees(c, want)


def prove_clear():
    src, m, c = bounded()
    c.clear()
    sa.check(len(c) == 0, 'clear leaves items')
    still_bounded(c, [], m)


def prove_clear_twice_filled():
    c = SortedDeque(key=sa.KEY, maxlen=2)
    a, b, d = sa.sym('a', 'item'), sa.sym('b', 'item'), sa.sym('d', 'item')
    c.clear()
    sa.assume(sa.key(a) < sa.key(b) and sa.key(b) < sa.key(d))
    c.append(a)
    c.append(b)
    c.append(d)
    sa.check(sa.same_items(list(c), [b, d]), 'a cleared deque forgot its maximum length')


def prove_copy():
    src, m, c = bounded()
    still_bounded(c.copy(), newest(src, m), m)


def prove_key_set():
    src, m, c = bounded()

    def key2(x):
        return sa.apply('KEY', x, 'key')
    c.key = key2
    sa.check(c.key is key2, 'the key function is not the one set')
    still_bounded(c, newest(src, m), m)


def prove_key_deleted():
    src, m, c = bounded()
    del c.key
    sa.check(c.maxlen == m, 'deleting the key function removes the maximum length')
    sa.check(len(c) <= m, 'more items than the maximum length are held')


def prove_maxlen_set():
    src, m, c = bounded()
    held = newest(src, m)
    k = sa.integer('other', 1)
    c.maxlen = k
    sa.check(c.key is sa.KEY, 'changing the maximum length changes the key function')
    still_bounded(c, newest(held, k), k)


def prove_maxlen_from_none():
    src = sa.items('items', order='key', strict=True)
    c = SortedDeque(src, key=sa.KEY)
    k = sa.integer('other', 1)
    c.maxlen = k
    sa.check(c.key is sa.KEY, 'setting the maximum length changes the key function')
    still_bounded(c, newest(src, k), k)


def prove_maxlen_deleted():
    src, m, c = bounded()
    held = newest(src, m)
    if sa.flag('deleted'):
        del c.maxlen
    else:
        c.maxlen = None
    sa.check(c.maxlen is None, 'the maximum length is still there')
    sa.check(c.key is sa.KEY, 'removing the maximum length changes the key function')
    x = sa.sym('x', 'item')
    if attempt(c.append, x)[0] == 'ok':
        held = held + [x]
    agrees(c, held)


def prove_unbounded():
    src = sa.items('items', order='key', strict=True)
    c = SortedDeque(src, key=sa.KEY)
    x = sa.sym('x', 'item')
    if attempt(c.append, x)[0] == 'ok':
        agrees(c, src + [x])


def prove_locked():
    src = sa.items('items', order='key', strict=True)
    m = sa.integer('maxlen', 1)
    b = RWLockSortedDeque(src, key=sa.KEY, maxlen=m)
    want = newest(src, m)
    sa.check(b.key is sa.KEY, 'the buffer has another key function')
    x = sa.sym('x', 'item')
    with b.writer_lock() as w:
        kind, v = attempt(w.append, x)
    if kind == 'ok':
        want = newest(want + [x], m)
    with b.reader_lock() as r:
        sa.check(sa.same_items(list(r), want), 'the buffer does not hold the newest items')
    sa.check(len(b) == len(want), 'the length of the buffer is wrong')


def prove_sequence():
    """key and length changes one after the other"""
    src, m, c = bounded()
    want = newest(src, m)
    k = sa.integer('other', 1)
    c.maxlen = k
    want = newest(want, k)
    op = sa.choose(3, 'then')
    if op == 0:
        c.clear()
        want = []
    elif op == 1:
        c = c.copy()
    else:
        def key2(x):
            return sa.apply('KEY', x, 'key')
        c.key = key2
    still_bounded(c, want, k)
