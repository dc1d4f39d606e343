"""The sorted collections stay sorted and consistent with their index."""
import sa
from scen.coll import attempt, agrees, lookups
from stream2py.utility.sorted_collection import SortedCollection
from stream2py.utility.sorted_deque import SortedDeque


def some_cls():
    return SortedCollection if sa.flag('SortedCollection') else SortedDeque


def make(cls, strict=False):
    src = sa.items('items', order='key', strict=strict)
    return src, cls(src, key=sa.KEY)


def spec2(x):
    return sa.apply('KEY2', x, 'key')


def prove_construct_sorted():
    src, c = make(some_cls())
    agrees(c, src)


def prove_construct_unsorted():
    src = sa.items('items')
    c = some_cls()(src, key=sa.KEY)
    agrees(c, sorted(src, key=sa.key))


def prove_construct_few():
    """few items in any order, with equal keys"""
    a, b, d = sa.sym('a', 'item'), sa.sym('b', 'item'), sa.sym('d', 'item')
    given = [a, b, d][:sa.choose(4, 'number of items')]
    c = some_cls()(given, key=sa.KEY)
    want = sorted(given, key=sa.key)
    sa.check(sa.same_items(list(c), want), 'items given are not held in key order')
    lookups(c, want)


def prove_construct_from_iterator():
    src = sa.items('items', order='key')
    c = some_cls()(iter(src), key=sa.KEY)
    agrees(c, src)


def inserted(cls, op, right):
    src, c = make(cls)
    x = sa.sym('x', 'item')
    bis = sa.bisect_right if right else sa.bisect_left
    i = bis(src, sa.key(x), key=sa.key)
    getattr(c, op)(x)
    agrees(c, src[:i] + [x] + src[i:])


def prove_insert_collection():
    inserted(SortedCollection, 'insert', False)


def prove_insert_deque():
    inserted(SortedDeque, 'insert', False)


def prove_insert_right_collection():
    inserted(SortedCollection, 'insert_right', True)


def prove_insert_right_deque():
    inserted(SortedDeque, 'insert_right', True)


def prove_append():
    src, c = make(SortedDeque, strict=sa.flag('strict'))
    x = sa.sym('x', 'item')
    kind, v = attempt(c.append, x)
    greater = sa.bisect_right(src, sa.key(x), key=sa.key) >= len(src) and \
        sa.bisect_left(src, sa.key(x), key=sa.key) >= len(src)
    if greater:
        sa.check(kind == 'ok', 'an append with the greatest key is refused')
        agrees(c, src + [x])
    else:
        sa.check(kind == 'error' and isinstance(v, ValueError),
                 'an append whose key is not greater than the newest does not raise ValueError')
        agrees(c, src)


class Unordered:
    """a key that is neither less nor greater than any other, nor equal (as nan)"""

    def __lt__(self, other):
        return False

    __gt__ = __le__ = __ge__ = __eq__ = __lt__

    def __hash__(self):
        return 0


def prove_append_unordered():
    odd = Unordered()
    x, y = sa.sym('x', 'item'), sa.sym('y', 'item')
    first = sa.flag('the newest has such a key')

    def key(item):
        if item is (x if first else y):
            return odd
        return 1
    c = SortedDeque([x], key=key)
    kind, v = attempt(c.append, y)
    sa.check(kind == 'error' and isinstance(v, ValueError),
             'an append whose key is not greater than the newest does not raise ValueError')
    sa.check(len(c) == 1 and c[0] is x, 'a refused append changes the collection')


class Incomparable:
    """a key whose comparison with another one raises the given error"""

    def __init__(self, error):
        self.error = error

    def __lt__(self, other):
        raise self.error

    __gt__ = __le__ = __ge__ = __lt__


def prove_append_incomparable():
    error = sa.choose(3, 'error')
    error = IndexError('i') if error == 0 else TypeError('t') if error == 1 else KeyError('k')
    k = Incomparable(error)
    x, y = sa.sym('x', 'item'), sa.sym('y', 'item')
    c = SortedDeque([x], key=lambda item: k)
    kind, v = attempt(c.append, y)
    sa.check(kind == 'error' and v is error,
             'an append whose key cannot be compared does not raise the error of the comparison')
    sa.check(len(c) == 1 and c[0] is x, 'a refused append changes the collection')
    kind, v = attempt(c.find_last_gt, k)
    sa.check(kind == 'error' and v is error,
             'a lookup whose key cannot be compared does not raise the error of the comparison')


def prove_append_bounded():
    src = sa.items('items', order='key', strict=True)
    m = sa.integer('maxlen', 1)
    n = len(src)
    sa.assume(n <= m)
    c = SortedDeque(src, key=sa.KEY, maxlen=m)
    x = sa.sym('x', 'item')
    kind, v = attempt(c.append, x)
    if kind == 'ok':
        want = src + [x]
        agrees(c, want if n < m else want[1:])
    else:
        agrees(c, src)


def prove_remove_held():
    cls = some_cls()
    src, c = make(cls)
    p = sa.integer('p', 0)
    sa.assume(p < len(src))
    x = src[p]
    first = sa.first_equal(src, x)
    c.remove(x)
    agrees(c, src[:first] + src[first + 1:])


def prove_remove_absent():
    src, c = make(some_cls())
    x = sa.sym('x', 'item')
    sa.assume_absent(src, x)
    kind, v = attempt(c.remove, x)
    sa.check(kind == 'error' and isinstance(v, ValueError),
             'removing an absent item does not raise ValueError')
    agrees(c, src)


def prove_remove_any():
    src, c = make(some_cls())
    x = sa.sym('x', 'item')
    first = sa.first_equal(src, x)
    kind, v = attempt(c.remove, x)
    if first < len(src):
        sa.check(kind == 'ok', 'removing a held item fails')
        sa.check(sa.same_items(list(c), src[:first] + src[first + 1:]),
                 'remove does not delete exactly the first equal item')
    else:
        sa.check(kind == 'error', 'removing an absent item does not fail')
        sa.check(sa.same_items(list(c), src), 'a failing remove changes the collection')


def prove_remove_among_equal_keys():
    """items may be equal although their keys differ"""
    cls = some_cls()
    src = sa.items('items', order='key', equal='any')
    c = cls(src, key=sa.KEY)
    p = sa.integer('p', 0)
    sa.assume(p < len(src))
    x = src[p]
    first = sa.equal_from(src, x, sa.bisect_left(src, sa.key(x), key=sa.key))
    kind, v = attempt(c.remove, x)
    sa.check(kind == 'ok', 'removing a held item fails')
    agrees(c, src[:first] + src[first + 1:])


def prove_drop():
    src, c = make(SortedDeque)
    k = sa.integer('k', 0)
    sa.assume(k <= len(src))
    c.drop(k)
    agrees(c, src[k:])


def prove_drop_too_many():
    """whatever is left, the index agrees with it"""
    src, c = make(SortedDeque)
    k = sa.integer('k', 0)
    sa.assume(k > len(src))
    attempt(c.drop, k)
    n = len(c)
    held = list(c)
    sa.check(len(held) == n, 'the length is not the number of items')
    agrees(c, src[len(src) - n:])


def prove_insert_into_full():
    """refused or not, the index agrees with the items"""
    src = sa.items('items', order='key')
    m = sa.integer('maxlen', 1)
    sa.assume(len(src) == m)
    c = SortedDeque(src, key=sa.KEY, maxlen=m)
    x = sa.sym('x', 'item')
    if sa.flag('right'):
        kind, v = attempt(c.insert_right, x)
    else:
        kind, v = attempt(c.insert, x)
    sa.check(len(c) == m, 'an insert changes the number of items of a full deque')
    if kind == 'error':
        agrees(c, src)


def prove_drop_default():
    src, c = make(SortedDeque)
    sa.assume(len(src) > 0)
    c.drop()
    agrees(c, src[1:])


def prove_clear():
    cls = some_cls()
    src, c = make(cls)
    c.clear()
    sa.check(len(c) == 0, 'clear leaves items')
    sa.check(c.key is sa.KEY, 'clear changes the key function')
    x, y = sa.sym('x', 'item'), sa.sym('y', 'item')
    c.insert(x)
    c.insert(y)
    want = [x, y] if sa.key(x) < sa.key(y) else [y, x]
    agrees(c, want)


def prove_key_change():
    src, c = make(some_cls())

    def key2(x):
        return sa.apply('KEY2', x, 'key')
    c.key = key2
    sa.check(c.key is key2, 'the key function is not the one set')
    agrees(c, sorted(src, key=spec2), spec=spec2)


def prove_same_key_set():
    src, c = make(some_cls())
    c.key = sa.KEY
    agrees(c, src)


def prove_no_key():
    src = sa.items('items', order='self')
    c = some_cls()(src)
    sa.check(sa.same_items(list(c), src), 'items without a key function are not held in order')
    k = sa.sym('probe', 'key')
    kind, v = attempt(c.find_ge, k)
    at = sa.bisect_left(src, k)
    if at < len(src):
        sa.check(kind == 'ok' and sa.same(v, src[at]), 'a lookup without a key function is wrong')
    else:
        sa.check(kind == 'error', 'a lookup without a key function finds too much')


def prove_reversed():
    src, c = make(some_cls())
    i = len(src)
    for x in reversed(c):
        i -= 1
        sa.check(i >= 0 and sa.same(x, src[i]), 'reverse iteration is wrong')
    sa.check(i == 0, 'reverse iteration ends early')


def change(c, want, lab):
    """one more change of a collection holding want; -> the items expected afterwards"""
    x = sa.sym('x' + lab, 'item')
    k = sa.key(x)
    op = sa.choose(4, 'operation ' + lab)
    if op == 0:
        i = sa.bisect_left(want, k, key=sa.key)
        c.insert(x)
        return want[:i] + [x] + want[i:]
    if op == 1:
        i = sa.bisect_right(want, k, key=sa.key)
        c.insert_right(x)
        return want[:i] + [x] + want[i:]
    if op == 2:
        sa.assume(len(want) > 0)
        y = want[0]
        c.remove(y)
        return want[1:]
    c.clear()
    return []


def deep_two_changes():
    src, c = make(some_cls())
    want = change(c, src, '1')
    want = change(c, want, '2')
    agrees(c, want)


def prove_append_twice():
    src, c = make(SortedDeque, strict=True)
    x, y = sa.sym('x', 'item'), sa.sym('y', 'item')
    want = src
    if attempt(c.append, x)[0] == 'ok':
        want = want + [x]
    if attempt(c.append, y)[0] == 'ok':
        want = want + [y]
    agrees(c, want)


def prove_lookups_before_and_after():
    """the same lookup before and after one item is exchanged for another"""
    src, c = make(some_cls(), strict=True)
    sa.assume(len(src) > 0)
    which = sa.choose(5, 'lookup')
    k = sa.sym('probe', 'key')
    lookups(c, src, sa.key, k, which)
    c.remove(src[0])
    left = src[1:]
    x = sa.sym('x', 'item')
    c.insert(x)
    j = sa.bisect_left(left, sa.key(x), key=sa.key)
    lookups(c, left[:j] + [x] + left[j:], sa.key, k, which)


def prove_membership_before_and_after():
    """the same questions about an item before and after it is exchanged for another"""
    src, c = make(some_cls(), strict=True)
    sa.assume(len(src) > 0)
    x, y = src[0], sa.sym('y', 'item')
    sa.assume(not x == y)
    what = sa.choose(4, 'question')
    for held in (True, False):
        if what == 0:
            sa.check((x in c) == held, 'membership does not agree with the items held')
        elif what == 1:
            sa.check(c.count(x) == (1 if held else 0), 'count does not agree with the items held')
        elif what == 2:
            kind, v = attempt(c.index, x)
            sa.check(kind == ('ok' if held else 'error'), 'index does not agree with the items held')
        elif isinstance(c, SortedDeque):
            v = c.range(sa.key(x), sa.key(x))
            want = [x] if held else [y] if sa.key(x) == sa.key(y) else []
            sa.check(sa.same_items(v, want), 'a range does not agree with the items held')
        if held:
            c.remove(x)
            c.insert(y)
