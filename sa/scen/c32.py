"""Copies and serialised forms."""
import sa
from scen.coll import attempt, agrees
from stream2py.utility.sorted_collection import SortedCollection
from stream2py.utility.sorted_deque import SortedDeque


class MyDeque(SortedDeque):
    pass


class MyCollection(SortedCollection):
    pass


def some_cls():
    return [SortedCollection, SortedDeque, MyDeque, MyCollection][sa.choose(4, 'class')]


def equal(d, cls, want, key, maxlen):
    sa.check(type(d) is cls, 'a copy is of another class')
    sa.check(d.key is key, 'a copy has another key function')
    if maxlen is not False:
        sa.check(d.maxlen is maxlen or d.maxlen == maxlen, 'a copy has another maximum length')
    sa.check(sa.same_items(list(d), want), 'a copy does not hold the same items in the same order')


def make(cls, bound):
    src = sa.items('items', order='key')
    if issubclass(cls, SortedDeque):
        m = sa.integer('maxlen', 1) if bound else None
        c = cls(src, key=sa.KEY, maxlen=m)
        n = len(src)
        return c, (src if m is None or n <= m else src[n - m:]), m
    return cls(src, key=sa.KEY), src, False


def changed(c):
    """some change; it must not show in the other collection"""
    x = sa.sym('x', 'item')
    op = sa.choose(3, 'change')
    if op == 0:
        attempt(c.insert, x)
    elif op == 1:
        c.clear()
    elif isinstance(c, SortedDeque):
        attempt(c.append, x)
    else:
        c.insert_right(x)


def prove_copy():
    cls = some_cls()
    c, want, m = make(cls, sa.flag('bounded'))
    d = c.copy()
    equal(d, cls, want, sa.KEY, m)
    agrees(d, want)
    sa.check(d is not c, 'a copy is the collection itself')


def prove_copy_independent():
    cls = SortedCollection if sa.flag('SortedCollection') else SortedDeque
    c, want, m = make(cls, False)
    d = c.copy()
    if sa.flag('original changes'):
        changed(c)
        agrees(d, want)
    else:
        changed(d)
        agrees(c, want)


def prove_dictionary():
    cls = SortedDeque if sa.flag('SortedDeque') else MyDeque
    c, want, m = make(cls, sa.flag('bounded'))
    d = cls.from_jdict(c.to_jdict())
    equal(d, cls, want, sa.KEY, m)
    agrees(d, want)


def prove_dictionary_independent():
    c, want, m = make(SortedDeque, False)
    j = c.to_jdict()
    if sa.flag('changed between'):
        changed(c)
        d = SortedDeque.from_jdict(j)
        agrees(d, want)
    else:
        d = SortedDeque.from_jdict(j)
        changed(d)
        agrees(c, want)


def prove_pickling():
    cls = some_cls()
    c, want, m = make(cls, sa.flag('bounded'))
    r = c.__reduce__()
    d = r[0](*r[1])
    equal(d, cls, want, sa.KEY, m)
    agrees(d, want)


def prove_pickling_independent():
    c, want, m = make(SortedDeque if sa.flag('SortedDeque') else SortedCollection, False)
    r = c.__reduce__()
    d = r[0](*r[1])
    changed(d)
    agrees(c, want)


def prove_no_key():
    src = sa.items('items', order='self')
    cls = SortedCollection if sa.flag('SortedCollection') else SortedDeque
    c = cls(src)
    how = sa.choose(3, 'how')
    if how == 0:
        d = c.copy()
    elif how == 1:
        r = c.__reduce__()
        d = r[0](*r[1])
    else:
        if cls is SortedCollection:
            return
        d = cls.from_jdict(c.to_jdict())
    sa.check(type(d) is cls, 'a copy is of another class')
    sa.check(sa.same_items(list(d), src), 'a copy does not hold the same items in the same order')
    x = sa.sym('x', 'key')
    sa.check(d.key(x) is x or d.key(x) == x, 'a copy has another key function')


def prove_copy_after_changes():
    c, want, m = make(SortedDeque, True)
    x = sa.sym('x', 'item')
    if attempt(c.append, x)[0] == 'ok':
        want = want + [x]
        if len(want) > m:
            want = want[1:]
    how = sa.choose(3, 'how')
    if how == 0:
        d = c.copy()
    elif how == 1:
        r = c.__reduce__()
        d = r[0](*r[1])
    else:
        d = SortedDeque.from_jdict(c.to_jdict())
    equal(d, SortedDeque, want, sa.KEY, m)


def prove_recipe_can_be_pickled():
    """whatever was done to the collection before"""
    cls = SortedCollection if sa.flag('SortedCollection') else SortedDeque
    src = sa.items('items', order='self')
    given = sa.flag('key given')
    c = cls(src, key=sa.KEY) if given else cls(src)
    while sa.flag('more is done to it'):
        op = sa.choose(4, 'operation')
        if op == 0:
            c = c.copy()
        elif op == 1:
            c.clear()
        elif op == 2:
            if sa.flag('none'):
                c.key = None
            else:
                del c.key
        elif cls is SortedDeque:
            if sa.flag('deleted'):
                del c.maxlen
            else:
                c.maxlen = 3
    recipe = c.__reduce__()
    key = recipe[1][1]
    sa.check(key is None or key is sa.KEY or sa.importable(key),
             'the pickling recipe holds a function that cannot be pickled')
    j = c.key
    sa.check(j is sa.KEY or sa.importable(j), 'the key function cannot be pickled')
