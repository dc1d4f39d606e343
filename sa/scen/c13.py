"""Sequential reads."""
import sa
from scen.common import World, attempt, odd_reader


def some_args():
    kw = {}
    if sa.flag('peek'):
        kw['peek'] = True
    if sa.flag('ignore'):
        kw['ignore_no_item_found'] = True
    return kw


def prove_read_one():
    w = World()
    kw = some_args()
    how = sa.choose(3, 'n given')
    if how == 0:
        kind, v = attempt(w.reader.read, **kw)
    elif how == 1:
        kind, v = attempt(w.reader.read, 1, **kw)
    else:
        kind, v = attempt(w.reader.read, 1, strict_n=True, **kw)
    if w.pos < w.n:
        sa.check(kind == 'ok', 'a read fails although an unseen item is buffered')
        sa.check(sa.same(v, w.src[w.pos]), 'a read does not return the oldest unseen item')
    else:
        sa.check(kind == 'error' or v is None, 'a read returns something although all items were seen')


def prove_read_many():
    w = World()
    n = sa.integer('n', 2)
    kind, v = attempt(w.reader.read, n, **some_args())
    if w.pos < w.n:
        sa.check(kind == 'ok', 'a read of n items fails although an unseen item is buffered')
        sa.check(isinstance(v, list), 'a read of n > 1 items does not return a list')
        end = min(w.pos + n, w.n)
        sa.check(sa.same_items(v, w.src[w.pos:end]),
                 'a read of n items does not return the next consecutive items')
    else:
        sa.check(kind == 'error' or v is None, 'a read of n returns something although all was seen')


def prove_successive():
    w = World()
    size = sa.choose(2, 'size')
    n = sa.integer('n', 2) if size else 1
    first = w.pos
    kind, v = attempt(w.reader.read, n)
    if kind != 'ok':
        return
    first = min(first + n, w.n)
    # a second read continues right after
    m = sa.integer('m', 2) if sa.flag('then many') else 1
    kind, v = attempt(w.reader.read, m)
    if first < w.n:
        sa.check(kind == 'ok', 'the second read fails although an unseen item is buffered')
        if m == 1:
            sa.check(sa.same(v, w.src[first]), 'successive reads skip or repeat an item')
        else:
            sa.check(sa.same_items(v, w.src[first:min(first + m, w.n)]),
                     'successive reads skip or repeat items')
    else:
        sa.check(kind != 'ok' or v is None, 'the second read returns an item again')


def prove_peeked_again():
    w = World()
    n = sa.integer('n', 1)
    k1, v1 = attempt(w.reader.read, n, peek=True)
    k2, v2 = attempt(w.reader.read, n)
    if w.pos < w.n:
        sa.check(k1 == 'ok' and k2 == 'ok', 'a read fails although an unseen item is buffered')
        if n == 1:
            sa.check(sa.same(v1, v2), 'a read after a peek returns something else')
        else:
            sa.check(sa.same_items(v1, v2), 'a read after a peek returns other items')


def prove_evicted():
    """items evicted and appended between two reads: the next read is the oldest unseen one left"""
    w = World()
    k1, v1 = attempt(w.reader.read)
    new = sa.sym('new', 'item')
    gone = sa.integer('gone', 0)
    sa.assume(gone <= w.n)
    with w.buffer.writer_lock() as b:
        ok = attempt(b.append, new)[0] == 'ok'
        b.drop(gone)
    left = w.src[gone:] + ([new] if ok else [])
    pos = min(w.pos + 1, w.n)
    at = max(pos - gone, 0)
    k2, v2 = attempt(w.reader.read)
    if w.pos >= w.n:
        return
    if at < len(left):
        sa.check(k2 == 'ok', 'a read fails although an unseen item is buffered')
        sa.check(sa.same(v2, left[at]), 'a read after an eviction skips or repeats an item')
    else:
        sa.check(k2 != 'ok', 'a read after an eviction returns an item again')


def prove_full_buffer():
    """a full buffer (its length stays the same) between two reads"""
    w = World(full=True)
    n = sa.integer('n', 2) if sa.flag('many') else 1
    kind, v = attempt(w.reader.read, n, ignore_no_item_found=True, peek=True)
    if w.turn_over():
        kind, v = attempt(w.reader.read, n, ignore_no_item_found=sa.flag('ignore'))
        if w.pos >= w.n:
            sa.check(kind == 'error' or v is None,
                     'a read returns something although all items were seen')
            return
        sa.check(kind == 'ok' and v is not None,
                 'a read fails although an unseen item is buffered')
        if n == 1:
            sa.check(sa.same(v, w.src[w.pos]), 'a read does not return the oldest unseen item')
        else:
            sa.check(sa.same_items(v, w.src[w.pos:min(w.pos + n, w.n)]),
                     'a read of n items does not return the next consecutive items')


def prove_items_with_comparisons_of_their_own():
    """arrays; objects that are equal to everything"""
    items, r = odd_reader(3)
    if sa.flag('many'):
        kind, v = attempt(r.read, 2)
        sa.check(kind == 'ok' and len(v) == 2 and v[0] is items[0] and v[1] is items[1],
                 'a read does not return the next items')
        kind, v = attempt(r.read)
        sa.check(kind == 'ok' and v is items[2], 'a read does not return the next item')
        return
    for x in items:
        kind, v = attempt(r.read)
        sa.check(kind == 'ok' and v is x, 'a read does not return the next item')
