"""Head and tail."""
import sa
from scen.common import World, attempt, odd_reader


def prove_head():
    w = World()
    if sa.flag('peek given'):
        kind, v = attempt(w.reader.head, peek=sa.flag('peek'))
    else:
        kind, v = attempt(w.reader.head)
    if w.n > 0:
        sa.check(kind == 'ok', 'head fails although there are items')
        sa.check(sa.same(v, w.src[0]), 'head is not the oldest item')
    else:
        sa.check(kind == 'error' or v is None, 'head returns an item of an empty buffer')


def prove_tail():
    w = World()
    c = sa.choose(3, 'options')
    if c == 0:
        kind, v = attempt(w.reader.tail)
    elif c == 1:
        kind, v = attempt(w.reader.tail, peek=sa.flag('peek'), ignore_no_item_found=True)
    else:
        kind, v = attempt(w.reader.tail, only_new_items=False)
    if w.n > 0:
        sa.check(kind == 'ok', 'tail fails although there are items')
        sa.check(sa.same(v, w.src[w.n - 1]), 'tail is not the newest item')
    else:
        sa.check(kind == 'error' or v is None, 'tail returns an item of an empty buffer')


def prove_tail_new():
    w = World()
    ignore = sa.flag('ignore')
    kind, v = attempt(w.reader.tail, only_new_items=True, ignore_no_item_found=ignore,
                      peek=sa.flag('peek'))
    if w.pos < w.n:
        sa.check(kind == 'ok', 'tail fails although there is a new item')
        sa.check(sa.same(v, w.src[w.n - 1]), 'tail is not the newest item though it is new')
    elif ignore:
        sa.check(kind == 'ok' and v is None, 'tail without a new item is not None')
    else:
        sa.check(kind == 'error', 'tail without a new item does not raise')


def prove_after_other_operations():
    w = World(fresh=True)
    sa.assume(w.n > 0)
    c = sa.choose(3, 'first')
    if c == 0:
        w.reader.read()
    elif c == 1:
        w.reader.tail()
    else:
        w.reader.head()
    sa.check(sa.same(w.reader.head(), w.src[0]), 'head depends on the cursor')
    sa.check(sa.same(w.reader.tail(), w.src[w.n - 1]), 'tail depends on the cursor')


def prove_full_buffer():
    """a full buffer (its length stays the same) before and after a further item"""
    w = World(full=True)
    c = sa.choose(3, 'operation')
    for i in range(2):
        if i == 1 and not w.turn_over():
            return
        if c == 0:
            sa.check(sa.same(w.reader.head(peek=True), w.src[0]), 'head is not the oldest item')
        elif c == 1:
            sa.check(sa.same(w.reader.tail(peek=True), w.src[w.n - 1]), 'tail is not the newest item')
        else:
            v = w.reader.tail(peek=True, only_new_items=True, ignore_no_item_found=True)
            if w.pos < w.n:
                sa.check(v is not None and sa.same(v, w.src[w.n - 1]),
                         'tail is not the newest item though it is new')
            else:
                sa.check(v is None, 'tail without a new item is not None')


def prove_items_with_comparisons_of_their_own():
    """arrays; objects that are equal to everything"""
    items, r = odd_reader(2)
    kind, v = attempt(r.head)
    sa.check(kind == 'ok' and v is items[0], 'head is not the oldest item')
    kind, v = attempt(r.tail, only_new_items=sa.flag('only new'), ignore_no_item_found=sa.flag('ignore'))
    sa.check(kind == 'ok' and v is items[1], 'tail is not the newest item')
