"""Exact-size reads."""
import sa
from scen.common import World, attempt


def prove_strict():
    n = sa.integer('n', 2)
    how = sa.choose(4, 'options given')
    ignore = sa.flag('ignore')
    opts = {'ignore_no_item_found': ignore}
    if how == 0:
        w = World(opts=opts)
        kind, v = attempt(w.reader.read, n, strict_n=True)
    elif how == 1:
        w = World(opts=dict(opts, strict_n=True))
        kind, v = attempt(w.reader.read, n)
    elif how == 2:
        w = World(opts=dict(opts, strict_n=True, read_size=n))
        kind, v = attempt(w.reader.read)
    else:
        w = World(opts=dict(opts, read_size=n))
        kind, v = attempt(w.reader.read, strict_n=True)
    if w.pos + n <= w.n:
        sa.check(kind == 'ok', 'a strict read fails although enough items are buffered')
        sa.check(isinstance(v, list) and len(v) == n, 'a strict read does not return n items')
        sa.check(sa.same_items(v, w.src[w.pos:w.pos + n]), 'a strict read returns other items')
    elif w.pos < w.n:
        sa.check(kind == 'error' and isinstance(v, ValueError),
                 'a strict read of too few items does not raise ValueError')
        sa.check(w.cursor_unchanged(), 'a strict read that raises moves the cursor')
    elif ignore:
        sa.check(kind == 'ok' and v is None, 'no item at all and ignored: not None')
    else:
        sa.check(kind == 'error', 'a strict read returns although nothing is buffered')
        sa.check(w.cursor_unchanged(), 'a strict read that fails moves the cursor')


def prove_strict_next():
    n = sa.integer('n', 2)
    w = World(opts={'strict_n': True, 'read_size': n})
    kind, v = attempt(next, w.reader)
    if w.pos + n <= w.n:
        sa.check(kind == 'ok' and len(v) == n, 'next() of a strict reader does not return n items')
    elif w.pos < w.n:
        sa.check(kind == 'error' and isinstance(v, ValueError),
                 'next() of a strict reader with too few items does not raise ValueError')
        sa.check(w.cursor_unchanged(), 'next() of a strict reader moves the cursor and raises')


def prove_strict_blocking():
    n = sa.integer('n', 2)
    w = World()
    sa.assume(w.pos < w.n)
    kind, v = attempt(w.reader.read, n, strict_n=True, blocking=True)
    if w.pos + n <= w.n:
        sa.check(kind == 'ok' and len(v) == n, 'a strict blocking read does not return n items')
    else:
        sa.check(kind == 'error' and isinstance(v, ValueError),
                 'a strict blocking read of too few items does not raise ValueError')


def prove_relaxed():
    n = sa.integer('n', 2)
    how = sa.choose(3, 'options given')
    if how == 0:
        w = World()
        kind, v = attempt(w.reader.read, n)
    elif how == 1:
        w = World()
        kind, v = attempt(w.reader.read, n, strict_n=False)
    else:
        w = World(opts={'strict_n': True})
        kind, v = attempt(w.reader.read, n, strict_n=False)
    if w.pos < w.n:
        sa.check(kind == 'ok', 'a read fails although exactness was not requested')
        sa.check(len(v) == min(n, w.n - w.pos), 'a relaxed read returns the wrong number of items')


def prove_strict_again():
    """a strict read after another one"""
    n = sa.integer('n', 2)
    w = World()
    kind, v = attempt(w.reader.read, n, strict_n=True)
    if kind != 'ok':
        return
    at = w.pos + n
    seen = w.reader.last_item
    m = n if sa.flag('as many') else sa.integer('m', 2)
    kind, v = attempt(w.reader.read, m, strict_n=True)
    if at + m <= w.n:
        sa.check(kind == 'ok' and len(v) == m, 'a strict read fails although enough items are buffered')
    else:
        sa.check(kind == 'error', 'a strict read returns fewer items than asked')
        sa.check(w.cursor_is(seen), 'a strict read that raises moves the cursor')


def prove_strict_of_a_full_buffer():
    """(its length stays the same) before and after a further item"""
    n = sa.integer('n', 2)
    w = World(full=True)
    attempt(w.reader.read, n, strict_n=True, peek=True)
    if not w.turn_over():
        return
    kind, v = attempt(w.reader.read, n, strict_n=True)
    if w.pos + n <= w.n:
        sa.check(kind == 'ok' and len(v) == n, 'a strict read fails although enough items are buffered')
    else:
        sa.check(kind == 'error', 'a strict read returns fewer items than asked')
        sa.check(w.cursor_unchanged(), 'a strict read that raises moves the cursor')
