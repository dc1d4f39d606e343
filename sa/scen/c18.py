"""Blocking read."""
import sa
from scen.common import attempt, odd_reader
from scen.live import Live

MONITORS = ('looked',)


def blocking(w, n, kw):
    peek = kw.get('peek', False)
    kind, v = attempt(w.reader.read, n, blocking=True, **kw)
    strict = kw.get('strict_n', False)
    if kind == 'error':
        sa.check(w.pos < w.h, 'a missing item makes a blocking read fail')
        sa.check(strict and n > 1 and w.h - w.pos < n,
                 'a blocking read fails where the equivalent read does not')
        return
    if v is None:
        sa.check(w.stopped, 'a blocking read returns None although the stream is running')
        sa.check(w.pos >= w.h, 'a blocking read returns None although an item is available')
        return
    sa.check(w.pos < w.h, 'a blocking read returns something although nothing is available')
    if n == 1:
        sa.check(sa.same(v, w.src[w.pos]), 'a blocking read does not return the next item')
        last = v
    else:
        end = min(w.pos + n, w.h)
        sa.check(not strict or w.h - w.pos >= n, 'a blocking read returns fewer items than asked')
        sa.check(sa.same_items(v, w.src[w.pos:end]), 'a blocking read does not return the next items')
        last = v[-1]
    r = w.reader
    if peek:
        sa.check(r.last_item is w.seen or sa.same(r.last_item, w.seen),
                 'a peeking blocking read moves the cursor')
    else:
        sa.check(sa.same(r.last_item, last), 'a blocking read does not move the cursor')


def prove_one():
    w = Live()
    kw = {}
    if sa.flag('peek'):
        kw['peek'] = True
    c = sa.choose(3, 'ignore')
    if c:
        kw['ignore_no_item_found'] = c == 1
    blocking(w, 1, kw)


def prove_many():
    w = Live()
    kw = {}
    if sa.flag('peek'):
        kw['peek'] = True
    if sa.flag('strict'):
        kw['strict_n'] = True
    blocking(w, sa.integer('n', 2), kw)


def prove_defaults():
    n = sa.integer('n', 1)
    opts = {'read_size': n, 'ignore_no_item_found': sa.flag('ignore')}
    if sa.flag('peek'):
        opts['peek'] = True
    w = Live(opts)
    kind, v = attempt(w.reader.read, blocking=True)
    if kind == 'error':
        sa.fail('a blocking read with the defaults fails')
    if v is None:
        sa.check(w.drained(), 'a blocking read returns None although an item is available')
    elif n == 1:
        sa.check(sa.same(v, w.src[w.pos]), 'a blocking read does not use the default size')
    else:
        sa.check(sa.same_items(v, w.src[w.pos:min(w.pos + n, w.h)]),
                 'a blocking read does not use the default size')


def prove_stopped():
    w = Live()
    w.stop()
    kind, v = attempt(w.reader.read, blocking=True, ignore_no_item_found=sa.flag('ignore'))
    sa.check(kind == 'ok', 'a blocking read of a stopped stream fails')
    if w.pos < w.h:
        sa.check(v is not None and sa.same(v, w.src[w.pos]),
                 'a blocking read of a stopped stream misses an item')
    else:
        sa.check(v is None, 'a blocking read of a stopped and drained stream returns something')
    sa.check(not w.paused, 'a blocking read of a stopped stream waits')


def prove_twice():
    w = Live()
    for i in range(2):
        kind, v = attempt(w.reader.read, blocking=True)
        sa.check(kind == 'ok', 'a blocking read fails')
        if v is None:
            sa.check(w.drained(), 'a blocking read returns None although an item is available')
            return
        sa.check(sa.same(v, w.src[w.pos]), 'successive blocking reads skip or repeat an item')
        w.pos += 1
        w.lookups = 0


def prove_full_buffer():
    """(its length stays the same)"""
    w = Live(full=True)
    kind, v = attempt(w.reader.read, blocking=True, peek=sa.flag('peek'))
    sa.check(kind == 'ok', 'a blocking read fails')
    if v is None:
        sa.check(w.drained(), 'a blocking read returns None although an item is available')
    else:
        sa.check(w.pos < w.h and sa.same(v, w.src[w.at()]),
                 'a blocking read does not return the next item')


def prove_items_with_comparisons_of_their_own():
    """arrays; objects that are equal to everything"""
    items, r = odd_reader(2, stopped=sa.flag('stopped'))
    if sa.flag('many'):
        kind, v = attempt(r.read, 2, blocking=True)
        sa.check(kind == 'ok' and v[0] is items[0] and v[1] is items[1],
                 'a blocking read does not return the next items')
        return
    for x in items:
        kind, v = attempt(r.read, blocking=True)
        sa.check(kind == 'ok' and v is x, 'a blocking read does not return the next item')
