"""Missing items: None or an error."""
import sa
from scen.common import World, attempt


def ask(default, explicit):
    """-> (reader options, call options, whether missing items are to be ignored)"""
    opts, kw = {}, {}
    ignore = False
    if default:
        opts['ignore_no_item_found'] = ignore = sa.flag('ignored by default')
    if explicit:
        kw['ignore_no_item_found'] = ignore = sa.flag('ignored')
    return opts, kw, ignore


def judge(w, missing, ignore, kind, v):
    if missing:
        if ignore:
            sa.check(kind == 'ok', 'a missing item raises although it was to be ignored')
            sa.check(v is None, 'a missing item is not reported as None')
        else:
            sa.check(kind == 'error', 'a missing item does not raise although not ignored')
            if kind == 'error':
                sa.check(isinstance(v, (ValueError, IndexError)),
                         'a missing item raises something other than a ValueError or IndexError')
    else:
        sa.check(kind == 'ok', 'an operation fails although there is an item')
        sa.check(v is not None, 'an operation returns None although there is an item')


def prove_read():
    opts, kw, ignore = ask(sa.flag('default'), sa.flag('explicit'))
    w = World(opts=opts)
    n = sa.integer('n', 2) if sa.flag('many') else 1
    kind, v = attempt(w.reader.read, n, peek=sa.flag('peek'), **kw)
    judge(w, w.pos >= w.n, ignore, kind, v)


def prove_next_method():
    opts, kw, ignore = ask(False, sa.flag('explicit'))
    w = World(opts=opts)
    kind, v = attempt(w.reader.next, **kw)
    judge(w, w.pos >= w.n, ignore, kind, v)


def prove_tail():
    opts, kw, ignore = ask(False, sa.flag('explicit'))
    w = World(opts=opts)
    new = sa.flag('only new')
    kind, v = attempt(w.reader.tail, peek=sa.flag('peek'), only_new_items=new, **kw)
    missing = w.n == 0 or (new and w.pos >= w.n)
    if missing and not ignore:
        sa.check(kind == 'error', 'tail without an item does not raise')
        if kind == 'error':
            sa.check(isinstance(v, (ValueError, IndexError)),
                     'tail without an item raises something other than a ValueError or IndexError')
    else:
        judge(w, missing, ignore, kind, v)


def prove_range():
    opts, kw, ignore = ask(sa.flag('default'), sa.flag('explicit'))
    w = World(opts=opts)
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    kind, v = attempt(w.reader.range, a, b, **kw)
    lo, hi = sa.bisect_left(w.src, a, key=sa.key), sa.bisect_right(w.src, b, key=sa.key)
    judge(w, lo >= hi, ignore, kind, v)


def prove_range_new():
    opts, kw, ignore = ask(sa.flag('default'), sa.flag('explicit'))
    w = World(opts=opts)
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    kind, v = attempt(w.reader.range, a, b, only_new_items=True, **kw)
    lo, hi = sa.bisect_left(w.src, a, key=sa.key), sa.bisect_right(w.src, b, key=sa.key)
    judge(w, max(lo, w.pos) >= hi, ignore, kind, v)


def prove_range_stop_ge():
    opts, kw, ignore = ask(sa.flag('default'), sa.flag('explicit'))
    w = World(opts=opts)
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    kind, v = attempt(w.reader.range, a, b, stop_ge=True, **kw)
    lo, hi = sa.bisect_left(w.src, a, key=sa.key), sa.bisect_left(w.src, b, key=sa.key)
    judge(w, hi >= w.n or lo >= hi + 1, ignore, kind, v)


def prove_peeking_range():
    opts, kw, ignore = ask(sa.flag('default'), sa.flag('explicit'))
    w = World(opts=opts)
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    c = sa.choose(3, 'kind of range')
    if c == 1:
        kw['only_new_items'] = True
        missing = w.pos >= w.n and not w.fresh or w.n == 0 and not w.fresh
    elif c == 2:
        kw['stop_ge'] = True
        missing = sa.bisect_left(w.src, b, key=sa.key) >= w.n
    else:
        missing = False
    kind, v = attempt(w.reader.range, a, b, peek=True, **kw)
    judge(w, missing, ignore, kind, v)
    if kind == 'ok' and v is not None:
        sa.check(isinstance(v, list), 'a peeking range is not a list')


def prove_option_makes_no_difference():
    w = World()
    other = w.another()
    c = sa.choose(3, 'operation')
    if c == 0:
        sa.assume(w.pos < w.n)
        a = w.reader.read(ignore_no_item_found=True)
        b = other.read(ignore_no_item_found=False)
    elif c == 1:
        sa.assume(w.n > 0)
        a = w.reader.tail(ignore_no_item_found=True)
        b = other.tail(ignore_no_item_found=False)
    else:
        sa.assume(w.n > 0)
        k = sa.key(w.src[0])
        a = w.reader.range(k, k, ignore_no_item_found=True)[0]
        b = other.range(k, k, ignore_no_item_found=False)[0]
    sa.check(sa.same(a, b), 'ignoring missing items changes the result')
