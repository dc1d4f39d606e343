"""Range reads."""
import sa
from scen.common import World, attempt, odd_reader


def oracle(w, a, b, new, start_le, stop_ge):
    """-> (missing, first position, end position)"""
    src = w.src
    lo = sa.bisect_left(src, a, key=sa.key)
    if start_le:
        below = sa.bisect_right(src, a, key=sa.key) - 1
        if below >= 0:
            lo = below
    missing = False
    hi = sa.bisect_right(src, b, key=sa.key)
    if stop_ge:
        above = sa.bisect_left(src, b, key=sa.key)
        if above < w.n:
            hi = above + 1
        else:
            missing = True
    if new:
        if not w.fresh and w.pos >= w.n:
            missing = True
        lo = max(lo, w.pos)
    return missing, lo, hi


def judge(w, kind, v, missing, ignore, peek, new, lo, hi, step=None):
    if missing:
        if ignore:
            sa.check(kind == 'ok' and v is None, 'a missing bound is not reported as None')
        else:
            sa.check(kind == 'error', 'a missing bound is not reported by an error')
        return
    if lo < hi:
        sa.check(kind == 'ok', 'a range fails although there are items within the bounds')
        sa.check(isinstance(v, list), 'a range does not return a list')
        want = w.src[lo:hi] if step is None else w.src[lo:hi:step]
        sa.check(sa.same_items(v, want), 'a range returns other items than the requested ones')
    elif kind == 'ok' and v is not None:
        sa.check(len(v) == 0, 'a range returns items outside the bounds')
        if peek and not new:
            sa.reach('empty peeked range')
    elif peek and not new:
        sa.fail('a peeked range without items within the bounds is not an empty list')


def prove_range():
    w = World()
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    peek, ignore = sa.flag('peek'), sa.flag('ignore')
    kind, v = attempt(w.reader.range, a, b, peek=peek, ignore_no_item_found=ignore)
    missing, lo, hi = oracle(w, a, b, False, False, False)
    judge(w, kind, v, missing, ignore, peek, False, lo, hi)


def prove_step():
    w = World(fresh=True)
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    step = sa.choose(3, 'step') + 1
    kind, v = attempt(w.reader.range, a, b, step, peek=True)
    missing, lo, hi = oracle(w, a, b, False, False, False)
    judge(w, kind, v, missing, False, True, False, lo, hi, step)


def prove_only_new():
    w = World()
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    peek, ignore = sa.flag('peek'), sa.flag('ignore')
    kind, v = attempt(w.reader.range, a, b, peek=peek, ignore_no_item_found=ignore,
                      only_new_items=True)
    missing, lo, hi = oracle(w, a, b, True, False, False)
    judge(w, kind, v, missing, ignore, peek, True, lo, hi)


def prove_only_new_step():
    w = World(fresh=False)
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    kind, v = attempt(w.reader.range, a, b, 2, only_new_items=True)
    missing, lo, hi = oracle(w, a, b, True, False, False)
    judge(w, kind, v, missing, False, False, True, lo, hi, 2)


def prove_start_le():
    w = World(fresh=True)
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    peek, ignore = sa.flag('peek'), sa.flag('ignore')
    kind, v = attempt(w.reader.range, a, b, peek=peek, ignore_no_item_found=ignore, start_le=True)
    missing, lo, hi = oracle(w, a, b, False, True, False)
    judge(w, kind, v, missing, ignore, peek, False, lo, hi)


def prove_stop_ge():
    w = World(fresh=True)
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    peek, ignore = sa.flag('peek'), sa.flag('ignore')
    kind, v = attempt(w.reader.range, a, b, peek=peek, ignore_no_item_found=ignore, stop_ge=True)
    missing, lo, hi = oracle(w, a, b, False, False, True)
    judge(w, kind, v, missing, ignore, peek, False, lo, hi)


def prove_both_rounded():
    w = World(fresh=True)
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    kind, v = attempt(w.reader.range, a, b, peek=True, start_le=True, stop_ge=True)
    missing, lo, hi = oracle(w, a, b, False, True, True)
    judge(w, kind, v, missing, False, True, False, lo, hi)


def prove_new_rounded():
    w = World()
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    le, ge = sa.flag('start_le'), sa.flag('stop_ge')
    kind, v = attempt(w.reader.range, a, b, peek=True, only_new_items=True, start_le=le,
                      stop_ge=ge)
    missing, lo, hi = oracle(w, a, b, True, le, ge)
    judge(w, kind, v, missing, False, True, True, lo, hi)


def prove_full_buffer():
    """a full buffer (its length stays the same) before and after a further item"""
    new = sa.flag('only new')
    w = World(fresh=not new, full=True)
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    attempt(w.reader.range, a, b, peek=True, ignore_no_item_found=True, only_new_items=new)
    if w.turn_over():
        kind, v = attempt(w.reader.range, a, b, peek=True, ignore_no_item_found=True,
                          only_new_items=new)
        missing, lo, hi = oracle(w, a, b, new, False, False)
        judge(w, kind, v, missing, True, True, new, lo, hi)


def prove_items_with_comparisons_of_their_own():
    """arrays; objects that are equal to everything"""
    items, r = odd_reader(3)
    new = sa.flag('only new')
    start = 0
    if new and sa.flag('after a read'):
        r.read()
        start = 1
    kind, v = attempt(r.range, 0, 1.5, only_new_items=new, start_le=sa.flag('start le'),
                      stop_ge=sa.flag('stop ge'), ignore_no_item_found=sa.flag('ignore'))
    sa.check(kind == 'ok' and isinstance(v, list) and len(v) >= 2 - start, 'a range of arrays is not a list of them')
    for i in range(len(v)):
        sa.check(v[i] is items[start + i], 'a range does not return the items within the bounds')
