"""A read operation sees one state of the buffer, whatever the reading loop does meanwhile."""
import threading
import sa
from stream2py.buffer_reader import BufferReader
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
from scen.common import INFO, attempt

MONITORS = ('looked',)


class Moving:
    """src: all items there will ever be; between any two accesses of the reader to the buffer
    further ones may be appended and the oldest ones evicted.  The buffer then holds
    src[lo:hi] of the last of seen."""

    def __init__(self, opts=None):
        self.src = sa.items('items', order='key', strict=True)
        self.seen = []
        self.lo, self.hi = sa.integer('lo', 0), sa.integer('hi')
        sa.assume_le(self.lo, self.hi)
        sa.assume_le(self.hi, len(self.src))
        self.buffer = RWLockSortedDeque(self.src[self.lo:self.hi], key=sa.KEY)
        self.reader = BufferReader(self.buffer, INFO, threading.Event(), **(opts or {}))
        self.pos = 0
        self.fresh = sa.flag('fresh reader')
        if not self.fresh:
            seen = sa.sym('seen', 'item')
            self.reader.last_item = seen
            self.pos = sa.bisect_right(self.src, sa.key(seen), key=sa.key)
        sa.set_env('looked', self.looked)

    def looked(self):
        if self.seen:
            lo, hi = sa.integer('lo'), sa.integer('hi')
            sa.assume_le(self.lo, lo)
            sa.assume_le(self.hi, hi)
            sa.assume_le(lo, hi)
            sa.assume_le(hi, len(self.src))
            self.lo, self.hi = lo, hi
            with self.buffer.writer_lock() as b:
                b.__init__(self.src[lo:hi], key=sa.KEY)
        self.seen.append((self.lo, self.hi))

    def result(self, kind, v, wanted, many=False):
        """(kind, v) is what wanted(lo, hi) gives for one of the states: the list of the items, or
        None if there is none"""
        sa.set_env('looked', None)
        sa.check(len(self.seen) > 0, 'a read operation does not look at the buffer')
        ok = False
        for lo, hi in self.seen:
            if not ok:
                ok = agrees(kind, v, wanted(lo, hi), many)
        sa.check(ok, 'the result of a read operation belongs to no single state of the buffer')


def agrees(kind, v, want, many):
    if kind == 'error':
        return want is None and isinstance(v, (ValueError, IndexError))
    if v is None:
        return want is None
    if want is None:
        return False
    if many:
        return isinstance(v, list) and sa.same_items(v, want)
    return len(want) == 1 and sa.same(v, want[0])


def ignoring():
    return {'ignore_no_item_found': sa.flag('ignore')}


def prove_read_one():
    w = Moving()
    kind, v = attempt(w.reader.read, peek=sa.flag('peek'), **ignoring())

    def want(lo, hi):
        i = max(lo, w.pos)
        return [w.src[i]] if i < hi else None
    w.result(kind, v, want)


def prove_read_many():
    w = Moving()
    n = sa.integer('n', 2)
    strict = sa.flag('strict')
    kind, v = attempt(w.reader.read, n, strict_n=strict, peek=sa.flag('peek'), **ignoring())

    def want(lo, hi):
        i = max(lo, w.pos)
        if i >= hi or strict and hi - i < n:
            return None
        return w.src[i:min(i + n, hi)]
    w.result(kind, v, want, True)


def prove_next():
    w = Moving()
    kind, v = attempt(next, w.reader)

    def want(lo, hi):
        i = max(lo, w.pos)
        return [w.src[i]] if i < hi else None
    w.result(kind, v, want)


def prove_head():
    w = Moving()
    kind, v = attempt(w.reader.head, peek=sa.flag('peek'))

    def want(lo, hi):
        return [w.src[lo]] if lo < hi else None
    w.result(kind, v, want)


def prove_tail():
    w = Moving()
    new = sa.flag('only new')
    kind, v = attempt(w.reader.tail, peek=sa.flag('peek'), only_new_items=new, **ignoring())

    def want(lo, hi):
        if lo >= hi or new and w.pos >= hi:
            return None
        return [w.src[hi - 1]]
    w.result(kind, v, want)


def ranged(new, le, ge):
    w = Moving()
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    kw = {}
    if new:
        kw['only_new_items'] = True
    if le:
        kw['start_le'] = True
    if ge:
        kw['stop_ge'] = True
    peek = sa.flag('peek')
    kind, v = attempt(w.reader.range, a, b, peek=peek, **kw)

    def want(lo, hi):
        i = max(lo, sa.bisect_left(w.src, a, key=sa.key))
        j = min(hi, sa.bisect_right(w.src, b, key=sa.key))
        if new and not w.fresh:
            if max(w.pos, lo) >= hi:
                return None
            i = max(i, w.pos)
        if le:
            k = sa.bisect_right(w.src, a, key=sa.key)
            if min(k, hi) > lo:
                i = min(k, hi) - 1
        if ge:
            k = max(lo, sa.bisect_left(w.src, b, key=sa.key))
            if k >= hi:
                return None
            j = k + 1
        if i < j:
            return w.src[i:j]
        return [] if peek else None
    w.result(kind, v, want, True)


def prove_range():
    ranged(False, False, False)


def prove_range_stop_ge():
    ranged(False, False, True)


def prove_range_new():
    ranged(True, False, False)


def prove_range_start_le():
    ranged(False, True, False)
