"""A reader of a buffer that a running stream keeps filling, until it is stopped."""
import threading
import sa
from stream2py.buffer_reader import BufferReader
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
from scen.common import INFO


class Live:
    """src: all items there will ever be; h: how many are buffered by now.  The other threads act
    whenever the reader looks at the stop event."""

    def __init__(self, opts=None, fresh=None, endless=False, full=False):
        self.endless = endless
        self.src = sa.items('items', order='key', strict=True)
        self.n = len(self.src)
        self.h = sa.integer('h', 0)
        sa.assume_le(self.h, self.n)
        self.full = full  # (the buffer holds one item, the newest)
        if full:
            sa.assume(self.h > 0)
        self.buffer = RWLockSortedDeque(self.src[self.lo():self.h], key=sa.KEY,
                                        maxlen=1 if full else None)
        self.stopped = False
        sa.set_env('stop', self.act)
        self.event = threading.Event()
        sa.set_env('stop', None)
        self.reader = BufferReader(self.buffer, INFO, self.event, **(opts or {}))
        self.interval = sa.sym('interval', 'num')
        self.reader.set_sleep_time_on_iter_none(self.interval)
        self.seen = None
        if fresh is None:
            fresh = sa.flag('fresh reader')
        if not fresh:
            self.seen = sa.sym('seen', 'item')
            self.reader.last_item = self.seen
            self.pos = sa.bisect_right(self.src, sa.key(self.seen), key=sa.key)
        else:
            self.pos = 0
        self.lookups = 0
        self.paused = False
        sa.set_env('sleep', self.slept)
        sa.set_env('looked', self.looked)

    def grow(self):
        """the reading loop appends any number of further items (none, perhaps)"""
        h = sa.integer('h')
        sa.assume_le(self.h, h)
        sa.assume_le(h, self.n)
        with self.buffer.writer_lock() as b:
            b.__init__(self.src[h - 1 if self.full else 0:h], key=sa.KEY, maxlen=b.maxlen)
        self.h = h

    def lo(self):
        return self.h - 1 if self.full else 0

    def at(self):
        """position of the next item"""
        return max(self.pos, self.lo())

    def act(self, ev=None):
        """what the reading loop and the owner of the stream may do meanwhile"""
        if self.stopped:
            return
        self.grow()
        if not self.endless and sa.flag('stopped meanwhile'):
            self.stop()

    def stop(self):
        self.stopped = True
        self.event.set()

    def slept(self, d):
        self.on_pause(d)
        self.lookups = 0
        self.paused = True

    def on_pause(self, d):
        pass

    def looked(self):
        """(the reader got access to the buffer)"""
        self.lookups += 1
        sa.check(self.lookups <= 3, 'the buffer is looked at again and again without a pause')

    def drained(self):
        return self.stopped and self.pos >= self.h
