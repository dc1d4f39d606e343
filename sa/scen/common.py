"""Shared set-up of the reader scenarios: a buffer with arbitrary contents, an arbitrary cursor."""
import threading
import sa
from stream2py.buffer_reader import BufferReader
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque

INFO = {'info': 1}


def attempt(f, *args, **kw):
    try:
        return ('ok', f(*args, **kw))
    except BaseException as e:
        return ('error', e)


class Odd:
    """data of a user with comparisons of its own: like an array, of which neither a comparison nor
    the thing itself has a truth value, or equal to everything"""

    def __init__(self, n, equal):
        self.n, self.equal = n, equal

    def __bool__(self):
        if self.equal:
            return False
        raise ValueError('the truth value of an array is ambiguous')

    def __eq__(self, other):
        return True if self.equal else Odd(0, False)

    def __ne__(self, other):
        return False if self.equal else Odd(0, False)

    __hash__ = None


def odd_items(n):
    equal = sa.flag('equal to everything')
    return [Odd(i, equal) for i in range(n)]


def odd_key(x):
    return x.n


def odd_reader(n, opts=None, stopped=False):
    """-> the items, a reader of a buffer with them"""
    items = odd_items(n)
    e = threading.Event()
    if stopped:
        e.set()
    return items, BufferReader(RWLockSortedDeque(items, key=odd_key), INFO, e, **(opts or {}))


class World:
    """src: the buffered items as a list (the oracle's copy); pos: how many of them are not after
    the cursor"""

    def __init__(self, fresh=None, opts=None, empty=None, key=sa.KEY, full=False):
        self.src = sa.items('items', order='key', strict=True)
        self.n = len(self.src)
        self.buffer = RWLockSortedDeque(self.src, key=key, maxlen=self.n if full else None)
        if full:
            sa.assume(self.n > 0)
        self.event = threading.Event()
        self.reader = BufferReader(self.buffer, INFO, self.event, **(opts or {}))
        self.seen = None
        if fresh is None:
            fresh = sa.flag('fresh reader')
        if not fresh:
            self.seen = sa.sym('seen', 'item')
            self.reader.last_item = self.seen
        self.fresh = fresh
        self.pos = self.unseen_from(self.src)

    def unseen_from(self, src):
        if self.fresh:
            return 0
        return sa.bisect_right(src, sa.key(self.seen), key=sa.key)

    def turn_over(self):
        """a further item is stored in the full buffer, the oldest leaves it; -> whether it was"""
        new = sa.sym('new', 'item')
        with self.buffer.writer_lock() as b:
            if attempt(b.append, new)[0] != 'ok':
                return False
        self.src = self.src[1:] + [new]
        self.pos = self.unseen_from(self.src)
        return True

    def another(self, opts=None):
        """a second reader with the same cursor"""
        r = BufferReader(self.buffer, INFO, self.event, **(opts or {}))
        if not self.fresh:
            r.last_item = self.seen
        return r

    def contents(self):
        with self.buffer.reader_lock() as b:
            return [x for x in b]

    def cursor_is(self, item, reader=None):
        r = self.reader if reader is None else reader
        if item is None:
            return r.last_item is None and r.last_key is None
        return sa.same(r.last_item, item) and sa.same(r.last_key, sa.key(item))

    def cursor_unchanged(self):
        return self.cursor_is(self.seen)
