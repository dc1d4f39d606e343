"""The operations of readers and of the reading loop, on a buffer whose accesses are watched."""
import threading
import sa
from stream2py.buffer_reader import BufferReader
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
from scen.common import INFO, attempt
from scen.stream import Spy, Clock, StreamBuffer


def none_held(why):
    sa.check(not sa.mon('held'), why)


def watch(buffer):
    """from now on report every access to the data of the buffer"""
    with buffer.reader_lock() as b:
        sa.guard(b)


class Guarded:
    """a buffer of any contents, a reader with any cursor; the key function of the user may fail"""

    def __init__(self, opts=None, faults=False):
        self.faults = False
        self.src = sa.items('items', order='key', strict=True)
        self.buffer = RWLockSortedDeque(self.src, key=self.key)
        self.event = threading.Event()
        self.reader = BufferReader(self.buffer, INFO, self.event, **(opts or {}))
        self.reader.set_sleep_time_on_iter_none(1)
        if not sa.flag('fresh reader'):
            self.reader.last_item = sa.sym('seen', 'item')
        watch(self.buffer)
        self.faults = faults

    def key(self, x):
        if self.faults and sa.flag('key function fails'):
            raise sa.user_error('key', True, sa.flag('an Exception'))
        return sa.key(x)

    def did(self, f, *args, **kw):
        """an operation and what its user does with the result"""
        kind, v = attempt(f, *args, **kw)
        none_held('access to the buffer is not given back at the end of an operation')
        if kind == 'ok' and (isinstance(v, list) or v.__class__.__name__ == 'generator'):
            for x in v:
                pass
        return v


def options(names):
    out = {}
    for n in names:
        if sa.flag(n):
            out[n] = True
    return out


def op_read(g):
    n = 1 if sa.flag('one') else sa.integer('n', 2)
    g.did(g.reader.read, n, **options(('peek', 'strict_n')), ignore_no_item_found=sa.flag('ignore'))


def op_range(g):
    if sa.flag('rounding'):
        kw = options(('only_new_items', 'start_le', 'stop_ge'))
        step = None
    else:
        kw = options(('peek', 'only_new_items'))
        kw['ignore_no_item_found'] = sa.flag('ignore')
        step = None if sa.flag('no step') else 2
    g.did(g.reader.range, sa.sym('start', 'key'), sa.sym('stop', 'key'), step, **kw)


def op_range_all(g):
    kw = options(('peek', 'only_new_items', 'start_le', 'stop_ge'))
    g.did(g.reader.range, sa.sym('start', 'key'), sa.sym('stop', 'key'),
          None if sa.flag('no step') else sa.integer('step', 1), ignore_no_item_found=sa.flag('ignore'), **kw)


def op_ends(g):
    if sa.flag('head'):
        g.did(g.reader.head, peek=sa.flag('peek'))
    else:
        g.did(g.reader.tail, ignore_no_item_found=sa.flag('ignore'), **options(('peek', 'only_new_items')))


def op_next(g):
    if sa.flag('stopped'):
        g.event.set()
    k = sa.choose(3, 'way')
    if k == 0:
        g.did(next, g.reader)
    elif k == 1:
        g.did(g.reader.next, n=2, ignore_no_item_found=True)
    else:
        g.did(g.reader.read, blocking=True)


def op_other(g):
    """the rest of the interface of a reader"""
    r = g.reader
    other = BufferReader(g.buffer, INFO, g.event)
    k = sa.choose(5, 'what')
    if k == 0:
        g.did(r.is_same_buffer, other)
    elif k == 1:
        g.did(lambda: (r.is_stopped, r.source_reader_info, r.last_key, r.last_item))
    elif k == 2:
        g.did(set_cursor, r)
    elif k == 3:
        g.did(clear_cursor, r)
    else:
        g.did(lambda: (len(g.buffer), g.buffer.key))


def set_cursor(r):
    r.last_item = sa.sym('other', 'item')


def clear_cursor(r):
    del r.last_item


def op_iterate(g):
    """two steps of an iteration, by a consumer that may leave it"""
    g.event.set()
    for i in range(2):
        try:
            for x in g.reader:
                none_held('a value is handed out while access to the buffer is held')
                if sa.flag('the consumer leaves'):
                    break
                if sa.flag('the consumer fails'):
                    raise ValueError
        except Exception:
            none_held('access to the buffer is not given back at the end of an operation')
            return
        none_held('access to the buffer is not given back at the end of an operation')
        return


class Loop:
    """the reading loop of a stream"""

    def __init__(self, faults=(), **kw):
        w = self

        class Source(Spy):
            def on_open(self):
                none_held('the source is opened while access to a buffer is held')

            def on_info(self):
                none_held('the source is asked for its info while access to a buffer is held')

            def on_read(self):
                none_held('the source is read while access to the buffer is held')

            def on_close(self):
                none_held('the source is closed while access to the buffer is held')

            def key(self, x):
                if 'key' in self.faults and sa.flag('key function fails'):
                    raise sa.user_error('key', True, sa.flag('an Exception'))
                return sa.key(x)
        w.s = Source(faults)
        w.c = Clock(w.s)
        w.sb = StreamBuffer(w.s, **kw)
        w.sb.start()
        none_held('access to a buffer is not given back at the end of an operation')
        w.r = w.sb.mk_reader()
        none_held('access to a buffer is not given back at the end of an operation')
        watch(w.r.shared)
        w.c.on_look = w.looked

    def looked(self, ev):
        none_held('access to the buffer is held between two attempts')


def op_loop():
    w = Loop(('read', 'reject', 'key', 'close'), maxlen=None)
    w.c.run()
    none_held('access to the buffer is not given back when the loop ends')


def op_bounded_loop(maxlen=2):
    """with a maximal length and manual drops at any time"""
    w = Loop(('read',), maxlen=maxlen, auto_drop=sa.flag('auto drop'))

    def look(ev):
        none_held('access to the buffer is held between two attempts')
        if not w.sb.auto_drop and sa.flag('drop'):
            kind, v = attempt(w.sb.drop, 1)
            none_held('access to the buffer is not given back at the end of an operation')
    w.c.on_look = look
    w.c.run()
    none_held('access to the buffer is not given back when the loop ends')


def op_restart():
    """the owner's operations"""
    w = Loop(maxlen=None)
    sa.set_env('join', lambda t, timeout: w.c.run())
    w.s.faults = ('open', 'info', 'close')
    if sa.flag('stop'):
        w.sb.stop()
        none_held('access to a buffer is not given back at the end of an operation')
    else:
        w.c.stops = False
        sa.set_env('sleep', w.c.slept)
        attempt(w.sb.start)
        none_held('access to a buffer is not given back at the end of an operation')
        attempt(w.sb.mk_reader)
        none_held('access to a buffer is not given back at the end of an operation')


def direct(g, exclusive):
    """a with-block of the owner of a buffer, left in any way"""
    e = sa.user_error('block', True, sa.flag('an Exception'))
    raised = sa.flag('an error in the block')
    try:
        with (g.buffer.writer_lock() if exclusive else g.buffer.reader_lock()) as b:
            x = len(b)
            if raised:
                raise e
    except sa.UserError as x:
        sa.check(x is e, 'the error of a block is replaced')
    none_held('access to the buffer is not given back at the end of an operation')
