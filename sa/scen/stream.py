"""A stream buffer over an arbitrary source: what the source, the user and the clock may do."""
import sa
from stream2py.buffer_reader import BufferReader
from stream2py.stream_buffer import StreamBuffer


class Probe(BufferReader):
    """(the reader class the source asks for: gives the scenario the buffer of the run)"""

    def __init__(self, buffer, source_reader_info, stop_event, **kw):
        self.shared = buffer
        self.given_stop_event = stop_event
        BufferReader.__init__(self, buffer, source_reader_info, stop_event, **kw)

    def contents(self):
        with self.shared.reader_lock() as b:
            return [x for x in b]


class Spy:
    """the source.  Its items are src, in order; faults are what may go wrong
    (with 'exit': by something that is no Exception)."""
    buffer_reader_class = Probe
    sleep_time_on_read_none_s = None

    def __init__(self, faults=()):
        self.src = sa.items('items', order='key', strict=True)
        self.i = 0
        self.faults = faults
        self.state = 'closed'
        self.opens = 0
        self.closes = 0
        self.failed = None
        self.none_reads = True
        self.fruitless = False  # the last attempt gave nothing, no pause since

    def fault(self, what):
        if what in self.faults and sa.flag('%s fails' % what):
            self.failed = what
            raise sa.user_error(what, False, 'exit' not in self.faults)

    def open(self):
        self.on_open()
        self.fault('open')
        self.state = 'open'
        self.opens += 1

    @property
    def info(self):
        self.on_info()
        self.fault('info')
        return {'opens': self.opens}

    def key(self, x):
        return sa.key(x)

    def read(self):
        self.on_read()
        if self.none_reads and sa.flag('no data'):
            self.fruitless = True
            return None
        self.fault('read')
        if 'reject' in self.faults and self.i > 0 and sa.flag('rejected item'):
            self.failed = 'reject'
            return self.src[0]
        sa.assume(self.i < len(self.src))
        self.i += 1
        return self.src[self.i - 1]

    def close(self):
        self.on_close()
        self.state = 'closed'
        self.closes += 1
        self.fault('close')

    def on_open(self):
        pass

    def on_info(self):
        pass

    def on_read(self):
        pass

    def on_close(self):
        pass


class Clock:
    """the other threads: stop requests seen by the reading loop, pauses, the life of the threads"""

    def __init__(self, source=None, stops=True):
        self.source = source
        self.threads = []
        self.running = False
        self.stops = stops
        self.requested = False
        self.fail_thread = False
        sa.set_env('stop', self.look)
        sa.set_env('sleep', self.slept)
        sa.set_env('thread_start', self.thread)

    def look(self, ev):
        if self.running:
            self.on_look(ev)
            if self.stops and sa.flag('stop requested'):
                self.requested = True
                ev.set()

    def thread(self, t):
        if self.fail_thread and sa.flag('no thread'):
            raise RuntimeError("can't start new thread")
        self.threads.append(t)

    def run(self, n=-1):
        t = self.threads[n]
        self.running = True
        t._sa_run()
        self.running = False
        return t

    def slept(self, d):
        self.on_pause(d)
        if self.running and self.source is not None:
            self.source.fruitless = False

    def on_look(self, ev):
        pass

    def on_pause(self, d):
        pass


def elsewhere(f, *args, **kw):
    """f called by another thread right now -> ('ok', v), ('error', e) or ('blocked', None)"""
    was, blocking = sa.mon('thread'), sa.mon('blocked_raises')
    sa.mon('thread', 'other')
    sa.mon('blocked_raises', True)
    try:
        r = ('ok', f(*args, **kw))
    except sa.Blocked:
        r = ('blocked', None)
    except Exception as e:
        r = ('error', e)
    sa.mon('thread', was)
    sa.mon('blocked_raises', blocking)
    return r
