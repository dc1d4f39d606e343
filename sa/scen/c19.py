"""Polling loops pause for the configured time after every fruitless attempt."""
import sa
from stream2py.source_reader import SourceReader, QuickSourceReader
from stream2py.stream_source import StreamSource
from scen.stream import Spy, Clock, StreamBuffer
from scen.live import Live

MONITORS = ('looked',)


class World:
    """the reading loop: turns counts its looks at the stop flag since it last read or paused"""

    def __init__(self, interval, own=None, by_source=None, faults=(), **kw):
        w = self
        w.interval = interval
        w.turns = 0
        w.got = False  # the last attempt gave an item

        class Source(Spy):
            sleep_time_on_read_none_s = by_source

            def on_read(self):
                sa.check(not self.fruitless, 'the source is read again without a pause')
                w.turns = 0
                w.got = True
        w.s = Source(faults)
        w.c = Clock(w.s)
        kw.setdefault('maxlen', None)
        if own is not None:
            kw['sleep_time_on_read_none_s'] = own
        w.sb = StreamBuffer(w.s, **kw)
        w.c.on_look = w.look
        w.c.on_pause = w.pause

    def look(self, ev):
        if self.c.requested or self.s.failed:
            return
        self.turns += 1
        sa.check(self.turns <= 3, 'the loop goes on and on without reading or pausing')

    def pause(self, d):
        if not self.c.running:
            return
        self.turns = 0
        sa.check(sa.same(d, self.interval) or d == self.interval,
                 'the pause is not the configured one')
        sa.check(self.s.fruitless or self.full(), 'the loop pauses after an item')

    def full(self):
        return False

    def run(self):
        self.sb.start()
        return self.c.run()


def prove_after_no_data():
    d = sa.sym('interval', 'num')
    World(d, own=d, faults=('read',)).run()


def prove_own_setting_wins():
    d = sa.sym('interval', 'num')
    World(d, own=d, by_source=sa.sym('other', 'num')).run()


def prove_zero_is_a_setting():
    w = World(0, own=0, by_source=sa.sym('other', 'num'))
    w.run()


def prove_zero_of_the_source():
    w = World(0, by_source=0)
    w.run()


def prove_setting_of_the_source():
    d = sa.sym('interval', 'num')
    World(d, by_source=d).run()


def prove_default():
    """neither has a setting: a fixed number"""
    seen = []

    class Other(World):
        def pause(self, d):
            if self.c.running:
                self.turns = 0
                if not seen:
                    seen.append(d)
                sa.check(d == seen[0] and d > 0, 'the default pause is not a fixed positive number')
    w = Other(None)
    w.sb.start()
    w.c.run()
    w = Other(None, maxlen=3)
    w.sb.start()
    w.c.run()


def prove_settings_that_are_no_numbers():
    d = sa.sym('interval', 'num')
    if sa.flag('own'):
        World(d, own='fast', by_source=d).run()
    else:
        seen = []

        class Other(World):
            def pause(self, d):
                if self.c.running:
                    self.turns = 0
                    sa.check(isinstance(d, (int, float)), 'the pause is not a number')
        Other(None, by_source='fast').run()


def prove_when_full():
    """auto-drop off: a full buffer means pauses, no reads"""
    d = sa.sym('interval', 'num')
    m = sa.integer('maxlen', 1)

    class Full(World):
        def full(self):
            return self.s.i >= m
    Full(d, own=d, maxlen=m, auto_drop=False).run()


def prove_no_pause_between_items():
    d = sa.sym('interval', 'num')

    class Busy(World):
        def pause(self, d):
            if self.c.running:
                sa.fail('the loop pauses after an item')
    w = Busy(d, own=d)
    w.s.none_reads = False
    w.run()


class Polled(Live):
    """found: did the last lookup of the buffer find an item?"""

    def __init__(self, *a, **k):
        self.found = False
        Live.__init__(self, *a, **k)

    def looked(self):
        Live.looked(self)
        self.found = self.pos < self.h

    def on_pause(self, d):
        sa.check(sa.same(d, self.interval), 'the pause is not the configured one')
        sa.check(self.lookups > 0 and not self.found, 'the reader pauses although it found an item')


def prove_reader_iteration():
    w = Polled()
    for x in w.reader:
        sa.check(w.found, 'an item comes out of nowhere')
        w.lookups = 0
        w.pos += 1
        w.act()
        break


def prove_reader_iteration_goes_on():
    w = Polled()
    it = iter(w.reader)
    for j in range(2):
        try:
            next(it)
        except StopIteration:
            sa.check(w.stopped, 'the iteration ends')
            return
        sa.check(w.found, 'an item comes out of nowhere')
        w.lookups = 0
        w.pos += 1


class Counted:
    """reads of a source that is iterated directly"""

    def prepare(self, interval):
        self.interval = interval
        self.fruitless = False
        self.reads = 0
        sa.set_env('sleep', self.slept)

    def read(self):
        sa.check(not self.fruitless, 'the source is read again without a pause')
        if sa.flag('no data'):
            self.fruitless = True
            return None
        self.fruitless = False
        return sa.sym('data', 'item')

    def slept(self, d):
        sa.check(sa.same(d, self.interval), 'the pause is not the configured one')
        sa.check(self.fruitless, 'the iteration pauses after valid data')
        self.fruitless = False

    def open(self):
        pass

    def close(self):
        pass

    def key(self, x):
        return x


class A(Counted, SourceReader):
    pass


class B(Counted, QuickSourceReader):
    pass


class C(Counted, StreamSource):
    pass


def a_source():
    c = sa.choose(3, 'kind of source')
    return (A, B, C)[c]()


def prove_source_iteration():
    s = a_source()
    d = sa.sym('interval', 'num')
    s.set_sleep_time_on_iter_none(d)
    s.prepare(d)
    n = 0
    for x in s:
        sa.check(x is not None and not s.fruitless, 'an item comes out of nowhere')
        n += 1
        if n == 2:
            break


def prove_source_iteration_default():
    """a source nobody configured pauses for a fixed positive time"""
    s = a_source()
    s.fruitless = False

    def slept(d):
        sa.check(isinstance(d, (int, float)) and d > 0,
                 'the default pause is not a positive number')
        sa.check(s.fruitless, 'the iteration pauses after valid data')
        s.fruitless = False
    sa.set_env('sleep', slept)
    for x in s:
        sa.check(x is not None, 'an item comes out of nowhere')
        break


def prove_invalid_data():
    """the quick reader's own validity test"""
    class Picky(QuickSourceReader):
        fruitless = False

        def is_valid_data(self, data):
            return sa.apply('valid', data, 'bool')

        def read(self):
            sa.check(not self.fruitless, 'the source is read again without a pause')
            self.fruitless = True
            return sa.sym('data', 'item')
    s = Picky()
    d = sa.sym('interval', 'num')
    s.set_sleep_time_on_iter_none(d)

    def slept(x):
        sa.check(sa.same(x, d), 'the pause is not the configured one')
        s.fruitless = False
    sa.set_env('sleep', slept)
    for x in s:
        sa.check(sa.apply('valid', x, 'bool'), 'the iteration gives invalid data')
        return
