"""The options a stream is made with are those in force."""
import sa
from stream2py.simply import mk_stream_buffer
from stream2py.source_reader import SourceReader
from stream2py.stream_source import StreamSource
from scen.common import attempt
from scen.stream import Spy, Clock, StreamBuffer, Probe


class Given:
    """the options (None: left out) and what they demand of the reading loop"""

    def __init__(self, limited=None, auto=None, interval=None):
        g = self
        g.maxlen = sa.integer('maxlen', 1) if limited else None
        g.auto, g.interval = auto, interval
        g.s = Spy()
        g.s.on_read = g.on_read
        g.c = Clock(g.s)
        g.c.on_pause = g.pause
        g.full = False

    def on_read(self):
        if self.auto is False and self.maxlen is not None:
            sa.check(self.s.i < self.maxlen, 'with auto-drop off a full buffer is read into')

    def pause(self, d):
        if not self.c.running:
            return
        if self.interval is not None:
            sa.check(sa.same(d, self.interval) or d == self.interval,
                     'the pause is not the configured one')
        if self.auto is not False or self.maxlen is None:
            sa.check(self.s.fruitless, 'reading pauses though there was data and no fullness')

    def options(self, interval='sleep_time_on_read_none_s'):
        kw = {'maxlen': self.maxlen}
        if self.auto is not None:
            kw['auto_drop'] = self.auto
        if self.interval is not None:
            kw[interval] = self.interval
        return kw

    def look(self, ev):
        """(an arbitrary moment of the run)"""
        if not self.early:
            return
        self.early = False
        i = sa.integer('i', 0)
        sa.assume_le(i, len(self.s.src))
        if self.auto is False and self.maxlen is not None:
            sa.assume_le(i, self.maxlen)
        self.s.i = i
        with self.reader.shared.writer_lock() as b:
            b.__init__(self.s.src[:i], key=b.key, maxlen=b.maxlen)

    def run(self, reader):
        """a whole run; the buffer then holds the newest items that fit"""
        self.reader, self.early = reader, True
        self.c.on_look = self.look
        self.c.run()
        have = reader.contents()
        read = self.s.src[:self.s.i]
        n = len(read)
        if self.maxlen is not None and n > self.maxlen:
            read = read[n - self.maxlen:]
        sa.check(sa.same_items(have, read), 'the buffer does not hold the newest items that fit')


class Forwarding:
    """what every kind of source here does"""
    buffer_reader_class = Probe

    def __init__(self, spy):
        self.spy = spy

    def open(self):
        self.spy.open()

    def read(self):
        return self.spy.read()

    def close(self):
        self.spy.close()

    def key(self, x):
        return sa.key(x)


class Reading(Forwarding, SourceReader):
    pass


class Shared(Forwarding, StreamSource):
    def __init__(self, spy):
        StreamSource.__init__(self)
        self.spy = spy


def some(interval=True, limited=None):
    if limited is None:
        limited = sa.flag('limited')
    auto = None
    if sa.flag('auto-drop given'):
        auto = sa.flag('auto-drop')
    return Given(limited, auto, sa.sym('interval', 'num') if interval == 'given'
                 or interval and sa.flag('interval given') else None)


def prove_stream():
    g = some()
    sb = StreamBuffer(g.s, **g.options())
    sb.start()
    g.run(sb.mk_reader())


def prove_source_reader():
    g = some()
    sb = Reading(g.s).stream_buffer(**g.options())
    sb.start()
    g.run(sb.mk_reader())


def prove_source_reader_again():
    """a second stream of the source reader"""
    g = Given(True, sa.flag('auto-drop'), sa.sym('interval', 'num'))
    s = Reading(g.s)
    s.stream_buffer(3, 7, auto_drop=sa.flag('auto-drop before'))
    sb = s.stream_buffer(**g.options())
    sb.start()
    g.run(sb.mk_reader())


def prove_stream_source():
    g = some()
    s = Shared(g.s)
    sa.check(s.configure_buffer(**g.options()) is s, 'configuring the buffer does not return the source')
    g.run(s.open_reader())


def prove_stream_source_reconfigured():
    """the last configuration before the start"""
    g = some()
    s = Shared(g.s)
    s.configure_buffer(maxlen=3, auto_drop=sa.flag('auto-drop before'), sleep_time_on_read_none_s=7)
    s.configure_buffer(**g.options())
    g.run(s.open_reader())


def prove_other_sources_are_not_configured():
    """the configuration is that of the one source"""
    Shared(Spy()).configure_buffer(maxlen=None, auto_drop=False, sleep_time_on_read_none_s=7)
    g = Given(None, None, None)
    s = Shared(g.s)

    def pause(d):
        if g.c.running:
            sa.check(d != 7, 'the configuration of another source is used')
            sa.check(g.s.fruitless, 'reading pauses though there was data and no fullness')
    g.c.on_pause = pause
    s.open_reader()
    g.c.run()


def helped(interval, limited):
    g = some(interval, limited)

    def read(h):
        return g.s.read()
    with mk_stream_buffer(read, key=sa.KEY, enumerate_data=False,
                          **g.options('sleep_time_on_read_none_seconds')) as sb:
        sb.stop()
        g.c.stops = False
        g.c.run()
        g.c.stops = True
        sa.check(g.s.i == 0, 'a stopped stream is read')
        sb.source_reader.buffer_reader_class = Probe
        sb.start()
        g.run(sb.mk_reader())


def prove_helper():
    helped(False, False)


def prove_helper_interval():
    helped('given', False)


def prove_helper_limited():
    helped(False, True)


def prove_helper_limited_interval():
    helped('given', True)


def prove_second_run():
    """of the same stream"""
    g = some(interval=False)
    s = Shared(g.s)
    s.configure_buffer(**g.options())
    r = s.open_reader()
    g.c.stops = False
    r.close()
    g.s.none_reads = False
    g.c.run()
    sa.check(g.s.i == 0, 'a stopped stream is read')
    g.s.none_reads = g.c.stops = True
    g.run(s.open_reader())


def prove_configured_too_late():
    g = some(interval=False)
    s = Shared(g.s)
    s.configure_buffer(**g.options())
    r = s.open_reader()
    late = sa.flag('after the close')
    if late:
        g.c.stops = False
        r.close()
        g.s.none_reads = False
        g.c.run()
        g.s.none_reads = g.c.stops = True
    kind, v = attempt(s.configure_buffer, maxlen=7, auto_drop=sa.flag('auto-drop then'))
    sa.check(kind == 'error' and isinstance(v, ValueError),
             'configuring the buffer of a started source is not refused with ValueError')
    g.run(s.open_reader() if late else r)
