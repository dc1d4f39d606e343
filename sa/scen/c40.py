"""What a source tells about itself."""
import sa
from stream2py.source_reader import SourceReader, QuickSourceReader
from stream2py.stream_source import StreamSource
from stream2py.sources.http import HTTPResponseReader
from stream2py.simply import mk_stream_buffer
from scen.stream import Clock, StreamBuffer


class Time:
    """the clock on the wall: any time"""

    def __init__(self, unit=None):
        self.unit = unit
        self.tick()
        sa.set_env('time', self.now)

    def tick(self):
        """time goes on"""
        self.last = sa.sym('now', 'num')

    def now(self):
        return self.last

    def stamp(self):
        return int(self.last * self.unit)


UNITS = (1, 1000)


class Quick(QuickSourceReader):
    def read(self):
        return None


def unit_of(cls):
    u = UNITS[sa.choose(2, 'unit')]

    class Timed(cls):
        timestamp_seconds_to_unit_conversion = u
    return Timed, u


def described(s, t, what):
    sa.check(s.info['open_time'] == t.stamp(), what)
    sa.check(s.info['open_instance'] == str(s), 'the info does not name the source that was opened')


def prove_quick():
    """opened any number of times"""
    cls, u = unit_of(Quick)
    t = Time(u)
    s = cls()
    sa.check(s.info['open_time'] is None, 'a source never opened tells when it was opened')
    t.tick()
    s.open()
    described(s, t, 'the time of opening is not that of the open')
    while sa.flag('again'):
        s.read_idx = sa.integer('read so far', 0)
        if sa.flag('closed before'):
            s.close()
            sa.check(s.closed, 'a closed source does not say so')
        t.tick()
        s.open()
        sa.check(s.read_idx == 0, 'opening does not reset the count of the data read')
        described(s, t, 'the time of opening is not that of the last open')
        sa.check(not s.closed, 'an opened source says that it is closed')


def prove_quick_in_a_stream():
    """what readers are told"""
    cls, u = unit_of(Quick)
    t = Time(u)
    c = Clock()
    s = cls()
    sb = StreamBuffer(s, maxlen=None)
    sb.start()
    first = t.stamp()
    t.tick()
    r = sb.mk_reader()
    sa.check(r.source_reader_info['open_time'] == first, 'a reader is not told the time of opening')
    c.run()
    t.tick()
    sb.start()
    sa.check(sb.mk_reader().source_reader_info['open_time'] == t.stamp(),
             'a reader is not told the time of the last open')
    sa.check(r.source_reader_info['open_time'] == first,
             'a later run changes what a reader of an earlier one is told')


def prove_quick_key():
    x = sa.sym('data', 'any')
    sa.check(Quick().key(x) is x, 'the key of a quick source is not the data')


def prove_helper():
    """without an info function"""
    t = Time(1000000)
    c = Clock()
    handle = sa.sym('handle', 'object')
    opens = sa.flag('open function')
    kw = {}
    if opens:
        kw['open_stream'] = lambda: handle
    with mk_stream_buffer(lambda h: None, **kw) as sb:
        info = sb.source_reader_info
        sa.check(info['open_time'] == int(t.last * 1e6), 'the helper does not tell the time of opening')
        sa.check(info['open_instance'] == str(handle if opens else None),
                 'the helper does not tell what open returned')


class Bare(SourceReader):
    def open(self):
        pass

    def read(self):
        return None

    def close(self):
        pass

    def key(self, x):
        return x


class Shared(StreamSource):
    info = {}

    def open(self):
        pass

    def read(self):
        return None

    def close(self):
        pass

    def key(self, x):
        return x


def prove_timestamps():
    base = Shared if sa.flag('stream source') else Bare
    if sa.flag('unit given'):
        cls, u = unit_of(base)
    else:
        cls, u = base, 1000000
    t = Time(u)
    v = cls().get_timestamp() if sa.flag('of an object') else cls.get_timestamp()
    sa.check(v == t.stamp(), 'a time stamp is not the time in the unit asked for')


def prove_default_info():
    sa.check(Bare().info == {}, 'a source that tells nothing has an info')


def prove_http():
    url = sa.sym('url', 'str')
    kw = {}
    want = {'method': 'GET', 'headers': {}, 'body': '', 'response_format': 'bytes', 'encoding': ''}
    if sa.flag('method'):
        kw['method'] = want['method'] = 'POST'
    if sa.flag('headers'):
        kw['headers'] = want['headers'] = {'name': sa.sym('value', 'str')}
    if sa.flag('format'):
        kw['response_format'] = want['response_format'] = sa.sym('format', 'str')
    if sa.flag('encoding'):
        kw['encoding'] = want['encoding'] = 'ascii'
    s = HTTPResponseReader(url, **kw)
    sa.check(s.info['url'] == url, 'the info of the HTTP source does not give the URL')
    sa.check(s.info['n_bytes_read'] == 0, 'the HTTP source has read something before it was opened')
    for k in want:
        sa.check(s.info['init_kwargs'][k] == want[k],
                 'the info of the HTTP source does not give what it was made with')
