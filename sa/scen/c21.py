"""Readers are created only from, and bound to, the current session."""
import sa
from stream2py.buffer_reader import BufferReader
from stream2py.stream_source import StreamSource
from stream2py.exceptions import StreamNotStartedError, Stream2PyError
from scen.common import attempt
from scen.stream import Spy, Clock, StreamBuffer, Probe, elsewhere


def made(faults=(), **kw):
    s = Spy(faults)
    c = Clock(s)
    kw.setdefault('maxlen', None)
    return s, c, StreamBuffer(s, **kw)


def refused(kind, v):
    sa.check(kind == 'error' and isinstance(v, StreamNotStartedError),
             'making a reader before the start does not raise StreamNotStartedError')
    sa.check(isinstance(v, Stream2PyError), 'StreamNotStartedError is not a Stream2PyError')


def prove_before_start():
    s, c, sb = made()
    refused(*attempt(sb.mk_reader))
    refused(*attempt(sb.mk_reader, read_size=2))
    s2, c2, other = made()
    other.start()
    r = other.mk_reader()
    refused(*attempt(sb.attach_reader, r))
    sa.check(s.opens == 0, 'making a reader starts the stream')
    sa.check(sb.source_reader_info is None, 'a stream never started has an info')


def prove_next_before_start():
    s, c, sb = made()
    refused(*attempt(next, sb))
    refused(*attempt(sb))
    refused(*attempt(next, iter(sb)))


def prove_after_a_refusal():
    """a refused call leaves nothing behind"""
    s, c, sb = made()
    attempt(sb.mk_reader)
    attempt(next, sb)
    sb.start()
    r = sb.mk_reader()
    sa.check(isinstance(r, Probe), 'after a refused call no reader can be made')
    sa.check(next(sb) is None, 'after a refused call next does not work')


def bound(sb, s, r, when):
    sa.check(sa.same_items(r.contents(), s.src[:s.i]), 'the reader is not bound to the current buffer')
    sa.check(r.is_stopped == (not sb.is_running), 'the reader is not bound to the current stop flag')
    sa.check(r.source_reader_info == {'opens': s.opens}, 'the reader does not have the info of the source')
    sa.check(sb.source_reader_info == {'opens': s.opens},
             'the info of a started stream is not the info of the source')


def prove_bound():
    """at any time of the first run"""
    s, c, sb = made(('read',))
    sb.start()
    r = sb.mk_reader()
    bound(sb, s, r, 'at the start')

    def look(ev):
        c.running = False
        if sa.flag('a reader is made'):
            bound(sb, s, sb.mk_reader(), 'meanwhile')
            bound(sb, s, r, 'meanwhile')
        c.running = True
    c.on_look = look
    c.run()
    bound(sb, s, r, 'at the end')
    bound(sb, s, sb.mk_reader(), 'at the end')


def prove_info_is_the_sources():
    """what the source gave (or a copy)"""
    given = {'name': sa.sym('name', 'object')}

    class Source(Spy):
        @property
        def info(self):
            return given
    s = Source()
    c = Clock(s)
    sb = StreamBuffer(s, maxlen=None)
    sb.start()
    sa.check(sb.source_reader_info == given, 'the info of a started stream is not the info of the source')
    r = sb.mk_reader()
    sa.check(r.source_reader_info == given, 'the reader does not have the info of the source')
    r2 = sb.mk_reader()
    sb.attach_reader(r2)
    sa.check(r2.source_reader_info == given, 'an attached reader does not have the info of the source')
    c.run()
    sa.check(sb.source_reader_info == given, 'the info of a started stream is not the info of the source')


def prove_bound_to_the_second_run():
    s, c, sb = made()
    sb.start()
    old = sb.mk_reader()
    c.run()
    s.src, s.i = sa.items('more', order='key', strict=True), 0
    sb.start()
    r = sb.mk_reader()
    bound(sb, s, r, 'at the start')
    c.run()
    bound(sb, s, r, 'at the end')


def stopped(r):
    sa.check(r.is_stopped, 'a reader of a run that ended does not report it as stopped')


def prove_attached_keeps_what_is_its_own():
    s, c, sb = made()
    sb.start()
    opts = {'read_size': sa.integer('size', 1), 'peek': sa.flag('peek'), 'strict_n': sa.flag('strict'),
            'ignore_no_item_found': sa.flag('ignore')}
    r = sb.mk_reader(**opts)
    seen = None
    if not sa.flag('fresh reader'):
        seen = sa.sym('seen', 'item')
        r.last_item = seen
    again = sa.flag('of another run')
    if again:
        c.run()
        sb.start()
    sb.attach_reader(r)
    for n in ('read_size', 'peek', 'strict_n', 'ignore_no_item_found'):
        sa.check(getattr(r, n) == opts[n], 'attaching a reader changes its options')
    if seen is None:
        sa.check(r.last_item is None, 'attaching a reader moves its cursor')
    else:
        sa.check(sa.same(r.last_item, seen), 'attaching a reader moves its cursor')


def prove_attached():
    """a reader of another stream, or of an earlier run, is bound to the current run"""
    s, c, sb = made()
    if sa.flag('of another stream'):
        s2 = Spy()
        c2 = Clock(s2)
        other = StreamBuffer(s2, maxlen=None)
        other.start()
        r = other.mk_reader()
        c2.run()
        stopped(r)
        c = Clock(s)
    else:
        sb.start()
        r = sb.mk_reader()
        c.run()
        stopped(r)
        s.src, s.i = sa.items('more', order='key', strict=True), 0
    sb.start()
    sb.attach_reader(r)
    if sa.flag('it runs'):
        c.run()
    fresh = sb.mk_reader()
    sa.check(r.is_stopped == fresh.is_stopped, 'an attached reader is not bound to the current stop flag')
    sa.check(r.source_reader_info == {'opens': s.opens},
             'an attached reader does not have the info of the source')
    sa.check(r.is_same_buffer(fresh), 'an attached reader is not bound to the current run')
    if s.i:
        sa.check(sa.same(r.head(peek=True), s.src[0]),
                 'an attached reader is not bound to the current buffer')


def prove_reader_class():
    class Plain:
        pass

    class Bare:
        """a source that asks for no reader class"""
        sleep_time_on_read_none_s = None
        info = {}

        def open(self):
            pass

        def read(self):
            return None

        def close(self):
            pass

        def key(self, x):
            return x

    class Mine(BufferReader):
        pass

    class Asking(Bare):
        buffer_reader_class = Mine
    s, want = (Bare(), BufferReader) if sa.flag('no class asked for') else (Asking(), Mine)
    c = Clock()
    sb = StreamBuffer(s, maxlen=None)
    sb.start()
    r = sb.mk_reader()
    sa.check(type(r) is want, 'the reader is not of the class the source asks for')


def prove_reader_class_of_a_stream_source():
    """asked for by its option, by an attribute of its class, or not at all"""
    class Mine(BufferReader):
        pass

    class Other(BufferReader):
        pass

    class Plain(StreamSource):
        info = {}

        def open(self):
            pass

        def read(self):
            return None

        def close(self):
            pass

        def key(self, x):
            return x

    class Attribute(Plain):
        buffer_reader_class = Other
    how = sa.choose(3, 'how')
    if how == 0:
        s, want = Plain(), BufferReader
    elif how == 1:
        s, want = Plain(reader_cls=Mine), Mine
    else:
        s, want = Attribute(), Other
    c = Clock()
    r = s.open_reader()
    sa.check(type(r) is want, 'the reader is not of the class the source asks for')


def prove_options():
    s, c, sb = made()
    sb.start()
    opts = {}
    names = ['read_size', 'peek', 'strict_n', 'ignore_no_item_found']
    for n in names:
        if sa.flag(n):
            opts[n] = sa.integer('size', 1) if n == 'read_size' else True
    r = sb.mk_reader(**opts)
    plain = sb.mk_reader()
    for n in names:
        if n in opts:
            sa.check(getattr(r, n) == opts[n], 'an option is not passed on')
        else:
            sa.check(getattr(r, n) == getattr(plain, n), 'an option not given is changed')


def prove_not_during_a_start():
    """another thread asks for a reader while a start is in progress"""
    s, c, sb = made()
    if sa.flag('a run before'):
        sb.start()
        other = sb.mk_reader()
        c.run()
    else:
        s2 = Spy()
        c2 = Clock(s2)
        sb2 = StreamBuffer(s2, maxlen=None)
        sb2.start()
        other = sb2.mk_reader()
        c = Clock(s)

    def ask():
        if sa.flag('attach'):
            kind, v = elsewhere(sb.attach_reader, other)
        else:
            kind, v = elsewhere(sb.mk_reader)
        sa.check(kind == 'blocked', 'making a reader does not wait for the start in progress')
        sa.stop()
    if sa.flag('during open'):
        s.on_open = ask
    else:
        s.on_info = ask
    sb.start()
    sa.fail('a start does not open the source')


def prove_after_a_failed_start():
    """a start that fails does not leave the creation of readers blocked"""
    s, c, sb = made(('open', 'info'))
    try:
        sb.start()
    except Exception:
        kind, v = attempt(sb.mk_reader)
        sa.check(kind == 'error' and isinstance(v, StreamNotStartedError),
                 'after a failed start a reader can be made')
        s.faults = ()
        sb.start()
    r = sb.mk_reader()
    sa.check(not r.is_stopped, 'the reader is not bound to the current stop flag')
    sa.check(r.source_reader_info == {'opens': s.opens}, 'the reader does not have the info of the source')


def prove_creation_leaves_the_lock_free():
    s, c, sb = made()
    sb.start()
    kind, v = attempt(sb.mk_reader, unknown_option=1)
    sa.check(kind == 'error', 'an unknown option is accepted')
    r = sb.mk_reader()
    sa.check(isinstance(r, Probe), 'after a failed creation no reader can be made')


class Other(Probe):
    pass


def prove_class_of_each_run():
    """the source may ask for another class at each start"""
    s, c, sb = made()
    sb.start()
    sa.check(type(sb.mk_reader()) is Probe, 'the reader is not of the class the source asks for')
    c.run()
    s.buffer_reader_class = Other
    sb.start()
    sa.check(type(sb.mk_reader()) is Other, 'the reader is not of the class the source asks for')
