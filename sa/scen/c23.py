"""Leaving a context always cleans up and never hides the error."""
import sa
from stream2py.source_reader import SourceReader, QuickSourceReader
from stream2py.buffer_reader import BufferReader
from stream2py.simply import mk_stream_buffer
from scen.common import attempt
from scen.stream import Spy, Clock, StreamBuffer, Probe, elsewhere


class Thrown(BaseException):
    """(not even an Exception)"""


def an_error():
    """what a block may raise"""
    k = sa.choose(8, 'error')
    if k == 0:
        return sa.user_error('in the block')
    return (ValueError, RuntimeError, StopIteration, KeyboardInterrupt, GeneratorExit, SystemExit,
            Thrown)[k - 1]('in the block')


class Block:
    """a with-block that is left in any way"""

    def __init__(self):
        self.error = None
        self.entered = None
        self.inside = None

    def leave(self, cm):
        """-> how it was left"""
        if sa.flag('by an exception'):
            self.error = an_error()
            try:
                with cm as x:
                    self.entered = x
                    self.at(x)
                    raise self.error
            except BaseException as e:
                sa.check(e is self.error, 'the exception of the block is replaced')
                return 'exception'
            sa.fail('the exception of the block is swallowed')
        way = sa.choose(4, 'left by')
        if way == 0:
            with cm as x:
                self.entered = x
                self.at(x)
            return 'end'
        if way == 1:
            self.returns(cm)
            return 'return'
        if way == 2:
            for i in range(2):
                with cm as x:
                    self.entered = x
                    self.at(x)
                    break
            return 'break'
        for i in range(1):
            with cm as x:
                self.entered = x
                self.at(x)
                continue
        return 'continue'

    def returns(self, cm):
        with cm as x:
            self.entered = x
            self.at(x)
            return 1

    def at(self, x):
        if self.inside is not None:
            self.inside(x)


def ending(c):
    """a stopped run may end whenever the owner waits"""
    def pause(d):
        c.slept(d)
        if not c.running and c.threads and not c.threads[-1]._sa_finished and sa.flag(
                'the loop ends meanwhile'):
            c.run()
    sa.set_env('sleep', pause)


def finish(c):
    if not c.threads[-1]._sa_finished:
        c.run()


def prove_stream_buffer():
    s = Spy(('close',))
    c = Clock(s, stops=False)
    s.none_reads = False
    sb = StreamBuffer(s, maxlen=None)
    ending(c)
    b = Block()

    def inside(x):
        sa.check(s.state == 'open' and sb.is_running, 'inside its context a stream is not running')
    b.inside = inside
    b.leave(sb)
    sa.check(b.entered is sb, 'entering a stream buffer does not give the stream buffer')
    sa.check(not sb.is_running, 'a stream buffer is not stopped at the end of its context')
    finish(c)
    sa.check(s.closes == 1, 'the source is not closed when the context of a stream is left')


def prove_stream_buffer_stopped_inside():
    """the block stops the stream itself, or the source fails meanwhile"""
    s = Spy(('read',))
    c = Clock(s)
    sb = StreamBuffer(s, maxlen=None)
    b = Block()
    how = sa.choose(2, 'how')

    def inside(x):
        if how == 0:
            sb.stop()
        else:
            c.run()
    b.inside = inside
    b.leave(sb)
    sa.check(not sb.is_running, 'a stream buffer is not stopped at the end of its context')
    finish(c)
    sa.check(s.closes == 1, 'the source is not closed when the context of a stream is left')


def prove_stream_buffer_fails_to_start():
    s = Spy(('open', 'info', 'close'))
    c = Clock(s)
    c.fail_thread = True
    sb = StreamBuffer(s, maxlen=None)
    started = False
    try:
        with sb:
            started = True
    except (sa.UserError, RuntimeError):
        sa.check(not started, 'the context of a stream fails when it is left')
        sa.check(not sb.is_running, 'a stream buffer whose start failed is reported as running')
        return
    sa.check(not sb.is_running, 'a stream buffer is not stopped at the end of its context')


def prove_stream_buffer_twice():
    s = Spy()
    c = Clock(s, stops=False)
    s.none_reads = False
    sb = StreamBuffer(s, maxlen=None)
    ending(c)
    sa.set_env('join', lambda t, timeout: c.run())
    for i in range(2):
        b = Block()
        with sb as x:
            sa.check(x is sb, 'entering a stream buffer does not give the stream buffer')
            sa.check(sb.is_running, 'inside its context a stream is not running')
        sa.check(not sb.is_running, 'a stream buffer is not stopped at the end of its context')


def prove_named_exits():
    """enter() and exit() are the same as the context"""
    s = Spy()
    c = Clock(s, stops=False)
    sb = StreamBuffer(s, maxlen=None)
    sa.check(sb.enter() is sb, 'entering a stream buffer does not give the stream buffer')
    sa.check(sb.is_running, 'inside its context a stream is not running')
    sa.check(not sb.exit(None, None, None), 'leaving a stream buffer swallows exceptions')
    sa.check(not sb.is_running, 'a stream buffer is not stopped at the end of its context')


class User:
    """the callables of a user of the helper"""

    def __init__(self, faults=()):
        self.opened = self.closed = 0
        self.faults = faults
        self.handle = sa.sym('handle', 'object')

    def fault(self, what):
        if what in self.faults and sa.flag('%s fails' % what):
            raise sa.user_error(what)

    def open(self):
        self.fault('open')
        self.opened += 1
        return self.handle

    def read(self, h):
        self.fault('read')
        return sa.sym('data', 'object')

    def close(self, h):
        self.closed += 1
        self.fault('close')

    def info(self, h):
        self.fault('info')
        return {}


def prove_helper():
    u = User(('close',))
    c = Clock(stops=False)
    ending(c)
    b = Block()

    def inside(x):
        sa.check(isinstance(x, StreamBuffer), 'entering the helper does not give a stream buffer')
        sa.check(x.is_running and u.opened == 1 and u.closed == 0,
                 'inside the context of the helper its stream is not running')
    b.inside = inside
    b.leave(mk_stream_buffer(u.read, u.open, u.close, u.info, key=sa.KEY, maxlen=None,
                             enumerate_data=False))
    sa.check(isinstance(b.entered, StreamBuffer), 'entering the helper does not give a stream buffer')
    sa.check(not b.entered.is_running, 'the stream of the helper is not stopped at the end of its context')
    finish(c)
    sa.check(u.closed == 1, 'the source is not closed when the context of the helper is left')


def prove_helper_fails_to_start():
    u = User(('open', 'info'))
    c = Clock()
    c.fail_thread = True
    started = False
    try:
        with mk_stream_buffer(u.read, u.open, u.close, u.info, key=sa.KEY, maxlen=None):
            started = True
    except (sa.UserError, RuntimeError):
        sa.check(not started, 'the context of the helper fails when it is left')
        sa.check(u.closed == u.opened, 'a failed start leaves the source of the helper open')
        return
    sa.check(started, 'the context of the helper is skipped')


def a_reader(kind=None):
    """a reader made by a stream -> (stream, reader)"""
    s = Spy()
    c = Clock(s, stops=False)
    sb = StreamBuffer(s, maxlen=None)
    sb.start()
    return sb, sb.mk_reader()


def prove_reader():
    sb, r = a_reader()
    calls = []
    if sa.flag('with a close callback'):
        r.onclose = lambda: calls.append(1)
        want = 1
    else:
        want = 0
    b = Block()

    def inside(x):
        sa.check(len(calls) == 0, 'the close callback is called before the context is left')
    b.inside = inside
    b.leave(r)
    sa.check(b.entered is r, 'entering a reader does not give the reader')
    sa.check(len(calls) == want, 'leaving a reader does not call its close callback once')
    r.close()
    sa.check(len(calls) == want, 'closing a reader again calls its close callback again')


def prove_reader_close():
    """outside of contexts"""
    sb, r = a_reader()
    calls = []
    with_callback = sa.flag('with a close callback')
    if with_callback:
        r.onclose = lambda: calls.append(1)
    sa.check(r.open() is r and r.enter() is r, 'entering a reader does not give the reader')
    if sa.flag('by exit'):
        r.exit()
    else:
        r.close()
    sa.check(len(calls) == (1 if with_callback else 0),
             'leaving a reader does not call its close callback once')
    r.close()
    sa.check(sb.is_running, 'closing a reader made directly from a stream stops the stream')
    sa.check(len(calls) == (1 if with_callback else 0),
             'leaving a reader does not call its close callback once')


def prove_reader_used_after_close():
    """a reader made directly from a stream goes on after its context"""
    sb, r = a_reader()
    with r:
        pass
    with r as x:
        sa.check(x is r, 'entering a reader does not give the reader')
    sa.check(r.read(ignore_no_item_found=True) is None, 'a reader does not work after its context')


def prove_reader_callback_fails():
    sb, r = a_reader()
    e = sa.user_error('callback')

    def failing():
        raise e
    r.onclose = failing
    kind, v = attempt(r.close)
    sa.check(kind == 'error' and v is e, 'the error of the close callback is hidden')


class Reader(SourceReader):
    def __init__(self, faults=()):
        self.faults = faults
        self.opens = self.closes = 0

    def fault(self, what):
        if what in self.faults and sa.flag('%s fails' % what):
            raise sa.user_error(what)

    def open(self):
        self.opens += 1
        self.fault('open')

    def read(self):
        return None

    def close(self):
        self.closes += 1
        self.fault('close')

    def key(self, x):
        return x


class Quick(Reader, QuickSourceReader):
    def open(self):
        self.opens += 1
        QuickSourceReader.open(self)

    def close(self):
        self.closes += 1
        QuickSourceReader.close(self)


def prove_source_reader():
    r = (Reader, Quick)[sa.choose(2, 'kind of source')]()
    b = Block()

    def inside(x):
        sa.check(r.opens == 1 and r.closes == 0, 'inside its context a source is not open')
    b.inside = inside
    b.leave(r)
    sa.check(b.entered is r, 'entering a source does not give the source')
    sa.check(r.opens == 1 and r.closes == 1, 'a source is not closed once at the end of its context')


def prove_source_reader_twice():
    r = Reader()
    sa.check(r.enter() is r, 'entering a source does not give the source')
    sa.check(not r.exit(None, None, None), 'leaving a source swallows exceptions')
    sa.check(r.opens == 1 and r.closes == 1, 'a source is not closed once at the end of its context')
    with r:
        sa.check(r.opens == 2, 'inside its context a source is not open')
    sa.check(r.opens == 2 and r.closes == 2, 'a source is not closed once at the end of its context')


def prove_source_reader_fails_to_open():
    r = Reader(('open',))
    inside = False
    try:
        with r:
            inside = True
    except sa.UserError:
        sa.check(not inside, 'the error of the open is raised after the block')
        return
    sa.check(inside and r.closes == 1, 'the block is skipped')
