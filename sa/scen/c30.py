"""A source reader's closed flag tells the truth."""
import sa
from stream2py.source_reader import SourceReader, QuickSourceReader
from stream2py.sources.http import HTTPResponseReader
from stream2py.simply import mk_stream_buffer
from scen.common import attempt
from scen.stream import Clock, StreamBuffer


class Own(SourceReader):
    """a source of a user: knows nothing of the flag"""
    fails = False

    def open(self):
        if self.fails:
            raise sa.user_error('open')

    def read(self):
        return None

    def close(self):
        pass

    def key(self, x):
        return x


class OwnQuick(QuickSourceReader):
    def read(self):
        return None


class Net:
    fails = False

    def __init__(self):
        sa.set_env('urlopen', self.open)

    def open(self, request, data):
        if self.fails:
            raise sa.user_error('urlopen')
        return Response()


class Response:
    closed = False

    def read(self, *args):
        return b'' if sa.flag('end of the response') else sa.sym('chunk', 'bytes')

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.closed = True

    def close(self):
        self.closed = True

    def isclosed(self):
        return self.closed


class Failing:
    """switches the failure of the next opens"""

    def __init__(self, net=None, own=None):
        self.net, self.own = net, own
        self.on = False

    def set(self, on):
        self.on = on
        if self.net is not None:
            self.net.fails = on
        if self.own is not None:
            self.own.fails = on


def library_source(k):
    """-> (source, the way to make its opens fail, or None)"""
    if k == 0:
        return OwnQuick(), None
    if k == 1:
        net = Net()
        return HTTPResponseReader('u'), Failing(net)
    f = Failing()

    def opener():
        if f.on:
            raise sa.user_error('open')
        return 1
    kw = {}
    if sa.flag('with open'):
        kw['open_stream'] = opener
    else:
        f = None
    if sa.flag('with close'):
        kw['close_stream'] = lambda h: None
    c = Clock()
    with mk_stream_buffer(lambda h: None, maxlen=None, **kw) as sb:
        s = sb.source_reader
        sa.check(not s.closed, 'an open source is reported as closed')
    c.stops = False
    c.run()
    return s, f


def flag_is(s, want):
    sa.check(bool(s.closed) == want, 'an open source is reported as closed' if not want
             else 'a closed source is reported as open')


def contexts(s):
    with s as x:
        flag_is(x, False)
        x.read()
        flag_is(x, False)
    flag_is(s, True)


ERRORS = (ValueError, StopIteration, KeyboardInterrupt, GeneratorExit, SystemExit)


def broken(s):
    k = sa.choose(2, 'error')
    e = ERRORS[sa.choose(5, 'kind of error')]('in the block') if k else sa.user_error('in the block')
    try:
        with s:
            flag_is(s, False)
            raise e
    except BaseException as x:
        sa.check(x is e, 'the exception of the block is replaced')
    flag_is(s, True)


def prove_own_source():
    """in contexts, any number of times"""
    s = Own()
    flag_is(s, True)
    while sa.flag('one more context'):
        if sa.flag('left by an exception'):
            broken(s)
        else:
            contexts(s)


def prove_own_source_fails_to_open():
    s = Own()
    again = sa.flag('after a context')
    if again:
        contexts(s)
    s.fails = True
    try:
        with s:
            pass
        sa.fail('the error of the open is hidden')
    except sa.UserError:
        flag_is(s, True)
    s.fails = False
    contexts(s)


def prove_independent():
    a, b = Own(), Own()
    with a:
        flag_is(b, True)
    with b:
        flag_is(a, True)


def prove_named():
    """enter() and exit()"""
    s = Own()
    s.enter()
    flag_is(s, False)
    s.exit(None, None, None)
    flag_is(s, True)


def prove_library_contexts():
    s, f = library_source(sa.choose(3, 'source'))
    flag_is(s, True)
    contexts(s)
    broken(s)
    contexts(s)


def prove_library_direct_calls():
    """any sequence of opens, reads and closes"""
    s, f = library_source(sa.choose(3, 'source'))
    is_open = False
    while sa.flag('more'):
        k = sa.choose(4, 'what')
        if k == 0 and not is_open:
            s.open()
            is_open = True
        elif k == 1 and is_open:
            s.read()
        elif k == 2 and is_open:
            s.close()
            is_open = False
        elif k == 3 and not is_open and f is not None:
            f.set(True)
            kind, v = attempt(s.open)
            f.set(False)
            sa.check(kind == 'error', 'the error of the open is hidden')
        flag_is(s, not is_open)


def prove_library_in_a_stream():
    """opened and closed by a stream, which closes a source whose reads fail"""
    k = sa.choose(2, 'source')
    s, f = library_source(k)
    read = s.read

    def failing():
        flag_is(s, False)
        if sa.flag('read fails'):
            raise sa.user_error('read')
        if k == 1:
            return None
        return read()
    s.read = failing
    c = Clock()
    sb = StreamBuffer(s, maxlen=None)
    flag_is(s, True)
    if f is not None and sa.flag('open fails'):
        f.set(True)
        kind, v = attempt(sb.start)
        sa.check(kind == 'error', 'the error of the open is hidden')
        flag_is(s, True)
        f.set(False)
    sb.start()
    flag_is(s, False)
    c.run()
    flag_is(s, True)


def prove_helper_in_its_stream():
    c = Clock()
    failing = sa.flag('read fails')

    def read(h):
        flag_is(sb.source_reader, False)
        if failing:
            raise sa.user_error('read')
        return None
    with mk_stream_buffer(read, maxlen=None) as sb:
        flag_is(sb.source_reader, False)
        c.run()
    flag_is(sb.source_reader, True)
