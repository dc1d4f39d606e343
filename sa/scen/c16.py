"""Reader defaults."""
import sa
from stream2py.stream_source import StreamSource
from scen.common import World, attempt
from scen.stream import Spy, Clock, Probe, StreamBuffer


def relate(default, call, n=None):
    """reader with defaults `default`, called with `call`; against everything given explicitly"""
    w = World(opts=default)
    other = w.another()
    full = {'peek': False, 'ignore_no_item_found': False, 'strict_n': False}
    size = 1
    for k, v in default.items():
        if k == 'read_size':
            size = v
        else:
            full[k] = v
    for k, v in call.items():
        if k == 'n':
            size = v
        elif v is not None:
            full[k] = v
    k1, v1 = attempt(w.reader.read, **call)
    k2, v2 = attempt(other.read, n=size, **full)
    compare(w, other, size, k1, v1, k2, v2)


def compare(w, other, size, k1, v1, k2, v2):
    sa.check(k1 == k2, 'an argument left out is not replaced by the reader default (error / result)')
    if k1 == 'ok':
        if v1 is None or v2 is None:
            sa.check(v1 is v2, 'an argument left out is not replaced by the default (None)')
        elif size == 1:
            sa.check(sa.same(v1, v2), 'an argument left out is not replaced by the default (item)')
        else:
            sa.check(sa.same_items(v1, v2),
                     'an argument left out is not replaced by the default (items)')
    else:
        sa.check(type(v1) is type(v2), 'another error than with the default given')
    if isinstance(w, World):
        same = w.cursor_is(other.last_item)
    else:
        a, b = w.last_item, other.last_item
        same = a is b or a is not None and b is not None and sa.same(a, b)
    sa.check(same, 'an argument left out is not replaced by the default (cursor)')


def option(d, name):
    c = sa.choose(3, name)
    if c:
        d[name] = c == 1


def unspecified(d, name):
    c = sa.choose(4, name)
    if c == 1 or c == 2:
        d[name] = c == 1
    elif c == 3:
        d[name] = None


def prove_peek():
    d, c = {}, {}
    option(d, 'peek')
    unspecified(c, 'peek')
    relate(d, c)


def prove_ignore():
    d, c = {}, {}
    option(d, 'ignore_no_item_found')
    unspecified(c, 'ignore_no_item_found')
    relate(d, c)


def prove_strict():
    d, c = {'read_size': sa.integer('size', 2)}, {}
    option(d, 'strict_n')
    unspecified(c, 'strict_n')
    relate(d, c)


def prove_size():
    d = {'read_size': sa.integer('size', 1)}
    c = {}
    if sa.flag('n given'):
        c['n'] = sa.integer('n', 1)
    relate(d, c)


def prove_all():
    d = {'read_size': sa.integer('size', 2), 'peek': sa.flag('peek'),
         'ignore_no_item_found': sa.flag('ignore'), 'strict_n': sa.flag('strict')}
    relate(d, {})


def prove_none_given():
    d = {'peek': sa.flag('peek'), 'ignore_no_item_found': sa.flag('ignore')}
    c = {'peek': not d['peek'], 'ignore_no_item_found': not d['ignore_no_item_found']}
    relate(d, c)


def prove_next():
    d = {'read_size': sa.integer('size', 1), 'peek': sa.flag('peek'),
         'ignore_no_item_found': sa.flag('ignore'), 'strict_n': sa.flag('strict')}
    w = World(opts=d)
    other = w.another()
    k1, v1 = attempt(next, w.reader)
    k2, v2 = attempt(other.read, d['read_size'], peek=d['peek'], ignore_no_item_found=True,
                     strict_n=d['strict_n'])
    compare(w, other, d['read_size'], k1, v1, k2, v2)


def prove_iteration():
    d = {'read_size': sa.integer('size', 1), 'peek': sa.flag('peek'),
         'ignore_no_item_found': sa.flag('ignore'), 'strict_n': sa.flag('strict')}
    w = World(opts=d)
    sa.assume(w.pos < w.n)
    other = w.another()
    k1, v1 = attempt(next, iter(w.reader))
    k2, v2 = attempt(other.read, d['read_size'], peek=d['peek'], ignore_no_item_found=True,
                     strict_n=d['strict_n'])
    compare(w, other, d['read_size'], k1, v1, k2, v2)


class Shared(StreamSource):
    buffer_reader_class = Probe

    def __init__(self, spy):
        StreamSource.__init__(self)
        self.configure_buffer(maxlen=None)
        self.spy = spy

    def open(self):
        self.spy.open()

    def read(self):
        return self.spy.read()

    def close(self):
        self.spy.close()

    info = {}

    def key(self, x):
        return sa.key(x)


def prove_readers_of_a_stream():
    """the options given to a stream or stream source when it makes the reader"""
    d = {}
    if sa.flag('size given'):
        d['read_size'] = sa.integer('size', 2)
    if sa.flag('strict given'):
        d['strict_n'] = sa.flag('strict')
    if sa.flag('ignore given'):
        d['ignore_no_item_found'] = sa.flag('ignore')
    s = Spy()
    c = Clock(s)
    if sa.flag('stream source'):
        make = Shared(s).open_reader
    else:
        if sa.flag('peek given'):
            d['peek'] = sa.flag('peek')
        sb = StreamBuffer(s, maxlen=None)
        sb.start()
        make = sb.mk_reader
    r = make(**d)
    other = make()
    # (an arbitrary moment of the run)
    i = sa.integer('i', 0)
    sa.assume_le(i, len(s.src))
    with r.shared.writer_lock() as b:
        b.__init__(s.src[:i], key=b.key)
    size = d.get('read_size', 1)
    full = {'peek': False, 'ignore_no_item_found': False, 'strict_n': False}
    for k, v in d.items():
        if k != 'read_size':
            full[k] = v
    k1, v1 = attempt(r.read)
    k2, v2 = attempt(other.read, n=size, **full)
    compare(r, other, size, k1, v1, k2, v2)


def prove_read_again():
    """what was given for one read is not in force for the next"""
    d = {}
    if sa.flag('defaults given'):
        d = {'read_size': 2, 'strict_n': True, 'ignore_no_item_found': True}
    w = World(opts=d)
    other = w.another()
    first = {'n': 3, 'peek': sa.flag('peek'), 'strict_n': sa.flag('strict'),
             'ignore_no_item_found': sa.flag('ignore')}
    attempt(w.reader.read, **first)
    attempt(other.read, **first)
    size = d.get('read_size', 1)
    if sa.flag('by next()'):
        k1, v1 = attempt(next, w.reader)
        k2, v2 = attempt(other.read, n=size, peek=False, ignore_no_item_found=True,
                         strict_n=d.get('strict_n', False))
    else:
        k1, v1 = attempt(w.reader.read)
        k2, v2 = attempt(other.read, n=size, peek=False,
                         ignore_no_item_found=d.get('ignore_no_item_found', False),
                         strict_n=d.get('strict_n', False))
    compare(w, other, size, k1, v1, k2, v2)


def prove_later_readers_of_a_stream():
    """the options given for one reader are not those of the next"""
    d = {'ignore_no_item_found': True}
    s = Spy()
    c = Clock(s)
    if sa.flag('stream source'):
        make = Shared(s).open_reader
    else:
        d['peek'] = True
        sb = StreamBuffer(s, maxlen=None)
        sb.start()
        make = sb.mk_reader
    if sa.flag('many'):
        d['read_size'] = 2
        d['strict_n'] = True
    r = make(**d)
    later, other = make(), make()
    i = sa.integer('i', 0)
    sa.assume_le(i, len(s.src))
    with r.shared.writer_lock() as b:
        b.__init__(s.src[:i], key=b.key)
    k1, v1 = attempt(later.read)
    k2, v2 = attempt(other.read, n=1, peek=False, ignore_no_item_found=False, strict_n=False)
    compare(later, other, 1, k1, v1, k2, v2)


def prove_deprecated_next():
    """next(n, ...) as a method: its own defaults, whatever those of the reader"""
    d = {}
    option(d, 'peek')
    option(d, 'strict_n')
    w = World(opts=d)
    other = w.another()
    full = {'peek': False, 'ignore_no_item_found': False, 'strict_n': False}
    call = {}
    for k in ('peek', 'ignore_no_item_found', 'strict_n'):
        if sa.flag(k + ' given'):
            call[k] = full[k] = sa.flag(k)
    n = 1
    if sa.flag('n given'):
        n = sa.integer('n', 1)
        k1, v1 = attempt(w.reader.next, n, **call)
    else:
        k1, v1 = attempt(w.reader.next, **call)
    k2, v2 = attempt(other.read, n=n, **full)
    compare(w, other, n, k1, v1, k2, v2)
