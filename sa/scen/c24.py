"""The all-in-one helper wires the user callables faithfully."""
import sa
from stream2py.simply import mk_stream_buffer
from scen.common import attempt, odd_items, odd_key
from scen.stream import Clock, StreamBuffer

NAMES = ('open', 'close', 'info', 'key')


class User:
    """the callables of a user; their results and what they were given"""

    def __init__(self, given=NAMES, faults=()):
        self.given = given
        self.faults = faults
        self.handles = [sa.sym('first handle', 'object'), sa.sym('second handle', 'object')]
        self.described = sa.sym('description', 'object')
        self.opened = 0
        self.closed = 0
        self.src = sa.items('data', order='key', strict=True)
        self.i = 0  # next data
        self.stream = None
        self.none_reads = True
        self.is_open = False
        self.item = None

    def handle(self):
        """what open returned (None without an open function)"""
        if 'open' not in self.given:
            return None
        return self.handles[self.opened - 1]

    def check_handle(self, h, what):
        if 'open' in self.given:
            sa.check(h is self.handle(), what)
        else:
            sa.check(h is None, what)

    def open(self):
        sa.check(not self.is_open, 'the open function is called though the stream is open')
        self.is_open = True
        self.opened += 1
        return self.handle()

    def on_read(self):
        pass

    def read(self, h):
        self.check_handle(h, 'the read function is not given what open returned')
        self.on_read()
        if self.none_reads and sa.flag('no data'):
            return None
        sa.assume(self.i < len(self.src))
        self.i += 1
        return self.src[self.i - 1]

    def close(self, h):
        self.check_handle(h, 'the close function is not given what open returned')
        sa.check(self.is_open or 'open' not in self.given, 'the close function is called though the '
                 'stream is closed')
        self.is_open = False
        self.closed += 1

    def info(self, h):
        self.check_handle(h, 'the info function is not given what open returned')
        return self.described

    def key(self, item):
        self.item = item
        return sa.key(item)

    def helper(self, enumerated, **kw):
        if 'open' in self.given:
            kw['open_stream'] = self.open
        if 'close' in self.given:
            kw['close_stream'] = self.close
        if 'info' in self.given:
            kw['info'] = self.info
        if 'key' in self.given:
            kw.setdefault('key', self.key)
        if not enumerated or sa.flag('enumeration asked for'):
            kw['enumerate_data'] = enumerated
        kw.setdefault('maxlen', None)
        return mk_stream_buffer(self.read, **kw)


def some():
    """any of the optional callables"""
    out = []
    for n in NAMES:
        if sa.flag('with ' + n):
            out.append(n)
    return out


def prove_open_read_close():
    """the source of the helper by itself"""
    u = User(some())
    c = Clock(stops=False)
    enumerated = sa.flag('enumerated')
    with u.helper(enumerated) as sb:
        s = sb.source_reader
        sa.check(u.opened == (1 if 'open' in u.given else 0), 'the open function is not called once per start')
        first(u, s, enumerated)
    sa.check(u.closed == 0, 'the close function is called before the reading loop ends')
    c.run()
    sa.check(u.closed == (1 if 'close' in u.given else 0), 'the close function is not called once per run')


def first(u, s, enumerated):
    x = s.read()
    if u.i == 0:
        sa.check(x is None, 'a read without data gives an item')
        x = s.read()
    if u.i == 1:
        right(u, x, 0, enumerated)


def right(u, x, i, enumerated):
    """x is the item for data number i"""
    if enumerated:
        sa.check(type(x) is tuple and len(x) == 2, 'an enumerated item is not a pair')
        sa.check(x[0] == i, 'the index of an item is not the number of items before it')
        sa.check(sa.same(x[1], u.src[i]), 'the data of an item is not what the read function gave')
    else:
        sa.check(sa.same(x, u.src[i]), 'the data of an item is not what the read function gave')


def prove_every_pattern_of_reads():
    """any number of reads, with and without data, through the source itself"""
    u = User()
    c = Clock(stops=False)
    enumerated = sa.flag('enumerated')
    with u.helper(enumerated) as sb:
        s = sb.source_reader
        while sa.flag('one more read'):
            i = u.i
            x = s.read()
            if u.i == i:
                sa.check(x is None, 'a read without data gives an item')
            else:
                right(u, x, i, enumerated)


def prove_reopened():
    """indices start from 0 in every run"""
    u = User()
    u.none_reads = False
    c = Clock(stops=False)
    sa.set_env('join', lambda t, timeout: c.run())
    with u.helper(True) as sb:
        s = sb.source_reader
        while sa.flag('one more read'):
            s.read()
        sb.stop()
        sb.start()
        sa.check(u.opened == 2, 'the open function is not called once per start')
        sa.check(u.closed == 1, 'the close function is not called once per run')
        i = u.i
        x = s.read()
        sa.check(x[0] == 0, 'the index does not start from 0 in a new run')
        sa.check(sa.same(x[1], u.src[i]), 'the data of an item is not what the read function gave')
        sa.check(s.read()[0] == 1, 'the index of an item is not the number of items before it')
    c.run()
    sa.check(u.closed == 2, 'the close function is not called once per run')


def prove_falsy_data():
    """data that is false but not None is an item"""
    vals = (0, '', False, (), 0.0)
    v = vals[sa.choose(len(vals), 'data')]
    c = Clock(stops=False)
    with mk_stream_buffer(lambda h: v, maxlen=None) as sb:
        x = sb.source_reader.read()
        sa.check(x == (0, v), 'false data is not an item')
        sa.check(sb.source_reader.read() == (1, v), 'false data is not an item')
    with mk_stream_buffer(lambda h: v, maxlen=None, enumerate_data=False) as sb:
        x = sb.source_reader.read()
        sa.check(x is v, 'false data is not an item')


def prove_read_fails():
    """an error of the read function is passed on and consumes no index"""
    u = User()
    c = Clock(stops=False)
    e = sa.user_error('read')
    fail = [True]
    read = u.read

    def failing(h):
        if fail[0]:
            raise e
        return read(h)
    u.read = failing
    u.none_reads = False
    with u.helper(True) as sb:
        kind, v = attempt(sb.source_reader.read)
        sa.check(kind == 'error' and v is e, 'an error of the read function is replaced')
        fail[0] = False
        right(u, sb.source_reader.read(), 0, True)


def prove_info():
    k = sa.choose(3, 'given')
    u = User((('open',), ('open', 'info'), ('info',))[k])
    c = Clock(stops=False)
    with u.helper(True) as sb:
        if 'info' in u.given:
            sa.check(sb.source_reader_info is u.described, 'the stream is not described by the info function')
            sa.check(sb.source_reader.info is u.described, 'the stream is not described by the info function')
        else:
            sa.check(isinstance(sb.source_reader_info, dict), 'a helper without info function has no info')


def prove_key():
    """items are ordered by the key function applied to the item, or by the item itself"""
    u = User(('key',) if sa.flag('with key') else ())
    c = Clock(stops=False)
    item = sa.sym('item', 'item')
    with u.helper(sa.flag('enumerated')) as sb:
        k = sb.source_reader.key(item)
        if 'key' in u.given:
            sa.check(u.item is item, 'the key function is not given the item')
            sa.check(sa.same(k, sa.key(item)), 'items are not ordered by the key function')
        else:
            sa.check(k is item, 'without a key function items are not ordered by themselves')


def prove_items_delivered():
    """what readers get from the running stream"""
    u = User(NAMES)
    c = Clock()
    enumerated = sa.flag('enumerated')
    with u.helper(enumerated, key=pair_key if enumerated else sa.KEY,
                  maxlen=1 if enumerated else None) as sb:
        r = sb.mk_reader()

        def arrived():
            c.running = False
            if u.i > 0:
                x = r.tail(peek=True)
                right(u, x, u.i - 1, enumerated)
            c.running = True
        u.on_read = arrived
        c.run()
    sa.check(u.closed == 1, 'the close function is not called once per run')


def pair_key(x):
    return sa.key(x[1])


def prove_options():
    """the options of the stream are passed on"""
    u = User()
    c = Clock(stops=False)
    d = sa.sym('interval', 'num')
    n = sa.integer('maxlen', 1)

    def pause(x):
        if c.running:
            sa.check(x == d, 'the configured interval is not used')
    c.on_pause = pause
    auto = sa.flag('auto drop')
    with u.helper(False, key=sa.KEY, maxlen=n, sleep_time_on_read_none_seconds=d,
                  auto_drop=auto) as sb:
        sa.check(sb.auto_drop is auto, 'auto_drop is not passed on')
        c.stops = True
        r = sb.mk_reader()

        def read():
            c.running = False
            size(u, r, n, auto)
            c.running = True
        u.on_read = read
        c.run()
        size(u, r, n, auto)


def size(u, r, n, auto):
    if u.i > 0:
        xs = r.range(sa.key(u.src[0]), sa.key(u.src[u.i - 1]), peek=True)
        sa.check(len(xs) == min(u.i, n), 'the maximal length is not used')


def prove_items_with_comparisons_of_their_own():
    """arrays; objects that are equal to everything"""
    c = Clock(stops=False)
    values = odd_items(2)
    left = list(values)
    enumerated = sa.flag('enumerated')
    with mk_stream_buffer(lambda h: left.pop(0), maxlen=None, enumerate_data=enumerated,
                          key=(lambda x: x[0]) if enumerated else odd_key) as sb:
        for i in range(2):
            kind, x = attempt(sb.source_reader.read)
            sa.check(kind == 'ok', 'an array as data makes the read fail')
            if enumerated:
                sa.check(x[0] == i and x[1] is values[i], 'an array is not an item')
            else:
                sa.check(x is values[i], 'an array is not an item')


def prove_started_again_after_a_close_that_failed():
    """the open function is called at every start"""
    c = Clock(stops=False)
    sa.set_env('join', lambda t, timeout: c.run())
    handles = [sa.sym('first handle', 'object'), sa.sym('second handle', 'object')]
    opened, closed = [], []

    def opener():
        opened.append(handles[len(opened)])
        return opened[-1]

    def closer(h):
        closed.append(h)
        if len(closed) == 1:
            raise sa.user_error('close')

    def read(h):
        sa.check(h is handles[len(opened) - 1], 'the read function is not given what open returned')
        return None
    with mk_stream_buffer(read, opener, closer, maxlen=None) as sb:
        sb.stop()
        sb.start()
        sa.check(len(opened) == 2, 'the open function is not called once per start')
        sb.source_reader.read()
    c.run()
    sa.check(len(closed) == 2, 'the close function is not called once per run')
    sa.check(closed[0] is handles[0] and closed[1] is handles[1],
             'the close function is not given what open returned')
