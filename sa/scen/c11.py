"""Reading changes nothing that is shared."""
import sa
from scen.common import World, attempt
from scen.coll import lookups
from stream2py.buffer_reader import BufferReader
from scen.stream import Spy, Clock, StreamBuffer


def operation(w, r):
    op = sa.choose(6, 'operation')
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    if op == 0:
        return attempt(r.read, peek=sa.flag('peek'))
    if op == 1:
        n = sa.integer('n', 2)
        return attempt(r.read, n, strict_n=sa.flag('strict'), peek=sa.flag('peek'))
    if op == 2:
        return attempt(next, r)
    if op == 3:
        return attempt(r.head)
    if op == 4:
        return attempt(r.tail, only_new_items=sa.flag('new'))
    return attempt(next, iter(r))


def ranged(w, r):
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    kw = {}
    c = sa.choose(4, 'kind of range')
    if c == 1:
        kw['only_new_items'] = True
    elif c == 2:
        kw['start_le'] = True
        kw['stop_ge'] = True
    elif c == 3:
        kw['step'] = 2
    return attempt(r.range, a, b, peek=sa.flag('peek'), ignore_no_item_found=sa.flag('ignore'), **kw)


class Others:
    """two more readers of the same buffer, with cursors and defaults of their own"""

    def __init__(self, w):
        self.w = w
        self.a = BufferReader(w.buffer, w.reader.source_reader_info, w.event)
        self.b = BufferReader(w.buffer, w.reader.source_reader_info, w.event, peek=True,
                              ignore_no_item_found=True)
        self.seen = sa.sym('seen by another', 'item')
        self.b.last_item = self.seen

    def untouched(self):
        w = self.w
        sa.check(w.cursor_is(None, self.a), 'reading moves the cursor of another reader')
        sa.check(w.cursor_is(self.seen, self.b), 'reading moves the cursor of another reader')
        if sa.flag('first'):
            kind, v = attempt(self.a.read)
            if w.n == 0:
                sa.check(kind == 'error', 'reading changes the options of another reader')
            else:
                sa.check(kind == 'ok' and sa.same(v, w.src[0]),
                         'reading changes what another reader returns')
                sa.check(w.cursor_is(w.src[0], self.a), 'reading changes how another reader moves')
        else:
            kind, v = attempt(self.b.read)
            at = sa.bisect_right(w.src, sa.key(self.seen), key=sa.key)
            if at >= w.n:
                sa.check(kind == 'ok' and v is None, 'reading changes the options of another reader')
            else:
                sa.check(kind == 'ok' and sa.same(v, w.src[at]),
                         'reading changes what another reader returns')
            sa.check(w.cursor_is(self.seen, self.b), 'reading changes the options of another reader')


def shared_same(w):
    sa.check(sa.same_items(w.contents(), w.src), 'reading changes the contents of the buffer')
    sa.check(len(w.buffer) == w.n, 'reading changes the length of the buffer')


def prove_buffer_unchanged():
    w = World()
    operation(w, w.reader)
    shared_same(w)


def prove_buffer_unchanged_by_range():
    w = World()
    ranged(w, w.reader)
    shared_same(w)


def prove_index_unchanged():
    w = World(fresh=True)
    operation(w, w.reader)
    with w.buffer.reader_lock() as b:
        lookups(b, w.src)


def prove_index_unchanged_by_range():
    w = World(fresh=True)
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    attempt(w.reader.range, a, b)
    with w.buffer.reader_lock() as b:
        lookups(b, w.src)


def prove_other_readers():
    w = World(fresh=True)
    o = Others(w)
    operation(w, w.reader)
    o.untouched()


def prove_other_readers_of_range():
    w = World(fresh=True)
    o = Others(w)
    ranged(w, w.reader)
    o.untouched()


def prove_options_of_readers_are_separate():
    w = World(fresh=True, opts={'ignore_no_item_found': True, 'peek': True, 'read_size': 3})
    o = Others(w)
    attempt(next, w.reader)
    o.untouched()


def spoil(v):
    """what a caller may do with a list of its own"""
    if sa.flag('emptied'):
        del v[:]
    else:
        v.append(sa.sym('extra', 'item'))
        v[0] = sa.sym('replaced', 'item')


def prove_result_is_fresh():
    w = World()
    n = sa.integer('n', 2)
    kind, v = attempt(w.reader.read, n, peek=True)
    if kind == 'ok':
        sa.check(isinstance(v, list), 'a result of several items is not a list')
        spoil(v)
        shared_same(w)
        kind, again = attempt(w.reader.read, n, peek=True)
        sa.check(kind == 'ok' and sa.same_items(again, w.src[w.pos:min(w.pos + n, w.n)]),
                 'changing a result changes what is read later')


def prove_range_is_fresh():
    w = World(fresh=True)
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    step = sa.flag('step')
    kind, v = attempt(w.reader.range, a, b, 2 if step else None, peek=True)
    if kind == 'ok':
        sa.check(isinstance(v, list), 'a result of several items is not a list')
        if len(v) > 0:
            spoil(v)
        shared_same(w)
        kind, again = attempt(w.reader.range, a, b, peek=True)
        lo, hi = sa.bisect_left(w.src, a, key=sa.key), sa.bisect_right(w.src, b, key=sa.key)
        sa.check(kind == 'ok' and sa.same_items(again, w.src[lo:hi] if lo < hi else []),
                 'changing a result changes what is read later')


def prove_two_results_are_separate():
    w = World(fresh=True)
    o = w.another()
    n = sa.integer('n', 2)
    k1, v1 = attempt(w.reader.read, n)
    k2, v2 = attempt(o.read, n)
    if k1 == 'ok' and k2 == 'ok':
        spoil(v1)
        sa.check(sa.same_items(v2, w.src[:min(n, w.n)]),
                 'changing the result of one reader changes that of another')
        shared_same(w)


def prove_iterations_of_a_stream_are_separate():
    s = Spy()
    c = Clock(s)
    sb = StreamBuffer(s, maxlen=None)
    sb.start()
    r = sb.mk_reader()
    i = sa.integer('i', 2)
    sa.assume_le(i, len(s.src))
    with r.shared.writer_lock() as b:
        b.__init__(s.src[:i], key=b.key)
    if sa.flag('both before'):
        one, two = iter(sb), iter(sb)
        sa.check(sa.same(next(one), s.src[0]), 'an iteration of a stream does not begin with the oldest item')
        sa.check(sa.same(next(two), s.src[0]), 'one iteration of a stream moves another')
        sa.check(sa.same(next(one), s.src[1]), 'one iteration of a stream moves another')
    else:
        one = iter(sb)
        sa.check(sa.same(next(one), s.src[0]), 'an iteration of a stream does not begin with the oldest item')
        sa.check(sa.same(next(sb), s.src[0]), 'an iteration of a stream moves what next gives on it')
        two = iter(sb)
        sa.check(sa.same(next(two), s.src[0]), 'what next gives on a stream moves an iteration of it')
        sa.check(sa.same(next(one), s.src[1]), 'what next gives on a stream moves an iteration of it')
    sa.check(sa.same(r.read(), s.src[0]), 'an iteration of a stream moves another reader')
