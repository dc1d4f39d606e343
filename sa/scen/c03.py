"""Each non-None value read is stored exactly once, in read order."""
import sa
from scen.common import odd_items, odd_key
from scen.stream import Spy, Clock, StreamBuffer


class World:
    def __init__(self, faults=(), maxlen=None, **kw):
        w = self
        w.maxlen = maxlen
        w.reader = None

        class Source(Spy):
            def on_read(self):
                w.stored('before the next read')
        w.s = Source(faults)
        w.c = Clock(w.s)
        w.sb = StreamBuffer(w.s, maxlen=maxlen, **kw)
        w.sb.start()
        w.reader = w.sb.mk_reader()

    def stored(self, when):
        """the buffer holds the values read so far (the newest ones that fit)"""
        s = self.s
        lo = 0
        if self.maxlen is not None and s.i > self.maxlen:
            lo = s.i - self.maxlen
        have = self.reader.contents()
        sa.check(sa.same_items(have, s.src[lo:s.i]),
                 'the buffer does not hold the values read so far, each once and in order')

    def run(self):
        self.c.run()
        sa.check(self.s.failed is not None or self.c.requested,
                 'the reading loop ends although nobody stopped it and nothing failed')
        self.stored('at the end')


def prove_unlimited():
    World(('read', 'close')).run()


def prove_limited():
    m = sa.integer('maxlen', 1)
    World(('read', 'close'), m).run()


def prove_manual_drop():
    """(without drops: reading waits when the buffer is full)"""
    m = sa.integer('maxlen', 1)
    w = World(('read',), m, auto_drop=False)
    w.run()


def prove_manual_drop_unlimited():
    World(('read',), None, auto_drop=False).run()


def prove_values_that_look_empty():
    """0, '', (), False, 0.0, [], an object without truth value: stored like any other"""
    class Source(Spy):
        def key(self, x):
            return self.i

        def read(self):
            if self.i >= len(values):
                return None
            self.i += 1
            return values[self.i - 1]
    values = [0, '', (), False, 0.0, [], {}]
    s = Source()
    c = Clock(s)
    sb = StreamBuffer(s, maxlen=None)
    sb.start()
    r = sb.mk_reader()
    c.run()
    have = r.contents()
    sa.check(len(have) == s.i, 'a value that looks empty is not stored exactly once')
    for j in range(s.i):
        sa.check(have[j] is values[j], 'a value that looks empty is not stored as it is')


def prove_none_is_never_stored():
    class Source(Spy):
        def key(self, x):
            sa.fail('None is stored')

        def read(self):
            return None
    s = Source()
    c = Clock(s)
    sb = StreamBuffer(s, maxlen=None)
    sb.start()
    r = sb.mk_reader()
    t = c.run()
    sa.check(t._sa_error is None, 'reading None fails')
    sa.check(len(r.contents()) == 0, 'None is stored')


def prove_restarted():
    w = World(())
    w.sb.stop()
    w.c.run()
    old = w.s.i
    w.s.src = sa.items('more', order='key', strict=True)
    w.s.i = 0
    w.sb.start()
    w.reader = w.sb.mk_reader()
    w.stored('at the start')
    w.c.run()
    w.stored('at the end')


def prove_auto_drop_changed():
    """the owner switches auto-drop while the stream runs"""
    m = sa.integer('maxlen', 1)
    w = World((), m)

    def look(ev):
        w.sb.auto_drop = sa.flag('auto drop on')
    w.c.on_look = look
    w.run()


def prove_values_with_comparisons_of_their_own():
    """arrays; objects that are equal to everything"""
    class Source(Spy):
        def key(self, x):
            return odd_key(x)

        def read(self):
            if self.i >= len(values):
                return None
            self.i += 1
            return values[self.i - 1]
    values = odd_items(2)
    s = Source()
    c = Clock(s)
    sb = StreamBuffer(s, maxlen=None)
    sb.start()
    r = sb.mk_reader()
    t = c.run()
    sa.check(t._sa_error is None, 'storing an array fails')
    have = r.contents()
    sa.check(len(have) == s.i, 'a value with comparisons of its own is not stored exactly once')
    for j in range(s.i):
        sa.check(have[j] is values[j], 'a value with comparisons of its own is not stored as it is')
