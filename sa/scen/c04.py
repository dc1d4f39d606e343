"""With auto-drop off nothing is evicted; explicit drop is exact."""
import sa
from scen.stream import Spy, Clock, StreamBuffer


class World:
    """lo: how many items have been dropped so far"""

    def __init__(self, maxlen=None, drops=True, faults=('read',), real=False, **kw):
        w = self
        w.real = real  # (else what an exact drop does)
        w.maxlen, w.lo, w.drops = maxlen, 0, drops
        w.paused_full = False
        w.asked = False
        w.early = drops and not real

        class Source(Spy):
            def on_read(self):
                w.asked = True
                if w.maxlen is not None:
                    sa.check(w.s.i - w.lo < w.maxlen,
                             'the source is read although the buffer is full')
        w.s = Source(faults)
        w.c = Clock(w.s)
        w.sb = StreamBuffer(w.s, maxlen=maxlen, auto_drop=False, **kw)
        w.sb.start()
        w.reader = w.sb.mk_reader()
        w.c.on_look = w.look

    def look(self, ev):
        if self.early:
            self.jump()
        self.stored()
        if self.drops and sa.flag('the owner drops'):
            self.drop()

    def jump(self):
        """(an arbitrary moment of the run)"""
        self.early = False
        lo, i = sa.integer('lo', 0), sa.integer('i')
        sa.assume_le(lo, i)
        sa.assume_le(i, len(self.s.src))
        if self.maxlen is not None:
            sa.assume_le(i, lo + self.maxlen)
        self.lo, self.s.i = lo, i
        self.s.fruitless = False
        with self.reader.shared.writer_lock() as b:
            b.__init__(self.s.src[lo:i], key=b.key, maxlen=self.maxlen)

    def drop(self):
        k = sa.integer('k', 0)
        sa.assume_le(self.lo + k, self.s.i)
        if self.real:
            self.sb.drop(k)
            self.lo += k
            self.stored()
        else:
            self.lo += k
            with self.reader.shared.writer_lock() as b:
                b.__init__(self.s.src[self.lo:self.s.i], key=b.key, maxlen=self.maxlen)

    def stored(self):
        have = self.reader.contents()
        sa.check(sa.same_items(have, self.s.src[self.lo:self.s.i]),
                 'the buffer does not hold the items read and not dropped')


def prove_limited():
    w = World(sa.integer('maxlen', 0))
    w.c.run()
    w.stored()


def prove_unlimited():
    w = World(None)
    w.c.run()
    w.stored()


def prove_drop_one():
    """the default number"""
    w = World(sa.integer('maxlen', 1), drops=False)
    w.c.run()
    if w.s.i > 0:
        w.sb.drop()
        w.lo = 1
        w.stored()


def deep_limited():
    w = World(sa.integer('maxlen', 0), real=True)
    w.c.run()
    w.stored()


def deep_unlimited():
    w = World(None, real=True)
    w.c.run()
    w.stored()


def prove_drop_after_the_run():
    w = World(None, drops=False, real=True)
    w.c.run()
    w.drop()
    w.drop()


def prove_drop_everything():
    w = World(None, drops=False)
    w.c.run()
    w.sb.drop(w.s.i)
    sa.check(len(w.reader.contents()) == 0, 'dropping every item leaves some')


def prove_reading_never_pauses():
    """unlimited, or auto-drop on: every round reads"""
    s = Spy()
    s.none_reads = False
    c = Clock(s)
    if sa.flag('unlimited'):
        sb = StreamBuffer(s, maxlen=None, auto_drop=sa.flag('auto drop'))
    else:
        sb = StreamBuffer(s, maxlen=sa.integer('maxlen', 1))

    def pause(d):
        sa.fail('reading pauses although the buffer cannot be full')
    sb.start()
    c.on_pause = pause
    c.run()
    sa.check(c.requested, 'reading ends by itself')


def prove_full_buffer_resumes():
    """after a drop the next round reads again"""
    m = sa.integer('maxlen', 1)
    w = World(m, faults=())

    def look(ev):
        if w.c.requested:
            return
        if w.early:
            w.jump()
        room = w.s.i - w.lo < w.maxlen
        if w.before is not None:
            sa.check(w.asked or not w.before, 'the source is not read although there is room')
        if sa.flag('the owner drops'):
            w.drop()
            room = w.s.i - w.lo < w.maxlen
        w.before = room
        w.asked = False
    w.before = None
    w.c.on_look = look
    w.c.run()


def prove_refused_with_auto_drop():
    s = Spy()
    c = Clock(s)
    kw = {}
    if sa.flag('given'):
        kw['auto_drop'] = True
    sb = StreamBuffer(s, maxlen=None if sa.flag('unlimited') else sa.integer('maxlen', 1), **kw)
    sb.start()
    r = sb.mk_reader()
    c.run()
    before = r.contents()
    k = sa.integer('k', 0)
    try:
        sb.drop(k)
        ok = True
    except RuntimeError:
        ok = False
    sa.check(not ok, 'drop is not refused while auto-drop is on')
    sa.check(sa.same_items(r.contents(), before), 'a refused drop removes items')
    try:
        sb.drop()
        ok = True
    except RuntimeError:
        ok = False
    sa.check(not ok, 'drop is not refused while auto-drop is on')
    sa.check(sa.same_items(r.contents(), before), 'a refused drop removes items')


def prove_refused_before_start():
    sb = StreamBuffer(Spy(), maxlen=3)
    try:
        sb.drop()
        ok = True
    except RuntimeError:
        ok = False
    sa.check(not ok, 'drop is not refused while auto-drop is on')
