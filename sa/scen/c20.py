"""Each start is a fresh session isolated from earlier ones."""
import sa
from scen.stream import Spy, Clock, StreamBuffer, elsewhere


class World:
    """a stream whose source gives other items in each run"""

    def __init__(self, faults=(), **kw):
        w = self
        w.runs = [sa.items('first', order='key', strict=True),
                  sa.items('second', order='key', strict=True)]

        w.alike = sa.flag('all runs have the same info')

        class Source(Spy):
            @property
            def info(self):
                self.on_info()
                self.fault('info')
                if w.alike:
                    return {'name': 'source'}
                return {'opens': self.opens}

            def on_open(self):
                for t in w.c.threads:
                    sa.check(t._sa_finished, 'the source is opened again before the reading loop of '
                             'the previous run has ended')
                sa.check(self.state == 'closed', 'the source is opened while it is open')
                self.src = w.runs[self.opens]
                self.i = 0
        w.s = Source(faults)
        w.c = Clock(w.s)
        kw.setdefault('maxlen', None)
        w.sb = StreamBuffer(w.s, **kw)

    def others(self):
        """whenever the owner waits, the reading loop may come to its end"""
        sa.set_env('sleep', self.pause)
        sa.set_env('is_alive', self.alive)
        sa.set_env('join', self.join)

    def pause(self, d):
        self.c.slept(d)
        if not self.c.running:
            t = self.c.threads[-1]
            if not t._sa_finished and not t._sa_running and sa.flag('the loop ends meanwhile'):
                self.c.run()

    def alive(self, t):
        if not t._sa_running and sa.flag('the loop ends meanwhile'):
            self.c.run()

    def join(self, t, timeout):
        if t._sa_running:  # (it goes on only after what happens now)
            if timeout is None:
                sa.blocked(t)
            return
        if timeout is None or sa.flag('the loop ends meanwhile'):
            self.c.run()


def first_run(w, read=False):
    w.sb.start()
    r = w.sb.mk_reader()
    first = None
    if sa.flag('it runs before the restart'):
        w.c.run()
    return r


def fresh(w, r):
    """the state right after the second start; r: a reader of the first run"""
    sa.check(w.s.opens == 2 and w.s.state == 'open', 'the second start does not open the source')
    sa.check(len(w.c.threads) == 2 and w.c.threads[0]._sa_finished,
             'the second start does not begin one reading loop')
    r2 = w.sb.mk_reader()
    sa.check(len(r2.contents()) == 0, 'the buffer of the new run is not empty')
    sa.check(not r2.is_stopped and w.sb.is_running, 'the new run is reported as stopped')
    sa.check(r.is_stopped, 'a reader of the previous run does not report it as stopped')
    sa.check(not r.is_same_buffer(r2), 'the readers of two runs share their buffer')
    return r2


def prove_restart():
    w = World()
    r = first_run(w)
    if sa.flag('stopped first'):
        w.others()
        w.sb.stop()
    w.others()
    w.sb.start()
    old = r.contents()
    sa.check(w.s.closes == 1, 'the previous run has not closed the source')
    r2 = fresh(w, r)
    t1 = w.c.threads[0]
    w.c.run()
    sa.check(sa.same_items(r.contents(), old), 'a new run changes what readers of the previous one see')
    sa.check(sa.same_items(r2.contents(), w.runs[1][:w.s.i]), 'the new run does not hold its items')
    sa.check(r.is_stopped, 'a reader of the previous run does not report it as stopped')


def prove_items_of_the_first_run_stay():
    w = World(('read',))
    w.sb.start()
    r = w.sb.mk_reader()
    w.c.run()
    i = w.s.i
    w.others()
    w.sb.start()
    sa.check(sa.same_items(r.contents(), w.runs[0][:i]),
             'a new run changes what readers of the previous one see')
    w.c.run()
    sa.check(sa.same_items(r.contents(), w.runs[0][:i]),
             'a new run changes what readers of the previous one see')


def prove_restart_while_reading():
    """another thread starts the stream again while its loop is inside a read"""
    w = World()
    w.sb.start()
    r = w.sb.mk_reader()
    w.others()
    read = w.s.read

    def slow():
        if sa.flag('restart now'):
            w.c.running = False
            kind, v = elsewhere(w.sb.start)
            sa.check(kind == 'blocked', 'a restart does not wait for a reading loop that is inside '
                     'a read')
            sa.stop()
        return read()
    w.s.read = slow
    w.c.run()
    sa.check(w.c.threads[0]._sa_finished, 'the run ends')


def prove_stop_while_reading():
    """(after a stop, the item just read still goes to the run's own buffer)"""
    w = World()
    w.sb.start()
    r = w.sb.mk_reader()
    read = w.s.read

    def slow():
        if sa.flag('stop now'):
            w.c.running = False
            kind, v = elsewhere(w.sb.stop)
            sa.check(kind == 'ok', 'a stop fails or blocks while the loop reads')
            w.c.running = True
            w.c.requested = True
        return read()
    w.s.read = slow
    w.c.run()
    sa.check(w.c.threads[0]._sa_finished and w.s.closes == 1, 'the run does not end')
    sa.check(r.is_stopped, 'a reader of the previous run does not report it as stopped')


def prove_close_before_open():
    """the previous loop is inside the close of the source when the stream is started again"""
    w = World()
    w.sb.start()
    w.others()

    def closing():
        w.c.running = False
        if sa.flag('restart now'):
            kind, v = elsewhere(w.sb.start)
            sa.check(kind == 'blocked', 'a restart does not wait for the close of the source')
            sa.stop()
        w.c.running = True
    w.s.on_close = closing
    w.c.run()
    sa.check(w.s.closes == 1, 'the run does not close the source')


def prove_two_starts_at_once():
    """another thread starts the stream during a start"""
    w = World()

    def nested():
        kind, v = elsewhere(w.sb.start)
        sa.check(kind == 'blocked', 'two starts run at the same time')
        sa.stop()
    if sa.flag('during open'):
        opened = w.s.on_open
        w.s.on_open = nested
    else:
        w.s.on_info = nested
    if sa.flag('second start'):
        w.s.on_open, w.s.on_info = opened_of(w), nothing
        w.sb.start()
        w.c.run()
        w.s.on_info = nested
    w.sb.start()
    sa.fail('a start does not open the source')


def nothing():
    pass


def opened_of(w):
    def opened():
        w.s.src, w.s.i = w.runs[w.s.opens], 0
    return opened


def prove_next_reads_the_new_run():
    w = World(('read',))
    w.sb.start()
    w.c.run()
    n1 = w.s.i
    try:
        v = next(w.sb)
    except StopIteration:
        sa.check(n1 == 0, 'next does not give the first item')
        v = None
    if v is not None:
        sa.check(sa.same(v, w.runs[0][0]), 'next does not give the first item')
    w.others()
    if sa.flag('stopped first'):
        w.sb.stop()
    w.sb.start()
    w.c.run()
    n2 = w.s.i
    try:
        v = next(w.sb)
    except StopIteration:
        sa.check(n2 == 0, 'after a restart next does not read the new run')
        return
    sa.check(n2 > 0 and sa.same(v, w.runs[1][0]), 'after a restart next does not read the new run')


def prove_call_reads_the_new_run():
    """calling the stream is next"""
    w = World()
    w.sb.start()
    sa.check(w.sb() is None, 'calling an empty running stream does not give None')
    w.others()
    w.c.run()
    w.sb.start()
    w.c.run()
    try:
        v = w.sb()
    except StopIteration:
        sa.check(w.s.i == 0, 'after a restart a call does not read the new run')
        return
    sa.check(w.s.i > 0 and sa.same(v, w.runs[1][0]), 'after a restart a call does not read the new run')


def prove_context_again():
    """with sb: ... twice"""
    w = World()
    with w.sb as b:
        r = b.mk_reader()
        w.others()
    with w.sb as b:
        r2 = fresh(w, r)


def prove_many_restarts():
    """a third start (fresh buffers each time)"""
    w = World()
    w.runs.append(sa.items('third', order='key', strict=True))
    w.sb.start()
    r = w.sb.mk_reader()
    w.others()
    w.sb.start()
    r2 = w.sb.mk_reader()
    w.sb.start()
    r3 = w.sb.mk_reader()
    sa.check(r.is_stopped and r2.is_stopped and not r3.is_stopped,
             'only the last run is reported as running')
    sa.check(len(r3.contents()) == 0, 'the buffer of the new run is not empty')
    sa.check(not r3.is_same_buffer(r2) and not r3.is_same_buffer(r) and not r2.is_same_buffer(r),
             'the readers of two runs share their buffer')
