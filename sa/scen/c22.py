"""A shared source stays open exactly while it has open readers."""
import sa
from stream2py.stream_source import StreamSource
from scen.common import attempt
from scen.stream import Clock, Spy, elsewhere


class Shared(Spy, StreamSource):
    def __init__(self, faults=(), thread_faults=False):
        StreamSource.__init__(self)
        self.configure_buffer(maxlen=None)
        Spy.__init__(self, faults)
        self.c = Clock(self)
        self.c.fail_thread = thread_faults
        sa.set_env('sleep', self.pause)
        sa.set_env('join', self.join)
        self.open_readers = 0

    def current(self):
        """the thread of the current run"""
        return self.c.threads[-1]

    def on_open(self):
        sa.check(self.state == 'closed', 'the source is opened while it is open')

    # whenever the owner waits, a stopped run may come to its end
    def pause(self, d):
        if not self.c.running and self.c.threads:
            t = self.current()
            if not t._sa_finished and sa.flag('the loop ends meanwhile'):
                self.end()

    def join(self, t, timeout):
        if t._sa_running:
            sa.blocked(t)
        elif timeout is None or sa.flag('the loop ends meanwhile'):
            self.end()

    def end(self):
        """what is left of the current run after its stop"""
        self.c.stops = False
        self.none_reads = False
        t = self.current()
        if not t._sa_finished:
            self.c.run()
        self.c.stops = self.none_reads = True
        del self.c.threads[:]
        self.c.threads.append(t)

    def running(self, r):
        """the run that r reads goes on"""
        return not r.is_stopped


class Slot:
    """one reader of the source and what it should be"""

    def __init__(self, s):
        self.s = s
        self.r = None
        self.open = False

    def turn(self):
        if sa.flag('open'):
            if self.open:
                self.s.more()
            else:
                self.open_it()
        else:
            self.close_it()

    def open_it(self):
        s = self.s
        was = s.opens
        self.r = s.open_reader()
        if s.open_readers == 0:
            sa.check(s.opens == was + 1, 'opening the first reader does not start the source')
        else:
            sa.check(s.opens == was, 'opening a further reader opens the source again')
        self.open = True
        s.open_readers += 1
        sa.check(not self.r.is_stopped, 'the source is not running though a reader was just opened')
        sa.check(s.state == 'open', 'the source is not open though a reader was just opened')

    def close_it(self):
        s = self.s
        if self.r is None:
            return
        self.r.close()
        if self.open:
            self.open = False
            s.open_readers -= 1
            if s.open_readers == 0:
                sa.check(self.r.is_stopped, 'the source is not stopped when its last reader is closed')
                return
        self.s.goes_on()


class Histories(Shared):
    """any number of readers nobody closes, and some that come and go"""

    def __init__(self, slots, anonymous=False):
        Shared.__init__(self)
        self.slots = []
        for i in range(slots):
            self.slots.append(Slot(self))
        if anonymous:
            while sa.flag('one more reader'):
                self.more()

    def more(self):
        was, n = self.opens, self.open_readers
        r = self.open_reader()
        self.open_readers += 1
        sa.check(not r.is_stopped, 'the source is not running though a reader was just opened')
        sa.check(self.opens == was if n > 0 else self.opens == was + 1,
                 'opening a further reader opens the source again')

    def goes_on(self):
        if self.open_readers > 0:
            sa.check(self.state == 'open', 'the source is closed while a reader is open')
            for x in self.slots:
                if x.open:
                    sa.check(not x.r.is_stopped, 'the source is stopped while a reader is open')

    def play(self):
        while sa.flag('more'):
            k = sa.choose(len(self.slots), 'which reader')
            self.slots[k].turn()
        self.goes_on()


def prove_one_reader():
    Histories(1).play()


def prove_two_readers():
    s = Histories(2)
    s.more = nothing
    s.play()


def deep_three_readers():
    s = Histories(3)
    s.more = nothing
    s.play()


def prove_others_stay_open():
    """any number of readers are open all the time"""
    s = Histories(1, anonymous=True)
    s.play()


def nothing():
    pass


def opened(s, n):
    out = []
    for i in range(n):
        out.append(s.open_reader())
    return out


def prove_all_in_any_order():
    s = Shared()
    a, b, c = opened(s, 3)
    sa.check(s.opens == 1, 'opening a further reader opens the source again')
    sa.check(a.is_same_buffer(b) and b.is_same_buffer(c), 'readers of one run do not share their buffer')
    left = [a, b, c]
    while len(left) > 0:
        r = left.pop(sa.choose(len(left), 'which is closed'))
        for x in left:
            sa.check(not x.is_stopped, 'the source is stopped while a reader is open')
        sa.check(s.closes == 0, 'the source is closed while a reader is open')
        r.close()
        if sa.flag('closed again'):
            r.close()
    sa.check(a.is_stopped and b.is_stopped and c.is_stopped,
             'the source is not stopped when its last reader is closed')
    s.end()
    sa.check(s.closes == 1 and s.state == 'closed', 'the source is not closed when the run ends')
    b.close()
    sa.check(s.closes == 1, 'the source is closed again')


def prove_every_way_of_closing():
    s = Shared()
    a, b = opened(s, 2)
    how = sa.choose(3, 'how')
    if how == 0:
        with a as x:
            sa.check(x is a, 'entering a reader does not give the reader')
            sa.check(not a.is_stopped, 'the source is stopped while a reader is open')
    elif how == 1:
        try:
            with a:
                raise sa.user_error('in the block')
        except sa.UserError:
            pass
    else:
        a.exit()
    sa.check(not b.is_stopped, 'the source is stopped while a reader is open')
    a.close()
    sa.check(not b.is_stopped, 'closing a reader twice counts twice')
    with b:
        pass
    sa.check(b.is_stopped, 'the source is not stopped when its last reader is closed')


def prove_reopened():
    """a reader opened after everything was closed: a new run with a buffer of its own"""
    s = Shared()
    a = s.open_reader()
    a.close()
    s.src, s.i = sa.items('more', order='key', strict=True), 0
    b = s.open_reader()
    sa.check(s.opens == 2 and s.closes == 1, 'opening a reader after everything was closed does not '
             'start the source again')
    sa.check(not b.is_same_buffer(a), 'the buffer of the new run is the old one')
    sa.check(len(b.contents()) == 0, 'the buffer of the new run is not empty')
    sa.check(a.is_stopped and not b.is_stopped, 'only the new run is running')
    a.close()
    sa.check(not b.is_stopped, 'closing a reader of an earlier run stops the current one')
    s.c.run()
    sa.check(sa.same_items(b.contents(), s.src[:s.i]), 'the new run does not hold its items')


def prove_independent():
    """the readers of one source do not count for another"""
    s, t = Shared(), Shared()
    if sa.flag('two'):
        x = s.open_reader()
    a, b = s.open_reader(), t.open_reader()
    sa.check(s.opens == 1 and t.opens == 1, 'opening the first reader does not start the source')
    b.close()
    sa.check(not a.is_stopped and b.is_stopped, 'closing a reader of one source stops another')


def prove_failed_open():
    """a reader that could not be opened does not count"""
    s = Shared(('open', 'info'), thread_faults=True)
    kind, v = attempt(s.open_reader)
    s.faults = ()
    s.c.fail_thread = False
    if kind == 'ok':
        v.close()
        sa.check(v.is_stopped, 'the source is not stopped when its last reader is closed')
        return
    a = s.open_reader()
    sa.check(not a.is_stopped and s.state == 'open', 'after a failed open no reader can be opened')
    b = s.open_reader()
    a.close()
    sa.check(not b.is_stopped, 'the source is stopped while a reader is open')
    b.close()
    sa.check(b.is_stopped, 'the source is not stopped when its last reader is closed')


def prove_buffer_is_filled_while_open():
    """the items read are in the buffer of each reader, the run goes on while one is open"""
    s = Shared()
    a = s.open_reader()

    def look(ev):
        s.c.running = False
        if sa.flag('another reader meanwhile'):
            b = s.open_reader()
            sa.check(b.is_same_buffer(a) and s.opens == 1, 'readers of one run do not share their buffer')
            b.close()
            sa.check(not a.is_stopped, 'the source is stopped while a reader is open')
        s.c.running = True
    s.c.on_look = look
    s.c.run()
    sa.check(sa.same_items(a.contents(), s.src[:s.i]), 'the buffer does not hold the items read')


def prove_closing_again_meanwhile():
    """another thread closes the same reader again while the first close is under way"""
    s = Shared()
    r = s.open_reader()
    pause = s.pause

    def again(d):
        pause(d)
        if not s.c.running and not s.twice:
            s.twice = True
            kind, v = elsewhere(r.close)
            sa.check(kind != 'error', 'closing a reader again fails')
    s.twice = False
    sa.set_env('sleep', again)
    r.close()
    s.twice = True
    sa.check(r.is_stopped, 'the source is not stopped when its last reader is closed')
    one = s.open_reader()
    two = s.open_reader()
    one.close()
    sa.check(not two.is_stopped, 'the source is stopped while a reader is open')
    two.close()
    sa.check(two.is_stopped, 'the source is not stopped when its last reader is closed')
