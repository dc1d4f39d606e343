"""However reading ends, the stream is reported as stopped."""
import sa
from scen.stream import Spy, Clock, StreamBuffer


class World:
    def __init__(self, faults=(), fail_thread=False, **kw):
        w = self
        w.reader = None

        class Source(Spy):
            def on_read(self):
                sa.check(w.s.failed not in ('read', 'reject'),
                         'the source is read again after an error of reading or of storing an item')
                if not w.c.requested:
                    w.reports(True)
        w.s = Source(faults)
        w.c = Clock(w.s)
        w.c.fail_thread = fail_thread
        kw.setdefault('maxlen', None)
        w.sb = StreamBuffer(w.s, **kw)
        sa.check(not w.sb.is_running, 'a stream never started reports itself as running')
        try:
            w.sb.start()
            w.ok = True
        except BaseException:
            w.ok = False
        if w.ok:
            w.reader = w.sb.mk_reader()

    def reports(self, running):
        was, self.c.running = self.c.running, False
        if running:
            sa.check(self.sb.is_running, 'the stream reports itself as not running while it reads')
            sa.check(self.reader is None or not self.reader.is_stopped,
                     'a reader reports the stream as stopped while it reads')
        else:
            sa.check(not self.sb.is_running, 'a stream that ended reports itself as running')
            sa.check(self.reader is None or self.reader.is_stopped,
                     'a reader of a run that ended does not report it as stopped')
        self.c.running = was


def ended(w):
    if not w.ok:
        sa.check(not w.sb.is_running, 'a failed start leaves the stream reported as running')
        return
    w.reports(True)
    t = w.c.run()
    w.reports(False)
    e = t._sa_error
    if w.s.failed == 'close':
        sa.check(not isinstance(e, sa.UserError) or e.args[0] != 'close', 'a failing close escapes the reading thread')
    if w.s.failed is None:
        sa.check(e is None, 'the reading thread fails although nothing went wrong')
    sa.check(not sa.attr(w.sb.start_lock, '_sa_locked', False), 'the start lock is still held')


def prove_run():
    ended(World(('open', 'info', 'read', 'close')))


def prove_run_interrupted():
    """(SystemExit, KeyboardInterrupt, ...)"""
    ended(World(('open', 'info', 'read', 'exit')))


def prove_rejected():
    ended(World(('reject', 'close')))


def prove_thread_refused():
    ended(World(('close',), fail_thread=True))


def prove_stop_requested():
    w = World(('read', 'close'))
    sa.assume(w.ok)
    if sa.flag('before reading'):
        w.sb.stop()
        w.reports(False)
        w.c.run()
    else:
        w.c.run()
        w.sb.stop()
    w.reports(False)


def prove_readers_of_the_run():
    """readers made or attached at any time"""
    w = World(('read',))
    sa.assume(w.ok)
    early = w.sb.mk_reader(read_size=2)
    other = w.sb.mk_reader()
    w.sb.attach_reader(other)
    w.c.run()
    late = w.sb.mk_reader()
    sa.check(early.is_stopped and other.is_stopped and late.is_stopped,
             'a reader of a run that ended does not report it as stopped')


def prove_failed_restart():
    """a second start that fails"""
    w = World()
    w.c.run()
    w.s.faults = ('open', 'info')
    try:
        w.sb.start()
    except Exception:
        sa.check(not w.sb.is_running, 'a failed start leaves the stream reported as running')
        sa.check(w.reader.is_stopped, 'a reader of a run that ended does not report it as stopped')
        return
    sa.check(w.sb.is_running, 'a stream started again reports itself as not running')
    sa.check(w.reader.is_stopped, 'a reader of a run that ended does not report it as stopped')


def prove_silent_failure_of_reading():
    """errors of any kind while reading"""
    w = World(())

    def broken():
        raise sa.user_error('broken', False)
    sa.assume(w.ok)
    w.s.read = broken
    try:
        w.c.run()
    except Exception:
        pass
    w.c.running = False
    w.reports(False)
