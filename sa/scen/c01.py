"""Every opened source is closed exactly once, and read only while open."""
import sa
from scen.stream import Spy, Clock, StreamBuffer


class Source(Spy):
    def on_open(self):
        sa.check(self.state == 'closed', 'the source is opened while it is open')

    def on_read(self):
        sa.check(self.state == 'open', 'the source is read although it is not open')

    def on_close(self):
        sa.check(self.state == 'open', 'the source is closed although it is not open (closed twice, '
                 'or never opened)')


def started(faults, fail_thread=False, **kw):
    s = Source(faults)
    c = Clock(s)
    c.fail_thread = fail_thread
    kw.setdefault('maxlen', None)
    sb = StreamBuffer(s, **kw)
    try:
        sb.start()
        ok = True
    except BaseException as e:
        ok = False
    return s, c, sb, ok


def finished(s, c, sb, ok):
    if not ok:
        sa.check(s.state == 'closed', 'a failed start leaves the source open')
        sa.check(s.opens == s.closes, 'a failed start does not close the source it opened')
        sa.check(not c.threads, 'a failed start leaves a thread that reads')
        return
    sa.check(s.state == 'open' and s.closes == 0, 'the source is not open after the start')
    c.run()
    sa.check(s.state == 'closed', 'the source is still open after the run')
    sa.check(s.closes == 1, 'the source is not closed exactly once in a run')


def prove_run():
    finished(*started(('open', 'info', 'read', 'close')))


def prove_run_interrupted():
    """(SystemExit, KeyboardInterrupt, ...)"""
    finished(*started(('open', 'info', 'read', 'exit')))


def prove_run_rejecting():
    finished(*started(('reject', 'close')))


def prove_thread_refused():
    finished(*started(('open', 'close'), fail_thread=True))


def prove_manual_drop():
    s, c, sb, ok = started(('read',), auto_drop=False, maxlen=2)
    finished(s, c, sb, ok)


def prove_stop_by_the_owner():
    """stop() before, while or after the loop runs; a repeated stop"""
    s, c, sb, ok = started(('read', 'close'))
    when = sa.choose(2, 'stopped when')
    if when == 0:
        sb.stop()
        c.run()
    else:
        c.run()
        sb.stop()
    sa.check(s.closes == 1 and s.state == 'closed', 'the source is not closed exactly once in a run')
    sb.stop()
    sa.check(s.closes == 1, 'a repeated stop closes the source again')


def prove_reading_at_once():
    """the reading thread runs before start returns"""
    s = Source(('read',))
    c = Clock(s)
    sa.mon('blocked_raises', True)

    def eager(t):
        c.threads.append(t)
        t._sa_started = True
        c.run()
        t._sa_started = False
    sa.set_env('thread_start', eager)
    sb = StreamBuffer(s, maxlen=None)
    try:
        sb.start()
    except sa.Blocked:
        sa.stop()
    except Exception:
        sa.fail('the start fails when the reading thread is fast')
    sa.check(s.closes == 1 and s.state == 'closed', 'the source is not closed exactly once in a run')


def prove_second_run():
    s, c, sb, ok = started(())
    sb.stop()
    c.run()
    sb.start()
    sa.check(s.state == 'open' and s.opens == 2, 'the second start does not open the source once')
    c.run()
    sa.check(s.closes == 2 and s.state == 'closed', 'the source is not closed exactly once in a run')


def prove_failed_start_repeated():
    s, c, sb, ok = started(('info',))
    if ok:
        sa.stop()
    s.faults = ()
    sb.start()
    sa.check(s.state == 'open', 'the source is not open after the second start')
    c.run()
    sa.check(s.state == 'closed' and s.opens == s.closes, 'the source is not closed exactly once')


def prove_second_start_fails():
    """after a run that ended in any way"""
    s, c, sb, ok = started(('read', 'close') if sa.flag('faults before') else ())
    if not ok:
        sa.stop()
    if sa.flag('stopped'):
        sb.stop()
    c.run()
    before = s.opens
    s.faults = ('open', 'info')
    c.fail_thread = True
    try:
        sb.start()
        ok = True
    except Exception:
        ok = False
    if ok:
        s.faults = ('read',)
        c.run()
    sa.check(s.state == 'closed', 'a failed start leaves the source open')
    sa.check(s.opens == s.closes, 'the source is not closed exactly once in a run')
    sa.check(s.opens <= before + 1, 'a start opens the source more than once')
