import sa


class Lock:
    def __init__(self):
        self._sa_locked = False

    def acquire(self, blocking=True, timeout=-1):
        sa.event('lock_acquire', self)
        if self._sa_locked:
            if not blocking or (timeout is not None and timeout != -1):
                return False
            sa.blocked(self)
        self._sa_locked = True
        sa.event('lock_acquired', self)
        return True

    def release(self):
        if not self._sa_locked:
            raise RuntimeError('release unlocked lock')
        self._sa_locked = False
        sa.event('lock_release', self)

    def locked(self):
        return self._sa_locked

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()


class RLock:
    def __init__(self):
        self._sa_count = 0
        self._sa_owner = None

    def acquire(self, blocking=True, timeout=-1):
        me = sa.mon('thread')
        if self._sa_count == 0:
            sa.event('lock_acquire', self)
            sa.event('lock_acquired', self)
        elif self._sa_owner != me:
            if not blocking or (timeout is not None and timeout != -1):
                return False
            sa.blocked(self)
        self._sa_owner = me
        self._sa_count += 1
        return True

    def release(self):
        if self._sa_count == 0 or self._sa_owner != sa.mon('thread'):
            raise RuntimeError('cannot release un-acquired lock')
        self._sa_count -= 1
        if self._sa_count == 0:
            self._sa_owner = None
            sa.event('lock_release', self)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()


class Semaphore:
    def __init__(self, value=1):
        if value < 0:
            raise ValueError('semaphore initial value must be >= 0')
        self._sa_value = value

    def acquire(self, blocking=True, timeout=None):
        sa.event('lock_acquire', self)
        if self._sa_value == 0:
            if not blocking or timeout is not None:
                return False
            sa.blocked(self)
        self._sa_value -= 1
        sa.event('lock_acquired', self)
        return True

    def release(self, n=1):
        self._sa_value += n
        sa.event('lock_release', self)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()


class BoundedSemaphore(Semaphore):
    pass


class Event:
    def __init__(self):
        self._sa_flag = False
        self._sa_env = sa.env('stop')

    def is_set(self):
        sa.event('is_set', self)
        if not self._sa_flag and self._sa_env is not None:
            self._sa_env(self)
        return self._sa_flag

    isSet = is_set

    def set(self):
        self._sa_flag = True
        sa.event('event_set', self)

    def clear(self):
        self._sa_flag = False
        sa.event('event_clear', self)

    def wait(self, timeout=None):
        sa.event('event_wait', self, timeout)
        if not self._sa_flag and self._sa_env is not None:
            self._sa_env(self)
        if not self._sa_flag and timeout is not None:
            # (as a pause that the event may end early)
            sa.event('sleep', timeout)
            f = sa.env('sleep')
            if f is not None:
                f(timeout)
            if self._sa_env is not None:
                self._sa_env(self)
            return self._sa_flag
        if not self._sa_flag:
            sa.blocked(self)
        return True


class Condition:
    def __init__(self, lock=None):
        self._sa_lock = RLock() if lock is None else lock
        self.acquire, self.release = self._sa_lock.acquire, self._sa_lock.release

    def __enter__(self):
        return self._sa_lock.__enter__()

    def __exit__(self, *exc):
        return self._sa_lock.__exit__(*exc)

    def wait(self, timeout=None):
        sa.event('cond_wait', self)
        self._sa_lock.release()
        sa.blocked(self)

    def wait_for(self, predicate, timeout=None):
        while not predicate():
            self.wait(timeout)
        return True

    def notify(self, n=1):
        pass

    def notify_all(self):
        pass


class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name, self.daemon = name, daemon
        self._sa_started = self._sa_finished = self._sa_running = False
        self._sa_error = None

    def start(self):
        if self._sa_started:
            raise RuntimeError('threads can only be started once')
        f = sa.env('thread_start')
        if f is not None:
            f(self)
        self._sa_started = True
        sa.event('thread_start', self)

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def _sa_run(self):
        """the whole life of the thread"""
        self._sa_running = True
        try:
            self.run()
        except BaseException as e:
            self._sa_error = e
        self._sa_running = False
        self._sa_finished = True

    def is_alive(self):
        if self._sa_started and not self._sa_finished:
            f = sa.env('is_alive')
            if f is not None:
                f(self)
        return self._sa_started and not self._sa_finished

    def join(self, timeout=None):
        if not self._sa_started:
            raise RuntimeError('cannot join thread before it is started')
        sa.event('join', self, timeout)
        if not self._sa_finished:
            f = sa.env('join')
            if f is not None:
                f(self, timeout)
            elif self._sa_running:
                raise RuntimeError('cannot join current thread')

    @property
    def ident(self):
        return 1 if self._sa_started else None


class Timer(Thread):
    pass


class local:
    pass


def current_thread():
    return Thread(name='current')


def get_ident():
    return 1


def main_thread():
    return Thread(name='main')
