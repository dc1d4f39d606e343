from functools import wraps


class ContextDecorator:
    def _recreate_cm(self):
        return self

    def __call__(self, func):
        @wraps(func)
        def inner(*args, **kwds):
            with self._recreate_cm():
                return func(*args, **kwds)

        return inner


class AbstractContextManager:
    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc_value, traceback):
        return None


class _GeneratorContextManager(ContextDecorator):
    def __init__(self, func, args, kwds):
        self.gen = func(*args, **kwds)
        self.func, self.args, self.kwds = func, args, kwds

    def _recreate_cm(self):
        return self.__class__(self.func, self.args, self.kwds)

    def __enter__(self):
        del self.args, self.kwds, self.func
        try:
            return next(self.gen)
        except StopIteration:
            raise RuntimeError("generator didn't yield")

    def __exit__(self, typ, value, traceback):
        if typ is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        if value is None:
            value = typ()
        try:
            self.gen.throw(value)
        except BaseException as exc:
            if exc is value:
                return False
            if getattr(exc, '_sa_from', None) is value:
                return False
            if isinstance(exc, StopIteration):
                return True
            raise
        raise RuntimeError("generator didn't stop after throw()")


def contextmanager(func):
    @wraps(func)
    def helper(*args, **kwds):
        return _GeneratorContextManager(func, args, kwds)

    return helper


class closing(AbstractContextManager):
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *exc_info):
        self.thing.close()


class suppress(AbstractContextManager):
    def __init__(self, *exceptions):
        self._exceptions = exceptions

    def __enter__(self):
        pass

    def __exit__(self, exctype, excinst, exctb):
        return exctype is not None and isinstance(excinst, self._exceptions)


class nullcontext(AbstractContextManager):
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *excinfo):
        pass


class ExitStack(AbstractContextManager):
    def __init__(self):
        self._exit_callbacks = []

    def enter_context(self, cm):
        r = cm.__enter__()
        self._exit_callbacks.append(cm.__exit__)
        return r

    def push(self, exit):
        e = getattr(exit, '__exit__', None)
        self._exit_callbacks.append(exit if e is None else e)
        return exit

    def callback(self, callback, *args, **kwds):
        def _exit(exc_type, exc, tb):
            callback(*args, **kwds)

        self._exit_callbacks.append(_exit)
        return callback

    def pop_all(self):
        n = type(self)()
        n._exit_callbacks = self._exit_callbacks
        self._exit_callbacks = []
        return n

    def close(self):
        self.__exit__(None, None, None)

    def __enter__(self):
        return self

    def __exit__(self, *exc_details):
        exc = exc_details[1]
        left = self._unwind(exc)
        if left is None:
            return exc is not None
        if left is not exc:
            raise left
        return False

    def _unwind(self, exc):
        """calls the callbacks, last first; returns the exception that is left
        (by recursion: a loop would join the states of all callers)"""
        if not self._exit_callbacks:
            return exc
        cb = self._exit_callbacks.pop()
        try:
            if cb(None if exc is None else type(exc), exc, None):
                exc = None
        except BaseException as e:
            exc = e
        return self._unwind(exc)
