"""Programs of threads that use the reader-writer lock (followed by sa/rwlock.py)."""
import operator
from stream2py.utility.reader_writer_lock import RWLock
from stream2py.utility.locked_sorted_deque import RWLockSortedDeque


def inside():
    pass


def leaving():
    pass


class BlockFailed(Exception):
    pass


def make_plain():
    return RWLock()


def make_deque():
    return RWLockSortedDeque([], key=operator.itemgetter(0), maxlen=10)


def plain_reader(lock):
    lock.reader_acquire()
    inside()
    leaving()
    lock.reader_release()


def plain_writer(lock):
    lock.writer_acquire()
    inside()
    leaving()
    lock.writer_release()


def with_reader(lock):
    with lock.reader_lock():
        inside()
        leaving()


def with_writer(lock):
    with lock.writer_lock():
        inside()
        leaving()


def failing_reader(lock):
    try:
        with lock.reader_lock():
            inside()
            leaving()
            raise BlockFailed()
    except BlockFailed:
        return


def failing_writer(lock):
    try:
        with lock.writer_lock():
            inside()
            leaving()
            raise BlockFailed()
    except BlockFailed:
        return
