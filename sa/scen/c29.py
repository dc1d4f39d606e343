"""Iterating a source yields exactly its valid data, in order."""
import sa
from scen.common import odd_items
from stream2py.source_reader import SourceReader, QuickSourceReader
from stream2py.stream_source import StreamSource

FALSE = (0, 0.0, False, '', (), b'')


class Reads:
    """a source whose reads give anything; pending: the valid data read but not yet given out"""

    def prepare(self):
        self.pending = None
        self.fruitless = False
        self.false_data = False
        sa.set_env('sleep', self.slept)
        return self

    def slept(self, d):
        sa.check(self.pending is None, 'valid data is passed over')
        self.fruitless = False

    def read(self):
        sa.check(self.pending is None, 'valid data is passed over')
        if sa.flag('no data'):
            self.fruitless = True
            return None
        if self.false_data:
            v = FALSE[sa.choose(len(FALSE), 'data')]
        else:
            v = sa.sym('data', 'any')
            sa.assume(v is not None)
        self.pending = (v,)
        return v

    def given(self, x):
        sa.check(self.pending is not None, 'data is given out that was not read')
        sa.check(x is self.pending[0], 'the data given out is not the data read')
        self.pending = None

    def open(self):
        pass

    def close(self):
        pass

    def key(self, x):
        return x


class A(Reads, SourceReader):
    pass


class B(Reads, QuickSourceReader):
    pass


class C(Reads, StreamSource):
    pass


def a_source():
    return (A, B, C)[sa.choose(3, 'kind of source')]().prepare()


def prove_iteration():
    s = a_source()
    s.false_data = sa.flag('false data')
    for x in s:
        s.given(x)
    sa.fail('the iteration ends')


def prove_begins_reading_when_asked():
    """nothing is read and lost when the iteration is left and begun again"""
    s = a_source()
    for x in s:
        s.given(x)
        break
    for x in s:
        s.given(x)
        break
    it = iter(s)
    sa.check(s.pending is None, 'making an iterator loses data')
    s.given(next(it))
    s.given(next(iter(s)))


def prove_no_data_waits():
    """a read without data: the iteration goes on"""
    s = a_source()
    first = [True]
    read = s.read

    def none_first():
        if first[0]:
            first[0] = False
            return None
        return read()
    s.read = none_first
    for x in s:
        s.given(x)
        break


def prove_default_interval():
    """a source whose interval nobody configured"""
    s = a_source()
    naps = []
    sa.set_env('sleep', lambda d: naps.append(d))
    s.read = lambda: None if len(naps) == 0 else 1
    for x in s:
        sa.check(x == 1, 'the data given out is not the data read')
        break
    sa.check(len(naps) == 1, 'a missing value does not make the iteration wait')


class Picky(QuickSourceReader):
    """its own test of what is valid; rejected: the data to be handed to the hook"""

    def prepare(self):
        self.pending = None
        self.rejected = None
        self.tested = None
        return self

    def is_valid_data(self, x):
        if x is None:
            return self.none_is_valid
        return sa.apply('valid', x, 'bool')

    def read(self):
        sa.check(self.pending is None, 'valid data is passed over')
        sa.check(self.rejected is None, 'rejected data is not handed to the hook')
        v = None if sa.flag('none') else sa.sym('data', 'any')
        if Picky.is_valid_data(self, v):
            self.pending = (v,)
        else:
            self.rejected = (v,)
        return v

    def when_no_data(self, _next=None):
        x = _next
        sa.check(self.rejected is not None, 'the hook is called without rejected data')
        sa.check(x is self.rejected[0], 'the hook is not given the rejected data')
        self.rejected = None


def prove_own_validity():
    s = Picky().prepare()
    s.none_is_valid = sa.flag('None is valid')
    for x in s:
        sa.check(s.pending is not None and x is s.pending[0], 'invalid data is given out')
        s.pending = None
    sa.fail('the iteration ends')


def prove_default_validity():
    """without a test of its own: None is not valid, everything else is"""
    s = B().prepare()
    sa.check(not s.is_valid_data(None), 'None is valid by default')
    for v in FALSE:
        sa.check(s.is_valid_data(v), 'false data is not valid by default')
    v = sa.sym('data', 'any')
    sa.assume(v is not None)
    sa.check(s.is_valid_data(v), 'data is not valid by default')


def prove_hook_of_the_default():
    """only the hook is its own"""
    s = B().prepare()
    got = []
    s.when_no_data = lambda _next=None: got.append(_next)
    s.read = lambda: None if len(got) == 0 else 1
    for x in s:
        sa.check(x == 1, 'the data given out is not the data read')
        break
    sa.check(len(got) == 1 and got[0] is None, 'the hook is not given the rejected data')


def prove_data_with_comparisons_of_its_own():
    """arrays; objects that are equal to everything"""
    s = a_source()
    values = odd_items(2)
    i = [0]

    def read():
        if sa.flag('no data'):
            return None
        i[0] += 1
        return values[i[0] - 1]
    s.read = read
    sa.set_env('sleep', lambda d: sa.check(i[0] == 0, 'valid data is passed over'))
    for x in s:
        sa.check(i[0] == 1 and x is values[0], 'the data given out is not the data read')
        break
