"""Shared buffer data is only touched under the matching lock."""
import sa
from scen.common import attempt
from scen.guarded import *

MONITORS = ('holds', 'accesses')


def prove_read():
    op_read(Guarded(faults=True))


def prove_range():
    op_range(Guarded())


def prove_range_faults():
    op_range(Guarded(faults=True))


def prove_ends():
    op_ends(Guarded(faults=True))


def prove_next():
    op_next(Guarded(faults=True))


def prove_other():
    op_other(Guarded())


def prove_iteration():
    op_iterate(Guarded())


def prove_loop():
    op_loop()


def prove_bounded_loop():
    op_bounded_loop()


def deep_bounded_loop():
    op_bounded_loop(sa.integer('maxlen', 1))


def deep_range():
    op_range_all(Guarded(faults=True))


def prove_restart():
    op_restart()


def prove_blocks():
    direct(Guarded(), sa.flag('exclusive'))


def prove_exclusive_blocks_change():
    """every change of the buffer's data needs the exclusive block"""
    g = Guarded()
    x = sa.sym('x', 'item')
    with g.buffer.writer_lock() as b:
        k = sa.choose(3, 'what')
        if k == 0:
            attempt(b.append, x)
        elif k == 1:
            attempt(b.drop, 1)
        else:
            b.clear()
    none_held('access to the buffer is not given back at the end of an operation')
