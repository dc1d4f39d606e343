"""No thread waits, sleeps or re-enters while holding buffer access."""
import sa
from scen.common import attempt
from scen.guarded import *

MONITORS = ('holds', 'waits')


def prove_read():
    op_read(Guarded(faults=True))


def prove_range():
    op_range(Guarded())


def prove_ends():
    op_ends(Guarded(faults=True))


def prove_next():
    op_next(Guarded())


def prove_other():
    op_other(Guarded())


def prove_iteration():
    op_iterate(Guarded())


def prove_loop():
    op_loop()


def prove_bounded_loop():
    op_bounded_loop()


def deep_bounded_loop():
    op_bounded_loop(sa.integer('maxlen', 1))


def deep_range():
    op_range_all(Guarded(faults=True))


def prove_restart():
    op_restart()


def prove_blocking_read():
    """any number of fruitless looks"""
    g = Guarded()

    def act(ev):
        if sa.flag('stopped'):
            ev.set()
    sa.set_env('stop', act)
    g.event._sa_env = act
    kind, v = attempt(g.reader.read, n=2, blocking=True, strict_n=sa.flag('strict'))
    none_held('access to the buffer is not given back at the end of an operation')


def prove_waiting_iteration():
    g = Guarded()

    def act(ev):
        if sa.flag('stopped'):
            ev.set()
    g.event._sa_env = act
    k = 0
    for x in g.reader:
        none_held('a value is handed out while access to the buffer is held')
        k += 1
        if k == 2:
            break
    none_held('access to the buffer is not given back at the end of an operation')
