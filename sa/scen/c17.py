"""Iteration ends only once the stream was stopped and then found drained."""
import sa
from scen.common import attempt, odd_reader
from scen.live import Live

MONITORS = ('looked',)


def some_opts():
    c = sa.choose(3, 'options')
    return ({}, {'ignore_no_item_found': True}, {'ignore_no_item_found': False})[c]


def prove_next():
    w = Live(some_opts())
    try:
        v = next(w.reader)
    except StopIteration:
        sa.check(w.stopped, 'next ends the iteration although the stream is running')
        sa.check(w.pos >= w.h, 'next ends the iteration although an item is left')
        return
    if v is None:
        sa.check(w.pos >= w.h, 'next returns None although an item is available')
    else:
        sa.check(w.pos < w.h and sa.same(v, w.src[w.pos]), 'next does not return the next item')


def prove_next_of_a_running_stream():
    w = Live(some_opts(), endless=True)
    try:
        v = next(w.reader)
    except StopIteration:
        sa.fail('next ends the iteration of a stream that is running')
    sa.check((v is None) == (w.pos >= w.h), 'next of a running stream: None exactly without items')


def prove_next_after_stop():
    w = Live(some_opts())
    w.stop()
    try:
        v = next(w.reader)
    except StopIteration:
        sa.check(w.pos >= w.h, 'next ends the iteration although an item is left')
        return
    sa.check(w.pos < w.h, 'next of a drained and stopped stream does not end the iteration')
    sa.check(v is not None and sa.same(v, w.src[w.pos]), 'next does not return the next item')


def prove_next_many():
    size = sa.integer('size', 2)
    w = Live({'read_size': size})
    try:
        v = next(w.reader)
    except StopIteration:
        sa.check(w.drained(), 'next ends the iteration although an item is left')
        return
    if v is None:
        sa.check(w.pos >= w.h, 'next returns None although an item is available')
    else:
        sa.check(w.pos < w.h and sa.same_items(v, w.src[w.pos:min(w.pos + size, w.h)]),
                 'next does not return the next items')


def steps(w, one, rounds):
    """the first results of a for loop; the cursor, the contents and the state of the stream are
    arbitrary before each of them"""
    it = iter(w.reader)
    for i in range(rounds):
        try:
            x = next(it)
        except StopIteration:
            sa.check(w.drained(), 'a for loop ends although the stream runs or an item is left')
            return
        sa.check(x is not None, 'a for loop gets None')
        one(x)
        w.lookups = 0
        w.act()


def item(w):
    def one(x):
        sa.check(w.pos < w.h and sa.same(x, w.src[w.pos]),
                 'a for loop does not get the next item (skipped or repeated)')
        w.pos += 1
    return one


def items(w, size):
    def one(x):
        end = min(w.pos + size, w.h)
        sa.check(w.pos < w.h and sa.same_items(x, w.src[w.pos:end]),
                 'a for loop does not get the next items')
        w.pos = end
    return one


def prove_for_loop():
    w = Live(some_opts())
    steps(w, item(w), 1)


def prove_for_loop_again():
    w = Live()
    steps(w, item(w), 2)


def prove_for_loop_many():
    size = sa.integer('size', 2)
    w = Live({'read_size': size})
    steps(w, items(w, size), 1)


def deep_for_loop_many():
    size = sa.integer('size', 2)
    w = Live({'read_size': size})
    steps(w, items(w, size), 2)


def deep_for_loop():
    w = Live()
    one = item(w)
    for x in w.reader:
        sa.check(x is not None, 'a for loop gets None')
        one(x)
        w.lookups = 0
    sa.check(w.drained(), 'a for loop ends although the stream runs or an item is left')


def deep_for_loop_three():
    w = Live(some_opts())
    steps(w, item(w), 3)


def prove_for_loop_peeking():
    w = Live({'peek': True})
    for x in w.reader:
        sa.check(x is not None, 'a for loop gets None')
        sa.check(w.pos < w.h and sa.same(x, w.src[w.pos]), 'peeking does not give the next item')
        return
    sa.check(w.drained(), 'a for loop ends although the stream runs or an item is left')


def prove_full_buffer():
    """(its length stays the same) a fruitless next and another one"""
    w = Live(some_opts(), full=True)
    for i in range(2):
        try:
            v = next(w.reader)
        except StopIteration:
            sa.check(w.drained(), 'next ends the iteration although an item is left')
            return
        if v is not None:
            sa.check(w.pos < w.h and sa.same(v, w.src[w.at()]), 'next does not return the next item')
            return
        sa.check(w.pos >= w.h, 'next returns None although an item is available')
        w.lookups = 0


def prove_for_loop_over_a_full_buffer():
    w = Live(full=True)
    for v in w.reader:
        sa.check(w.pos < w.h and sa.same(v, w.src[w.at()]), 'the loop does not yield the next item')
        w.pos = w.h
        w.lookups = 0
    sa.check(w.drained(), 'the loop ends although an item is left')


def prove_items_with_comparisons_of_their_own():
    """arrays; objects that are equal to everything"""
    many = sa.flag('many')
    items, r = odd_reader(2, {'read_size': 2} if many else {}, stopped=True)
    loop = sa.flag('for loop')
    got = []
    if loop:
        kind, v = attempt(lambda: got.extend(r))
    else:
        def all_next():
            got.append(next(r))
            if not many:
                got.append(next(r))
        kind, v = attempt(all_next)
    sa.check(kind == 'ok', 'an item with comparisons of its own makes the iteration fail')
    if many:
        sa.check(len(got) == 1, 'an item with comparisons of its own is not delivered')
        got = got[0]
    sa.check(len(got) == 2, 'an item with comparisons of its own is not delivered')
    sa.check(got[0] is items[0] and got[1] is items[1], 'other items are delivered')
