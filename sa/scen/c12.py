"""The cursor of a reader."""
import sa
from scen.common import World, attempt, odd_reader


def given(kw, name, lab):
    c = sa.choose(3, lab)
    if c:
        kw[name] = c == 1
    return kw


def after(w, peek, kind, v, many):
    if kind != 'ok' or v is None or many and len(v) == 0:
        sa.check(w.cursor_unchanged(), 'the cursor moves although nothing was returned')
    elif peek:
        sa.check(w.cursor_unchanged(), 'the cursor moves although only peeking')
    else:
        sa.check(w.cursor_is(v[-1] if many else v), 'the cursor is not the last item returned')


def prove_read():
    w = World()
    peek = sa.flag('peek')
    kw = {'peek': peek}
    given(kw, 'ignore_no_item_found', 'ignore')
    kind, v = attempt(w.reader.read, **kw)
    after(w, peek, kind, v, False)


def prove_read_many():
    w = World()
    peek = sa.flag('peek')
    kw = {'peek': peek}
    given(kw, 'strict_n', 'strict')
    kw['ignore_no_item_found'] = sa.flag('ignore')
    n = sa.integer('n', 2)
    kind, v = attempt(w.reader.read, n, **kw)
    after(w, peek, kind, v, True)


def prove_read_defaults():
    peek = sa.flag('peek')
    n = sa.integer('n', 1)
    w = World(opts={'read_size': n, 'peek': peek, 'strict_n': sa.flag('strict')})
    if sa.flag('next'):
        kind, v = attempt(next, w.reader)
    else:
        kind, v = attempt(w.reader.read)
    after(w, peek, kind, v, not (n == 1))


def prove_deprecated_next():
    w = World()
    peek = sa.flag('peek')
    n = sa.integer('n', 1)
    kind, v = attempt(w.reader.next, n, peek=peek, ignore_no_item_found=sa.flag('ignore'))
    after(w, peek, kind, v, not (n == 1))


def ranged(peek, **kw):
    w = World()
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    kind, v = attempt(w.reader.range, a, b, peek=peek, ignore_no_item_found=sa.flag('ignore'), **kw)
    after(w, peek, kind, v, True)


def prove_range_moves():
    ranged(False, only_new_items=sa.flag('only new'))


def prove_range_peeks():
    ranged(True, only_new_items=sa.flag('only new'))


def prove_range_rounded_moves():
    ranged(False, start_le=sa.flag('start_le'), stop_ge=sa.flag('stop_ge'))


def prove_range_rounded_peeks():
    ranged(True, start_le=True, stop_ge=True)


def deep_range_all():
    ranged(sa.flag('peek'), only_new_items=True, start_le=sa.flag('start_le'),
           stop_ge=sa.flag('stop_ge'))


def prove_range_step():
    w = World()
    peek = sa.flag('peek')
    a, b = sa.sym('start', 'key'), sa.sym('stop', 'key')
    kw = {'ignore_no_item_found': sa.flag('ignore')}
    if sa.flag('peek given') or peek:
        kw['peek'] = peek
    step = 2 if sa.flag('two') else 3
    kind, v = attempt(w.reader.range, a, b, step, **kw)
    after(w, peek, kind, v, True)


def prove_tail():
    w = World()
    peek = sa.flag('peek')
    kw = {'peek': peek, 'ignore_no_item_found': sa.flag('ignore'), 'only_new_items': sa.flag('new')}
    kind, v = attempt(w.reader.tail, **kw)
    after(w, peek, kind, v, False)


def prove_head():
    w = World()
    peek = sa.flag('peek')
    kind, v = attempt(w.reader.head, peek=peek)
    after(w, peek, kind, v, False)


def prove_unpeeked_by_default():
    w = World()
    c = sa.choose(3, 'operation')
    if c == 0:
        kind, v = attempt(w.reader.head)
    elif c == 1:
        kind, v = attempt(w.reader.tail)
    else:
        kind, v = attempt(w.reader.read)
    after(w, False, kind, v, False)
    if c == 0:
        kind, v = attempt(w.reader.range, sa.sym('a', 'key'), sa.sym('b', 'key'))
        if kind == 'ok':
            sa.check(w.cursor_is(v[-1]), 'the cursor is not the last item of the range returned')


def prove_bad_key():
    """a key function that fails leaves the cursor as it was"""
    w = World()
    del w.reader.last_item
    sa.check(w.cursor_is(None), 'deleting the cursor does not reset it')


class Failing:
    """the key function of the user"""

    def __init__(self):
        self.armed = False

    def __call__(self, x):
        if self.armed and sa.flag('key function fails'):
            raise sa.user_error('key', True, sa.flag('an Exception'))
        return sa.key(x)


def prove_key_fails():
    """whatever call of the key function fails, an operation that fails leaves the cursor"""
    f = Failing()
    w = World(key=f)
    f.armed = True
    op = sa.choose(5, 'operation')
    peek = sa.flag('peek')
    many = False
    if op == 0:
        kind, v = attempt(w.reader.read, peek=peek)
    elif op == 1:
        many = True
        kind, v = attempt(w.reader.read, sa.integer('n', 2), peek=peek)
    elif op == 2:
        many = True
        kind, v = attempt(w.reader.range, sa.sym('start', 'key'), sa.sym('stop', 'key'), peek=peek)
    elif op == 3:
        kind, v = attempt(w.reader.tail, peek=peek, only_new_items=sa.flag('only new'))
    else:
        kind, v = attempt(w.reader.head, peek=peek)
    f.armed = False
    after(w, peek, kind, v, many)


def prove_items_with_comparisons_of_their_own():
    """arrays; objects that are equal to everything"""
    items, r = odd_reader(2)
    moves = (lambda: r.read(), lambda: r.head(), lambda: r.tail(), lambda: r.range(0, 1),
             lambda: r.read(2))
    for i in range(2):
        k = sa.choose(5, 'operation')
        before, key = r.last_item, r.last_key
        kind, v = attempt(moves[k])
        if kind == 'error':
            sa.check(i == 1 and k in (0, 4), 'a read operation on arrays fails')
            sa.check(r.last_item is before and r.last_key == key, 'an operation that fails moves the cursor')
            continue
        last = v[-1] if k in (3, 4) else v
        sa.check(r.last_item is last, 'the last item seen is not the last one returned')
        sa.check(r.last_key == last.n, 'the last key seen is not that of the last item returned')
