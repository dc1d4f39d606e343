"""Host side monitors: what they record goes to the state (st.mon), as part of the loop invariants."""
from .program import Hook
from .state import Cut


def install(prog, name):
    MONITORS[name](prog)


def env(I, name, *args):
    f = I.st.mon.get('env:' + name)
    if f is not None:
        I.call(f, list(args))


def looked(prog):
    """every read access to the shared buffer calls the environment 'looked'"""
    prog.hooks[('RWLock', 'reader_acquire')] = Hook(enter=lambda I, *a: env(I, 'looked'))


def oblige(I, ok, msg, what=None):
    I.st.obligations += 1
    I.prog.sites.add(msg)
    if not ok:
        I.fail(msg if what is None else '%s (%s)' % (msg, what))
        raise Cut('failed')


def holds(prog):
    """mon['held']: the accesses to buffers (lock, kind) that the current thread holds;
    mon['inside']: it is inside an operation of a buffer's lock"""
    def me(I):
        return I.st.mon.get('thread')

    def into(I):
        I.st.mon['inside'] = I.st.mon.get('inside', 0) + 1

    def out(I):
        I.st.mon['inside'] -= 1

    def acquire(kind):
        def enter(I, f, a, k):
            if not I.st.mon.get('inside'):
                for (lock, _, who) in I.st.mon.get('held', ()):
                    if who == me(I):
                        oblige(I, lock is not a[0], 'access to a buffer is requested again by a '
                               'thread that holds it')
            into(I)

        def leave(I, f, a, k, r, exc):
            out(I)
            if exc is None:
                I.st.mon['held'] = I.st.mon.get('held', ()) + ((a[0], kind, me(I)),)
        return Hook(enter=enter, exit=leave)

    def release(kind):
        def enter(I, f, a, k):
            h = list(I.st.mon.get('held', ()))
            for x in h:
                if x[0] is a[0] and x[1] == kind and x[2] == me(I):
                    h.remove(x)
                    break
            else:
                oblige(I, False, 'an access to a buffer is given back that is not held')
            oblige(I, True, 'an access to a buffer is given back that is not held')
            I.st.mon['held'] = tuple(h)
            into(I)

        def leave(I, f, a, k, r, exc):
            out(I)
        return Hook(enter=enter, exit=leave)
    prog.hooks[('RWLock', 'reader_acquire')] = acquire('r')
    prog.hooks[('RWLock', 'writer_acquire')] = acquire('w')
    prog.hooks[('RWLock', 'reader_release')] = release('r')
    prog.hooks[('RWLock', 'writer_release')] = release('w')


def held(I):
    w = I.st.mon.get('thread')
    return [k for (_, k, who) in I.st.mon.get('held', ()) if who == w]


def accesses(prog):
    """guarded data is only touched under the matching lock"""
    def seen(I, name, args):
        if name != 'access':
            return
        tag, mode, what = args
        if mode == 'r':
            oblige(I, held(I), 'the shared buffer is inspected without access to it', what)
        elif mode == 'w':
            oblige(I, 'w' in held(I), 'the shared buffer is changed without exclusive access to it', what)
    prog.monitors.append(seen)


def waits(prog):
    """nothing that takes time happens while access is held"""
    what = {'sleep': 'a pause', 'event_wait': 'a wait for an event', 'join': 'a wait for a thread',
            'cond_wait': 'a wait for a condition', 'lock_acquire': 'a wait for another lock',
            'open': 'a file is opened', 'urlopen': 'a request is sent'}

    def seen(I, name, args):
        if name in what and not I.st.mon.get('inside'):
            oblige(I, not held(I), 'a thread waits while it holds access to a buffer', what[name])
    prog.monitors.append(seen)


MONITORS = {'looked': looked, 'holds': holds, 'accesses': accesses, 'waits': waits}
