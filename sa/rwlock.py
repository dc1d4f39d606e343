"""The reader-writer lock as a synchronisation skeleton, decided for any number of threads.

1. Extraction.  The abstract interpreter follows what a reader and a writer thread do with the lock
   object and records, per path, the visible steps: acquire / release of an underlying lock, read /
   write of an attribute that any of them writes, being inside, the end.  Values read from shared
   attributes are arbitrary (every value another thread may have left there).
2. Lockset.  For every shared attribute, the locks held at each of its accesses are intersected; a
   non-empty intersection makes its accesses atomic with the acquire before.
3. Reachable configurations of a few threads (all interleavings of the extracted steps): any that
   breaks a rule is a violation, with its interleaving.
4. Counter abstraction for any number of threads: a state is, per place of the skeleton, whether no,
   one or more threads are there, and which locks are taken; integer attributes are determined by
   the places (their changes along the skeleton are place invariants).  The fixpoint decides the
   rules for every number of threads."""
import os
import sys
import time
import traceback
from collections import deque

MODS = ('stream2py.utility.reader_writer_lock', 'stream2py.utility.locked_sorted_deque')
LOCKS = {'Lock': 'lock', 'RLock': 'rlock', 'Semaphore': 'sem', 'BoundedSemaphore': 'bsem'}
BIG = '2+'


class Unsupported(Exception):
    pass


class Node:
    __slots__ = ('kind', 'arg', 'kids', 'id', 'where')

    def __init__(self, kind, arg=None, where=None):
        self.kind, self.arg, self.kids, self.where = kind, arg, {}, where

    def __repr__(self):
        return '%s(%s)' % (self.kind, self.arg)


class Extraction:
    """the step trees of some thread programs over one lock object"""

    def __init__(self, repo, make, progs):
        from .program import Program, Hook
        from .explore import Explorer
        self.repo = repo
        self.prog = prog = Program(repo)
        prog.explorer = self.ex = Explorer(prog)
        prog.note_func = prog.seen
        self.m = prog.load('scen.c09')
        prog.funcs_seen.clear()
        self.make, self.progs = make, progs
        self.vars = {}      # name -> initial value, of the attributes that are written
        self.locks = {}     # name -> (kind, initial count)
        self.paths = 0
        self.on = False
        for c in LOCKS:
            prog.hooks[(c, 'acquire')] = Hook(replace=self.acquire)
            prog.hooks[(c, 'release')] = Hook(replace=self.release)
            prog.hooks[(c, 'locked')] = Hook(replace=self.locked)
        for c in ('Condition', 'Event'):
            for n in ('wait', 'wait_for', 'notify', 'notify_all', 'set', 'clear', 'is_set'):
                prog.hooks[(c, n)] = Hook(replace=self.unsupported)
        prog.hooks[('scen.c09', 'inside')] = Hook(replace=self.mark('in'))
        prog.hooks[('scen.c09', 'leaving')] = Hook(replace=self.mark('out'))
        prog.shared_read, prog.shared_write = self.read, self.write

    # ------------------------------------------------------------ what is recorded
    def where(self, I):
        """the construct of the library this step belongs to"""
        for fr in reversed(I.frames):
            f = getattr(fr, 'func', None)
            p = f.module.path if f is not None and f.module is not None else None
            if p and p.startswith(self.prog.repo + os.sep):
                n = getattr(fr, 'node', None) or getattr(fr, 'line', None)
                line = getattr(n, 'lineno', n if isinstance(n, int) else f.node.lineno)
                return '%s:%s %s' % (os.path.relpath(p, self.prog.repo), line, f.name)
        return None

    def step(self, I, kind, arg=None, outcome=None):
        if self.on:
            w = I.libwhere() if hasattr(I, 'libwhere') else None
            self.trace.append((kind, arg, outcome, w))
            if len(self.trace) > 400:
                raise Unsupported('an operation of the lock does not end')

    def unsupported(self, I, f, args, kw):
        raise Unsupported('%s is not followed' % f.name)

    def mark(self, kind):
        def g(I, f, args, kw):
            self.step(I, kind)
        return g

    def lockname(self, o):
        n = self.names.get(id(o))
        if n is None:
            raise Unsupported('a lock that is made while the operation runs')
        return n

    def acquire(self, I, f, args, kw):
        o = args[0]
        blocking, timeout = kw.get('blocking'), kw.get('timeout')
        if len(args) > 1:
            blocking = args[1]
        if len(args) > 2:
            timeout = args[2]
        blocking = True if blocking is None else blocking
        if type(blocking) not in (bool, int):
            raise Unsupported('acquire with an unknown blocking argument')
        if not self.on:
            raise Unsupported('the lock is acquired by its construction')
        n = self.lockname(o)
        if self.locks[n][0] == 'rlock' and n in self.held:
            self.held.append(n)
            return True  # (again by the same thread)
        if not blocking or timeout not in (None, -1):
            ok = I.st.choose(2, ['acquired', 'not acquired']) == 0
            self.step(I, 'try', n, ok)
            if ok:
                self.held.append(n)
            return ok
        self.step(I, 'acq', n)
        self.held.append(n)
        return True

    def release(self, I, f, args, kw):
        n = self.lockname(args[0])
        if len(args) > 1 or kw:
            raise Unsupported('release of several units')
        if n in self.held:
            self.held.remove(n)
            if self.locks[n][0] == 'rlock' and n in self.held:
                return None
        if n not in self.held:
            for x in [x for x in self.known if n in self.lockset.get(x, ())]:
                del self.known[x]
        self.step(I, 'rel', n)

    def locked(self, I, f, args, kw):
        n = self.lockname(args[0])
        r = I.st.choose(2, ['locked', 'not locked']) == 0
        self.step(I, 'test', n, r)
        return r

    def read(self, I, o, name, v):
        x = self.shared(o, name)
        if x is None or x not in self.vars:
            return v
        if x in self.known:
            return self.known[x]
        self.access(x)
        if self.symbolic and self.isint(x):
            c = I.st.choose(3, ['%s is %s' % (x, k) for k in (0, 1, '2 or more')])
            val = c if c < 2 else I.st.int('shared', 2)
            self.base[x] = val
            lab = c if c < 2 else BIG
        else:
            dom = self.domain[x]
            val = lab = dom[I.st.choose(len(dom), ['%s is %r' % (x, d) for d in dom])]
        self.step(I, 'rd', x, lab)
        if self.lockset.get(x):
            self.known[x] = val
        return val

    def write(self, I, o, name, v):
        x = self.shared(o, name)
        if x is None:
            return
        if x not in self.vars:
            old = o.attrs.get(name, self)
            if old is self:
                old = I.class_lookup(I.type_of(o), name)
                if not isinstance(old, (int, str)):
                    old = None
            self.new.setdefault(x, old)
            return
        self.access(x)
        from .vals import LinV
        if type(v) is LinV and not self.symbolic or not isinstance(
                v, (int, str, type(None), LinV)):
            raise Unsupported('the value given to %s is not followed' % x)
        if self.symbolic and self.isint(x):
            from .vals import ladd
            if x not in self.known or x not in self.base:
                raise Unsupported('%s is set without having been read' % x)
            d = ladd(v, self.base[x], -1)
            if type(d) is not int:
                raise Unsupported('the change of %s is not followed' % x)
            self.step(I, 'wr', (x, ('+', d)))
        else:
            self.written.setdefault(x, set()).add(v)
            self.step(I, 'wr', (x, v))
        if self.lockset.get(x):
            self.known[x] = v

    def isint(self, x):
        return type(self.vars[x]) is int

    def access(self, x):
        h = frozenset(self.held)
        s = self.accesses.setdefault(x, {})
        s.setdefault(h, self.cur)

    def shared(self, o, name):
        if not self.on:
            return None
        n = self.names.get(id(o))
        return None if n is None or n in self.locks else '%s.%s' % (n, demangle(name))

    # ------------------------------------------------------------ running a program
    def name_objects(self, root):
        from .vals import Inst, Seq, DictV, Cls
        self.names, todo = {id(root): 'lock'}, deque([(root, 'lock')])
        while todo:
            o, n = todo.popleft()
            if type(o) is not Inst:
                continue
            if o.cls.name in LOCKS and not self.inrepo(o.cls):
                c = o.attrs.get('_sa_value', 1)
                if type(c) is not int:
                    raise Unsupported('a semaphore with an unknown value')
                self.locks[n] = (LOCKS[o.cls.name], c)
                continue
            held = [(n, o.attrs)]
            for c in o.cls.mro:
                if type(c) is Cls and self.inrepo(c):
                    self.names[id(c)] = 'class ' + c.name
                    held.append(('class ' + c.name, c.attrs))
            for n, d in held:
                for k in sorted(d):
                    v = d[k]
                    if isinstance(v, (Inst, Seq, DictV)) and id(v) not in self.names:
                        m = '%s.%s' % (n, demangle(k)) if n != 'lock' else demangle(k)
                        self.names[id(v)] = m
                        todo.append((v, m))

    def inrepo(self, c):
        p = getattr(getattr(c, 'module', None), 'path', None)
        return bool(p) and p.startswith(self.prog.repo + os.sep)

    def tree(self, fname):
        root = Node('start')

        def body(I):
            self.trace, self.held, self.known, self.base = [], [], {}, {}
            self.cur = fname
            self.on = False
            lock = I.call(self.m.vars[self.make])
            self.name_objects(lock)
            self.rootobj = lock
            self.on = True
            try:
                I.call(self.m.vars[fname], [lock])
            finally:
                self.on = False

        def on_path(I, st, end):
            self.paths += 1
            if not st.feasible():
                return
            if end == 'raised':
                self.trace.append(('err', st.failures[-1][0], None, st.failures[-1][1]))
            if end not in ('done', 'raised'):
                raise Unsupported('a path of %s was not followed to its end (%s)' % (fname, end))
            if st.taints:
                raise Unsupported('; '.join(st.taints[:3]))
            n, out = root, None
            for kind, arg, outcome, w in self.trace:
                k = n.kids.get(out)
                if k is None:
                    k = n.kids[out] = Node(kind, arg, w)
                elif (k.kind, k.arg) != (kind, arg):
                    raise Unsupported('two different continuations of the same steps')
                n, out = k, outcome
            n.kids.setdefault(out, Node('end', 'raised' if end == 'raised' else 'ok'))
        r = self.ex.explore(body, max_paths=6000, max_time=120, on_path=on_path)
        if r.undecided:
            raise Unsupported('%s' % (r.undecided[0],))
        return root

    def run(self, domain, lockset, symbolic=False):
        """-> {program: tree} for these possible values of the shared attributes"""
        while True:
            self.domain, self.lockset, self.symbolic = domain, lockset, symbolic
            self.accesses, self.written, self.new = {}, {}, {}
            trees = {p: self.tree(p) for p in self.progs}
            if not self.new:
                return trees
            for x, v in self.new.items():
                self.vars[x] = v
                if not isinstance(v, (int, str, type(None))):
                    raise Unsupported('%s holds an object' % x)
                domain[x] = sorted({0, 1, 2, v}) if type(v) is int else [v]


def demangle(k):
    return k[k.index('__'):] if k.startswith('_') and '__' in k[1:] and not k.startswith('__') else k


def extract(repo, make, progs, bound):
    e = Extraction(repo, make, progs)
    dom = {}
    e.run(dom, {})
    for _ in range(8):  # values of flags
        more = False
        for x, vs in e.written.items():
            for v in vs:
                if not e.isint(x) and v not in dom[x]:
                    dom[x].append(v)
                    more = True
        if not more:
            break
        e.run(dom, {})
    lockset = {x: frozenset.intersection(*s) for x, s in e.accesses.items()}
    e.where_access = {x: sorted({c for c in s.values()}) for x, s in e.accesses.items()}
    for x in e.vars:
        if e.isint(x):
            dom[x] = [e.vars[x]]
    while True:
        trees = e.run(dom, lockset)
        more = False
        for x, vs in e.written.items():
            for v in vs:
                if v not in dom[x] and (not e.isint(x) or type(v) is int and
                                        -1 <= v - e.vars[x] <= bound):
                    dom[x].append(v)
                    more = True
        if not more:
            break
        if any(len(d) > 12 for d in dom.values()):
            raise Unsupported('a shared attribute with many values')
    e.dom, e.final_lockset = dom, lockset
    return e, trees


# ---------------------------------------------------------------- a few threads, exactly
class Broken(Exception):
    def __init__(self, what, state):
        self.what, self.state = what, state


def own_locks(e, trees):
    """re-entrant locks every path gives back itself, without nesting, are plain locks"""
    for n, (k, c) in list(e.locks.items()):
        if k != 'rlock':
            continue
        own = True
        for t in trees.values():
            for path in walk(t):
                h = 0
                for x in path:
                    if x.arg == n and x.kind == 'acq':
                        h += 1
                    elif x.arg == n and x.kind == 'rel':
                        h -= 1
                    elif x.arg == n:
                        own = False
                    own = own and h in (0, 1)
                own = own and h == 0
        if own:
            e.locks[n] = ('lock', 1)


class Search:
    """all interleavings of the steps of some threads"""

    def __init__(self, e, trees, roles, handoff=False):
        self.e, self.roles, self.handoff = e, roles, handoff
        self.locks = sorted(e.locks)
        self.lix = {n: i for i, n in enumerate(self.locks)}
        self.vars = sorted(e.vars)
        self.vix = {n: i for i, n in enumerate(self.vars)}
        self.kinds = [e.locks[n][0] for n in self.locks]
        self.eager = {x for x in self.vars if e.final_lockset.get(x)}
        self.trees = trees
        self.nodes = []
        for t in trees.values():
            todo = [t]
            while todo:
                n = todo.pop()
                n.id = len(self.nodes)
                self.nodes.append(n)
                todo += n.kids.values()
        self.ident = 'rlock' in self.kinds
        self.lock0 = tuple(1 if k in ('lock', 'rlock') else e.locks[n][1]
                           for n, k in zip(self.locks, self.kinds))
        self.var0 = tuple(e.vars[x] for x in self.vars)
        self.role = {}
        for p, t in trees.items():
            todo = [t]
            while todo:
                n = todo.pop()
                self.role[n.id] = 'w' if 'writer' in p else 'r'
                todo += n.kids.values()

    # a thread: (node id, waiting, mark); locks: free units (rlock: 1 free / -1-thread)
    def settle(self, nid, vs):
        """the steps no other thread can interfere with"""
        n = self.nodes[nid]
        while True:
            if n.kind == 'in' or n.kind == 'start*':
                n = n.kids[None]
            elif n.kind == 'rd' and n.arg in self.eager:
                v = vs[self.vix[n.arg]]
                n = self.kid(n, v)
            elif n.kind == 'wr' and n.arg[0] in self.eager:
                i = self.vix[n.arg[0]]
                vs = vs[:i] + (n.arg[1],) + vs[i + 1:]
                n = n.kids[None]
            else:
                return n.id, vs

    def kid(self, n, v):
        k = n.kids.get(v)
        if k is None:
            raise Unsupported('%s reaches a value (%r) outside the ones followed' % (n.arg, v))
        return k

    def moves(self, state):
        """-> (label, thread index, next state)"""
        ths, ls, vs = state
        for i, (nid, waiting, mark) in enumerate(ths):
            if i and ths[i - 1] == ths[i] and not self.ident:
                continue
            n = self.nodes[nid]
            k = n.kind
            if k == 'end':
                continue
            if k in ('acq', 'try'):
                j = self.lix[n.arg]
                free = ls[j] > 0
                if waiting:
                    if not self.handoff and free:
                        pass
                    else:
                        continue
                if k == 'try':
                    if free:
                        yield self.go(state, i, n.kids.get(True), self.take(ls, j, i), vs)
                    else:
                        yield self.go(state, i, n.kids.get(False), ls, vs)
                elif free:
                    yield self.go(state, i, n.kids[None], self.take(ls, j, i), vs)
                elif self.handoff:
                    t = ths[:i] + ((nid, True, mark),) + ths[i + 1:]
                    yield i, 'waits for', n, self.norm((t, ls, vs))
            elif k == 'rel':
                j = self.lix[n.arg]
                kind = self.kinds[j]
                if kind in ('lock', 'rlock') and ls[j] > 0 or \
                        kind == 'bsem' and ls[j] >= self.lock0[j]:
                    raise Broken('a lock that is not held is released', (state, i, n))
                if kind == 'rlock' and ls[j] != -1 - i:
                    raise Broken('a lock owned by another thread is released', (state, i, n))
                wait = [m for m, t in enumerate(ths) if m != i and t[1] and
                        self.nodes[t[0]].arg == n.arg] if self.handoff else ()
                if wait:
                    for m in wait:
                        a, v1 = self.settle(n.kids[None].id, vs)
                        b, v2 = self.settle(self.nodes[ths[m][0]].kids[None].id, v1)
                        t = list(ths)
                        t[i] = (a, False, ths[i][2])
                        t[m] = (b, False, ths[m][2])
                        l2 = self.take(ls, j, m) if kind == 'rlock' else ls
                        yield i, 'hands over', n, self.norm((tuple(t), l2, v2))
                else:
                    up = 1 if kind == 'rlock' else ls[j] + 1
                    yield self.go(state, i, n.kids[None], ls[:j] + (up,) + ls[j + 1:], vs)
            elif k == 'test':
                yield self.go(state, i, n.kids.get(ls[self.lix[n.arg]] <= 0), ls, vs)
            elif k == 'rd':
                yield self.go(state, i, self.kid(n, vs[self.vix[n.arg]]), ls, vs)
            elif k == 'wr':
                j = self.vix[n.arg[0]]
                yield self.go(state, i, n.kids[None], ls, vs[:j] + (n.arg[1],) + vs[j + 1:])
            else:  # start, out
                yield self.go(state, i, n.kids[None], ls, vs)

    def take(self, ls, j, i):
        v = -1 - i if self.kinds[j] == 'rlock' else ls[j] - 1
        return ls[:j] + (v,) + ls[j + 1:]

    def go(self, state, i, kid, ls, vs):
        if kid is None:
            raise Unsupported('a branch that was not followed')
        ths = state[0]
        n = self.nodes[ths[i][0]]
        a, vs = self.settle(kid.id, vs)
        t = ths[:i] + ((a, False, ths[i][2]),) + ths[i + 1:]
        return i, n.kind, n, self.norm((t, ls, vs))

    def norm(self, s):
        return s if self.ident else (tuple(sorted(s[0])), s[1], s[2])

    def inside(self, t):
        return self.nodes[t[0]].kind == 'out'

    def explore(self, inits, visit, keep, limit=600000):
        """visit(state, moves) for every reachable state; keep(state): go on from it"""
        seen = {s: None for s in inits}
        todo = deque(inits)
        self.seen = seen
        while todo:
            s = todo.popleft()
            try:
                mv = list(self.moves(s))
                visit(s, mv)
            except Broken as b:
                b.trail = self.trail(s)
                if b.state is not None and isinstance(b.state, tuple) and len(b.state) == 3 and \
                        isinstance(b.state[2], Node):
                    b.where = b.state[2].where
                    b.trail.append(self.label(b.state[0], b.state[1], b.state[2].kind, b.state[2]))
                raise
            if not keep(s):
                continue
            for i, lab, n, t in mv:
                if t not in seen:
                    seen[t] = (s, i, lab, n)
                    todo.append(t)
            if len(seen) > limit:
                raise Unsupported('more than %d configurations' % limit)
        return len(seen)

    def label(self, s, i, lab, n):
        r = 'writer' if self.role[n.id] == 'w' else 'reader'
        m = {'B': ' (the waiting one)', 'R': ' (the new one)'}.get(s[0][i][2], '')
        w = ' at %s' % n.where if n.where else ''
        a = n.arg[0] + ' := ' + repr(n.arg[1]) if n.kind == 'wr' else n.arg or ''
        t = {'start': 'starts', 'acq': 'acquires', 'rel': 'releases', 'out': 'leaves',
             'rd': 'reads', 'wr': 'sets', 'hands over': 'releases (another waits for)'}.get(lab, lab)
        return '%s%s %s %s%s' % (r, m, t, a, w)

    def trail(self, s):
        out = []
        while self.seen[s] is not None:
            p, i, lab, n = self.seen[s]
            out.append(self.label(p, i, lab, n))
            s = p
        out.reverse()
        return out

    def initial(self, conf, ls=None, vs=None, marks=()):
        ths = []
        for p, k in conf:
            ths += [(self.trees[p].id, False, '')] * k
        return self.norm((tuple(ths), ls or self.lock0, vs or self.var0))

    # ------------------------------------------------------------ the rules
    def check(self, conf):
        """exclusion, progress, sharing and restoration for these threads"""
        quiet, stable = set(), set()

        def visit(s, mv):
            r = w = 0
            for t in s[0]:
                if self.inside(t):
                    if self.role[t[0]] == 'w':
                        w += 1
                    else:
                        r += 1
            if w and (w > 1 or r):
                raise Broken('a writer is inside together with %s' % (
                    'another writer' if w > 1 else 'a reader'), s)
            for t in s[0]:
                n = self.nodes[t[0]]
                if n.kind == 'err':
                    raise Broken('an operation of the lock raises: %s' % n.arg, s)
            kinds = {m[1] for m in mv} - {'start', 'waits for'}
            if kinds <= {'out'}:
                busy = [t for t in s[0] if self.nodes[t[0]].kind not in ('start', 'end')]
                blocked = [t for t in busy if not self.inside(t)]
                if not busy and all(self.nodes[t[0]].kind == 'end' for t in s[0]):
                    if s[1] != self.lock0:
                        j = [n for n, a, b in zip(self.locks, s[1], self.lock0) if a != b]
                        raise Broken('after every release the lock is not as it was before (%s)'
                                     % ', '.join(j), s)
                    quiet.add((s[1], s[2]))
                if blocked and len(blocked) == len(busy):
                    raise Broken('nobody is inside, yet threads wait forever', s)
                if blocked and all(self.role[t[0]] == 'r' for t in busy):
                    raise Broken('a reader is kept out although only readers are inside', s)
                if any(self.role[t[0]] == 'w' for t in blocked):
                    stable.add(s)
        n = self.explore([self.initial(conf)], visit, lambda s: True)
        self.quiet, self.stable = quiet, stable
        return n

    def priority(self):
        """from every configuration that cannot go on by itself with a waiting writer: a reader that
        starts now does not get in first"""
        inits = []
        for ths, ls, vs in self.stable:
            idle = [i for i, t in enumerate(ths) if self.nodes[t[0]].kind == 'start'
                    and self.role[t[0]] == 'r']
            if not idle:
                continue
            for b in {ths[i]: i for i, t in enumerate(ths) if self.role[t[0]] == 'w' and
                      self.nodes[t[0]].kind not in ('start', 'end', 'out')}.values():
                t = list(ths)
                t[b] = (t[b][0], t[b][1], 'B')
                t[idle[0]] = (t[idle[0]][0], False, 'R')
                inits.append(self.norm((tuple(t), ls, vs)))
        return self.overtaken(inits)

    def overtaken(self, inits):
        def past(s):
            for t in s[0]:
                if t[2] == 'B' and self.nodes[t[0]].kind in ('out', 'end'):
                    return True
            return False

        def visit(s, mv):
            if past(s):
                return
            for t in s[0]:
                if t[2] == 'R' and self.inside(t):
                    raise Broken('a reader that came after a waiting writer is admitted before it',
                                 s)
            return
        return self.explore(list(dict.fromkeys(inits)), visit, lambda s: not past(s))

    def single_writer(self, conf):
        """with locks handed over to a waiting thread: once the only writer waits for any lock, no
        reader that starts later gets in before it"""
        inits = []

        def visit(s, mv):
            ths, ls, vs = s
            idle = [i for i, t in enumerate(ths) if self.nodes[t[0]].kind == 'start'
                    and self.role[t[0]] == 'r']
            b = [i for i, t in enumerate(ths) if self.role[t[0]] == 'w' and t[1]]
            if idle and b:
                t = list(ths)
                t[b[0]] = (t[b[0]][0], True, 'B')
                t[idle[0]] = (t[idle[0]][0], False, 'R')
                inits.append(self.norm((tuple(t), ls, vs)))
        n = self.explore([self.initial(conf)], visit, lambda s: True)
        return n + self.overtaken(inits)


# ---------------------------------------------------------------- any number of threads
class Abstract:
    """counter abstraction over the places of the skeleton"""

    def __init__(self, e, trees):
        self.e = e
        self.places, self.index = [], {}
        self.ints = [x for x in sorted(e.vars) if e.isint(x)]
        self.bools = [x for x in sorted(e.vars) if not e.isint(x)]
        for x in e.vars:
            if not e.final_lockset.get(x):
                raise Unsupported('%s is not always accessed under the same lock' % x)
        for n, (k, c) in e.locks.items():
            if k == 'rlock' or k in ('sem', 'bsem') and c != 1:
                raise Unsupported('%s is a %s' % (n, k))
        self.locks = sorted(e.locks)
        self.lix = {n: i for i, n in enumerate(self.locks)}
        self.bix = {x: i for i, x in enumerate(self.bools)}
        self.start = {}
        zero = (0,) * len(self.ints)
        for p, t in trees.items():
            role = 'w' if 'writer' in p else 'r'
            self.start[role] = self.place(t, zero, role)

    def place(self, n, w, role):
        """hash-consed: the same remaining steps and the same part in the attributes are one place"""
        if n.kind == 'wr' and n.arg[0] in self.ints:
            # the change relative to what was read replaces an earlier one of the same section
            pass
        kids = []
        for out in sorted(n.kids, key=str):
            k = n.kids[out]
            w2 = w
            kids.append((out, self.place(k, w2 if n.kind != 'wr' else self.bump(n, w), role)))
        if n.kind == 'end':
            if n.arg != 'ok':
                raise Unsupported('a path that raises')
            if any(w):
                raise Unsupported('an attribute is not given back its value')
        if n.kind in ('try', 'test'):
            raise Unsupported('a step that depends on whether a lock is free')
        if any(x < 0 for x in w):
            raise Unsupported('an attribute counts downwards')
        key = (role, n.kind, n.arg, tuple(kids), w)
        i = self.index.get(key)
        if i is None:
            i = self.index[key] = len(self.places)
            self.places.append((n.kind, n.arg, dict(kids), w, role, n.where))
        return i

    def bump(self, n, w):
        x, d = n.arg
        if x not in self.ints:
            return w
        j = self.ints.index(x)
        return w[:j] + (w[j] + d[1],) + w[j + 1:]

    # state: (counts: sorted tuple of (place, 1|2), lock bits taken, flags)
    def settle(self, p, counts, flags):
        """-> [(place, flags)]: reads and writes done at once; feasible cases of integers"""
        kind, arg, kids, w, role, _ = self.places[p]
        if kind == 'in' or kind == 'wr' and arg[0] in self.ints:
            return self.settle(kids[None], counts, flags)
        if kind == 'wr':
            i = self.bix[arg[0]]
            return self.settle(kids[None], counts, flags[:i] + (arg[1],) + flags[i + 1:])
        if kind == 'rd':
            if arg in self.ints:
                j = self.ints.index(arg)
                lo, exact = self.e.vars[arg] + w[j], True
                for q, c in counts:
                    x = self.places[q][3][j]
                    if x:
                        lo += x * c
                        exact = exact and c == 1
                opts = [lo] if exact else range(lo, max(lo, 2) + 1)
                out = []
                for k in {o if o < 2 else BIG for o in opts}:
                    if k not in kids:
                        raise Unsupported('%s may be negative' % arg)
                    out += self.settle(kids[k], counts, flags)
                return out
            v = flags[self.bix[arg]]
            if v not in kids:
                raise Unsupported('a value of %s that was not followed' % arg)
            return self.settle(kids[v], counts, flags)
        return [(p, flags)]

    def minus(self, counts, p):
        for i, (q, c) in enumerate(counts):
            if q == p:
                if c == 1:
                    return [counts[:i] + counts[i + 1:]]
                return [counts[:i] + ((q, 1),) + counts[i + 1:], counts]

    def plus(self, counts, p):
        if self.places[p][0] == 'end':
            return counts
        d = dict(counts)
        d[p] = 2 if p in d else 1
        return tuple(sorted(d.items()))

    def step(self, p, locks):
        """-> None (not enabled) or (next place, locks)"""
        kind, arg, kids, w, role, where = self.places[p]
        if kind == 'acq':
            j = self.lix[arg]
            if locks[j]:
                return None
            return kids[None], locks[:j] + (True,) + locks[j + 1:]
        if kind == 'rel':
            j = self.lix[arg]
            if not locks[j]:
                raise Broken('a lock that is not held is released', p)
            return kids[None], locks[:j] + (False,) + locks[j + 1:]
        return kids[None], locks

    def moves(self, s):
        counts, locks, flags = s
        for p, c in counts:
            r = self.step(p, locks)
            if r is None:
                continue
            for rest in self.minus(counts, p):
                for q, f in self.settle(r[0], rest, flags):
                    yield p, (self.plus(rest, q), r[1], f)

    def starts(self, s):
        counts, locks, flags = s
        for role, p in self.start.items():
            for q, f in self.settle(self.places[p][2][None], counts, flags):
                yield p, (self.plus(counts, q), locks, f)

    def check(self, limit=400000):
        init = ((), (False,) * len(self.locks), tuple(self.e.vars[x] for x in self.bools))
        seen, todo, stable = {init}, deque([init]), []
        while todo:
            s = todo.popleft()
            counts, locks, flags = s
            r = w = 0
            for p, c in counts:
                if self.places[p][0] == 'out':
                    if self.places[p][4] == 'w':
                        w += c
                    else:
                        r += c
            if w and (w > 1 or r):
                raise Broken('a writer is inside together with somebody else', s)
            mv = list(self.moves(s))
            if all(self.places[p][0] == 'out' for p, _ in mv):
                blocked = [p for p, c in counts if self.places[p][0] != 'out']
                if not counts and (any(locks) or flags != init[2]):
                    raise Broken('after every release the lock is not as it was before', s)
                if blocked and len(blocked) == len(counts):
                    raise Broken('nobody is inside, yet threads wait forever', s)
                if blocked and all(self.places[p][4] == 'r' for p, _ in counts):
                    raise Broken('a reader is kept out although only readers are inside', s)
                if any(self.places[p][4] == 'w' for p in blocked):
                    stable.append(s)
            for _, t in mv + list(self.starts(s)):
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
            if len(seen) > limit:
                raise Unsupported('more than %d abstract states' % limit)
        self.states = len(seen)
        # a reader that starts now against one of the waiting writers
        rs = self.start['r']
        todo, seen = deque(), set()
        for counts, locks, flags in stable:
            for p, c in counts:
                if self.places[p][4] == 'w' and self.places[p][0] != 'out':
                    for rest in self.minus(counts, p):
                        t = (rest, locks, flags, p, rs)
                        if t not in seen:
                            seen.add(t)
                            todo.append(t)
        while todo:
            counts, locks, flags, b, r = todo.popleft()
            if self.places[r][0] == 'out':
                raise Broken('a reader that came after a waiting writer is admitted before it', b)
            nxt = []
            both = self.plus(self.plus(counts, b), r) if r != rs else self.plus(counts, b)
            others = self.plus(counts, r) if r != rs else counts
            x = self.step(b, locks)
            if x is not None:
                for q, f in self.settle(x[0], others, flags):
                    if self.places[q][0] not in ('out', 'end'):
                        nxt.append((counts, x[1], f, q, r))
            x = self.step(r, locks)
            if x is not None:
                for q, f in self.settle(x[0], self.plus(counts, b), flags):
                    nxt.append((counts, x[1], f, b, q))
            for p, c in counts:
                x = self.step(p, locks)
                if x is None:
                    continue
                for rest in self.minus(counts, p):
                    seenby = self.plus(rest, b)
                    if r != rs:
                        seenby = self.plus(seenby, r)
                    for q, f in self.settle(x[0], seenby, flags):
                        nxt.append((self.plus(rest, q), x[1], f, b, r))
            for role, p in self.start.items():
                for q, f in self.settle(self.places[p][2][None], both, flags):
                    nxt.append((self.plus(counts, q), locks, f, b, r))
            for t in nxt:
                if t not in seen:
                    seen.add(t)
                    todo.append(t)
            if len(seen) > 3 * limit:
                raise Unsupported('more than %d abstract states' % (3 * limit))
        self.states += len(seen)


VARIANTS = (('RWLock', 'make_plain', 'plain_reader', 'plain_writer'),
            ('RWLockSortedDeque, blocks that end', 'make_deque', 'with_reader', 'with_writer'),
            ('RWLockSortedDeque, blocks that fail', 'make_deque', 'failing_reader',
             'failing_writer'))


def decide(repo, variant, tier):
    title, make, rd, wr = variant
    res = {'failures': [], 'obligations': 0, 'paths': 0, 'functions': [], 'sites': [], 'notes': []}
    bound = 5
    e, trees = extract(repo, make, [rd, wr], bound)
    res['paths'] += e.paths
    # only the library's own part counts: the inside marks have to be there once on every path
    for p, t in trees.items():
        for path in walk(t):
            if [n.kind for n in path if n.kind in ('in', 'out')] != ['in', 'out'] and \
                    path[-1].arg == 'ok':
                raise Unsupported('%s does not get in and out on every path' % p)
    own_locks(e, trees)
    confs = [[(rd, 2), (wr, 2)], [(rd, 3), (wr, 1)], [(rd, 1), (wr, 3)]]
    if tier == 'thorough':
        confs += [[(rd, 3), (wr, 2)], [(rd, 2), (wr, 3)]]
    done = []
    try:
        for c in confs:
            s = Search(e, trees, None)
            n = s.check(c)
            quiet = s.quiet
            n += s.priority()
            res['obligations'] += n
            # what is left behind counts as a start of the next round
            for ls, vs in quiet - {(s.lock0, s.var0)}:
                s2 = Search(e, trees, None)
                s2.var0 = vs
                res['obligations'] += s2.check(c)
            done.append('%d readers, %d writers: %d configurations' % (c[0][1], c[1][1], n))
        for c in ([(rd, 3), (wr, 1)],):
            s = Search(e, trees, None, handoff=True)
            n = s.single_writer(c)
            res['obligations'] += n
            done.append('%d readers, 1 writer, locks handed over: %d configurations' % (c[0][1], n))
    except Broken as b:
        res['failures'].append({
            'message': '%s: %s' % (title, b.what), 'widened': False, 'path': b.trail,
            'where': getattr(b, 'where', None) or last_where(b.trail) or MODS[0]})
    res['sites'] = done
    if not res['failures']:
        try:
            e.run(e.dom, e.final_lockset)
            sym = e.run(e.dom, e.final_lockset, symbolic=True)
            own_locks(e, sym)
            a = Abstract(e, sym)
            a.check()
            res['obligations'] += a.states
            res['sites'].append('any number of threads: %d places, %d abstract states' % (
                len(a.places), a.states))
        except (Unsupported, Broken) as x:
            res['notes'].append('%s: not decided for any number of threads (%s)' % (
                title, getattr(x, 'what', None) or x))
    for x in sorted(e.vars):
        ls = e.final_lockset.get(x)
        res['sites'].append('%s always accessed under %s' % (x, ', '.join(sorted(ls)))
                            if ls else '%s accessed without a common lock' % x)
    res['functions'] = sorted({'%s:%s %s' % (os.path.relpath(f.module.path, repo), f.node.lineno,
                                             f.name) for f in e.prog.funcs_seen
                               if f.module.path and f.module.path.startswith(e.prog.repo)})
    return res


def last_where(trail):
    for t in reversed(trail):
        if ' at ' in t:
            return t.split(' at ', 1)[1]


def walk(n, path=()):
    path = path + (n,)
    if not n.kids:
        yield path
    for k in n.kids.values():
        yield from walk(k, path)


def job(args):
    repo, v, tier = args
    sys.setrecursionlimit(12000)
    t0 = time.time()
    out = {'scenario': 'rwlock', 'function': v[0], 'paths': 0, 'undecided': [], 'failures': [],
           'tainted': []}
    try:
        out.update(decide(repo, v, tier))
        notes = out.pop('notes')
        if notes:
            out['bounded'] = notes
    except Unsupported as x:
        out['error'] = 'the lock is not followed: %s' % x
    except Exception:
        out['error'] = traceback.format_exc()
    out['seconds'] = round(time.time() - t0, 2)
    return out


def run(repo, tier='quick'):
    import multiprocessing
    with multiprocessing.get_context('fork').Pool(3, maxtasksperchild=1) as p:
        return p.map(job, [(repo, v, tier) for v in VARIANTS], chunksize=1)


if __name__ == '__main__':
    for v in VARIANTS:
        r = job((sys.argv[1] if len(sys.argv) > 1 else '/repo', v, 'quick'))
        print(v[0], r.get('error') or '', r.get('seconds'))
        for s in r.get('sites', ()):
            print('  ', s)
        for f in r['failures']:
            print('  VIOLATION', f['message'], '@', f['where'])
            for t in f['path']:
                print('      ', t)
