"""State of one abstract path: linear constraints, order facts, decisions."""
from . import lin
from .vals import *


class Cut(Exception):
    """this abstract path is covered (infeasible, or included in one already analysed)"""


class Restart(BaseException):
    """a speculative summary was not applicable: explore this path again without it"""


class Undecided(Exception):
    """the analysis cannot follow the code here"""

    def __init__(self, why, where=None):
        Exception.__init__(self, why)
        self.why, self.where = why, where


class Oracle:
    """resolves nondeterminism; the explorer enumerates every sequence of decisions"""

    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []  # [choice, n options]

    def choose(self, n):
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append([c, n])
        return c

    @property
    def fresh(self):
        return len(self.taken) >= len(self.prefix)


class State:
    def __init__(self, oracle):
        self.oracle = oracle
        self.cons = []
        self.conset = set()
        self.facts = {}
        self.mon = {}
        self.events = []
        self.taints = []
        self.nid = 0
        self.bases = []
        self.order_atoms = {}  # base -> list of key terms with L/R atoms
        self.ctxs = [[]]  # active coroutines, each a list of nodes / temporaries
        self.heads = {}
        self.undo = []
        self.failures = []
        self.obligations = 0
        self.steps = 0
        self.keyring = set()  # key terms having an ord atom
        self.path_note = []
        self.branches = []
        self.spec = None  # what is being summarised, must not fork meanwhile

    # ---- fresh things
    def newid(self):
        self.nid += 1
        return self.nid

    def sym(self, name, kind='any'):
        i = self.newid()
        return Sym(i, '%s' % name, kind)

    def int(self, name, lo=None, hi=None):
        i = self.newid()
        v = LinV(((('n', i, '%s' % name), 1),), 0)
        if lo is not None:
            self.assume_ge(ladd(v, lo, -1))
        if hi is not None:
            self.assume_ge(ladd(hi, v, -1))
        return v

    def base(self, name, n=None, **kw):
        i = self.newid()
        if n is None:
            n = self.int('n_%s' % name, 0)
        b = Base(i, name, n, **kw)
        self.bases.append(b)
        return b

    # ---- linear constraints  (v >= 0)
    def assume_ge(self, v):
        if type(v) is not LinV:
            if int(v) < 0:
                raise Cut('infeasible')
            return
        c = lin.freeze(lin.norm(lexpr(v)))
        if c in self.conset:
            return
        self.conset.add(c)
        self.cons.append(c)

    def entails_ge(self, v):
        if type(v) is not LinV:
            return int(v) >= 0
        try:
            return lin.entails(self.cons, lexpr(v))
        except lin.TooBig:
            self.taints.append('linear constraints too large')
            return False

    def decide_ge(self, v, order=0):
        """is v >= 0 ?  forks when unknown"""
        if type(v) is not LinV:
            return int(v) >= 0
        if self.entails_ge(v):
            return True
        n = ladd(lmul(v, -1), -1)
        if self.entails_ge(n):
            return False
        if self.choose(2, ('%s >= 0' % (v,), 'not %s >= 0' % (v,))) == 0:
            self.assume_ge(v)
            return True
        self.assume_ge(n)
        return False

    def le(self, a, b):
        return self.decide_ge(ladd(b, a, -1))

    def lt(self, a, b):
        return self.decide_ge(ladd(ladd(b, a, -1), -1))

    def ieq(self, a, b):
        d = ladd(a, b, -1)
        if type(d) is not LinV:
            return d == 0
        return self.decide_ge(d) and self.decide_ge(lmul(d, -1))

    def entails_eq(self, a, b):
        d = ladd(a, b, -1)
        if type(d) is not LinV:
            return d == 0
        return self.entails_ge(d) and self.entails_ge(lmul(d, -1))

    def entails_le(self, a, b):
        return self.entails_ge(ladd(b, a, -1))

    def choose(self, n, labels=None):
        if self.spec is not None:
            raise Restart(self.spec)
        c = self.oracle.choose(n)
        if labels is not None:
            self.branches.append(labels[c])
        return c

    def fact(self, key, labels=None):
        """a boolean fact about opaque terms; forks when unknown"""
        r = self.facts.get(key)
        if r is None:
            r = self.choose(2, labels) == 0
            self.facts[key] = r
        return r

    # ---- total order on key terms
    def basekey(self, v):
        """(base, pos) if v is the sorting key of base's element at pos"""
        t = template(v)
        if t is not None and t[0].order is not None and t[1] == t[0].order:
            return (t[0], t[2])
        return None

    def LR(self, side, base, k):
        a = (side, base, k)
        v = LinV(((a, 1),), 0)
        ks = self.order_atoms.setdefault(base.id, [])
        if k not in ks:
            ks.append(k)
            L = LinV(((('L', base, k), 1),), 0)
            R = LinV(((('R', base, k), 1),), 0)
            self.assume_ge(L)
            self.assume_ge(ladd(R, L, -1))
            self.assume_ge(ladd(base.n, R, -1))
            if base.strict:
                self.assume_ge(ladd(ladd(L, 1), R, -1))
            bk = self.basekey(k)
            if bk and bk[0] is base:
                self.assume_ge(ladd(bk[1], L, -1))
                self.assume_ge(ladd(ladd(R, bk[1], -1), -1))
            for o in ks:
                if o is not k:
                    self.monotone(base, o, k)
        return v

    def monotone(self, base, a, b):
        """L/R atoms of both a and b exist in base: use their known order"""
        La, Ra = LinV(((('L', base, a), 1),), 0), LinV(((('R', base, a), 1),), 0)
        Lb, Rb = LinV(((('L', base, b), 1),), 0), LinV(((('R', base, b), 1),), 0)
        r = self.known_order(a, b)
        if r is None:
            return
        if r in ('<', '<='):
            self.assume_ge(ladd(Lb, La, -1))
            self.assume_ge(ladd(Rb, Ra, -1))
            if r == '<':
                self.assume_ge(ladd(Lb, Ra, -1))
        if r in ('>', '>='):
            self.assume_ge(ladd(La, Lb, -1))
            self.assume_ge(ladd(Ra, Rb, -1))
            if r == '>':
                self.assume_ge(ladd(La, Rb, -1))
        if r == '==':
            for x, y in ((La, Lb), (Ra, Rb)):
                self.assume_ge(ladd(x, y, -1))
                self.assume_ge(ladd(y, x, -1))

    def known_order(self, a, b):
        """'<','<=','==','>','>=' or None, from what is already known"""
        if tsame(a, b):
            return '=='
        ka, kb = self.basekey(a), self.basekey(b)
        if ka and kb and ka[0] is kb[0]:
            d = ladd(kb[1], ka[1], -1)
            if self.entails_eq(ka[1], kb[1]):
                return '=='
            s = ka[0].strict
            if self.entails_ge(ladd(d, -1)):
                return '<' if s else '<='
            if self.entails_ge(ladd(lmul(d, -1), -1)):
                return '>' if s else '>='
            return None
        if ka or kb:
            # compare through positions if the atoms exist
            base, pos, k, flip = (ka[0], ka[1], b, False) if ka else (kb[0], kb[1], a, True)
            if k in self.order_atoms.get(base.id, ()):
                L, R = self.LR('L', base, k), self.LR('R', base, k)
                if self.entails_ge(ladd(ladd(L, pos, -1), -1)):
                    return '>' if flip else '<'
                if self.entails_ge(ladd(pos, R, -1)):
                    return '<' if flip else '>'
                if self.entails_ge(ladd(ladd(R, pos, -1), -1)):
                    if self.entails_ge(ladd(pos, L, -1)):
                        return '=='
                    return '>=' if flip else '<='
                if self.entails_ge(ladd(pos, L, -1)):
                    return '<=' if flip else '>='
            return None
        if a in self.keyring and b in self.keyring:
            d = ladd(self.ordv(b), self.ordv(a), -1)
            if self.entails_ge(ladd(d, -1)):
                return '<'
            m = lmul(d, -1)
            if self.entails_ge(ladd(m, -1)):
                return '>'
            le, ge = self.entails_ge(d), self.entails_ge(m)
            if le and ge:
                return '=='
            if le:
                return '<='
            if ge:
                return '>='
        # through the positions in a base
        for bid, ks in self.order_atoms.items():
            if a in ks and b in ks:
                base = next(x for x in self.bases if x.id == bid)
                La, Ra = self.LR('L', base, a), self.LR('R', base, a)
                Lb, Rb = self.LR('L', base, b), self.LR('R', base, b)
                if self.entails_ge(ladd(ladd(Lb, La, -1), -1)) or \
                        self.entails_ge(ladd(ladd(Rb, Ra, -1), -1)):
                    return '<'
                if self.entails_ge(ladd(ladd(La, Lb, -1), -1)) or \
                        self.entails_ge(ladd(ladd(Ra, Rb, -1), -1)):
                    return '>'
        return None

    def ordv(self, k):
        self.keyring.add(k)
        return LinV(((('ord', k), 1),), 0)

    def key_lt(self, a, b):
        """a < b for key terms (a total order is assumed); forks when unknown"""
        if tsame(a, b):
            return False
        ka, kb = self.basekey(a), self.basekey(b)
        if ka and kb and ka[0] is kb[0]:
            if ka[0].strict:
                return self.lt(ka[1], kb[1])
            if self.entails_le(kb[1], ka[1]):
                return False
            return self.lt(ka[1], self.LR('L', ka[0], b))
        if ka and (not kb or ka[0].id <= kb[0].id):
            return self.lt(ka[1], self.LR('L', ka[0], b))
        if kb:
            return self.le(self.LR('R', kb[0], a), kb[1])
        r = self.known_order(a, b)
        if r == '<':
            return True
        if r in ('>', '>=', '=='):
            return False
        la, lb = self.ordv(a), self.ordv(b)
        res = self.decide_ge(ladd(ladd(lb, la, -1), -1))
        self.order_learnt(a, b)
        return res

    def key_eq(self, a, b):
        if tsame(a, b):
            return True
        return not self.key_lt(a, b) and not self.key_lt(b, a)

    def order_learnt(self, a, b):
        for bid, ks in list(self.order_atoms.items()):
            if a in ks and b in ks:
                base = next(x for x in self.bases if x.id == bid)
                self.monotone(base, a, b)

    def feasible(self):
        try:
            return not lin.infeasible(self.cons)
        except lin.TooBig:
            return True

    def taint(self, why):
        if why not in self.taints:
            self.taints.append(why)
