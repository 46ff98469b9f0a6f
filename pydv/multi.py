"""Lists of integers known through their multiplicities, and tables of such lists."""
import z3
from .errors import OutOfReach
from . import sym
from .sym import I, B, P, iterm
from .seq import Seq, _searched


class Multi(Seq):
    """a list of integers: cnt(t) says how often t occurs.  Positions: item e(k) for 0 <= k < n; pos(t) is a position of t"""
    def __init__(self, cnt, table=None, key=None, kind=list):
        self._cnt, self.table, self.key, self.kind = cnt, table, key, kind
        self._new()
        self.is_list, self.over = True, []

    def _new(self):
        p = P()
        self._n = None
        self.e = z3.Function(p.name('item'), z3.IntSort(), z3.IntSort())
        self.ps = z3.Function(p.name('pos'), z3.IntSort(), z3.IntSort())

    @property
    def n(self):
        if self._n is None:
            p = P()
            self._n = I(p.fresh_int('size'))
            p.assume(self._n.t >= 0)
        return self._n

    def cnt(self, t):
        """how often t occurs (term); ties positions to it"""
        c = self._cnt(iterm(t))
        return c

    def has(self, t):
        """t occurs; then it has a position"""
        t = iterm(t)
        c = self.cnt(t) > 0
        p = P()
        k = self.ps(t)
        p.assume(z3.Implies(c, z3.And(k >= 0, k < iterm(self.n), self.e(k) == t)))
        return c

    def at(self, k):
        k = iterm(k)
        v = self.e(k)
        P().assume(z3.Implies(z3.And(k >= 0, k < iterm(self.n)), self.cnt(v) > 0))
        if self.table is not None and self.table.on_item is not None:
            self.table.on_item(I(self.key), I(v))
        return I(v)

    def __contains__(self, t):
        return P().branch(z3.simplify(self.has(t)))

    def __bool__(self):
        p = P()
        if p.branch(iterm(self.n) > 0):
            _searched(self.at(0).t)
            return True
        c = self._cnt
        p.univ.append(lambda t: c(t) <= 0)
        return False

    def snapshot(self):
        r = Multi(self._cnt, kind=self.kind)
        r._n, r.e, r.ps = self._n, self.e, self.ps
        return r

    copy = as_list = snapshot

    def conv(self, f):
        if f is set:
            c = self._cnt
            return Multi(lambda t: z3.If(c(t) > 0, z3.IntVal(1), z3.IntVal(0)), kind=set)
        r = self.snapshot()
        r.kind = list if f is sorted else f
        return r

    def _set(self, cnt):
        self._cnt = cnt
        self._new()
        if self.table is not None:
            self.table._write(self.key, self)

    def _plus(self, o):
        a, b = self._cnt, lift(o)._cnt
        return lambda t: a(t) + b(t)

    def __add__(self, o):
        return Multi(self._plus(o))

    def __radd__(self, o):
        return Multi(self._plus(o))

    def __iadd__(self, o):
        if self.kind is not list:
            raise OutOfReach('+= on a %s' % self.kind.__name__)
        self._set(self._plus(o))
        return self

    extend = __iadd__

    def append(self, v):
        self._set(self._plus([v]))

    def _union(self, o):
        a, b = self._cnt, lift(o)._cnt
        return lambda t: z3.If(z3.Or(a(t) > 0, b(t) > 0), z3.IntVal(1), z3.IntVal(0))

    def __or__(self, o):
        return Multi(self._union(o), kind=set)

    def union(self, o):
        return Multi(self._union(o), kind=set)

    def __and__(self, o):
        a, b = self._cnt, lift(o)._cnt
        return Multi(lambda t: z3.If(z3.And(a(t) > 0, b(t) > 0), z3.IntVal(1), z3.IntVal(0)), kind=set)

    intersection = __and__

    def isdisjoint(self, o):
        return not bool(self & o)

    def clear(self):
        self._set(lambda t: z3.IntVal(0))

    def __setitem__(self, k, v):
        raise OutOfReach('item write to a list known through its multiplicities')

    def _slice(self, s):
        raise OutOfReach('slice of a list known through its multiplicities')


def lift(v):
    if isinstance(v, Multi):
        return v
    if isinstance(v, (list, tuple, set)):
        xs = [iterm(x) for x in v]
        m = Multi(lambda t: z3.simplify(z3.Sum([z3.IntVal(0)] + [z3.If(t == x, z3.IntVal(1), z3.IntVal(0)) for x in xs])))
        m._n = I(z3.IntVal(len(xs)))
        for k, x in enumerate(xs):
            P().assume(m.e(k) == x)
        return m
    raise OutOfReach('list of integers expected')


class Table(Seq):
    """a list of lists of integers; row(a) gives the multiplicities of row a"""
    def __init__(self, n, f):
        self.n, self.f, self.is_list = n, f, True       # f(a, t): how often t occurs in row a
        self.over = []
        self.rows, self.on_item = [], None

    def snapshot(self):
        r = Table(self.n, self.f)
        return r

    def cnt(self, a, t):
        return I(self.f(iterm(a), iterm(t)))

    def _row(self, k):
        """the list taken out at this place before; all lists taken out are at different places"""
        for kk, m in self.rows:
            c = z3.simplify(kk == k)
            if z3.is_true(c) or not z3.is_false(c) and P().branch(c):
                return m
        return None

    def at(self, a):
        at = z3.simplify(iterm(a))
        m = self._row(at)
        if m is None:
            f = self.f
            m = Multi(lambda t: f(at, t), self, at)
            self.rows.append((at, m))
        return m

    def _write(self, a, m):
        a, f, c = iterm(a), self.f, m._cnt
        self.f = lambda x, t: z3.If(x == a, c(t), f(x, t))

    def __setitem__(self, k, v):
        k = z3.simplify(iterm(self._norm(k)))
        old = self._row(k)
        if old is v:
            return                                    # row += ... has written the row itself
        if old is not None:                           # no longer part of the table
            old.table = None
            self.rows = [(kk, r) for kk, r in self.rows if r is not old]
        src = lift(v)
        if isinstance(v, Multi):
            if v.table is not None:
                raise OutOfReach('one list in two places')
            v.table, v.key = self, k
            self.rows.append((k, v))
        self._write(k, src)

    def append(self, v):
        n = iterm(self.n)
        src = lift(v)
        c, f = src._cnt, self.f
        self.f = lambda a, t: z3.If(a == n, c(t), f(a, t))
        self.n = I(z3.simplify(n + 1))

    def __iadd__(self, o):
        for v in o:
            self.append(v)
        return self

    def __radd__(self, o):
        raise OutOfReach('concatenation of tables')

    __add__ = __radd__
