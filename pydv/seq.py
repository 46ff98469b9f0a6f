"""Sequences of symbolic length."""
import numpy as np
import z3
from .errors import OutOfReach
from . import sym
from .sym import R, I, B, P, term, iterm


def _slice_only(s):
    return isinstance(s, slice) and s.start is None and s.stop is None and s.step is None


class Seq:
    """length n (int or I) and element closure; facts are instantiated by the closure when elements are read."""
    _seq_ = True
    is_list = True
    boolean = False                       # an array of truth values
    base = None                           # a view of another array: (array, first position, length)
    cells = False                         # items are lists that the code changes in place

    def __init__(self, n, at, is_list=True):
        self.n, self._at, self.is_list = n, at, is_list
        self.over = []                    # writes, newest last: (index term or slice, value)

    # -- reading
    def at(self, k):
        v = self._at(k)
        for kind, w, val in self.over:
            if kind == 'idx':
                c = iterm(k) == iterm(w)
                sc = z3.simplify(c)
                if z3.is_true(sc):
                    v = val
                elif not z3.is_false(sc):
                    v = _ite(B(c), val, v)
            else:
                v = val(k, v)
        return v

    def cell(self, k):
        """the item at position k; a list stays shared with the sequence"""
        v = self.at(k)
        if self.cells and isinstance(v, (list, np.ndarray)):
            v = v.copy()
            self.over.append(('idx', k, v))
        return v

    def _norm(self, k):
        """python index -> position, with the bounds obligation"""
        if isinstance(k, (int, np.integer)):
            k = int(k)
            t = z3.IntVal(k) if k >= 0 else iterm(self.n) + k
        else:
            kt = iterm(k)
            t = kt if P().forced(kt >= 0) else kt + iterm(self.n) if P().forced(kt < 0) else \
                z3.If(kt >= 0, kt, kt + iterm(self.n))
        P().prove('index is in range', z3.And(t >= 0, t < iterm(self.n)), 'definedness')
        return I(z3.simplify(t))

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2:
            a, b = k
            if _slice_only(a):
                if isinstance(b, (int, np.integer)):
                    return Seq(self.n, lambda i: self.at(i)[b], False)
                if _slice_only(b):
                    return self
            if isinstance(a, slice):
                return self[a][:, b] if not _slice_only(b) else self[a]
            return self[a] if _slice_only(b) else self[a][b]
        if isinstance(k, slice):
            return self._slice(k)
        if isinstance(k, Seq):
            if k.boolean:
                return Masked(self.snapshot(), k.snapshot())
            return Seq(k.n, lambda i: self.at(k.at(i)), self.is_list)
        return self.cell(self._norm(k))

    def _slice(self, s):
        if s.step not in (None, 1):
            raise OutOfReach('slice step')
        n = iterm(self.n)

        def pos(v, d):
            if v is None:
                return d
            t = iterm(v)
            t = z3.If(t < 0, t + n, t)
            return z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t))
        a, b = pos(s.start, z3.IntVal(0)), pos(s.stop, n)
        a = z3.simplify(a)
        m = z3.simplify(z3.If(b - a > 0, b - a, z3.IntVal(0)))
        src = self.snapshot() if self.is_list else self
        r = Seq(I(m), lambda i: src.at(I(z3.simplify(a + iterm(i)))), self.is_list)
        if not self.is_list:
            r.base = (self, a, m)             # a view
        return r

    def snapshot(self):
        if self.base is not None:
            src, a, m = self.base
            src = src.snapshot()
            r = Seq(self.n, lambda i: src.at(I(z3.simplify(a + iterm(i)))), False)
        else:
            r = Seq(self.n, self._at, self.is_list)
        r.boolean = self.boolean
        r.over = [(a, b, c.copy() if self.cells and isinstance(c, (list, np.ndarray)) else c) for a, b, c in self.over]
        for nm in ('place', 'source', 'parts', 'tag'):
            if nm in self.__dict__:
                r.__dict__[nm] = self.__dict__[nm]
        return r

    def copy(self):
        return self.snapshot()

    def __deepcopy__(self, memo):
        return self.snapshot()

    def circular(self):
        """closed ring: the first element repeated at the end"""
        src, n = self.snapshot(), iterm(self.n)
        return Seq(I(z3.simplify(n + 1)), lambda k: src.at(I(z3.simplify(z3.If(iterm(k) == n, z3.IntVal(0), iterm(k))))), True)

    def __len__(self):
        raise OutOfReach('len() of a symbolic sequence outside the code')

    def __iter__(self):
        raise OutOfReach('iteration over a sequence of symbolic length without a contract')

    def __bool__(self):
        return P().branch(iterm(self.n) > 0)

    def __contains__(self, v):
        return self.map(lambda e: B(_equal(e, v))).exists()

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    # -- writing
    def __setitem__(self, k, v):
        if isinstance(k, (int, np.integer, I)):
            if self.base is not None:
                raise OutOfReach('write through a view')
            self.over.append(('idx', self._norm(k), v))
            return
        if self.is_list or self.base is not None:
            raise OutOfReach('symbolic sequence write')
        if isinstance(k, Seq) and k.boolean:
            m = k.snapshot()
            if isinstance(v, Masked) and _same_mask(m, v.mask):
                w = lambda i, old: v.src.at(i)
            elif isinstance(v, (R, int, float)):
                w = lambda i, old: v
            else:
                raise OutOfReach('masked write')
            self.over.append(('map', None, lambda i, old: _ite(B(sym.bterm(m.at(i))), w(i, old), old)))
            return
        if isinstance(k, slice):
            r = self._slice(k)
            _, a, m = r.base
            if isinstance(v, Seq) and v.base is not None and v.base[0] is self and a.eq(v.base[1]) and m.eq(v.base[2]):
                return                                     # the view that x[a:b] += y has written through
            if isinstance(v, Seq):
                P().prove('assigned sequence has the length of the slice', iterm(v.n) == m, 'definedness')
                v = v.snapshot()
            r.write((lambda i, old: v.at(i)) if isinstance(v, Seq) else (lambda i, old: v))
            return
        raise OutOfReach('symbolic sequence write')

    def write(self, f):
        """item i becomes f(i, item)"""
        if self.base is None:
            self.over.append(('map', None, f))
            return
        src, a, m = self.base
        if src.base is not None:
            raise OutOfReach('view of a view')

        def g(i, old):
            j = z3.simplify(iterm(i) - a)
            c = z3.simplify(z3.And(j >= 0, j < m))
            return old if z3.is_false(c) else _ite(B(c), f(I(j), old), old)
        src.over.append(('map', None, g))

    def _inplace(self, o, f):
        if self.is_list:
            raise OutOfReach('arithmetic on a list')
        if isinstance(o, Seq):
            P().prove('operands have equal lengths', iterm(o.n) == iterm(self.n), 'definedness')
            o = o.snapshot()
        self.write((lambda i, old: f(old, o.at(i))) if isinstance(o, Seq) else (lambda i, old: f(old, o)))
        return self

    def __isub__(self, o): return self._inplace(o, lambda a, b: a - b)
    def __imul__(self, o): return self._inplace(o, lambda a, b: a * b)

    def __iadd__(self, o):
        if self.is_list and isinstance(o, (list, tuple)):
            for v in o:
                self.append(v)
            return self
        if not self.is_list:
            return self._inplace(o, lambda a, b: a + b)
        raise OutOfReach('+= on a symbolic sequence')

    def extend(self, o):
        self.__iadd__(o)

    def append(self, v):
        n = self.n
        old = self.snapshot()
        for nm in ('place', 'source', 'parts', 'tag'):
            self.__dict__.pop(nm, None)
        if isinstance(v, R):
            def at(k):
                c = z3.simplify(iterm(k) == iterm(n))
                if z3.is_true(c) or z3.is_false(c):
                    return v if z3.is_true(c) else old.at(k)
                w = old.at(k)
                return sym.ite(B(c), v, w) if isinstance(w, R) else _pick(c, lambda: v, lambda: w)
            self._at = at
        else:
            self._at = lambda k: _pick(iterm(k) == iterm(n), lambda: v, lambda: old.at(k))
        self.over = []
        self.n = I(z3.simplify(iterm(n) + 1))

    def __radd__(self, o):
        if self.is_list and isinstance(o, (list, tuple)):
            r = self.snapshot()
            m, first = len(o), list(o)
            if m == 0:
                return r

            def at(k):
                kt = iterm(k)
                for j in range(m):
                    sc = z3.simplify(kt == j)
                    if z3.is_true(sc) or not z3.is_false(sc) and P().branch(sc):
                        return first[j]
                return r.at(I(z3.simplify(kt - m)))
            return Seq(I(z3.simplify(iterm(self.n) + m)), at, True)
        return self._ew(o, lambda a, b: b + a)

    def __add__(self, o):
        if self.is_list and isinstance(o, (list, tuple)):
            r = self.snapshot()
            for v in o:
                r.append(v)
            return r
        if not self.is_list:
            return zipmap(lambda a, b: a + b, self, o)
        raise OutOfReach('+ on a symbolic list')

    # -- elementwise arithmetic of arrays
    def _ew(self, o, f):
        if self.is_list:
            raise OutOfReach('arithmetic on a list')
        return zipmap(f, self, o)

    def __sub__(self, o): return self._ew(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ew(o, lambda a, b: b - a)
    def __mul__(self, o): return self._ew(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._ew(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._ew(o, lambda a, b: sym.sdiv(a, b))
    def __neg__(self): return self.map(lambda a: -a)
    def _test(self, o, f):
        r = self._ew(o, f)
        r.boolean = True
        return r

    def __lt__(self, o): return self._test(o, lambda a, b: a < b)
    def __le__(self, o): return self._test(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._test(o, lambda a, b: a > b)
    def __ge__(self, o): return self._test(o, lambda a, b: a >= b)
    def __and__(self, o): return self._test(o, lambda a, b: B(z3.And(sym.bterm(a), sym.bterm(b))))
    def __or__(self, o): return self._test(o, lambda a, b: B(z3.Or(sym.bterm(a), sym.bterm(b))))

    def __invert__(self):
        r = self.map(lambda a: B(z3.Not(sym.bterm(a))))
        r.boolean = True
        return r

    def __abs__(self): return self.map(abs)

    def flatnonzero(self):
        """ascending positions of the items that are true"""
        p = P()
        n, src = iterm(self.n), self.snapshot()
        m = p.fresh_int('hits')
        p.assume(z3.And(m >= 0, m <= n))
        f = z3.Function(p.name('hit'), z3.IntSort(), z3.IntSort())
        g = z3.Function(p.name('hit_no'), z3.IntSort(), z3.IntSort())

        def at(t):
            tt = z3.simplify(iterm(t))
            p.assume(z3.Implies(z3.And(tt >= 0, tt < m), z3.And(f(tt) >= 0, f(tt) < n, g(f(tt)) == tt, _truth(src.at(I(f(tt)))))))
            return I(f(tt))
        r = Seq(I(m), at, False)

        def place(k):
            kt = z3.simplify(iterm(k))
            p.assume(z3.Implies(z3.And(kt >= 0, kt < n, _truth(src.at(I(kt)))), z3.And(g(kt) >= 0, g(kt) < m, f(g(kt)) == kt)))
            return I(g(kt))
        r.hit, r.hit_no = (lambda k: B(_truth(src.at(I(iterm(k)))))), place
        return r

    # -- searches: a fresh index and universal facts, instantiated by P().inst(k)
    def forall(self):
        p = P()
        b = p.fresh_bool('all')
        fact = lambda k: z3.Implies(z3.And(b, k >= 0, k < iterm(self.n)), _truth(self.at(I(k))))
        p.univ.append(fact)
        if p.branch(b):
            for k in p.__dict__.get('always', []):
                p.assume(fact(k))
            return True
        w = p.fresh_int('wit')
        p.assume(z3.And(w >= 0, w < iterm(self.n)))
        p.assume(z3.Not(_truth(self.at(I(w)))))
        _searched(w)
        return False

    def exists(self):
        return not self.map(lambda v: B(z3.Not(_truth(v)))).forall()

    def _arg(self, sgn):
        p = P()
        n = iterm(self.n)
        p.prove('non-empty sequence', n > 0, 'definedness')
        i = p.fresh_int('arg')
        p.assume(z3.And(i >= 0, i < n))
        src = self.snapshot()
        vi = src.at(I(i))
        if isinstance(vi, B):
            ti = _truth(vi) if sgn > 0 else z3.Not(_truth(vi))
            tr = (lambda v: _truth(v)) if sgn > 0 else (lambda v: z3.Not(_truth(v)))
            p.assume(z3.Or(ti, i == 0))
            p.univ.append(lambda k: z3.Implies(z3.And(k >= 0, k < n),
                                               z3.And(z3.Implies(k < i, z3.Not(tr(src.at(I(k))))),
                                                      z3.Implies(z3.Not(ti), z3.Not(tr(src.at(I(k))))))))
        else:
            t = lambda k: sgn * term(src.at(I(k)))
            p.univ.append(lambda k: z3.Implies(z3.And(k >= 0, k < n),
                                               z3.And(t(k) <= sgn * term(vi), z3.Implies(k < i, t(k) < sgn * term(vi)))))
        p.__dict__.setdefault('searches', []).append((I(i), src))
        _searched(i)
        return I(i)

    def argmax(self):
        return self._arg(1)

    def argmin(self):
        return self._arg(-1)

    def max(self):
        return self.at(self._arg(1))

    def min(self):
        return self.at(self._arg(-1))

    def argsort(self):
        """a permutation of the indices under which the values ascend"""
        p = P()
        n = iterm(self.n)
        src = self.snapshot()
        v = lambda k: term(src.at(I(k)))
        probe = z3.Int('argsort_probe')
        key = (z3.simplify(n).get_id(), z3.simplify(v(probe)))
        memo = p.__dict__.setdefault('argsort_memo', [])
        for (kn, kv), r in memo:              # a function of the values
            if kn == key[0] and kv.eq(key[1]):
                return r
        f = z3.Function(p.name('perm'), z3.IntSort(), z3.IntSort())
        g = z3.Function(p.name('perm_inv'), z3.IntSort(), z3.IntSort())
        inr = lambda k: z3.And(k >= 0, k < n)

        def at(k):
            kt = iterm(k)
            p.assume(z3.Implies(inr(kt), z3.And(inr(f(kt)), g(f(kt)) == kt)))
            return I(f(kt))
        r = Seq(self.n, at, False)
        r.inverse = lambda k: (p.assume(z3.Implies(inr(iterm(k)), z3.And(inr(g(iterm(k))), f(g(iterm(k))) == iterm(k)))), I(g(iterm(k))))[1]
        p.__dict__.setdefault('univ2', []).append(
            lambda j, k: z3.Implies(z3.And(inr(j), inr(k), j < k), v(f(j)) <= v(f(k))))
        p.__dict__.setdefault('perms', []).append(r)
        memo.append((key, r))
        return r

    def sorted(self):
        return self[self.argsort()]

    def permuted(self, name='order'):
        """some permutation"""
        p = P()
        n, src = iterm(self.n), self.snapshot()
        f = z3.Function(p.name(name), z3.IntSort(), z3.IntSort())
        g = z3.Function(p.name(name + '_inv'), z3.IntSort(), z3.IntSort())
        inr = lambda k: z3.And(k >= 0, k < n)

        def at(k):
            kt = iterm(k)
            p.assume(z3.Implies(inr(kt), z3.And(inr(f(kt)), g(f(kt)) == kt)))
            return src.at(I(f(kt)))
        p.__dict__.setdefault('orders', []).append((f, g, self.n))
        return Seq(self.n, at, self.is_list)

    def shuffle(self):
        self.unshuffled = self.snapshot()
        r = self.permuted('shuffled')
        self._at, self.over = r._at, []

    def conv(self, f):
        if f in (list, tuple):
            return self.as_list()
        if f is sorted:
            if not P().branch(iterm(self.n) > 0):
                return self.as_list()
            if isinstance(self._some(), (R, I, int, float)):
                return self[self.argsort()].as_list()
            r = self.permuted('sorted')          # ascending in an order of the items that no contract needs
            r.is_list = True
            return r
        raise OutOfReach('%s() of a sequence of symbolic length' % f.__name__)

    def _some(self):
        """some item of a sequence that is not empty"""
        k = P().fresh_int('probe')
        P().assume(z3.And(k >= 0, k < iterm(self.n)))
        return self.at(I(k))

    def total(self, part=None):
        """the sum of the items (or of one coordinate of them): the last value of its partial sums"""
        p = P()
        f = z3.Function(p.name('partial_sum'), z3.IntSort(), z3.RealSort())
        p.assume(f(0) == 0)
        src, n = self.snapshot(), iterm(self.n)
        p.__dict__.setdefault('sums', []).append((src, part, f))
        t = f(n)
        if part is None:                          # a sum of positive numbers is positive
            e = p.fresh_int('item')
            v = term(src.at(I(e)))
            inr = z3.And(e >= 0, e < n)
            if p.forced(z3.Implies(inr, v > 0)):
                p.assume(z3.Implies(n > 0, t > 0))
            elif p.forced(z3.Implies(inr, v >= 0)):
                p.assume(t >= 0)
        return R(t)

    def mean(self, axis=None):
        p = P()
        p.prove('mean of a non-empty sequence', iterm(self.n) > 0, 'definedness')
        n = R(z3.ToReal(iterm(self.n)))
        if isinstance(self._some(), (R, I, int, float)):
            return sym.sdiv(self.total(), n)
        if axis != 0:
            raise OutOfReach('mean of all coordinates')
        r = np.empty(2, object)
        r[0], r[1] = sym.sdiv(self.total(0), n), sym.sdiv(self.total(1), n)
        return r

    def unique(self):
        """the different values: each is a value of this sequence, and each value of this sequence is among them"""
        p = P()
        n, src = iterm(self.n), self.snapshot()
        m = p.fresh_int('different')
        p.assume(z3.And(m <= n, z3.Implies(n >= 1, m >= 1), m >= 0))
        f = z3.Function(p.name('first'), z3.IntSort(), z3.IntSort())
        g = z3.Function(p.name('among'), z3.IntSort(), z3.IntSort())

        def at(k):
            kt = z3.simplify(iterm(k))
            if z3.is_app(kt) and kt.decl().eq(g):        # the value with index j is among them
                return src.at(I(kt.arg(0)))
            p.assume(z3.Implies(z3.And(kt >= 0, kt < m), z3.And(f(kt) >= 0, f(kt) < n, g(f(kt)) == kt)))
            return src.at(I(f(kt)))
        r = Seq(I(m), at, False)

        def place(j):
            jt = z3.simplify(iterm(j))
            p.assume(z3.Implies(z3.And(jt >= 0, jt < n), z3.And(g(jt) >= 0, g(jt) < m)))
            return I(g(jt))
        r.place, r.source = place, src
        p.__dict__.setdefault('uniques', []).append(r)
        return r

    def cumsum(self):
        p = P()
        f = z3.Function(p.name('cumsum'), z3.IntSort(), z3.RealSort())
        src = self.snapshot()

        def at(k):
            kt = z3.simplify(iterm(k))
            if z3.is_int_value(kt) and kt.as_long() == 0 or not z3.is_int_value(kt) and p.branch(kt == 0):
                p.assume(f(0) == term(src.at(0)))
                return R(f(0))
            p.assume(z3.Implies(kt > 0, f(kt) == f(kt - 1) + term(src.at(I(kt)))))
            p.assume(f(0) == term(src.at(0)))
            return R(f(kt))
        return Seq(self.n, at, False)

    def diff(self):
        p = P()
        p.prove('diff of a non-empty sequence', iterm(self.n) >= 1, 'definedness')
        src = self.snapshot()
        return Seq(I(z3.simplify(iterm(self.n) - 1)), lambda k: src.at(I(z3.simplify(iterm(k) + 1))) - src.at(k), False)

    def map(self, f):
        src = self if self.is_list else self.snapshot()
        return Seq(self.n, lambda k: f(src.at(k)), self.is_list)

    def as_array(self):
        from .npshim import array
        r = self.snapshot()
        if self.is_list:
            src = self.snapshot()
            r._at, r.over = lambda k: (lambda v: array(v) if isinstance(v, (list, tuple)) else v)(src.at(k)), []
        r.is_list = False
        return r

    def as_list(self):
        r = self.snapshot()
        r.is_list = True
        return r


class Masked:
    """x[mask] of an array of symbolic length: may be changed item by item and written back"""
    def __init__(self, src, mask):
        self.src, self.mask = src, mask

    def _op(self, o, f):
        if not isinstance(o, (R, int, float)):
            raise OutOfReach('arithmetic on a masked array')
        return Masked(self.src.map(lambda v: f(v, o)), self.mask)

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __mul__(self, o): return self._op(o, lambda a, b: a * b)
    __radd__, __rmul__ = __add__, __mul__

    def __getattr__(self, n):
        raise OutOfReach('masked array')

    def __iter__(self):
        raise OutOfReach('masked array')


def _same_mask(a, b):
    k = z3.Int('mask_probe')
    return z3.simplify(iterm(a.n)).eq(z3.simplify(iterm(b.n))) and \
        z3.simplify(sym.bterm(a.at(I(k)))).eq(z3.simplify(sym.bterm(b.at(I(k)))))


def unwrap(x):
    """numpy.unwrap: every item plus a multiple of 2 pi, such that no step is larger than half a turn"""
    p = P()
    src = x.snapshot()
    q_ = z3.Function(p.name('turns'), z3.IntSort(), z3.RealSort())
    pit = term(sym.pi())
    r = Seq(x.n, lambda k: src.at(k) + R(q_(iterm(k))), False)
    n = iterm(x.n)

    def step(k):
        d = q_(k + 1) - q_(k)
        e = term(src.at(I(k + 1))) - term(src.at(I(k)))
        return z3.Implies(z3.And(k >= 0, k + 1 < n), z3.And(d + e <= pit, d + e >= -pit, z3.Implies(z3.And(e <= pit, e >= -pit), d == 0)))
    p.univ.append(step)
    p.assume(q_(0) == 0)
    p.__dict__.setdefault('turns', []).append((r, lambda k: R(q_(iterm(k)))))
    return r


def _equal(a, b):
    """two items are equal: points and lists of numbers coordinate by coordinate"""
    if hasattr(a, '__len__') and hasattr(b, '__len__'):
        return z3.And(*[_equal(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else z3.BoolVal(False)
    if isinstance(a, (R, I, int, float, np.number)) and isinstance(b, (R, I, int, float, np.number)):
        return term(a) == term(b)
    raise OutOfReach('equality of %r and %r' % (type(a), type(b)))


def _ite(c, a, b):
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)) and len(a) == len(b):
        r = [_ite(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, np.ndarray):
            o = np.empty(len(r), object)
            for i, v in enumerate(r):
                o[i] = v
            return o
        return r
    return sym.ite(c, a, b)


def _truth(v):
    if isinstance(v, (R, I)):
        return v.t != 0
    return sym.bterm(v)


def concat(parts):
    """concatenation of sequences, arrays and numbers"""
    fs, lens, own = [], [], []
    for v in parts:
        if isinstance(v, Seq):
            w = v.snapshot()
            own.append((len(fs), w))
            fs.append(w.at)
            lens.append(iterm(w.n))
        else:
            w = list(v) if hasattr(v, '__len__') else [v]
            for e in w:
                fs.append(lambda k, e=e: e)
                lens.append(z3.IntVal(1))
    ends, t = [], z3.IntVal(0)
    for l in lens:
        t = z3.simplify(t + l)
        ends.append(t)

    def at(k):
        kt = iterm(k)
        for i, f in enumerate(fs):
            c = z3.simplify(kt < ends[i])
            if i == len(fs) - 1 or z3.is_true(c) or not z3.is_false(c) and P().branch(c):
                return f(I(z3.simplify(kt - (ends[i - 1] if i else 0))))
    r = Seq(I(t), at, False)
    r.parts = [(I(ends[i - 1]) if i else 0, w) for i, w in own]
    return r


def flatten(ls):
    """the lists ls[0], ls[1], ... one after the other: position k holds item inner(k) of list outer(k), and every item
    has a position"""
    p = P()
    src = ls.snapshot()
    n = iterm(src.n)
    total = p.fresh_int('total')
    p.assume(total >= 0)
    fo = z3.Function(p.name('outer'), z3.IntSort(), z3.IntSort())
    fi = z3.Function(p.name('inner'), z3.IntSort(), z3.IntSort())
    fp = z3.Function(p.name('place'), z3.IntSort(), z3.IntSort(), z3.IntSort())

    def size(l):
        return iterm(l.n) if isinstance(l, Seq) else z3.IntVal(len(l))

    def pick(l, j):
        return l.at(I(j)) if isinstance(l, Seq) else _select(l, j)

    def at(k):
        kt = z3.simplify(iterm(k))
        if z3.is_app(kt) and kt.decl().eq(fp):
            i, j = kt.arg(0), kt.arg(1)
        else:
            ok = z3.And(kt >= 0, kt < total)
            i, j = fo(kt), fi(kt)
            p.assume(z3.Implies(ok, z3.And(i >= 0, i < n)))
            p.assume(z3.Implies(ok, z3.And(j >= 0, j < size(src.at(I(i))), fp(i, j) == kt)))
        return pick(src.at(I(i)), j)

    r = Seq(I(total), at, True)

    def place(i, j):
        it, jt = z3.simplify(iterm(i)), z3.simplify(iterm(j))
        t = fp(it, jt)
        p.assume(z3.Implies(z3.And(it >= 0, it < n, jt >= 0, jt < size(src.at(I(it)))),
                            z3.And(t >= 0, t < total, fo(t) == it, fi(t) == jt)))
        return I(t)
    r.place, r.source = place, src
    p.__dict__.setdefault('flats', []).append(r)
    return r


def _select(l, j):
    for m in range(len(l)):
        c = z3.simplify(j == m)
        if m == len(l) - 1 or z3.is_true(c) or not z3.is_false(c) and P().branch(c):
            return l[m]
    raise OutOfReach('item of an empty list')


def vstack(parts):
    from .npshim import asarray
    out = []
    for v in parts:
        if isinstance(v, Seq):
            out.append(v)
            continue
        v = asarray(v)
        out.append([v] if v.ndim == 1 else [v[i] for i in range(len(v))])
    return concat(out)


def searchsorted(x, v, side='left'):
    """number of elements < v (left) or <= v (right) of an ascending sequence"""
    p = P()
    n = iterm(x.n)
    i = p.fresh_int('pos')
    src = x.snapshot()
    below = (lambda e: term(e) < term(v)) if side == 'left' else (lambda e: term(e) <= term(v))
    p.assume(z3.And(i >= 0, i <= n))
    p.univ.append(lambda k: z3.Implies(z3.And(k >= 0, k < n), (k < i) == below(src.at(I(k)))))
    for k in (i - 1, i):
        p.assume(z3.Implies(z3.And(k >= 0, k < n), (k < i) == below(src.at(I(k)))))
    p.session.used('numpy.searchsorted: the array is ascending where the code searches it')
    _searched(i)
    return I(i)


def _searched(i):
    """tells the contract about the index a search has found"""
    p = P()
    for f in p.__dict__.get('on_search', []):
        f(I(i))


def _pick(c, f, g):
    s = z3.simplify(c)
    if z3.is_true(s):
        return f()
    if z3.is_false(s):
        return g()
    if P().branch(s):
        return f()
    return g()


def zipmap(f, x, y):
    x, y = [v.snapshot() if isinstance(v, Seq) and not v.is_list else v for v in (x, y)]
    if isinstance(x, Seq) and isinstance(y, Seq):
        if not z3.is_true(z3.simplify(iterm(x.n) == iterm(y.n))):
            P().prove('operands have equal lengths', iterm(x.n) == iterm(y.n), 'definedness')
        return Seq(x.n, lambda k: f(x.at(k), y.at(k)), False)
    if isinstance(x, Seq):
        return Seq(x.n, lambda k: f(x.at(k), y), False)
    return Seq(y.n, lambda k: f(x, y.at(k)), False)


def rows(H, name, n):
    """n rows of two arbitrary reals"""
    fx = z3.Function(H.path.name(name + '_x'), z3.IntSort(), z3.RealSort())
    fy = z3.Function(H.path.name(name + '_y'), z3.IntSort(), z3.RealSort())

    def at(k):
        r = np.empty(2, object)
        r[0], r[1] = R(fx(iterm(k))), R(fy(iterm(k)))
        return r
    return Seq(n, at, False)


def reals(H, name, n, fact=None):
    f = z3.Function(H.path.name(name), z3.IntSort(), z3.RealSort())

    def at(k):
        v = R(f(iterm(k)))
        if fact:
            H.assume(fact(k, v))
        return v
    return Seq(n, at, False)
