"""Symbolic values over exact reals/integers and the path context."""
import sys
from fractions import Fraction
import z3
from .errors import OutOfReach, PathEnd

z3.set_param('memory_max_size', 6000)

INF = float('inf')


def q(v):
    """Exact z3 real numeral of a concrete number (floats read as the decimal they print as)."""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    v = float(v)
    if v != v or v in (INF, -INF):
        raise OutOfReach('non-finite number in symbolic arithmetic')
    return z3.RealVal(str(Fraction(repr(v))))


# --------------------------------------------------------------------------- paths
class Obligation:
    __slots__ = ('name', 'assumptions', 'goal', 'inputs', 'path', 'kind', 'line', 'sqrt_defs', 'status',
                 'backend', 'seconds', 'model', 'key', 'note', 'unit')

    def __init__(self, name, assumptions, goal, inputs, path, kind, line, sqrt_defs):
        self.name, self.assumptions, self.goal = name, assumptions, goal
        self.inputs, self.path, self.kind, self.line = inputs, path, kind, line
        self.sqrt_defs = sqrt_defs
        self.status, self.backend, self.seconds, self.model, self.note = None, None, 0.0, None, ''
        self.unit = None


class Path:
    """One symbolic execution path; decisions are replayed from a prefix."""

    def __init__(self, prefix, session):
        self.prefix = list(prefix)
        self.taken = []
        self.session = session
        self.assumptions = []
        self.known = {}
        self.inputs = {}
        self.counter = {}
        self.sqrt_memo = {}
        self.trig_memo = {}
        self.defs = []            # ordered list of (atom, kind, radicand / partner)
        self.solver = z3.Solver()
        self.solver.set('timeout', session.feas_ms)
        self.notes = []
        self.depth_limit = session.depth_limit
        self.trace = set()
        self.univ = []            # universal facts over indices: k -> formula

    # names must be reproducible when the prefix is replayed
    def name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)

    def fresh_real(self, base):
        return z3.Real(self.name(base))

    def fresh_int(self, base):
        return z3.Int(self.name(base))

    def fresh_bool(self, base):
        return z3.Bool(self.name(base))

    def assume(self, t):
        if t is True:
            return
        if t is False:
            raise PathEnd()
        t = z3.simplify(t) if z3.is_bool(t) else t
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathEnd()
        self.assumptions.append(t)
        self.solver.add(t)
        self._learn(t, True)

    def _learn(self, t, v):
        if z3.is_not(t):
            self._learn(t.arg(0), not v)
            return
        self.known[t.get_id()] = (v, t)
        if v and z3.is_and(t):
            for c in t.children():
                self._learn(c, True)
        if not v and z3.is_or(t):
            for c in t.children():
                self._learn(c, False)

    def inst(self, k):
        for f in list(self.univ):
            self.assume(f(k))

    def feasible(self, t):
        self.session.stats['feasibility_checks'] += 1
        r = self.solver.check(t)
        if r == z3.unknown and self.session.feas_nlsat:
            from . import solve
            nm = solve.Normal(1.0)
            g = nm.run(t)
            fl = [nm.run(a) for a in solve.filtered(self.assumptions, t, 2)]
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'simplify', 'qfnra-nlsat').solver()
            s.set('timeout', self.session.feas_nlsat)
            s.add(*fl)
            s.add(g)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
        return r != z3.unsat

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        k, neg = t, False
        while z3.is_not(k):
            k, neg = k.arg(0), not neg
        if k.get_id() in self.known:
            return self.known[k.get_id()][0] != neg
        i = len(self.taken)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if i > self.depth_limit:
                raise OutOfReach('more than %d decisions on one path' % self.depth_limit)
            ct = self.feasible(t)
            cf = self.feasible(z3.Not(t))
            if ct and cf:
                self.session.pending.append(self.taken + [False])
                d = True
            elif ct:
                d = True
            elif cf:
                d = False
            else:
                raise PathEnd()
        self.taken.append(d)
        self.assume(t if d else z3.Not(t))
        return d

    def forced(self, t):
        """whether t is known to hold here (no case split; the answer is recorded for replays of the path)"""
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        i = len(self.taken)
        d = self.prefix[i] if i < len(self.prefix) else not self.feasible(z3.Not(t))
        self.taken.append(d)
        if d:
            self.assume(t)
        return d

    def choose(self, n, feasible_all=True):
        """Demonic choice in range(n), as binary decisions recorded on the path."""
        for k in range(n - 1):
            i = len(self.taken)
            if i < len(self.prefix):
                d = self.prefix[i]
            else:
                self.session.pending.append(self.taken + [False])
                d = True
            self.taken.append(d)
            if d:
                return k
        return n - 1

    def prove(self, name, t, kind='post', then_assume=True):
        """Emit the obligation  assumptions |- t."""
        if t is True:
            self.session.trivial += 1
            self.session.count_name(name)
            return
        if t is False:
            t = z3.BoolVal(False)
        g = getattr(self, 'proved_before', None)
        if g is not None:                     # an item of a sequence, all of whose items are known to be defined
            self.assume(z3.Implies(g, t))
            return
        line = _caller_line()
        self.session.add(Obligation(name, list(self.assumptions), t, dict(self.inputs), list(self.taken), kind, line,
                                    list(self.defs)))
        self.proved_here = getattr(self, 'proved_here', 0) + 1
        if then_assume:
            st = z3.simplify(t)
            if z3.is_false(st):
                raise PathEnd()
            if not z3.is_true(st) and not z3.is_quantifier(st):
                self.assume(t)
            elif z3.is_quantifier(st):
                self.assumptions.append(t)


def _caller_line():
    f = sys._getframe(2)
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith('<repo>/'):
            return '%s:%d' % (fn[len('<repo>/'):], f.f_lineno)
        f = f.f_back
    return ''


class _Ctx:
    path = None
    env = None


CTX = _Ctx()


def P():
    if CTX.path is None:
        raise OutOfReach('symbolic operation outside a path')
    return CTX.path


# --------------------------------------------------------------------------- values
def is_num(v):
    return isinstance(v, (int, float, Fraction)) or \
        hasattr(v, '__float__') and type(v).__module__ == 'numpy' and getattr(v, 'ndim', 1) == 0


def term(v):
    """z3 real term of a value."""
    if isinstance(v, R):
        return v.t
    if isinstance(v, I):
        return z3.ToReal(v.t)
    if isinstance(v, B):
        return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
    if is_num(v):
        return q(v)
    if hasattr(v, 'shape') and v.shape == () and hasattr(v, 'item'):
        return term(v.item())
    raise OutOfReach('no real term for %r' % (type(v),))


def iterm(v):
    if isinstance(v, z3.ArithRef) and v.is_int():
        return v
    if isinstance(v, I):
        return v.t
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if hasattr(v, 'dtype') and v.dtype.kind in 'iu':
        return z3.IntVal(int(v))
    raise OutOfReach('no int term for %r' % (type(v),))


def bterm(v):
    if isinstance(v, B):
        return v.t
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, (bool,)) or type(v).__name__ == 'bool':
        return z3.BoolVal(bool(v))
    if hasattr(v, 'dtype') and v.shape == ():
        return bterm(v.item())
    raise OutOfReach('no bool term for %r' % (type(v),))


def _inf(v):
    return isinstance(v, float) and v in (INF, -INF)


def _other(v):
    return isinstance(v, (R, I, B)) or is_num(v)


class _Scalar:
    """Scalar protocol shared by R and I (numpy scalars offer these too)."""
    ndim = 0
    shape = ()
    size = 1
    __array_priority__ = -1

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def astype(self, *_a, **_k):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    # numpy calls these methods for ufuncs on object arrays
    def sqrt(self):
        return sqrt(self)

    def cos(self):
        return cos(self)

    def sin(self):
        return sin(self)

    def square(self):
        return self * self


class R(_Scalar):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def _b(self, o, f):
        if not _other(o):
            return NotImplemented
        return R(f(self.t, term(o)))

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _other(o):
            return NotImplemented
        return sdiv(self, o)

    def __rtruediv__(self, o):
        if not _other(o):
            return NotImplemented
        return sdiv(o, self)

    def __pow__(self, n):
        return spow(self, n)

    def __neg__(self):
        return R(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return R(z3.If(self.t >= 0, self.t, -self.t))

    def _cmp(self, o, op):
        if _inf(o):
            big = o > 0
            return {'<': big, '<=': big, '>': not big, '>=': not big, '==': False, '!=': True}[op]
        if not _other(o):
            return NotImplemented
        a, b = self.t, term(o)
        return B({'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
                  '==': lambda: a == b, '!=': lambda: a != b}[op]())

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r

    def __hash__(self):
        return self.t.hash()

    def __bool__(self):
        return P().branch(self.t != 0)

    def __float__(self):
        s = z3.simplify(self.t)
        if z3.is_rational_value(s):
            return float(s.as_fraction())
        raise OutOfReach('float() of a symbolic real outside the shim')

    def __repr__(self):
        return 'R(%s)' % (z3.simplify(self.t),)

    def __format__(self, spec):
        return repr(self)


class I(_Scalar):
    """Symbolic integer (index arithmetic)."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def _b(self, o, f):
        if isinstance(o, I) or isinstance(o, int) or hasattr(o, 'dtype') and o.dtype.kind in 'iu' and o.shape == ():
            return I(f(self.t, iterm(o)))
        if isinstance(o, (R, float, Fraction)):
            return R(f(z3.ToReal(self.t), term(o)))
        return NotImplemented

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self):
        return I(-self.t)

    def __mod__(self, o):
        m = z3.simplify(_posmod(o))
        if z3.is_int_value(m):
            return I(self.t % m)
        p, k = P(), self.t                   # modulus not known: one turn around suffices in practice
        r = p.fresh_int('mod')
        p.assume(z3.Implies(m > 0, z3.And(r >= 0, r < m)))
        return I(z3.simplify(z3.If(z3.And(k >= 0, k < m), k, z3.If(z3.And(k >= m, k < 2 * m), k - m,
                                                                   z3.If(z3.And(k < 0, k >= -m), k + m, r)))))

    def __floordiv__(self, o):
        return I(self.t / _posmod(o))

    def __truediv__(self, o):
        return sdiv(self, o)

    def __rtruediv__(self, o):
        return sdiv(o, self)

    def __pow__(self, n):
        return spow(self, n)

    def __abs__(self):
        return I(z3.If(self.t >= 0, self.t, -self.t))

    def _cmp(self, o, op):
        if _inf(o):
            big = o > 0
            return {'<': big, '<=': big, '>': not big, '>=': not big, '==': False, '!=': True}[op]
        if isinstance(o, (I, int)) or hasattr(o, 'dtype') and o.dtype.kind in 'iu':
            a, b = self.t, iterm(o)
        elif isinstance(o, (R, float, Fraction)):
            a, b = z3.ToReal(self.t), term(o)
        else:
            return NotImplemented
        return B({'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
                  '==': lambda: a == b, '!=': lambda: a != b}[op]())
    __lt__, __le__, __gt__, __ge__ = (lambda s, o: s._cmp(o, '<')), (lambda s, o: s._cmp(o, '<=')), \
        (lambda s, o: s._cmp(o, '>')), (lambda s, o: s._cmp(o, '>='))

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r

    def __hash__(self):
        return self.t.hash()

    def __bool__(self):
        return P().branch(self.t != 0)

    def __index__(self):
        s = z3.simplify(self.t)
        if z3.is_int_value(s):
            return s.as_long()
        raise OutOfReach('symbolic integer used as a concrete index')

    def __repr__(self):
        return 'I(%s)' % (z3.simplify(self.t),)


def _posmod(o):
    t = iterm(o)
    P().prove('positive modulus', t > 0, 'definedness')
    return t


class B:
    """Symbolic boolean; using it as a condition forks the path."""
    __slots__ = ('t',)
    ndim = 0
    shape = ()

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return P().branch(self.t)

    def __and__(self, o):
        return B(z3.And(self.t, bterm(o)))
    __rand__ = __and__

    def __or__(self, o):
        return B(z3.Or(self.t, bterm(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return B(z3.Xor(self.t, bterm(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return B(z3.Not(self.t))

    def __eq__(self, o):
        try:
            return B(self.t == bterm(o))
        except OutOfReach:
            return False

    def __ne__(self, o):
        try:
            return B(self.t != bterm(o))
        except OutOfReach:
            return True

    def __hash__(self):
        return self.t.hash()

    def __deepcopy__(self, memo):
        return self

    def __mul__(self, o):
        return R(term(self) * term(o))
    __rmul__ = __mul__

    def __add__(self, o):
        return R(term(self) + term(o))
    __radd__ = __add__

    def __neg__(self):
        return R(-term(self))

    def __repr__(self):
        return 'B(%s)' % (z3.simplify(self.t),)


# --------------------------------------------------------------------------- arithmetic
def const(t):
    s = z3.simplify(t)
    return s.as_fraction() if z3.is_rational_value(s) else None


def sdiv(a, b):
    if isinstance(b, float) and _inf(b) and not _inf(a):
        return R(q(0))
    ta, tb = term(a), term(b)
    c = const(tb)
    if c is not None:
        if c == 0:
            P().prove('division by zero', False, 'definedness')
        return R(z3.simplify(ta / tb)) if const(ta) is not None else R(ta / tb)
    P().prove('divisor is non-zero', tb != 0, 'definedness')
    from .solve import quotient
    qt = quotient(ta, tb)
    if qt is not None:
        return R(qt)
    return R(ta / tb)


def spow(a, n):
    if isinstance(n, R):
        c = const(n.t)
        if c is None:
            raise OutOfReach('symbolic exponent')
        n = c
    if isinstance(n, float) and float(n).is_integer():
        n = int(n)
    if isinstance(n, Fraction) and n.denominator == 1:
        n = int(n)
    if isinstance(n, int):
        if n < 0:
            return sdiv(1, spow(a, -n))
        r = q(1)
        t = term(a)
        if n == 0:
            return R(r)
        r = t
        for _ in range(n - 1):
            r = r * t
        return R(r)
    if Fraction(n) == Fraction(1, 2):
        return sqrt(a)
    raise OutOfReach('exponent %r' % (n,))


def sqrt(a):
    """Non-negative square root: fresh r with r >= 0 and r*r = a (obligation a >= 0)."""
    t = z3.simplify(term(a), som=True)
    c = const(t)
    p = P()
    if c is not None:
        if c < 0:
            p.prove('square root of a negative number', False, 'definedness')
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return R(q(Fraction(n, d)))
    k = t.get_id()
    if k in p.sqrt_memo:
        return p.sqrt_memo[k][0]
    if c is None and not _sum_of_squares(term(a)):
        p.prove('square root argument is non-negative', term(a) >= 0, 'definedness')
    r = p.fresh_real('sqrt')
    p.defs.append((r, 'sqrt', term(a)))
    p.assume(z3.And(r >= 0, r * r == term(a)))
    v = R(r)
    p.sqrt_memo[k] = (v, t)
    return v


def _sum_of_squares(t):
    """Syntactic test for a sum of squares x*x + y*y + c (c >= 0)."""
    if z3.is_rational_value(t):
        return t.as_fraction() >= 0
    if z3.is_add(t):
        return all(_sum_of_squares(c) for c in t.children())
    if z3.is_mul(t) and t.num_args() == 2:
        return t.arg(0).eq(t.arg(1)) or _sum_of_squares(t.arg(0)) and _sum_of_squares(t.arg(1))
    if z3.is_div(t):
        return _sum_of_squares(t.arg(0)) and _sum_of_squares(t.arg(1))
    return False


PI = z3.Real('pi')


def pi():
    p = P()
    if 'pi' not in p.trig_memo:
        p.trig_memo['pi'] = True
        p.assume(z3.And(PI > q(Fraction('3.14159265')), PI < q(Fraction('3.14159266'))))
    return R(PI)


def trig(a):
    """(cos, sin) atoms of an angle with cos^2 + sin^2 = 1."""
    p = P()
    t = z3.simplify(term(a), som=True)
    c = const(t)
    if c is not None and c == 0:
        return R(q(1)), R(q(0))
    # multiples of pi/2 are exact
    m = const(z3.simplify(t / PI, som=True)) if _only_pi(t) else None
    if m is not None and (2 * m).denominator == 1:
        k = int(2 * m) % 4
        return R(q([1, 0, -1, 0][k])), R(q([0, 1, 0, -1][k]))
    neg = z3.simplify(-t, som=True)
    if neg.get_id() in p.trig_memo:
        c_, s_ = p.trig_memo[neg.get_id()][:2]
        return c_, -s_
    k = t.get_id()
    lz = p.__dict__.get('lazy_trig', {})
    if k in lz and k not in p.trig_memo:
        c_, s_ = lz[k][0]()
        p.trig_memo[k] = (c_, s_, t)
    if k not in p.trig_memo:
        cc, ss = p.fresh_real('cos'), p.fresh_real('sin')
        p.defs.append((ss, 'sin', 1 - cc * cc))
        p.assume(cc * cc + ss * ss == 1)
        p.assume(z3.Implies(t == 0, z3.And(cc == 1, ss == 0)))
        p.trig_memo[k] = (R(cc), R(ss), t)
        p.session.used('axiom: cos^2+sin^2=1 for every angle')
    return p.trig_memo[k][:2]


def _only_pi(t):
    return z3.is_const(t) and t.eq(PI) or z3.is_mul(t) and any(c.eq(PI) for c in t.children()) and t.num_args() == 2


def cos(a):
    return trig(a)[0]


def sin(a):
    return trig(a)[1]


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return R(z3.If(bterm(c), term(a), term(b)))
