"""Run-time side of the AST transform: contract dispatch, arithmetic definedness, loop cut points."""
import builtins
import functools
import inspect
import sys
import types
from fractions import Fraction
import numpy as np
import z3
from .errors import OutOfReach, PathEnd
from . import sym
from .sym import R, I, B, CTX


class Poison:
    """Value of a variable after a loop cut that no invariant describes; any use is out of reach."""
    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def _bad(self, *_a, **_k):
        raise OutOfReach('variable %r is used after a loop but no invariant describes it' % (
            object.__getattribute__(self, '_n'),))
    __getattr__ = __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __len__ = __iter__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __getitem__ = __setitem__ = __neg__ = _bad
    __iadd__ = __isub__ = __float__ = __int__ = __index__ = __abs__ = __truediv__ = __rtruediv__ = _bad

    def __deepcopy__(self, memo):
        return self
    __hash__ = None


def div(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        f = np.frompyfunc(lambda x, y: sym.sdiv(x, y), 2, 1)
        return f(a, b)
    if hasattr(a, '_seq_') or hasattr(b, '_seq_'):
        return a / b
    if isinstance(a, (R, I, B)) or isinstance(b, (R, I, B)):
        return sym.sdiv(a, b)
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)):
        if any(v in (sym.INF, -sym.INF) for v in (a, b)):
            return a / b
        if b == 0:
            raise ZeroDivisionError('division by zero')
        if CTX.path is None:
            return a / b
        x = Fraction(repr(a)) if isinstance(a, float) else Fraction(a)
        y = Fraction(repr(b)) if isinstance(b, float) else Fraction(b)
        return Fraction(x, 1) / y
    return a / b


def idiv(a, b):
    if isinstance(a, np.ndarray):
        a[...] = div(a, b)                     # in place, as numpy does
        return a
    if hasattr(a, '_seq_'):
        return a.__itruediv__(b)
    return div(a, b)


def pow(a, b):
    if isinstance(a, np.ndarray):
        return np.frompyfunc(lambda x: sym.spow(x, b), 1, 1)(a)
    if isinstance(a, (R, I, B)) or isinstance(b, (R, I, B)):
        return sym.spow(a, b)
    return a ** b


# ------------------------------------------------------------------------- contract dispatch
def fn(qual):
    def deco(f):
        if not inspect.isfunction(f):
            return f
        sig = None

        @functools.wraps(f)
        def wrapper(*args, **kw):
            nonlocal sig
            env = CTX.env
            if env is None:
                return f(*args, **kw)
            st = env.stubs.get(qual)
            if st is not None:
                d = env.depth.get(qual, 0)
                if d >= st[1]:
                    if sig is None:
                        sig = inspect.signature(f)
                    ba = sig.bind(*args, **kw)
                    ba.apply_defaults()
                    env.stub_calls[qual] = env.stub_calls.get(qual, 0) + 1
                    return st[0](dict(ba.arguments))
            env.depth[qual] = env.depth.get(qual, 0) + 1
            env.calls[qual] = env.calls.get(qual, 0) + 1
            if env.depth[qual] > 40:
                raise OutOfReach('recursion deeper than 40 in %s without a contract' % qual)
            try:
                return f(*args, **kw)
            finally:
                env.depth[qual] -= 1
        wrapper._real = f
        return wrapper
    return deco


# ------------------------------------------------------------------------- loops
class LoopInfo:
    def __init__(self, qual, ordinal, kind, iterable, loc, assigned, roots, targets=()):
        self.qual, self.ordinal, self.kind, self.iter = qual, ordinal, kind, iterable
        self.locals, self.assigned, self.roots, self.targets = loc, assigned, roots, targets


class LoopSpec:
    """One loop contract.  Subclasses give
       match(L)           is this the loop the contract is about (by role, not by name)
       havoc(H, L, st)    dict: fresh values of the variables the loop changes
       inv(H, L, st, k)   list of (name, Prop): the invariant in state st before iteration k
       frame              extra names the loop may mutate"""
    frame = ()
    aside = False
    kind = 'invariant'

    def match(self, L):
        return True

    def havoc(self, H, L, st):
        return {}

    def inv(self, H, L, st, k):
        return []

    def at_entry(self, H, L, st):
        pass

    def variant(self, H, L, st):
        return None


def _find_spec(L):
    env = CTX.env
    if env is None:
        return None
    for s in env.loops.get(L.qual, ()):
        if s.match(L):
            return s
    return None


def _len_item(x):
    """(length, item(k)) of an iterable a loop contract may cut."""
    if hasattr(x, '_seq_'):
        return x.n, getattr(x, 'cell', x.at)
    if isinstance(x, SymRange):
        return x.n, x.at
    if isinstance(x, SymEnum):
        n, at = _len_item(x.it)
        return n, lambda k: (k if not x.start else k + x.start, at(k))
    if isinstance(x, range):
        return len(x), lambda k: x[k] if isinstance(k, int) else I(z3.IntVal(x.start) + k.t * x.step)
    if isinstance(x, (list, tuple)):
        return len(x), lambda k: x[k]
    raise OutOfReach('loop contract over %r' % type(x))


class _Cut:
    def __init__(self, spec, L):
        self.spec, self.L = spec, L
        env = CTX.env
        H = env.H
        st = dict(L.locals)
        undeclared = set(L.roots) & set(L.locals)
        p = sym.P()
        self.where = '%s loop %d' % (L.qual, L.ordinal)
        env.loops_cut.add(self.where)
        spec.at_entry(H, L, st)
        if L.kind == 'for':
            self.n, self.item = _len_item(L.iter)
        # aside: the entry obligations end a path of their own, so that their case splits do not multiply the rest
        if not spec.aside or p.branch(p.fresh_bool('aside')):
            for nm, pr in spec.inv(H, L, st, 0):
                H.check('%s: invariant "%s" holds on entry' % (self.where, nm), pr, spec.kind)
            if spec.aside:
                raise PathEnd()
        fresh = spec.havoc(H, L, st)
        bad = undeclared - set(fresh) - set(spec.frame)
        if bad:
            raise OutOfReach('%s mutates %s, which its contract does not mention' % (self.where, sorted(bad)))
        self.values = {}
        for v in L.assigned:
            if v in fresh:
                self.values[v] = fresh[v]
            elif v in spec.frame:
                self.values[v] = L.locals.get(v)
            else:
                self.values[v] = Poison(v)
        st2 = dict(st)
        st2.update(self.values)
        if L.kind == 'for':
            self.k = I(p.fresh_int('k'))
            n = self.n
            p.assume(z3.And(self.k.t >= 0, self.k.t <= sym.iterm(n)))
        else:
            self.k = I(p.fresh_int('k'))
            p.assume(self.k.t >= 0)
        for nm, pr in spec.inv(H, L, st2, self.k):
            H.assume(pr)
        self.var0 = None
        self.st2 = st2
        self.state = 0

    def h(self, v):
        return self.values[v]

    def preserved(self, frame):
        H = CTX.env.H
        st = dict(frame.f_locals)
        for nm, pr in self.spec.inv(H, self.L, st, self.k + 1):
            H.check('%s: invariant "%s" is preserved' % (self.where, nm), pr, self.spec.kind)
        if self.var0 is not None:
            v1 = self.spec.variant(H, self.L, st)
            H.check('%s: the variant decreases' % self.where, H.and_(H.lt(v1, self.var0), H.le(0, self.var0)), 'variant')
        raise PathEnd()


class ForCut(_Cut):
    cut = True

    def __iter__(self):
        return self

    def __next__(self):
        if self.state == 0:
            self.state = 1
            if sym.P().branch(self.k.t < sym.iterm(self.n)):
                it = self.item(self.k)
                return it
            raise StopIteration
        self.preserved(sys._getframe(1))


class WhileCut(_Cut):
    cut = True

    def step(self):
        if self.state == 0:
            self.state = 1
            self.var0 = self.spec.variant(CTX.env.H, self.L, self.st2)
            return True
        self.preserved(sys._getframe(1))


class PlainFor:
    cut = False

    def __init__(self, it, where):
        self.it, self.where, self.cnt = iter(it), where, 0

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def h(self, v):
        raise AssertionError


class PlainWhile:
    cut = False

    def __init__(self, where):
        self.where, self.cnt = where, 0

    def step(self):
        self.cnt += 1
        if CTX.env is not None and self.cnt > CTX.env.unroll:
            raise OutOfReach('%s: more than %d iterations and no loop contract' % (self.where, CTX.env.unroll))
        return True


def floop(qual, ordinal, iterable, loc, assigned, roots, targets):
    L = LoopInfo(qual, ordinal, 'for', iterable, loc, assigned, roots, targets)
    s = _find_spec(L)
    if s is None:
        if isinstance(iterable, (list, tuple, range, np.ndarray)):
            return _plain(iterable)
        return PlainFor(iterable, qual)
    return ForCut(s, L)


class _plain:
    cut = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


def wloop(qual, ordinal, loc, assigned, roots):
    L = LoopInfo(qual, ordinal, 'while', None, loc, assigned, roots)
    s = _find_spec(L)
    if s is None:
        return PlainWhile('%s loop %d' % (qual, ordinal))
    return WhileCut(s, L)


def comp(it, f, has_if):
    if hasattr(it, '_seq_') or isinstance(it, (SymRange, SymEnum)):
        if has_if:
            return Filtered(*_len_item(it), _frozen(f))
        from .seq import Seq
        n, at = _len_item(it)
        p = sym.P()
        nt = sym.iterm(n)
        if not z3.is_true(z3.simplify(nt == 0)) and p.branch(nt > 0):       # every element is defined: an arbitrary one
            k = p.fresh_int('elem')
            p.assume(z3.And(k >= 0, k < nt))
            f([at(I(k))])
        f = _frozen(f)
        memo, draws = {}, {}

        def elem(k):                                        # the list is built once: an element is one value
            t = z3.simplify(sym.iterm(k))
            if t.get_id() not in memo:
                p = sym.P()
                old = getattr(p, 'proved_before', None)
                p.proved_before = z3.And(t >= 0, t < nt)
                outer, p.item = getattr(p, 'item', None), [draws, t, 0]
                try:
                    memo[t.get_id()] = (t, f([at(k)])[0])
                finally:
                    p.proved_before, p.item = old, outer
            return memo[t.get_id()][1]
        return Seq(n, elem)
    return f(it)


def gen(it, lazy, eager, has_if):
    if hasattr(it, '_seq_') or isinstance(it, (SymRange, SymEnum)):
        return comp(it, eager, has_if)
    return lazy(it)


class Filtered:
    """[E for T in ITER if C] over a sequence of symbolic length: known only through any() and all()"""
    def __init__(self, n, item, f):
        self.n, self.item, self.f = n, item, f

    def _search(self, want):
        """is there an element whose truth is want?"""
        from .seq import _truth, _searched
        p = sym.P()
        nt = sym.iterm(self.n)

        def hit(k):                                     # the elements of the list that item k gives: none or one
            r = self.f([self.item(I(k))])
            return z3.BoolVal(False) if not r else _truth(r[0]) if want else z3.Not(_truth(r[0]))
        if p.branch(p.fresh_bool('none')):
            p.univ.append(lambda k: z3.Implies(z3.And(k >= 0, k < nt), z3.Not(hit(k))))
            return False
        w = p.fresh_int('wit')
        p.assume(z3.And(w >= 0, w < nt))
        p.assume(hit(w))
        _searched(w)
        return True

    def exists(self):
        return self._search(True)

    def forall(self):
        return not self._search(False)

    def __iter__(self):
        raise OutOfReach('iteration over a filtered sequence of symbolic length')


def dcomp(pairs):
    if not hasattr(pairs, '_seq_'):
        return builtins.dict(pairs)
    return SymDict(pairs)


class SymDict:
    """{K: V for T in ITER} over a sequence of symbolic length"""
    def __init__(self, pairs):
        self.pairs, self.over = pairs.snapshot(), []

    def _find(self, key):
        from .seq import _equal
        for k, v in reversed(self.over):
            if sym.P().branch(_equal(k, key)):
                return True, v
        if isinstance(key, (I, int)):                   # the key is its own position
            kt = sym.iterm(key)
            if sym.P().forced(z3.And(kt >= 0, kt < sym.iterm(self.pairs.n))):
                k, v = self.pairs.at(I(kt))
                if sym.P().forced(_equal(k, key)):
                    return True, v
        raise OutOfReach('key of a dictionary made from a sequence of symbolic length')

    def __getitem__(self, key):
        return self._find(key)[1]

    def __setitem__(self, key, v):
        self.over.append((key, v))

    def __contains__(self, key):
        return self._find(key)[0]


def _frozen(f):
    """f with the values its free variables have now"""
    def cell(c):
        try:
            v = c.cell_contents
        except ValueError:
            return c
        return types.CellType(v.snapshot() if hasattr(v, '_seq_') else v)
    if not f.__closure__:
        return f
    g = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cell(c) for c in f.__closure__))
    g.__kwdefaults__ = f.__kwdefaults__
    return g


def flat(ls):
    """the lists one after the other"""
    if not hasattr(ls, '_seq_'):
        ls = builtins.list(ls)
        if not any(hasattr(l, '_seq_') for l in ls):
            return [v for l in ls for v in l]
        from .seq import concat
        return concat(ls).as_list()
    from .seq import flatten
    return flatten(ls)


class SymRange:
    """range with a symbolic bound (step 1 or -1)."""
    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = a, b, step
        t = step * (sym.iterm(b) - sym.iterm(a))
        self.n = I(z3.simplify(z3.If(t >= 0, t, z3.IntVal(0))))

    def at(self, k):
        return I(z3.simplify(sym.iterm(self.a) + self.step * sym.iterm(k)))

    def __iter__(self):
        raise OutOfReach('loop with a symbolic number of iterations and no contract')

    def __len__(self):
        raise OutOfReach('len of a symbolic range')


class SymEnum:
    def __init__(self, it, start=0):
        self.it, self.start = it, start

    def __iter__(self):
        raise OutOfReach('loop with a symbolic number of iterations and no contract')


# ------------------------------------------------------------------------- builtins
def b_len(x):
    if hasattr(x, '_seq_'):
        return x.n
    return builtins.len(x)


def b_range(*a):
    if any(isinstance(v, I) for v in a):
        a = [v.__index__() if isinstance(v, I) and sym.const(z3.ToReal(v.t)) is not None else v for v in a]
    if any(isinstance(v, I) for v in a):
        if len(a) == 1:
            return SymRange(0, a[0])
        if len(a) == 2:
            return SymRange(a[0], a[1])
        if a[2] in (1, -1):
            return SymRange(*a)
        raise OutOfReach('symbolic range with a step')
    return range(*a)


def b_enumerate(x, start=0):
    if hasattr(x, '_seq_') or isinstance(x, SymRange):
        return SymEnum(x, start)
    return enumerate(x, start)


def b_zip(*a, **k):
    if any(hasattr(x, '_seq_') for x in a):
        from .seq import Seq
        ns = [x.n if hasattr(x, '_seq_') else builtins.len(x) for x in a]
        for m in ns[1:]:
            sym.P().prove('zip of equal lengths', sym.iterm(ns[0]) == sym.iterm(m), 'definedness')
        return Seq(ns[0], lambda k: tuple(x.at(k) for x in a))
    return zip(*a, **k)


def b_float(x=0.):
    if isinstance(x, (R, I)):
        return x if isinstance(x, R) else R(sym.term(x))
    if isinstance(x, np.ndarray) and x.size == 1 and x.dtype == object:
        return x.reshape(-1)[0]
    return float(x)


def b_int(x=0, *a):
    if isinstance(x, I):
        return x
    if isinstance(x, R):
        raise OutOfReach('int() of a symbolic real')
    return int(x, *a)


def _mm(args, better):
    if len(args) == 1:
        if hasattr(args[0], '_seq_'):
            raise OutOfReach('min/max of a symbolic sequence')
        args = list(args[0])
    if not any(isinstance(v, (R, I)) for v in args):
        return None
    r = args[0]
    for v in args[1:]:
        # first extreme wins, as in Python
        if isinstance(r, R) or isinstance(v, R) or isinstance(r, float) or isinstance(v, float):
            r = sym.ite(better(v, r), v, r)
        else:
            c = sym.bterm(better(v, r))
            r = I(z3.If(c, sym.iterm(v), sym.iterm(r)))
    return r


def b_min(*a, **k):
    if k:
        return min(*a, **k)
    r = _mm(a, lambda v, r: v < r)
    return min(*a) if r is None else r


def b_max(*a, **k):
    if k:
        return max(*a, **k)
    r = _mm(a, lambda v, r: v > r)
    return max(*a) if r is None else r


def b_any(x):
    if hasattr(x, '_seq_') or isinstance(x, Filtered):
        return x.exists()
    for v in x:
        if v:
            return True
    return False


def b_all(x):
    if hasattr(x, '_seq_') or isinstance(x, Filtered):
        return x.forall()
    for v in x:
        if not v:
            return False
    return True


def b_sum(x, start=0):
    if hasattr(x, '_seq_'):
        t = x.total()
        return t if isinstance(start, int) and start == 0 else start + t
    r = start
    for v in x:
        r = r + v
    return r


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    if hasattr(x, '_seq_') and (list in ts and x.is_list or np.ndarray in ts and not x.is_list):
        return True
    return isinstance(x, t)


class _TypeMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1:
            x = a[0]
            if hasattr(x, '_seq_'):
                return list if x.is_list else np.ndarray
            if isinstance(x, R):
                return float
            if isinstance(x, I):
                return int
        return type(*a, **k)

    def __instancecheck__(cls, o):
        return isinstance(o, type)


class SymType(metaclass=_TypeMeta):
    pass


def conv(f, x):
    """list(x), set(x), sorted(x), tuple(x)"""
    if hasattr(x, '_seq_') and f in (list, set, sorted, tuple):
        if hasattr(x, 'conv'):
            return x.conv(f)
        if f is list:
            return x.as_list()
        raise OutOfReach('%s() of a sequence of symbolic length' % f.__name__)
    return f(x)


def b_reversed(x):
    if isinstance(x, SymRange):
        return SymRange(x.at(x.n - 1), x.at(x.n - 1) - x.step * x.n, -x.step)
    if hasattr(x, '_seq_'):
        from .seq import Seq
        src = x.snapshot()
        return Seq(src.n, lambda k: src.at(src.n - 1 - k), True)
    return reversed(x)


def b_abs(x):
    return builtins.abs(x)


def b_print(*a, **k):
    pass


class _FloatMeta(type):
    def __call__(cls, *a):
        return b_float(*a)

    def __instancecheck__(cls, o):
        return isinstance(o, (float, R))

    def __subclasscheck__(cls, o):
        return issubclass(o, float)


class SymFloat(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __call__(cls, *a):
        return b_int(*a)

    def __instancecheck__(cls, o):
        return isinstance(o, (int, I))

    def __subclasscheck__(cls, o):
        return issubclass(o, int)


class SymInt(metaclass=_IntMeta):
    pass


BUILTINS = dict(len=b_len, range=b_range, enumerate=b_enumerate, zip=b_zip, min=b_min, max=b_max,
                type=SymType, any=b_any, all=b_all, reversed=b_reversed, sum=b_sum, isinstance=b_isinstance, print=b_print)


class _Rt:
    pass


RT = _Rt()
for _n in ('div', 'idiv', 'pow', 'fn', 'floop', 'wloop', 'comp', 'gen', 'dcomp', 'flat', 'conv'):
    setattr(RT, _n, globals()[_n])
