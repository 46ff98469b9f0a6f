"""numpy / math / time / random seen by the symbolically executed code.

Arrays are real numpy object arrays, so shapes, views, aliasing and broadcasting are numpy's own; the
functions below replace the ones that must act on symbolic reals.  Everything else falls back to numpy
when all arguments are ordinary numbers and is out of reach otherwise."""
import types
from fractions import Fraction
import numpy as np
import z3
from .errors import OutOfReach
from . import sym
from .sym import R, I, B, P, q, term

SYMT = (R, I, B)


def is_sym(x):
    return isinstance(x, SYMT)


def has_seq(x):
    return hasattr(x, '_seq_')


def _any_sym(x, depth=0):
    if is_sym(x) or has_seq(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(_any_sym(v, depth + 1) for v in x)
    return False


def _elem(x):
    return x


def array(x, dtype=None, copy=True, ndmin=0, **k):
    if has_seq(x):
        return x.as_array()
    if isinstance(x, np.ndarray):
        return x.astype(object) if x.dtype.kind in 'fc' else x.copy()
    if isinstance(x, (list, tuple)) and any(has_seq(v) for v in x):
        raise OutOfReach('array of sequences of symbolic length')
    if is_sym(x):
        r = np.empty((), object)
        r[()] = x
        return r
    x = _delist(x)
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return np.array([], object)
        kinds = _leaf_kinds(x)
        if kinds <= {'int', 'bool'} and dtype in (None, int):
            return np.array(x)
        r = _build(x)
        return r
    if isinstance(x, (int, float, Fraction)) and not isinstance(x, bool):
        r = np.empty((), object)
        r[()] = x
        return r
    return np.array(x, dtype=object) if not isinstance(x, (str, bytes)) else np.array(x)


def _delist(x):
    if hasattr(x, '__iter__') and not isinstance(x, (list, tuple, np.ndarray, str)) and not is_sym(x):
        return list(x)
    return x


def _leaf_kinds(x):
    out = set()
    for v in x:
        if isinstance(v, (list, tuple)):
            out |= _leaf_kinds(v)
        elif isinstance(v, np.ndarray):
            out.add('bool' if v.dtype.kind == 'b' else 'int' if v.dtype.kind in 'iu' else 'o')
        elif isinstance(v, (bool, np.bool_)):
            out.add('bool')
        elif isinstance(v, (int, np.integer)):
            out.add('int')
        else:
            out.add('o')
    return out


def _build(x):
    rows = [v if is_sym(v) or isinstance(v, (int, float, Fraction, np.generic)) else
            (v if isinstance(v, np.ndarray) else _build(_delist(v)) if isinstance(_delist(v), (list, tuple)) else v)
            for v in x]
    if rows and all(isinstance(v, np.ndarray) for v in rows):
        sh = rows[0].shape
        if any(v.shape != sh for v in rows):
            raise ValueError('setting an array element with a sequence. inhomogeneous shape')
        r = np.empty((len(rows),) + sh, object)
        for i, v in enumerate(rows):
            r[i] = v
        return r
    if any(isinstance(v, np.ndarray) and v.ndim for v in rows):
        raise ValueError('setting an array element with a sequence. inhomogeneous shape')
    r = np.empty(len(rows), object)
    for i, v in enumerate(rows):
        r[i] = v.item() if isinstance(v, np.ndarray) else v
    return r


def asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) or has_seq(x):
        return x if has_seq(x) and not x.is_list or isinstance(x, np.ndarray) else x.as_array()
    return array(x, dtype)


def _zeros(shape, dtype=None, fill=0):
    if isinstance(shape, tuple) and any(is_sym(s) for s in shape) or is_sym(shape):
        raise OutOfReach('array of symbolic shape')
    if dtype in (int, bool):
        return np.full(shape, fill, dtype=dtype)
    r = np.empty(shape, object)
    r[...] = fill
    return r


def lift1(fs, fn):
    """scalar function fs on symbolic, elementwise on arrays, real numpy on plain numbers when exact"""
    def g(x, *a, **k):
        if has_seq(x):
            return x.map(fs)
        if isinstance(x, (list, tuple)):
            x = array(x)
        if isinstance(x, np.ndarray):
            if x.ndim == 0:
                return fs(x.item())
            if x.dtype != object and fn is not None:
                return np.frompyfunc(fs, 1, 1)(x.astype(object))
            return np.frompyfunc(fs, 1, 1)(x)
        return fs(x)
    return g


def lift2(fs):
    def g(x, y, *a, **k):
        if has_seq(x) or has_seq(y):
            from .seq import zipmap
            return zipmap(fs, x, y)
        if isinstance(x, (list, tuple)):
            x = array(x)
        if isinstance(y, (list, tuple)):
            y = array(y)
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            r = np.frompyfunc(fs, 2, 1)(x, y)
            return r
        return fs(x, y)
    return g


def _abs(x):
    return abs(x)


def _sign(x):
    if not is_sym(x):
        return (x > 0) - (x < 0)
    t = term(x)
    return R(z3.If(t > 0, q(1), z3.If(t < 0, q(-1), q(0))))


def _square(x):
    return x * x


def arctan2(y, x):
    """theta in (-pi, pi] with r cos = x, r sin = y, r = |(x, y)|; atan2(0, 0) = 0."""
    p = P()
    if not is_sym(x) and not is_sym(y):
        x, y = R(q(x)), R(q(y))
    tx, ty = z3.simplify(term(x)), z3.simplify(term(y))
    memo = p.__dict__.setdefault('atan_memo', {})
    k = (tx.get_id(), ty.get_id())
    if k in memo:
        return memo[k][0]
    th = p.fresh_real('atan2')
    PIT = term(sym.pi())
    v = R(th)
    cx, cy = sym.const(tx), sym.const(ty)
    if cx is not None and cy is not None:
        _const_angle(p, th, PIT, cx, cy, tx, ty, memo)
        memo[k] = (v, tx, ty, th, (tx, ty))
        p.session.used('axioms: sector and monotonicity facts of atan2, pi in (3.14159265, 3.14159266)')
        return v

    nz = z3.Or(tx != 0, ty != 0)

    def lazy():
        c, s = p.fresh_real('cos'), p.fresh_real('sin')
        p.defs.append((s, 'sin', 1 - c * c))
        r = p.fresh_real('atr')
        p.defs.append((r, 'sqrt', tx * tx + ty * ty))
        p.assume(z3.And(c * c + s * s == 1, r >= 0, r * r == tx * tx + ty * ty, r * c == tx, r * s == ty))
        p.assume(z3.Implies(nz, r > 0))
        return R(c), R(s)
    tt = z3.simplify(th, som=True)
    p.__dict__.setdefault('lazy_trig', {})[tt.get_id()] = (lazy, tt)
    p.assume(z3.And(th > -PIT, th <= PIT))
    if p.__dict__.get('angle_facts', True):
        p.assume(z3.And(z3.Implies(z3.Not(nz), th == 0),
                      (th > 0) == z3.Or(ty > 0, z3.And(ty == 0, tx < 0)),
                      (th < 0) == (ty < 0),
                      (th == PIT) == z3.And(ty == 0, tx < 0),
                      (2 * th > PIT) == z3.And(ty >= 0, tx < 0),
                      (2 * th < -PIT) == z3.And(ty < 0, tx < 0),
                      (2 * th == PIT) == z3.And(ty > 0, tx == 0),
                      (2 * th == -PIT) == z3.And(ty < 0, tx == 0),
                      z3.Implies(tx > 0, z3.And((4 * th > PIT) == (ty > tx), (4 * th >= PIT) == (ty >= tx),
                                                (4 * th < -PIT) == (ty < -tx), (4 * th <= -PIT) == (ty <= -tx))),
                      z3.Implies(z3.And(tx < 0, ty >= 0), z3.And((4 * th > 3 * PIT) == (ty < -tx), (4 * th >= 3 * PIT) == (ty <= -tx))),
                      z3.Implies(z3.And(tx < 0, ty < 0), z3.And((4 * th < -3 * PIT) == (ty > tx), (4 * th <= -3 * PIT) == (ty >= tx)))))
    # differences of two angles against the cross product of their directions
    for (ox, oy, oth, keep) in [m[1:] for m in memo.values()]:
        p.assume(z3.Implies(z3.And(ox == tx, oy == ty), th == oth))
        if p.__dict__.get('angle_pairs', True):
            relate(p, (ox, oy, oth), (tx, ty, th))
    memo[k] = (v, tx, ty, th, (tx, ty))
    p.session.used('axioms: sector and monotonicity facts of atan2, pi in (3.14159265, 3.14159266)')
    return v


def relate(p, o, n):
    """difference of two angles against the cross product of their directions"""
    (ox, oy, oth), (tx, ty, th) = o, n
    PIT = term(sym.pi())
    cross = ox * ty - oy * tx           # > 0: the new direction is counterclockwise of the old one
    dot = ox * tx + oy * ty
    d = th - oth
    p.assume(z3.Implies(z3.And(z3.Or(tx != 0, ty != 0), z3.Or(ox != 0, oy != 0)), z3.And(
        (cross > 0) == z3.Or(z3.And(d > 0, d < PIT), d < -PIT),
        (cross < 0) == z3.Or(z3.And(d < 0, d > -PIT), d > PIT),
        (z3.And(cross == 0, dot > 0)) == (d == 0))))


def _half(x, y):
    """key that orders directions by their angle in (-pi, pi]: (half plane, then cross product)"""
    return 0 if y < 0 else (1 if y == 0 and x > 0 else 2 if y > 0 else 3)


def _cmp_dir(a, b):
    ha, hb = _half(*a), _half(*b)
    if ha != hb:
        return -1 if ha < hb else 1
    c = a[0] * b[1] - a[1] * b[0]
    return -1 if c > 0 else 1 if c < 0 else 0


def _const_angle(p, th, PIT, cx, cy, tx, ty, memo):
    """angle of a concrete direction: exact sector, exact order against the other concrete directions"""
    if cx == 0 and cy == 0:
        p.assume(th == 0)
        return
    if cy == 0:
        p.assume(th == (0 if cx > 0 else PIT))
    else:
        octant = [(0, (1, 0)), (1, (1, 1)), (2, (0, 1)), (3, (-1, 1)), (4, (-1, 0))]
        d = (cx, abs(cy))
        for (i, a), (j, b) in zip(octant, octant[1:]):
            if _cmp_dir(d, a) == 0 and i > 0:
                p.assume(4 * th == (i * PIT if cy > 0 else -i * PIT))
                break
            if _cmp_dir(d, a) > 0 and (_cmp_dir(d, b) < 0):
                lo, hi = i * PIT, j * PIT
                p.assume(z3.And(4 * th > lo, 4 * th < hi) if cy > 0 else z3.And(4 * th < -lo, 4 * th > -hi))
                break

    def lazy():
        c, s, r = p.fresh_real('cos'), p.fresh_real('sin'), p.fresh_real('atr')
        p.defs.append((s, 'sin', 1 - c * c))
        p.assume(z3.And(c * c + s * s == 1, r > 0, r * r == tx * tx + ty * ty, r * c == tx, r * s == ty))
        return R(c), R(s)
    tt = z3.simplify(th, som=True)
    p.__dict__.setdefault('lazy_trig', {})[tt.get_id()] = (lazy, tt)
    nz = True
    for (ox, oy, oth, keep) in [m[1:] for m in memo.values()]:
        kx, ky = sym.const(ox), sym.const(oy)
        if kx is not None and ky is not None:
            if (kx, ky) == (0, 0):
                continue
            o = _cmp_dir((cx, cy), (kx, ky))
            p.assume(th < oth if o < 0 else th > oth if o > 0 else th == oth)
        else:
            cross = ox * ty - oy * tx
            dot = ox * tx + oy * ty
            d = th - oth
            p.assume(z3.Implies(z3.Or(ox != 0, oy != 0), z3.And(
                (cross > 0) == z3.Or(z3.And(d > 0, d < PIT), d < -PIT),
                (cross < 0) == z3.Or(z3.And(d < 0, d > -PIT), d > PIT),
                (z3.And(cross == 0, dot > 0)) == (d == 0))))


def norm(x, ord=None, axis=None, **k):
    if ord is not None or k:
        raise OutOfReach('norm options')
    if has_seq(x):
        if axis == 1:
            return x.map(lambda v: norm(v))
        raise OutOfReach('norm of a symbolic sequence')
    x = asarray(x)
    if axis is None or x.ndim == 1 and axis in (0, -1):
        s = 0
        for v in x.reshape(-1):
            s = s + v * v
        return sym.sqrt(s)
    if x.ndim == 2 and axis in (1, -1):
        r = np.empty(x.shape[0], object)
        for i in range(x.shape[0]):
            r[i] = norm(x[i])
        return r
    raise OutOfReach('norm axis')


def _isclose1(a, b, rtol, atol):
    if not is_sym(a) and not is_sym(b):
        return bool(np.isclose(float(a), float(b), rtol=rtol, atol=atol))
    ta, tb = term(a), term(b)
    ab = z3.If(tb >= 0, tb, -tb)
    d = z3.If(ta - tb >= 0, ta - tb, tb - ta)
    return B(d <= q(atol) + q(rtol) * ab)


def isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    return lift2(lambda x, y: _isclose1(x, y, rtol, atol))(a, b)


def allclose(a, b, rtol=1e-05, atol=1e-08, **k):
    return all_(isclose(a, b, rtol, atol))


def _truth(v):
    return bool(v)


def any_(x, axis=None, **k):
    if has_seq(x):
        return x.exists()
    if axis is not None:
        raise OutOfReach('any axis')
    if is_sym(x):
        return bool(x)
    x = asarray(x)
    terms = []
    for v in x.reshape(-1):
        if isinstance(v, B):
            terms.append(v.t)
        elif is_sym(v):
            terms.append(term(v) != 0)
        elif v:
            return True
    return B(z3.Or(*terms)) if terms else False


def all_(x, axis=None, **k):
    if has_seq(x):
        return x.forall()
    if axis is not None:
        raise OutOfReach('all axis')
    if is_sym(x):
        return bool(x)
    x = asarray(x)
    terms = []
    for v in x.reshape(-1):
        if isinstance(v, B):
            terms.append(v.t)
        elif is_sym(v):
            terms.append(term(v) != 0)
        elif not v:
            return False
    return B(z3.And(*terms)) if terms else True


def _arg(x, better):
    if has_seq(x):
        return x.argmax() if better is _gt else x.argmin()
    x = asarray(x).reshape(-1)
    if len(x) == 0:
        raise ValueError('attempt to get argmax of an empty sequence')
    b = 0
    for i in range(1, len(x)):
        if better(x[i], x[b]):
            b = i
    return b


def _gt(a, b):
    if isinstance(a, (bool, np.bool_, B)):
        return _truth(a) and not _truth(b)
    return a > b


def _lt(a, b):
    if isinstance(a, (bool, np.bool_, B)):
        return _truth(b) and not _truth(a)
    return a < b


def argmax(x, axis=None, **k):
    return _arg(x, _gt)


def argmin(x, axis=None, **k):
    return _arg(x, _lt)


def _order(vals):
    idx = []
    for i, v in enumerate(vals):
        j = len(idx)
        while j > 0 and vals[idx[j - 1]] > v:
            j -= 1
        idx.insert(j, i)
    return idx


def argsort(x, axis=-1, **k):
    if has_seq(x):
        return x.argsort()
    x = asarray(x)
    if x.ndim != 1:
        raise OutOfReach('argsort ndim')
    return np.array(_order(list(x)), int)


def sort(x, axis=-1, **k):
    if has_seq(x):
        return x.as_array().sorted()
    x = asarray(x)
    if x.ndim != 1:
        raise OutOfReach('sort ndim')
    return x[np.array(_order(list(x)), int)] if len(x) else x.copy()


def unwrap(x, *a, **k):
    if a or k or not has_seq(x):
        raise OutOfReach('unwrap')
    from .seq import unwrap as su
    return su(x)


def flatnonzero(x):
    if has_seq(x):
        return x.flatnonzero()
    return np.array([i for i, v in enumerate(asarray(x).reshape(-1)) if _truth(v)], int)


def diff(x, n=1, axis=-1, **k):
    if has_seq(x):
        return x.diff()
    x = asarray(x)
    if n != 1 or x.ndim != 1 or k:
        raise OutOfReach('diff options')
    return x[1:] - x[:-1]


def sum_(x, axis=None, **k):
    if has_seq(x):
        if axis not in (None, 0):
            raise OutOfReach('sum of a symbolic sequence')
        return x.total()
    x = asarray(x)
    if axis is None:
        s = 0
        for v in x.reshape(-1):
            s = s + v
        return s
    return np.add.reduce(x, axis=axis)


def mean(x, axis=None, **k):
    if has_seq(x):
        return x.mean(axis)
    x = asarray(x)
    from .rt import div
    if axis is None:
        return div(sum_(x), x.size)
    return div(np.add.reduce(x, axis=axis), x.shape[axis])


def cumsum(x, axis=None, **k):
    if has_seq(x):
        return x.cumsum()
    x = asarray(x).reshape(-1)
    r = np.empty(len(x), object)
    s = 0
    for i, v in enumerate(x):
        s = s + v
        r[i] = s
    return r


def _clip1(v, lo, hi):
    if lo is not None:
        v = _max2(v, lo)
    if hi is not None:
        v = _min2(v, hi)
    return v


def _max2(a, b):
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    return sym.ite(R(term(a)) >= b, a, b)


def _min2(a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    return sym.ite(R(term(a)) <= b, a, b)


def clip(x, a_min=None, a_max=None, **k):
    if has_seq(x):
        return x.map(lambda v: _clip1(v, a_min, a_max))
    if isinstance(x, (list, tuple)):
        x = asarray(x)
    if isinstance(x, np.ndarray):
        return np.frompyfunc(_clip1, 3, 1)(x, a_min, a_max)
    return _clip1(x, a_min, a_max)


def cross(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape == (3,) and b.shape == (3,):
        return array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    if a.shape == (2,) and b.shape == (2,):
        return a[0] * b[1] - a[1] * b[0]
    raise OutOfReach('cross shapes')


def dot(a, b):
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(b, (list, tuple)):
        b = array(b)
    if has_seq(a) or has_seq(b):
        raise OutOfReach('dot of sequences')
    return np.dot(a, b)


def searchsorted(x, v, side='left', sorter=None):
    if sorter is not None:
        raise OutOfReach('searchsorted sorter')
    if has_seq(x):
        from .seq import searchsorted as ss
        return ss(x, v, side)
    i = 0
    for e in asarray(x).reshape(-1):
        if (e < v) if side == 'left' else (e <= v):
            i += 1
        else:
            break
    return i


def linspace(start, stop, num=50, endpoint=True, **k):
    if is_sym(num) or k:
        raise OutOfReach('linspace of symbolic length')
    from .rt import div
    d = div(stop - start, (num - 1) if endpoint else num)
    r = np.empty(num, object)
    for i in range(num):
        r[i] = start + d * i
    return r


def unique(x, axis=None, return_index=False, **k):
    if k or return_index:
        raise OutOfReach('unique options')
    if has_seq(x):
        if axis != 0:
            raise OutOfReach('unique numbers of a list of rows')
        return x.unique()
    x = asarray(x)
    rows = []
    for v in x:
        if not any(all(bool(a == b) for a, b in zip(np.atleast_1d(v), np.atleast_1d(w))) for w in rows):
            j = len(rows)
            while j > 0 and _lexlt(np.atleast_1d(v), np.atleast_1d(rows[j - 1])):
                j -= 1
            rows.insert(j, v)
    return array(rows)


def _lexlt(a, b):
    for u, v in zip(a, b):
        if u < v:
            return True
        if v < u:
            return False
    return False


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    ts = [z3.BoolVal(bool(u == v)) if not is_sym(u) and not is_sym(v) else sym.bterm(R(term(u)) == v)
          for u, v in zip(a.reshape(-1), b.reshape(-1))]
    return B(z3.And(*ts)) if ts else True


def hstack(t, **k):
    t = list(t)
    if any(has_seq(v) for v in t):
        from .seq import concat
        return concat(t)
    parts = []
    for v in t:
        v = asarray(v)
        parts.append(v.reshape(1) if v.ndim == 0 else v)
    if parts[0].ndim != 1:
        return np.concatenate([p.astype(object) for p in parts], axis=1)
    r = np.empty(sum(len(p) for p in parts), object)
    i = 0
    for p in parts:
        for v in p:
            r[i] = v
            i += 1
    return r


def vstack(t, **k):
    t = list(t)
    if any(has_seq(v) for v in t):
        from .seq import vstack as sv
        return sv(t)
    return np.vstack([asarray(v).astype(object) for v in t])


def hypot(a, b):
    return sym.sqrt(a * a + b * b)


def where(c, *a):
    if not a:
        return (flatnonzero(c),)
    if has_seq(c):
        from .seq import zipmap, _ite
        from .sym import B
        return zipmap(lambda u, vw: _ite(B(sym.bterm(u)), vw[0], vw[1]), c, zipmap(lambda v, w: (v, w), *a) if any(has_seq(v) for v in a) else tuple(a))
    return np.frompyfunc(lambda u, v, w: sym.ite(u, v, w) if isinstance(u, B) else (v if u else w), 3, 1)(c, *a)


def det(m):
    m = asarray(m)
    if m.shape != (2, 2):
        raise OutOfReach('det shape')
    return m[0, 0] * m[1, 1] - m[0, 1] * m[1, 0]


def max_(x, axis=None, **k):
    if has_seq(x) and axis is None:
        return x.max()
    x = list(asarray(x).reshape(-1))
    r = x[0]
    for v in x[1:]:
        r = _max2(r, v)
    return r


def min_(x, axis=None, **k):
    if has_seq(x) and axis is None:
        return x.min()
    x = list(asarray(x).reshape(-1))
    r = x[0]
    for v in x[1:]:
        r = _min2(r, v)
    return r


def shape(x):
    return asarray(x).shape


# ----------------------------------------------------------------------- randomness: any outcome
class Rand:
    """Every draw is an arbitrary value of its range: the contract must hold for every outcome."""

    @staticmethod
    def _note():
        P().session.used('numpy.random: every draw is an arbitrary value of its documented range')

    @classmethod
    def _u(cls, lo, hi, name='rnd'):
        cls._note()
        p = P()
        it = getattr(p, 'item', None)
        if it is not None:                       # a draw for one item of a list: a function of the index
            draws, t, o = it
            it[2] += 1
            if o not in draws:
                draws[o] = z3.Function(p.name(name), z3.IntSort(), z3.RealSort())
            v = R(draws[o](t))
        else:
            v = R(p.fresh_real(name))
            p.inputs[str(v.t)] = v.t
        tl, th = term(lo), term(hi)
        if p.__dict__.get('open_draws'):
            p.assume(z3.If(tl < th, z3.And(tl < v.t, v.t < th), z3.And(th <= v.t, v.t <= tl)))
            return v
        p.assume(z3.If(tl <= th, z3.And(tl <= v.t, z3.Or(v.t < th, z3.And(tl == th, v.t == tl))),
                       z3.And(th < v.t, v.t <= tl)))
        return v

    @classmethod
    def _many(cls, f, size):
        if size is None:
            return f()
        if is_sym(size):
            from .seq import Seq
            draws = {}

            def at(k):
                p = P()
                outer, p.item = getattr(p, 'item', None), [draws, z3.simplify(sym.iterm(k)), 0]
                try:
                    return f()
                finally:
                    p.item = outer
            P().prove('non-negative number of draws', sym.iterm(size) >= 0, 'definedness')
            return Seq(size, at, False)
        n = size if isinstance(size, tuple) else (size,)
        r = np.empty(n, object)
        for i in np.ndindex(*n):
            r[i] = f()
        return r

    @classmethod
    def rand(cls, *n):
        return cls._many(lambda: cls._u(0, 1), n or None)

    random = random_sample = lambda cls_size=None: Rand._many(lambda: Rand._u(0, 1), cls_size)

    @classmethod
    def uniform(cls, low=0., high=1., size=None):
        return cls._many(lambda: cls._u(low, high), size)

    @classmethod
    def normal(cls, loc=0., scale=1., size=None):
        cls._note()

        def f():
            v = R(P().fresh_real('normal'))
            P().inputs[str(v.t)] = v.t
            if not P().forced(term(scale) >= 0) and P().branch(term(scale) < 0):
                raise ValueError('scale < 0')
            return v
        return cls._many(f, size)

    @classmethod
    def randint(cls, low, high=None, size=None, **k):
        cls._note()
        if high is None:
            low, high = 0, low

        def f():
            if not is_sym(low) and not is_sym(high) and high - low <= 4:
                return int(low) + P().choose(int(high) - int(low))
            v = I(P().fresh_int('randint'))
            P().assume(z3.And(v.t >= sym.iterm(low), v.t < sym.iterm(high)))
            return v
        return cls._many(f, size)

    @classmethod
    def shuffle(cls, x):
        cls._note()
        if has_seq(x):
            x.shuffle()
            return
        n = len(x)
        for i in range(n - 1, 0, -1):
            j = P().choose(i + 1)
            x[i], x[j] = x[j], x[i]

    def __getattr__(self, n):
        raise OutOfReach('numpy.random.%s' % n)


def _const_only(name):
    f = getattr(np, name)

    def g(*a, **k):
        return f(*a, **k)
    return g


class Mod(types.ModuleType):
    """Shim module: unknown names are out of reach when touched."""
    def __init__(self, name, table, fallback=None):
        super().__init__(name)
        self.__dict__.update(table)
        self.__dict__['_fb'] = fallback

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        fb = self.__dict__.get('_fb')
        if fb is not None and hasattr(fb, n):
            v = getattr(fb, n)
            if isinstance(v, types.ModuleType):
                raise OutOfReach('%s.%s' % (self.__name__, n))
            if callable(v) and not isinstance(v, type):
                full = '%s.%s' % (self.__name__, n)

                def guard(*a, **k):
                    if any(_any_sym(x) for x in a) or any(_any_sym(x) for x in k.values()):
                        raise OutOfReach('%s on symbolic values' % full)
                    return v(*a, **k)
                return guard
            return v
        raise OutOfReach('%s.%s is not modelled' % (self.__name__, n))


def _struct(name):
    """numpy functions that only move elements around are numpy's own, on object arrays"""
    f = getattr(np, name)

    def g(x, *a, **k):
        if has_seq(x):
            m = getattr(x, 'np_' + name, None)
            if m is None:
                raise OutOfReach('%s of a symbolic sequence' % name)
            return m(*a, **k)
        if isinstance(x, (list, tuple)):
            x = type(x)(asarray(v) if isinstance(v, (list, tuple)) else v for v in x) if name in (
                'concatenate', 'stack', 'column_stack') else asarray(x)
        return f(x, *a, **k)
    return g


def trig_fn(f, exact):
    def g(x):
        if not is_sym(x) and x in exact:
            return exact[x]
        return f(x)
    return g


def _mk_numpy():
    t = dict(
        array=array, asarray=asarray, zeros=_zeros, empty=_zeros,
        ones=lambda s, dtype=None: _zeros(s, dtype, 1), full=lambda s, v, dtype=None: _zeros(s, None, v),
        zeros_like=lambda a, **k: _zeros(asarray(a).shape), ones_like=lambda a, **k: _zeros(asarray(a).shape, None, 1),
        empty_like=lambda a, **k: _zeros(asarray(a).shape),
        cos=lift1(trig_fn(sym.cos, {0: 1}), np.cos), sin=lift1(trig_fn(sym.sin, {0: 0}), np.sin),
        sqrt=lift1(sym.sqrt, np.sqrt), square=lift1(_square, None), abs=lift1(_abs, None), absolute=lift1(_abs, None),
        fabs=lift1(_abs, None), sign=lift1(_sign, None), negative=lift1(lambda v: -v, None),
        arctan2=lift2(arctan2), hypot=lift2(hypot), isclose=isclose, allclose=allclose, any=any_, all=all_,
        argmax=argmax, argmin=argmin, argsort=argsort, sort=sort, flatnonzero=flatnonzero, diff=diff, unwrap=unwrap, searchsorted=searchsorted,
        sum=sum_, mean=mean, cumsum=cumsum, clip=clip, cross=cross, dot=dot, inner=dot, linspace=linspace,
        unique=unique, array_equal=array_equal, hstack=hstack, vstack=vstack, where=where,
        maximum=lift2(_max2), minimum=lift2(_min2), max=max_, min=min_, amax=max_, amin=min_, shape=shape,
        add=lift2(lambda a, b: a + b), subtract=lift2(lambda a, b: a - b), multiply=lift2(lambda a, b: a * b),
        divide=lift2(lambda a, b: sym.sdiv(a, b)), true_divide=lift2(lambda a, b: sym.sdiv(a, b)),
        power=lift2(lambda a, b: sym.spow(a, b)),
        logical_and=lift2(lambda a, b: B(z3.And(sym.bterm(a), sym.bterm(b)))),
        logical_or=lift2(lambda a, b: B(z3.Or(sym.bterm(a), sym.bterm(b)))),
        logical_not=lift1(lambda a: B(z3.Not(sym.bterm(a))), None),
        isnan=lift1(lambda v: False, None), isfinite=lift1(lambda v: True, None), isinf=lift1(lambda v: False, None),
        deg2rad=lift1(lambda v: v * sym.pi() / 180, None), radians=lift1(lambda v: v * sym.pi() / 180, None),
        rad2deg=lift1(lambda v: sym.sdiv(v * 180, sym.pi()), None),
        inf=np.inf, nan=np.nan, newaxis=None, ndarray=np.ndarray, float64=float, int64=int, bool_=bool,
        float32=float, object_=object, matmul=dot,
    )
    for n in ('roll', 'flip', 'concatenate', 'stack', 'column_stack', 'reshape', 'ravel', 'transpose', 'squeeze',
              'atleast_1d', 'atleast_2d', 'append', 'delete', 'insert', 'copy', 'tile', 'repeat', 'expand_dims',
              'flipud', 'fliplr', 'take', 'ndim', 'size'):
        t[n] = _struct(n)
    t['linalg'] = Mod('numpy.linalg', dict(norm=norm, det=det), np.linalg)
    t['random'] = Rand()
    m = Mod('numpy', t, np)
    return m


class _NpMod(Mod):
    @property
    def pi(self):
        return sym.pi()


def make_numpy():
    m = _mk_numpy()
    m.__class__ = _NpMod
    return m


class _MathMod(Mod):
    @property
    def pi(self):
        return sym.pi()


def make_math():
    import math
    t = dict(cos=trig_fn(sym.cos, {0: 1}), sin=trig_fn(sym.sin, {0: 0}), sqrt=sym.sqrt, atan2=arctan2, hypot=hypot,
             fabs=_abs, isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.: R(term(abs(a - b))) <= _max2(
                 rel_tol * _max2(abs(a), abs(b)), abs_tol), inf=sym.INF, isnan=lambda v: False,
             pow=lambda a, b: sym.spow(a, b), radians=lambda v: v * sym.pi() / 180,
             degrees=lambda v: sym.sdiv(v * 180, sym.pi()), copysign=_no('math.copysign'))
    m = Mod('math', t, math)
    m.__class__ = _MathMod
    return m


def _no(n):
    def f(*a, **k):
        raise OutOfReach(n)
    return f


def make_time():
    def now():
        p = P()
        t = R(p.fresh_real('time'))
        last = p.__dict__.get('last_time')
        p.assume(t.t >= (last.t if last is not None else q(0)))
        p.last_time = t
        p.session.used('time.time(): arbitrary non-decreasing values')
        return t
    return Mod('time', dict(time=now, perf_counter=now, monotonic=now))


class Plot:
    """matplotlib: drawing is outside every property; calling it is allowed and returns more of the same."""
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Plot()

    def __call__(self, *a, **k):
        return Plot()

    def __iter__(self):
        return iter((Plot(), Plot()))

    def __add__(self, o):
        return self
    __radd__ = __add__

    def __getitem__(self, i):
        return Plot()


def make_plot(name):
    m = Mod(name, {})
    m.__class__ = _PlotMod
    return m


class _PlotMod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Plot()
