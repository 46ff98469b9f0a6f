"""Propositions shared by the symbolic (proof) and concrete (real code) readings of a contract.

Symbolic reading: a z3 term.  Concrete reading: evaluated on floats with polarity: an atom that the
code has to establish is read leniently (rounding), an atom used as a premise is read robustly.
No solver import here: contract files load in the interpreter that runs the real code."""

TOL = 1e-6


class Prop:
    __slots__ = ('op', 'a', 'scale')

    def __init__(self, op, a, scale=None):
        self.op, self.a, self.scale = op, a, scale

    def __and__(self, o):
        return Prop('and', [self, wrap(o)])

    def __or__(self, o):
        return Prop('or', [self, wrap(o)])

    def __invert__(self):
        return Prop('not', [self])

    def __bool__(self):
        raise TypeError('a Prop has no truth value; use H.assume / H.check / H.decide')

    def __repr__(self):
        return '(%s %s)' % (self.op, ' '.join(map(repr, self.a)))


def wrap(p):
    if isinstance(p, Prop):
        return p
    return Prop('bool', [p])


def eq(a, b, scale=None): return Prop('eq', [a, b], scale)
def ne(a, b, scale=None): return Prop('not', [Prop('eq', [a, b], scale)])
def le(a, b, scale=None): return Prop('le', [a, b], scale)
def lt(a, b, scale=None): return Prop('lt', [a, b], scale)
def ge(a, b, scale=None): return Prop('le', [b, a], scale)
def gt(a, b, scale=None): return Prop('lt', [b, a], scale)
def and_(*ps): return Prop('and', [wrap(p) for p in ps])
def or_(*ps): return Prop('or', [wrap(p) for p in ps])
def not_(p): return Prop('not', [wrap(p)])
def imp(p, q): return Prop('or', [Prop('not', [wrap(p)]), wrap(q)])
def iff(p, q): return Prop('and', [imp(p, q), imp(q, p)])
def eqv(u, v, scale=None): return Prop('and', [eq(u[i], v[i], scale) for i in range(len(v))])


T = Prop('bool', [True])
F = Prop('bool', [False])


def holds(p, lenient=True, tol=None):
    """Concrete truth of p; lenient in positive position, robust in negative position."""
    p = wrap(p)
    t = TOL if tol is None else tol
    op = p.op
    if op == 'and':
        return all(holds(q, lenient, tol) for q in p.a)
    if op == 'or':
        return any(holds(q, lenient, tol) for q in p.a)
    if op == 'not':
        return not holds(p.a[0], not lenient, tol)
    if op == 'bool':
        v = p.a[0]
        return bool(v)
    a, b = p.a
    if hasattr(a, 'shape') and a.shape == ():
        a = a.item()
    if hasattr(b, 'shape') and b.shape == ():
        b = b.item()
    if a != a or b != b:                      # NaN satisfies nothing that has to be established
        return not lenient
    if a in (float('inf'), float('-inf')) or b in (float('inf'), float('-inf')):
        return {'eq': a == b, 'le': a <= b, 'lt': a < b}[op]
    s = t * (p.scale if p.scale is not None else 1 + max(abs(a), abs(b)))
    if op == 'eq':
        return abs(a - b) <= s if lenient else a == b
    if op == 'le':
        return a <= b + s if lenient else (a <= b - s or a == b and p.scale == 0)
    if op == 'lt':
        return a < b + s if lenient else a < b - s
    raise ValueError(op)
