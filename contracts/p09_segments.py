"""P09: line, segment and ray intersections.

Soundness units take four arbitrary end points; completeness units take every configuration with a common
point, written by its two parameters (b1 is then determined), which is the same set of configurations."""
from pydv.contract import unit
from .common import *

CG = 'utils.cg.'
PAR = 1e-10


def on_line(H, p, a, b):
    return H.eq(vcross(vsub(p, a), vsub(b, a)), 0)


def on_ray(H, p, a, b):
    return H.and_(on_line(H, p, a, b), H.ge(vdot(vsub(p, a), vsub(b, a)), 0))


def on_seg(H, p, a, b):
    return H.and_(on_ray(H, p, a, b), H.le(vdot(vsub(p, a), vsub(b, a)), d2(a, b)))


def quad(H):
    return H.vec('a1'), H.vec('a2'), H.vec('b1'), H.vec('b2')


def den_of(a1, a2, b1, b2):
    return vcross(vsub(a2, a1), vsub(b2, b1))


def params(H):
    """end points of two objects whose lines meet at parameters t and u"""
    a1, a2, db = H.vec('a1'), H.vec('a2'), H.vec('db')
    g = lambda r: r.choice([0.3, 0.5, .01, .99, -.3, 1.4, 7., -5., r.uniform(-1, 2), r.uniform(0, 1)])
    t, u = H.real('t', gen=g), H.real('u', gen=g)
    b1 = vsub(vadd(a1, smul(t, vsub(a2, a1))), smul(u, db))
    b2 = vadd(b1, db)
    if H.sym:
        return a1, a2, H.arr(*b1), H.arr(*b2), t, u
    import numpy as np
    return a1, a2, np.array(b1), np.array(b2), t, u


def objects(H, kind, a1, a2, b1, b2):
    cg = H.mod('utils.cg')
    P = cg.Point
    cls = {'line': cg.Line, 'seg': cg.LineSegment, 'ray': cg.Ray}[kind]
    la, lb = cls(P(a1[0], a1[1]), P(a2[0], a2[1])), cls(P(b1[0], b1[1]), P(b2[0], b2[1]))
    f = {'line': 'line_intersection', 'seg': 'line_segment_intersection', 'ray': 'ray_intersection'}[kind]
    return getattr(la, f), lb


def sound(H, kind):
    a1, a2, b1, b2 = quad(H)
    den = den_of(a1, a2, b1, b2)
    if not H.sym:
        H.assume(den == 0 or abs(den) > 1e-3)      # next to the parallel threshold rounding decides
    f, lb = objects(H, kind, a1, a2, b1, b2)
    r = f(lb)
    if r is None:
        H.check('nothing is reported', H.T)
        return
    p = [r.x, r.y]
    H.check('parallel objects report nothing', H.not_(H.eq(den, 0)))
    H.check('coordinates agree', H.eqv([r[0], r[1]], p))
    # spec: the parameters of the common point of the two lines
    t = H.div(vcross(vsub(b1, a1), vsub(b2, b1)), den)
    u = H.div(vcross(vsub(b1, a1), vsub(a2, a1)), den)
    H.check('the reported point is the common point (first object)', H.eqv(p, vadd(a1, smul(t, vsub(a2, a1)))))
    H.check('the reported point is the common point (second object)', H.eqv(p, vadd(b1, smul(u, vsub(b2, b1)))))
    if kind != 'line':
        H.check('the reported point is on the first object', H.and_(H.ge(t, 0), H.le(t, 1) if kind == 'seg' else H.T))
        H.check('the reported point is on the second object', H.and_(H.ge(u, 0), H.le(u, 1) if kind == 'seg' else H.T))


def complete(H, kind):
    a1, a2, b1, b2, t, u = params(H)
    den = den_of(a1, a2, b1, b2)
    H.assume(H.or_(H.ge(den, PAR), H.le(den, -PAR)) if H.sym else abs(den) > 1e-3)
    if kind == 'seg':
        H.assume(H.and_(H.ge(t, 0), H.le(t, 1), H.ge(u, 0), H.le(u, 1)))
    if kind == 'ray':
        H.assume(H.and_(H.ge(t, 0), H.ge(u, 0)))
    f, lb = objects(H, kind, a1, a2, b1, b2)
    r = f(lb)
    H.check('a common point of objects that are not parallel is reported', r is not None)
    if r is not None:
        H.check('and it is that point', H.eqv([r.x, r.y], vadd(a1, smul(t, vsub(a2, a1)))))


for _kind, _name, _fn in (('line', 'lines', 'Line.line_intersection'), ('seg', 'segments', 'LineSegment.line_segment_intersection'),
                          ('ray', 'rays', 'Ray.ray_intersection')):
    unit('P09', _name + ': sound', [CG + _fn])(lambda H, k=_kind: sound(H, k))
    unit('P09', _name + ': complete', [CG + _fn])(lambda H, k=_kind: complete(H, k))


def apart(H, *os):
    """no end point collinear with the other segment (the repository's threshold)"""
    for o in os:
        H.assume(H.or_(H.gt(o, PAR), H.lt(o, -PAR)) if H.sym else abs(o) > 1e-6)


def ors(a1, a2, b1, b2):
    return orient(b1, b2, a1), orient(b1, b2, a2), orient(a1, a2, b1), orient(a1, a2, b2)


def asked(H, a1, a2, b1, b2):
    cg = H.mod('utils.cg')
    P = cg.Point
    which = H.choose('which', ['intersect', 'Line.intersects', 'LineSegment.intersects'])
    if which == 'intersect':
        return bool(cg.intersect(a1, a2, b1, b2))
    cls = getattr(cg, which.split('.')[0])
    return bool(cls(P(*a1), P(*a2)).intersects(cls(P(*b1), P(*b2))))


@unit('P09', 'yes/no tests: yes', [CG + 'intersect', CG + 'Line.intersects'])
def yes(H):
    a1, a2, b1, b2 = quad(H)
    o1, o2, o3, o4 = ors(a1, a2, b1, b2)
    apart(H, o1, o2, o3, o4)
    if not asked(H, a1, a2, b1, b2):
        H.check('answered', H.T)
        return
    den = den_of(a1, a2, b1, b2)
    if not H.sym:
        H.assume(abs(den) > 1e-6)
    H.check('orientation difference', H.and_(H.eq(den, o1 - o2), H.eq(den, o4 - o3)))
    opp = H.and_(H.iff(H.gt(o1, 0), H.lt(o2, 0)), H.iff(H.gt(o3, 0), H.lt(o4, 0)))
    apf = [H.or_(H.gt(o, PAR), H.lt(o, -PAR)) for o in (o1, o2, o3, o4)]
    H.by('yes only when the segments are not parallel', H.not_(H.eq(den, 0)), [H.eq(den, o1 - o2), opp] + apf, [den, o1, o2, o3, o4])
    t, u = H.div(o1, den), H.div(-o3, den)
    H.by('yes only when there is a common point', H.and_(H.ge(t, 0), H.le(t, 1), H.ge(u, 0), H.le(u, 1)),
         [H.eq(den, o1 - o2), H.eq(den, o4 - o3), opp, H.not_(H.eq(den, 0))] + apf, [den, o1, o2, o3, o4])
    H.check('which is on both lines', H.eqv(vadd(a1, smul(t, vsub(a2, a1))), vadd(b1, smul(u, vsub(b2, b1)))))


@unit('P09', 'yes/no tests: no', [CG + 'intersect', CG + 'Line.intersects'])
def no(H):
    a1, a2, b1, b2, t, u = params(H)
    H.assume(H.and_(H.ge(t, 0), H.le(t, 1), H.ge(u, 0), H.le(u, 1)))
    o1, o2, o3, o4 = ors(a1, a2, b1, b2)
    apart(H, o1, o2, o3, o4)
    den = den_of(a1, a2, b1, b2)
    if H.sym:
        # signs of the orientation values, from their product forms
        apf = [H.or_(H.gt(o, PAR), H.lt(o, -PAR)) for o in (o1, o2, o3, o4)]
        forms = [H.eq(o1, t * den), H.eq(o2, (t - 1) * den), H.eq(o3, -u * den), H.eq(o4, (1 - u) * den)]
        H.by('end points on strictly opposite sides',
             H.and_(H.iff(H.gt(o1, 0), H.lt(o2, 0)), H.iff(H.gt(o3, 0), H.lt(o4, 0))),
             forms + apf + [H.ge(t, 0), H.le(t, 1), H.ge(u, 0), H.le(u, 1)], [o1, o2, o3, o4, den])
    H.check('no only when there is no common point', asked(H, a1, a2, b1, b2))


def nearly_between(H, a, b, c):
    """b is on the segment a-c up to the tolerance of is_between"""
    x, y, z = H.sqrt(d2(a, b)), H.sqrt(d2(c, b)), H.sqrt(d2(a, c))
    return H.le(x + y, z + H.frac(1, 10 ** 8) + z * H.frac(1, 10 ** 7))


@unit('P09', 'is_between', [CG + 'is_between'])
def between(H):
    cg = H.mod('utils.cg')
    a, c, b = H.vec('a'), H.vec('c'), H.vec('b')
    if H.choose('where', ['on', 'any']) == 'on':
        t = H.real('t', 0, 1)
        b = H.arr(*vadd(a, smul(t, vsub(c, a))))
        L = H.sqrt(d2(a, c))
        if H.sym:
            H.by('distances along the segment', H.eq(H.sqrt(d2(a, b)), t * L),
                 [H.eq(sq(H.sqrt(d2(a, b))), sq(t * L)), H.ge(H.sqrt(d2(a, b)), 0), H.ge(t, 0), H.ge(L, 0)], [H.sqrt(d2(a, b)), L])
            H.by('distances to the end of the segment', H.eq(H.sqrt(d2(c, b)), (1 - t) * L),
                 [H.eq(sq(H.sqrt(d2(c, b))), sq((1 - t) * L)), H.ge(H.sqrt(d2(c, b)), 0), H.le(t, 1), H.ge(L, 0)], [H.sqrt(d2(c, b)), L])
        H.check('a point of the segment is between its ends', bool(cg.is_between(a, b, c)))
    elif cg.is_between(a, b, c):
        H.check('a point between the ends is on the segment', nearly_between(H, a, b, c))


@unit('P09', 'get_intersection: sound', [CG + 'get_intersection', CG + 'is_between', CG + 'intersect'])
def getint(H):
    cg = H.mod('utils.cg')
    a1, a2, b1, b2 = quad(H)
    H.assume(H.and_(H.gt(d2(a1, a2), 0), H.gt(d2(b1, b2), 0)))
    o1, o2, o3, o4 = ors(a1, a2, b1, b2)
    for o in (o1, o2, o3, o4):
        H.assume(H.or_(H.gt(o, PAR), H.lt(o, -PAR), H.eq(o, 0)) if H.sym else abs(o) > 1e-6 or o == 0)
    den = den_of(a1, a2, b1, b2)
    if not H.sym:
        H.assume(den == 0 or abs(den) > 1e-6)
    p = cg.get_intersection(a1, a2, b1, b2)
    if p is None:
        H.check('nothing is reported', H.T)
        return
    ends = [(a1, b1, b2), (a2, b1, b2), (b1, a1, a2), (b2, a1, a2)]
    hit = [e for e in ends if p is e[0]]
    if hit:
        H.check('a reported end point is on the other segment', H.or_(*[nearly_between(H, c, e, d) for e, c, d in hit]))
        return
    opp = H.and_(H.iff(H.gt(o1, 0), H.le(o2, 0)), H.iff(H.gt(o3, 0), H.le(o4, 0)))
    opp = H.and_(H.or_(H.and_(H.lt(o1, 0), H.ge(o2, 0)), H.and_(H.ge(o1, 0), H.lt(o2, 0)),
                       H.and_(H.gt(o1, 0), H.le(o2, 0)), H.and_(H.le(o1, 0), H.gt(o2, 0))),
                 H.or_(H.and_(H.lt(o3, 0), H.ge(o4, 0)), H.and_(H.ge(o3, 0), H.lt(o4, 0)),
                       H.and_(H.gt(o3, 0), H.le(o4, 0)), H.and_(H.le(o3, 0), H.gt(o4, 0))))
    fx = [H.eq(den, o1 - o2), H.eq(den, o4 - o3), opp]
    H.by('the lines are not parallel', H.not_(H.eq(den, 0)), fx, [den, o1, o2, o3, o4])
    t, u = H.div(o1, den), H.div(-o3, den)
    H.by('the parameters are within the segments', H.and_(H.ge(t, 0), H.le(t, 1), H.ge(u, 0), H.le(u, 1)),
         fx + [H.not_(H.eq(den, 0))], [den, o1, o2, o3, o4])
    H.check('a reported point is on the first segment', H.eqv(p, vadd(a1, smul(t, vsub(a2, a1)))))
    H.check('a reported point is on the second segment', H.eqv(p, vadd(b1, smul(u, vsub(b2, b1)))))


@unit('P09', 'get_intersection: complete', [CG + 'get_intersection', CG + 'is_between', CG + 'intersect'])
def getint_complete(H):
    """crossing segments with no end point collinear with the other one"""
    cg = H.mod('utils.cg')
    a1, a2, b1, b2, t, u = params(H)
    H.assume(H.and_(H.ge(t, 0), H.le(t, 1), H.ge(u, 0), H.le(u, 1)))
    o1, o2, o3, o4 = ors(a1, a2, b1, b2)
    apart(H, o1, o2, o3, o4)
    den = den_of(a1, a2, b1, b2)
    if H.sym:
        apf = [H.or_(H.gt(o, PAR), H.lt(o, -PAR)) for o in (o1, o2, o3, o4)]
        forms = [H.eq(o1, t * den), H.eq(o2, (t - 1) * den), H.eq(o3, -u * den), H.eq(o4, (1 - u) * den)]
        H.by('end points on strictly opposite sides',
             H.and_(H.iff(H.gt(o1, 0), H.lt(o2, 0)), H.iff(H.gt(o3, 0), H.lt(o4, 0))),
             forms + apf + [H.ge(t, 0), H.le(t, 1), H.ge(u, 0), H.le(u, 1)], [o1, o2, o3, o4, den])
        H.by('not parallel', H.not_(H.eq(den, 0)), forms + apf, [o1, o2, o3, o4, den])
    p = cg.get_intersection(a1, a2, b1, b2)
    H.check('the crossing is reported', p is not None)
    if p is not None:
        H.check('and it is the common point', H.eqv(p, vadd(a1, smul(t, vsub(a2, a1)))))
