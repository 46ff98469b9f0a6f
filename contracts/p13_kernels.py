"""P13: admissible kernels."""
from pydv.contract import unit
from .common import *
from .p11_cones import THR

SH = 'starshaped_hull.starshaped_hull.'
CN = 'utils.cg.Cone.'


class Convex:
    """a convex obstacle, known through the contract of its tangent query (P05 for ellipses, P06 for polygons)"""
    def __init__(self, H, x, tps):
        self.H, self.x, self.tps = H, x, tps

    def tangent_points(self, x, input_frame=None, output_frame=None):
        H = self.H
        F = H.mod('obstacles').Frame
        H.check('tangents through the excluded point, in global coordinates',
                H.and_(H.eqv(x, self.x), input_frame in (None, F.GLOBAL), output_frame in (None, F.GLOBAL)))
        return list(self.tps)


def far(H, o):
    """not within the orientation threshold"""
    return H.or_(H.gt(o, 2 * THR), H.lt(o, -2 * THR))


def kernel(H):
    """excluded point x, tangent points p and q of the obstacle, and the kernel; every interior point of the obstacle is
    clockwise of the line to p and counterclockwise of the line to q, as seen from x"""
    x, p, q = H.vec('x'), H.vec('p'), H.vec('q')
    H.assume(H.lt(orient(x, p, q), -2 * THR))
    K = H.mod('starshaped_hull').admissible_kernel(Convex(H, x, [p, q]), x)
    H.check('there is a kernel for an exterior point', K is not None)
    return x, p, q, K


@unit('P13', 'the kernel keeps the excluded point visible', [SH + 'admissible_kernel', CN + 'point_in_cone', CN + '__init__'], concrete=False)
def sound(H):
    x, p, q, K = kernel(H)
    e = H.vec('e')                                   # an interior point of the obstacle
    H.assume(H.and_(H.lt(orient(x, p, e), 0), H.gt(orient(x, q, e), 0)))
    s = H.real('s', pos=True)
    k = [x[0] - s * (e[0] - x[0]), x[1] - s * (e[1] - x[1])]      # e is hidden behind x as seen from k
    H.assume(H.and_(H.gt(s * H.abs(orient(x, p, e)), 2 * THR), H.gt(s * H.abs(orient(x, q, e)), 2 * THR)))
    H.check('no interior point is hidden behind the excluded point', not K.point_in_cone(H.arr(*k)))


@unit('P13', 'the kernel is as large as can be', [SH + 'admissible_kernel', CN + 'point_in_cone', CN + '__init__'], concrete=False)
def largest(H):
    x, p, q, K = kernel(H)
    k = H.vec('k')
    op, oq = orient(x, p, k), orient(x, q, k)
    H.assume(H.and_(far(H, op), far(H, oq)))
    if K.point_in_cone(k):
        H.check('in the kernel', H.T)
        return
    # the line from k through x meets the obstacle's chord between the tangent points, beyond x
    H.lemma('on the far side of both tangent lines', H.and_(H.gt(op, 0), H.lt(oq, 0)))
    den = op - oq
    H.lemma('positive', H.gt(den, 0))
    lam = H.div(-oq, den)                            # weight of p
    m = [lam * p[0] + (1 - lam) * q[0], lam * p[1] + (1 - lam) * q[1]]
    H.lemma('between the tangent points', H.and_(H.gt(lam, 0), H.lt(lam, 1)))
    # x = k + r (m - k): x is between k and m
    D = orient(x, p, q)
    # (op - oq) (m - x) = - D' (k - x) with D' = -D > 0
    H.check('the hidden point of the chord is on the line', H.eqv(smul(den, vsub(m, x)), smul(D, vsub(k, x))))
    H.check('the excluded point is between', H.and_(H.lt(D, 0), H.gt(den, 0)))


@unit('P13', 'no kernel for a point that is not exterior', [SH + 'admissible_kernel'], concrete=False)
def none(H):
    x = H.vec('x')
    H.check('no kernel', H.mod('starshaped_hull').admissible_kernel(Convex(H, x, []), x) is None)


@unit('P13', 'lemma: the line through the chord enters the interior of an ellipse', [], concrete=False)
def chord(H):
    """units of the semi-axes: different points of the circle, a point strictly between them is strictly inside"""
    p, q, lam = H.vec('p'), H.vec('q'), H.real('lam')
    H.assume(H.and_(H.eq(vdot(p, p), 1), H.eq(vdot(q, q), 1), H.gt(d2(p, q), 0), H.gt(lam, 0), H.lt(lam, 1)))
    m = vadd(smul(lam, p), smul(1 - lam, q))
    H.lemma('chord', H.eq(1 - vdot(m, m), lam * (1 - lam) * d2(p, q)))
    H.by('strictly inside', H.lt(vdot(m, m), 1), [H.eq(1 - vdot(m, m), lam * (1 - lam) * d2(p, q)), H.gt(d2(p, q), 0), H.gt(lam, 0), H.lt(lam, 1)],
         [vdot(m, m), d2(p, q)])


@unit('P13', 'lemma: the line through the chord enters the interior of a polygon', [], concrete=False)
def chord_polygon(H):
    """a point m strictly between p and q, both of the obstacle, and an interior point e of the obstacle: every point
    strictly between m and e is interior (convexity), and some point of the line from x through m is: moving e along the
    obstacle's open disc around it (radius r) along the chord keeps it interior; here: the triangle p q e contains points
    of the line from x through m next to m"""
    p, q, e, x = H.vec('p'), H.vec('q'), H.vec('e'), H.vec('x')
    lam = H.real('lam', 0, 1)
    H.assume(H.and_(H.gt(lam, 0), H.lt(lam, 1)))
    m = vadd(smul(lam, p), smul(1 - lam, q))
    # the line x-m is not the line p-q, and e is not on the line p-q: then x + t (m - x), t next to 1 on the side of e
    T = orient(p, q, e)
    X = orient(p, q, x)
    H.assume(H.and_(H.ne(T, 0), H.ne(X, 0)))
    # barycentric coordinates of m + d (m - x) with respect to p, q, e: the one of e is -d X / T
    d = H.real('d')
    y = vadd(m, smul(d, vsub(m, x)))
    H.check('weight of the interior point', H.eq(orient(p, q, y), -d * X))
    H.check('weights of the tangent points at the chord', H.and_(H.eq(orient(q, e, m), lam * T), H.eq(orient(e, p, m), (1 - lam) * T)))


@unit('P13', 'real obstacles', [SH + 'admissible_kernel'])
def real(H):
    """concrete only: ellipses and convex polygons with poses"""
    if H.sym:
        H.check('see the units above', H.T)
        return
    import numpy as np
    import shapely
    O = H.mod('obstacles')
    mm, ps = mk_pose(H, ('none', 'ghost', 'static'))
    r = H.aux
    if H.choose('kind', ['ellipse', 'polygon']) == 'ellipse':
        a, b = H.real('a', .2, 4.), H.real('b', .2, 4.)
        o = O.Ellipse([a, b], motion_model=mm)
        th = np.linspace(0, 2 * np.pi, 721)[:-1]
        pts = np.c_[a * np.cos(th), b * np.sin(th)]
    else:
        pts = H.data('poly', lambda g: rand_polygon(g, convex=True))
        if not is_convex_spec(pts):
            H.assume(False)
        o = O.Polygon(shapely.geometry.Polygon(pts), motion_model=mm)
        pts = np.array(pts)
    body = shapely.geometry.Polygon(pts)
    xl = [r.uniform(-9, 9), r.uniform(-9, 9)]
    H.assume(abs(body.exterior.distance(shapely.geometry.Point(xl))) > 1e-2)
    x = np.array(ps.to_global(xl))
    K = H.mod('starshaped_hull').admissible_kernel(o, x)
    if body.contains(shapely.geometry.Point(xl)):
        H.check('no kernel for a point that is not exterior', K is None)
        return
    H.check('a kernel for an exterior point', K is not None)
    for _ in range(30):
        kl = [xl[0] + r.gauss(0, 3), xl[1] + r.gauss(0, 3)]
        d = np.array(vsub(xl, kl))
        if np.linalg.norm(d) < .1:
            continue
        hid = shapely.geometry.LineString([xl, xl + d / np.linalg.norm(d) * 40])
        if abs(body.buffer(.02).intersection(hid).length > 0) != (body.buffer(-.02).intersection(hid).length > 0):
            continue
        hidden = body.intersection(hid).length > 0
        H.check('in the kernel exactly when nothing is hidden behind the excluded point', bool(K.point_in_cone(np.array(ps.to_global(kl)))) == (not hidden))
