"""P12: the polygon of a cone.

Every ray from a point strictly inside the box leaves it in a point q of the boundary; the units are written in
terms of these points, of which the directions are positive multiples (seen from the apex)."""
from pydv.contract import unit
from .common import *
from .p11_cones import THR

CG = 'utils.cg.'
CN = CG + 'Cone.'
W = 10 ** 6
# edges in the order bottom, right, top, left: (start corner, end corner), counterclockwise
CORNERS = [(W, -W), (W, W), (-W, W), (-W, -W)]
EDGES = [(CORNERS[3], CORNERS[0]), (CORNERS[0], CORNERS[1]), (CORNERS[1], CORNERS[2]), (CORNERS[2], CORNERS[3])]
OUT = [(0, -1), (1, 0), (0, 1), (-1, 0)]


def apex(H):
    if not H.sym:
        import numpy as np
        r = H.aux
        k = r.choice([0, 10, 1e5, 9e5])
        return np.array([r.uniform(-k, k), r.uniform(-k, k)]) if r.random() < .8 else np.array([float(r.randint(-5, 5)), float(r.randint(-5, 5))])
    a = H.vec('apex')
    for v in a:
        H.assume(H.and_(H.lt(-W, v), H.lt(v, W)))
    return a


def edge_of(H, q):
    """(on edge 0, ..., on edge 3)"""
    out = []
    for (a, b) in EDGES:
        if a[0] == b[0]:
            out.append(H.and_(H.eq(q[0], a[0]), H.le(-W, q[1]), H.le(q[1], W)))
        else:
            out.append(H.and_(H.eq(q[1], a[1]), H.le(-W, q[0]), H.le(q[0], W)))
    return out


def on_edge(H, e, name):
    """arbitrary point of edge e"""
    s = H.real(name, -W, W)
    (a, b) = EDGES[e]
    return H.arr(a[0], s) if a[0] == b[0] else H.arr(s, a[1])


def clear_of_corners(H, A, d):
    """the ray does not pass a corner of the box within the tolerance of the code, unless it passes through it"""
    for c in CORNERS:
        x = vcross(d, vsub(c, A))
        m = H.frac(W, 10 ** 9)
        for v in d:
            H.assume(H.or_(H.eq(x, 0), H.gt(H.abs(x), H.abs(m * v))))


@unit('P12', 'lemma: every ray from inside the box leaves it', [], concrete=False)
def leaves(H):
    A, d = apex(H), H.vec('d')
    H.assume(H.or_(H.ne(d[0], 0), H.ne(d[1], 0)))
    ts = []
    for i in (0, 1):
        if H.decide(H.gt(d[i], 0)):
            ts.append(H.div(W - A[i], d[i]))
        elif H.decide(H.lt(d[i], 0)):
            ts.append(H.div(-W - A[i], d[i]))
    t = ts[0] if len(ts) == 1 or H.decide(H.le(ts[0], ts[1])) else ts[1]
    H.lemma('forwards', H.gt(t, 0))
    for u in ts:
        H.lemma('first', H.le(t, u))
    q = vadd(A, smul(t, d))
    for i in (0, 1):
        H.check('in the box', H.and_(H.le(-W, q[i]), H.le(q[i], W)))
    H.check('on an edge', H.or_(*[H.eq(q[i], s) for i in (0, 1) for s in (-W, W)]))


@unit('P12', 'where a ray leaves the box', [CN + '_bb_edge_intersection', CG + 'Ray.ray_intersection', CN + '__init__'], concrete=False)
def border(H):
    cg = H.mod('utils.cg')
    A = apex(H)
    e = H.choose('edge', [0, 1, 2, 3])
    q = on_edge(H, e, 'q')
    lam = H.real('scale', pos=True)
    d = H.vec('d')
    H.assume(H.eqv(d, smul(lam, vsub(q, A))))
    for v in d:                      # no component so small that the code takes the ray for parallel to an edge
        H.assume(H.or_(H.eq(v, 0), H.gt(v, 1e-15), H.lt(v, -1e-15)))
    clear_of_corners(H, A, d)
    k = H.choose('asked', [0, 1, 2, 3])
    ray = cg.Ray(cg.Point(*A), cg.Point(A[0] + d[0], A[1] + d[1]))
    r = cg.Cone._bb_edge_intersection(ray, k)
    # the contract of the next unit
    if k == e:
        H.check('reported on the edge it leaves through', r is not None)
        if r is not None:
            i = 0 if OUT[e][0] else 1
            H.lemma('parameter', H.eq(lam * H.div(1, lam), 1))
            H.check('and the point is where it leaves', H.eqv([r.x, r.y], q))
    else:
        if r is not None:
            H.check('on another edge only at the corner', H.and_(H.eqv([r.x, r.y], q), edge_of(H, q)[k]))
        elif H.decide(edge_of(H, q)[k]):
            H.check('a corner is reported for both edges', H.F)


class Border:
    """proved above"""
    def __init__(self, qual, cg, A, rays):
        self.qual, self.cg, self.A, self.rays = qual, cg, A, rays

    def check_pre(self, H, a):
        pass

    def result(self, H, a):
        from pydv.errors import OutOfReach
        from .common import _same
        vals = list(a.values())
        ray, e = vals[-2], vals[-1]
        if not isinstance(e, int):
            raise OutOfReach('edge of the box')
        dv = [ray.p2[0] - ray.p1[0], ray.p2[1] - ray.p1[1]]
        for d, q in self.rays:
            if all(_same(u, v) for u, v in zip(dv, d)) and all(_same(u, v) for u, v in zip(ray.p1, self.A)):
                return self.cg.Point(q[0], q[1]) if H.decide(edge_of(H, q)[e % 4]) else None
        raise OutOfReach('unknown ray')


class Turn2:
    """P10/P11: the sign of the turn from one direction to the other, which is that of their points"""
    qual = CG + 'orientation_val'

    def __init__(self, A, rays):
        self.A, self.rays = A, rays

    def check_pre(self, H, a):
        pass

    def result(self, H, a):
        from pydv.errors import OutOfReach
        from .common import _same
        p = list(a.values())[:3]
        out = []
        for x in (p[1], p[2]):
            dv = [x[0] - p[0][0], x[1] - p[0][1]]
            m = [q for d, q in self.rays if all(_same(u, v) for u, v in zip(dv, d))]
            if not m:
                raise OutOfReach('unknown direction')
            out.append(vsub(m[0], self.A))
        c = vcross(*out)
        r = H.fresh('turn')
        H.assume(H.and_(H.imp(H.gt(c, 0), H.lt(r, -2 * THR)), H.imp(H.lt(c, 0), H.gt(r, 2 * THR)), H.imp(H.eq(c, 0), H.eq(r, 0))))
        return r


@unit('P12', 'the polygon is the fan of the cone', [CN + 'polygon', CN + '__init__'])
def fan(H):
    cg = H.mod('utils.cg')
    if not H.sym:
        return fan_concrete(H, cg)
    A = apex(H)
    rays = []
    H.angle_pairs(False)
    consts = [H.atan2(y, x) for x, y in ((1, 1), (-1, 1), (-1, -1), (1, -1))]
    for n in ('1', '2'):
        e = H.choose('edge' + n, [0, 1, 2, 3])
        q = on_edge(H, e, 'q' + n)
        d = H.vec('d' + n)
        o = OUT[e]
        H.assume(H.and_(H.gt(vdot(o, d), 0), H.or_(H.ne(d[0], 0), H.ne(d[1], 0))))
        th = H.atan2(d[1], d[0])
        for c in consts:
            H.relate(c, th)
        rays.append((d, q))
    H.note('no ray passes a corner of the bounding box within the relative tolerance 1e-9 unless it ends there; no direction component below 1e-15 but zero')
    (d1, q1), (d2, q2) = rays
    u1, u2 = vsub(q1, A), vsub(q2, A)
    c12 = vcross(u1, u2)
    H.assume(H.or_(H.ne(c12, 0), H.lt(vdot(u1, u2), 0)))
    H.use(Border(CN + '_bb_edge_intersection', cg, A, rays))
    H.use(Turn2(A, rays))
    cone = cg.Cone(A, d1, d2)
    P = cone.polygon()
    V = [list(v) for v in P.vertex_list()]
    H.check('starts at the apex', H.eqv(V[0], A))
    H.check('first border point on the first ray', H.eqv(V[1], q1))
    H.check('last border point on the second ray', H.eqv(V[-1], q2))
    B = V[1:]
    for a, b in zip(B, B[1:]):
        ea, eb = edge_of(H, a), edge_of(H, b)
        ok = []
        for e, (s, t) in enumerate(EDGES):
            ok.append(H.and_(ea[e], eb[e], H.ge(vdot(vsub(t, s), vsub(b, a)), 0)))
        H.check('border points follow one edge counterclockwise', H.or_(*ok))
    # they go less than once around the box, and not nowhere
    L = 0
    for a, b in zip(B, B[1:]):
        L = L + H.abs(b[0] - a[0]) + H.abs(b[1] - a[1])
    H.check('the border points go less than once around the box', H.and_(H.gt(L, 0), H.lt(L, 8 * W)))


@unit('P12', 'lemma: the border seen from the apex', [], concrete=False)
def seen(H):
    """following the border counterclockwise turns left around the apex, by less than half a turn along one edge, and the
    points of the box in the sector of two points of one edge are those of the triangle: so a border path less than once
    around the box spans, with the apex, the cone from its first to its last point, cut off at the box"""
    A = apex(H)
    e = H.choose('edge', [0, 1, 2, 3])
    a, b = on_edge(H, e, 'a'), on_edge(H, e, 'b')
    s, t = EDGES[e]
    ahead = vdot(vsub(t, s), vsub(b, a))
    c = vcross(vsub(a, A), vsub(b, A))
    H.check('ahead on the edge is left of it', H.and_(H.iff(H.gt(ahead, 0), H.gt(c, 0)), H.iff(H.lt(ahead, 0), H.lt(c, 0))))
    x = H.vec('x')
    H.assume(H.and_(*[H.and_(H.lt(-W, v), H.lt(v, W)) for v in x]))
    H.check('the box is on the left of its edge', H.imp(H.gt(ahead, 0), H.gt(vcross(vsub(b, a), vsub(x, a)), 0)))
    k = [vsub(v, A) for v in CORNERS]
    for u, v in zip(k, k[1:] + k[:1]):
        H.check('the corners turn left', H.gt(vcross(u, v), 0))


@unit('P12', 'lemma: once around the box is once around the apex', [], concrete=False)
def once(H):
    th = [H.real('angle') for _ in range(4)]
    for t in th:
        H.assume(H.and_(H.lt(-H.pi, t), H.le(t, H.pi)))
    step = []
    for s, t in zip(th, th[1:] + th[:1]):
        d = t - s
        H.assume(H.or_(H.and_(H.gt(d, 0), H.lt(d, H.pi)), H.lt(d, -H.pi)))         # a left turn
        step.append(H.ite(H.gt(d, 0), d, d + 2 * H.pi))
    H.check('four left turns make one round', H.eq(step[0] + step[1] + step[2] + step[3], 2 * H.pi))


def fan_concrete(H, cg):
    import math
    import numpy as np
    import shapely
    r = H.aux
    A = apex(H)
    if r.random() < .3:
        A = A * 0
        t1, t2 = math.radians(45 * r.randrange(8)), math.radians(r.choice([45 * r.randrange(8), r.uniform(0, 360)]))
    else:
        t1, t2 = r.uniform(-4, 4), r.uniform(-4, 4)
        if r.random() < .3:
            t2 = t1 + r.choice([.1, -.1, 3.1, -3.1, math.pi, 1e-3])
    H.assume(abs(math.remainder(t1 - t2, 2 * math.pi)) > 1e-4)
    s1, s2 = r.choice([1, 1, .01, 50]), r.choice([1, 1, .01, 50])
    d1, d2 = [s1 * math.cos(t1), s1 * math.sin(t1)], [s2 * math.cos(t2), s2 * math.sin(t2)]
    cone = cg.Cone(A, d1, d2)
    P = cone.polygon()
    H.check('the polygon is valid', P.is_valid)
    for _ in range(12):
        k = r.choice([1, 10, 1e3, 1e5, 1e6])
        x = [A[0] + r.uniform(-k, k), A[1] + r.uniform(-k, k)]
        if max(abs(x[0]), abs(x[1])) > .999 * W:
            continue
        v = vsub(x, A)
        th = math.atan2(v[1], v[0])
        if min(abs(math.remainder(th - t, 2 * math.pi)) for t in (t1, t2)) < 1e-3:
            continue
        inside = (th - t1) % (2 * math.pi) < (t2 - t1) % (2 * math.pi)
        H.check('a point of the box is in the polygon exactly when it is in the cone', P.contains(shapely.geometry.Point(x)) == inside)
