"""P03: interior, boundary, exterior."""
from pydv.contract import unit
from .common import *
from .p04_ellipse_line import ellipse, POSES

OB = 'obstacles.obstacle.Obstacle.'


def ghost_obstacle(H, loc):
    """an obstacle of any kind: whatever point_location returns"""
    class G(H.mod('obstacles').Obstacle):
        def point_location(self, x, input_frame=None):
            self.asked = (x, input_frame)
            return loc

        def _no(self, *a, **k):
            raise AssertionError
        draw = dilated_obstacle = line_intersection = tangent_points = _no
        _check_convexity = _compute_polygon_representation = area = _no
        init_plot = update_plot = _no
    return G(id='temp')


@unit('P03', 'interior_point, exterior_point and boundary_point read the location', [OB + 'interior_point', OB + 'exterior_point', OB + 'boundary_point'])
def three(H):
    loc = H.real('location')
    o = ghost_obstacle(H, loc)
    x, f = H.vec('x'), frame(H, 'f')
    i, e = o.interior_point(x, f), o.exterior_point(x, f)
    H.check('the point is passed on in its frame', H.and_(H.eqv(o.asked[0], x), o.asked[1] == f))
    H.check('interior exactly when the location is negative', H.and_(H.iff(H.lt(loc, 0), i), isinstance(i, bool)) if H.sym else bool(i) == (loc < 0))
    H.check('exterior exactly when the location is positive', H.iff(H.gt(loc, 0), e) if H.sym else bool(e) == (loc > 0))
    b = o.boundary_point(x, f)
    H.check('the point is passed on in its frame', H.and_(H.eqv(o.asked[0], x), o.asked[1] == f))
    tol = H.frac(1, 10 ** 8)
    H.check('boundary exactly when the location is zero up to the tolerance',
            H.iff(H.and_(H.le(loc, tol), H.ge(loc, -tol)), b) if H.sym else bool(b) == (abs(loc) <= 1e-8))
    H.check('never interior and exterior', H.not_(H.and_(i, e)))


@unit('P03', 'ellipse', ['obstacles.ellipse.Ellipse.point_location'])
def ell(H):
    mm, ps = mk_pose(H, POSES)
    E, a, b = ellipse(H, mm)
    f = frame(H, 'f')
    fr = Frames(H, mm, ps)
    u = H.vec('u')
    p = [a * u[0], b * u[1]]                     # any point, in units of the semi-axes
    x = fr.point(p, f)
    g = vdot(u, u) - 1
    if not H.sym:
        H.assume(abs(g) > 1e-6)
    loc = E.point_location(x, f)
    H.check('negative exactly inside the ellipse', H.iff(H.lt(loc, 0), H.lt(g, 0)))
    H.check('positive exactly outside the ellipse', H.iff(H.gt(loc, 0), H.gt(g, 0)))
    H.check('the point is unchanged', H.eqv(fr.back(x, f), p))
    H.check('the default frame is global', H.eq(E.point_location(fr.point(p, H.mod('obstacles').Frame.GLOBAL)), loc))


def sample_point(H, pts):
    """a point of the plane, on a vertex, an edge, level with a vertex, near the boundary or anywhere: (point, kind)"""
    def g(r):
        n = len(pts)
        k = r.choice(['vertex', 'edge', 'mid', 'level', 'near', 'any', 'any'])
        i = r.randrange(n)
        a, b = pts[i], pts[(i + 1) % n]
        if k == 'vertex':
            return [a[0], a[1], k]
        if k == 'mid':
            return [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2, k]
        if k == 'edge':
            t = r.random()
            if a[0] == b[0]:
                return [a[0], a[1] + t * (b[1] - a[1]), k]
            if a[1] == b[1]:
                return [a[0] + t * (b[0] - a[0]), a[1], k]
            return [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2, 'mid']
        if k == 'level':
            return [r.uniform(-9, 9), a[1], k] if r.random() < .5 else [a[0], r.uniform(-9, 9), k]
        if k == 'near':
            return [a[0] + r.gauss(0, .05), a[1] + r.gauss(0, .05), k]
        return [r.uniform(-9, 9), r.uniform(-9, 9), k]
    p = H.data('point', g)
    return [p[0], p[1]], p[2]


def exact_sign(pts, p):
    """-1, 0, 1 by exact rational arithmetic"""
    from fractions import Fraction as Fr
    P = [(Fr(v[0]), Fr(v[1])) for v in pts]
    q = (Fr(p[0]), Fr(p[1]))
    n = len(P)
    for i in range(n):
        a, b = P[i], P[(i + 1) % n]
        if orient(a, b, q) == 0 and min(a[0], b[0]) <= q[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= q[1] <= max(a[1], b[1]):
            return 0
    return -1 if poly_in(P, q) else 1


@unit('P03', 'polygon', ['obstacles.polygon.Polygon.point_location', 'obstacles.polygon.Polygon.__init__'],
      assumes=['shapely: contains / exterior.contains of a polygon and a point decide its interior / boundary'])
def poly(H):
    mm, ps = mk_pose(H, POSES)
    O = H.mod('obstacles')
    f = frame(H, 'f')
    fr = Frames(H, mm, ps)
    if H.sym:
        g = H.abs_polygon()
        o = O.Polygon(g, motion_model=mm, id='temp')
        p = H.vec('p')
        x = fr.point(p, f)
        loc = o.point_location(x, f)
        i, b = H.member(g, p)
        H.check('negative exactly inside', H.iff(H.lt(loc, 0), i))
        H.check('zero exactly on the boundary', H.iff(H.eq(loc, 0), b))
        H.check('positive exactly outside', H.iff(H.gt(loc, 0), H.and_(H.not_(i), H.not_(b))))
        H.check('the point is unchanged', H.eqv(fr.back(x, f), p))
        H.check('the default frame is global', H.eq(o.point_location(fr.point(p, O.Frame.GLOBAL)), loc))
        return
    pts = H.data('polygon', rand_polygon)
    kind = H.choose('class', ['polygon', 'dilated'])
    o = O.Polygon(pts, motion_model=mm, id='temp')
    p, k = sample_point(H, pts)
    if kind == 'dilated':
        pad = H.real('pad', .05, 1)
        o.point_location(fr.point(p, f), f)
        o = o.dilated_obstacle(pad, id='temp')
        dd = poly_dist(pts, p) * (-1 if exact_sign(pts, p) < 0 else 1)
        H.assume(dd < pad * .9 or dd > pad * 1.01)
        loc = o.point_location(fr.point(p, f), f)
        H.check('a dilated polygon contains what is within the padding', (loc < 0) == (dd < pad * .9))
        return
    s = exact_sign(pts, p)
    x = fr.point(p, f)
    if is_global(H, f) and mm is not None and poly_dist(pts, p) < 1e-6:
        return                                   # rounding of the frame change decides
    if s != 0 and poly_dist(pts, p) < 1e-9:
        return
    loc = o.point_location(x, f)
    H.check('location of the point', (loc > 0) - (loc < 0) == s)
    H.check('interior / exterior / boundary', (o.interior_point(x, f), o.exterior_point(x, f), bool(o.boundary_point(x, f))) == (s < 0, s > 0, s == 0))


# ---------------------------------------------------------------- combined obstacles
class Part:
    """a part of a combined obstacle: any obstacle, asked in the global frame"""
    def __init__(self, H, loc, x):
        self.H, self.loc, self.x = H, loc, x

    def point_location(self, x, input_frame=None):
        H = self.H
        g = H.mod('obstacles').Frame.GLOBAL
        H.check('parts are asked about the same point in the global frame', H.and_(H.eqv(x, self.x), input_frame is None or input_frame == g))
        return self.loc


@unit('P03', 'combined obstacle', ['obstacles.starshaped_primitive_combination.StarshapedPrimitiveCombination.point_location',
                                    'obstacles.starshaped_primitive_combination.StarshapedPrimitiveCombination._hull_cluster_point_location'])
def comb(H):
    O = H.mod('obstacles')
    if not H.sym:
        return comb_concrete(H)
    x = H.vec('p')
    n = H.int('n', 1)
    case = H.choose('case', ['inside a part', 'inside the hull', 'on a part', 'on the hull', 'outside'])
    hull = None
    if H.choose('hull', [True, False]) or 'hull' in case:
        hull = H.abs_polygon()
        hi, hb = H.member(hull, x)
        H.assume({'inside the hull': hi, 'on the hull': hb, 'outside': H.and_(H.not_(hi), H.not_(hb))}.get(case, H.T if case == 'inside a part' else H.not_(hi)))
    fact = {'inside a part': None, 'inside the hull': None, 'on a part': lambda k, v: H.ge(v, 0),
            'on the hull': lambda k, v: H.ge(v, 0), 'outside': lambda k, v: H.gt(v, 0)}[case]
    L = H.reals('loc', n, fact)
    o = O.StarshapedPrimitiveCombination(H.seq(n, lambda k: Part(H, L.at(k), x)), hull, H.arr(0, 0), id='temp')
    j = H.int('j', 0)
    H.assume(H.lt(j, n))
    if case == 'inside a part':
        H.assume(H.lt(L.at(j), 0))
    if case == 'on a part':
        H.assume(H.eq(L.at(j), 0))
    r = o.point_location(H.arr(x[0], x[1]))
    H.inst(j, n)
    want = -1 if case.startswith('inside') else 0 if case.startswith('on') else 1
    H.check({-1: 'interior of any part is interior', 0: 'otherwise on the boundary of any part is boundary',
             1: 'outside all parts is exterior'}[want],
            {-1: H.lt(r, 0), 0: H.eq(r, 0), 1: H.gt(r, 0)}[want])


def comb_concrete(H):
    O = H.mod('obstacles')
    parts, specs = [], []
    for i in range(H.int('n', 1, 3)):
        c = H.data('centre', lambda r: [float(r.randint(-3, 3)), float(r.randint(-3, 3))])
        mm = H.mod('obstacles.motion_model').Static(c, 0.)
        if H.choose('kind', ['ellipse', 'polygon']) == 'ellipse':
            a, b = H.real('a', .5, 3), H.real('b', .5, 3)
            parts.append(O.Ellipse([a, b], motion_model=mm, id='temp'))
            specs.append((lambda p, a=a, b=b, c=c: (lambda v: -1 if v < -1e-6 else 1 if v > 1e-6 else None)(((p[0] - c[0]) / a) ** 2 + ((p[1] - c[1]) / b) ** 2 - 1), None))
        else:
            pts = H.data('polygon', lambda r: rand_polygon(r, coll=False))
            pts = [[float(round(v[0])), float(round(v[1]))] for v in pts]
            H.assume(simple(pts))
            parts.append(O.Polygon(pts, motion_model=mm, id='temp'))
            g = [vadd(v, c) for v in pts]
            specs.append((lambda p, g=g: exact_sign(g, p), g))
    hull = None
    if H.choose('hull', [True, False]):
        hp = [[float(round(v[0])), float(round(v[1]))] for v in H.data('hullpoly', lambda r: rand_polygon(r, coll=False))]
        H.assume(simple(hp))
        import shapely
        hull = shapely.geometry.Polygon(hp)
        specs.append((lambda p: exact_sign(hp, p), hp))
    polys = [s[1] for s in specs if s[1]]
    p, k = sample_point(H, polys[H.int('which', 0, 5) % len(polys)] if polys else [[0., 0.], [1., 0.], [0., 1.]])
    want = [s[0](p) for s in specs]
    for w, (f, g) in zip(want, specs):
        H.assume(w is not None and (g is None or w == 0 or poly_dist(g, p) > 1e-9))
    o = O.StarshapedPrimitiveCombination(parts, hull, H.arr(0, 0), id='temp')
    r = o.point_location(H.arr(*p))
    H.check('location in the union of the parts', (r > 0) - (r < 0) == (-1 if -1 in want else 0 if 0 in want else 1))
