"""P07: radial boundary mapping and distance function."""
from pydv.contract import unit
from .common import *
from .p04_ellipse_line import setup, quadric, ellipse, EL, POSES, POSE
from .p02_pose_follow import ghost_star

ST = 'obstacles.starshaped_obstacle.StarshapedObstacle.'
SP = 'obstacles.starshaped_polygon.StarshapedPolygon.'


def crossing(H, slope):
    E, a, b, fr, fin, fout, l0, l1, _ = setup(H, slope, poses=[('ghost', 'O', 'O')])
    if not H.sym:
        sc = (a * b) ** 2
        H.assume(quadric(a, b, l0) < -1e-3 * sc and quadric(a, b, l1) > 1e-3 * sc)
    H.assume(H.and_(H.lt(quadric(a, b, l0), 0), H.gt(quadric(a, b, l1), 0)))
    r = E.line_intersection([fr.point(l0, fin), fr.point(l1, fin)], input_frame=fin, output_frame=fout)
    H.check('exactly one crossing from inside to outside', len(r) == 1)


for _s in ('shallow', 'steep'):
    unit('P07', 'one crossing from inside to outside, %s segments' % _s, [EL + 'line_intersection'], feas_nlsat=300, feas_ms=60, trials=2000)(
        lambda H, _s=_s: crossing(H, _s))


# ---------------------------------------------------------------- contracts of the callees
class Crosses:
    """line_intersection of a shape, in the obstacle frame: from an interior point of the kernel to an exterior point there
    is exactly one crossing, between them (ellipse: proved here and under P04; polygon: P24 and starshapedness)"""
    def __init__(self, qual, ends):
        self.qual, self.ends = qual, ends

    def check_pre(self, H, a):
        from pydv.errors import OutOfReach
        F = H.mod('obstacles').Frame
        l0, l1 = a['line']
        fi, fo = a.get('input_frame', F.GLOBAL), a.get('output_frame', F.GLOBAL)
        if fi != F.OBSTACLE or fo != F.OBSTACLE:
            raise OutOfReach('intersection asked in another frame')
        self.ends(H, a['self'], l0, l1)

    def result(self, H, a):
        l0, l1 = a['line']
        s = H.fresh('s')
        H.assume(H.and_(H.gt(s, 0), H.lt(s, 1)))
        p = [l0[i] + s * (l1[i] - l0[i]) for i in (0, 1)]
        self.on(H, a['self'], p)
        return [H.arr(*p)]


class EllipseCrosses(Crosses):
    def __init__(self, a, b):
        self.qual, self.a, self.b = EL + 'line_intersection', a, b

    def ends(self, H, E, l0, l1):
        a, b = self.a, self.b
        n = 'call of line_intersection: '
        H.check(n + 'starts inside', H.lt(quadric(a, b, l0), 0), 'precondition')
        D, M2, n0, n1 = d2(l0, l1), H.max(a * a, b * b), vdot(l0, l0), vdot(l1, l1)
        M = H.max(a, b)
        H.lemma('square of the larger semi-axis', H.eq(M2, M * M))
        H.by('an interior point is closer than the larger semi-axis', H.lt(n0, M2),
             [H.lt(sq(b) * sq(l0[0]) + sq(a) * sq(l0[1]), sq(a) * sq(b)), H.or_(H.and_(H.eq(M2, sq(a)), H.ge(sq(a), sq(b))), H.and_(H.eq(M2, sq(b)), H.ge(sq(b), sq(a)))),
              H.gt(a, 0), H.gt(b, 0)], [l0[0], l0[1]])
        H.lemma(n + 'long enough', H.ge(D, 4 * M2))
        H.by('parallelogram', H.le(D, 2 * n0 + 2 * n1), [], [l0[0], l0[1], l1[0], l1[1]])
        H.by('far from the centre', H.gt(n1, M2), [H.ge(D, 4 * M2), H.le(D, 2 * n0 + 2 * n1), H.lt(n0, M2)], [D, n0, n1, M2])
        H.by(n + 'ends outside', H.gt(quadric(a, b, l1), 0),
             [H.gt(n1, M2), H.or_(H.and_(H.eq(M2, sq(a)), H.ge(sq(a), sq(b))), H.and_(H.eq(M2, sq(b)), H.ge(sq(b), sq(a)))), H.gt(a, 0), H.gt(b, 0)], [l1[0], l1[1], M2])

    def on(self, H, E, p):
        H.assume(H.eq(quadric(self.a, self.b, p), 0))


class PolygonCrosses(Crosses):
    def __init__(self):
        self.qual = 'obstacles.polygon.Polygon.line_intersection'

    def ends(self, H, o, l0, l1):
        g = o.polygon(H.mod('obstacles').Frame.OBSTACLE)
        n = 'call of line_intersection: '
        H.check(n + 'starts at the reference point', H.eqv(l0, o._xr), 'precondition')
        i, b = H.member(g, l0)
        H.check(n + 'starts inside', i, 'precondition')
        x0, y0, x1, y1 = g.bounds
        D = d2(l0, l1)
        w, h = x1 - x0, y1 - y0
        H.lemma(n + 'long enough', H.ge(D, sq(w + h)))
        H.by('beyond the bounding box', H.or_(H.lt(l1[0], x0), H.gt(l1[0], x1), H.lt(l1[1], y0), H.gt(l1[1], y1)),
             [H.ge(D, sq(w + h)), H.lt(x0, l0[0]), H.lt(l0[0], x1), H.lt(y0, l0[1]), H.lt(l0[1], y1)], [l0[0], l0[1], l1[0], l1[1], x0, y0, x1, y1])
        i, b = H.member(g, l1)
        H.check(n + 'ends outside', H.not_(H.or_(i, b)), 'precondition')

    def on(self, H, o, p):
        i, b = H.member(o.polygon(H.mod('obstacles').Frame.OBSTACLE), p)
        H.assume(b)


def frames(H):
    F = H.mod('obstacles').Frame
    if H.sym:
        pk, fi, fo = H.choose('pose and frames', POSE)
        mm, ps = mk_pose(H, (pk,))
    else:
        mm, ps = mk_pose(H, POSES)
        fi, fo = H.choose('fin', ['G', 'O']), H.choose('fout', ['G', 'O'])
    f = {'G': F.GLOBAL, 'O': F.OBSTACLE}
    return mm, ps, f[fi], f[fo]


def call(H, fn, x, fin, fout=None):
    """the query, with the frames given or left to the default"""
    F = H.mod('obstacles').Frame
    kw = {}
    if fin != F.GLOBAL or H.choose('explicit', [True, False]):
        kw['input_frame'] = fin
    if fout is not None and (fout != F.GLOBAL or 'input_frame' in kw):
        kw['output_frame'] = fout
    return fn(x, **kw)


def on_ray(H, xr, x, B):
    d, e = vsub(x, xr), vsub(B, xr)
    sc = None if H.sym else 1 + 100 * (abs(d[0]) + abs(d[1])) * (abs(e[0]) + abs(e[1]))
    H.check('the mapped point is on the line through the reference point and the point', H.eq(vcross(d, e), 0, sc))
    H.check('the mapped point is on the side of the point', H.gt(vdot(d, e), 0))


# ---------------------------------------------------------------- ellipse
def inside_point(H, a, b):
    """a reference point strictly inside the ellipse"""
    if H.sym:
        u = H.vec('r')
        H.assume(H.lt(vdot(u, u), 1))
    else:
        import math
        t, k = H.angle('rt'), H.real('rk', 0, .95)
        u = [k * math.cos(t), k * math.sin(t)]
    return [a * u[0], b * u[1]], u


@unit('P07', 'ellipse: boundary mapping', [EL + 'boundary_mapping', ST + 'reference_direction', ST + 'xr'], feas_nlsat=200)
def ell_map(H):
    mm, ps, fin, fout = frames(H)
    fr = Frames(H, mm, ps)
    a, b = (H.real('a', pos=True), H.real('b', pos=True)) if H.sym else (H.real('a', .05, 30), H.real('b', .05, 30))
    xr, u = inside_point(H, a, b)
    E = H.mod('obstacles').Ellipse([a, b], xr=H.arr(*xr), motion_model=mm, id='temp')
    H.use(EllipseCrosses(a, b))
    x = H.vec('x')
    if H.sym:
        H.assume(H.gt(d2(x, xr), 0))
        H.lemma('the reference point is inside', H.lt(quadric(a, b, xr), 0))
    else:
        if H.choose('scale', ['boundary', 'any']) == 'boundary':
            t = H.angle('t')
            x = [a * H.cos(t), b * H.sin(t)]
        H.assume(d2(x, xr) > 1e-4)
    r = call(H, E.boundary_mapping, fr.point(x, fin), fin, fout)
    H.check('there is a boundary point in every direction', r is not None)
    B = fr.back(r, fout)
    H.check('the mapped point is on the ellipse', H.eq(quadric(a, b, B), 0, None if H.sym else 10 * sq(a) * sq(b)))
    on_ray(H, xr, x, B)
    H.check('the reference point is where it was', H.eqv(E.xr(H.mod('obstacles').Frame.OBSTACLE), xr))


class Maps:
    """contract of boundary_mapping (proved above) in the obstacle frame"""
    def __init__(self, qual, xr, x, B):
        self.qual, self.xr, self.x, self.B = qual, xr, x, B

    def check_pre(self, H, a):
        from pydv.errors import OutOfReach
        F = H.mod('obstacles').Frame
        if a.get('input_frame', F.GLOBAL) != F.OBSTACLE or a.get('output_frame', F.GLOBAL) != F.OBSTACLE:
            raise OutOfReach('boundary mapping asked in another frame')
        H.check('call of boundary_mapping: for the point of the query', H.eqv(a['x'], self.x), 'precondition')

    def result(self, H, a):
        return H.arr(*self.B)


def mapped(H, x, xr):
    t = H.real('t', pos=True)
    return t, [xr[i] + t * (x[i] - xr[i]) for i in (0, 1)]


def location(H, df, below, one, above):
    tol = 0 if H.sym else 1e-9
    H.check('below one exactly for interior points', H.iff(H.lt(df, 1), below) if H.sym else not below or df < 1)
    H.check('one exactly on the boundary', H.iff(H.eq(df, 1), one) if H.sym else not one or abs(df - 1) < 1e-6)
    H.check('above one exactly outside', H.iff(H.gt(df, 1), above) if H.sym else not above or df > 1)
    H.check('never negative', H.ge(df, 0))


@unit('P07', 'any starshaped obstacle: distance function', [ST + 'distance_function', ST + 'point_location'])
def any_dist(H):
    """whatever the shape: with the boundary point at t times the distance of the point, the point is interior iff t > 1"""
    mm, ps, fin, _ = frames(H)
    fr = Frames(H, mm, ps)
    x, xr = H.vec('x'), H.vec('xr')
    H.assume(H.gt(d2(x, xr), 0 if H.sym else 1e-4))
    if H.sym:
        t, B = mapped(H, x, xr)
    else:
        t = abs(H.real('t')) + .01
        t = 1. if abs(t - 1) < 1e-3 else t
        B = [xr[i] + t * (x[i] - xr[i]) for i in (0, 1)]
    F = H.mod('obstacles').Frame
    o = ghost_star(H, None, None)(mm)
    if H.sym:
        class BM(type(o)):
            def boundary_mapping(self, y, input_frame=F.GLOBAL, output_frame=F.GLOBAL):
                from pydv.errors import OutOfReach
                if input_frame != F.OBSTACLE or output_frame != F.OBSTACLE:
                    raise OutOfReach('boundary mapping asked in another frame')
                H.check('call of boundary_mapping: for the point of the query', H.eqv(y, x), 'precondition')
                return H.arr(*B)
    else:
        class BM(type(o)):
            def boundary_mapping(self, y, input_frame=F.GLOBAL, output_frame=F.GLOBAL):
                return self.transform(H.arr(*B), F.OBSTACLE, output_frame)
    o = BM(H.arr(*xr), motion_model=mm, id='temp')
    o._xr = H.arr(*xr)
    p = fr.point(x, fin)
    df = call(H, o.distance_function, p, fin)
    location(H, df, H.gt(t, 1) if H.sym else t > 1, H.eq(t, 1) if H.sym else t == 1, H.lt(t, 1) if H.sym else t < 1)
    if t == 1 if not H.sym else False:
        return
    l = call(H, o.point_location, fr.point(x, fin), fin)
    H.check('location negative exactly inside', H.iff(H.lt(l, 0), H.gt(t, 1)) if H.sym else (l < 0) == (t > 1))
    H.check('location positive exactly outside', H.iff(H.gt(l, 0), H.lt(t, 1)) if H.sym else (l > 0) == (t < 1))


@unit('P07', 'ellipse: distance function', [ST + 'distance_function'], feas_nlsat=200)
def ell_dist(H):
    mm, ps, fin, _ = frames(H)
    fr = Frames(H, mm, ps)
    a, b = (H.real('a', pos=True), H.real('b', pos=True)) if H.sym else (H.real('a', .05, 30), H.real('b', .05, 30))
    xr, u = inside_point(H, a, b)
    E = H.mod('obstacles').Ellipse([a, b], xr=H.arr(*xr), motion_model=mm, id='temp')
    if H.sym:
        x = H.vec('x')
        H.assume(H.gt(d2(x, xr), 0))
        t, B = mapped(H, x, xr)
        H.use(Maps(EL + 'boundary_mapping', xr, x, B))
        below, one, above = H.gt(t, 1), H.eq(t, 1), H.lt(t, 1)
    else:
        k, th = abs(H.real('k')), H.angle('t')
        x = [a * k * H.cos(th), b * k * H.sin(th)]
        H.assume(d2(x, xr) > 1e-4 and (abs(k - 1) > 1e-4 or k == 1))
        below, one, above = k < 1, k == 1, k > 1
    df = call(H, E.distance_function, fr.point(x, fin), fin)
    location(H, df, below, one, above)


@unit('P07', 'lemma: a point is inside the ellipse exactly before the boundary point of its ray', [], concrete=False)
def before(H):
    a, b = H.real('a', pos=True), H.real('b', pos=True)
    xr, x, t = H.vec('xr'), H.vec('x'), H.real('t', pos=True)
    H.assume(H.gt(d2(x, xr), 0))
    B = [xr[i] + t * (x[i] - xr[i]) for i in (0, 1)]
    d = vsub(x, xr)
    A, Bc, C = sq(b) * sq(d[0]) + sq(a) * sq(d[1]), sq(b) * xr[0] * d[0] + sq(a) * xr[1] * d[1], quadric(a, b, xr)
    g = quadric(a, b, x)
    H.assume(H.and_(H.lt(C, 0), H.eq(quadric(a, b, B), 0)))
    H.by('the point differs from the reference point', H.gt(A, 0), [H.gt(a, 0), H.gt(b, 0), H.gt(sq(d[0]) + sq(d[1]), 0)], [d[0], d[1]])
    H.lemma('the ellipse along the ray', H.eq(A * t * t + 2 * Bc * t + C, 0))
    H.lemma('the ellipse at the point', H.eq(g, A + 2 * Bc + C))
    H.by('inside exactly before the boundary point', H.and_(H.iff(H.lt(g, 0), H.gt(t, 1)), H.iff(H.gt(g, 0), H.lt(t, 1))),
         [H.gt(A, 0), H.lt(C, 0), H.gt(t, 0), H.eq(A * t * t + 2 * Bc * t + C, 0), H.eq(g, A + 2 * Bc + C)], [A, Bc, C, t, g])


# ---------------------------------------------------------------- starshaped polygon
def star_points(r):
    """a polygon starshaped with respect to an interior point of its kernel: (vertices, kernel point)"""
    import math
    for _ in range(100):
        n = r.randint(3, 9)
        if r.random() < .5:
            pts = rand_polygon(r, convex=True)
            c = [sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts)]
        else:
            angs = sorted(r.uniform(0, 2 * math.pi) for _ in range(n))
            c = [r.uniform(-2, 2), r.uniform(-2, 2)]
            pts = [[c[0] + q * math.cos(a), c[1] + q * math.sin(a)] for a, q in ((a, r.uniform(.5, 5)) for a in angs)]
            if r.random() < .5:
                pts.reverse()
        s = area2(pts)
        m = len(pts)
        if all(orient(pts[i], pts[(i + 1) % m], c) * (1 if s > 0 else -1) > .05 for i in range(m)) and simple(pts):
            return [pts, c]
    return [[[0., 0.], [4., 0.], [1., 3.]], [1.5, 1.]]


def star(H, mm):
    O = H.mod('obstacles')
    if H.sym:
        g = H.abs_polygon()
        xr = H.vec('xr')
        i, b = H.member(g, xr)
        H.assume(i)
        return O.StarshapedPolygon(g, xr=[xr[0], xr[1]], motion_model=mm, id='temp'), g, xr
    pts, c = H.data('star', star_points)
    return O.StarshapedPolygon(pts, xr=c, motion_model=mm, id='temp'), pts, c


@unit('P07', 'starshaped polygon: boundary mapping', [SP + 'boundary_mapping', SP + '__init__', ST + 'reference_direction'],
      assumes=['a ray from an interior point of the kernel meets the boundary of a starshaped polygon exactly once (geometry); line_intersection reports it (P24)'])
def star_map(H):
    mm, ps, fin, fout = frames(H)
    fr = Frames(H, mm, ps)
    o, g, xr = star(H, mm)
    H.use(PolygonCrosses())
    x = H.vec('x')
    H.assume(H.gt(d2(x, xr), 0 if H.sym else 1e-4))
    r = call(H, o.boundary_mapping, fr.point(x, fin), fin, fout)
    H.check('there is a boundary point in every direction', r is not None)
    B = fr.back(r, fout)
    if H.sym:
        H.check('the mapped point is on the boundary', H.member(g, B)[1])
    else:
        H.check('the mapped point is on the boundary', poly_dist(g, B) < 1e-6)
    on_ray(H, xr, x, B)
    H.check('the reference point is where it was', H.eqv(o.xr(H.mod('obstacles').Frame.OBSTACLE), xr))


@unit('P07', 'starshaped polygon: distance function', [SP + 'distance_function'],
      assumes=['points between an interior point of the kernel and the boundary point are interior, points beyond are exterior (geometry)'])
def star_dist(H):
    mm, ps, fin, _ = frames(H)
    fr = Frames(H, mm, ps)
    o, g, xr = star(H, mm)
    if H.sym:
        x = H.vec('x')
        H.assume(H.gt(d2(x, xr), 0))
        t, B = mapped(H, x, xr)
        H.use(Maps(SP + 'boundary_mapping', xr, x, B))
        below, one, above = H.gt(t, 1), H.eq(t, 1), H.lt(t, 1)
    else:
        x = H.vec('x') if H.choose('where', ['any', 'edge']) == 'any' else None
        if x is None:
            i, s = H.int('edge', 0, len(g) - 1), H.real('s', 0, 1)
            x = vadd(smul(1 - s, g[i]), smul(s, g[(i + 1) % len(g)]))
            below, one, above = False, True, False
        else:
            s = exact(g, x)
            H.assume(poly_dist(g, x) > 1e-6)
            below, one, above = s < 0, False, s > 0
        H.assume(d2(x, xr) > 1e-4)
    df = call(H, o.distance_function, fr.point(x, fin), fin)
    location(H, df, below, one, above)


def exact(pts, x):
    return -1 if poly_in(pts, x) else 1
