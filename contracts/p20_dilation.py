"""P20: dilation."""
from pydv.contract import unit
from .common import *
from .p04_ellipse_line import quadric, EL, POSES, POSE
from .p07_radial import EllipseCrosses, PolygonCrosses, Crosses, on_ray, inside_point, star_points, star
from .p19_copies import observe, compare, KEYS

SP = 'obstacles.starshaped_polygon.StarshapedPolygon.'
PL = 'obstacles.polygon.Polygon.'


def pose(H):
    return mk_pose(H, ('none', 'ghost') if H.sym else POSES)


def padding(H):
    return H.real('padding', nonneg=True) if H.sym else H.choose('no padding', [0., abs(H.real('pad')), abs(H.real('pad'))])


def before(H, o):
    k = H.choose('queried before', ['-', 'polygon', 'both'])
    if k != '-':
        o.polygon()
    if k == 'both' and hasattr(o, 'kernel'):
        o.kernel()


def dilate(H, o, pad):
    return o.dilated_obstacle(pad, **({} if H.choose('id', ['default', 'temp']) == 'default' else {'id': 'temp'}))


# ---------------------------------------------------------------- ellipse
def the_ellipse(H, mm):
    a, b = (H.real('a', pos=True), H.real('b', pos=True)) if H.sym else (H.real('a', .05, 30), H.real('b', .05, 30))
    xr, u = inside_point(H, a, b)
    kw = {} if H.choose('reference point', ['default', 'given']) == 'default' else {'xr': H.arr(*xr)}
    if not kw:
        xr = [0, 0] if H.sym else [0., 0.]
    return H.mod('obstacles').Ellipse([a, b], motion_model=mm, id='temp', **kw), a, b, xr


@unit('P20', 'ellipse: contains the original and the padding', [EL + 'dilated_obstacle', EL + 'copy', EL + 'point_location'])
def ell_contains(H):
    mm, ps = pose(H)
    o, a, b, xr = the_ellipse(H, mm)
    before(H, o)
    pad = padding(H)
    d = dilate(H, o, pad)
    F = H.mod('obstacles').Frame
    H.check('a new object of the same kind', d is not o and type(d) is type(o))
    u = H.vec('u')
    x = H.arr(a * u[0], b * u[1])
    lo, ld = o.point_location(x, F.OBSTACLE), d.point_location(x, F.OBSTACLE)
    H.check('the original is unchanged', H.iff(H.le(lo, 0), H.le(vdot(u, u), 1)) if H.sym else abs(vdot(u, u) - 1) < 1e-6 or (lo <= 0) == (vdot(u, u) <= 1))
    w, z = H.real('w', 0, 1), H.choose('sign', [1, -1])
    for i in (0, 1):
        e = [0, 0]
        e[i] = z * w * ((a, b)[i] + pad)
        l = d.point_location(H.arr(*e), F.OBSTACLE)
        H.check('everything within the padding along the axes is contained', H.le(l, 0))
    if H.sym:
        A, B = a + pad, b + pad
        n = H.div(a * u[0], A), H.div(b * u[1], B)
        for i in (0, 1):
            H.by('coordinates shrink', H.le(sq(n[i]), sq(u[i])), [H.eq(n[i] * (A, B)[i], (a, b)[i] * u[i]), H.ge((A, B)[i], (a, b)[i]), H.gt((a, b)[i], 0)], [n[i], A, B, u[i]])
    H.check('contains the original', H.imp(H.le(vdot(u, u), 1), H.le(ld, 0)))


@unit('P20', 'ellipse: same pose, original unchanged', [EL + 'dilated_obstacle', EL + 'copy'])
def ell_same(H):
    mm, ps = pose(H)
    o, a, b, xr = the_ellipse(H, mm)
    before(H, o)
    same(H, o, 'ellipse')


def same(H, o, kind):
    key = H.choose('observed', KEYS)
    p = H.vec('p')
    vo = observe(H, o, kind, p, key)
    d = dilate(H, o, padding(H))
    if key == 'pose':
        compare(H, 'the dilated obstacle has the same', vo, observe(H, d, kind, p, key))
    if H.choose('then', ['-', 'queried', 'moved']) == 'queried':
        d.polygon()
        if hasattr(d, 'kernel') and kind == 'ellipse':
            d.kernel()
    compare(H, 'the original keeps its', vo, observe(H, o, kind, p, key))


@unit('P20', 'ellipse: boundary mapping of the dilated obstacle', [EL + 'dilated_obstacle', EL + 'boundary_mapping'], feas_nlsat=200)
def ell_map(H):
    mm, ps = pose(H)
    fr = Frames(H, mm, ps)
    o, a, b, xr = the_ellipse(H, mm)
    before(H, o)
    pad = padding(H)
    d = dilate(H, o, pad)
    A, B = (d._a[0], d._a[1]) if H.sym else (a + pad, b + pad)
    if H.sym:
        H.check('semi-axes grow by the padding', H.and_(H.eq(A, a + pad), H.eq(B, b + pad)))
        A, B = a + pad, b + pad
        H.by('semi-axes are positive', H.and_(H.gt(A, 0), H.gt(B, 0)), [H.gt(a, 0), H.gt(b, 0), H.ge(pad, 0)], [])
        n = [H.div(xr[0], a), H.div(xr[1], b)] if xr != [0, 0] else [0, 0]
        H.use(DilatedCrosses(A, B, a, b, xr))
    x = H.vec('x')
    H.assume(H.gt(d2(x, xr), 0 if H.sym else 1e-4))
    F = H.mod('obstacles').Frame
    f = frame(H, 'f')
    r = d.boundary_mapping(fr.point(x, f), input_frame=f, output_frame=f)
    H.check('there is a boundary point in every direction', r is not None)
    bd = fr.back(r, f)
    H.check('on the dilated ellipse', H.eq(quadric(A, B, bd), 0, None if H.sym else 10 * sq(A) * sq(B)))
    on_ray(H, xr, x, bd)


class DilatedCrosses(EllipseCrosses):
    def __init__(self, A, B, a, b, xr):
        EllipseCrosses.__init__(self, A, B)
        self.o = a, b, xr

    def check_pre(self, H, a):
        a0, b0, xr = self.o
        A, B = self.a, self.b
        l0 = a['line'][0]
        H.check('call of line_intersection: starts at the reference point', H.eqv(l0, xr), 'precondition')
        if xr != [0, 0]:
            H.by('the original is inside', H.lt(quadric(A, B, xr), 0),
                 [H.lt(quadric(a0, b0, xr), 0), H.gt(a0, 0), H.gt(b0, 0), H.ge(A, a0), H.ge(B, b0)], [A, B])
        EllipseCrosses.check_pre(self, H, a)


# ---------------------------------------------------------------- polygon
def poly_case(H, mm, cls):
    """(obstacle, its shape in the obstacle frame, reference point)"""
    O = H.mod('obstacles')
    if cls == 'star':
        o, g, xr = star(H, mm)
        return o, g, xr
    g = H.abs_polygon() if H.sym else H.data('shape', rand_polygon)
    return O.Polygon(g, motion_model=mm, id='temp'), g, None


def grows(cls):
    def u(H):
        mm, ps = pose(H)
        fr = Frames(H, mm, ps)
        o, g, xr = poly_case(H, mm, cls)
        if H.sym:
            g = o.polygon(H.mod('obstacles').Frame.OBSTACLE)
        before(H, o) if cls == 'polygon' else None
        pad = padding(H)
        d = dilate(H, o, pad)
        H.check('a new object of the same kind', d is not o and type(d) is type(o))
        f = frame(H, 'f')
        if H.sym:
            p = H.vec('p')
            from pydv.shshim import Point
            D = g.distance(Point(p))
            i, b = H.member(g, p)
            closed = H.or_(i, b)
            near = H.and_(H.gt(pad, 0), H.le(D, H.frac(98, 100) * pad))
        else:
            p = H.data('point', lambda r: near_point(r, g, pad))
            inn = poly_in(g, p)
            D = 0. if inn else poly_dist(g, p)
            H.assume(poly_dist(g, p) > 1e-6)
            closed, near = inn, pad > 0 and D <= .98 * pad
        if H.sym:          # facts about the grown set at p, and its bounding box
            G = d.polygon(H.mod('obstacles').Frame.OBSTACLE)
            G.bounds
            H.member(G, p)
        l = d.point_location(fr.point(p, f), f)
        H.check('contains the original', H.imp(closed, H.le(l, 0)))
        H.check('everything within the padding is contained', H.imp(near, H.lt(l, 0)))
        l0 = o.point_location(fr.point(p, f), f)
        H.check('the original is unchanged', H.iff(H.le(l0, 0), closed) if H.sym else (l0 <= 0) == closed)
        if not H.sym:
            import shapely
            P = d.polygon(H.mod('obstacles').Frame.OBSTACLE)
            H.check('the polygon contains everything within the padding', not near or P.contains(shapely.geometry.Point(p)))
    return u


def near_point(r, g, pad):
    n = len(g)
    i = r.randrange(n)
    a, b = g[i], g[(i + 1) % n]
    t = r.choice([0., r.random(), r.random()])
    q = [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
    k = (pad or 1.) * r.uniform(0, 1.2)
    import math
    th = r.uniform(0, 2 * math.pi) if r.random() < .6 else r.randrange(4) * math.pi / 2
    return [q[0] + k * math.cos(th), q[1] + k * math.sin(th)]


for _c, _t in (('polygon', [PL + 'dilated_obstacle', PL + 'point_location']), ('star', [SP + 'dilated_obstacle', SP + 'copy', PL + 'point_location'])):
    _n = 'polygon' if _c == 'polygon' else 'starshaped polygon'
    unit('P20', _n + ': contains the original and the padding', _t)(grows(_c))

    def _same(H, _c=_c):
        mm, ps = pose(H)
        o, g, xr = poly_case(H, mm, _c)
        same(H, o, _c)
    unit('P20', _n + ': same pose, original unchanged', _t)(_same)


@unit('P20', 'starshaped polygon: boundary mapping of the dilated obstacle', [SP + 'dilated_obstacle', SP + 'boundary_mapping'],
      assumes=['a ray from an interior point of the kernel meets the boundary of the grown polygon exactly once (geometry); line_intersection reports it (P24)'])
def star_map(H):
    mm, ps = pose(H)
    fr = Frames(H, mm, ps)
    o, g, xr = poly_case(H, mm, 'star')
    pad = padding(H)
    d = dilate(H, o, pad)
    H.use(PolygonCrosses())
    x = H.vec('x')
    H.assume(H.gt(d2(x, xr), 0 if H.sym else 1e-4))
    f = frame(H, 'f')
    r = d.boundary_mapping(fr.point(x, f), input_frame=f, output_frame=f)
    H.check('there is a boundary point in every direction', r is not None)
    bd = fr.back(r, f)
    P = d.polygon(H.mod('obstacles').Frame.OBSTACLE)
    if H.sym:
        H.check('on the boundary of the dilated polygon', H.member(P, bd)[1])
    else:
        import shapely
        H.check('on the boundary of the dilated polygon', P.exterior.distance(shapely.geometry.Point(bd)) < 1e-6)
    on_ray(H, xr, x, bd)
