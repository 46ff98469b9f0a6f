"""P25: reference point updates."""
from pydv.contract import unit
from .common import *
from .p02_pose_follow import ghost_star, query, rand_polygon

ST = 'obstacles.starshaped_obstacle.StarshapedObstacle.'


class SetsKernel:
    """contract of _compute_kernel (what the kernel is, is the matter of P26): the kernel is some set in the obstacle frame"""
    def __init__(self, qual, K):
        self.qual, self.K = qual, K

    def check_pre(self, H, a):
        pass

    def result(self, H, a):
        a['self']._kernel = self.K


def pose_for(H):
    mm, ps = mk_pose(H, ('none', 'ghost'))
    return mm, ps


def run(H, o, K, fr, ps, x, f, safe):
    """K: the kernel, in the obstacle frame"""
    F = H.mod('obstacles').Frame
    old = [v for v in o.xr(F.OBSTACLE)]
    arg = fr.point(x, F.OBSTACLE if f == 'default' else f)
    keep = [arg[0], arg[1]]
    kw = {} if f == 'default' else {'input_frame': f}
    if safe != 'default':
        kw['safe_set'] = safe
    o.set_xr(arg, **kw)
    new = o.xr(F.OBSTACLE)
    H.check('the point given stays as it was', H.eqv(arg, keep))
    if safe is True:
        if H.sym:
            i, b = H.member(K, x)
            inside = H.or_(i, b)
            H.check('moves to a point of the kernel', H.imp(inside, H.eqv(new, x)))
            H.check('stays where it was otherwise', H.imp(H.not_(inside), H.eqv(new, old)))
        else:
            import shapely
            p = shapely.geometry.Point(x)
            H.assume(K.exterior.distance(p) > 1e-6)
            H.check('moves to a point of the kernel, and only there', H.eqv(new, x if K.contains(p) else old))
    else:
        H.check('moves to exactly the given point', H.eqv(new, x))
    g = o.xr()
    H.check('and reports it in the global frame', H.eqv(fr.back(g, F.GLOBAL), [new[0], new[1]]))


def before(H, o, m=None):
    """any queries before the update"""
    F = H.mod('obstacles').Frame
    k = H.choose('before', ['-', 'polygon', 'kernel', 'both', 'local kernel'])
    if k in ('polygon', 'both'):
        o.polygon()
    if k in ('kernel', 'both'):
        o.kernel()
    if k == 'local kernel':
        o.kernel(F.OBSTACLE)


def options(H):
    F = H.mod('obstacles').Frame
    return H.choose('frame', ['default', F.GLOBAL, F.OBSTACLE]), H.choose('safe', ['default', False, True])


@unit('P25', 'any starshaped obstacle', [ST + 'set_xr', ST + 'kernel', ST + 'xr'])
def anyshape(H):
    mm, ps = pose_for(H)
    if H.sym:
        S, K = H.abs_polygon(), H.abs_polygon()
    else:
        import shapely
        S = shapely.geometry.Polygon(H.data('shape', rand_polygon))
        K = shapely.geometry.Polygon(H.data('kernel', rand_polygon))
    o = ghost_star(H, S, K)(mm)
    fr = Frames(H, mm, ps)
    before(H, o)
    f, safe = options(H)
    x = H.vec('x')
    run(H, o, K, fr, ps, [x[0], x[1]], f, safe)


@unit('P25', 'ellipse', [ST + 'set_xr', 'obstacles.ellipse.Ellipse._compute_kernel'])
def ell(H):
    mm, ps = pose_for(H)
    a, b = H.real('a', pos=True), H.real('b', pos=True)
    o = H.mod('obstacles').Ellipse([a, b], motion_model=mm, id='temp')
    fr = Frames(H, mm, ps)
    before(H, o)
    f, safe = options(H)
    x = H.vec('x')
    F = H.mod('obstacles').Frame
    if H.sym:
        K = H.abs_polygon()
        H.use(SetsKernel('obstacles.ellipse.Ellipse._compute_kernel', K))
        if o._kernel is not None:
            K = o._kernel
    else:
        K = H.mod('obstacles').Ellipse([a, b], id='temp').kernel(F.OBSTACLE)
    run(H, o, K, fr, ps, [x[0], x[1]], f, safe)


SP = 'obstacles.starshaped_polygon.StarshapedPolygon.'


@unit('P25', 'starshaped polygon', [SP + 'set_xr', SP + '_update_vertex_angles', SP + '__init__', ST + 'set_xr'],
      assumes=['the kernel of a polygon is some set of points of the obstacle frame (which one: P26)'])
def star(H):
    mm, ps = pose_for(H)
    O = H.mod('obstacles')
    F = O.Frame
    fr = Frames(H, mm, ps)
    if H.sym:
        g, K = H.abs_polygon(), H.abs_polygon()
        H.use(SetsKernel(SP + '_compute_kernel', K))
        x0 = H.vec('x0')
        o = O.StarshapedPolygon(g, xr=[x0[0], x0[1]], motion_model=mm, id='temp')
    else:
        pts = H.data('shape', lambda r: rand_polygon(r, convex=True))
        pts = [p for p in pts]
        c = [sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts)]
        o = O.StarshapedPolygon(pts, xr=c, motion_model=mm, id='temp')
        K = O.StarshapedPolygon(pts, xr=c, id='temp').kernel(F.OBSTACLE)
    before(H, o)
    f, safe = options(H)
    x = H.vec('x')
    run(H, o, K, fr, ps, [x[0], x[1]], f, safe)


CB = 'obstacles.starshaped_primitive_combination.StarshapedPrimitiveCombination.'


@unit('P25', 'combined obstacle', [CB + 'set_xr', CB + '_update_vertex_angles', CB + '_compute_polygon_representation', ST + 'set_xr'],
      assumes=['the kernel of a polygon is some set of points of the obstacle frame (which one: P26)'])
def comb(H):
    O = H.mod('obstacles')
    F = O.Frame
    if H.sym:
        g, K = H.abs_polygon(), H.abs_polygon()
        H.use(SetsKernel(CB + '_compute_kernel', K))

        class Computes:
            qual = CB + '_compute_polygon_representation'

            def check_pre(self, H, a):
                pass

            def result(self, H, a):
                a['self']._polygon = g
        H.use(Computes())
        x0 = H.vec('x0')
        o = O.StarshapedPrimitiveCombination([], None, xr=[x0[0], x0[1]], id='temp')
    else:
        w, h = H.real('w', .5, 3), H.real('h', .5, 3)
        a = O.Polygon([[-w, -1.], [w, -1.], [w, 1.], [-w, 1.]], id='temp')
        b = O.Polygon([[-1., -h], [1., -h], [1., h], [-1., h]], id='temp')
        mk = lambda: O.StarshapedPrimitiveCombination([a, b], None, xr=[0., 0.], id='temp')
        o, K = mk(), mk().kernel(F.OBSTACLE)
        H.assume(K.is_valid and not K.is_empty)
    before(H, o)
    f, safe = options(H)
    x = H.vec('x')
    run(H, o, K, Frames(H, None, IDENT), IDENT, [x[0], x[1]], f, safe)
