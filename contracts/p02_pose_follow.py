"""P02: the global polygon and kernel are the obstacle-frame ones placed at the current pose.

The proof is an induction over the history: a history is represented by the poses of the last polygon query and of
the last kernel query; every operation from such a state answers correctly and leads to such a state again."""
from pydv.contract import unit
from .common import *

OB = 'obstacles.obstacle.Obstacle.'
ST = 'obstacles.starshaped_obstacle.StarshapedObstacle.'


def placed(H, g, S, ps):
    """g is the set S placed at the pose (None: in place)"""
    if not H.sym:
        import shapely
        want = S if ps is None else shapely.affinity.affine_transform(S, [ps.c, -ps.s, ps.s, ps.c, ps.x, ps.y])
        if g is None or g.geom_type != want.geom_type:
            return False
        if not g.is_valid or not want.is_valid:
            return len(g.exterior.coords) == len(want.exterior.coords) and all(
                abs(a - b) < 1e-6 for p, q in zip(g.exterior.coords, want.exterior.coords) for a, b in zip(p, q))
        return g.symmetric_difference(want).area <= 1e-6 * (1 + want.length * (1 + max(abs(v) for v in want.bounds)) * 1e-3)
    from pydv.shshim import Affine
    from pydv.errors import OutOfReach
    if g is S:
        return H.T if ps is None else H.and_(H.eqv([ps.x, ps.y, ps.c, ps.s], [0, 0, 1, 0]))
    if ps is None:
        ps = IDENT
    m = [ps.c, -ps.s, ps.s, ps.c, ps.x, ps.y]
    if g is None:
        return H.F
    if isinstance(g, Affine) and isinstance(S, Affine):
        if g.base is not S.base:
            raise OutOfReach('comparison of two shapes')
        raise OutOfReach('comparison of two placed shapes')
    if isinstance(g, Affine):
        if g.base is not S:
            raise OutOfReach('comparison of two shapes')
        return H.eqv(g.m, m)
    raise OutOfReach('comparison of two shapes')


def same_state(H, a, b):
    """the two objects hold the same values"""
    return same_value(H, {k: v for k, v in a.__dict__.items() if k != '_motion_model'},
                      {k: v for k, v in b.__dict__.items() if k != '_motion_model'})


class Moving:
    """a motion model of the repository with any velocity, and the pose it is specified to have"""
    def __init__(self, H, name):
        self.H = H
        p, r = H.vec(name), H.angle(name + '.rot')
        v, w = H.vec(name + '.vel'), H.real(name + '.rotvel')

        class M(H.mod('obstacles.motion_model').MotionModel):
            def lin_vel(self):
                return H.arr(v[0], v[1])

            def rot_vel(self):
                return w
        self.mm, self.v, self.w = M([p[0], p[1]], r), v, w

    def pose(self):
        H = self.H
        p, r = self.mm.pos(), self.mm.rot()
        return Pose(p[0], p[1], H.cos(r), H.sin(r)), [p[0], p[1], r]


def repose(H, o, m, name, kinds=('move', 'set_pos', 'set_rot', 'both', 'model', 'none', 'stay')):
    """any operation that gives the obstacle another pose (or none); returns the Moving or None"""
    k = H.choose(name, list(kinds))
    if k == 'none':
        o.set_motion_model(None)
        return None
    if k == 'model' or m is None:
        m = Moving(H, name + '.m')
        o.set_motion_model(m.mm)
        return m
    if k == 'move':
        o.move(H.real(name + '.dt'))
    if k in ('set_pos', 'both'):
        p = H.vec(name + '.p')
        m.mm.set_pos([p[0], p[1]])
    if k in ('set_rot', 'both'):
        m.mm.set_rot(H.angle(name + '.r'))
    return m


def query(H, o, m, what, fr):
    F = H.mod('obstacles').Frame
    f = F.GLOBAL if fr != 'OBSTACLE' else F.OBSTACLE
    fn = o.polygon if what == 'polygon' else o.kernel
    return fn() if fr == 'default' else fn(f)


def ghost_star(H, S, K):
    """a starshaped obstacle of any shape"""
    class G(H.mod('obstacles').StarshapedObstacle):
        computed = 0

        def _compute_polygon_representation(self):
            self._polygon = S

        def _compute_kernel(self):
            if self._polygon is None:
                self._compute_polygon_representation()
            self._kernel = K

        def _no(self, *a, **k):
            raise AssertionError
        draw = dilated_obstacle = line_intersection = tangent_points = normal = boundary_mapping = _no
        _check_convexity = area = init_plot = update_plot = _no
    return lambda mm: G([0., 0.], motion_model=mm, id='temp')


def build(H, kind):
    """(constructor of the obstacle from a motion model, kinds of shapes it answers)"""
    O = H.mod('obstacles')
    if kind == 'any':
        if H.sym:
            S, K = H.abs_polygon(), H.abs_polygon()
        else:
            import shapely
            S = shapely.geometry.Polygon(H.data('shape', rand_polygon))
            K = S.centroid.buffer(.3)
        return ghost_star(H, S, K), ['polygon', 'kernel']
    if kind == 'ellipse':
        a, b = H.real('a', pos=True), H.real('b', pos=True)
        return (lambda mm: O.Ellipse([a, b], motion_model=mm, id='temp')), ['polygon', 'kernel']
    if kind == 'polygon':
        if H.sym:
            g = H.abs_polygon()
        else:
            g = H.data('shape', rand_polygon)
        return (lambda mm: O.Polygon(g, motion_model=mm, id='temp')), ['polygon']
    pts = [[0., 0.], [4., 0.], [5., 3.], [1., 4.]]
    return (lambda mm: O.StarshapedPolygon(pts, xr=[2., 1.5], motion_model=mm, id='temp')), ['polygon', 'kernel']


def history_unit(kind, title, targets, **kw):
    @unit('P02', title, targets, **kw)
    def u(H):
        mk, what = build(H, kind)
        if not H.sym:
            return concrete_history(H, mk, what)
        m = Moving(H, 'm0') if H.choose('start', ['pose', 'none']) == 'pose' else None
        o = mk(m and m.mm)
        # earlier history: nothing, or a query at one pose, or the two queries at two poses
        past = H.choose('past', [[]] + [[w] for w in what] + ([what, what[::-1]] if len(what) > 1 else []))
        for i, w in enumerate(past):
            if i:
                m = repose(H, o, m, 'op%d' % i, ['both', 'none'])
            query(H, o, m, w, 'GLOBAL')
        S = {}
        if H.choose('asked in the obstacle frame', [False, True]):
            for w in what:
                S[w] = query(H, o, m, w, 'OBSTACLE')
        m = repose(H, o, m, 'op', ['move', 'set_pos', 'set_rot', 'model', 'none', 'stay'])
        w = H.choose('query', what)
        fr = H.choose('frame', ['default', 'OBSTACLE'])
        before = m and m.pose()[1]
        g = query(H, o, m, w, fr)
        ps = None if m is None or fr == 'OBSTACLE' else m.pose()[0]
        H.same_angles()
        for v in what:
            h = query(H, o, m, v, 'OBSTACLE')
            if v in S:
                H.check('queries keep the obstacle-frame %s' % v, placed(H, h, S[v], None))
            S[v] = h
        H.check('the %s is the obstacle-frame %s at the current pose' % (w, w), placed(H, g, S[w], ps))
        if m is not None:
            H.check('a query keeps the pose', H.eqv(m.pose()[1], before))
            p = o.pos()
            H.check('a query keeps the pose', H.eqv([p[0], p[1], o.rot()], before))
        if fr == 'default':
            H.check('the default frame is global', placed(H, query(H, o, m, w, 'GLOBAL'), S[w], ps))
    return u


def forget_unit(kind, title, targets, **kw):
    @unit('P02', title, targets, concrete=False, **kw)
    def u(H):
        """an earlier query leaves no trace once the same query is asked again: the histories of the other unit are all"""
        mk, what = build(H, kind)
        m = Moving(H, 'm0')
        o, o2 = mk(m.mm), mk(m.mm)
        w = H.choose('query', what)
        other = H.choose('and', ['-'] + [v for v in what if v != w])
        query(H, o, m, w, 'GLOBAL')
        m.mm.set_pos(H.arr(H.real('p'), H.real('q')))
        m.mm.set_rot(H.angle('r'))
        for x in (o, o2):
            if other != '-':
                query(H, x, m, other, 'GLOBAL')
        m.mm.set_pos(H.arr(H.real('p'), H.real('q')))
        m.mm.set_rot(H.angle('r'))
        query(H, o, m, w, 'GLOBAL')
        query(H, o2, m, w, 'GLOBAL')
        H.same_angles()
        H.check('an earlier query leaves no trace', same_state(H, o, o2), 'induction')
    return u


def concrete_history(H, mk, what):
    m = Moving(H, 'm0') if H.choose('start', ['pose', 'none']) == 'pose' else None
    o = mk(m and m.mm)
    S = {}
    ref = mk(None)
    F = H.mod('obstacles').Frame
    for w in what:
        S[w] = query(H, ref, None, w, 'OBSTACLE')
    for i in range(H.int('steps', 1, 6)):
        m = repose(H, o, m, 'op%d' % i)
        if H.choose('copy', [False] * 5 + [True]):
            o.copy('temp', None).polygon()
        w = H.choose('query', ['-'] + what)
        if w == '-':
            continue
        fr = H.choose('frame', ['default', 'GLOBAL', 'OBSTACLE'])
        before = m and [*m.pose()[1]]
        g = query(H, o, m, w, fr)
        ps = None if m is None or fr == 'OBSTACLE' else m.pose()[0]
        H.check('the %s is the obstacle-frame %s at the current pose' % (w, w), placed(H, g, S[w], ps))
        if m is not None:
            H.check('a query keeps the pose', H.eqv(m.pose()[1], before))


for k, t, tg in (('any', 'any starshaped obstacle', [OB + 'polygon', ST + 'kernel', OB + 'set_motion_model', OB + 'move']),
                 ('ellipse', 'ellipse', ['obstacles.ellipse.Ellipse._compute_polygon_representation', 'obstacles.ellipse.Ellipse._compute_kernel']),
                 ('polygon', 'polygon', ['obstacles.polygon.Polygon.__init__', OB + '_compute_global_polygon_representation', OB + 'polygon']),
                 ('star', 'starshaped polygon', ['obstacles.starshaped_polygon.StarshapedPolygon.__init__', ST + 'kernel', OB + 'polygon'])):
    history_unit(k, t, tg, max_paths=20000)
    forget_unit(k, t + ': earlier queries leave no trace', tg)
