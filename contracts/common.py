"""Ghost motion models, poses and specification functions shared by the contracts."""


class GhostMM:
    """any motion model: all the code may rely on is pos() and rot()"""
    def __init__(self, pos, rot):
        self._gp, self._gr = pos, rot

    def pos(self):
        return self._gp

    def rot(self):
        return self._gr


class Pose:
    """specification view of a pose: position (x, y), cosine and sine of the rotation"""
    def __init__(self, x, y, c, s):
        self.x, self.y, self.c, self.s = x, y, c, s

    def to_global(self, p):
        return [self.c * p[0] - self.s * p[1] + self.x, self.s * p[0] + self.c * p[1] + self.y]

    def to_local(self, p):
        u, v = p[0] - self.x, p[1] - self.y
        return [self.c * u + self.s * v, -self.s * u + self.c * v]

    def rot_global(self, d):
        return [self.c * d[0] - self.s * d[1], self.s * d[0] + self.c * d[1]]

    def rot_local(self, d):
        return [self.c * d[0] + self.s * d[1], -self.s * d[0] + self.c * d[1]]


IDENT = Pose(0, 0, 1, 0)


def mk_pose(H, kinds=('none', 'ghost', 'static')):
    """(motion model, Pose): no pose, an arbitrary motion model, or the repository's static one"""
    k = H.choose('posekind', list(kinds))
    if k == 'none':
        return None, IDENT
    p = H.vec('pos')
    rot = H.angle('rot')
    ps = Pose(p[0], p[1], H.cos(rot), H.sin(rot))
    if k == 'ghost':
        return GhostMM(p, rot), ps
    if k == 'zero':
        return GhostMM(p, 0.), Pose(p[0], p[1], 1, 0)
    mm = H.mod('obstacles.motion_model').Static([p[0], p[1]], rot)
    return mm, ps


def frame(H, name):
    F = H.mod('obstacles').Frame
    return H.choose(name, [F.GLOBAL, F.OBSTACLE])


def is_global(H, f):
    return f == H.mod('obstacles').Frame.GLOBAL


def to_obs(H, ps, f, p):
    """spec: point p given in frame f, in obstacle coordinates"""
    return ps.to_local(p) if is_global(H, f) else [p[0], p[1]]


def from_obs(H, ps, f, p):
    return ps.to_global(p) if is_global(H, f) else [p[0], p[1]]


def dir_to_obs(H, ps, f, d):
    return ps.rot_local(d) if is_global(H, f) else [d[0], d[1]]


def vadd(u, v): return [u[0] + v[0], u[1] + v[1]]
def vsub(u, v): return [u[0] - v[0], u[1] - v[1]]
def smul(k, v): return [k * v[0], k * v[1]]
def vdot(u, v): return u[0] * v[0] + u[1] * v[1]
def vcross(u, v): return u[0] * v[1] - u[1] * v[0]
def sq(x): return x * x
def d2(u, v): return sq(u[0] - v[0]) + sq(u[1] - v[1])


def orient(a, b, c):
    """> 0: counterclockwise (left turn)"""
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


class Frames:
    """Contract of Obstacle.transform / rotate (proved under P01), with the physical points kept by their
    coordinates in both frames, so that a proof about obstacle coordinates is not clouded by the pose.

    point(p, frame): the array holding, in the given frame, the point with obstacle coordinates p
    back(r, frame):  obstacle coordinates of a returned point"""

    def __init__(self, H, mm, ps):
        self.H, self.mm, self.ps = H, mm, ps
        self.g2l, self.l2g = [], []
        if H.sym and mm is not None:
            H.use(_Transform(self))
            H.use(_Rotate(self))

    def _find(self, memo, x, kind):
        for k, a, b in memo:
            if k == kind and all(_same(u, v) for u, v in zip(a, x)):
                return b
        return None

    def _link(self, l, g, kind):
        H, ps = self.H, self.ps
        if kind == 'p':
            H.assume(H.and_(H.eqv(g, ps.to_global(l)), H.eqv(l, ps.to_local(g))))
        else:
            H.assume(H.and_(H.eqv(g, ps.rot_global(l)), H.eqv(l, ps.rot_local(g))))
        self.g2l.append((kind, list(g), list(l)))
        self.l2g.append((kind, list(l), list(g)))

    def glob(self, l, kind='p'):
        g = self._find(self.l2g, l, kind)
        if g is None:
            g = self.H.fvec('glob')
            self._link(l, g, kind)
        return self.H.arr(g[0], g[1])

    def loc(self, g, kind='p'):
        l = self._find(self.g2l, g, kind)
        if l is None:
            l = self.H.fvec('loc')
            self._link(l, g, kind)
        return self.H.arr(l[0], l[1])

    def point(self, p, f):
        H = self.H
        if not is_global(H, f) or self.mm is None:
            return H.arr(p[0], p[1])
        if H.sym:
            return self.glob(p)
        return H.arr(*self.ps.to_global(p))

    def back(self, r, f):
        H = self.H
        if not is_global(H, f) or self.mm is None:
            return [r[0], r[1]]
        if H.sym:
            l = self.loc(r)
            return [l[0], l[1]]
        return self.ps.to_local(r)

    def dir_back(self, r, f):
        H = self.H
        if not is_global(H, f) or self.mm is None:
            return [r[0], r[1]]
        if H.sym:
            l = self.loc(r, 'd')
            return [l[0], l[1]]
        return self.ps.rot_local(r)


def _same(u, v):
    from pydv.sym import term
    import z3
    a, b = z3.simplify(term(u)), z3.simplify(term(v))
    return a.eq(b)


def _same_pose(m, n):
    if m is n:
        return True
    return isinstance(m, GhostMM) and isinstance(n, GhostMM) and \
        all(_same(u, v) for u, v in zip([m._gp[0], m._gp[1], m._gr], [n._gp[0], n._gp[1], n._gr]))


class _Transform(object):
    qual, kind = 'obstacles.obstacle.Obstacle.transform', 'p'

    def __init__(self, fr):
        self.fr = fr

    def check_pre(self, H, a):
        pass

    def result(self, H, a):
        from pydv.errors import OutOfReach
        fi, fo, x = a['input_frame'], a['output_frame'], a['x']
        F = H.mod('obstacles').Frame
        if fi == fo or a['self']._motion_model is None:
            return x
        if not _same_pose(a['self']._motion_model, self.fr.mm):
            raise OutOfReach('conversion with another motion model')
        if hasattr(x, '_seq_') or len(x) != 2 or getattr(x, 'ndim', 1) != 1 or hasattr(x[0], '__len__'):
            raise OutOfReach('conversion of several points at once')
        if fi == F.GLOBAL and fo == F.OBSTACLE:
            return self.fr.loc(x, self.kind)
        if fi == F.OBSTACLE and fo == F.GLOBAL:
            return self.fr.glob(x, self.kind)
        raise OutOfReach('unknown frame')


class _Rotate(_Transform):
    qual, kind = 'obstacles.obstacle.Obstacle.rotate', 'd'


# ------------------------------------------------------------------ concrete polygons and exact predicates
def rand_polygon(rng, convex=None, coll=True):
    """simple polygon with small integer or real coordinates, any orientation and start, possibly collinear vertices"""
    import math
    convex = rng.random() < .4 if convex is None else convex
    for _ in range(200):
        n = rng.randint(3, 8)
        integer = rng.random() < .6
        angs = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        if max((angs[(i + 1) % n] - angs[i]) % (2 * math.pi) for i in range(n)) > 3.0:
            continue
        pts = []
        for a in angs:
            r = 5 if convex else rng.uniform(1.5, 6)
            p = [r * math.cos(a), r * math.sin(a)]
            pts.append([float(round(p[0])), float(round(p[1]))] if integer else p)
        off = [rng.randint(-3, 3), rng.randint(-3, 3)] if rng.random() < .5 else [0, 0]
        pts = [[p[0] + off[0], p[1] + off[1]] for p in pts]
        if coll and integer and rng.random() < .4:
            i = rng.randrange(len(pts))
            a, b = pts[i], pts[(i + 1) % len(pts)]
            pts.insert(i + 1, [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2])
        if not simple(pts):
            continue
        if rng.random() < .5:
            pts.reverse()
        k = rng.randrange(len(pts))
        return pts[k:] + pts[:k]
    return [[0., 0.], [4., 0.], [1., 3.]]


def _seg_hit(a, b, c, d):
    o1, o2, o3, o4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    sg = lambda v: (v > 1e-9) - (v < -1e-9)
    s1, s2, s3, s4 = sg(o1), sg(o2), sg(o3), sg(o4)
    if s1 * s2 < 0 and s3 * s4 < 0:
        return True
    on = lambda p, q, r: min(p[0], q[0]) - 1e-9 <= r[0] <= max(p[0], q[0]) + 1e-9 and min(p[1], q[1]) - 1e-9 <= r[1] <= max(p[1], q[1]) + 1e-9
    return s1 == 0 and on(a, b, c) or s2 == 0 and on(a, b, d) or s3 == 0 and on(c, d, a) or s4 == 0 and on(c, d, b)


def simple(pts):
    n = len(pts)
    if len({(round(p[0], 6), round(p[1], 6)) for p in pts}) < n:
        return False
    if abs(area2(pts)) < .5:
        return False
    for i in range(n):
        a, b = pts[i], pts[(i + 1) % n]
        c = pts[(i + 2) % n]
        if abs(orient(a, b, c)) < 1e-9 and vdot(vsub(b, a), vsub(c, b)) <= 0:
            return False
        for j in range(i + 2, n):
            if (j + 1) % n == i:
                continue
            if _seg_hit(a, b, pts[j], pts[(j + 1) % n]):
                return False
    return True


def area2(pts):
    n = len(pts)
    return sum(vcross(pts[i], pts[(i + 1) % n]) for i in range(n))


def seg_dist(a, b, p):
    d = vsub(b, a)
    D = vdot(d, d)
    t = 0 if D == 0 else max(0., min(1., vdot(vsub(p, a), d) / D))
    q = vadd(a, smul(t, d))
    return d2(p, q) ** .5


def poly_dist(pts, p):
    """distance of the point from the boundary"""
    return min(seg_dist(pts[i], pts[(i + 1) % len(pts)], p) for i in range(len(pts)))


def poly_in(pts, p):
    """crossing number (points off the boundary)"""
    c = False
    n = len(pts)
    for i in range(n):
        a, b = pts[i], pts[(i + 1) % n]
        if (a[1] > p[1]) != (b[1] > p[1]):
            x = a[0] + (p[1] - a[1]) * (b[0] - a[0]) / (b[1] - a[1])
            if p[0] < x:
                c = not c
    return c


def is_convex_spec(pts):
    n = len(pts)
    s = [orient(pts[i - 1], pts[i], pts[(i + 1) % n]) for i in range(n)]
    return not (any(v > 1e-9 for v in s) and any(v < -1e-9 for v in s))


def same_value(H, u, v):
    """the two values are equal: numbers, arrays, sequences, containers and geometries"""
    import numpy as np
    if not H.sym:
        if hasattr(u, 'geom_type') and hasattr(v, 'geom_type'):
            if u.geom_type != v.geom_type:
                return False
            if u.equals_exact(v, 1e-7):
                return True
            return u.is_valid and v.is_valid and u.symmetric_difference(v).area < 1e-7
        if isinstance(u, (list, tuple, np.ndarray)):
            return H.and_(*[same_value(H, x, y) for x, y in zip(u, v)]) if len(u) == len(v) else False
        if u is None or v is None or isinstance(u, (str, bool)):
            return u == v
        return H.eq(u, v)
    from pydv.shshim import Affine, Geo
    eq = lambda x, y: same_value(H, x, y)
    if u is v:
        return H.T
    if isinstance(u, Affine) and isinstance(v, Affine):
        return H.and_(eq(u.base, v.base), H.eqv(u.m, v.m))
    if isinstance(u, Geo) and isinstance(v, Geo) and type(u) is type(v) and getattr(u, 'verts', None) is not None:
        return eq(u.verts, v.verts)
    if isinstance(u, Geo) and isinstance(v, Geo) and type(u) is type(v) and hasattr(u, 'dist'):
        return H.and_(eq(u.base, v.base), eq(u.dist, v.dist))
    if hasattr(u, '_seq_') and hasattr(v, '_seq_'):
        k = H.fresh_int('k')
        H.assume(H.and_(H.le(0, k), H.lt(k, u.n)))
        return H.and_(H.eq(u.n, v.n), eq(u.at(k), v.at(k)))
    if isinstance(u, Geo) or isinstance(v, Geo) or u is None or v is None or isinstance(u, (str, bool)):
        return H.T if type(u) is type(v) and isinstance(u, (str, bool)) and u == v else H.F
    if isinstance(u, (list, tuple, np.ndarray)):
        if not isinstance(v, (list, tuple, np.ndarray)) or len(u) != len(v):
            return H.F
        return H.and_(*[eq(x, y) for x, y in zip(u, v)])
    if isinstance(u, dict):
        return H.and_(*[eq(u[k], v[k]) for k in u]) if isinstance(v, dict) and set(u) == set(v) else H.F
    try:
        return H.eq(u, v)
    except Exception:
        return H.F
