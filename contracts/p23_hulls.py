"""P23: starshaped hulls of convex obstacles."""
from pydv.contract import unit
from .common import *
from .p11_cones import THR
try:
    from pydv.rt import LoopSpec
    from pydv.errors import OutOfReach
    from pydv.symh import pterm
except ImportError:
    LoopSpec, OutOfReach = object, Exception

SH = 'starshaped_hull.starshaped_hull.'
CG = 'utils.cg.'


class Scene:
    """n kernel points, an arbitrary convex obstacle known through its tangent query: none from a point inside it, two
    points of the obstacle from a point outside it.  'source' is any set of points with the kernel points and the
    obstacle in it.  Ghost state: an arbitrary kernel point with index c, an arbitrary position m"""
    def __init__(self, H):
        self.H = H
        self.n = H.int('n', 1)
        self.rows = H.rows('kernel', self.n)
        self.c, self.m = H.int('c', 0), H.int('m', 0)
        H.assume(H.lt(self.c, self.n))
        self.K = H.seq(self.n, self.kernel_point, False)
        self.K.tag = 'kernel'
        self.places = []

    def kernel_point(self, k):
        H = self.H
        v = self.rows.at(k)
        H.assume(H.imp(H.and_(H.le(0, k), H.lt(k, self.n)), H.and_(self.source(v), H.imp(self.ext(v), self.some()))))
        return v

    def source(self, v):
        return self.H.pred('source', [v[0], v[1]])

    def ext(self, v):
        return self.H.pred('outside', [v[0], v[1]])

    def some(self):
        """some kernel point is outside the obstacle"""
        return self.H.pred('some_outside', [])

    def tangents(self, v):
        """the tangent points through v, a point outside"""
        H = self.H
        t = [[H.func('tangent_%d%s' % (i, a), [v[0], v[1]]) for a in 'xy'] for i in (0, 1)]
        H.assume(H.imp(self.ext(v), H.and_(self.source(t[0]), self.source(t[1]), H.lt(orient(v, t[0], t[1]), -2 * THR))))
        return t

    # -- the points that have to be in the hull, and where they may be in a list
    def wanted(self):
        H = self.H
        k = self.K.at(self.c)
        t = self.tangents(k)
        return k, [k] + (t if H.decide(self.ext(k)) else [])


class Obstacle:
    def __init__(self, S):
        self.S = S

    def is_convex(self):
        return True

    def tangent_points(self, x, input_frame=None, output_frame=None):
        H, S = self.S.H, self.S
        F = H.mod('obstacles').Frame
        H.check('tangents in global coordinates', input_frame in (None, F.GLOBAL) and output_frame in (None, F.GLOBAL))
        t = S.tangents(x)
        if not H.decide(S.ext(x)):
            return []
        return [H.arr(*t[0]), H.arr(*t[1])]


def eq2(H, a, b):
    return H.and_(H.eq(a[0], b[0]), H.eq(a[1], b[1]))


def among(H, seq, v, cands):
    """v is in the list, at one of the candidate positions"""
    return H.or_(*[H.and_(H.le(0, w), H.lt(w, seq.n), eq2(H, seq.at(w), v)) for w in cands])


class Collect(LoopSpec):
    """the list so far: its points are source points, and the tangent points of the kernel points so far are in it"""
    def __init__(self, S):
        self.S, self.name = S, None

    def match(self, L):
        return L.kind == 'for'

    def lists(self, L):
        return [v for v in sorted(set(L.roots) | set(L.assigned)) if v not in L.targets and isinstance(L.locals.get(v), list)]

    def havoc(self, H, L, st):
        S = self.S
        vs = self.lists(L)
        if len(vs) != 1:
            raise OutOfReach('the tangent points are not collected in one list')
        self.name = vs[0]
        self.len = H.fresh_int('len')
        H.assume(H.le(0, self.len))
        fx, fy = H.realfunc('tx'), H.realfunc('ty')
        self.pos = [H.fresh_int('pos'), H.fresh_int('pos')]

        def at(k):
            v = H.arr(fx(k), fy(k))
            H.assume(H.imp(H.and_(H.le(0, k), H.lt(k, self.len)), S.source(v)))
            return v
        self.head = True
        l = H.seq(self.len, at)
        l.tag = 'tangents'
        return {self.name: l}

    def inv(self, H, L, st, k):
        S = self.S
        if self.name is None:
            for v in self.lists(L):
                if L.locals[v]:
                    raise OutOfReach('the list does not start empty')
            return []
        l = st[self.name]
        if not hasattr(l, 'n'):
            raise OutOfReach('the list is replaced')
        v, want = S.wanted()
        if self.head:
            self.head = False
            S.places = self.pos
            out = [('not longer than it can be', H.imp(H.gt(l.n, 0), S.some()))]
            for t, w in zip(want[1:], self.pos):
                out.append(('tangent points are in it', H.imp(H.lt(S.c, k), among(H, l, t, [w]))))
            return out
        out = [('only for a kernel point outside', H.imp(H.gt(l.n, 0), S.some()))]
        if H.decide(H.and_(H.le(0, S.m), H.lt(S.m, l.n))):
            out.append(('only points of the obstacle and the kernel', S.source(l.at(S.m))))
        if H.decide(H.lt(S.c, k)):
            grown = l.n - self.len
            for t, w in zip(want[1:], self.pos):
                out.append(('tangent points are in it', among(H, l, t, [w, w + grown, self.len, self.len + 1, 0, 1])))
        return out


class HullContract:
    """convex_hull (P17): points of the list, every point of the list on the inner side of every edge"""
    qual = CG + 'convex_hull'

    def __init__(self, S):
        self.S, self.calls = S, 0

    def check_pre(self, H, a):
        pts = list(a.values())[0]
        if not hasattr(pts, 'n'):
            raise OutOfReach('hull of a list of known length')
        H.check('hull of at least one point', H.ge(pts.n, 1), 'precondition')

    def result(self, H, a):
        self.pts = list(a.values())[0]
        self.calls += 1
        self.n = H.fresh_int('corners')
        H.assume(H.ge(self.n, 1))
        idx = H.intfunc('corner')

        def at(i):
            j = idx(i)
            H.assume(H.imp(H.and_(H.le(0, i), H.lt(i, self.n)), H.and_(H.le(0, j), H.lt(j, self.pts.n))))
            return self.pts.at(j)
        self.at = at
        self.r = H.seq(self.n, at)
        return self.r

    def edge(self, H, i, j):
        """fact: the point with index j of the list is on the inner side of the edge at i"""
        nx = 0 if H.decide(H.eq(i + 1, self.n)) else i + 1
        H.assume(H.imp(H.and_(H.le(0, i), H.lt(i, self.n), H.le(0, j), H.lt(j, self.pts.n)),
                       H.ge(orient(self.at(i), self.at(nx), self.pts.at(j)), 0)))


def candidates(H, S, l):
    """positions at which a list holds the points of kernel point c, by how it was made"""
    out = []
    tag = getattr(l, 'tag', None)
    if tag == 'kernel':
        out.append(S.c)
    if tag == 'tangents':
        out += S.places
    for start, part in getattr(l, 'parts', ()):
        out += [start + w for w in candidates(H, S, part)]
    if l in H.path.__dict__.get('flats', []) or hasattr(l, 'place') and l.place.__code__.co_argcount == 2:
        out += [l.place(S.c, 0), l.place(S.c, 1)]
    elif hasattr(l, 'place'):
        out += [l.place(w) for w in candidates(H, S, l.source)]
    return out


@unit('P23', 'any number of kernel points', [SH + 'convex_kernel_starshaped_hull'], concrete=False)
def convex(H):
    S = Scene(H)
    C = Collect(S)
    hull = HullContract(S)
    H.loops(SH + 'convex_kernel_starshaped_hull', C)
    H.use(hull)
    sh = H.mod('starshaped_hull.starshaped_hull')
    r = sh.convex_kernel_starshaped_hull(Obstacle(S), S.K)
    k, want = S.wanted()
    from pydv import shshim
    H.check('a polygon', isinstance(r, shshim.Polygon))
    v = r.vertex_list()
    if hull.calls == 0:
        H.check('no hull only as the empty set', isinstance(v, list) and len(v) == 0)
        H.check('no hull only when all kernel points are inside', H.not_(S.ext(k)))
        return
    H.check('no hull when all kernel points are inside', S.some())
    H.check('one hull', hull.calls == 1)
    if not hasattr(v, 'n'):
        raise OutOfReach('the polygon is not made of the hull')
    # every corner is a point of the list, every point of the list a kernel point or a point of the obstacle
    H.assume(H.lt(S.m, v.n))
    H.check('every corner is a kernel point or a point of the obstacle', S.source(v.at(S.m)))
    # every point wanted is in the list handed over
    cs = candidates(H, S, hull.pts)
    last = H.decide(H.eq(S.m + 1, v.n))
    nx = 0 if last else S.m + 1
    for nm, t in zip(('kernel point', 'tangent point', 'tangent point'), want):
        found = None
        for w in cs:
            g = H.and_(H.le(0, w), H.lt(w, hull.pts.n), eq2(H, hull.pts.at(w), t))
            if H.path.forced(pterm(g)):
                found = w
                break
        if found is None:
            H.check('every %s is handed to the hull' % nm, H.or_(*[H.and_(H.le(0, w), H.lt(w, hull.pts.n), eq2(H, hull.pts.at(w), t)) for w in cs]))
            continue
        H.lemma('every %s is handed to the hull' % nm, H.and_(H.le(0, found), H.lt(found, hull.pts.n), eq2(H, hull.pts.at(found), t)))
        hull.edge(H, S.m, found)
        H.check('every %s is on the inner side of every edge' % nm, H.ge(orient(v.at(S.m), v.at(nx), t), 0))


@unit('P23', 'lemma: an excluded point is not swallowed', [], concrete=False)
def excluded(H):
    """x inside the hull of the kernel points and the obstacle is (1 - l) k + l e with k in the convex hull of the kernel
    points, e in the interior of the obstacle and 0 < l <= 1 (the interior of the convex hull of two convex sets, one with
    an interior).  p, q: tangent points of the obstacle through x"""
    x, p, q, e, k = H.vec('x'), H.vec('p'), H.vec('q'), H.vec('e'), H.vec('k')
    l = H.real('l', 0, 1)
    H.assume(H.and_(H.gt(l, 0), H.lt(l, 1)))
    H.assume(H.and_(H.lt(orient(x, p, e), 0), H.gt(orient(x, q, e), 0)))
    H.assume(H.eqv(x, vadd(smul(1 - l, k), smul(l, e))))
    H.lemma('weighted', H.and_(H.eq((1 - l) * orient(x, p, k), -l * orient(x, p, e)), H.eq((1 - l) * orient(x, q, k), -l * orient(x, q, e))))
    # P13: a point is in the admissible kernel exactly when it is not in the shadow: orient(x, p, k) > 0, orient(x, q, k) < 0
    H.check('the point of the kernel is hidden by the obstacle', H.and_(H.gt(orient(x, p, k), 0), H.lt(orient(x, q, k), 0)))


class One:
    """kernel_starshaped_hull of one obstacle: the hull of that obstacle, empty or not"""
    qual = SH + 'kernel_starshaped_hull'

    def __init__(self, obs, K, hull):
        self.obs, self.K, self.hull = obs, K, hull

    def check_pre(self, H, a):
        o, k = list(a.values())[:2]
        H.check('the hull of one obstacle, same kernel', getattr(o, 'index', None) is not None and getattr(k, 'tag', None) == 'kernel', 'precondition')

    def result(self, H, a):
        return self.hull(list(a.values())[0].index)


@unit('P23', 'any number of obstacles', [SH + 'kernel_starshaped_hull'], concrete=False)
def many(H):
    from pydv import shshim

    class Ob:
        def __init__(self, i):
            self.index = i
    n = H.int('n', 1)
    empty = H.boolfunc('empty')

    def hull(i):
        g = shshim.AbsPolygon()
        g.data['empty'] = H.boolean(empty(i))
        g.index = i
        return g
    obs = H.seq(n, Ob)
    K = H.rows('kernel', H.int('nk', 1))
    K.tag = 'kernel'
    H.use(One(obs, K, hull))
    H.seq_unions()
    c = H.int('c', 0)
    H.assume(H.lt(c, n))
    found = []
    H.on_search(found.append)
    r = H.mod('starshaped_hull').kernel_starshaped_hull._real(obs, K)
    if r is None:
        H.inst(c)
        H.check('no hull only when none of them has one', empty(c))
        return
    H.check('the union of the hulls', isinstance(r, shshim.SetOp) and r.op == 'union' and hasattr(r.args, 'n'))
    H.check('all of them', H.eq(r.args.n, n))
    H.check('each in turn', H.eq(r.args.at(c).index, c))
    H.check('a hull when one of them has one', H.or_(*[H.and_(H.le(0, w), H.lt(w, n), H.not_(empty(w))) for w in found]))


@unit('P23', 'which hull', [SH + 'kernel_starshaped_hull'], concrete=False)
def one(H):
    S = Scene(H)
    o = Obstacle(S)

    class Convex:
        qual = SH + 'convex_kernel_starshaped_hull'

        def check_pre(self, H, a):
            x, k = list(a.values())[:2]
            H.check('hull of the obstacle given', x is o and getattr(k, 'tag', None) == 'kernel', 'precondition')

        def result(self, H, a):
            self.r = object()
            return self.r
    c = Convex()
    H.use(c)
    r = H.mod('starshaped_hull').kernel_starshaped_hull(o, S.K)
    H.check('the hull of a convex obstacle', r is getattr(c, 'r', None) and r is not None)


@unit('P23', 'real obstacles', [SH + 'kernel_starshaped_hull', SH + 'convex_kernel_starshaped_hull', SH + 'admissible_kernel', CG + 'convex_hull'])
def real(H):
    """concrete only: ellipses and convex polygons with poses"""
    if H.sym:
        H.check('see the units above', H.T)
        return
    import numpy as np
    import shapely
    O, sh = H.mod('obstacles'), H.mod('starshaped_hull')
    mm, ps = mk_pose(H, ('none', 'ghost', 'static'))
    r = H.aux
    if H.choose('kind', ['ellipse', 'polygon']) == 'ellipse':
        a, b = H.real('a', .2, 4.), H.real('b', .2, 4.)
        o = O.Ellipse([a, b], motion_model=mm)
        th = np.linspace(0, 2 * np.pi, 721)[:-1]
        pts = np.c_[a * np.cos(th), b * np.sin(th)]
    else:
        pts = H.data('poly', lambda g: rand_polygon(g, convex=True))
        if not is_convex_spec(pts):
            H.assume(False)
        o = O.Polygon(shapely.geometry.Polygon(pts), motion_model=mm)
        pts = np.array(pts)
    body = shapely.geometry.Polygon([ps.to_global(p) for p in pts])
    rnd = lambda s: np.array(ps.to_global([r.gauss(0, s), r.gauss(0, s)]))
    n = H.int('n', 1, 4)
    form = H.choose('form', ['one', 'list', 'two'])
    call = lambda ks: sh.kernel_starshaped_hull([o] if form == 'list' else [o, o] if form == 'two' else o, np.array(ks))
    # inside
    ins = [rnd(2) for _ in range(30)]
    ins = [p for p in ins if body.buffer(-.02).contains(shapely.geometry.Point(p))][:n]
    if ins:
        h = call(ins)
        H.check('no hull for kernel points inside', h is None if form != 'one' else h.is_empty)
    # excluded point and kernel points in its admissible kernel
    x = rnd(4)
    H.assume(body.distance(shapely.geometry.Point(x)) > .02)
    K = sh.admissible_kernel(o, x)
    d = np.linalg.norm(x) + 100
    tp = o.tangent_points(x)
    w = [(x - t) / np.linalg.norm(x - t) for t in tp]
    m = w[0] + w[1]
    m = m / np.linalg.norm(m) if np.linalg.norm(m) > 1e-6 else w[0]
    shadow = shapely.geometry.Polygon([x, x + d * w[0], x + 2 * d * m, x + d * w[1]])
    ks = []
    for _ in range(60):
        k = rnd(5)
        if len(ks) < n and K.point_in_cone(k) and abs(body.exterior.distance(shapely.geometry.Point(k))) > .01:
            hk = shapely.geometry.MultiPoint(ks + [k]).convex_hull
            if hk.distance(shadow) > .01:
                ks.append(k)
    H.assume(len(ks) > 0 and not all(body.contains(shapely.geometry.Point(k)) for k in ks))
    h = call(ks)
    H.check('there is a hull', h is not None and not h.is_empty)
    H.check('the excluded point is outside', not h.buffer(-1e-9).contains(shapely.geometry.Point(x)) and not h.contains(shapely.geometry.Point(x)))
    for k in ks:
        H.check('every kernel point is in the hull', h.distance(shapely.geometry.Point(k)) < 1e-7)
        for t in o.tangent_points(k):
            H.check('every tangent point is in the hull', h.distance(shapely.geometry.Point(t)) < 1e-7)
