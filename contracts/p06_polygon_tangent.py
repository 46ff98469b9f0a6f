"""P06: the two outermost vertices of a polygon as seen from a point."""
from pydv.contract import unit
from .common import *
from .p04_ellipse_line import POSES, POSE
try:
    from pydv.rt import LoopSpec
except ImportError:
    LoopSpec = object

PL = 'obstacles.polygon.Polygon.'
QUAL = PL + 'tangent_points'


def is_array(v):
    return hasattr(v, '_seq_') and not v.is_list


class Unwrap(LoopSpec):
    """The angles are shifted by whole turns.  When k items have been dealt with, the step from every position that is
       among them to the next is the one of the start, brought into half a turn; the other steps are as at the start."""
    kind = 'induction'

    def __init__(self):
        self.done = []

    def match(self, L):
        return L.kind == 'for' and sum(is_array(L.locals.get(r)) for r in L.roots) == 1

    def at_entry(self, H, L, st):
        self.name = next(r for r in L.roots if is_array(L.locals.get(r)))
        self.phase, self.it = 0, L.iter
        self.seq = L.locals[self.name]
        self.base = self.seq.snapshot()
        self.g = H.fresh_int('step')
        H.assume(H.and_(H.le(0, self.g), H.lt(self.g + 1, self.base.n)))

    def havoc(self, H, L, st):
        Q, base = H.realfunc('shift'), self.base
        self.Q, self.seq._at, self.seq.over = Q, (lambda k: base.at(k) + Q(k)), []
        H.turns.append((self.seq, Q))
        r = {self.name: self.seq}
        for v in L.targets:
            r.setdefault(v, H.fresh_int(v))
        return r

    def processed(self, H, j, k):
        if hasattr(self.it, 'hit'):
            n = self.it.hit_no(j)
            return H.and_(self.it.hit(j), H.lt(n, k))
        if hasattr(self.it, '_seq_'):
            return H.out_of_reach('loop over a sequence')
        return H.lt(j, k)

    def shift(self, H, j, k):
        e = self.base.at(j + 1) - self.base.at(j)
        w = H.ite(H.gt(e, H.pi), -2 * H.pi, H.ite(H.lt(e, -H.pi), 2 * H.pi, 0))
        return H.ite(self.processed(H, j, k), w, 0)

    def inv(self, H, L, st, k):
        self.phase += 1
        if self.phase == 1:
            return []
        Q, g = self.Q, self.g
        if self.phase == 2:
            H.universal(lambda j: H.imp(H.and_(H.le(0, j), H.lt(j + 1, self.base.n)), H.eq(Q(j + 1) - Q(j), self.shift(H, j, k))))
            H.inst(g)
            return []
        now = lambda j: self.seq.at(j)
        d = now(g) - (self.base.at(g) + Q(g))
        e = now(g + 1) - now(g) - (self.base.at(g + 1) - self.base.at(g))
        return [('the angle is changed by whole turns', H.or_(*[H.eq(d, m * 2 * H.pi) for m in (0, 1, -1)])),
                ('the steps dealt with are at most half a turn, the others as before', H.eq(e, self.shift(H, g, k)))]


class Unwraps(LoopSpec):
    """each of the loops has a contract of its own"""
    kind = 'induction'

    def match(self, L):
        self.now = Unwrap()
        return self.now.match(L)

    def at_entry(self, H, L, st):
        self.now.at_entry(H, L, st)

    def havoc(self, H, L, st):
        return self.now.havoc(H, L, st)

    def inv(self, H, L, st, k):
        return self.now.inv(H, L, st, k)


def multiple(H, z):
    """z is a whole number of turns"""
    t = 2 * H.pi
    return H.or_(H.le(z, -3 * t), H.ge(z, 3 * t), *[H.eq(z, m * t) for m in (-2, -1, 0, 1, 2)])


@unit('P06', 'lemma: whole turns', [], concrete=False)
def turns(H):
    m, p = H.int('m'), H.real('half', pos=True)
    for a in (-3, -2, -1, 0, 1, 2, 3):
        if H.decide(H.eq(m, a)):
            break
    z = 2 * p * H.to_real(m)
    H.by('a whole number of turns', H.or_(H.le(z, -3 * 2 * p), H.ge(z, 3 * 2 * p), *[H.eq(z, a * 2 * p) for a in (-2, -1, 0, 1, 2)]),
         [H.gt(p, 0), H.or_(H.le(H.to_real(m), -3), H.ge(H.to_real(m), 3), *[H.eq(H.to_real(m), a) for a in (-2, -1, 0, 1, 2)])], [H.to_real(m)])


def setup(H):
    F = H.mod('obstacles').Frame
    if H.sym:
        H.angle_facts(False)
        H.angle_pairs(False)
        pk, fi, fo = H.choose('pose and frames', POSE)
        mm, ps = mk_pose(H, (pk,))
        H.turns = H.path.__dict__.setdefault('turns', [])
        H.loops(QUAL, Unwraps())
        g = H.abs_polygon()
    else:
        mm, ps = mk_pose(H, POSES)
        fi, fo = H.choose('fin', ['G', 'O']), H.choose('fout', ['G', 'O'])
        g = [list(map(float, p)) for p in H.data('shape', shapes)]
        s = H.int('start', 0, len(g) - 1)
        g = g[s:] + g[:s]
    fin, fout = {'G': F.GLOBAL, 'O': F.OBSTACLE}[fi], {'G': F.GLOBAL, 'O': F.OBSTACLE}[fo]
    o = H.mod('obstacles').Polygon(g, id='temp', motion_model=mm)
    x = H.vec('x') if H.sym else H.data('x', lambda r: point(r, g))
    fr = Frames(H, mm, ps)
    r = o.tangent_points(fr.point(x, fin), input_frame=fin, output_frame=fout)
    H.check('a list', isinstance(r, list))
    H.check('no or two tangent points', len(r) in (0, 2))
    return g, x, [fr.back(t, fout) for t in r]


def angles(H):
    """the array the extremes of which are taken, and its shifts by whole turns"""
    s = H.searched()
    if not s and not H.turns:
        H.out_of_reach('no angles seen')
    return s[-1][1] if s else H.turns[-1][0]


def angle(H, x, p):
    return H.atan2(p[1] - x[1], p[0] - x[0])


@unit('P06', 'every vertex is seen within the angle from the first to the second', [QUAL], feas_nlsat=300)
def within(H):
    g, x, r = setup(H)
    if not H.sym:
        return concrete(H, g, x, r)
    if not r:
        return
    j = H.int('vertex', 0)
    H.assume(H.lt(j, g.n))
    W, t = g.verts, 2 * H.pi
    for n, p in (('first', r[0]), ('second', r[1])):
        i = H.source(H.seq(1, lambda k: p), 0, W)
        H.check('the %s is a vertex' % n, H.and_(H.le(0, i), H.lt(i, g.n), H.eqv(W.at(i), p)))
    ks = [i for i, s in H.searched()]
    H.inst(j, *ks)
    phi = angles(H)
    a = angle(H, x, r[0])
    d2_, dj = a - angle(H, x, r[1]), a - angle(H, x, W.at(j))
    for k in ks:                                     # whole turns between the angles compared
        for l in ks + [j]:
            H.assume(multiple(H, sum((Q(k) - Q(l) for s, Q in H.turns), H.zero())))
    mod = lambda d: H.ite(H.lt(d, 0), d + t, d)
    H.check('seen clockwise of the first, at most as far as the second', H.le(mod(dj), mod(d2_)))
    H.check('the second is less than a turn away', H.lt(mod(d2_), t))


def follows(H, g, x, A, step, *at):
    """The shifted angles change as A does, the steps of which are smaller than half a turn: by induction over the
       vertices, used at the given positions."""
    phi, N = angles(H), g.n
    k = H.fresh_int('k')
    H.assume(H.and_(H.le(0, k), H.lt(k, N)))
    H.inst(k)
    H.check('start', H.eq(A(0), 0), 'induction')
    step(k)
    a = A(k + 1) - A(k)
    H.assume(multiple(H, sum((Q(k + 1) - Q(k) for s, Q in H.turns), H.zero())))
    H.check('the angle follows the direction to the next vertex', H.eq(phi.at(k + 1) - phi.at(k), a), 'induction')
    for i in at:
        H.assume(H.eq(phi.at(i) - phi.at(0), A(i)))


def congruent(H, g, x, w, k):
    """w is the turn of the direction from x along edge k, up to whole turns"""
    W = g.verts.circular()
    d = angle(H, x, W.at(k + 1)) - angle(H, x, W.at(k))
    H.assume(H.or_(*[H.eq(w, d + m * 2 * H.pi) for m in (-1, 0, 1)]))


def turned(H, g, x):
    """T(k): the turn of the direction from x to the boundary up to vertex k"""
    f, T = H.realfunc('turn'), H.realfunc('turned')

    def step(k):                                # along edge k: less than half a turn, as x is not on the edge
        H.assume(H.and_(H.lt(-H.pi, f(k)), H.lt(f(k), H.pi), H.eq(T(k + 1), T(k) + f(k))))
        congruent(H, g, x, f(k), k)
    H.assume(H.eq(T(0), 0))
    return T, step


@unit('P06', 'no tangent points from inside', [QUAL], feas_nlsat=300,
      assumes=['the boundary winds once around an interior point (geometry)'])
def inside(H):
    g, x, r = setup(H)
    if not H.sym:
        return concrete(H, g, x, r)
    if not r:
        return
    T, step = turned(H, g, x)
    follows(H, g, x, T, step, g.n)
    H.assume(H.eq(T(g.n), 2 * H.pi))
    H.check('no tangent points', False, 'induction')


@unit('P06', 'two tangent points from outside the convex hull', [QUAL], feas_nlsat=300,
      assumes=['a point outside the convex hull sees every vertex within less than a quarter turn of some direction (geometry)'])
def outside(H):
    g, x, r = setup(H)
    if not H.sym:
        return concrete(H, g, x, r)
    if r:
        return
    N, D = g.n, H.realfunc('off')               # angle off that direction

    def A(k):
        d, d0 = D(H.ifi(H.eq(k, N), 0, k)), D(0)
        for v in (d, d0):
            H.assume(H.and_(H.lt(-H.pi, 2 * v), H.lt(2 * v, H.pi)))
        return d - d0

    def step(k):
        congruent(H, g, x, A(k + 1) - A(k), k)
    follows(H, g, x, A, step, N, *[i for i, s in H.searched()])
    H.check('two tangent points', False, 'induction')


@unit('P06', 'from outside, two tangent points unless the boundary sweeps a full turn', [QUAL], feas_nlsat=300,
      assumes=['the boundary does not wind around an exterior point (geometry)'])
def sweep(H):
    g, x, r = setup(H)
    if not H.sym:
        return concrete(H, g, x, r)
    T, step = turned(H, g, x)
    ks = [i for i, s in H.searched()]
    i, j = H.int('seen last', 0), H.int('seen first', 0)
    H.assume(H.and_(H.le(i, g.n), H.le(j, g.n)))
    H.inst(i, j)
    follows(H, g, x, T, step, g.n, i, j, *ks)
    H.assume(H.eq(T(g.n), 0))
    if r:
        H.check('none if it does', H.lt(T(i) - T(j), 2 * H.pi), 'induction')
    else:
        H.check('two if it does not', H.or_(*[H.ge(T(k) - T(l), 2 * H.pi) for k in ks for l in ks if k is not l]), 'induction')


def shapes(rng):
    import math
    if rng.random() < .6:
        return rand_polygon(rng)
    # spirals, combs and rooms: points outside that the polygon surrounds
    k = rng.random()
    if k < .4:
        m, t0, w = rng.randint(4, 14), rng.uniform(0, 6.3), rng.choice([.5, .8, .98, 1.3, 1.9])
        out = [[(4 + .25 * i) * math.cos(t0 + 2 * math.pi * w * i / m), (4 + .25 * i) * math.sin(t0 + 2 * math.pi * w * i / m)] for i in range(m + 1)]
        inn = [[p[0] * .8, p[1] * .8] for p in out]
        g = out + inn[::-1]
    elif k < .7:
        a = rng.choice([1., 2., 3.])
        g = [[-4., -4.], [4., -4.], [4., 4.], [a, 4.], [a, -2.], [-a, -2.], [-a, 4.], [-4., 4.]]
        g = g if rng.random() < .5 else [[p[1], -p[0]] for p in g]
    else:
        g = [[-4., -4.], [4., -4.], [4., 4.], [.5, 4.], [.5, 3.], [3., 3.], [3., -3.], [-3., -3.], [-3., 3.], [0., 3.], [0., 4.], [-4., 4.]]
    if rng.random() < .5:
        g.reverse()
    return g if simple(g) else rand_polygon(rng)


def point(rng, g):
    """anywhere: near, far, level with vertices, on the prolongation of an edge"""
    i = rng.randrange(len(g))
    a, b = g[i], g[(i + 1) % len(g)]
    k = rng.random()
    if k < .25:
        return [rng.uniform(-8, 8), rng.uniform(-8, 8)]
    if k < .45:
        c = rng.choice(g)
        return [c[0], a[1]] if rng.random() < .5 else [rng.uniform(-9, 9), a[1]]
    if k < .6:
        t = rng.choice([-1., -.5, 1.5, 2., 3., .5])
        return [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
    if k < .7:
        c = rng.choice(g)
        return [(a[0] + c[0]) / 2, (a[1] + c[1]) / 2]
    if k < .85:
        return [float(rng.randint(-9, 9)), float(rng.randint(-9, 9))]
    return [a[0] + rng.gauss(0, .5), a[1] + rng.gauss(0, .5)]


def hull(pts):
    ps = sorted(map(tuple, pts))
    def half(ps):
        h = []
        for p in ps:
            while len(h) > 1 and orient(h[-2], h[-1], p) <= 0:
                h.pop()
            h.append(p)
        return h[:-1]
    return half(ps) + half(ps[::-1])


def concrete(H, g, x, r):
    import math
    H.assume(poly_dist(g, x) > 1e-3)
    if r:
        for n, p in (('first', r[0]), ('second', r[1])):
            H.check('the %s is a vertex' % n, min(d2(p, v) for v in g) < 1e-12 * (1 + vdot(p, p)) + 1e-14)
        th = [math.atan2(p[1] - x[1], p[0] - x[0]) for p in r]
        s = (th[0] - th[1]) % (2 * math.pi)
        for v in g:
            t = (th[0] - math.atan2(v[1] - x[1], v[0] - x[0])) % (2 * math.pi)
            if s < 2 * math.pi - 1e-6:
                H.check('seen clockwise of the first, at most as far as the second', t <= s + 1e-6 or t > 2 * math.pi - 1e-6)
    h = hull(g)
    T = [0.]
    for i in range(len(g)):
        a, b = vsub(g[i], x), vsub(g[(i + 1) % len(g)], x)
        T.append(T[-1] + math.atan2(vcross(a, b), vdot(a, b)))
    span = max(T) - min(T)
    if poly_in(g, x):
        H.check('no tangent points from inside', not r)
    elif poly_dist(h, x) > 1e-3 and not poly_in(h, x):
        H.check('two tangent points from outside the convex hull', len(r) == 2)
    if not poly_in(g, x) and abs(span - 2 * math.pi) > 1e-6:
        H.check('from outside, two tangent points unless the boundary sweeps a full turn', len(r) == (2 if span < 2 * math.pi else 0))
