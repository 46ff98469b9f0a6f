"""P18: motion models."""
from pydv.contract import unit, Contract
from .common import *
try:
    from pydv.rt import LoopSpec
except ImportError:                       # the interpreter of the real code has no solver
    LoopSpec = object

MM = 'obstacles.motion_model.'
TG = MM + 'MotionModel.'


def state(H, mm):
    p = mm.pos()
    return [p[0], p[1]], mm.rot(), mm._t


def ghost(H, vel, rvel, form):
    """an arbitrary motion model: whatever lin_vel and rot_vel return"""
    class G(H.mod('obstacles.motion_model').MotionModel):
        calls = 0

        def lin_vel(self):
            self.calls += 1
            self.seen = state(H, self)
            return H.arr(*vel) if form == 'array' else [vel[0], vel[1]]

        def rot_vel(self):
            self.seen_r = state(H, self)
            return rvel
    return G


@unit('P18', 'a motion step integrates the velocities', [TG + 'move', TG + '__init__', TG + 'set_pos', TG + 'set_rot', 'obstacles.obstacle.Obstacle.move'])
def step(H):
    v, w = H.vec('vel'), H.real('rotvel')
    p0, r0, t0 = H.vec('p'), H.angle('r'), H.real('t', nonneg=True)
    dt = H.real('dt')
    G = ghost(H, [v[0], v[1]], w, H.choose('velform', ['array', 'list']))
    start = H.choose('start', ['given', 'default', 'set'])
    src = H.choose('posform', ['array', 'list'])
    given = H.arr(p0[0], p0[1]) if src == 'array' else [p0[0], p0[1]]
    if start == 'given':
        mm = G(given, r0)
    elif start == 'default':
        mm, p0, r0 = G(), [0, 0], 0
    else:
        mm = G()
        mm.set_pos(given)
        mm.set_rot(r0)
    mm._t = t0
    H.check('pose starts where it was set', H.and_(H.eqv(mm.pos(), p0), H.eq(mm.rot(), r0), len(mm.pos()) == 2))
    how = H.choose('by', ['model', 'obstacle'])
    if how == 'model':
        mm.move(None, dt)
    else:
        ob = H.mod('obstacles').Ellipse([1., 2.], motion_model=mm)
        ob.move(dt)
    sc = None if H.sym else (1 + abs(dt)) * (1 + abs(v[0]) + abs(v[1]) + abs(w))
    p, r, t = state(H, mm)
    H.check('position advances by exactly velocity times step', H.eqv(p, [p0[0] + v[0] * dt, p0[1] + v[1] * dt], sc))
    H.check('rotation advances by exactly rotational velocity times step', H.eq(r, r0 + w * dt, sc))
    H.check('time advances by exactly the step', H.eq(t, t0 + dt))
    H.check('velocities are those of the pose and time before the step',
            H.and_(H.eqv(mm.seen[0], p0), H.eq(mm.seen[2], t0), H.eqv(mm.seen_r[0], p0), H.eq(mm.seen_r[1], r0)))
    H.check('one velocity per step', mm.calls == 1)
    H.check("the caller's position object stays as it was", H.and_(len(given) == 2, H.eqv(given, p0) if start != 'default' else True))
    H.check('position is a point', len(mm.pos()) == 2)
    if how == 'obstacle':
        H.check('the obstacle is where its motion model is', H.and_(H.eqv(ob.pos(), p), H.eq(ob.rot(), r)))


@unit('P18', 'an obstacle without motion model does not move', ['obstacles.obstacle.Obstacle.move'])
def nomove(H):
    ob = H.mod('obstacles').Ellipse([1., 2.], motion_model=None)
    ob.move(H.real('dt'))
    H.check('stays at the origin', H.and_(H.eqv(ob.pos(), [0, 0]), H.eq(ob.rot(), 0)))


@unit('P18', 'static model never moves', [MM + 'Static.lin_vel', MM + 'Static.rot_vel'])
def static(H):
    p0, r0 = H.vec('p'), H.angle('r')
    mm = H.mod('obstacles.motion_model').Static([p0[0], p0[1]], r0)
    mm._t = H.real('t', nonneg=True)
    v = mm.lin_vel()
    H.check('zero velocity', H.and_(H.eqv(v, [0, 0]), H.eq(mm.rot_vel(), 0)))
    mm.move(None, H.real('dt'))
    H.check('pose unchanged by a step', H.and_(H.eqv(mm.pos(), p0), H.eq(mm.rot(), r0)))


@unit('P18', 'sinusoidal velocities respect their magnitudes', [MM + 'SinusVelocity.__init__', MM + 'SinusVelocity.lin_vel', MM + 'SinusVelocity.rot_vel'])
def sinus(H):
    m1, m2 = H.real('m1'), H.real('m2')
    T1, T2 = H.real('T1', nonneg=True), H.real('T2', nonneg=True)
    p0, r = H.vec('p'), H.angle('r')
    t = H.real('t', nonneg=True)
    cart = H.choose('cartesian', ['default', True, False])
    kw = {} if cart == 'default' else {'cartesian_coords': cart}
    mm = H.mod('obstacles.motion_model').SinusVelocity([p0[0], p0[1]], r, x1_mag=m1, x1_period=T1, x2_mag=m2, x2_period=T2, **kw)
    mm._t = t
    v, w = mm.lin_vel(), mm.rot_vel()
    H.check('planar velocity', len(v) == 2)
    if cart is False:
        c, s = H.cos(r), H.sin(r)
        # two facts of the heading frame: the speed is at most the magnitude, nothing across the heading
        along, across = c * v[0] + s * v[1], c * v[1] - s * v[0]
        H.check('nothing across the heading', H.eq(across, 0))
        H.check('speed along the heading within the magnitude', H.le(sq(along), sq(m1)))
        H.check('speed within the magnitude', H.le(sq(v[0]) + sq(v[1]), sq(m1)))
        H.check('rotational speed within the magnitude', H.le(sq(w * 1), sq(m2)))
        if H.decide(H.eq(t, 0)):
            H.check('full speed at the start', H.and_(H.eq(along, m1), H.eq(w * 1, m2)))
    else:
        H.check('each component within its magnitude', H.and_(H.le(sq(v[0]), sq(m1)), H.le(sq(v[1]), sq(m2))))
        H.check('no rotation', H.eq(w, 0))
        if H.decide(H.eq(t, 0)):
            H.check('full speed at the start', H.eqv(v, [m1, m2]))


# ---------------------------------------------------------------- interval model
def timepos(H):
    """any number of (duration, position) pairs with positive durations"""
    n = H.int('n', 1, None if H.sym else 5)
    D = H.reals('dur', n, lambda k, v: H.gt(v, 0)) if H.sym else [H.real('dur', pos=True) for _ in range(n)]
    Q = H.rows('q', n)
    at = (lambda a, k: a.at(k)) if H.sym else (lambda a, k: a[k])
    return n, D, Q, H.seq(n, lambda k: (at(D, k), at(Q, k)))


def index(H, name, lo, hi):
    return H.int(name, lo, hi if not H.sym else None)


@unit('P18', 'interval model: positions and times as given', [MM + 'Interval.__init__'])
def interval_init(H):
    n, D, Q, tp = timepos(H)
    p0 = H.vec('p0')
    mm = H.mod('obstacles.motion_model').Interval([p0[0], p0[1]], tp)
    k = H.int('k', 0, None if H.sym else n - 1)
    H.assume(k < n)
    T, X = mm.time_point, mm.pos_point
    H.check('starts at time zero at the initial position', H.and_(H.eq(T[0], 0), H.eqv(X[0], p0), H.eqv(mm.pos(), p0), H.eq(mm.rot(), 0), H.eq(mm._t, 0)))
    H.check('each duration separates two times', H.eq(T[k + 1] - T[k], (D.at(k) if H.sym else D[k])))
    H.check('each interval ends at its given position', H.eqv(X[k + 1], Q.at(k) if H.sym else Q[k]))
    H.check('one time and one position per interval and the start',
            H.and_(H.eq(T.n, n + 1), H.eq(X.n, n + 1)) if H.sym else len(T) == len(X) == n + 1)


@unit('P18', 'interval model: velocity leads from one position to the next', [MM + 'Interval.lin_vel', MM + 'Interval.rot_vel'])
def interval_vel(H):
    """class invariant: times start at zero and increase (established by the constructor and the lemma below)"""
    I_ = H.mod('obstacles.motion_model').Interval
    t = H.real('t', nonneg=True)
    if H.sym:
        m = H.int('m', 2)
        T = H.reals('T', m)
        X = H.rows('X', m)
        k = H.int('k', 1)
        H.assume(H.lt(k, m))
        p0 = H.vec('p')
        mm = I_([p0[0], p0[1]], [(1, [0, 0])])
        mm.time_point, mm.pos_point = T, X
        up = lambda i, j: H.and_(H.imp(H.lt(i, j), H.lt(T.at(i), T.at(j))), H.imp(H.lt(j, i), H.lt(T.at(j), T.at(i))))
        mm._t = t
        H.assume(H.and_(H.le(T.at(k - 1), t), H.lt(t, T.at(k)), up(k, m - 1), up(k - 1, m - 1), up(k - 1, k)))
        seen = []
        inner = T._at

        def at(j):                                   # the invariant, instantiated wherever the code reads a time
            v = inner(j)
            for i in [k, k - 1, m - 1] + seen:
                H.assume(up_(T0, i, j))
            seen.append(j)
            return v
        T0 = T.snapshot()

        def up_(S, i, j):
            a, b = S._at(i), S._at(j)
            return H.and_(H.imp(H.lt(i, j), H.lt(a, b)), H.imp(H.lt(j, i), H.lt(b, a)), H.imp(H.eq(i, j), H.eq(a, b)))
        T._at = at
        v = mm.lin_vel()
        H.inst(k, k - 1, k + 1, 0, m - 1)
        a, b, h = X.at(k - 1), X.at(k), T0._at(k) - T0._at(k - 1)
    else:
        n, D, Q, tp = timepos(H)
        p0 = H.vec('p0')
        mm = I_([p0[0], p0[1]], tp)
        k = H.int('k', 1, n)
        f = H.real('f', 0, 0.999)
        edge = H.choose('edge', [True, False])
        T = mm.time_point
        mm._t = T[k - 1] if edge else T[k - 1] + f * (T[k] - T[k - 1])
        H.assume(bool(T[k - 1] <= mm._t < T[k]))
        v = mm.lin_vel()
        a, b, h = mm.pos_point[k - 1], mm.pos_point[k], T[k] - T[k - 1]
    sc = None if H.sym else 1 + abs(a).max() + abs(b).max()
    H.check('velocity times the length of the interval leads from one position to the next', H.eqv([v[0] * h, v[1] * h], vsub(b, a), sc))
    H.check('no rotation', H.eq(mm.rot_vel(), 0))


@unit('P18', 'lemma: partial sums of positive durations increase', [], concrete=False)
def lemma_sums(H):
    """induction on k: if T(j) < T(k) for all j < k, and T(k+1) = T(k) + d with d > 0, then T(j) < T(k+1) for all j < k+1"""
    Tj, Tk, d = H.real('Tj'), H.real('Tk'), H.real('d', pos=True)
    j, k = H.int('j', 0), H.int('k', 0)
    H.assume(H.and_(H.lt(j, k + 1), H.imp(H.lt(j, k), H.lt(Tj, Tk)), H.imp(H.eq(j, k), H.eq(Tj, Tk))))
    H.check('step of the induction', H.lt(Tj, Tk + d))


# ---------------------------------------------------------------- waypoints
class WLin(Contract):
    qual = MM + 'Waypoints.lin_vel'

    @classmethod
    def pre(cls, H, a):
        s = a['self']
        return [('index of the next waypoint is valid', H.and_(H.ge(s._wp_idx, 0), H.le(s._wp_idx, s._N)))]

    @classmethod
    def result(cls, H, a):
        s = a['self']
        i0, i1 = s._wp_idx, H.fresh_int('next')
        d = H.fresh('dist')
        v = H.fvec('vel')
        H.assume(H.and_(H.le(i0, i1), H.le(i1, s._N)))
        H.assume(s._near(i0, i1))
        s._wp_idx = i1
        r = H.choose('stopped', [True, False])
        if r:
            H.assume(H.and_(H.eq(i1, s._N), H.eqv(v, [0, 0])))
        else:
            H.assume(H.lt(i1, s._N))
            w = s._W.at(i1)
            H.assume(H.and_(H.ge(d, s.wp_thresh), H.eq(d * d, d2(w, s._P)),
                            H.eqv(smul(d, v), smul(s.vel, vsub(w, s._P)))))
        return v


class WLoop(LoopSpec):
    """for a lin_vel written as a loop: skips waypoints within the threshold"""
    frame = ('self',)

    def havoc(self, H, L, st):
        s = st['self']
        s._wp_idx = H.fresh_int('idx')
        return {}

    def at_entry(self, H, L, st):
        self.first = st['self']._wp_idx

    def inv(self, H, L, st, k):
        s = st['self']
        i = s._wp_idx
        return [('index stays valid', H.and_(H.le(self.first, i), H.le(i, s._N))),
                ('every waypoint passed is within the threshold', s._near(self.first, i))]


def follow(H, mm, W, N, p0, thr):
    """ghost state: the arbitrary waypoint j about which the universal part of the contract speaks"""
    j = H.int('j', 0)
    H.assume(H.lt(j, N))
    mm._W, mm._N, mm._P = W, N, [p0[0], p0[1]]
    mm._near = lambda a, b: H.imp(H.and_(H.le(a, j), H.lt(j, b)), H.lt(d2(W.at(j), p0), sq(thr)))
    H.loops(MM + 'Waypoints.lin_vel', WLoop())


@unit('P18', 'waypoint follower', [MM + 'Waypoints.lin_vel', MM + 'Waypoints.__init__', MM + 'Waypoints.rot_vel'])
def waypoints(H):
    W_ = H.mod('obstacles.motion_model').Waypoints
    thr, vel = H.real('thr', pos=True), H.real('vel')
    p0 = H.vec('p')
    if H.sym:
        H.use(WLin, from_depth=1)
        N = H.int('N', 1)
        W = H.rows('w', N)
        i0 = H.int('i0', 0)
        H.assume(H.le(i0, N))
        mm = W_([p0[0], p0[1]], [[0, 0]], vel, thr)
        mm.waypoints = W
        follow(H, mm, W, N, p0, thr)
        mm._wp_idx = i0
    else:
        N = H.int('N', 1, 5)
        pts = [[p0[0], p0[1]]] + [list(H.vec('w')) for _ in range(N - 1)]
        mm = W_([p0[0], p0[1]], [H.arr(*w) for w in pts[1:]], vel, thr)
        i0 = H.int('i0', 0, N)
        mm._wp_idx = i0
        if H.choose('moved', [True, False]):
            q = H.vec('q')
            mm.set_pos(q)
            p0 = q
        for w in pts:
            H.assume(abs(H.sqrt(d2(w, p0)) - thr) > 1e-6)
    v = mm.lin_vel()
    i1 = mm._wp_idx
    H.check('waypoints are not visited twice', H.and_(H.le(i0, i1), H.le(i1, N)))
    near = lambda w: H.lt(d2(w, p0), sq(thr))
    if H.sym:
        H.check('every waypoint passed is within the threshold', mm._near(i0, i1))
    else:
        H.check('every waypoint passed is within the threshold', H.and_(*[near(pts[j]) for j in range(i0, i1)]))
    H.check('position not changed by asking for the velocity', H.eqv(mm.pos(), p0))
    H.check('no rotation', H.eq(mm.rot_vel(), 0))


@unit('P18', 'waypoint follower: speed and direction', [MM + 'Waypoints.lin_vel'])
def waypoints_vel(H):
    W_ = H.mod('obstacles.motion_model').Waypoints
    thr, vel = H.real('thr', pos=True), H.real('vel')
    p0 = H.vec('p')
    if H.sym:
        H.use(WLin, from_depth=1)
        N = H.int('N', 1)
        W = H.rows('w', N)
        i0 = H.int('i0', 0)
        H.assume(H.le(i0, N))
        mm = W_([p0[0], p0[1]], [[0, 0]], vel, thr)
        mm.waypoints = W
        follow(H, mm, W, N, p0, thr)
    else:
        N = H.int('N', 1, 4)
        pts = [[p0[0], p0[1]]] + [list(H.vec('w')) for _ in range(N - 1)]
        mm = W_([p0[0], p0[1]], [H.arr(*w) for w in pts[1:]], vel, thr)
        i0 = H.int('i0', 0, N)
        for w in pts:
            H.assume(abs(H.sqrt(d2(w, p0)) - thr) > 1e-6)
    mm._wp_idx = i0
    v = mm.lin_vel()
    i1 = mm._wp_idx
    if H.decide(H.lt(i1, N)):
        w = W.at(i1) if H.sym else pts[i1]
        D = d2(w, p0)
        H.check('the waypoint headed for is not within the threshold', H.ge(D, sq(thr)))
        d = vsub(w, p0)
        H.check('moves at the set speed', H.eq(vdot(v, v), sq(vel)))
        H.check('straight towards the waypoint', H.and_(H.eq(vcross(v, d), 0), H.eq(sq(vdot(v, d)), sq(vel) * D)))
        H.check('not away from it', H.ge(vdot(v, d) * vel, 0))
    else:
        H.check('stops after the last waypoint', H.eqv(v, [0, 0]))


@unit('P18', 'waypoint follower: starts as given', [MM + 'Waypoints.__init__'])
def waypoints_init(H):
    p0 = H.vec('p')
    w1, w2 = H.vec('w'), H.vec('w')
    vel, thr = H.real('vel'), H.real('thr', pos=True)
    W_ = H.mod('obstacles.motion_model').Waypoints
    dflt = H.choose('default threshold', [True, False])
    mm = W_([p0[0], p0[1]], [[w1[0], w1[1]], [w2[0], w2[1]]], vel) if dflt else W_([p0[0], p0[1]], [[w1[0], w1[1]], [w2[0], w2[1]]], vel, thr)
    H.check('starts at the initial position with the first waypoint next', H.and_(H.eqv(mm.pos(), p0), H.eq(mm.rot(), 0), H.eq(mm._wp_idx, 0)))
    H.check('the waypoints are the given ones after the start', H.and_(len(mm.waypoints) == 3, H.eqv(mm.waypoints[0], p0), H.eqv(mm.waypoints[1], w1), H.eqv(mm.waypoints[2], w2)))
    H.check('speed and threshold as given', H.and_(H.eq(mm.vel, vel), H.eq(mm.wp_thresh, H.frac(1, 5) if dflt else thr)))
