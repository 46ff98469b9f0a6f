"""P21: random geometry generators, for every outcome of the draws and any number of vertices."""
import math
from pydv.contract import unit, Contract
from pydv.errors import Skip
from .common import *
try:
    from pydv.rt import LoopSpec
except ImportError:
    LoopSpec = object

CG = 'utils.cg.'


@unit('P21', 'a point sampled in a triangle lies in it', [CG + 'point_in_triangle'])
def triangle(H):
    a, b, c = H.vec('a'), H.vec('b'), H.vec('c')
    with H.random_outcomes():
        r = H.mod('utils.cg').point_in_triangle(a, b, c)
    A = orient(a, b, c)
    sc = None if H.sym else 1 + max(abs(v) for p in (a, b, c) for v in p) ** 4
    H.check('a point of the plane', len(r) == 2)
    if H.sym:
        ccw = H.choose('orientation', [1, -1, 0])
        H.assume(H.gt(A, 0) if ccw == 1 else H.lt(A, 0) if ccw == -1 else H.eq(A, 0))
    else:
        ccw = 1 if A > 0 else -1
    for u, v in ((a, b), (b, c), (c, a)):
        if ccw:
            H.check('on the inner side of every edge', H.ge(ccw * orient(u, v, r), 0, sc))
    for i in (0, 1):
        H.check('within the bounds of the triangle', H.and_(H.or_(*[H.le(p[i], r[i], sc) for p in (a, b, c)]),
                                                           H.or_(*[H.ge(p[i], r[i], sc) for p in (a, b, c)])))


# ------------------------------------------------------------------ angle steps
def numbers(L):
    """variables of the loop that hold a number before it"""
    ok = (int, float)
    return [v for v in L.locals if v in L.assigned and v not in L.targets and not isinstance(L.locals[v], bool) and
            (isinstance(L.locals[v], ok) or type(L.locals[v]).__name__ in ('R', 'I', 'Fraction'))]


def lists(L):
    return [v for v in sorted(set(L.roots) | set(L.assigned)) if v in L.locals and
            (isinstance(L.locals[v], list) or hasattr(L.locals[v], '_seq_'))]


class Phases(LoopSpec):
    """a loop contract whose invariant is read differently on entry, at the cut and after an iteration"""
    kind = 'induction'

    def match(self, L):
        return L.kind == 'for' and len(set(lists(L))) == 1 and self.fits(L)

    def at_entry(self, H, L, st):
        self.phase, self.lv, self.nums = 0, lists(L)[0], numbers(L)
        self.entry(H, L, st)

    def entry(self, H, L, st):
        pass

    def inv(self, H, L, st, k):
        self.phase += 1
        return [self.before, self.cut, self.after][min(self.phase, 3) - 1](H, st, k)


def empty(l):
    return isinstance(l, list) and not l


class Collect(Phases):
    """appends a draw in every iteration and adds it up: the list holds k positive numbers, S(k) is their sum"""
    def __init__(self, ghost):
        self.g = ghost

    def fits(self, L):
        return empty(L.locals[lists(L)[0]])

    def before(self, H, st, k):
        return [('nothing collected', len(st[self.lv]) == 0)] + [('the sum is zero', H.eq(st[v], 0)) for v in self.nums]

    def havoc(self, H, L, st):
        m = H.fresh_int('collected')
        A = H.realfunc('A')
        S = H.realfunc('S')
        self.m, self.g['A'], self.g['S'], self.g['m'] = m, A, S, m
        def at(j):
            H.assume(H.imp(H.and_(H.ge(j, 0), H.lt(j, m)), H.gt(A(j), 0)))
            return A(j)
        r = {self.lv: H.seq(m, at)}
        for v in self.nums:
            r[v] = S(m)
        return r

    def cut(self, H, st, k):
        H.assume(H.eq(self.g['S'](0), 0))
        return [('one number per iteration', H.eq(self.m, k)), ('the sum of positive numbers', H.imp(H.gt(k, 0), H.gt(self.g['S'](k), 0))),
                ('no sum', H.imp(H.eq(k, 0), H.eq(self.g['S'](k), 0)))]

    def after(self, H, st, k):
        l, A, S = st[self.lv], self.g['A'], self.g['S']
        j = H.fresh_int('j')
        new = l.at(k - 1)
        H.assume(H.and_(H.ge(j, 0), H.lt(j, k - 1)))
        return [('one number per iteration', H.eq(l.n, k)), ('the number is positive', H.gt(new, 0)),
                ('the numbers before stay', H.eq(l.at(j), A(j)))] + \
               [('the sum includes the number', H.eq(st[v], S(k - 1) + new)) for v in self.nums]


class Scale(Phases):
    """divides every number by the same one: those before k are their share of the full turn"""
    def __init__(self, ghost):
        self.g = ghost

    def fits(self, L):
        return not empty(L.locals[lists(L)[0]])

    def entry(self, H, L, st):
        if 'A' not in self.g:                       # summed up without a loop
            if not H.path.__dict__.get('sums'):
                H.out_of_reach('no sum of the draws')
            src, part, S = H.path.sums[0]
            self.g.update(A=lambda j: src.at(j), S=lambda k: H.sum_of(S, k), m=src.n)

    def before(self, H, st, k):
        return []

    def havoc(self, H, L, st):
        old = st[self.lv].snapshot()
        g = self.g
        self.old, self.t = old, H.fresh_int('scaled')
        Bf = H.realfunc('B')

        def at(j):
            H.assume(H.imp(H.and_(H.ge(j, 0), H.lt(j, self.t)), H.eq(Bf(j) * g['S'](g['m']), g['A'](j) * 2 * H.pi)))
            return H.ite(H.lt(j, self.t), Bf(j), old.at(j))
        self.new = H.seq(old.n, at)
        self.ref = self.new.snapshot()
        return {self.lv: self.new}

    def cut(self, H, st, k):
        return [('one number per iteration', H.eq(self.t, k))]

    def after(self, H, st, k):
        l, g = st[self.lv], self.g
        j = H.fresh_int('j')
        H.assume(H.and_(H.ge(j, 0), H.lt(j, l.n), H.ne(j, k - 1)))
        return [('as many numbers', H.eq(l.n, self.old.n)), ('its share of the full turn', H.eq(l.at(k - 1) * g['S'](g['m']), self.old.at(k - 1) * 2 * H.pi)),
                ('the other numbers stay', H.eq(l.at(j), self.ref.at(j)))]


@unit('P21', 'random angle steps are non-negative and sum to a full turn', [CG + 'random_angle_steps'])
def steps(H):
    H.open_draws()
    N = H.int('steps', 1, None if H.sym else 9)
    f = H.real('irregularity', 0, 1)
    full = H.div(2 * H.pi, N)
    irr = f * full
    ghost = {}
    H.loops(CG + 'random_angle_steps', Collect(ghost), Scale(ghost))
    R_ = H.mod('utils.cg').random_angle_steps
    if not H.sym:
        with H.random_outcomes():
            try:
                r = R_(N, irr)
            except ZeroDivisionError:
                if f > 1 - 1e-9:
                    raise Skip()                     # every draw exactly zero
                raise
        H.check('as many steps as asked for', len(r) == N)
        if f > 1 - 1e-9 and any(v != v for v in r):
            raise Skip()
        H.check('non-negative', H.and_(*[H.ge(v, 0) for v in r]))
        H.check('sum to a full turn', H.eq(sum(r), 2 * math.pi))
        return
    H.assume(H.and_(H.ge(irr, 0), H.le(irr, full)))
    r = R_(N, irr)
    j = H.int('j', 0)
    H.assume(H.lt(j, N))
    H.check('as many steps as asked for', H.eq(r.n, N))
    if 'A' in ghost and not H.path.__dict__.get('sums'):
        a, total = ghost['A'](j), ghost['S'](ghost['m'])
        H.assume(H.gt(a, 0))                          # invariant of the loop that draws
    else:
        src, part, S = H.path.sums[0]
        a, total = src.at(j), H.sum_of(S, src.n)
        H.check('positive draws', H.gt(a, 0), 'induction')
    H.check('each step is the share of its draw in the sum of the draws', H.eq(r.at(j) * total, a * 2 * H.pi))
    H.by('non-negative', H.ge(r.at(j), 0), [H.eq(r.at(j) * total, a * 2 * H.pi), H.gt(total, 0), H.gt(a, 0), H.gt(H.pi, 0)],
         abstract=[r.at(j), total, a, H.pi])


@unit('P21', 'lemma: shares of a sum add up', [], concrete=False)
def lemma_shares(H):
    """W(j) total = 2 pi S(j) for the partial sums W of the steps and S of the draws, by induction; at the end S = total"""
    W, S, T, r, a = (H.real(x) for x in 'WSTra')
    H.assume(H.gt(T, 0))
    H.check('start', H.eq(0 * T, 0 * 2 * H.pi))
    H.assume(H.and_(H.eq(W * T, S * 2 * H.pi), H.eq(r * T, a * 2 * H.pi)))
    H.check('step', H.eq((W + r) * T, (S + a) * 2 * H.pi))
    V = H.real('V')
    H.assume(H.eq(V * T, T * 2 * H.pi))
    H.check('full turn', H.eq(V, 2 * H.pi))


class Steps(Contract):
    """contract of random_angle_steps, with the partial sums of the steps as ghost function"""
    qual = CG + 'random_angle_steps'

    def __init__(self, ghost):
        self.g = ghost

    def check_pre(self, H, a):
        v = list(a.values())
        H.check('angle steps of a proper irregularity are asked for', H.and_(H.ge(v[0], 1), H.ge(v[1], 0), H.le(v[1], H.div(2 * H.pi, v[0]))), 'precondition')

    def result(self, H, a):
        n = list(a.values())[0]
        D, T = H.realfunc('step'), H.realfunc('turned')
        self.g['T'], self.g['n'] = T, n
        H.assume(H.and_(H.eq(T(0), 0), H.eq(T(n), 2 * H.pi)))

        def at(j):
            ok = H.and_(H.ge(j, 0), H.lt(j, n))
            H.assume(H.imp(ok, H.and_(H.ge(D(j), 0), H.eq(T(j + 1), T(j) + D(j)))))
            return D(j)
        return H.seq(n, at)


class Corners(Phases):
    """corner j lies on the ray at the start angle plus the first j steps, within twice the average radius"""
    def __init__(self, ghost, centre, avg):
        self.g, self.c, self.avg = ghost, centre, avg

    def fits(self, L):
        return empty(L.locals[lists(L)[0]]) and len(numbers(L)) == 1 and 'T' in self.g

    def entry(self, H, L, st):
        self.g['e0'] = st[self.nums[0]]

    def before(self, H, st, k):
        return [('no corner', len(st[self.lv]) == 0)]

    def havoc(self, H, L, st):
        g, c = self.g, self.c
        m = self.m = H.fresh_int('corners')
        rho = H.realfunc('radius')

        def at(j):
            th = g['e0'] + g['T'](j)
            H.assume(H.imp(H.and_(H.ge(j, 0), H.lt(j, m)), H.and_(H.ge(rho(j), 0), H.le(rho(j), 2 * self.avg))))
            return (c[0] + rho(j) * H.cos(th), c[1] + rho(j) * H.sin(th))
        self.ref = H.seq(m, at)
        return {self.lv: H.seq(m, at), self.nums[0]: g['e0'] + g['T'](m)}

    def cut(self, H, st, k):
        return [('one corner per iteration', H.eq(self.m, k))]

    def after(self, H, st, k):
        l, g = st[self.lv], self.g
        j = H.fresh_int('j')
        H.assume(H.and_(H.ge(j, 0), H.lt(j, k - 1)))
        return [('one corner per iteration', H.eq(l.n, k)),
                ('the angle advances by the step', H.eq(st[self.nums[0]], g['e0'] + g['T'](k)))] + \
               [('the corner is on its ray', p) for p in on_ray(H, l.at(k - 1), self.c, g['e0'] + g['T'](self.m), self.avg)] + \
               [('the corners before stay', H.eqv(l.at(j), self.ref.at(j)))]


def on_ray(H, p, c, th, avg):
    d = vsub(p, c)
    e = [H.cos(th), H.sin(th)]
    return [H.eq(vcross(e, d), 0), H.ge(vdot(e, d), 0), H.le(vdot(e, d), 2 * avg)]


@unit('P21', 'a random star polygon goes around its centre counterclockwise', [CG + 'generate_star_polygon'])
def star(H):
    N = H.int('vertices', 1, None if H.sym else 9)
    c = H.vec('centre')
    avg = H.real('radius', pos=True)
    irr, spk = H.real('irregularity', 0, 1), H.real('spikiness', 0, 1)
    G = H.mod('utils.cg').generate_star_polygon
    if H.sym:
        ghost = {}
        H.use(Steps(ghost))
        H.loops(CG + 'generate_star_polygon', Corners(ghost, c, avg))
        r = G(c, avg, irr, spk, N)
        H.check('as many vertices as asked for', H.eq(r.n, N))
        j = H.int('j', 0)
        H.assume(H.lt(j, N))
        H.check('a loop over the corners', 'e0' in ghost, 'induction')
        for p, nm in zip(on_ray(H, r.at(j), c, ghost['e0'] + ghost['T'](j), avg),
                         ('on the ray at the first angle plus the steps so far', 'on that side of the centre', 'within twice the average radius')):
            H.check(nm, p)
        return
    with H.random_outcomes():
        try:
            r = G(c, avg, irr, spk, N)
        except ZeroDivisionError:
            if irr > 1 - 1e-9:
                raise Skip()
            raise
    H.check('as many vertices as asked for', len(r) == N)
    H.check('a list of points', all(len(p) == 2 for p in r))
    if any(v != v for p in r for v in p) and irr > 1 - 1e-9:
        raise Skip()
    ds = [vsub(p, c) for p in r]
    sc = 1 + avg + abs(c[0]) + abs(c[1])
    H.check('within twice the average radius', H.and_(*[H.le(math.hypot(*d), 2 * avg, sc) for d in ds]))
    th = [math.atan2(d[1], d[0]) for d in ds if math.hypot(*d) > 1e-5 * sc]
    if len(th) >= 2:
        inc = [(b - a) % (2 * math.pi) for a, b in zip(th, th[1:] + th[:1])]
        s = sum(0 if v > 2 * math.pi - 1e-5 else v for v in inc)
        H.check('counterclockwise once around the centre', s < 2 * math.pi + 1e-3)


@unit('P21', 'irregularity or spikiness outside zero to one is rejected', [CG + 'generate_star_polygon'])
def rejected(H):
    H.open_draws()
    irr, spk = H.real('irregularity'), H.real('spikiness')
    H.assume(H.or_(H.lt(irr, 0), H.gt(irr, 1), H.lt(spk, 0), H.gt(spk, 1)))
    if not H.sym and all(-1e-9 <= v <= 1 + 1e-9 for v in (irr, spk)):
        raise Skip()
    c, avg = H.vec('centre'), H.real('radius', pos=True)
    N = H.choose('vertices', [1, 2, 3])
    H.check('rejected', H.raises(lambda: H.mod('utils.cg').generate_star_polygon(c, avg, irr, spk, N), ValueError))


# ------------------------------------------------------------------ convex polygon
class Chains(Phases):
    """splits the sorted numbers into two chains and collects the steps of both: the steps up add up to what the first
    chain has climbed, the steps down to what the second one has"""
    def __init__(self, ghost):
        self.g = ghost

    def fits(self, L):
        return empty(L.locals[lists(L)[0]]) and len(numbers(L)) == 2 and len(self.g['chains']) < 2

    def entry(self, H, L, st):
        self.top, self.bot = self.nums
        self.base = st[self.top]
        pools = [v for v in L.locals.values() if hasattr(v, '_seq_') and not v.is_list]
        self.pool = [v for v in pools if H.same(v.at(0), self.base)][0] if pools else None

    def before(self, H, st, k):
        return [('nothing collected', len(st[self.lv]) == 0), ('both chains start with the least number', H.eq(st[self.bot], self.base)),
                ('the first number', H.eq(self.pool.at(0), self.base))]

    def havoc(self, H, L, st):
        self.m = H.fresh_int('collected')
        V = H.realfunc('V')
        self.up, self.down = H.fresh('up'), H.fresh('down')
        self.u, self.w = H.fresh('top'), H.fresh('bottom')
        l = H.seq(self.m, V)
        self.g['chains'].append(dict(seq=l, pool=self.pool,
                                     state=(self.m, self.up, self.down)))
        self.ref = l.snapshot()
        return {self.lv: l, self.top: self.u, self.bot: self.w}

    def state(self, H, up, down, u, w, k):
        m, x = self.base, self.pool.at(k)
        return [('steps up', H.eq(up, u - m)), ('steps down', H.eq(down, m - w)),
                ('the chains are within the numbers so far', H.and_(H.le(m, u), H.le(u, x), H.le(m, w), H.le(w, x)))]

    def cut(self, H, st, k):
        return [('one step per iteration', H.eq(self.m, k))] + self.state(H, self.up, self.down, self.u, self.w, k)

    def after(self, H, st, k):
        l, j = st[self.lv], H.fresh_int('j')
        new = l.at(self.m)
        H.inst2(k - 1, k)
        H.assume(H.and_(H.ge(j, 0), H.lt(j, k - 1)))
        return [('one step per iteration', H.eq(l.n, k)), ('the steps before stay', H.eq(l.at(j), self.ref.at(j)))] + \
            self.state(H, self.up + H.max(new, 0), self.down + H.min(new, 0), st[self.top], st[self.bot], k)


class Lay(Phases):
    """lays the steps end to end: corner j is the sum of the first j steps"""
    def __init__(self, ghost, n):
        self.g, self.n = ghost, n

    def fits(self, L):
        return empty(L.locals[lists(L)[0]]) and len(numbers(L)) >= 2 and len(self.g['chains']) == 2

    def entry(self, H, L, st):
        g = self.g
        self.xy = self.nums[:2]
        self.steps = []
        K = H.fresh_int('K')
        H.assume(H.and_(H.ge(K, 0), H.lt(K, self.n)))
        for c in g['chains']:
            found = [v for v in L.locals.values() if hasattr(v, '_seq_') and v.is_list and v is not c['seq'] and H.permutes(v, c['seq'], K)]
            if len(found) != 1:
                H.check('the steps laid are those of the chains in some order', H.F, 'induction')
            self.steps.append(found[0].snapshot())
            m, up, down = c['state']
            H.check('two more steps close the chains', H.eq(c['seq'].n, m + 2), 'induction')
            for i in (0, 1):
                new = getattr(c['seq'], 'unshuffled', c['seq']).at(m + i)
                up, down = up + H.max(new, 0), down + H.min(new, 0)
            c['totals'] = up, down
        g['P'] = [H.realfunc('PX'), H.realfunc('PY')]
        g['N'] = [H.realfunc('NX'), H.realfunc('NY')]

    def at(self, i, j):
        return self.g['P'][i](j) + self.g['N'][i](j)

    def before(self, H, st, k):
        return [('no corner', len(st[self.lv]) == 0)] + [('starts at the origin', H.eq(st[v], 0)) for v in self.xy]

    def havoc(self, H, L, st):
        self.m = H.fresh_int('corners')
        l = H.seq(self.m, lambda j: [self.at(0, j), self.at(1, j)])
        l.cells = True
        self.ref = l.snapshot()
        r = {v: H.fresh(v) for v in self.nums}
        r.update({v: self.at(i, self.m) for i, v in enumerate(self.xy)})
        r[self.lv] = l
        return r

    def cut(self, H, st, k):
        g = self.g
        for i in (0, 1):
            v = self.steps[i].at(self.m)
            H.assume(H.and_(H.eq(g['P'][i](0), 0), H.eq(g['N'][i](0), 0)))
            H.assume(H.eq(g['P'][i](self.m + 1), g['P'][i](self.m) + H.max(v, 0)))
            H.assume(H.eq(g['N'][i](self.m + 1), g['N'][i](self.m) + H.min(v, 0)))
        return [('one corner per iteration', H.eq(self.m, k))]

    def after(self, H, st, k):
        l, j = st[self.lv], H.fresh_int('j')
        H.assume(H.and_(H.ge(j, 0), H.lt(j, self.m)))
        return [('one corner per iteration', H.eq(l.n, k)), ('the corner is the sum of the steps', H.eqv(l.at(self.m), [self.at(0, self.m), self.at(1, self.m)])),
                ('the corners before stay', H.eqv(l.at(j), self.ref.at(j)))] + \
               [('the next corner is one step on', H.eq(st[v], self.at(i, self.m + 1))) for i, v in enumerate(self.xy)]


class Shift(Phases):
    """adds the same vector to every corner"""
    def __init__(self, ghost):
        self.g = ghost

    def fits(self, L):
        return not empty(L.locals[lists(L)[0]]) and 'P' in self.g and not numbers(L)

    def entry(self, H, L, st):
        sh = self.g.setdefault('shifts', [])
        try:
            if 'xr' in L.locals:
                c = [-L.locals['xr'][0], -L.locals['xr'][1]]
            else:
                b = L.locals['box']
                c = [L.locals['xShift'] - H.div(b[0], 2), L.locals['yShift'] - H.div(b[1], 2)]
        except KeyError as e:
            H.out_of_reach('no variable %s' % e)
        self.c = c

    def before(self, H, st, k):
        return []

    def havoc(self, H, L, st):
        old = self.old = st[self.lv].snapshot()
        t = self.t = H.fresh_int('shifted')

        def at(j):
            v = old.at(j)
            return [H.ite(H.lt(j, t), v[i] + self.c[i], v[i]) for i in (0, 1)]
        l = H.seq(old.n, at)
        l.cells = True
        self.ref = l.snapshot()
        return {self.lv: l}

    def cut(self, H, st, k):
        return [('one corner per iteration', H.eq(self.t, k))]

    def after(self, H, st, k):
        l, j = st[self.lv], H.fresh_int('j')
        H.assume(H.and_(H.ge(j, 0), H.lt(j, l.n), H.ne(j, k - 1)))
        return [('as many corners', H.eq(l.n, self.old.n)), ('the corner is shifted', H.eqv(l.at(k - 1), vadd(self.old.at(k - 1), self.c))),
                ('the other corners stay', H.eqv(l.at(j), self.ref.at(j)))]


class Drawn:
    """drawing is outside every property"""
    qual = 'utils.misc.draw_shapely_polygon'

    def check_pre(self, H, a):
        pass

    def result(self, H, a):
        return [], None


@unit('P21', 'a random convex polygon fits its box', [CG + 'generate_convex_polygon'],
      assumes=['a permutation of finitely many numbers has the same sum of positive and of negative parts',
               'np.random.shuffle and sorted permute'])
def convex(H):
    n = H.int('vertices', 3, None if H.sym else 9)
    dflt = H.choose('default box', [True, False])
    box = [1, 1] if dflt else [H.real('width', pos=True), H.real('height', pos=True)]
    G = H.mod('utils.cg').generate_convex_polygon
    call = lambda: G(n) if dflt else G(n, [box[0], box[1]])
    if not H.sym:
        with H.random_outcomes():
            r = call()
        H.check('as many vertices as asked for', len(r) == n and all(len(p) == 2 for p in r))
        for i in (0, 1):
            xs = [p[i] for p in r]
            H.check('centred at the origin', H.eq(sum(xs), 0, 1 + box[i]))
            H.check('no wider and no higher than the box', H.le(max(xs) - min(xs), box[i]))
        dr = [v for k, v in H.inputs.items() if k.startswith('rnd')]
        if len(set(round(v / b, 6) for b in box for v in dr)) == len(dr) * (1 if box[0] == box[1] else 2):
            sc = 1 + box[0] * box[1]
            H.check('convex', H.and_(*[H.ge(orient(r[j - 2], r[j - 1], r[j]), 0, sc) for j in range(n)]))
        return
    ghost = dict(chains=[])
    H.use(Drawn())
    H.loops(CG + 'generate_convex_polygon', Chains(ghost), Lay(ghost, n), Shift(ghost))
    r = call()
    H.check('as many vertices as asked for', H.eq(r.n, n))
    a, b = H.int('a', 0), H.int('b', 0)
    H.assume(H.and_(H.lt(a, n), H.lt(b, n)))
    H.check('steps laid end to end', 'P' in ghost and len(H.path.sums) == 2, 'induction')
    nr = H.to_real(n)
    for i in (0, 1):
        src, part, S = H.path.sums[i]
        m = H.div(H.sum_of(S, src.n), nr)
        H.check('centred at the origin: every corner is moved by minus the mean', H.and_(part == i, H.eq(src.n, n), H.eq(r.at(a)[i], src.at(a)[i] - m)))
        c = ghost['chains'][i]
        pool, Pf, Nf = c['pool'], ghost['P'][i], ghost['N'][i]
        up, down = c['totals']
        H.assume(H.and_(H.eq(Pf(0), 0), H.eq(Nf(0), 0), H.eq(Pf(n), up), H.eq(Nf(n), down)))
        for u, v in ((0, a), (0, b), (a, b), (b, a), (a, n), (b, n)):       # lemma: partial sums of such numbers ascend
            H.assume(H.imp(H.le(u, v), H.and_(H.le(Pf(u), Pf(v)), H.ge(Nf(u), Nf(v)))))
        H.inst2(0, n - 1)
        H.inst2(n - 2, n - 1)
        lo, hi = pool.at(0), pool.at(n - 1)
        H.lemma('the numbers drawn are within the box', H.and_(H.le(0, lo), H.le(hi, box[i])))
        H.lemma('the steps up add up to the spread of the numbers', H.eq(up, hi - lo))
        H.lemma('the steps down as well', H.eq(down, lo - hi))
        H.check('no wider and no higher than the box', H.le(r.at(a)[i] - r.at(b)[i], box[i]))


@unit('P21', 'lemma: partial sums of numbers of one sign ascend or descend', [], concrete=False)
def lemma_ascend(H):
    Pj, Pk, v = H.real('Pj'), H.real('Pk'), H.real('v', nonneg=True)
    H.assume(H.le(Pj, Pk))
    H.check('step of the induction', H.and_(H.le(Pj, Pk + v), H.ge(-Pj, -Pk - v)))


@unit('P21', 'lemma: corners minus their mean have mean zero', [], concrete=False)
def lemma_mean(H):
    """partial sums: W(j) = Q(j) - j m; with m n = Q(n) the whole sum W(n) is zero"""
    Q, q, m, n, j = (H.real(x) for x in 'Qqmnj')
    H.check('step', H.eq((Q - j * m) + (q - m), (Q + q) - (j + 1) * m))
    H.assume(H.eq(m * n, Q))
    H.check('whole sum', H.eq(Q - n * m, 0))
