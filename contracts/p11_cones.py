"""P11: cones."""
from pydv.contract import unit
from .common import *
from .common import _same
try:
    from pydv.rt import LoopSpec
except ImportError:                       # the interpreter of the real code has no solver
    LoopSpec = object

CG = 'utils.cg.'
CN = CG + 'Cone.'
THR = 1e-10


def clear(H, c):
    """a cross product is zero or clearly not (the orientation threshold is not in between)"""
    return H.or_(H.eq(c, 0), H.gt(c, 2 * THR), H.lt(c, -2 * THR))


def inside(H, d1, d2, v):
    """spec, by cross products: direction v is counterclockwise between d1 and d2"""
    narrow = H.and_(H.gt(vcross(d1, v), 0), H.gt(vcross(v, d2), 0))
    outside = H.and_(H.ge(vcross(d2, v), 0), H.ge(vcross(v, d1), 0))
    return H.and_(H.imp(H.gt(vcross(d1, d2), 0), narrow), H.imp(H.lt(vcross(d1, d2), 0), H.not_(outside)),
                  H.imp(H.eq(vcross(d1, d2), 0), H.gt(vcross(d1, v), 0)))


def inside_iff(H, d1, d2, v):
    narrow = H.and_(H.gt(vcross(d1, v), 0), H.gt(vcross(v, d2), 0))
    wide = H.not_(H.and_(H.ge(vcross(d2, v), 0), H.ge(vcross(v, d1), 0)))
    c = vcross(d1, d2)
    return H.or_(H.and_(H.gt(c, 0), narrow), H.and_(H.lt(c, 0), wide), H.and_(H.eq(c, 0), H.gt(vcross(d1, v), 0)))


def off_ray(H, d, v):
    """v does not point along d"""
    return H.or_(H.ne(vcross(d, v), 0), H.lt(vdot(d, v), 0))


def ivec(H, name):
    """a direction: any vector but zero"""
    if H.sym:
        d = H.vec(name)
    else:
        import numpy as np
        r = H.aux
        k = r.random()
        old = H.__dict__.setdefault('_old', [])
        if old and k < .35:
            e = old[r.randrange(len(old))]
            d = np.array(e) * r.choice([-1., -2., 1., 3., .5])
        elif k < .7:
            d = np.array([float(r.randint(-3, 3)), float(r.randint(-3, 3))])
        else:
            d = np.array([r.uniform(-3, 3), r.uniform(-3, 3)])
        old.append(d)
    H.assume(H.or_(H.ne(d[0], 0), H.ne(d[1], 0)))
    return d


@unit('P11', 'membership', [CN + 'point_in_cone', CN + '__init__'])
def membership(H):
    cg = H.mod('utils.cg')
    ap = H.vec('apex')
    d1, d2 = ivec(H, 'd1'), ivec(H, 'd2')
    v = ivec(H, 'v')
    for a, b in ((d1, d2), (d1, v), (d2, v)):
        H.assume(clear(H, vcross(a, b)) if H.sym else (abs(vcross(a, b)) < 1e-13 or abs(vcross(a, b)) > 1e-6))
    H.assume(H.and_(off_ray(H, d1, d2), off_ray(H, d1, v), off_ray(H, d2, v)))
    if not H.sym:
        ap = H.choose('apex', [ap * 0, ap, ap.round()])
        H.assume(all(abs(vcross(a, b)) > 1e-6 for a, b in ((d1, d2), (d1, v), (d2, v))) or not ap.any())
    form = H.choose('form', ['array', 'list', 'point'])
    mk = (lambda p: H.arr(p[0], p[1])) if form == 'array' else (lambda p: [p[0], p[1]])
    c = cg.Cone(mk(ap), mk(d1), mk(d2))
    x = [ap[0] + v[0], ap[1] + v[1]]
    r = c.point_in_cone(cg.Point(*x) if form == 'point' else mk(x))
    opposite = H.decide(H.eq(vcross(d1, d2), 0))
    H.check('in the cone exactly when between the directions', H.iff(bool(r), inside_iff(H, d1, d2, v)))
    H.check('apex and directions as given', H.and_(H.eqv(c.apex, ap), H.eqv(c.dir1, d1), H.eqv(c.dir2, d2)))


# ---------------------------------------------------------------- directions by their angles
class Angles:
    """contract of the orientation predicates (proved below), read at directions with known angles"""
    def __init__(self, H, dirs):
        self.H, self.dirs = H, []
        for d in dirs:
            self.add(d)

    def add(self, d):
        H = self.H
        th = H.real('angle')
        H.assume(H.and_(H.lt(-H.pi, th), H.le(th, H.pi)))
        for e, o in self.dirs:
            H.assume(H.and_(H.imp(H.eq(th, o), H.gt(vdot(d, e), 0)),
                            H.imp(H.or_(H.eq(th, o + H.pi), H.eq(th, o - H.pi)), H.lt(vdot(d, e), 0))))
        self.dirs.append((d, th))
        return th

    def of(self, d):
        from pydv.errors import OutOfReach
        for e, th in self.dirs:
            if all(_same(a, b) for a, b in zip(d, e)):
                return th
        raise OutOfReach('orientation of an unknown direction')

    def turn(self, u, v):
        """(turns left, turns right, neither)"""
        H = self.H
        d = self.of(v) - self.of(u)
        pi = H.pi
        left = H.or_(H.and_(H.gt(d, 0), H.lt(d, pi)), H.lt(d, -pi))
        right = H.or_(H.and_(H.lt(d, 0), H.gt(d, -pi)), H.gt(d, pi))
        return left, right, H.or_(H.eq(d, 0), H.eq(d, pi), H.eq(d, -pi))

    def inside(self, d1, d2, v):
        """counterclockwise between"""
        H = self.H
        a, b, x = self.of(d1), self.of(d2), self.of(v)
        return H.or_(H.and_(H.lt(a, b), H.lt(a, x), H.lt(x, b)), H.and_(H.gt(a, b), H.or_(H.gt(x, a), H.lt(x, b))))


class Turn:
    """the sign of the turn between two known directions, and its distance from the threshold"""
    qual = CG + 'orientation_val'

    def __init__(self, ang):
        self.ang, self.memo = ang, []

    def check_pre(self, H, a):
        pass

    def result(self, H, a):
        p = [a[k] for k in list(a)[:3]]
        u = [p[1][0] - p[0][0], p[1][1] - p[0][1]]
        v = [p[2][0] - p[0][0], p[2][1] - p[0][1]]
        a, b = self.ang.of(u), self.ang.of(v)
        for x, y, r in self.memo:
            if _same(x, a) and _same(y, b):
                return r
            if _same(x, b) and _same(y, a):
                return -r
        r = H.fresh('turn')
        left, right, col = self.ang.turn(u, v)
        H.assume(H.and_(H.imp(left, H.lt(r, -2 * THR)), H.imp(right, H.gt(r, 2 * THR)), H.imp(col, H.eq(r, 0))))
        self.memo.append((a, b, r))
        return r


def use_angles(H, ang):
    H.use(Turn(ang))


@unit('P11', 'turn at directions with known angles', [CG + 'orientation_val'], concrete=False)
def turn_contract(H):
    """the contract of orientation_val that the next units use follows from its code"""
    cg = H.mod('utils.cg')
    ap = H.vec('apex')
    u, v = ivec(H, 'u'), ivec(H, 'v')
    H.assume(clear(H, vcross(u, v)))
    H.angle_pairs(False)
    a, b = H.atan2(u[1], u[0]), H.atan2(v[1], v[0])
    H.relate(a, b)
    r = cg.orientation_val(ap, H.arr(ap[0] + u[0], ap[1] + u[1]), H.arr(ap[0] + v[0], ap[1] + v[1]))
    d, pi = b - a, H.pi
    left = H.or_(H.and_(H.gt(d, 0), H.lt(d, pi)), H.lt(d, -pi))
    right = H.or_(H.and_(H.lt(d, 0), H.gt(d, -pi)), H.gt(d, pi))
    col = H.or_(H.eq(d, 0), H.eq(d, pi), H.eq(d, -pi))
    H.assume(H.and_(H.lt(-pi, a), H.le(a, pi), H.lt(-pi, b), H.le(b, pi)))
    w = H.choose('which', ['left', 'right', 'collinear', 'same', 'opposite'])
    if w == 'left':
        H.check('turns left', H.imp(left, H.lt(r, -2 * THR)))
    elif w == 'right':
        H.check('turns right', H.imp(right, H.gt(r, 2 * THR)))
    elif w == 'collinear':
        H.check('same or opposite', H.imp(col, H.eq(r, 0)))
    elif w == 'same':
        H.check('equal angles: positive dot product', H.imp(H.eq(d, 0), H.gt(vdot(u, v), 0)))
    else:
        H.lemma('Lagrange', H.eq(sq(vcross(u, v)) + sq(vdot(u, v)), vdot(u, u) * vdot(v, v)))
        H.check('opposite angles: negative dot product', H.imp(H.or_(H.eq(d, pi), H.eq(d, -pi)), H.lt(vdot(u, v), 0)))


@unit('P11', 'membership by angles', [], concrete=False)
def angle_spec(H):
    """the two formulations of the specification agree"""
    d1, d2, v = ivec(H, 'd1'), ivec(H, 'd2'), ivec(H, 'v')
    ang = Angles(H, [d1, d2, v])
    cr = {}
    for n, (a, b) in dict(d12=(d1, d2), d1v=(d1, v), d2v=(d2, v)).items():
        l, r, c = ang.turn(a, b)
        cr[n] = x = H.real('cross')
        H.assume(H.and_(H.iff(l, H.gt(x, 0)), H.iff(r, H.lt(x, 0)), H.iff(c, H.eq(x, 0))))
    t = [ang.of(d) for d in (d1, d2, v)]
    H.assume(H.and_(H.ne(t[0], t[1]), H.ne(t[0], t[2]), H.ne(t[1], t[2])))
    byc = H.or_(H.and_(H.gt(cr['d12'], 0), H.gt(cr['d1v'], 0), H.lt(cr['d2v'], 0)),
                H.and_(H.lt(cr['d12'], 0), H.not_(H.and_(H.ge(cr['d2v'], 0), H.le(cr['d1v'], 0)))),
                H.and_(H.eq(cr['d12'], 0), H.gt(cr['d1v'], 0)))
    H.check('same membership', H.iff(byc, ang.inside(d1, d2, v)))


@unit('P11', 'intersection of two cones with the same apex', [CN + 'intersection_same_apex', CN + 'point_in_cone', CN + '__init__'])
def same_apex(H):
    cg = H.mod('utils.cg')
    ap = H.vec('apex')
    a1, a2, b1, b2, v = [ivec(H, n) for n in ('a1', 'a2', 'b1', 'b2', 'v')]
    if H.sym:
        ang = Angles(H, [a1, a2, b1, b2, v])
        H.note('orientation predicates: every two directions are exactly collinear or their cross product is above the threshold 1e-10')
        use_angles(H, ang)
        t = [ang.of(d) for d in (a1, a2, b1, b2, v)]
        H.assume(H.and_(H.ne(t[0], t[1]), H.ne(t[2], t[3]), *[H.ne(t[4], o) for o in t[:4]]))
        ins = ang.inside
    else:
        import itertools
        if H.choose('at', ['origin', 'else']) == 'origin':
            ap = ap * 0
        ds = [a1, a2, b1, b2, v]
        for x, y in itertools.combinations(ds, 2):
            H.assume(abs(vcross(x, y)) > 1e-6 or abs(vcross(x, y)) < 1e-13 and (not ap.any()))
        H.assume(H.and_(off_ray(H, a1, a2), off_ray(H, b1, b2), *[off_ray(H, d, v) for d in ds[:4]]))
        ins = lambda d1, d2, x: inside_iff(H, d1, d2, x)
    A, B = cg.Cone(ap, a1, a2), cg.Cone(ap, b1, b2)
    R = A.intersection_same_apex(B)
    got = [ins(c.dir1, c.dir2, v) for c in R]
    for c in R:
        H.check('part has the same apex', H.eqv(c.apex, ap))
        H.check('part has two different directions',
                H.ne(ang.of(c.dir1), ang.of(c.dir2)) if H.sym else off_ray(H, c.dir1, c.dir2))
    both = H.and_(ins(a1, a2, v), ins(b1, b2, v))
    H.check('a direction is in the result exactly when it is in both cones', H.iff(H.or_(*got) if got else H.F, both))
    H.check('the cones themselves stay as they were', H.and_(H.eqv(A.dir1, a1), H.eqv(A.dir2, a2), H.eqv(B.dir1, b1), H.eqv(B.dir2, b2),
                                                              H.eqv(A.apex, ap), H.eqv(B.apex, ap)))


# ---------------------------------------------------------------- any number of cones
def has(c):
    """does the ghost cone or set contain the direction the proof is about?"""
    from pydv.shshim import SetOp
    if 'has' in c.__dict__:
        return c.has
    if isinstance(c, SetOp) and c.op == 'union':
        return any_of(_H[0], c.args)
    if getattr(c, 'data', {}).get('empty') or getattr(c, 'verts', None) == []:
        return _H[0].F
    from pydv.errors import OutOfReach
    raise OutOfReach('membership of an unknown set')


_H = [None]


def _bag_class():
    from pydv.seq import Seq

    class Bag(Seq):
        """list of any number of ghost cones; pre(k): one of the first k contains the direction"""
        def __init__(self, H, mk):
            self.H, self.mk = H, mk
            self.f, self.p = H.boolfunc('has'), H.boolfunc('pre')
            self.m = H.fresh_int('len')
            H.assume(H.ge(self.m, 0))
            self.some, w = H.fresh_bool('some'), H.fresh_int('wit')
            H.assume(H.iff(self.p(self.m), self.some))
            H.assume(H.not_(self.p(0)))
            H.assume(H.imp(self.some, H.and_(H.le(0, w), H.lt(w, self.m), self.f(w))))
            H.path.__dict__.setdefault('bag_wits', []).append(w)
            Seq.__init__(self, self.m, self.item, True)
            self.extra = []

        def item(self, k):
            H = self.H
            H.assume(H.imp(H.and_(H.le(0, k), H.lt(k, self.m)), H.imp(self.f(k), self.some)))
            self.step(k)
            return self.mk(self.f(k))

        def step(self, k):
            H = self.H
            H.assume(H.imp(H.and_(H.le(0, k), H.lt(k, self.m)), H.iff(self.p(k + 1), H.or_(self.p(k), self.f(k)))))

        def append(self, v):
            Seq.append(self, v)
            self.extra.append(v)

        def any(self):
            return self.H.or_(self.some, *[has(v) for v in self.extra])
    return Bag


def any_of(H, L):
    """does one of the cones or sets contain the direction?"""
    if isinstance(L, (list, tuple)):
        return H.or_(*[has(c) for c in L]) if L else H.F
    if hasattr(L, 'any') and hasattr(L, 'extra'):
        return L.any()
    b, w = H.fresh_bool('any'), H.fresh_int('wit')
    H.assume(H.imp(b, H.and_(H.le(0, w), H.lt(w, L.n))))
    e = has(L.at(w))
    H.assume(H.imp(b, e))
    ws = list(H.path.__dict__.get('bag_wits', []))
    H.path.__dict__.setdefault('bag_wits', []).append(w)
    for k in ws:
        H.assume(H.imp(H.and_(H.not_(b), H.le(0, k), H.lt(k, L.n)), H.not_(has(L.at(k)))))
        for fl in H.path.__dict__.get('flats', []):
            if fl.n is L.n or _same(fl.n, L.n):
                for j in (0, 1):
                    kk = fl.place(k, j)
                    H.assume(H.imp(H.and_(H.not_(b), H.le(0, kk), H.lt(kk, L.n)), H.not_(has(L.at(kk)))))
    return b


class Meet:
    """proved above: some part contains the direction exactly when both cones do"""
    qual = CN + 'intersection_same_apex'

    def __init__(self, mk):
        self.mk = mk

    def check_pre(self, H, a):
        pass

    def result(self, H, a):
        u, v = [has(x) for x in list(a.values())[:2]]
        n = H.choose('parts', [0, 1, 2])
        parts = [self.mk(H.fresh_bool('in')) for _ in range(n)]
        H.assume(H.iff(any_of(H, parts), H.and_(u, v)))
        return parts


class CutOff:
    """Cone.polygon (P12): the polygon contains the points of the cone"""
    qual = CN + 'polygon'

    def check_pre(self, H, a):
        pass

    def result(self, H, a):
        from pydv.shshim import Geo
        return region(H, has(a['self']))


def region(H, inside):
    g = H.abs_polygon(3)
    g.has = inside

    def meet(a, b):
        return region(H, H.and_(has(a), has(b)))
    g.data['intersection'] = meet
    return g


class Cones(LoopSpec):
    """a loop over cones that keeps lists of cones (or sets): what they contain is what the contract tracks"""
    def __init__(self, bag, pre):
        self.bag, self.pre = bag, pre

    def _vars(self, L):
        """lists of cones and sets that the loop changes"""
        return [v for v in sorted(set(L.assigned) | set(L.roots)) if v in L.locals and type(L.locals[v]).__name__ != 'Poison' and v not in L.targets and
                (isinstance(L.locals[v], list) or hasattr(L.locals[v], 'extra') or hasattr(L.locals[v], '_seq_') or hasattr(L.locals[v], 'has'))]

    def havoc(self, H, L, st):
        self.vars = self._vars(L)
        new = {}
        for v in self.vars:
            o = L.locals[v]
            new[v] = region(H, H.fresh_bool('set')) if hasattr(o, 'has') else self.bag(H)
        return new


class Outer(Cones):
    """the cones met so far: their intersection is what the lists hold"""
    def match(self, L):
        return not (hasattr(L.iter, 'it') or hasattr(L.iter, 'extra'))

    def inv(self, H, L, st, k):
        out = []
        for v in self._vars(L):
            x = st[v]
            s = has(x) if hasattr(x, 'has') else any_of(H, x)
            out.append(('holds the intersection of the cones so far', H.iff(s, self.pre(k + 1))))
        return out


class Inner(Cones):
    """the parts met so far with the next cone"""
    def match(self, L):
        b = L.iter.it if hasattr(L.iter, 'it') else L.iter
        return hasattr(b, 'extra') and not b.extra

    def at_entry(self, H, L, st):
        self.b = L.iter.it if hasattr(L.iter, 'it') else L.iter

    def inv(self, H, L, st, k):
        b = self.b
        return [('holds the parts met so far', H.iff(any_of(H, st[v]), H.and_(b.p(k), self.nxt(st)))) for v in self._vars(L)]

    def nxt(self, st):
        return self.pre.last[0]


@unit('P11', 'intersection of any number of cones with the same apex', [CN + 'list_intersection'])
def any_number(H):
    cg = H.mod('utils.cg')
    if not H.sym:
        return any_concrete(H, cg)
    _H[0] = H
    H.seq_unions()
    Bag = _bag_class()

    def mk(h):
        c = cg.Cone.__new__(cg.Cone)
        c.has = h
        return c
    n = H.int('n', 1)
    f, pre = H.boolfunc('cone'), H.boolfunc('all')
    pre.last = [None]
    H.assume(pre(0))

    def at(k):
        c = mk(f(k))
        H.assume(H.imp(H.and_(H.le(0, k), H.lt(k, n)), H.and_(H.iff(pre(k + 1), H.and_(pre(k), f(k))), H.imp(pre(n), pre(k + 1)))))
        pre.last[0] = f(k)
        return c
    cones = H.seq(n, at)
    same = H.choose('same apex', [True, False])
    H.use(Meet(mk))
    H.use(CutOff())
    bag = lambda H: Bag(H, mk)
    H.loops(CN + 'list_intersection', Inner(bag, pre), Outer(bag, pre))
    r = cg.Cone.list_intersection(cones, same_apex=same)
    H.check('contains a direction exactly when every one of the cones does', H.iff(has(r), pre(n)))


def any_concrete(H, cg):
    """random cones with a common apex; the directions are kept apart from the boundaries"""
    import math
    import numpy as np
    import shapely
    r = H.aux
    n = H.int('n', 1, 5)
    ap = np.array([0., 0.]) if r.random() < .5 else np.array([r.uniform(-5, 5), r.uniform(-5, 5)])
    same = True if r.random() < .8 else False
    deg = [r.randrange(0, 360, r.choice([15, 30, 45])) for _ in range(4)]
    cones, ang = [], []
    grid = not ap.any() and r.random() < .6
    for _ in range(n):
        if grid:
            a, b = [(r.randint(-1, 1), r.randint(-1, 1)) for _ in range(2)]
            H.assume(a != (0, 0) and b != (0, 0))
        else:
            p, q = r.choice(deg) + r.choice([0, 0, 7]), r.choice(deg) + r.choice([0, 0, 7])
            a, b = [(math.cos(math.radians(t)), math.sin(math.radians(t))) for t in (p, q)]
        u, v = math.atan2(a[1], a[0]), math.atan2(b[1], b[0])
        H.assume(abs(u - v) > 1e-3)
        cones.append(cg.Cone(ap, a, b))
        ang.append((u, v))
    t = math.radians(r.uniform(-179.9, 179.9))
    for u, v in ang:
        H.assume(all(abs(math.remainder(t - x, 2 * math.pi)) > .02 for x in (u, v)))
    inside = all(0 < (t - u) % (2 * math.pi) < (v - u) % (2 * math.pi) for u, v in ang)
    H.notes["cones"] = ([(list(map(float,c.dir1)),list(map(float,c.dir2))) for c in cones], list(ap), t, same)
    R = cg.Cone.list_intersection(cones, same_apex=same)
    d = r.choice([.5, 10., 1000.])
    x = shapely.geometry.Point(ap[0] + d * math.cos(t), ap[1] + d * math.sin(t))
    H.check('contains a direction exactly when every one of the cones does', R.contains(x) == inside)
