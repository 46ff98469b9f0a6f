"""P17: convex hull."""
from pydv.contract import unit
from .common import *
from .p11_cones import THR
try:
    from pydv.rt import LoopSpec
    from pydv.errors import OutOfReach
except ImportError:
    LoopSpec, OutOfReach = object, Exception

CG = 'utils.cg.'


def ints(L):
    """the index a search keeps"""
    vs = [v for v in L.assigned if v not in L.targets and (isinstance(L.locals.get(v), int) and not isinstance(L.locals.get(v), bool)
                                                         or type(L.locals.get(v)).__name__ == 'I')]
    if len(vs) != 1:
        raise OutOfReach('the search keeps %d indices' % len(vs))
    return vs[0]


TIE = [1]


def tie(cg):
    """which of several leftmost points the code starts at, the topmost (1) or the bottommost (-1): selects the invariant"""
    try:
        TIE[0] = 1 if cg.convex_hull([[0, 0], [0, 1], [1, 0]])[0][1] == 1 else -1
    except Exception:
        TIE[0] = 1


def first(H, a, b):
    """b does not come before a in the order of the start: leftmost, then topmost (or bottommost)"""
    return H.or_(H.gt(b[0], a[0]), H.and_(H.eq(b[0], a[0]), H.le(TIE[0] * b[1], TIE[0] * a[1])))


def edge(H, a, b, c):
    """c is left of the way from a to b, or on it and no farther than b"""
    o = orient(a, b, c)
    return H.and_(H.ge(o, 0), H.imp(H.eq(o, 0), H.le(d2(a, c), d2(a, b))))


def same(H, a, b):
    return H.and_(H.eq(a[0], b[0]), H.eq(a[1], b[1]))


def pointed(H, s, d):
    """direction d (a: along, b: to the left of the incoming direction) is in a half plane, one side of its border left out"""
    a, b = d
    return H.and_(H.ge(b, 0), H.imp(H.eq(b, 0), H.ge(s * a, 0)))


def cr(u, v): return u[0] * v[1] - u[1] * v[0]


def better(H, i, q):
    return H.or_(H.gt(cr(i, q), 0), H.and_(H.eq(cr(i, q), 0), H.gt(vdot(i, i), vdot(q, q))))


def beyond(H, q, j):
    return H.and_(H.ge(cr(q, j), 0), H.imp(H.eq(cr(q, j), 0), H.le(vdot(j, j), vdot(q, q))))


@unit('P17', 'lemma: the choice of the next point is an order', [], concrete=False)
def order(H):
    """i goes before q, q not after j: i not after j.  Coordinates along and to the left of the incoming direction"""
    i, q, j = H.vec('i'), H.vec('q'), H.vec('j')
    s = H.choose('side', [1, -1])
    H.assume(H.and_(pointed(H, s, i), pointed(H, s, q), pointed(H, s, j), better(H, i, q), beyond(H, q, j)))
    H.check('an order', beyond(H, i, j))


@unit('P17', 'lemma: a corner is not between two points', [], concrete=False)
def corner(H):
    u, a, v = H.vec('u'), H.vec('a'), H.vec('v')
    s = H.choose('side', [1, -1])
    H.assume(H.or_(H.ne(u[0], 0), H.ne(u[1], 0)))
    H.assume(H.and_(*[pointed(H, s, [vdot(u, w), cr(u, w)]) for w in (a, v)]))
    H.check('not opposite', H.not_(H.and_(H.eq(cr(a, v), 0), H.lt(vdot(a, v), 0))))


class Scene:
    """ghost state of one run: an arbitrary point J of the list, arbitrary positions m < m2 of the hull; the state of the
    walk at the head of its loop: hull h[0..k-1], current point p, not yet in the hull"""
    def __init__(self, H):
        self.H = H
        self.n = H.int('n', 1)
        self.pts = H.rows('pt', self.n)
        self.J, self.m, self.m2 = H.int('J', 0), H.int('m', 0), H.int('m2', 0)
        H.assume(H.and_(H.lt(self.J, self.n), H.lt(self.m, self.m2)))
        self.base = None

    def P(self, k):
        v = self.pts.at(k)
        return [v[0], v[1]]

    def listed(self, k):
        """a point of the list is a point of the list"""
        H = self.H
        H.assume(H.imp(H.and_(H.le(0, k), H.lt(k, self.n)), H.pred('listed', self.P(k))))

    def apart(self, a, b, c):
        """domain of the proof: exactly collinear or clearly not"""
        H = self.H
        o = orient(a, b, c)
        H.assume(H.or_(H.eq(o, 0), H.gt(o, 2 * THR), H.lt(o, -2 * THR)))

    # -- what holds at the head of the walk, at the point with index j and the positions i, i2
    def within(self, j):
        return self.H.and_(self.H.le(0, j), self.H.lt(j, self.n))

    def edges(self, i, j):
        H = self.H
        H.assume(H.imp(H.and_(H.le(0, i), H.lt(i + 1, self.k), self.within(j)), edge(H, self.h(i), self.h(i + 1), self.P(j))))

    def current(self, j):
        H = self.H
        H.assume(H.imp(H.and_(H.ge(self.k, 1), self.within(j)), edge(H, self.h(self.k - 1), self.P(self.base), self.P(j))))
        H.assume(H.imp(H.and_(H.eq(self.k, 0), self.within(j)), first(H, self.P(self.base), self.P(j))))
        H.assume(H.imp(H.and_(H.ge(self.k, 1), self.within(j)), first(H, self.h(0), self.P(j))))

    def new(self, i):
        H = self.H
        H.assume(H.imp(H.and_(H.le(0, i), H.lt(i, self.k)), H.not_(same(H, self.h(i), self.P(self.base)))))

    def distinct(self, i, i2):
        H = self.H
        H.assume(H.imp(H.and_(H.le(0, i), H.lt(i, i2), H.lt(i2, self.k)), H.not_(same(H, self.h(i), self.h(i2)))))

    def incoming(self):
        """(side, direction) that make the current point a corner"""
        H = self.H
        if H.decide(H.eq(self.k, 0)):
            return TIE[0], [0, -1], None
        self.new(self.k - 1)
        return -1, vsub(self.P(self.base), self.h(self.k - 1)), self.h(self.k - 1)

    def corner_at(self, name, s, u, c, prev, w):
        """the point with value w is in the half plane of the corner c (incoming from prev, or the start)"""
        H = self.H
        d = vsub(w, c)
        g = pointed(H, s, [vdot(u, d), cr(u, d)])
        H.by(name, g, [first(H, c, w)] if prev is None else [edge(H, prev, c, w)])
        return g


class Start(LoopSpec):
    """the index kept is the first of the points so far"""
    def __init__(self, S):
        self.S = S

    def match(self, L):
        return L.kind == 'for' and self.S.base is None

    def havoc(self, H, L, st):
        return {ints(L): H.fresh_int('start')}

    def inv(self, H, L, st, k):
        S, v = self.S, st[ints(L)]
        lo = L.iter[0] if isinstance(L.iter, range) and len(L.iter) else getattr(L.iter, 'a', 0)
        S.listed(v)
        return [('an index', S.within(v)),
                ('first of the points so far', H.imp(H.lt(S.J, k + lo), first(H, S.P(v), S.P(S.J))))]


class Next(LoopSpec):
    """all points so far are left of the way from p to q, or on it and no farther"""
    def __init__(self, S):
        self.S, self.q = S, None

    def match(self, L):
        return L.kind == 'for' and self.S.base is not None

    def havoc(self, H, L, st):
        self.q = H.fresh_int('q')
        self.head = True
        return {ints(L): self.q}

    def at_entry(self, H, L, st):
        self.q, self.head = None, False

    def done(self, H, j):
        """what the search has established when it is over, at the point with index j"""
        S = self.S
        H.assume(H.imp(H.and_(S.within(j), H.lt(j, self.k)), edge(H, S.P(S.base), S.P(self.q), S.P(j))))

    def inv(self, H, L, st, k):
        S, q = self.S, st[ints(L)]
        p, J = S.P(S.base), S.P(S.J)
        goal = edge(H, p, S.P(q), J)
        if self.head:                                  # assumed here
            self.head, self.k = False, k
            S.apart(p, S.P(k), S.P(q))
        elif self.q is not None:                       # to be preserved
            out = [('an index', S.within(q))]
            if q is self.q:                            # k is not before q
                here = H.decide(H.eq(S.J, k - 1))
                return out + [('the points so far are on the inner side', H.imp(H.lt(S.J, k), goal))]
            if not H.decide(H.lt(S.J, k)):
                return out
            H.lemma('the new candidate is the point looked at', H.eq(q, k - 1))
            if H.decide(H.eq(S.J, k - 1)):
                return out + [('the points so far are on the inner side', goal)]
            self.order(H, S, q, self.q)
            return out + [('the points so far are on the inner side', goal)]
        return [('an index', S.within(q)), ('the points so far are on the inner side', H.imp(H.lt(S.J, k), goal))]

    def order(self, H, S, i, q):
        """the lemma, in coordinates along and to the left of the incoming direction u"""
        p = S.P(S.base)
        for j in (S.J, i, q):
            S.current(j)
        s, u, prev = S.incoming()
        co = {}
        for nm, j in (('i', i), ('q', q), ('j', S.J)):
            S.corner_at('in the half plane of the corner', s, u, p, prev, S.P(j))
            d = vsub(S.P(j), p)
            v = H.fvec('coord')
            H.assume(H.and_(H.eq(v[0], vdot(u, d)), H.eq(v[1], cr(u, d))))     # names
            co[nm] = (v, d)
        D = H.fresh('scale')
        H.assume(H.eq(D, vdot(u, u)))
        H.by('the incoming direction is not zero', H.gt(D, 0), [H.eq(D, vdot(u, u)), H.or_(H.ne(u[0], 0), H.ne(u[1], 0))])
        for x, y in (('i', 'q'), ('q', 'j'), ('i', 'j')):
            c = cr(co[x][0], co[y][0])
            o = cr(co[x][1], co[y][1])
            H.by('cross product in coordinates', H.eq(c, D * o),
                 [H.eq(D, vdot(u, u))] + [H.and_(H.eq(co[z][0][0], vdot(u, co[z][1])), H.eq(co[z][0][1], cr(u, co[z][1]))) for z in (x, y)])
        for x in 'iqj':
            H.by('length in coordinates', H.eq(vdot(co[x][0], co[x][0]), D * vdot(co[x][1], co[x][1])),
                 [H.eq(D, vdot(u, u)), H.eq(co[x][0][0], vdot(u, co[x][1])), H.eq(co[x][0][1], cr(u, co[x][1]))])
        vi, vq, vj = [co[x][0] for x in 'iqj']
        di, dq, dj = [co[x][1] for x in 'iqj']
        sc = lambda x, y: H.eq(cr(co[x][0], co[y][0]), D * cr(co[x][1], co[y][1]))
        ln = lambda x: H.eq(vdot(co[x][0], co[x][0]), D * vdot(co[x][1], co[x][1]))
        ab = [cr(di, dq), cr(dq, dj), cr(di, dj), vdot(di, di), vdot(dq, dq), vdot(dj, dj)]
        H.lemma('the new candidate goes before', better(H, di, dq))
        H.lemma('the old one did not go after', beyond(H, dq, dj))
        H.by('before, in coordinates', better(H, vi, vq), [H.gt(D, 0), better(H, di, dq), sc('i', 'q'), ln('i'), ln('q')], ab)
        H.by('not after, in coordinates', beyond(H, vq, vj), [H.gt(D, 0), beyond(H, dq, dj), sc('q', 'j'), ln('q'), ln('j')], ab)
        H.by('an order (lemma)', beyond(H, vi, vj), [pointed(H, s, v) for v in (vi, vq, vj)] + [better(H, vi, vq), beyond(H, vq, vj)])
        H.by('back', beyond(H, di, dj), [H.gt(D, 0), beyond(H, vi, vj), sc('i', 'j'), ln('i'), ln('j')], ab)


class Wrap(LoopSpec):
    """the hull so far: points of the list, all different, every edge with all points on its inner side, and the same for
    the way to the current point, which is not in the hull yet"""
    def __init__(self, S):
        self.S, self.h = S, None

    def match(self, L):
        return L.kind == 'while'

    def havoc(self, H, L, st):
        S = self.S
        hs = [v for v in sorted(set(L.roots) | set(L.assigned)) if isinstance(L.locals.get(v), list)]
        if len(hs) != 1:
            raise OutOfReach('the walk keeps more than the hull and the current index')
        self.h, self.p = hs[0], ints(L)
        S.k = H.fresh_int('len')
        H.assume(H.ge(S.k, 0))
        S.idx = H.intfunc('idx')

        def at(i):
            j = S.idx(i)
            H.assume(H.imp(H.and_(H.le(0, i), H.lt(i, S.k)), S.within(j)))
            S.listed(j)
            return S.P(j)
        S.h = at
        S.base = H.fresh_int('p')
        self.head = True
        return {self.h: H.seq(S.k, at), self.p: S.base}

    def inv(self, H, L, st, k):
        S = self.S
        if self.h is None:
            p = st[ints(L)]
            for v in set(L.roots) | set(L.assigned):
                if isinstance(L.locals.get(v), list) and L.locals[v]:
                    raise OutOfReach('the walk starts with a hull')
            return [('an index', S.within(p)), ('starts at the first point', first(H, S.P(p), S.P(S.J)))]
        if self.head:
            self.head = False
            H.note('distinct points of a list of n points are at most n (pigeonhole)')
            H.assume(H.and_(S.within(S.base), H.lt(S.k, S.n)))
            S.listed(S.base)
            S.edges(S.m, S.J)
            S.current(S.J)
            S.new(S.m)
            S.distinct(S.m, S.m2)
            return []
        h, p = st[self.h], st[self.p]
        H.inst(S.m, S.m2)
        n = h.n
        H.lemma('one point more', H.eq(n, S.k + 1))
        out = [('an index', S.within(p))]
        inner = edge(H, S.P(S.base), S.P(p), S.P(S.J))
        if not H.decide(H.lt(S.m, n)):
            return out + [('all points are on the inner side of the way to the current point', inner)]
        el = h.at(S.m)
        new = H.decide(H.eq(S.m, S.k))
        out.append(('hull points are points of the list', H.pred('listed', [el[0], el[1]])))
        out.append(('the current point is not in the hull', H.not_(same(H, el, S.P(p)))))
        out.append(('starts at the first point', H.imp(H.eq(S.m, 0), first(H, el, S.P(S.J)))))
        out.append(('all points are on the inner side of the edge', edge(H, el, S.P(p) if new else h.at(S.m + 1), S.P(S.J))))
        if H.decide(H.lt(S.m2, n)):
            out.append(('different points', H.not_(same(H, el, h.at(S.m2)))))
        return out

    def variant(self, H, L, st):
        return self.S.n - st[self.h].n


@unit('P17', 'any number of points', [CG + 'convex_hull', CG + 'is_ccw', CG + 'is_cw', CG + 'orientation_val'])
def hull(H):
    cg = H.mod('utils.cg')
    if not H.sym:
        return concrete(H, cg)
    tie(cg)
    S = Scene(H)
    H.note('orientation predicates: every three points are exactly collinear or their orientation is above the threshold 1e-10')
    found = []
    H.on_search(found.append)
    nxt = Next(S)
    H.loops(CG + 'convex_hull', Wrap(S), Start(S), nxt)
    r = cg.convex_hull(S.pts)
    if not hasattr(r, 'n') or S.base is None or nxt.q is None:
        raise OutOfReach('the hull is not built by the walk')
    n, k, p, q, J = r.n, S.k, S.P(S.base), S.P(nxt.q), S.P(S.J)
    H.lemma('one point more', H.eq(n, k + 1))
    for m in (S.m, S.m2):
        H.assume(H.lt(m, n))
    # the walk ends at the point of the hull where it began
    w = found[-1] if found else 0
    H.lemma('back at a point of the hull', H.and_(H.le(0, w), H.lt(w, n), same(H, r.at(w), q)))
    if H.decide(H.eq(w, k)):
        nxt.done(H, S.J)
        H.by('one place only', same(H, J, p), [edge(H, p, q, J), same(H, p, q)])
        if H.decide(H.ge(k, 1)):
            nxt.done(H, S.idx(0))
            S.new(0)
            H.by('one place only', same(H, S.h(0), p), [edge(H, p, q, S.h(0)), same(H, p, q)])
            H.check('there is no other hull point', H.F)
            return
        H.lemma('one hull point', H.and_(H.eq(S.m, 0), H.eq(n, 1)))
        H.check('hull point is a point of the list', H.pred('listed', list(r.at(0))))
        H.check('starts at the leftmost point', H.le(r.at(0)[0], J[0]))
        H.check('every point is the hull point', same(H, J, r.at(0)))
        return
    if H.decide(H.ge(w, 1)):
        H.lemma('an inner position', H.lt(w, k))
        ends_early(H, S, nxt, w)
        return
    el = r.at(S.m)
    H.check('hull points are points of the list', H.pred('listed', list(el)))
    H.check('starts at the leftmost point', H.le(r.at(0)[0], J[0]))
    H.check('different hull points', H.not_(same(H, el, r.at(S.m2))))
    last = H.decide(H.eq(S.m, k))
    nx = r.at(0) if last else r.at(S.m + 1)
    H.check('every point is on the inner side of every edge, and no farther on it', edge(H, el, nx, J))


def ends_early(H, S, nxt, w):
    """back at a point that is not the first: impossible.  Two edges a-v and b-v end there; a, b and v are on a line, and
    one of the corners a and b is between the other and v"""
    k, p = S.k, S.base
    ia, iv = S.idx(w - 1), S.idx(w)
    a, v, b = S.h(w - 1), S.h(w), S.P(p)
    S.new(w)
    S.new(w - 1)
    S.new(k - 1)
    S.distinct(w - 1, w)
    S.edges(w - 1, p)
    nxt.done(H, ia)
    H.lemma('all points left of both edges', H.and_(edge(H, a, v, b), edge(H, b, v, a), H.not_(same(H, a, b)), H.not_(same(H, a, v)), H.not_(same(H, b, v))))
    H.by('on a line', H.eq(orient(a, v, b), 0), [edge(H, a, v, b), edge(H, b, v, a)])
    H.lemma('distances', H.and_(H.le(d2(a, b), d2(a, v)), H.le(d2(a, b), d2(b, v))))
    ab = lambda x, y, z: H.lt(vdot(vsub(y, x), vsub(z, x)), 0)
    H.by('one is between', H.or_(ab(b, a, v), ab(a, b, v)), [H.eq(orient(a, v, b), 0), H.le(d2(a, b), d2(a, v)), H.le(d2(a, b), d2(b, v)),
                                                            H.not_(same(H, a, b)), H.not_(same(H, a, v))])
    if H.decide(ab(b, a, v)):
        S.current(ia)
        S.current(iv)
        u = vsub(b, S.h(k - 1))
        no_corner(H, S, -1, u, b, S.h(k - 1), a, v)
        return
    if H.decide(H.ge(w, 2)):
        S.edges(w - 2, p)
        S.edges(w - 2, iv)
        S.distinct(w - 2, w - 1)
        no_corner(H, S, -1, vsub(a, S.h(w - 2)), a, S.h(w - 2), b, v)
        return
    S.current(p)
    S.current(iv)
    H.lemma('second', H.eq(w, 1))
    no_corner(H, S, TIE[0], [0, -1], a, None, b, v)


def no_corner(H, S, s, u, c, prev, x, y):
    """c is a corner: x and y are not on opposite sides"""
    g = [S.corner_at('in the half plane of the corner', s, u, c, prev, z) for z in (x, y)]
    H.by('not opposite (lemma)', H.F, g + [H.or_(H.ne(u[0], 0), H.ne(u[1], 0)), H.eq(cr(vsub(x, c), vsub(y, c)), 0), H.lt(vdot(vsub(x, c), vsub(y, c)), 0)])


def concrete(H, cg):
    r = H.aux
    n = H.int('n', 1, 9)
    kind = H.choose('kind', ['grid', 'plane', 'line', 'same'])
    pts = [[float(r.randint(-2, 2)), float(r.randint(-2, 2))] if kind == 'grid' else [r.uniform(-9, 9), r.uniform(-9, 9)] for _ in range(n)]
    if kind == 'line':
        u, o = [r.randint(-2, 2), r.randint(-2, 2)], pts[0]
        pts = [[float(round(o[0])) + u[0] * t, float(round(o[1])) + u[1] * t] for t in [r.randint(-4, 4) for _ in pts]]
    if H.choose('scale', [1, 1, 1e-6]) != 1:
        pts = [[1e-6 * v for v in p] for p in pts]
    if kind == 'same':
        pts = [pts[0]] * n
    import numpy as np
    form = H.choose('form', ['array', 'list'])
    h = cg.convex_hull(np.array(pts) if form == 'array' else [list(p) for p in pts])
    H.check('a hull', len(h) >= 1)
    H.check('points of the list', all(any(p[0] == q[0] and p[1] == q[1] for q in pts) for p in h))
    H.check('starts at the leftmost', all(p[0] >= h[0][0] for p in pts))
    m = len(h)
    H.check('all points on the inner side of every edge', all(orient(h[i], h[(i + 1) % m], p) >= -1e-9 for i in range(m) for p in pts))
    if m == 1:
        H.check('one point only when all points are the same', all(p[0] == h[0][0] and p[1] == h[0][1] for p in pts))
    else:
        # encloses: also beyond the ends of a hull of two points
        H.check('nothing beyond a corner', all(d2(h[i], p) <= max(d2(h[i], q) for q in h) + 1e-9 for i in range(m) for p in pts))
