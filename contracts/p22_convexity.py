"""P22: convexity of polygons."""
from pydv.contract import unit
from .common import *
try:
    from pydv.rt import LoopSpec
except ImportError:
    LoopSpec = object

PL = 'obstacles.polygon.Polygon.'
OB = 'obstacles.obstacle.Obstacle.'
THR = 1e-10


class FirstTurn(LoopSpec):
    """looking for a vertex that turns: it is not past the ghost vertex a, which does"""
    def __init__(self, a, spec):
        self.a, self.spec = a, spec

    def ints(self, L):
        return [v for v in L.assigned if isinstance(L.locals.get(v), int) or type(L.locals.get(v)).__name__ == 'I']

    def havoc(self, H, L, st):
        self.v = self.ints(L)
        return {v: H.fresh_int(v) for v in self.v}

    def inv(self, H, L, st, k):
        vs = getattr(self, 'v', None) or self.ints(L)
        for v in vs:
            self.spec(st[v])                 # what the polygon is assumed to do at this vertex
        return [('not past a turning vertex', H.and_(*[H.and_(H.le(0, st[v]), H.le(st[v], self.a)) for v in vs]))]

    def variant(self, H, L, st):
        return self.a - st[self.v[0]] if len(self.v) == 1 else None


class Turn:
    """contracts of the orientation predicates (proved under P10) over one opaque turn of three points"""
    def __init__(self, name):
        self.name, self.qual = name, 'utils.cg.' + name

    def check_pre(self, H, a):
        pass

    def result(self, H, a):
        p = list(a.values())
        o = turn_of(H, *p)
        xs = [x for q in p for x in (q[0], q[1])]
        cw, ccw = H.pred('cw', xs), H.pred('ccw', xs)
        H.assume(H.and_(H.not_(H.and_(cw, ccw)), H.imp(cw, H.lt(o, 0)), H.imp(ccw, H.gt(o, 0)),
                        H.imp(H.lt(o, -2 * THR), cw), H.imp(H.gt(o, 2 * THR), ccw)))
        r = {'is_cw': cw, 'is_ccw': ccw, 'is_collinear': H.not_(H.or_(cw, ccw))}[self.name]
        return H.boolean(r)


def turn_of(H, a, b, c):
    return H.func('turn', [x for q in (a, b, c) for x in (q[0], q[1])])


def turn(H, W, N, j):
    """twice the signed area at vertex j: positive where the boundary turns to the left"""
    p = H.at(W, H.ifi(H.eq(j, 0), N - 1, j - 1))
    n = H.at(W, H.ifi(H.eq(j, N - 1), 0, j + 1))
    return turn_of(H, p, H.at(W, j), n)


def build(H, g, star, kw):
    O = H.mod('obstacles')
    return O.StarshapedPolygon(g, xr=[0., 0.], id='temp', **kw) if star else O.Polygon(g, id='temp', **kw)


def query(H, o, want):
    """both queries, in any order and repeatedly"""
    for q in H.choose('queries', ['cc', 'sc', 'cs', 's']):
        H.check('reported convex exactly when it never turns outwards', bool(o.is_convex() if q == 'c' else o.is_starshaped()) == want if q == 'c' or want else True)


def run(H, convex):
    star = H.choose('class', [False, True])
    if not H.sym:
        return concrete(H, star)
    g = H.abs_polygon()
    W, N = g.verts, g.n
    o = build(H, g, star, {})
    # geometry: a polygon given counterclockwise turns left at three vertices at least
    t = [H.int('turning', 0) for _ in range(3)]
    H.assume(H.and_(H.lt(t[0], t[1]), H.lt(t[1], t[2]), H.lt(t[2], N)))
    for a in t:
        H.assume(H.gt(turn(H, W, N, a), 2 * THR))
    if convex:
        def found(s):
            H.assume(H.imp(H.and_(H.le(0, s), H.lt(s, N)), H.ge(turn(H, W, N, s), 0)))
    else:
        j = H.int('outward', 0)
        H.assume(H.lt(j, N))
        H.assume(H.lt(turn(H, W, N, j), -2 * THR))
        def found(s):
            pass
    H.on_search(found)
    for n in ('is_cw', 'is_ccw', 'is_collinear'):
        H.use(Turn(n))
    H.loops(PL + '_check_convexity', FirstTurn(t[0], found))
    H.at_search(t + ([] if convex else [j]))
    query(H, o, convex)


unit('P22', 'a polygon that never turns outwards is convex', [PL + '_check_convexity', OB + 'is_convex', OB + 'is_starshaped'],
     assumes=['a simple polygon given counterclockwise turns left at three vertices at least (geometry)',
              "shapely's orient gives the counterclockwise boundary"])(lambda H: run(H, True))
unit('P22', 'a polygon that turns outwards somewhere is not convex', [PL + '_check_convexity', OB + 'is_convex', OB + 'is_starshaped'],
     assumes=['a simple polygon given counterclockwise turns left at three vertices at least (geometry)',
              "shapely's orient gives the counterclockwise boundary"])(lambda H: run(H, False))


def concrete(H, star):
    g = [list(map(float, p)) for p in H.data('shape', rand_polygon)]
    if area2(g) < 0 and H.choose('orientation', [True, False]):
        g.reverse()
    s = H.int('start', 0, len(g) - 1)
    g = g[s:] + g[:s]
    if H.choose('collinear vertex', [False, True]):
        i = H.int('where', 0, len(g) - 1)
        a, b = g[i], g[(i + 1) % len(g)]
        g.insert(i + 1, [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2])
    sg = 1 if area2(g) > 0 else -1
    m = len(g)
    ts = [sg * orient(g[k - 1], g[k], g[(k + 1) % m]) for k in range(m)]
    H.assume(all(abs(t) > 1e-6 or abs(t) < 1e-13 for t in ts))
    o = build(H, g, star, {})
    query(H, o, all(t > -1e-9 for t in ts))
