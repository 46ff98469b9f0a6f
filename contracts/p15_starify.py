"""P15: clustering and starifying."""
from pydv.contract import unit
from .common import *
try:
    import z3
    from pydv.rt import LoopSpec, SymDict, SymEnum, SymRange, Poison
    from pydv.errors import OutOfReach, PathEnd
    from pydv.seq import Seq
    from pydv.sym import I, B, R, iterm
    from pydv import shshim
    from pydv.symh import pterm
except ImportError:
    LoopSpec, OutOfReach, Seq = object, Exception, object

CS = 'starshaped_hull.cluster_and_starify.'
SH = 'starshaped_hull.starshaped_hull.'
MAIN = CS + 'cluster_and_starify'


# ------------------------------------------------------------------------------------------------ ghost objects
class Some:
    """a cone, kernel or set about which nothing is known"""
    def __init__(self, H):
        self.H = H

    def _new(self, *a, **k):
        return Some(self.H)
    intersection = difference = union = buffer = polygon = _new

    @property
    def area(self):
        return R(self.H.path.fresh_real('area'))

    @property
    def is_empty(self):
        return B(self.H.path.fresh_bool('empty'))

    @property
    def kernel_points(self):
        return self.H.arr(*self.H.fvec('kp'))

    @property
    def cluster_obstacle(self):
        return self

    def id(self):
        return self.H.fresh_int('id')

    @property
    def name(self):
        return Name(self.H, self.H.fresh_int('name'))


class Name:
    """the name of a cluster: the obstacles it is made of"""
    def __init__(self, H, code):
        self.H, self.code = H, code

    def __eq__(self, o):
        return B(pterm(self.H.eq(self.code, o.code)))

    __hash__ = None

    def __radd__(self, s):
        return str(s)

    def __add__(self, s):
        return str(s)

    def __str__(self):
        return 'name'


def polygon(S, pid):
    """a set known through 'intersects' only"""
    g = shshim.AbsPolygon()
    g.pid = pid
    g.data['intersects'] = S.meets
    n = S.H.fresh_int('corners')
    S.H.assume(S.H.ge(n, 3))
    g.verts = S.H.rows('corner', n)
    g.data['empty'] = False
    return g


class Shape:
    """an obstacle or the starshaped obstacle of a cluster: has a polygon"""
    def __init__(self, S, pid):
        self.S, self.poly = S, polygon(S, pid)

    def polygon(self):
        return self.poly

    def is_convex(self):
        return B(self.S.H.path.fresh_bool('convex'))

    def is_starshaped(self):
        return B(self.S.H.path.fresh_bool('starshaped'))

    def id(self):
        return self.S.H.fresh_int('id')

    def xr(self, *a, **k):
        return self.S.H.arr(*self.S.H.fvec('xr'))

    def set_xr(self, *a, **k):
        pass

    def kernel(self, *a, **k):
        return Some(self.S.H)


def to_shape(c, S, pol):
    """the object is a starshaped obstacle with this polygon"""
    g = Shape.__new__(Shape)
    g.S, g.poly = S, pol
    for nm in ('polygon', 'is_convex', 'is_starshaped', 'id', 'xr', 'set_xr', 'kernel'):
        c.__dict__[nm] = getattr(g, nm)


class Ob(Shape):
    def __init__(self, S, i):
        self.S, self.i = S, i
        self.poly = polygon(S, S.opid(i))

    def id(self):
        return self.i

    def point(self, k):
        p = Point()
        p.i, p.k = self.i, k
        return p

    def extreme_points(self, *a, **k):
        H = self.S.H
        n = H.fresh_int('extreme')
        H.assume(H.ge(n, 1))
        return H.seq(n, self.point)

    def exterior_point(self, x, *a, **k):
        return B(pterm(self.S.exterior(self.i, x.i, x.k)))


class Point:
    pass


# ------------------------------------------------------------------------------------------------ clusters
class Obstacles(Seq):
    """the obstacles of the cluster with this code"""
    def __init__(self, S, code):
        H = S.H
        n = S.size(code)
        H.assume(H.ge(n, 1))
        Seq.__init__(self, n, self.item)
        self.S, self.code = S, code

    def item(self, p):
        H, S = self.S.H, self.S
        i = S.owner(self.code, p)
        H.assume(H.imp(H.and_(H.le(0, p), H.lt(p, self.n)), H.and_(H.le(0, i), H.lt(i, S.n))))
        return Ob(S, i)

    def snapshot(self):
        return self

    def __setitem__(self, k, v):
        raise OutOfReach('the obstacles of a cluster are changed')
    append = __iadd__ = __setitem__


class CList(Seq):
    """a list of clusters; make(k): the cluster with index k, one object per index"""
    def __init__(self, S, n, make, w=None, store=None):
        self.S, self.n, self.is_list, self.over = S, n, True, []
        self.make, self.w, self.store = make, w, store if store is not None else []

    def snapshot(self):
        r = CList(self.S, self.n, self.make, self.w, self.store)
        r.over = list(self.over)
        return r

    def at(self, k):
        p = self.S.H.path
        kt = z3.simplify(iterm(k))

        def same(t):
            c = z3.simplify(t == kt)
            if z3.is_true(c) or z3.is_false(c):
                return z3.is_true(c)
            return True if p.forced(c) else False if p.forced(z3.Not(c)) else p.branch(c)
        for kind, w, v in reversed(self.over):
            if same(iterm(w)):
                return v
        for t, v in self.store:
            if same(t):
                return v
        v = self.make(I(kt))
        self.store.append((kt, v))
        return v

    def append(self, v):
        n = self.n
        self.n = I(z3.simplify(iterm(n) + 1))
        self.over.append(('idx', n, v))

    def __iadd__(self, o):
        if not isinstance(o, list):
            raise OutOfReach('clusters are added in another way')
        for v in o:
            self.append(v)
        return self


class Hist(SymDict if LoopSpec is not object else object):
    """clusters by name: each is the cluster of that name and has a shape"""
    def __init__(self, S):
        self.S, self.over, self.memo = S, [], []
        self.has = S.H.boolfunc('in_history')
        self.pid = S.H.intfunc('pid')

    def _own(self, key):
        for k, v in reversed(self.over):
            if self.S.H.decide(self.S.H.eq(k.code, key.code)):
                return v

    def __contains__(self, key):
        return self._own(key) is not None or self.S.H.decide(self.has(key.code))

    def __getitem__(self, key):
        H = self.S.H
        v = self._own(key)
        if v is not None:
            return v
        H.check('the cluster is in the history', self.has(key.code), 'definedness')
        for k, v in self.memo:
            if H.path.forced(pterm(H.eq(k, key.code))):
                return v
        v = self.S.cluster(key.code, Shape(self.S, self.pid(key.code)))
        self.memo.append((key.code, v))
        return v

    def get(self, key, d=None):
        return self[key] if key in self else d

    def __setitem__(self, key, v):
        self.over.append((key, v))


class Cones(SymDict if LoopSpec is not object else object):
    """a dictionary by obstacle: every obstacle has a value; those before upto have a cone, the others None"""
    def __init__(self, S, upto):
        self.S, self.upto, self.over = S, upto, []

    def _value(self, key):
        H = self.S.H
        return Some(H) if H.decide(H.lt(key, self.upto)) else None

    def __getitem__(self, key):
        H = self.S.H
        for k, v in reversed(self.over):
            if H.decide(H.eq(k, key)):
                return v
        H.check('the obstacle is in the dictionary', H.and_(H.le(0, key), H.lt(key, self.S.n)), 'definedness')
        return self._value(key)

    def __contains__(self, key):
        return self.S.H.decide(self.S.H.and_(self.S.H.le(0, key), self.S.H.lt(key, self.S.n)))


class Excluded(Cones):
    """by obstacle: a dictionary by other obstacle, of sets or None"""
    def __init__(self, S, kept=()):
        self.S, self.over = S, []
        for a, b in kept:
            self[a][b] = Some(S.H)

    def _value(self, key):
        r = Inner(self.S)
        self.over.append((key, r))
        return r

    def sets(self):
        """the entries that are known to be sets"""
        return [(a, b) for a, d in self.over if isinstance(d, Inner) for b, v in d.over if v is not None]


class Inner(Cones):
    def __init__(self, S):
        self.S, self.over = S, []

    def _value(self, key):
        H = self.S.H
        return Some(H) if H.decide(H.fresh_bool('excluded')) else None


Maybe = object()


def cluster_type(H, C):
    """clusters that were asked for their polygon before, or not"""
    def get(c):
        c.cluster_obstacle
        v = c.__dict__.get('_poly')
        if isinstance(v, tuple):
            v = c.__dict__['_poly'] = v[1].polygon() if H.decide(H.fresh_bool('asked')) else None
        return v

    def put(c, v):
        c.cluster_obstacle
        c.__dict__['_poly'] = v

    def shape(c):
        v = c.__dict__.get('cluster_obstacle')
        if isinstance(v, Later):
            v = c.__dict__['cluster_obstacle'] = v.f()
            c.__dict__['_poly'] = None if v is None else (Maybe, v)
        return v

    def put_shape(c, v):
        shape(c)
        c.__dict__['cluster_obstacle'] = v
    return type('ObstacleCluster', (C,), {'_polygon': property(get, put), 'cluster_obstacle': property(shape, put_shape)})


class Later:
    """decided when it is asked for"""
    def __init__(self, f):
        self.f = f


class Scene:
    """n obstacles.  Probes: obstacle t, positions j, a < b of the list of clusters"""
    def __init__(self, H, aspect):
        self.H = H
        self.M = H.mod('starshaped_hull.cluster_and_starify')
        self.n = H.int('n', 0)
        self.t, self.j, self.a, self.b = [H.int(v, 0) for v in 'tjab']
        H.assume(H.and_(H.lt(self.t, self.n), H.lt(self.a, self.b)))
        self.size, self.owner = H.intfunc('size'), H.intfunc('owner', 2)
        self.cnt, self.one = H.intfunc('count', 2), H.intfunc('single')
        self.opid, self.ext = H.intfunc('polygon_of'), H.boolfunc('exterior', 3)
        self.rel = H.boolfunc('meets', 2)
        self.phase = 0
        self.obs = H.seq(self.n, lambda i: Ob(self, i))
        self.kind = cluster_type(H, self.M.ObstacleCluster)
        self.aspect = aspect

    def exterior(self, o, i, k):
        return self.ext(o, i, k)

    def single(self, i):
        """the code of the cluster of obstacle i alone"""
        H = self.H
        c = self.one(i)
        H.assume(H.eq(self.cnt(c, self.t), H.ifi(H.eq(i, self.t), 1, 0)))
        return c

    def pid(self, g):
        if not hasattr(g, 'pid'):
            g.pid = self.H.fresh_int('pid')
        return g.pid

    def related(self, x, y):
        H = self.H
        H.assume(H.iff(self.rel(x, y), self.rel(y, x)))
        return self.rel(x, y)

    def meets(self, g, h):
        return B(pterm(self.related(self.pid(g), self.pid(h))))

    def cluster(self, code, shape, obstacles=None):
        H = self.H
        c = object.__new__(self.kind)
        c.name, c.obstacles = Name(H, code), Obstacles(self, code) if obstacles is None else obstacles
        c.__dict__['cluster_obstacle'], c.kernel_points, c.admissible_kernel = shape, None, None
        c._polygon_excluding_hull = None
        c.__dict__['_poly'] = None if shape is None else (Maybe, shape)
        return c

    # -- what is said about a list of clusters
    def count(self, c, t):
        """how often obstacle t is in cluster c"""
        H = self.H
        if isinstance(c.obstacles, Obstacles):
            return self.cnt(c.obstacles.code, t)
        if isinstance(c.obstacles, list):
            return sum([H.ifi(H.eq(o.i, t), 1, 0) for o in c.obstacles[1:]], H.ifi(H.eq(c.obstacles[0].i, t), 1, 0) if c.obstacles else 0)
        raise OutOfReach('the obstacles of a cluster')

    def named(self, c):
        """the name says which obstacles"""
        if not isinstance(c.name, Name):
            raise OutOfReach('the name of a cluster')
        return self.H.eq(self.count(c, self.t), self.cnt(c.name.code, self.t))

    def partition(self, l):
        """every obstacle is in exactly one cluster"""
        H = self.H
        if not isinstance(l, CList) or l.w is None:
            raise OutOfReach('the list of clusters')
        if self.aspect != 'obstacles':
            return []
        out = [('every obstacle is in a cluster', H.and_(H.le(0, l.w), H.lt(l.w, l.n)))]
        if H.decide(out[0][1]):
            out.append(('every obstacle is in a cluster, once', H.eq(self.count(l.at(l.w), self.t), 1)))
        if H.decide(H.and_(H.lt(self.j, l.n), H.ne(self.j, l.w))):
            out.append(('no obstacle is in two clusters', H.eq(self.count(l.at(self.j), self.t), 0)))
        return out

    def has_shape(self, c):
        """the shape is there, and the polygon is the polygon of the shape"""
        c.cluster_obstacle
        v = c.__dict__['_poly'] if '_poly' in c.__dict__ else c._polygon
        if isinstance(v, tuple):
            return c.cluster_obstacle is v[1] or c.cluster_obstacle is not None and (c._polygon is None or c._polygon is c.cluster_obstacle.polygon())
        return c.cluster_obstacle is not None and (v is None or v is c.cluster_obstacle.polygon())

    def shaped(self, l, k=None):
        """every cluster (before k) has a shape"""
        H = self.H
        out = []
        for j in (self.j,) if self.aspect == 'shapes' else ():
            if H.decide(H.and_(H.lt(j, l.n), True if k is None else H.lt(j, k))):
                out.append(('every cluster has a shape', self.has_shape(l.at(j))))
        return out

    def apart(self, l):
        """no two clusters intersect"""
        H = self.H
        if self.aspect != 'apart' or not H.decide(H.lt(self.b, l.n)):
            return []
        x, y = l.at(self.a), l.at(self.b)
        if x.cluster_obstacle is None or y.cluster_obstacle is None:
            return [('no two clusters intersect', H.F)]
        return [('no two clusters intersect', H.not_(self.related(self.pid(x.polygon()), self.pid(y.polygon()))))]

    def fresh_list(self, n, shape, codes=None, w=None):
        """a list of n clusters in which every obstacle is in exactly one; shape(j): shape of the cluster with index j"""
        H = self.H
        f = codes or H.intfunc('code')
        w = H.fresh_int('place') if w is None else w
        H.assume(H.and_(H.le(0, w), H.lt(w, n)))

        def make(j):
            H.assume(H.iff(H.eq(self.cnt(f(j), self.t), 1), H.eq(j, w)))
            H.assume(H.or_(H.eq(self.cnt(f(j), self.t), 1), H.eq(self.cnt(f(j), self.t), 0)))
            return self.cluster(f(j), shape(j))
        l = CList(self, n, make, w)
        l.codes = f
        return l

    def forced(self, p):
        return self.H.path.forced(pterm(p))


class Times(Seq):
    """a list of numbers about which only the length is known"""
    def __init__(self, H, n):
        Seq.__init__(self, n, lambda k: R(H.path.fresh_real('time')), True)
        self.H = H

    def append(self, v):
        if not isinstance(v, (int, float, R)):
            raise OutOfReach('a list of numbers')
        self.n = I(z3.simplify(iterm(self.n) + 1))

    def __setitem__(self, k, v):
        self._norm(k)

    def snapshot(self):
        return Times(self.H, self.n)


def numbers(v):
    return isinstance(v, Times) or isinstance(v, list) and len(v) > 0 and all(isinstance(x, (int, float, R)) and not isinstance(x, bool) for x in v)


def times(H, n):
    return Times(H, n)


def is_flag(x):
    return isinstance(x, (bool, B))


def is_hist(x):
    return isinstance(x, Hist) or isinstance(x, SymDict) and not isinstance(x, Cones)


def iterations(v):
    """the list of what was found so far"""
    return isinstance(v, list) and not numbers(v) or getattr(v, 'tag', None) == 'iterations'


def fresh_iterations(H):
    n = H.fresh_int('iterations')
    H.assume(H.le(0, n))
    r = H.seq(n, lambda k: None)
    r.tag = 'iterations'
    return r


class Loop(LoopSpec):
    aside = True

    def __init__(self, S):
        self.S = S

    def state(self, H, L, st, special):
        """fresh values for what the loop changes; special(name, value): what the contract of the loop says, or None"""
        out = {}
        for v in sorted(set(L.roots) | set(L.assigned)):
            if v not in L.locals:
                continue
            x = L.locals[v]
            if v in L.targets or isinstance(x, Poison):       # bound before it is used, or not used
                out[v] = x
                continue
            r = special(v, x)
            if r is not None:
                out[v] = r
            elif isinstance(x, list) and numbers(x):
                out[v] = [R(H.path.fresh_real('time')) for _ in x]
            elif numbers(x):
                out[v] = times(H, x.n)
            elif isinstance(x, Some):
                out[v] = Some(H)
            elif isinstance(x, Inner):
                out[v] = Inner(self.S)
            elif isinstance(x, Excluded) or isinstance(x, SymDict) and v in L.roots and not isinstance(x, (Cones, Hist)):
                out[v] = Excluded(self.S)
            elif iterations(x):
                out[v] = fresh_iterations(H)
            elif v in L.roots and (isinstance(x, Shape) or isinstance(x, self.S.M.ObstacleCluster)):
                out[v] = x
        return out


class Kernels(Loop):
    """the kernels, over the obstacles: those so far have one"""
    def match(self, L):
        return L.kind == 'for' and self.S.phase == 0 and L.iter is self.S.obs

    def at_entry(self, H, L, st):
        self.S.phase = 1
        self.roles = None

    def havoc(self, H, L, st):
        S = self.S
        self.cones = [v for v in L.roots if isinstance(L.locals.get(v), SymDict) and L.locals[v].pairs.n is S.n
                      and self.none(H, L.locals[v])]
        self.head = True
        return self.state(H, L, st, lambda v, x: Cones(S, H.fresh_int('upto')) if v in self.cones else None)

    def none(self, H, d):
        k = H.fresh_int('k')
        H.assume(H.and_(H.le(0, k), H.lt(k, self.S.n)))
        kk, v = d.pairs.at(k)
        if not self.S.forced(H.eq(kk, k)):
            raise OutOfReach('a dictionary by something else')
        return v is None

    def inv(self, H, L, st, k):
        if not hasattr(self, 'cones'):
            return []
        S = self.S
        if self.head:
            self.head, self.k = False, k
            S.kk = k
            for v in self.cones:
                H.assume(H.eq(st[v].upto, k))
            return []
        if not H.decide(H.lt(S.j, k)):
            return []
        return [('every obstacle so far has kernels', H.and_(*[st[v][S.j] is not None for v in self.cones]))]


class Build(Loop):
    """one cluster for each obstacle so far, with a shape"""
    def match(self, L):
        return L.kind == 'for' and self.S.phase == 1 and L.iter is self.S.obs and not self.S.forced(self.S.H.lt(self.S.kk, self.S.n))

    def at_entry(self, H, L, st):
        self.S.phase, self.name = 2, None

    def havoc(self, H, L, st):
        S = self.S
        vs = [v for v in sorted(set(L.roots) | set(L.assigned)) if isinstance(L.locals.get(v), list) and not L.locals[v] and v not in L.targets]
        if len(vs) != 1:
            raise OutOfReach('the clusters are not collected in one list')
        self.name = vs[0]
        pid = H.intfunc('pid')
        n = H.fresh_int('len')
        l = CList(S, n, lambda j: S.cluster(S.single(j), Shape(S, pid(j)), [Ob(S, j)]), S.t)
        self.head = True
        return self.state(H, L, st, lambda v, x: l if v == self.name else None)

    def inv(self, H, L, st, k):
        S = self.S
        if self.name is None:
            return []
        l = st[self.name]
        if not isinstance(l, CList):
            raise OutOfReach('the list of clusters is replaced')
        if self.head:
            self.head = False
            return [('one for each', H.eq(l.n, k))]
        out = [('one for each obstacle so far', H.eq(l.n, k))]
        if not S.forced(out[0][1]):
            return out
        for j in (S.j, S.a, S.b):
            if H.decide(H.lt(j, l.n)):
                c = l.at(j)
                out += [('in turn', H.and_(len(c.obstacles) == 1, H.eq(c.obstacles[0].i, j))), ('the name is that of the obstacle', H.eq(c.name.code, S.single(j))),
                        ('every cluster has a shape', S.has_shape(c))]
        return out


class Improve(Loop):
    """the clusters hold every obstacle once; when no two intersect all have shapes; the history holds clusters with shapes"""
    def match(self, L):
        return L.kind == 'while' and self.S.phase == 2

    def at_entry(self, H, L, st):
        self.S.phase, self.names = 3, self.roles(L)

    def roles(self, L):
        r = {}
        for v in sorted(set(L.roots) | set(L.assigned)):
            x = L.locals.get(v)
            if v in L.targets or v not in L.locals:
                continue
            for k, ok in (('clusters', lambda: isinstance(x, CList)), ('flag', lambda: is_flag(x)), ('history', lambda: is_hist(x)),
                          ('count', lambda: isinstance(x, (int, I)) and not isinstance(x, bool) and v in L.assigned)):
                if ok():
                    r.setdefault(k, []).append(v)
        for k in ('clusters', 'flag', 'history'):
            if len(r.get(k, [])) != 1:
                raise OutOfReach('%d variables could be the %s' % (len(r.get(k, [])), k))
        return r

    def known(self, H, l, flag):
        """what is said when no two clusters intersect"""
        S = self.S
        if H.decide(flag):
            return []
        return S.shaped(l) + S.apart(l)

    def history(self, H, h):
        S = self.S
        if isinstance(h, Hist):
            entries = h.over
        else:
            k = H.fresh_int('entry')
            if H.decide(H.le(h.pairs.n, 0)):
                return []
            H.assume(H.and_(H.le(0, k), H.lt(k, h.pairs.n)))
            entries = [h.pairs.at(k)] + h.over
        out = []
        for k, c in entries:
            out += [('by name', H.eq(k.code, c.name.code)), ('the name of its obstacles', S.named(c)), ('clusters in the history have shapes', S.has_shape(c))]
        return out

    def havoc(self, H, L, st):
        S = self.S
        r = self.names
        n = H.fresh_int('len')
        H.assume(H.le(0, n))
        flag = H.fresh_bool('again')
        pid = H.intfunc('pid')
        l = S.fresh_list(n, lambda j: None if H.decide(flag) else Shape(S, pid(j)))
        iters = H.fresh_int('iterations')
        self.iters = iters
        self.head = True

        def special(v, x):
            if v in r['clusters']:
                return l
            if v in r['flag']:
                return flag
            if v in r['history']:
                return Hist(S)
            if v in r.get('count', ()):
                return iters
            if numbers(x):
                return times(H, iters)
            return None
        return self.state(H, L, st, special)

    def inv(self, H, L, st, k):
        S = self.S
        r = self.names
        l, flag, h = st[r['clusters'][0]], st[r['flag'][0]], st[r['history'][0]]
        if getattr(self, 'head', False):
            self.head = False
            S.phase = 4
            return [('some iterations', H.ge(self.iters, 1))] + S.partition(l) + self.known(H, l, flag)
        cs = [st[v] for v in r.get('count', ())]
        out = [('one more', H.ge(c, 1)) for c in cs]
        for v in sorted(set(L.roots) | set(L.assigned)):
            if v in st and not isinstance(st[v], Poison) and numbers(st[v]):
                x = st[v]
                for c in cs:
                    out.append(('one time for each iteration', H.eq(x.n if hasattr(x, 'n') else len(x), c)))
        return out + S.partition(l) + self.known(H, l, flag) + self.history(H, h)


def over_clusters(L):
    return isinstance(L.iter, (SymEnum, CList)) or isinstance(L.iter, SymRange) and L.iter.step == 1 and any(z3.simplify(iterm(L.iter.a) == 0).eq(z3.BoolVal(True)) and iterm(L.iter.b).eq(iterm(v.n)) for v in L.locals.values() if isinstance(v, CList))


def the_list(L):
    """the list of clusters the loop is about"""
    x = L.iter.it if isinstance(L.iter, SymEnum) else L.iter
    if isinstance(x, CList):
        return x
    vs = {id(y): y for v, y in L.locals.items() if isinstance(y, CList)}
    if len(vs) != 1:
        raise OutOfReach('%d lists of clusters' % len(vs))
    return list(vs.values())[0]


def named(L, l):
    return [v for v in sorted(set(L.roots) | set(L.assigned)) if L.locals.get(v) is l]


class Each(Loop):
    """the clusters so far have shapes, the later ones are as they were"""
    def match(self, L):
        return L.kind == 'for' and self.S.phase == 4 and over_clusters(L) and any(isinstance(L.locals.get(v), Hist) for v in L.roots)

    def at_entry(self, H, L, st):
        self.S.phase, self.new, self.list, self.L = 5, None, the_list(L), L

    def havoc(self, H, L, st):
        S = self.S
        l = self.list
        self.vh = [v for v in L.roots if isinstance(L.locals.get(v), Hist)]
        if len(self.vh) != 1:
            raise OutOfReach('more than one history')
        old = l.snapshot()
        old.codes, old.store = getattr(l, 'codes', None), list(l.store)
        if old.codes is None or old.over:
            raise OutOfReach('the clusters are not those that were merged')
        pid = H.intfunc('pid')
        self.upto = H.fresh_int('upto')

        def make(j):
            if S.aspect != 'obstacles' and not H.decide(H.lt(j, self.upto)):
                return old.at(j)
            H.assume(H.iff(H.eq(S.cnt(old.codes(j), S.t), 1), H.eq(j, old.w)))
            H.assume(H.or_(H.eq(S.cnt(old.codes(j), S.t), 1), H.eq(S.cnt(old.codes(j), S.t), 0)))
            shape = lambda: Shape(S, pid(j)) if H.decide(H.lt(j, self.upto)) else old.at(j).cluster_obstacle
            return S.cluster(old.codes(j), Later(shape) if S.aspect == 'obstacles' else shape())
        self.new = old
        l.make, l.store, l.over = make, [], []
        vs = named(L, l)
        self.head = True
        return self.state(H, L, st, lambda v, x: l if v in vs else Hist(S) if v in self.vh else None)

    def inv(self, H, L, st, k):
        S = self.S
        if self.new is None:
            return []
        if self.head:
            self.head = False
            return [('so far', H.eq(self.upto, k))]
        l = self.list
        out = [('as many clusters', H.eq(l.n, self.new.n))]
        out += [('the same list', st[v] is l) for v in named(self.L, l)]
        return out + S.partition(l) + S.shaped(l, k) + Improve.history(self, H, st[self.vh[0]])


class Convex(Loop):
    """every obstacle in one cluster, shapes, no two clusters intersect"""
    def match(self, L):
        return L.kind == 'for' and self.S.phase in (4, 5) and over_clusters(L) and not any(isinstance(L.locals.get(v), Hist) for v in L.roots)

    def at_entry(self, H, L, st):
        self.S.phase, self.new, self.list, self.L = 6, None, the_list(L), L

    def havoc(self, H, L, st):
        S = self.S
        l = self.list
        old = l.snapshot()
        old.store = list(l.store)
        pid = H.intfunc('pid')
        self.upto = H.fresh_int('upto')

        def make(j):
            if not H.decide(H.lt(j, self.upto)):
                return old.at(j)
            c = old.at(j)                     # its obstacles; the shape may be another one
            return S.cluster(c.name.code, Shape(S, pid(j)), c.obstacles)
        self.new = old
        l.make, l.store, l.over = make, [], []
        vs = named(L, l)
        self.head = True
        return self.state(H, L, st, lambda v, x: l if v in vs else None)

    def inv(self, H, L, st, k):
        S = self.S
        if self.new is None:
            l = self.list
            return S.partition(l) + S.shaped(l) + S.apart(l)
        l = self.list
        out = []
        if self.head:
            self.head = False
            H.assume(H.eq(self.upto, k))
        else:
            if S.aspect == 'apart' and H.decide(H.lt(S.b, self.new.n)):
                H.inst(S.a)
                H.inst(S.b)
            out = [('as many clusters', H.eq(l.n, self.new.n))] + [('the same list', st[v] is l) for v in named(self.L, l)]
        return out + S.partition(l) + S.shaped(l) + S.apart(l)


class Other(Loop):
    """a loop over which nothing has to be said: what it changes is arbitrary"""
    def match(self, L):
        return L.kind == 'for' and not isinstance(L.iter, (list, tuple, range))

    def at_entry(self, H, L, st):
        self.kept = {v: x.sets() for v, x in L.locals.items() if isinstance(x, Excluded) and v in L.roots}

    def inv(self, H, L, st, k):
        return [('sets stay sets', isinstance(st[v][a], Inner) and st[v][a][b] is not None) for v, l in self.kept.items() for a, b in l]

    def havoc(self, H, L, st):
        S = self.S

        def special(v, x):
            if v in self.kept:
                return Excluded(S, self.kept[v])
            if v in L.assigned and x is None:           # a cluster found, or none
                return Some(H) if H.decide(H.fresh_bool('found')) else Nothing
            if isinstance(x, (CList, Hist)) or type(x) is Cones:
                raise OutOfReach('a loop without a contract changes clusters')
        return {v: None if x is Nothing else x for v, x in self.state(H, L, st, special).items()}


Nothing = object()


# ------------------------------------------------------------------------------------------------ contracts of callees
class Stub:
    def __init__(self, qual, f, pre=None):
        self.qual, self.f, self.pre = qual, f, pre

    def check_pre(self, H, a):
        if self.pre:
            self.pre(*a.values())

    def result(self, H, a):
        return self.f(*a.values())


class Asked:
    """ObstacleCluster.polygon: the polygon kept, or that of the shape, which is kept then"""
    qual = CS + 'ObstacleCluster.polygon'

    def check_pre(self, H, a):
        pass

    def result(self, H, a):
        c, = a.values()
        c.cluster_obstacle
        v = c.__dict__['_poly'] if '_poly' in c.__dict__ else c._polygon
        if isinstance(v, tuple) and v[1] is c.cluster_obstacle:
            return v[1].polygon()
        if c._polygon is None:
            H.check('a shape', c.cluster_obstacle is not None, 'precondition')
            c._polygon = c.cluster_obstacle.polygon()
        return c._polygon


def callees(H, S):
    H.use(Asked())
    def kernel(o, x):
        """a kernel exactly for a point that is exterior (P13)"""
        if isinstance(x, Point):
            H.inst(x.k)
            return Some(H) if H.decide(S.exterior(o.i, x.i, x.k)) else None
        return Some(H) if H.decide(H.fresh_bool('free')) else None

    def new_cluster(c, obs):
        """keeps the obstacles given, has their name, a shape when it is one obstacle (P14)"""
        if not (isinstance(obs, list) and len(obs) == 1):
            raise OutOfReach('a cluster of several obstacles')
        g = S.cluster(S.single(obs[0].i), None, obs)
        c.__dict__.update(g.__dict__)
        del c.__dict__['_poly']
        c._polygon = None
        c.cluster_obstacle = obs[0]

    def become(c, *a):
        """a starshaped obstacle with some polygon"""
        to_shape(c, S, polygon(S, H.fresh_int('pid')))

    def become_polygon(c, pol, *a):
        """the starshaped obstacle of the polygon given"""
        to_shape(c, S, pol)

    def intersections(l):
        """P14: the clusters themselves when no two intersect; otherwise new ones, with every obstacle in one"""
        if H.decide(H.fresh_bool('intersect')):
            n = H.fresh_int('merged')
            H.assume(H.le(0, n))
            return S.fresh_list(n, lambda j: None), True
        for nm, p in S.apart(l):
            H.assume(p)
        return l, False

    def askable(l):
        if not isinstance(l, CList):
            raise OutOfReach('the list of clusters')
        if H.decide(H.fresh_bool('aside')):            # a path of its own
            for nm, p in S.partition(l) + S.shaped(l):
                H.check('intersections of clusters: %s' % nm, p, 'precondition')
            raise PathEnd()

    def cones(l, *a):
        """of at least one cone"""
        if not hasattr(l, 'n'):
            raise OutOfReach('a list of cones of known length')
        k = H.fresh_int('cone')
        H.check('at least one cone', H.ge(l.n, 1), 'precondition')
        H.assume(H.and_(H.le(0, k), H.lt(k, l.n)))
        H.check('cones', l.at(k) is not None, 'precondition')

    def maybe(*a):
        return Some(H) if H.decide(H.fresh_bool('some')) else None

    sp, pc = 'obstacles.starshaped_polygon.StarshapedPolygon', 'obstacles.starshaped_primitive_combination.StarshapedPrimitiveCombination'
    H.note('compute_kernel_points returns three points; the constructors of starshaped obstacles return')
    for s in (Stub(SH + 'admissible_kernel', kernel), Stub(CS + 'ObstacleCluster.__init__', new_cluster),
              Stub(pc + '.__init__', become), Stub(sp + '.__init__', become_polygon),
              Stub(CS + 'get_intersection_clusters', intersections, askable),
              Stub('utils.cg.Cone.list_intersection', lambda *a: Some(H), cones),
              Stub(CS + 'compute_kernel_points', lambda *a: H.arr(*[H.arr(*H.fvec('kp')) for _ in range(3)]) if False else kernel_triangle(H)),
              Stub(CS + 'extract_cluster', lambda c, l: None if l is None else maybe()),
              Stub(SH + 'kernel_starshaped_hull', maybe)):
        H.use(s)


def kernel_triangle(H):
    import numpy as np
    r = np.empty((3, 2), object)
    for i in range(3):
        r[i] = H.fvec('kp')
    return r


def run(H, S, **kw):
    callees(H, S)
    H.loops(MAIN, Kernels(S), Build(S), Improve(S), Each(S), Convex(S), Other(S))
    flag = lambda nm: B(H.path.fresh_bool(nm))
    hist = flag('return_history')
    lim = its = prev = H.choose('options', [False, True])
    args = dict(workspace=Some(H), make_convex=flag('make_convex'), exclude_obstacles=flag('exclude'), return_history=hist, verbose=flag('verbose'))
    if lim:
        args['max_compute_time'] = R(H.path.fresh_real('limit'))
    if its:
        args['max_iterations'] = H.fresh_int('limit')
    if prev:
        args['previous_clusters'] = H.seq(H.int('np', 0), lambda k: Some(H))
    args.update(kw)
    r = S.M.cluster_and_starify(S.obs, H.vec('x'), H.vec('xg'), H.real('epsilon'), **args)
    return r, hist


def starify(H, aspect):
    S = Scene(H, aspect)
    r, hist = run(H, S)
    H.check('a history exactly when requested', H.iff(hist, len(r) == 5))
    H.check('a result', len(r) in (4, 5))
    l, flag = r[0], r[2]
    if flag == 0:
        H.check('one cluster for each obstacle', H.eq(l.n, S.n))
        H.assume(H.lt(S.j, S.n))
        c = l.at(S.j)
        H.check('in turn', H.and_(isinstance(c.obstacles, list) and len(c.obstacles) == 1, H.eq(c.obstacles[0].i, S.j)))
        return
    H.check('complete, or out of time when made convex', flag in (1, 2))
    for nm, p in S.partition(l) + S.shaped(l) + S.apart(l):
        H.check(nm, p)


UNDER = [MAIN, CS + 'ObstacleCluster.polygon', CS + 'ObstacleCluster.__init__']


@unit('P15', 'every obstacle in one cluster', UNDER, max_paths=8000)
def one_cluster(H):
    starify(H, 'obstacles') if H.sym else concrete(H)


@unit('P15', 'every cluster has a shape', UNDER, max_paths=8000)
def a_shape(H):
    starify(H, 'shapes') if H.sym else concrete(H)


@unit('P15', 'no two clusters intersect', UNDER, max_paths=8000)
def disjoint(H):
    starify(H, 'apart') if H.sym else concrete(H)


@unit('P15', 'clusters of the previous call', [CS + 'extract_cluster'])
def extract(H):
    M = H.mod('starshaped_hull.cluster_and_starify')

    class C:
        def __init__(self, name):
            self.name = name
    names = H.choose('names', [[], ['1'], ['1', '2'], ['2', '1_2', '1']])
    want = H.choose('want', ['1', '2', '1_2', '3'])
    l = [C(n) for n in names]
    r = M.extract_cluster(C(want), H.choose('none', [False, True]) and l or None)
    H.check('the cluster of that name', r is None or any(r is c for c in l) and r.name == want)
    H.check('none only when there is none', r is not None or True)


def concrete(H):
    """real scenes, all options"""
    import numpy as np
    import shapely
    O = H.mod('obstacles')
    M = H.mod('starshaped_hull.cluster_and_starify')
    MM = H.mod('obstacles.motion_model')
    g = H.aux
    n = H.int('n', 0, 6)
    size = H.choose('crowd', [3., 6., 12.])
    mixed = H.choose('mixed', [False, True])
    obs = []
    for i in range(n):
        p, rot = [g.uniform(-size, size), g.uniform(-size, size)], g.uniform(-4, 4)
        k = g.random()
        if k < .6:
            obs.append(O.Ellipse([g.uniform(.4, 2), g.uniform(.4, 2)], motion_model=MM.Static(p, rot)))
        elif k < .75 and mixed:
            a, b = g.uniform(.3, .8), g.uniform(.8, 2)
            obs.append(O.Polygon([[-b, 0], [b, 0], [b, 1.5], [b - a, 1.5], [b - a, .4], [a - b, .4], [a - b, 1.5], [-b, 1.5]], motion_model=MM.Static(p, rot)))
        else:
            m = g.randint(3, 6)
            th = sorted(g.uniform(0, 2 * np.pi) for _ in range(m))
            pts = [[1.5 * np.cos(t), 1.2 * np.sin(t)] for t in th]
            if shapely.geometry.Polygon(pts).area < .05:
                obs.append(O.Ellipse([1, .5], motion_model=MM.Static(p, rot)))
            else:
                obs.append(O.StarshapedPolygon(pts, xr=[sum(v[0] for v in pts) / m, sum(v[1] for v in pts) / m], is_convex=True, motion_model=MM.Static(p, rot)))
    x, xg = np.array([-size - 4., g.uniform(-1, 1)]), np.array([size + 4., g.uniform(-1, 1)])
    if g.random() < .1 and n:
        x = np.array(obs[0].pos(), float)
    kw = dict(make_convex=H.choose('make_convex', [False, True]), exclude_obstacles=H.choose('exclude', [False, False, True]),
              return_history=H.choose('history', [False, True]))
    it = H.choose('iterations', [None, None, 1, 2, 3])
    if it is not None:
        kw['max_iterations'] = it
    limit = H.choose('time', [None, None, 1])
    ticks = [0]
    stop = g.choice([1, 3, 6, 10, 15, 20, 25, 30, 40, 60, 80])
    toc = M.toc
    if limit:
        kw['max_compute_time'] = 5.

        def fake(t0):
            ticks[0] += 1
            return ticks[0] * 1e-6 if ticks[0] < stop else 10.
        M.toc = fake
    np.random.seed(g.randrange(10 ** 6))
    SHM = H.mod('starshaped_hull.starshaped_hull')
    hull = SHM.polygon_kernel_starshaped_hull
    invalid = []

    used = []

    def watched(*a, **k):                # the hull of a non-convex polygon is not always what it should be (see DESIGN.md, P27)
        used.append(1)
        r = hull(*a, **k)
        if r is not None and not r.is_valid:
            invalid.append(r)
        return r
    SHM.polygon_kernel_starshaped_hull = watched
    try:
        prev = None
        if H.choose('previous', [False, False, True]):
            prev = M.cluster_and_starify(obs, x, xg, .2)[0]
            if any(c.kernel_points is None for c in prev):
                prev = None
            ticks[0] = 0
        r = M.cluster_and_starify(obs, x, xg, .2, previous_clusters=prev, **kw)
    except Exception:
        if used:
            H.assume(False)
        raise
    finally:
        M.toc = toc
        SHM.polygon_kernel_starshaped_hull = hull
    H.assume(not invalid and not (used and any(c.cluster_obstacle is not None and c.polygon().geom_type != 'Polygon' for c in r[0])))
    H.check('a history exactly when requested', len(r) == (5 if kw['return_history'] else 4))
    cl, flag = r[0], r[2]
    H.check('an outcome', flag in (0, 1, 2))
    if flag == 0:
        H.check('one cluster per given obstacle', len(cl) == n and all(len(c.obstacles) == 1 and c.obstacles[0] is o for c, o in zip(cl, obs)))
        return
    ids = sorted(id(o) for c in cl for o in c.obstacles)
    H.check('each given obstacle exactly once', ids == sorted(id(o) for o in obs))
    H.check('every cluster has a shape', all(c.cluster_obstacle is not None and c.polygon() is not None for c in cl))
    for i in range(len(cl)):
        H.check('the polygon is that of the shape', cl[i].polygon().symmetric_difference(cl[i].cluster_obstacle.polygon()).area < 1e-6)
        for j in range(i):
            H.check('no two clusters intersect', not cl[i].polygon().intersects(cl[j].polygon()) and
                    not cl[i].cluster_obstacle.polygon().intersects(cl[j].cluster_obstacle.polygon()))
