"""P14: merging of intersecting clusters."""
from pydv.contract import unit
from .common import *
try:
    import z3
    from pydv.rt import LoopSpec
    from pydv.errors import OutOfReach
    from pydv.seq import Seq
    from pydv.multi import Multi, Table, lift
    from pydv.sym import I, B, iterm
    from pydv import prop
except ImportError:
    LoopSpec, OutOfReach = object, Exception

CS = 'starshaped_hull.cluster_and_starify.'


class Scene:
    """N clusters, the relation X "their polygons intersect", and C: any equivalence relation that contains it (the least
    one is "connected through a chain").  Probes: positions a, b of the table, clusters t, u"""
    def __init__(self, H):
        self.H = H
        self.N = H.int('N', 0)
        self.X, self.C = H.boolfunc('meets', 2), H.boolfunc('connected', 2)
        self.a, self.b, self.t, self.u = [H.int(v, 0) for v in 'abtu']
        H.assume(H.and_(*[H.lt(v, self.N) for v in (self.a, self.b, self.t, self.u)]))
        H.assume(H.ne(self.a, self.b))
        self.wi, self.wj = H.fresh_int('pair'), H.fresh_int('pair')
        self.some = H.fresh_bool('some')                 # some pair intersects
        H.assume(H.imp(self.some, H.and_(H.le(0, self.wi), H.lt(self.wi, self.wj), H.lt(self.wj, self.N), self.X(self.wi, self.wj))))
        self.phase, self.shared = 0, []
        self.sz = H.intfunc('size')

    def body(self, k, n):
        """whether this is an iteration of the loop around, or what follows it"""
        return self.H.path.forced(iterm(k) < iterm(n))

    def size(self, i):
        """number of obstacles of cluster i"""
        self.H.assume(self.H.ge(self.sz(i), 1))
        return self.sz(i)

    def table(self, L):
        return [v for v in L.locals.values() if isinstance(v, Table)][-1]

    def inr(self, *v):
        return self.H.and_(*[self.H.and_(self.H.le(0, x), self.H.lt(x, self.N)) for x in v])

    def meets(self, i, j):
        H = self.H
        for x, y in ((i, j), (j, i)):
            H.assume(H.iff(self.X(x, y), self.X(y, x)))
            H.assume(H.imp(H.and_(self.inr(x, y), self.X(x, y)), self.C(x, y)))
            H.assume(H.imp(H.and_(self.inr(x, y), H.lt(x, y), self.X(x, y)), self.some))
        return self.X(i, j)

    def equiv(self, *vs):
        """C is an equivalence relation, at these clusters"""
        H, C = self.H, self.C
        for x in vs:
            H.assume(C(x, x))
            for y in vs:
                H.assume(H.iff(C(x, y), C(y, x)))
                for z in vs:
                    H.assume(H.imp(H.and_(C(x, y), C(y, z)), C(x, z)))

    # -- after the search for intersections: row a holds a and the later clusters it intersects
    def row(self, a, t, upto=None):
        H = self.H
        self.meets(a, t)
        return H.or_(H.eq(t, a), H.and_(H.lt(a, t), H.lt(t, self.N if upto is None else upto), self.X(a, t)))

    def once(self, T, a, t, want):
        H = self.H
        return H.eq(T.cnt(a, t), H.ifi(want, 1, 0))


def fresh_table(H, n):
    f = z3.Function(H.path.name('rows'), z3.IntSort(), z3.IntSort(), z3.IntSort())
    T = Table(n, lambda a, t: f(a, t))
    return T


def pick(L, what, cond):
    vs = [v for v in sorted(set(L.roots) | set(L.assigned)) if v not in L.targets and v in L.locals and cond(L.locals[v])]
    if len(vs) != 1:
        raise OutOfReach('%d variables could be %s' % (len(vs), what))
    return vs[0]


def is_table(x):
    return isinstance(x, Table) or isinstance(x, list)


def is_flag(x):
    return isinstance(x, (bool, B))


class Rows(LoopSpec):
    """the search for intersections, over the first cluster of the pair"""
    def __init__(self, S):
        self.S, self.T = S, None

    def match(self, L):
        return L.kind == 'for' and self.S.phase == 0

    def at_entry(self, H, L, st):
        self.S.phase = 1

    def havoc(self, H, L, st):
        S = self.S
        self.vt, self.vf = pick(L, 'the table', is_table), pick(L, 'the flag', is_flag)
        self.T, self.f = fresh_table(H, None), H.fresh_bool('flag')
        return {self.vt: self.T, self.vf: self.f}

    def fact(self, a, t, n=None):
        """row a of the table so far (n rows; all of them when the search is over)"""
        H, S = self.S.H, self.S
        H.assume(H.imp(H.and_(S.inr(a, t), H.lt(a, self.k)), H.eq(I(self.rows(a, t)), H.ifi(S.row(a, t), 1, 0))))

    def inv(self, H, L, st, k):
        S = self.S
        if self.T is None:
            T = st[pick(L, 'the table', is_table)]
            if T:
                raise OutOfReach('the search starts with a table')
            return [('no intersection yet', H.not_(st[pick(L, 'the flag', is_flag)]))]
        T, fl = st[self.vt], st[self.vf]
        if T is self.T and T.n is None:                    # assumed here
            T.n, self.k = k, k
            f = T.f
            self.rows = lambda a, t: f(iterm(a), iterm(t))
            self.fact(S.a, S.t)
            S.k0 = k
        out = [('one row for each cluster so far', H.eq(T.n, k)),
               ('a row holds its cluster and the later ones that intersect it, once', H.imp(H.lt(S.a, k), S.once(T, S.a, S.t, S.row(S.a, S.t)))),
               ('reported intersections exist', H.imp(fl, S.some)),
               ('an intersection so far is reported', H.imp(H.and_(S.some, H.lt(S.wi, k)), fl))]
        return out


class Cells(LoopSpec):
    """the search for intersections, over the second cluster of the pair"""
    def __init__(self, S):
        self.S, self.T = S, None

    def match(self, L):
        return L.kind == 'for' and self.S.phase == 1 and self.S.body(self.S.k0, self.S.N)

    def at_entry(self, H, L, st):
        self.S.phase, self.T = 2, None
        self.lo = L.iter.a if hasattr(L.iter, 'a') else L.iter[0] if len(L.iter) else self.S.N

    def havoc(self, H, L, st):
        S = self.S
        self.vt, self.vf = pick(L, 'the table', is_table), pick(L, 'the flag', is_flag)
        self.T, self.f = fresh_table(H, L.locals[self.vt].n), H.fresh_bool('flag')
        return {self.vt: self.T, self.vf: self.f}

    def inv(self, H, L, st, k):
        S = self.S
        vt, vf = pick(L, 'the table', is_table), pick(L, 'the flag', is_flag)
        T, fl = st[vt], st[vf]
        i, j = S.k0, self.lo + k
        S.phase = 2
        return [('one row for each cluster so far', H.eq(T.n, i + 1)),
                ('the rows before stay', H.imp(H.lt(S.a, i), S.once(T, S.a, S.t, S.row(S.a, S.t)))),
                ('the row holds its cluster and the later ones so far that intersect it, once', H.imp(H.eq(S.a, i), S.once(T, S.a, S.t, S.row(S.a, S.t, j)))),
                ('reported intersections exist', H.imp(fl, S.some)),
                ('an intersection so far is reported', H.imp(H.and_(S.some, H.or_(H.lt(S.wi, i), H.and_(H.eq(S.wi, i), H.lt(S.wj, j)))), fl))]


class Merge(LoopSpec):
    """merging, over the row that may be merged into an earlier one: the rows after it are final"""
    def __init__(self, S):
        self.S, self.T = S, None

    def match(self, L):
        return L.kind == 'for' and self.S.phase == 1 and not self.S.body(self.S.k0, self.S.N)

    def at_entry(self, H, L, st):
        self.S.phase = 4
        self.it = L.iter
        self.n = L.iter.n if hasattr(L.iter, 'n') else len(L.iter)

    def havoc(self, H, L, st):
        S = self.S
        self.vt = pick(L, 'the table', is_table)
        self.T = fresh_table(H, S.N)
        f = self.T.f
        self.f = lambda a, t: I(f(iterm(a), iterm(t)))
        self.T.on_item = self.member
        self.w, self.wt = H.fresh_int('place'), H.fresh_int('place')
        S.merge = self
        self.head = True
        return {self.vt: self.T}

    # facts at the head
    def apart(self, a, b, t):
        """row a is final: it shares nothing with row b"""
        H, S = self.S.H, self.S
        H.assume(H.imp(H.and_(S.inr(a, b, t), H.ne(a, b), H.gt(a, self.cur)), H.not_(H.and_(H.gt(self.f(a, t), 0), H.gt(self.f(b, t), 0)))))

    def member(self, a, t):
        H, S = self.S.H, self.S
        H.assume(H.imp(S.inr(a), H.and_(H.le(0, self.f(a, t)), H.le(self.f(a, t), 1),
                                       H.imp(H.gt(self.f(a, t), 0), H.and_(S.inr(t), S.C(a, t))))))

    def goals(self, H, T, cur, w, wt):
        S = self.S
        a, b, t, u = S.a, S.b, S.t, S.u
        pos = lambda x, y: H.gt(T.cnt(x, y), 0)
        return [('one row for each cluster', H.eq(T.n, S.N)),
                ('rows after the current one share nothing with the others', H.imp(H.gt(a, cur), H.not_(H.and_(pos(a, t), pos(b, t))))),
                ('no cluster twice in a row', H.and_(H.le(0, T.cnt(a, t)), H.le(T.cnt(a, t), 1))),
                ('clusters of a row are connected', H.imp(pos(a, t), S.C(a, t))),
                ('every cluster is in some row', H.and_(S.inr(wt), pos(wt, t))),
                ('intersecting clusters are in one row', H.imp(S.meets(t, u), H.and_(S.inr(w), pos(w, t), pos(w, u))))]

    def inv(self, H, L, st, k):
        S = self.S
        T = st[self.vt if self.T is not None else pick(L, 'the table', is_table)]
        cur = I(iterm(self.it.at(k))) if hasattr(self.it, 'at') else self.it[k] if len(self.it) > k else 0
        S.equiv(S.a, S.b, S.t, S.u)
        if self.T is None:                                   # on entry
            r = S.rowsof
            for x in (S.a, S.b, S.t, S.u):
                for y in (S.t, S.u):
                    r.fact(x, y)
            return self.goals(H, T, cur, H.ifi(H.lt(S.t, S.u), S.t, S.u), S.t)
        if self.head:
            self.head = False
            self.cur, S.km = cur, k
            self.apart(S.a, S.b, S.t)
            for x in (S.a, S.b, self.w, self.wt):
                for y in (S.t, S.u):
                    self.member(x, y)
            S.equiv(S.a, S.b, S.t, S.u, self.w, self.wt)
            return self.goals(H, T, cur, self.w, self.wt)
        # preserved: the row at cur was merged into row S.into, or shares nothing with the earlier ones
        j, ls = getattr(S, 'into', None), list(S.shared)
        i = self.cur
        if j is None:
            w, wt = self.w, self.wt
        else:
            pos = lambda x, y: H.gt(T.cnt(x, y), 0)
            w = H.ifi(H.and_(pos(self.w, S.t), pos(self.w, S.u)), self.w, j)
            wt = H.ifi(pos(self.wt, S.t), self.wt, j)
            for x in (i, j, S.a, S.b, self.w, self.wt):
                for y in (S.t, S.u) + tuple(ls):
                    self.member(x, y)
            for y in (S.t, S.u):
                for x in (S.a, S.b):
                    for z in (i, j, S.a, S.b):
                        self.apart(x, z, y)
            S.equiv(i, j, S.a, S.b, S.t, S.u, *ls)
        return self.goals(H, T, cur, w, wt)


class Earlier(LoopSpec):
    """looking for an earlier row that shares something: none so far, and the table as it was"""
    def __init__(self, S):
        self.S, self.T = S, None

    def match(self, L):
        return L.kind == 'for' and self.S.phase == 4 and self.S.body(self.S.km, self.S.merge.n)

    def at_entry(self, H, L, st):
        self.S.phase, self.T, self.it = 5, None, L.iter
        self.vt = pick(L, 'the table', is_table)
        self.f0 = st[self.vt].f

    def step(self, b):
        """the iteration that looks at row b"""
        return (b - self.it.a) * self.it.step

    def havoc(self, H, L, st):
        self.T = Table(L.locals[self.vt].n, self.f0)
        return {self.vt: self.T}

    def inv(self, H, L, st, k):
        S, M = self.S, self.S.merge
        T = st[self.vt]
        if not hasattr(self.it, 'at'):
            raise OutOfReach('not a range of rows')
        H.inst(S.t)
        j = self.it.at(k)
        S.into = j
        out = []
        for b in (S.a, S.b):
            out.append(('the earlier rows so far share nothing with the current one',
                        H.imp(H.and_(H.le(0, self.step(b)), H.lt(self.step(b), k), H.lt(b, M.cur)), H.not_(H.and_(H.gt(M.f(b, S.t), 0), H.gt(M.f(M.cur, S.t), 0))))))
        out.append(('the table stays', H.and_(*[H.eq(T.cnt(a, t), M.f(a, t)) for a in (S.a, S.b) for t in (S.t, S.u)])))
        for b in (S.a, S.b):
            for y in (S.t, S.u):
                M.member(b, y)
                M.member(M.cur, y)
        return out


class Shared(LoopSpec):
    """looking for a shared cluster in two rows: none so far"""
    def __init__(self, S):
        self.S, self.row = S, None

    def match(self, L):
        return L.kind == 'for' and self.S.phase == 5 and isinstance(L.iter, Multi)

    def at_entry(self, H, L, st):
        self.row = L.iter
        self.vf = pick(L, 'the flag', is_flag)

    def havoc(self, H, L, st):
        return {self.vf: H.fresh_bool('found')}

    def inv(self, H, L, st, k):
        S, M = self.S, self.S.merge
        t = S.t
        self.row.has(t)
        M.member(M.cur, t)
        if not (isinstance(k, int) and k == 0):
            S.shared.append(self.row.at(k))
        return [('none so far', H.not_(st[self.vf])),
                ('the clusters so far are not shared', H.imp(H.and_(H.gt(I(self.row.cnt(t)), 0), H.lt(I(self.row.ps(iterm(t))), k)), H.eq(M.f(M.cur, t), 0)))]


class Out(Seq if LoopSpec is not object else object):
    """the list of new clusters: how many of them hold cluster t, and how many both t and u"""
    def __init__(self, S, ct, ctu):
        self.S, self.ct, self.ctu = S, ct, ctu
        self.is_list, self.over, self.n = True, [], S.H.fresh_int('outlen')

    def append(self, c):
        H, m = self.S.H, c.multi
        t, u = self.S.t, self.S.u
        self.ct = self.ct + I(m.cnt(t))
        self.ctu = self.ctu + H.ifi(H.and_(H.gt(I(m.cnt(t)), 0), H.gt(I(m.cnt(u)), 0)), 1, 0)

    def __iadd__(self, o):
        for c in o:
            self.append(c)
        return self


class Build(LoopSpec):
    """the new clusters, one for each row that is left"""
    def __init__(self, S):
        self.S, self.out = S, None

    def match(self, L):
        return L.kind == 'for' and self.S.phase == 4 and not self.S.body(self.S.km, self.S.merge.n)

    def at_entry(self, H, L, st):
        self.S.phase = 6

    def havoc(self, H, L, st):
        self.vo = pick(L, 'the new clusters', lambda v: isinstance(v, list))
        self.out = Out(self.S, H.fresh_int('ct'), H.fresh_int('ctu'))
        self.S.out = self.out
        return {self.vo: self.out}

    def inv(self, H, L, st, k):
        S, M = self.S, self.S.merge
        if self.out is None:
            o = st[pick(L, 'the new clusters', lambda v: isinstance(v, list))]
            if o:
                raise OutOfReach('the new clusters do not start empty')
            return []
        o = st[self.vo]
        for x in (k, k - 1):
            for y in (S.t, S.u):
                M.member(x, y)
                for z in (M.w, M.wt):
                    M.apart(x, z, y)
                    M.apart(z, x, y)
        S.equiv(k - 1, S.t, S.u)
        for key, row in S.table(L).rows:
            for y in (S.t, S.u):
                row.has(y)
        return [('every cluster is in one new cluster', H.eq(o.ct, H.ifi(H.lt(M.wt, k), 1, 0))),
                ('intersecting clusters are in one new cluster', H.imp(S.meets(S.t, S.u), H.eq(o.ctu, H.ifi(H.lt(M.w, k), 1, 0)))),
                ('clusters in one new cluster are connected', H.imp(H.gt(o.ctu, 0), S.C(S.t, S.u))),
                ('not negative', H.le(0, o.ctu))]


class NewCluster:
    """ObstacleCluster.__init__ (its own unit below): keeps the obstacles given"""
    qual = CS + 'ObstacleCluster.__init__'

    def __init__(self, S):
        self.S = S

    def check_pre(self, H, a):
        pass

    def result(self, H, a):
        c, obs = list(a.values())[:2]
        src = getattr(obs, 'source', None)
        rows = [r for _, r in self.S.merge.T.rows if src is not None and r.n is src.n]
        if len(rows) != 1:
            raise OutOfReach('the obstacles of a new cluster are not listed row by row')
        r = rows[0]
        k, m = H.fresh_int('k'), H.fresh_int('m')
        H.assume(H.and_(H.le(0, k), H.lt(k, r.n)))
        part = src.at(k)
        own = r.at(k)
        H.check('the clusters of the row, in turn', H.eq(part.n, self.S.size(own)))
        H.assume(H.and_(H.le(0, m), H.lt(m, part.n)))
        o = part.at(m)
        H.check('their obstacles, in turn', H.and_(H.eq(o.owner, own), H.eq(o.place, m)))
        c.obstacles, c.multi = obs, r


class Ob:
    def __init__(self, owner, place):
        self.owner, self.place = owner, place


class Poly:
    def __init__(self, S, i):
        self.S, self.i = S, i

    def intersects(self, o):
        return B(prop_term(self.S.meets(self.i, o.i)))


def prop_term(p):
    from pydv.symh import pterm
    return pterm(p)


class Cluster:
    def __init__(self, S, i):
        self.S, self.i, self.obstacles = S, i, S.H.seq(S.size(i), lambda m: Ob(i, m))
        self.name = 'cluster'

    def polygon(self):
        return Poly(self.S, self.i)


@unit('P14', 'any number of clusters', [CS + 'get_intersection_clusters'])
def clusters(H):
    if not H.sym:
        return concrete(H)
    S = Scene(H)
    M = H.mod('starshaped_hull.cluster_and_starify')
    cl = H.seq(S.N, lambda k: Cluster(S, k))
    rows, merge = Rows(S), Merge(S)
    S.rowsof = rows
    build = Build(S)
    H.loops(CS + 'get_intersection_clusters', rows, Cells(S), merge, Earlier(S), Shared(S), build)
    H.use(NewCluster(S))
    H.on_search(lambda v: S.shared.append(v))
    r, flag = M.get_intersection_clusters(cl)
    H.check('intersections are reported exactly when some pair intersects', H.iff(flag, S.some))
    if not H.decide(S.some):
        H.check('the clusters are returned as they are', r is cl and cl.n is S.N and not cl.over)
        return
    if build.out is None or r is not build.out:
        raise OutOfReach('the clusters returned are not built row by row')
    H.check('every cluster is in exactly one new cluster', H.eq(r.ct, 1))
    H.check('intersecting clusters are in one new cluster', H.imp(S.meets(S.t, S.u), H.eq(r.ctu, 1)))
    H.check('clusters in one new cluster are connected', H.imp(H.gt(r.ctu, 0), S.C(S.t, S.u)))


@unit('P14', 'a cluster keeps its obstacles', [CS + 'ObstacleCluster.__init__'], concrete=False)
def keeps(H):
    M = H.mod('starshaped_hull.cluster_and_starify')
    n = H.choose('n', [1, 2, 3])
    obs = [GObs(k) for k in range(n)]
    given = list(obs)
    c = M.ObstacleCluster(obs)
    H.check('the obstacles given', len(c.obstacles) == n and all(a is b for a, b in zip(c.obstacles, given)))
    H.check('a shape of its own when it is one obstacle', c.cluster_obstacle is (given[0] if n == 1 else None))


class GObs:
    def __init__(self, i):
        self.i = i

    def id(self):
        return self.i


class GPoly:
    def __init__(self, i, meets):
        self.i, self.meets = i, meets

    def intersects(self, o):
        return (min(self.i, o.i), max(self.i, o.i)) in self.meets or self.i == o.i


class GCluster:
    def __init__(self, i, obstacles, meets):
        self.i, self.obstacles, self.meets, self.name = i, obstacles, meets, str(i)

    def polygon(self):
        return GPoly(self.i, self.meets)


def concrete(H):
    """every pattern of up to 5 clusters can be drawn; larger ones at random"""
    M = H.mod('starshaped_hull.cluster_and_starify')
    r = H.aux
    n = H.int('n', 0, 9)
    p = H.choose('density', [.15, .3, .6, 0.])
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    kind = H.choose('kind', ['any', 'chain', 'star'])
    order = list(range(n))
    r.shuffle(order)
    if kind == 'chain':
        meets = {tuple(sorted(q)) for q in zip(order, order[1:])}
        if meets and r.random() < .5:
            meets.discard(r.choice(sorted(meets)))
    elif kind == 'star' and n:
        meets = {tuple(sorted((order[0], q))) for q in order[1:] if r.random() < .7}
    else:
        meets = {q for q in pairs if r.random() < p}
    ids = iter(range(100))
    cl = [GCluster(i, [GObs(next(ids)) for _ in range(r.choice([1, 1, 2]))], meets) for i in range(n)]
    H.notes['meets'] = (n, sorted(meets))
    given = list(cl)
    got, flag = M.get_intersection_clusters(cl)
    H.check('intersections are reported exactly when some pair intersects', bool(flag) == bool(meets))
    if not meets:
        H.check('the clusters are returned unchanged', len(got) == n and all(a is b for a, b in zip(got, given)))
        return
    comp = list(range(n))
    for _ in range(n):
        for i, j in meets:
            comp[i] = comp[j] = min(comp[i], comp[j])
    owner = {o.id(): comp[c.i] for c in given for o in c.obstacles}
    flat = [o.id() for c in got for o in c.obstacles]
    H.check('every obstacle in exactly one cluster', sorted(flat) == sorted(owner))
    H.check('merged exactly when connected', sorted(sorted(o.id() for o in c.obstacles) for c in got)
            == sorted(sorted(o for o in owner if owner[o] == k) for k in set(comp)))
