"""P24: segment against polygon and hull, whatever mixture of contacts occurs."""
from pydv.contract import unit
from .common import *
from .p04_ellipse_line import POSES, POSE
from .p07_radial import frames

PL = 'obstacles.polygon.Polygon.line_intersection'
CB = 'obstacles.starshaped_primitive_combination.StarshapedPrimitiveCombination.'
KINDS = ['empty', 'Point', 'MultiPoint', 'LineString', 'MultiLineString', 'GeometryCollection']


def contact_set(H, kind, on):
    """what shapely returns for segment and boundary: (geometry, number of parts, size(i), coordinate(i, j)).
    Every coordinate satisfies on; the parts are all the isolated contacts and all the stretches."""
    from pydv import shshim
    from pydv.sym import I

    class Result(shshim.Geo):
        pass
    if kind == 'empty':
        g = shshim.LineString([])
        g.data['empty'] = True
        return g, 0, None, None
    if kind == 'Point':
        p = H.fvec('contact')
        on(p)
        g = shshim.Point([p[0], p[1]])
        g.data['empty'] = False
        return g, 1, lambda i: 1, lambda i, j: p
    m = 1 if kind == 'LineString' else H.int('parts', 2)
    size_f = H.intfunc('size')
    xf, yf = H.realfunc('cx', 2), H.realfunc('cy', 2)
    isline = H.boolfunc('stretch')

    def size(i):
        s = size_f(i)
        if kind in ('MultiPoint',):
            return 1
        line = H.decide(isline(i)) if kind == 'GeometryCollection' else True
        if not line:
            return 1
        H.assume(H.ge(s, 2))
        return s

    def coord(i, j):
        v = H.arr(xf(i, j), yf(i, j))
        on(v)
        return v

    def part(i):
        if kind == 'MultiPoint' or kind == 'GeometryCollection' and not H.decide(isline(i)):
            q = coord(i, 0)
            return shshim.Point([q[0], q[1]])
        n = size(i)
        q = shshim.LineString(H.seq(n, lambda j: tuple(coord(i, j))))
        return q
    if kind == 'LineString':
        g = part(0)
    else:
        g = Result()
        g.geom_type = kind
        g.geoms = H.seq(m, part)
    g.data['empty'] = False
    return g, m, size, coord


def on_both(H, ring, l0, l1):
    def on(p):
        i, b = H.member(ring, p)
        H.assume(b)
        H.assume(between(H, l0, l1, p))
    return on


def between(H, l0, l1, p):
    return H.pred('on_segment', [l0[0], l0[1], l1[0], l1[1], p[0], p[1]])


def hook(H, poly, line, g):
    """intersection of the boundary of poly with the segment"""
    from pydv.errors import OutOfReach

    def f(a, b):
        from pydv import shshim
        ring, seg = (a, b) if isinstance(a, shshim.Ring) else (b, a)
        if not isinstance(seg, shshim.LineString) or not isinstance(ring, shshim.Ring):
            raise OutOfReach('intersection of other sets')
        if len(seg.pts) != 2:
            raise OutOfReach('intersection with a longer line')
        H.check('the segment of the query is intersected with the boundary', H.and_(H.eqv(seg.pts[0], line[0]), H.eqv(seg.pts[1], line[1])), 'precondition')
        return g
    poly.exterior.data['intersection'] = f


def member_of(H, name, res, n, size, p, i, j):
    """the contact p (coordinate j of part i) is in the result"""
    if not hasattr(res, '_seq_'):
        H.check(name, H.or_(*[H.eqv(r, p) for r in res]) if len(res) else H.F)
        return
    ws = [f.place(i, j) for f in H.path.__dict__.get('flats', [])] or [i + j]
    H.check(name, H.or_(*[H.and_(H.le(0, w), H.lt(w, res.n), H.eqv(res.at(w), p)) for w in ws]))


def judge(H, res, back, g, n, size, coord, boundary, l0, l1):
    if n == 0 and not hasattr(n, 't'):
        H.check('no contact, no point', isinstance(res, list) and len(res) == 0)
        return
    H.check('a list of points', hasattr(res, '_seq_') or isinstance(res, list))
    i = 0 if not hasattr(n, 't') else H.int('part', 0)
    if hasattr(n, 't'):
        H.assume(H.lt(i, n))
    s = size(i)
    last = H.choose('end', [False, True])
    j = (s - 1) if last else 0
    p = coord(i, j)

    class View:
        pass
    if hasattr(res, '_seq_'):
        r = res.map(back)
    else:
        r = [back(v) for v in res]
    member_of(H, 'every isolated contact and both ends of every stretch', r, n, size, p, i, j)
    if hasattr(r, '_seq_'):
        k = H.int('k', 0)
        H.assume(H.lt(k, r.n))
        qs = [r.at(k)]
    else:
        qs = r
    for q in qs:
        H.check('every point is on the boundary', boundary(q))
        H.check('every point is on the segment', between(H, l0, l1, q))


@unit('P24', 'polygon', [PL], assumes=['shapely: the intersection of a segment with the boundary consists of exactly the isolated contacts and stretches'])
def polygon(H):
    mm, ps, fin, fout = frames(H)
    fr = Frames(H, mm, ps)
    O = H.mod('obstacles')
    if not H.sym:
        return concrete(H, fr, lambda g: O.Polygon(g, motion_model=mm, id='temp') if H.choose('class', [False, True]) else star_of(O, g, mm),
                        lambda o, l: o.line_intersection([fr.point(l[0], fin), fr.point(l[1], fin)], fin, fout), lambda p: fr.back(p, fout), mm is None)
    P = H.abs_polygon()
    o = O.Polygon(P, motion_model=mm, id='temp')
    l0, l1 = H.vec('l0'), H.vec('l1')
    boundary = lambda p: H.member(P, p)[1]
    g, n, size, coord = contact_set(H, H.choose('kind', KINDS), on_both(H, P, l0, l1))
    hook(H, P, (l0, l1), g)
    line = [fr.point(l0, fin), fr.point(l1, fin)]
    res = o.line_intersection(line, input_frame=fin, output_frame=fout)
    judge(H, res, lambda p: fr.back(p, fout), g, n, size, coord, boundary, l0, l1)


def star_of(O, g, mm):
    return O.Polygon(g, motion_model=mm, id='temp')


@unit('P24', 'hull of a combined obstacle', [CB + '_hull_cluster_line_intersections', CB + 'line_intersection'],
      assumes=['shapely: the intersection of a segment with the boundary consists of exactly the isolated contacts and stretches'])
def hull(H):
    O = H.mod('obstacles')
    if not H.sym:
        import shapely
        return concrete(H, None, lambda g: O.StarshapedPrimitiveCombination([], shapely.geometry.Polygon(g), H.arr(0, 0), id='temp'),
                        lambda o, l: o.line_intersection([H.arr(*l[0]), H.arr(*l[1])]), lambda p: p, True)
    l0, l1 = H.vec('l0'), H.vec('l1')
    kind = H.choose('kind', ['no hull'] + KINDS)
    P = H.abs_polygon()
    o = O.StarshapedPrimitiveCombination([], None if kind == 'no hull' else P, H.arr(0, 0), id='temp')
    boundary = lambda p: H.member(P, p)[1]
    g, n, size, coord = contact_set(H, 'empty' if kind == 'no hull' else kind, on_both(H, P, l0, l1))
    hook(H, P, (l0, l1), g)
    res = o.line_intersection([l0, l1])
    judge(H, res, lambda p: p, g, n, size, coord, boundary, l0, l1)


# ---------------------------------------------------------------- the real code against exact contacts
def concrete(H, fr, make, query, back, exact_pose):
    from fractions import Fraction as Fr
    g = H.data('shape', int_polygon)
    k = H.choose('line', ['random', 'vertices', 'edge', 'long'])
    m = len(g)
    if k == 'random' or not exact_pose:
        l = H.data('seg', lambda r: [[r.uniform(-6, 6), r.uniform(-6, 6)] for _ in (0, 1)])
    else:
        i, j = H.int('i', 0, m - 1), H.int('j', 0, m - 1)
        a, b = g[i], g[(i + 1) % m] if k == 'edge' else g[j]
        H.assume(a != b)
        s, t = (0, 1) if H.choose('ext', [False, True]) else (-1, 2)
        l = [[a[c] + s * (b[c] - a[c]) for c in (0, 1)], [a[c] + t * (b[c] - a[c]) for c in (0, 1)]]
        if k == 'long':
            d = H.choose('dir', [(1, 0), (0, 1)])
            l = [[a[0] - 20 * d[0], a[1] - 20 * d[1]], [a[0] + 20 * d[0], a[1] + 20 * d[1]]]
    must, some = contacts([[Fr(x) for x in p] for p in g], [[Fr(x) for x in p] for p in l])
    if not exact_pose or k == 'random':
        H.assume(some is not None and transversal(g, l))
    o = make(g)
    res = query(o, l)
    H.check('a list of points', isinstance(res, list) and all(len(p) == 2 for p in res))
    res = [back(p) for p in res]
    for p in must:
        H.check('every isolated contact and both ends of every stretch', any(abs(q[0] - float(p[0])) + abs(q[1] - float(p[1])) < 1e-6 for q in res))
    for q in res:
        H.check('every point is on the boundary', poly_dist(g, q) < 1e-6)
        H.check('every point is on the segment', seg_dist(l[0], l[1], q) < 1e-6)


def int_polygon(r):
    for _ in range(100):
        n = r.randint(3, 8)
        pts = [[r.randint(-4, 4), r.randint(-4, 4)] for _ in range(n)]
        if r.random() < .5:
            h = [[0, 0]]
            pts, x = [[0, 0]], 0
            for _ in range(r.randint(1, 3)):         # battlements: edges on one line
                w = r.randint(1, 2)
                pts += [[x + w, 0], [x + w, -1], [x + 2 * w, -1], [x + 2 * w, 0]] if r.random() < .7 else [[x + w, 0]]
                x = pts[-1][0]
            pts += [[x + 1, 0], [x + 1, 3], [0, 3]]
        if len(set(map(tuple, pts))) == len(pts) and simple(pts) and abs(area2(pts)) > .5:
            return [[float(a), float(b)] for a, b in pts]
    return [[0., 0.], [4., 0.], [0., 4.]]


def transversal(g, l):
    """no end and no vertex near the line, so that rounding cannot change the contacts"""
    return all(seg_dist(l[0], l[1], p) > 1e-3 for p in g) and all(poly_dist(g, p) > 1e-3 for p in l)


def contacts(g, l):
    """exact: (isolated contacts and ends of maximal stretches, any contact)"""
    a, b = l
    d = [b[0] - a[0], b[1] - a[1]]
    dd = d[0] ** 2 + d[1] ** 2
    iv = []
    for i in range(len(g)):
        p, q = g[i], g[(i + 1) % len(g)]
        e = [q[0] - p[0], q[1] - p[1]]
        c = d[0] * e[1] - d[1] * e[0]
        w = [p[0] - a[0], p[1] - a[1]]
        if c != 0:
            t, s = (w[0] * e[1] - w[1] * e[0]) / c, (w[0] * d[1] - w[1] * d[0]) / c
            if 0 <= t <= 1 and 0 <= s <= 1:
                iv.append((t, t))
        elif w[0] * d[1] - w[1] * d[0] == 0:
            ts = sorted(((v[0] - a[0]) * d[0] + (v[1] - a[1]) * d[1]) / dd for v in (p, q))
            lo, hi = max(ts[0], 0), min(ts[1], 1)
            if lo <= hi:
                iv.append((lo, hi))
    iv.sort()
    out = []
    for lo, hi in iv:
        if out and lo <= out[-1][1]:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    ts = sorted({t for v in out for t in v})
    return [[a[0] + t * d[0], a[1] + t * d[1]] for t in ts], bool(ts)
