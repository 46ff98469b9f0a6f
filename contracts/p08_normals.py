"""P08: boundary normals."""
from pydv.contract import unit
from .common import *
from .p04_ellipse_line import quadric, EL, POSES, POSE
from .p07_radial import Maps, frames, call, inside_point, star_points, SP, ST


# ---------------------------------------------------------------- ellipse
class MapsIn(Maps):
    """contract of boundary_mapping in any frame"""
    def __init__(self, qual, xr, x, B, fr):
        Maps.__init__(self, qual, xr, x, B)
        self.fr = fr

    def check_pre(self, H, a):
        F = H.mod('obstacles').Frame
        H.check('call of boundary_mapping: for the point of the query',
                H.eqv(self.fr.back(a['x'], a.get('input_frame', F.GLOBAL)), self.x), 'precondition')

    def result(self, H, a):
        return self.fr.point(self.B, a.get('output_frame', H.mod('obstacles').Frame.GLOBAL))


@unit('P08', 'ellipse', [EL + 'normal', EL + '__init__'], feas_nlsat=200)
def ell_normal(H):
    mm, ps, fin, fout = frames(H)
    fr = Frames(H, mm, ps)
    a, b = (H.real('a', pos=True), H.real('b', pos=True)) if H.sym else (H.real('a', .05, 30), H.real('b', .05, 30))
    xr, u = inside_point(H, a, b)
    E = H.mod('obstacles').Ellipse([a, b], xr=H.arr(*xr), motion_model=mm, id='temp')
    on = H.choose('x is on the boundary', ['default', False, True])
    if H.sym:
        w = H.vec('w')
        H.assume(H.eq(vdot(w, w), 1))
        B = [a * w[0], b * w[1]]
        if on is True:
            x = B
        else:
            x = H.vec('x')
            H.assume(H.gt(d2(x, xr), 0))
            H.use(MapsIn(EL + 'boundary_mapping', xr, x, B, fr))
            if H.choose('direction', ['any', 'no boundary point']) != 'any':
                class No(MapsIn):
                    def result(self, H, a):
                        return None
                H.use(No(EL + 'boundary_mapping', xr, x, B, fr))
                H.check('no normal without a boundary point', normal(H, E, fr.point(x, fin), fin, fout, on) is None)
                return
    else:
        t = H.angle('t')
        w = [H.cos(t), H.sin(t)]
        B = [a * w[0], b * w[1]]
        k = 1. if on is True else H.real('k', .1, 4)
        x = [xr[i] + k * (B[i] - xr[i]) for i in (0, 1)]
    r = normal(H, E, fr.point(x, fin), fin, fout, on)
    n = fr.dir_back(r, fout)
    G = [sq(b) * B[0], sq(a) * B[1]]
    if H.sym:
        H.by('the boundary point is not the centre', H.gt(vdot(w, w), 0), [H.eq(vdot(w, w), 1)], [w[0], w[1]])
    sc = None if H.sym else 1 + 1e3 * sum(abs(v) for v in G)
    H.check('unit length', H.eq(vdot(n, n), 1))
    H.check('perpendicular to the boundary', H.eq(vcross(n, G), 0, sc))
    H.check('outward', H.gt(vdot(n, G), 0))
    H.check('away from the centre', H.gt(vdot(n, B), 0)) if not H.sym else None


def normal(H, o, x, fin, fout, on='default'):
    F = H.mod('obstacles').Frame
    kw = {}
    if on != 'default':
        kw['x_is_boundary'] = on
    if fin != F.GLOBAL or fout != F.GLOBAL or H.choose('explicit', [True, False]):
        kw.update(input_frame=fin, output_frame=fout)
    return o.normal(x, **kw)


# ---------------------------------------------------------------- starshaped polygon
def shaped(H, mm):
    """a starshaped polygon with any number of vertices, its reference point set once or again: (obstacle, vertices, xr)"""
    O = H.mod('obstacles')
    again = H.choose('reference point', ['given', 'moved'])
    if H.sym:
        g = H.abs_polygon()
        x0 = H.vec('x0')
        o = O.StarshapedPolygon(g, xr=[x0[0], x0[1]], motion_model=mm, id='temp')
        xr = [x0[0], x0[1]]
        if again == 'moved':
            xr = H.vec('xr')
            o.set_xr(H.arr(*xr))
        return o, g, xr
    pts, c = H.data('star', star_points)
    o = O.StarshapedPolygon(pts, xr=c, motion_model=mm, id='temp')
    if again == 'moved':
        import shapely
        k, s = H.int('towards', 0, len(pts) - 1), H.real('s', 0, .9)
        for j in range(40):
            c1 = [c[i] + s * .8 ** j * (pts[k][i] - c[i]) for i in (0, 1)]
            if all(orient(pts[i], pts[(i + 1) % len(pts)], c1) * area2(pts) > 1e-3 for i in range(len(pts))):
                break
        else:
            c1 = c
        c = c1
        o.set_xr(np_arr(c))
    return o, pts, c


def np_arr(v):
    import numpy
    return numpy.array(v)


@unit('P08', 'starshaped polygon: vertices sorted by angle around the reference point', [SP + '_update_vertex_angles', SP + 'set_xr', SP + '__init__'])
def sorted_vertices(H):
    o, g, xr = shaped(H, None)
    W = o.vertices
    if not H.sym:
        import math
        key = lambda p: (round(float(p[0]), 9), round(float(p[1]), 9))
        H.check("the polygon's own vertices", sorted(map(key, W)) == sorted(map(key, g)))
        an = [math.atan2(p[1] - xr[1], p[0] - xr[0]) for p in W]
        H.check('ascending angles', all(s <= t for s, t in zip(an, an[1:])))
        H.check('their angles', len(o.vertex_angles) == len(W) + 1 and all(abs(s - t) < 1e-12 for s, t in zip(an, o.vertex_angles)))
        H.check('one turn later', abs(o.vertex_angles[-1] - o.vertex_angles[0] - 2 * math.pi) < 1e-9)
        return
    N = g.n
    H.check('all of them', H.eq(W.n, N))
    j, k = H.int('j', 0), H.int('k', 0)
    H.assume(H.and_(H.lt(j, k), H.lt(k, N)))
    u, v = H.at(W, j), H.at(W, k)
    H.inst2(j, k)
    H.check('ascending angles', H.le(angle(H, u, xr), angle(H, v, xr)))
    VA = o.vertex_angles
    H.check('their angles', H.and_(H.eq(VA.n, N + 1), H.eq(H.at(VA, k), angle(H, v, xr)), H.eq(H.at(VA, j), angle(H, u, xr))))
    H.check('one turn later', H.eq(H.at(VA, N), H.at(VA, 0) + 2 * H.pi))
    wu, wv = H.source(W, j, g.verts), H.source(W, k, g.verts)
    H.check("the polygon's own vertices", H.and_(H.le(0, wu), H.lt(wu, N), H.eqv(u, H.at(g.verts, wu))))
    H.check('each of them once', H.ne(wu, wv))


def angle(H, p, c):
    return H.atan2(p[1] - c[1], p[0] - c[0])


@unit('P08', 'starshaped polygon', [SP + 'normal', SP + '_update_vertex_angles'],
      assumes=['the vertices of a simple polygon sorted by angle around an interior point of its kernel are its boundary in counterclockwise order (geometry)'])
def star_normal(H):
    mm, ps, fin, fout = frames(H)
    fr = Frames(H, mm, ps)
    if H.sym:
        H.angle_pairs(False)
    o, g, xr = shaped(H, mm)
    if not H.sym:
        return concrete(H, fr, ps, o, g, xr, fin, fout)
    N, W = g.n, o.vertices
    x = H.vec('x')
    q = vsub(x, xr)
    H.assume(H.gt(vdot(q, q), 0))
    i = H.int('edge', 0)
    H.assume(H.lt(i, N))
    first = H.choose('first edge', [True, False])
    if first:
        H.assume(H.eq(i, 0))
        i, im = 0, N - 1
    else:
        H.assume(H.lt(0, i))
        im = i - 1
    A, B = H.at(W, im), H.at(W, i)
    pa, pb = vsub(A, xr), vsub(B, xr)
    H.assume(H.gt(vcross(pa, pb), 0))                       # geometry
    H.assume(H.and_(H.gt(vcross(pa, q), 0), H.gt(vcross(q, pb), 0)))     # the ray crosses this edge
    ta, tb = angle(H, A, xr), angle(H, B, xr)
    tq = angle(H, fr.loc(fr.point(x, fin)) if is_global(H, fin) and mm is not None else x, xr)
    H.relate(ta, tq)
    H.relate(tq, tb)
    da, db, pi = tq - ta, tb - tq, H.pi
    between = H.and_(*[H.or_(H.and_(H.gt(d, 0), H.lt(d, pi)), H.lt(d, -pi)) for d in (da, db)])
    H.lemma('directions and angles', between)
    rng = [H.and_(H.gt(t, -pi), H.le(t, pi)) for t in (ta, tb, tq)]
    if first:
        H.inst2(0, N - 1)
        H.by('angle of the query', H.or_(H.gt(tq, ta), H.lt(tq, tb)), [between, H.ge(ta, tb)] + rng, [ta, tb, tq])
    else:
        H.inst2(im, i)
        H.by('angle of the query', H.and_(H.lt(ta, tq), H.lt(tq, tb)), [between, H.ge(tb, ta)] + rng, [ta, tb, tq])

    def found(s):
        ks = [i, im, 0, N - 1, N, s, s - 1]
        H.inst(*ks)
        for j in (s, s - 1):
            for k in (i, im):
                H.inst2(j, k)
                H.inst2(k, j)
        vs = H.at(o.vertex_angles, s)
        rs = H.and_(H.ge(s, 0), H.le(s, N), H.ge(i, 0), H.lt(i, N), H.ge(N, 3))
        H.lemma('the angle found is larger', H.gt(vs, tq))
        if first:
            H.by('the search finds the edge crossed by the ray', H.or_(H.eq(s, 0), H.eq(s, N)),
                 [rs, H.gt(vs, tq), H.or_(H.gt(tq, ta), H.lt(tq, tb)), H.imp(H.and_(H.le(s, im)), H.le(vs, ta)), H.imp(H.lt(0, s), H.le(tb, tq))], [vs, ta, tb, tq])
        else:
            H.by('the search finds the edge crossed by the ray', H.eq(s, i),
                 [rs, H.gt(vs, tq), H.lt(ta, tq), H.lt(tq, tb), H.imp(H.le(s, im), H.le(vs, ta)), H.imp(H.lt(i, s), H.le(tb, tq))], [vs, ta, tb, tq])
    H.on_search(found)
    r = normal(H, o, fr.point(x, fin), fin, fout)
    n = fr.dir_back(r, fout)
    e = vsub(B, A)
    H.check('perpendicular to the edge crossed by the ray', H.eq(vdot(n, e), 0))
    H.check('unit length', H.eq(vdot(n, n), 1))
    H.check('outward', H.gt(vdot(n, pa), 0))


def concrete(H, fr, ps, o, pts, xr, fin, fout):
    import math
    pts = [list(p) for p in pts]
    if area2(pts) < 0:
        pts.reverse()
    k = H.choose('direction', ['any', 'axis', 'near vertex'])
    if k == 'any':
        x = H.vec('x')
    elif k == 'axis':
        d = H.choose('ax', [(1, 0), (-1, 0), (0, 1), (0, -1)])
        x = [xr[0] + d[0] * 2., xr[1] + d[1] * 2.]
    else:
        v, t = pts[H.int('v', 0, len(pts) - 1)], H.choose('eps', [1e-3, -1e-3])
        d = vsub(v, xr)
        x = [xr[0] + d[0] - t * d[1], xr[1] + d[1] + t * d[0]]
    q = vsub(x, xr)
    H.assume(vdot(q, q) > 1e-4)
    m = len(pts)
    es = [(pts[j], pts[(j + 1) % m]) for j in range(m)]
    es = [(A, B) for A, B in es if vcross(vsub(A, xr), q) > 1e-6 and vcross(q, vsub(B, xr)) > 1e-6]
    H.assume(len(es) == 1)
    A, B = es[0]
    n = fr.dir_back(normal(H, o, fr.point(x, fin), fin, fout), fout)
    e = vsub(B, A)
    H.check('perpendicular to the edge crossed by the ray', abs(vdot(n, e)) < 1e-6)
    H.check('unit length', abs(vdot(n, n) - 1) < 1e-9)
    H.check('outward', vdot(n, vsub(A, xr)) > 0)
