"""P05: tangent points of an ellipse."""
from pydv.contract import unit
from .common import *
from .p04_ellipse_line import ellipse, quadric, POSES, POSE

EL = 'obstacles.ellipse.Ellipse.'


def setup(H):
    F = H.mod('obstacles').Frame
    if H.sym:
        pk, fi, fo = H.choose('pose and frames', POSE)
        mm, ps = mk_pose(H, (pk,))
    else:
        mm, ps = mk_pose(H, POSES)
        fi, fo = H.choose('fin', ['G', 'O']), H.choose('fout', ['G', 'O'])
    fin, fout = {'G': F.GLOBAL, 'O': F.OBSTACLE}[fi], {'G': F.GLOBAL, 'O': F.OBSTACLE}[fo]
    E, a, b = ellipse(H, mm)
    fr = Frames(H, mm, ps)
    u = H.vec('u')                              # any point, in units of the semi-axes
    if not H.sym and H.choose('axis', [True, False]):
        u[H.choose('which', [0, 1])] = H.choose('unit', [0., 1., -1.])
    return E, a, b, fr, fin, fout, u, [a * u[0], b * u[1]]


@unit('P05', 'tangent_points', [EL + 'tangent_points', EL + 'point_location', 'obstacles.obstacle.Obstacle.exterior_point'], feas_nlsat=300)
def tangents(H):
    E, a, b, fr, fin, fout, u, x = setup(H)
    uu = vdot(u, u)
    if not H.sym:
        H.assume(abs(uu - 1) > 1e-3 and uu < 1e4)
    r = E.tangent_points(fr.point(x, fin), input_frame=fin, output_frame=fout)
    H.check('a list', isinstance(r, list))
    if H.decide(H.le(uu, 1)):
        H.check('no tangent points for a point that is not exterior', len(r) == 0)
        return
    H.check('exactly two tangent points', len(r) == 2)
    p, q = [fr.back(t, fout) for t in r]
    sc = None if H.sym else sq(a) * sq(b) * 10
    for n, t in (('first', p), ('second', q)):
        H.check('%s tangent point lies on the ellipse' % n, H.eq(quadric(a, b, t), 0, sc))
        H.check('the line through the %s tangent point touches the ellipse' % n,
                H.eq(sq(b) * t[0] * x[0] + sq(a) * t[1] * x[1], sq(a) * sq(b), sc and sc * (1 + uu)))
    # seen from the point: the centre is clockwise of the first and counterclockwise of the second
    w = H.sqrt(uu - 1)
    c1, c2 = orient(x, p, [0, 0]), orient(x, q, [0, 0])
    sk = None if H.sym else a * b * (1 + uu)
    if H.sym:
        H.lemma('the centre seen from the first tangent line', H.eq(c1, -a * b * w))
        H.lemma('the centre seen from the second tangent line', H.eq(c2, a * b * w))
        H.by('area factor', H.gt(a * b * w, 0), [H.gt(a, 0), H.gt(b, 0), H.ge(w, 0), H.eq(w * w, uu - 1), H.gt(uu, 1)], [a, b, w, u[0], u[1]])
    H.check('the first point is reached last when turning counterclockwise', H.lt(c1, 0, sk))
    H.check('the second point is reached first', H.gt(c2, 0, sk))
    if not H.sym:
        for i in range(24):
            e = [a * H.cos(i * .2618), b * H.sin(i * .2618)]
            H.check('the obstacle is seen clockwise from the first to the second',
                    H.and_(H.le(orient(x, p, e), 0, sk * 10), H.ge(orient(x, q, e), 0, sk * 10)))


@unit('P05', 'lemma: a polar line through a boundary point does not cross the ellipse', [], concrete=False)
def polar(H):
    """In units of the semi-axes: t on the circle, x with t.x = 1, e in the disc: the cross product of t-x and e-x never
       has the sign opposite to that of the centre; so the whole ellipse is on the side of the line where the centre is."""
    t, x, e = H.vec('t'), H.vec('x'), H.vec('e')
    H.assume(H.and_(H.eq(vdot(t, t), 1), H.eq(vdot(t, x), 1), H.le(vdot(e, e), 1)))
    ce, c0 = orient(x, t, e), orient(x, t, [0, 0])
    # t - x is perpendicular to t, so t - x = k * (-t_y, t_x)
    k = vcross(t, vsub(t, x))
    H.lemma('direction of the tangent', H.eqv(vsub(t, x), smul(k, [-t[1], t[0]])))
    H.lemma('cross product of a point of the disc', H.eq(ce, k * (1 - vdot(t, e))))
    H.lemma('cross product of the centre', H.eq(c0, k))
    H.by('a boundary tangent bounds the disc', H.le(vdot(t, e), 1),
         [H.eq(vdot(t, t), 1), H.le(vdot(e, e), 1), H.ge(sq(t[0] - e[0]) + sq(t[1] - e[1]), 0)], [])
    H.by('same side', H.and_(H.imp(H.lt(c0, 0), H.le(ce, 0)), H.imp(H.gt(c0, 0), H.ge(ce, 0))),
         [H.eq(ce, k * (1 - vdot(t, e))), H.eq(c0, k), H.le(vdot(t, e), 1)], [ce, c0, k, vdot(t, e)])
