"""P04: ellipse and segment."""
from pydv.contract import unit
from .common import *

EL = 'obstacles.ellipse.Ellipse.'


def ellipse(H, mm, xr=None):
    ax = [H.real('a', lo=H.frac(1, 50), hi=50) if not H.sym else H.real('a', pos=True),
          H.real('b', lo=H.frac(1, 50), hi=50) if not H.sym else H.real('b', pos=True)]
    form = 'array' if H.sym else H.choose('axes form', ['array', 'list'])
    E = H.mod('obstacles').Ellipse(H.arr(*ax) if form == 'array' else ax, xr=xr, motion_model=mm, id='temp')
    return E, ax[0], ax[1]


def quadric(a, b, p):
    return sq(b) * sq(p[0]) + sq(a) * sq(p[1]) - sq(a) * sq(b)


POSES = ('none', 'ghost', 'static')


def shape_of_line(H, l0, l1):
    """slopes that the concrete reading has to visit"""
    return H.choose('slope', ['any', 'vertical', 'horizontal', 'steep', 'tangent'])


POSE = [('none', 'G', 'G'), ('ghost', 'G', 'G'), ('ghost', 'G', 'O'), ('ghost', 'O', 'G'), ('ghost', 'O', 'O')]


def setup(H, slope, through=False, poses=None):
    """Every segment of positive length is (x, m x + c) with |m| <= 100 or (m y + c, y) with |m| < 1/100."""
    F = H.mod('obstacles').Frame
    if H.sym:
        pk, fi, fo = H.choose('pose and frames', poses or POSE)
        mm, ps = mk_pose(H, (pk,))
    else:
        mm, ps = mk_pose(H, POSES)
        fi, fo = H.choose('fin', ['G', 'O']), H.choose('fout', ['G', 'O'])
    fin, fout = {'G': F.GLOBAL, 'O': F.OBSTACLE}[fi], {'G': F.GLOBAL, 'O': F.OBSTACLE}[fo]
    E, a, b = ellipse(H, mm)
    fr = Frames(H, mm, ps)
    if H.sym:
        m, c = H.real('m'), H.real('c')
        s0, s1 = H.real('s0'), H.real('s1')
        if slope == 'shallow':
            on = lambda s: [s, m * s + c]
            H.assume(H.and_(H.le(m, 100), H.ge(m, -100)))
        else:
            on = lambda s: [m * s + c, s]
            H.assume(H.and_(H.lt(m, H.frac(1, 100)), H.gt(m, -H.frac(1, 100))))
        H.assume(H.not_(H.eq(s0, s1)))
        l0, l1 = on(s0), on(s1)
        k = (on, s0, s1, m, c)
    else:
        import math
        th = H.angle('theta')
        k = [a * math.cos(th), b * math.sin(th)]           # a boundary point of the ellipse
        sl = H.choose('slope', ['any', 'horizontal', 'tangent', 'far'] if slope == 'shallow' else ['vertical', 'vertical', 'steep', 'tangent', 'far'])
        d = {'vertical': [0., H.real('d')], 'horizontal': [H.real('d'), 0.],
             'steep': [H.real('e') * 1e-3, H.real('d')],
             'tangent': [-a * math.sin(th), b * math.cos(th)]}.get(sl) or list(H.vec('d'))
        t0, t1 = H.real('t0'), H.real('t1')
        if through and sl != 'far':
            t0, t1 = min(t0, 0), max(t1, 0)
        off = [0, 0] if sl != 'far' else list(H.vec('off'))
        l0 = [k[0] + off[0] + t0 * d[0], k[1] + off[1] + t0 * d[1]]
        l1 = [k[0] + off[0] + t1 * d[0], k[1] + off[1] + t1 * d[1]]
        H.assume(H.gt(d2(l0, l1), 1e-4))
        H.assume(d2(l0, l1) < 1e4)
    return E, a, b, fr, fin, fout, l0, l1, k


@unit('P04', 'lemma: every segment has one of the two forms', [], concrete=False)
def forms(H):
    p, q = H.vec('p'), H.vec('q')
    dx, dy = q[0] - p[0], q[1] - p[1]
    H.assume(H.or_(H.not_(H.eq(dx, 0)), H.not_(H.eq(dy, 0))))
    if H.decide(H.le(H.abs(dy), 100 * H.abs(dx))):
        m = H.div(dy, dx)
        c = p[1] - m * p[0]
        H.check('shallow', H.and_(H.eq(q[1], m * q[0] + c), H.le(m, 100), H.ge(m, -100)))
        H.check('ends differ', H.not_(H.eq(p[0], q[0])))
    else:
        m = H.div(dx, dy)
        c = p[0] - m * p[1]
        H.check('steep', H.and_(H.eq(q[0], m * q[1] + c), H.lt(m, H.frac(1, 100)), H.gt(m, -H.frac(1, 100))))
        H.check('ends differ', H.not_(H.eq(p[1], q[1])))


def sound(H, slope):
    E, a, b, fr, fin, fout, l0, l1, _ = setup(H, slope)
    r = E.line_intersection([fr.point(l0, fin), fr.point(l1, fin)], input_frame=fin, output_frame=fout)
    H.check('a list of points', isinstance(r, list))
    H.check('at most two points', len(r) <= 2)
    d = vsub(l1, l0)
    D = vdot(d, d)
    for p in r:
        q = fr.back(p, fout)
        sc = None if H.sym else sq(a) * sq(b) * 100
        H.check('a returned point lies on the ellipse', H.eq(quadric(a, b, q), 0, sc))
        c = vcross(vsub(q, l0), d)
        H.check('a returned point lies on the line', H.eq(c, 0, None if H.sym else D * 1e2 + 1))
        s = vdot(vsub(q, l0), d)
        if H.sym:
            bx = lambda i: H.and_(H.not_(H.eq(l0[i], l1[i])), H.le(H.min(l0[i], l1[i]), q[i]), H.le(q[i], H.max(l0[i], l1[i])))
            H.by('a returned point lies between the end points', H.and_(H.ge(s, 0), H.le(s, D)),
                 [H.or_(bx(0), bx(1)), H.eq(c, 0)], [q[0], q[1]])
        else:
            H.check('a returned point lies between the end points', H.and_(H.ge(s, 0, D + 1), H.le(s, D, D + 1)))


def complete(H, slope):
    E, a, b, fr, fin, fout, l0, l1, k = setup(H, slope, True)
    if H.sym:
        on, s0, s1, m, c = k
        s = H.real('s')
        H.assume(H.and_(H.le(H.min(s0, s1), s), H.le(s, H.max(s0, s1))))
        k = on(s)
        H.assume(H.eq(quadric(a, b, k), 0))
    else:
        d = vsub(l1, l0)
        D = vdot(d, d)
        s = vdot(vsub(k, l0), d)
        H.assume(abs(quadric(a, b, k)) < 1e-9 * (a * b) ** 2 and abs(vcross(vsub(k, l0), d)) < 1e-9 * D)
        H.assume(1e-9 * D <= s <= (1 - 1e-9) * D)
        # away from grazing contacts, where rounding decides whether there is a contact at all
        g = [k[0] / a ** 2, k[1] / b ** 2]
        H.assume(abs(vdot(g, d)) > 1e-4 * H.sqrt(D * vdot(g, g)))
    r = E.line_intersection([fr.point(l0, fin), fr.point(l1, fin)], input_frame=fin, output_frame=fout)
    qs = [fr.back(p, fout) for p in r]
    H.check('every crossing is returned', H.or_(*[H.eqv(q, k, None if H.sym else 100) for q in qs]) if qs else H.F)


for _s in ('shallow', 'steep'):
    unit('P04', 'line_intersection: sound, %s segments' % _s, [EL + 'line_intersection'], feas_nlsat=300, feas_ms=60)(
        lambda H, _s=_s: sound(H, _s))
    unit('P04', 'line_intersection: complete, %s segments' % _s, [EL + 'line_intersection'], feas_nlsat=300, feas_ms=60, trials=2000)(
        lambda H, _s=_s: complete(H, _s))
