"""P16: equilateral kernel triangle."""
from pydv.contract import unit
from .common import *


@unit('P16', 'equilateral_triangle', ['utils.cg.equilateral_triangle'])
def tri(H):
    cg = H.mod('utils.cg')
    c = H.vec('c')
    c0 = [c[0], c[1]]
    L = H.real('side', nonneg=True)
    kind = H.choose('rot', ['default', 'zero', 'any'])
    form = H.choose('form', ['array', 'list'])
    arg = c if form == 'array' else [c[0], c[1]]
    if kind == 'default':
        t = cg.equilateral_triangle(arg, L)
        rc, rs = 1, 0
    else:
        rot = 0 if kind == 'zero' else H.angle('angle')
        t = cg.equilateral_triangle(arg, L, rot)
        rc, rs = H.cos(rot), H.sin(rot)
    sc = None if H.sym else (1 + L + abs(c0[0]) + abs(c0[1])) ** 2
    H.check('three vertices', len(t) == 3 and all(len(v) == 2 for v in t))
    a, b, d = t[0], t[1], t[2]
    H.check('centroid is at the requested point', H.eqv([a[0] + b[0] + d[0], a[1] + b[1] + d[1]], [3 * c0[0], 3 * c0[1]], sc))
    H.check('first side has the requested length', H.eq(d2(a, b), L * L, sc))
    H.check('second side has the requested length', H.eq(d2(b, d), L * L, sc))
    H.check('third side has the requested length', H.eq(d2(d, a), L * L, sc))
    s3 = H.sqrt(3)
    # vertices clockwise, for every rotation
    H.check('vertices counted in the same orientation for every rotation', H.eq(2 * orient(a, b, d), -s3 * L * L, sc))
    # the rotation turns the triangle: the first vertex is straight above the centroid, turned by the angle
    H.check('turned by the requested rotation', H.eqv(smul(s3, vsub(a, c0)), [-rs * L, rc * L], sc))
    H.check('the argument is not modified', H.eqv(c, c0))
