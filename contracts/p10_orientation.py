"""P10: orientation predicates."""
from pydv.contract import unit
from .common import *

CG = 'utils.cg.'
THR = 1e-10


def pts(H):
    return H.vec('a'), H.vec('b'), H.vec('c')


@unit('P10', 'trichotomy', [CG + 'is_cw', CG + 'is_ccw', CG + 'is_collinear', CG + 'orientation_val'])
def trichotomy(H):
    cg = H.mod('utils.cg')
    a, b, c = pts(H)
    cw, ccw, col = bool(cg.is_cw(a, b, c)), bool(cg.is_ccw(a, b, c)), bool(cg.is_collinear(a, b, c))
    o = orient(a, b, c)
    edge = H.or_(H.eq(o, THR), H.eq(o, -THR))          # the classification at exactly the threshold is left open
    H.check('not both clockwise and counterclockwise', not (cw and ccw))
    H.check('clockwise triples are not collinear', not (cw and col))
    H.check('counterclockwise triples are not collinear', not (ccw and col))
    H.check('exactly one of clockwise, counterclockwise, collinear', H.or_(edge, (cw + ccw + col) == 1))
    sc = None if H.sym else 1 + 1e3 * (abs(a).sum() + abs(b).sum() + abs(c).sum()) ** 2
    H.check('clockwise turns right', H.imp(cw, H.lt(o, 0, sc)))
    H.check('counterclockwise turns left', H.imp(ccw, H.gt(o, 0, sc)))
    H.check('a right turn is clockwise', H.imp(H.lt(o, -2 * THR), cw))
    H.check('a left turn is counterclockwise', H.imp(H.gt(o, 2 * THR), ccw))
    H.check('collinear points do not turn', H.imp(col, H.and_(H.le(o, 2 * THR, sc), H.ge(o, -2 * THR, sc))))
    H.check('points that do not turn are collinear', H.imp(H.eq(o, 0), col) if H.sym else H.T)


@unit('P10', 'orientation value', [CG + 'orientation_val', CG + 'np_orientation_val'])
def value(H):
    cg = H.mod('utils.cg')
    a, b, c = pts(H)
    v = cg.orientation_val(a, b, c)
    sc = None if H.sym else 1 + (abs(a).sum() + abs(b).sum() + abs(c).sum()) ** 2
    H.check('value is minus the turn', H.eq(v, -orient(a, b, c), sc))
    H.check('works on lists as on arrays', H.eq(cg.orientation_val(list(a), list(b), list(c)), v))
    z = H.vec('z')
    H.check('swapping two points changes the sign', H.eq(cg.orientation_val(b, a, c), -v, sc))
    H.check('swapping the other two points changes the sign', H.eq(cg.orientation_val(a, c, b), -v, sc))
    H.check('cyclic rotation keeps the value', H.eq(cg.orientation_val(b, c, a), v, sc))
    sc2 = None if H.sym else 1 + (abs(a).sum() + abs(b).sum() + abs(c).sum() + 3 * abs(z).sum()) ** 2
    H.check('translation keeps the value', H.eq(cg.orientation_val(a + z, b + z, c + z), v, sc2))


@unit('P10', 'vectorised value', [CG + 'np_orientation_val'])
def vectorised(H):
    """for arrays of any number of rows: row k of the vectorised value is the scalar value of the rows k"""
    cg = H.mod('utils.cg')
    if H.sym:
        from pydv.seq import rows
        n = H.int('n', 1)
        A, Bm, C = rows(H, 'A', n), rows(H, 'B', n), rows(H, 'C', n)
        k = H.int('k', 0)
        H.assume(H.lt(k, n))
    else:
        import numpy as np
        n = H.int('n', 1, 5)
        A, Bm, C = (np.array([[H.real('v') for _ in range(2)] for _ in range(n)]) for _ in range(3))
        k = H.int('k', 0, 4)
        H.assume(k < n)
    v = cg.np_orientation_val(A, Bm, C)
    if H.sym:
        H.check('one value per row', H.eq(v.n, n))
        H.check('row value', H.eq(v.at(k), cg.orientation_val(A.at(k), Bm.at(k), C.at(k))))
        H.check('row value is minus the turn', H.eq(v.at(k), -orient(A.at(k), Bm.at(k), C.at(k))))
    else:
        H.check('one value per row', len(v) == n)
        H.check('row value', H.eq(v[k], cg.orientation_val(A[k], Bm[k], C[k])))
        H.check('row value is minus the turn', H.eq(v[k], -orient(A[k], Bm[k], C[k])))


@unit('P10', 'swap and translation of the predicates', [CG + 'is_cw', CG + 'is_ccw', CG + 'is_collinear'])
def swaps(H):
    cg = H.mod('utils.cg')
    a, b, c = pts(H)
    z = H.vec('z')
    o = orient(a, b, c)
    if not H.sym:        # rounding decides next to the threshold
        H.assume(H.or_(abs(o) > 1e-6, abs(o) == 0))
    cw, ccw, col = bool(cg.is_cw(a, b, c)), bool(cg.is_ccw(a, b, c)), bool(cg.is_collinear(a, b, c))
    H.check('swap exchanges clockwise and counterclockwise', bool(cg.is_ccw(b, a, c)) == cw and bool(cg.is_cw(b, a, c)) == ccw)
    H.check('swap keeps collinear', bool(cg.is_collinear(b, a, c)) == col)
    H.check('cyclic rotation keeps clockwise', bool(cg.is_cw(b, c, a)) == cw and bool(cg.is_cw(c, a, b)) == cw)
    H.check('cyclic rotation keeps counterclockwise', bool(cg.is_ccw(b, c, a)) == ccw and bool(cg.is_ccw(c, a, b)) == ccw)
    if H.sym or abs(o) > 1e-6:
        H.check('translation keeps clockwise', bool(cg.is_cw(a + z, b + z, c + z)) == cw)
        H.check('translation keeps counterclockwise', bool(cg.is_ccw(a + z, b + z, c + z)) == ccw)
