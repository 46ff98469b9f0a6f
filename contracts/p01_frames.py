"""P01: frame changes."""
from pydv.contract import unit
from .common import *

OB = 'obstacles.obstacle.Obstacle.'


def mk(H, mm):
    k = H.choose('class', ['ellipse', 'polygon', 'starpolygon'])
    o = H.mod('obstacles')
    sq_ = [[0, 0], [4, 0], [5, 3], [1, 4]]
    if k == 'ellipse':
        return o.Ellipse([2., 1.], motion_model=mm, id='temp')
    if k == 'polygon':
        return o.Polygon(sq_, motion_model=mm, id='temp')
    return o.StarshapedPolygon(sq_, xr=[2., 1.5], motion_model=mm, id='temp')


@unit('P01', 'affine_transform', ['utils.cg.affine_transform'])
def affine(H):
    """affine_transform is the rigid motion (rotation, translation), and inverse=True its inverse"""
    cg = H.mod('utils.cg')
    x, t = H.vec('x'), H.vec('t')
    rot = H.angle('rot')
    ps = Pose(t[0], t[1], H.cos(rot), H.sin(rot))
    y = cg.affine_transform(x, rot, t)
    H.check('rotates and translates', H.eqv(y, ps.to_global(x)))
    z = cg.affine_transform(x, rot, t, inverse=True)
    H.check('inverse undoes rotation and translation', H.eqv(z, ps.to_local(x)))
    H.check('there and back', H.eqv(cg.affine_transform(y, rot, t, inverse=True), x))
    H.check('back and there', H.eqv(cg.affine_transform(z, rot, t), x))
    w = H.vec('w')
    v = cg.affine_transform(w, rot, t)
    H.check('distances are kept', H.eq(d2(y, v), d2(x, w)))
    H.check('arguments are not modified', H.and_(len(x) == 2, len(t) == 2))


@unit('P01', 'transform', [OB + 'transform', OB + '_transform_obstacle2global', OB + '_transform_global2obstacle', OB + 'pos', OB + 'rot'])
def transform(H):
    mm, ps = mk_pose(H)
    ob = mk(H, mm)
    x = H.vec('x')
    x0, x1 = x[0], x[1]
    fin, fout = frame(H, 'fin'), frame(H, 'fout')
    y = ob.transform(x, fin, fout)
    want = [x0, x1] if fin == fout else (ps.to_local(x) if is_global(H, fin) else ps.to_global(x))
    H.check('point conversion is the rigid motion of the pose', H.eqv(y, want))
    H.check('there and back', H.eqv(ob.transform(y, fout, fin), [x0, x1]))
    H.check('input is unchanged', H.eqv(x, [x0, x1]))
    F = H.mod('obstacles').Frame
    p = ob.pos()
    H.check('pos is the pose position', H.eqv(p, [ps.x, ps.y]))
    r = ob.rot()
    H.check('rot is the pose rotation', H.eqv([H.cos(r), H.sin(r)], [ps.c, ps.s]))
    H.check('pos in obstacle frame is the origin', H.eqv(ob.pos(F.OBSTACLE), [0, 0]))
    H.check('rot in obstacle frame is zero', H.eq(ob.rot(F.OBSTACLE), 0))


@unit('P01', 'rotate', [OB + 'rotate', OB + '_rotate_obstacle2global', OB + '_rotate_global2obstacle'])
def rotate(H):
    mm, ps = mk_pose(H)
    ob = mk(H, mm)
    x = H.vec('x')
    x0, x1 = x[0], x[1]
    fin, fout = frame(H, 'fin'), frame(H, 'fout')
    y = ob.rotate(x, fin, fout)
    want = [x0, x1] if fin == fout else (ps.rot_local(x) if is_global(H, fin) else ps.rot_global(x))
    H.check('directions only rotate', H.eqv(y, want))
    H.check('there and back', H.eqv(ob.rotate(y, fout, fin), [x0, x1]))
    H.check('length is kept', H.eq(vdot(y, y), vdot(x, x)))


@unit('P01', 'reference point', ['obstacles.starshaped_obstacle.StarshapedObstacle.xr', 'obstacles.starshaped_obstacle.StarshapedObstacle.set_xr'])
def refpoint(H):
    mm, ps = mk_pose(H)
    ob = mk_star(H, mm)
    F = H.mod('obstacles').Frame
    g, l = ob.xr(F.GLOBAL), ob.xr(F.OBSTACLE)
    H.check('both frames report the same physical point', H.eqv(g, ps.to_global(l)))
    H.check('the default frame is global', H.eqv(ob.xr(), g))
    x = H.vec('xr')
    x0, x1 = x[0], x[1]
    f = frame(H, 'fset')
    ob.set_xr(x, input_frame=f)
    want = to_obs(H, ps, f, [x0, x1])
    H.check('set_xr stores the physical point', H.eqv(ob.xr(F.OBSTACLE), want))
    H.check('and reports it in the global frame', H.eqv(ob.xr(F.GLOBAL), ps.to_global(want)))


def mk_star(H, mm):
    o = H.mod('obstacles')
    if H.choose('class', ['ellipse', 'starpolygon']) == 'ellipse':
        return o.Ellipse([2., 1.], xr=[.25, .5], motion_model=mm, id='temp')
    return o.StarshapedPolygon([[0, 0], [4, 0], [1, 4]], xr=[2., 1.5], motion_model=mm, id='temp')


@unit('P01', 'reference direction', ['obstacles.starshaped_obstacle.StarshapedObstacle.reference_direction'])
def refdir(H):
    """a unit vector from the reference point towards the point, rotated into the output frame"""
    mm, ps = mk_pose(H)
    ob = mk_star(H, mm)
    F = H.mod('obstacles').Frame
    x = H.vec('x')
    fin, fout = frame(H, 'fin'), frame(H, 'fout')
    lx = to_obs(H, ps, fin, x)
    l = ob.xr(F.OBSTACLE)
    H.assume(H.gt(d2(lx, l), 0))
    d = ob.reference_direction(x, fin, fout)
    v = vsub(lx, l)
    v = ps.rot_global(v) if is_global(H, fout) else v
    H.check('unit length', H.eq(vdot(d, d), 1))
    H.check('along the ray from the reference point', H.and_(H.eq(vcross(d, v), 0), H.gt(vdot(d, v), 0)))
