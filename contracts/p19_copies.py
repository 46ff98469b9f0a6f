"""P19: identifiers and copies.

Identifiers: induction over the history of creations and copies.  Invariant: every identifier given out so far is at
most Obstacle.id_counter.  Each operation from an arbitrary such state: a new identifier exceeds the counter (so it was
never given out), and the counter afterwards is at least every identifier given out."""
from pydv.contract import unit
from .common import *
from .p02_pose_follow import ghost_star

OB = 'obstacles.obstacle.Obstacle.'
SP = 'obstacles.starshaped_polygon.StarshapedPolygon.'
NEW, TEMP, DUP = ['default', 'new', 'n'], ['temporary', 'temp', 't'], ['duplicate', 'd']


def shapes(H):
    """a convex polygon with any number of vertices, known by its vertices and predicates"""
    return H.abs_polygon() if H.sym else H.data('shape', lambda r: rand_polygon(r, convex=True, coll=False))


def build(H, kind, mm, **kw):
    O = H.mod('obstacles')
    if kind == 'any':
        if H.sym:
            S = H.abs_polygon()
        else:
            import shapely
            S = shapely.geometry.Polygon([[0., 0.], [2., 0.], [1., 1.]])
        base = ghost_star(H, S, S)
        C = type(base(None))
        return C([0., 0.], motion_model=mm, **kw)
    if kind == 'ellipse':
        x = H.vec('xr') if H.choose('xr', [False, True]) else None
        return O.Ellipse([H.real('a', pos=True), H.real('b', pos=True)], xr=x, motion_model=mm, **kw)
    if kind == 'polygon':
        return O.Polygon(shapes(H), motion_model=mm, **kw)
    if kind == 'star':
        g = shapes(H)
        if H.sym:
            x = H.vec('xr')
        else:
            x = [sum(p[0] for p in g) / len(g), sum(p[1] for p in g) / len(g)]
        return O.StarshapedPolygon(g, xr=x, motion_model=mm, is_convex=True, **kw)
    if H.sym:
        x = H.vec('xr')
        return O.StarshapedPrimitiveCombination([], H.abs_polygon(), xr=[x[0], x[1]], **kw)
    import shapely
    return O.StarshapedPrimitiveCombination([], shapely.geometry.Polygon([[0., 0.], [2., 0.], [1., 1.]]), xr=[1., .5], **kw)


KINDS = ['any', 'ellipse', 'polygon', 'star', 'combination']


def created(H, n0, o, counter, how, k=None):
    i = o.id()
    n1 = counter()
    if how == 'new':
        H.check('a new identifier was never given out', H.F if i is None else H.gt(i, n0))
        H.check('the counter covers it', H.F if i is None else H.le(i, n1))
    elif how == 'temp':
        H.check('a temporary obstacle has no identifier', i is None)
    elif how == 'same':
        H.check('a duplicate keeps the identifier', (i is None) if k is None else (H.F if i is None else H.eq(i, k)))
    H.check('the counter never falls behind', H.ge(n1, n0))
    nm = str(o)
    if i is None or not H.sym:
        H.check('the name is the identifier unless given', nm == str(i))


@unit('P19', 'identifiers', [OB + '_set_id_name', OB + '__init__', OB + 'copy', 'obstacles.ellipse.Ellipse.copy', SP + 'copy'])
def ids(H):
    O = H.mod('obstacles').Obstacle
    kind = H.choose('kind', KINDS)
    if H.sym:
        n0 = H.int('given out so far', 0)
        O.id_counter = n0
    else:
        O.id_counter += H.int('others', 0, 3)
        n0 = O.id_counter
    counter = lambda: O.id_counter
    op = H.choose('operation', ['create new', 'create temp', 'create existing', 'copy new', 'copy temp', 'copy duplicate', 'dilate'])
    mm = GhostMM(H.arr(0, 0), 0.)
    if op == 'create new':
        w = H.choose('id', NEW)
        o = build(H, kind, mm, **({} if w == 'default' else {'id': w}))
        return created(H, n0, o, counter, 'new')
    if op == 'create temp':
        return created(H, n0, build(H, kind, mm, id=H.choose('id', TEMP)), counter, 'temp')
    k = None
    if H.choose('original', ['temp', 'identified']) == 'identified':
        if H.sym:
            k = H.int('k', 1)
            H.assume(H.le(k, n0))
        else:
            H.assume(n0 >= 1)
            k = H.int('k', 1, n0)
    if op == 'create existing':
        if k is None:
            return
        return created(H, n0, build(H, kind, mm, id=k), counter, 'same', k)
    o = build(H, kind, mm, id='temp' if k is None else k)
    if op == 'dilate':
        if kind in ('any', 'combination'):
            return
        w = H.choose('id', ['default', 'temp'])
        if k is None and kind == 'ellipse' and w == 'default':
            o.polygon()
        c = o.dilated_obstacle(1.) if w == 'default' else o.dilated_obstacle(1., w)
        return created(H, n0, c, counter, 'new' if w == 'default' else 'temp')
    if op == 'copy new':
        c, how = o.copy(H.choose('id', NEW[1:]), None), 'new'
    elif op == 'copy temp':
        c, how = o.copy(H.choose('id', TEMP), None), 'temp'
    else:
        c, how = o.copy(H.choose('id', DUP), None), 'same'
    created(H, n0, c, counter, how, k)
    H.check('copying keeps the identifier of the original', o.id() is None if k is None else H.eq(o.id(), k))
    if H.choose('another copy', [False, True]):
        n1 = counter()
        created(H, n1, o.copy('new', None), counter, 'new')


@unit('P19', 'lemma: identifiers are unique', [], concrete=False)
def unique(H):
    """invariant: identifiers given out are at most the counter; a new one exceeds the counter before it was given out"""
    i, n0, n1, new = H.int('earlier'), H.int('n0'), H.int('n1'), H.int('new')
    H.assume(H.and_(H.le(i, n0), H.gt(new, n0), H.le(new, n1), H.ge(n1, n0)))
    H.check('differs from every earlier identifier', H.not_(H.eq(i, new)))
    H.check('invariant', H.and_(H.le(i, n1), H.le(new, n1)))


# ---------------------------------------------------------------- copies
def observe(H, o, kind, p, key):
    """what a user sees of shape, pose and reference point (location at an arbitrary point p)"""
    F = H.mod('obstacles').Frame
    r = {}
    if key == 'pose':
        r['position'], r['rotation'] = o.pos(), o.rot()
    if key == 'reference point' and kind != 'polygon':
        r['reference point'] = o.xr(F.OBSTACLE)
        r['global reference point'] = o.xr()
    if key == 'polygon':
        r['polygon'], r['global polygon'] = o.polygon(F.OBSTACLE), o.polygon(F.GLOBAL)
    if key == 'location' and kind != 'any':
        r['location in the obstacle frame'] = o.point_location(H.arr(p[0], p[1]), F.OBSTACLE)
    if key == 'global location' and kind != 'any':
        r['location'] = o.point_location(H.arr(p[0], p[1]))
    if key == 'details':
        if kind == 'star':
            r['vertex order'] = o.vertices
            r['vertex angles'] = o.vertex_angles
        if kind in ('ellipse', 'star'):
            r['length scale'] = o.enclosing_ball_diameter
    return r


KEYS = ['pose', 'reference point', 'polygon', 'location', 'global location', 'details']


def compare(H, what, a, b):
    for k in a:
        H.check('%s %s' % (what, k), same_value(H, a[k], b[k]))


def copies(H, kind):
    O = H.mod('obstacles')
    mm, ps = mk_pose(H, ('none', 'ghost')) if kind != 'combination' else (None, IDENT)
    if not H.sym and mm is not None:
        mm, ps = mk_pose(H, ('static',))
    if kind in ('star', 'combination'):
        sets_kernel(H, kind)
    o = build(H, kind, mm, id='temp')
    before = H.choose('queried before', [False, True])
    if before:
        o.polygon()
    key = H.choose('observed', KEYS)
    i = H.choose('copied as', ['temp', 'duplicate'])
    c = o.copy(i, None)
    p = H.vec('p')
    H.check('a copy is another object', c is not o)
    H.check('a copy is of the same kind', type(c) is type(o))
    vo = observe(H, o, kind, p, key)
    vc = observe(H, c, kind, p, key)
    if H.sym:
        H.same_angles()
    compare(H, 'a copy has the same', vo, vc)
    # change one, look at the other
    a, b, vb, nm = (o, c, vc, 'the copy keeps its') if H.choose('change', ['original', 'copy']) == 'original' else (c, o, vo, 'the original keeps its')
    if kind == 'polygon':
        ops = ['dilate']
    elif kind in ('any', 'combination'):
        ops = ['xr']
    else:
        ops = ['xr', 'dilate']
    op = H.choose('how', ops)
    if op == 'xr':
        q = H.vec('q')
        a.set_xr(H.arr(q[0], q[1]))
    else:
        a.dilated_obstacle(H.real('padding', lo=0, hi=2), id='temp')
        compare(H, 'dilating leaves the', vo if a is o else vc, observe(H, a, kind, p, key))
    compare(H, nm, vb, observe(H, b, kind, p, key))


def sets_kernel(H, kind):
    if H.sym:
        from .p25_safe_set import SetsKernel
        K = H.abs_polygon()
        H.use(SetsKernel((SP if kind == 'star' else 'obstacles.starshaped_primitive_combination.StarshapedPrimitiveCombination.') + '_compute_kernel', K))


for _k, _t in (('any', [OB + 'copy']), ('ellipse', ['obstacles.ellipse.Ellipse.copy', 'obstacles.ellipse.Ellipse.__init__', 'obstacles.ellipse.Ellipse.dilated_obstacle']),
               ('polygon', [OB + 'copy', 'obstacles.polygon.Polygon.dilated_obstacle']),
               ('star', [SP + 'copy', SP + '__init__', SP + 'dilated_obstacle', SP + 'set_xr', SP + '_update_vertex_angles']),
               ('combination', [OB + 'copy', 'obstacles.starshaped_primitive_combination.StarshapedPrimitiveCombination.set_xr'])):
    unit('P19', 'copies: ' + {'any': 'any starshaped obstacle', 'star': 'starshaped polygon', 'combination': 'combined obstacle'}.get(_k, _k), _t)(
        lambda H, _k=_k: copies(H, _k))
