"""shapely as seen by the symbolically executed code: abstract planar sets.

Trusted reading of the library (listed in the evidence of every check that uses it):
  affine maps compose exactly; contains / exterior.contains / disjoint of a polygon and a point are its
  interior / boundary / complement; bounds enclose the set and are attained; intersects is symmetric."""
import numpy as np
import z3
from .errors import OutOfReach
from . import sym
from .sym import R, I, B, P, q, term, iterm
from .npshim import Mod, asarray, has_seq, array


def _note():
    P().session.used('shapely: trusted reading of its predicates and constructions (pydv/shshim.py)')


def _memo():
    return P().__dict__.setdefault('geo_memo', {})


def xy(p):
    if isinstance(p, Point):
        return p.x, p.y
    a = asarray(p)
    return a[0], a[1]


class Geo:
    geom_type = 'Geo'
    _n = [0]

    def __init__(self):
        p = P()
        self.id = p.__dict__.setdefault('geo_count', 0)
        p.geo_count += 1
        self.data = {}

    def __deepcopy__(self, memo):
        return self                          # shapely geometries are immutable

    def _b(self, pred, other, sym_=False):
        a, b = self.id, other.id
        if sym_ and b < a:
            a, b = b, a
        m = _memo()
        k = (pred, a, b)
        if k not in m:
            _note()
            m[k] = P().fresh_bool('%s_%d_%d' % k)
        return B(m[k])

    # binary predicates
    def intersects(self, o):
        h = self.data.get('intersects') or o.data.get('intersects')
        if h:
            return h(self, o)
        if isinstance(o, Point) or isinstance(self, Point):
            pt, g = (o, self) if isinstance(o, Point) else (self, o)
            i, b = g.member(pt.x, pt.y)
            return B(z3.Or(i, b))
        return self._b('intersects', o, True)

    def disjoint(self, o):
        return ~self.intersects(o)

    def contains(self, o):
        if isinstance(o, Point):
            i, b = self.member(o.x, o.y)
            return B(i)
        h = self.data.get('contains')
        if h:
            return h(self, o)
        return self._b('contains', o)

    contains_properly = contains

    def covers(self, o):
        if isinstance(o, Point):
            i, b = self.member(o.x, o.y)
            return B(z3.Or(i, b))
        return self._b('covers', o)

    def touches(self, o):
        if isinstance(o, Point):
            i, b = self.member(o.x, o.y)
            return B(b)
        if isinstance(self, Point):
            return o.touches(self)
        return self._b('touches', o, True)

    def within(self, o):
        return o.contains(self)

    def covered_by(self, o):
        return o.covers(self)

    def equals(self, o):
        return self._b('equals', o, True)

    def member(self, x, y):
        """(interior, boundary) of the point, as z3 booleans"""
        raise OutOfReach('membership in %s' % type(self).__name__)

    # constructions
    def intersection(self, o):
        h = self.data.get('intersection') or o.data.get('intersection')
        if h:
            return h(self, o)
        return SetOp('intersection', [self, o])

    def union(self, o):
        return SetOp('union', [self, o])

    def difference(self, o):
        return SetOp('difference', [self, o])

    def buffer(self, distance, *a, **k):
        h = self.data.get('buffer')
        return h(self, distance) if h else _buffer(self, distance, a, k)

    def distance(self, o):
        """of a point: zero exactly on the closed set; of other sets: some non-negative number"""
        p = P()
        if isinstance(o, Point):
            m = _memo()
            tx, ty = z3.simplify(term(o.x)), z3.simplify(term(o.y))
            k = ('dist', self.id, tx.get_id(), ty.get_id())
            if k not in m:
                _note()
                f = z3.Function('distance_%d' % self.id, z3.RealSort(), z3.RealSort(), z3.RealSort())
                i, b = self.member(o.x, o.y)
                d = f(tx, ty)
                p.assume(z3.And(d >= 0, (d == 0) == z3.Or(i, b)))
                m[k] = (R(d), tx, ty)
            return m[k][0]
        v = p.fresh_real('distance')
        p.assume(v >= 0)
        return R(v)

    @property
    def area(self):
        if 'area' not in self.data:
            v = R(P().fresh_real('area'))
            P().assume(v.t >= 0)
            self.data['area'] = v
        return self.data['area']

    @property
    def is_empty(self):
        if 'empty' not in self.data:
            self.data['empty'] = B(P().fresh_bool('empty'))
        return self.data['empty']

    @property
    def is_valid(self):
        return True

    @property
    def centroid(self):
        if 'centroid' not in self.data:
            self.data['centroid'] = Point([R(P().fresh_real('cx')), R(P().fresh_real('cy'))])
        return self.data['centroid']

    def representative_point(self):
        if 'rep' not in self.data:
            p = Point([R(P().fresh_real('rx')), R(P().fresh_real('ry'))])
            self.data['rep'] = p
        return self.data['rep']

    @property
    def bounds(self):
        if 'bounds' not in self.data:
            p = P()
            b = [R(p.fresh_real(n)) for n in ('minx', 'miny', 'maxx', 'maxy')]
            p.assume(z3.And(b[0].t < b[2].t, b[1].t < b[3].t))
            self.data['bounds'] = tuple(b)
            for x, y, i, bd in self.data.get('queried', []):
                self._bound_axiom(x, y, i, bd)
        return self.data['bounds']

    def _bound_axiom(self, x, y, i, bd):
        b = [v.t for v in self.data['bounds']]
        P().assume(z3.And(z3.Implies(i, z3.And(b[0] < x, x < b[2], b[1] < y, y < b[3])),
                          z3.Implies(bd, z3.And(b[0] <= x, x <= b[2], b[1] <= y, y <= b[3]))))


class Point(Geo):
    geom_type = 'Point'

    def __init__(self, *a):
        super().__init__()
        if len(a) == 2:
            self.x, self.y = a
        else:
            c = a[0]
            if isinstance(c, Point):
                self.x, self.y = c.x, c.y
            else:
                c = asarray(c)
                self.x, self.y = c[0], c[1]

    @property
    def coords(self):
        return Coords([(self.x, self.y)])

    def __iter__(self):
        return iter((self.x, self.y))


class Coords:
    def __init__(self, pts):
        self.pts = [tuple(p) for p in pts]

    def __iter__(self):
        return iter(self.pts)

    def __len__(self):
        return len(self.pts)

    def __getitem__(self, i):
        return self.pts[i]

    @property
    def xy(self):
        return [p[0] for p in self.pts], [p[1] for p in self.pts]


def _pts(c):
    if has_seq(c):
        return c
    out = []
    for p in c:
        out.append(xy(p))
    return out


class LineString(Geo):
    geom_type = 'LineString'

    def __init__(self, coords):
        super().__init__()
        self.pts = _pts(coords)

    @property
    def coords(self):
        return self.pts if has_seq(self.pts) else Coords(self.pts)

    @property
    def xy(self):
        return Coords(self.pts).xy

    def member(self, x, y):
        raise OutOfReach('membership in a line')


class Ring(Geo):
    """exterior ring of a polygon"""
    geom_type = 'LinearRing'

    def __init__(self, poly):
        super().__init__()
        self.poly = poly

    @property
    def coords(self):
        v = self.poly.vertex_list()
        if has_seq(v):
            return v.circular() if hasattr(v, 'circular') else v
        return Coords(list(v) + [v[0]]) if len(v) else Coords([])

    @property
    def xy(self):
        return self.coords.xy

    def member(self, x, y):
        i, b = self.poly.member(x, y)
        return b, z3.BoolVal(False)


class PolyMeta(type):
    def __call__(cls, *a, **k):
        if cls is Polygon:
            shell = a[0] if a else k.get('shell')
            if isinstance(shell, Geo) and not isinstance(shell, (Ring, LineString)):
                return shell                 # Polygon(polygon) is that polygon
        return type.__call__(cls, *a, **k)


class Polygon(Geo, metaclass=PolyMeta):
    geom_type = 'Polygon'

    def __init__(self, shell=None, holes=None):
        super().__init__()
        self._ring = None
        if shell is None:
            shell = []
        if isinstance(shell, Ring):
            shell = shell.coords
        if isinstance(shell, LineString):
            shell = shell.pts
        self.verts = shell if has_seq(shell) else _pts(shell)
        if not has_seq(self.verts):
            if 0 < len(self.verts) < 3:
                raise ValueError('A linearring requires at least 4 coordinates.')
            self.data['empty'] = len(self.verts) == 0

    def vertex_list(self):
        return self.verts

    @property
    def bounds(self):
        v = getattr(self, 'verts', None)
        if 'bounds' not in self.data and v is not None and not has_seq(v) and len(v):
            from .npshim import _min2, _max2
            b = [v[0][0], v[0][1], v[0][0], v[0][1]]
            for p in v[1:]:
                b = [_min2(b[0], p[0]), _min2(b[1], p[1]), _max2(b[2], p[0]), _max2(b[3], p[1])]
            self.data['bounds'] = tuple(b)
        return Geo.bounds.fget(self)

    @property
    def exterior(self):
        if self._ring is None:
            self._ring = Ring(self)
        return self._ring

    @property
    def boundary(self):
        return self.exterior

    def member(self, x, y):
        tx, ty = term(x), term(y)
        m = _memo()
        k = ('mem', self.id, z3.simplify(tx).get_id(), z3.simplify(ty).get_id())
        if k not in m:
            _note()
            p = P()
            fi = z3.Function('inside_%d' % self.id, z3.RealSort(), z3.RealSort(), z3.BoolSort())
            fb = z3.Function('boundary_%d' % self.id, z3.RealSort(), z3.RealSort(), z3.BoolSort())
            i, b = fi(tx, ty), fb(tx, ty)
            p.assume(z3.Not(z3.And(i, b)))
            self.data.setdefault('queried', []).append((tx, ty, i, b))
            m[k] = (i, b, tx, ty)
            if 'bounds' in self.data:
                self._bound_axiom(tx, ty, i, b)
            for f in self.data.get('facts', []):
                f(tx, ty, i, b)
        return m[k][:2]


class AbsPolygon(Polygon):
    """a polygon known only through its predicates"""
    def __init__(self, name=''):
        Geo.__init__(self)
        self._ring = None
        self.verts = None
        self.name = name

    def vertex_list(self):
        if self.verts is None:
            raise OutOfReach('vertices of an abstract polygon')
        return self.verts


class Affine(Polygon):
    """image of a polygon under an affine map [a, b, d, e, xoff, yoff]"""
    def __init__(self, base, m):
        Geo.__init__(self)
        self._ring = None
        if isinstance(base, Affine):
            a, b, d, e, x, y = m
            a2, b2, d2, e2, x2, y2 = base.m
            m = [a * a2 + b * d2, a * b2 + b * e2, d * a2 + e * d2, d * b2 + e * e2, a * x2 + b * y2 + x,
                 d * x2 + e * y2 + y]
            base = base.base
        self.base, self.m = base, list(m)

    def vertex_list(self):
        v = self.base.vertex_list()
        a, b, d, e, x, y = self.m
        f = lambda p: (a * p[0] + b * p[1] + x, d * p[0] + e * p[1] + y)
        if has_seq(v):
            return v.map(f)
        return [f(p) for p in v]


class SetOp(Polygon):
    def __init__(self, op, args):
        Geo.__init__(self)
        self._ring = None
        self.op, self.args = op, args

    @property
    def is_empty(self):
        if self.op != 'union':
            return Geo.is_empty.fget(self)
        if 'empty' not in self.data:
            if has_seq(self.args):
                self.data['empty'] = self.args.map(lambda g: g.is_empty).forall()
            else:
                self.data['empty'] = all(g.is_empty for g in self.args)
        return self.data['empty']

    @property
    def geom_type(self):
        if 'type' not in self.data:
            self.data['type'] = ['Polygon', 'MultiPolygon'][P().choose(2)]
        return self.data['type']

    def vertex_list(self):
        raise OutOfReach('vertices of a set operation')


class Buffer(Polygon):
    """the set grown by a distance >= 0.  Trusted reading: with round joins everything closer than 0.98 of the distance
    is inside and everything farther is outside (arcs are approximated from within); with any join the set is inside."""
    def __init__(self, base, dist, round_=True, over=False):
        Geo.__init__(self)
        self._ring = None
        self.base, self.dist, self.round, self.over = base, dist, round_, over
        self.verts = None

    def vertex_list(self):
        if self.verts is None:               # some ring of at least three vertices
            from .seq import rows
            from .sym import CTX
            p = P()
            n = p.fresh_int('nbuf')
            p.assume(n >= 3)
            self.verts = rows(CTX.env.H, 'buf', I(n))
        return self.verts

    @property
    def bounds(self):
        b = self.base.bounds
        if 'bounds' not in self.data:
            d = self.dist
            if self.over or not self.round:
                v = Geo.bounds.fget(self)
                P().assume(z3.Implies(term(d) >= 0, z3.And(v[0].t <= b[0].t, v[1].t <= b[1].t, v[2].t >= b[2].t, v[3].t >= b[3].t)))
            else:
                self.data['bounds'] = (b[0] - d, b[1] - d, b[2] + d, b[3] + d)
                for q_ in self.data.get('queried', []):
                    self._bound_axiom(*q_)
        return self.data['bounds']

    def _bound_axiom(self, x, y, i, bd):
        b = [term(v) for v in self.data['bounds']]
        P().assume(z3.And(z3.Implies(i, z3.And(b[0] < x, x < b[2], b[1] < y, y < b[3])),
                          z3.Implies(bd, z3.And(b[0] <= x, x <= b[2], b[1] <= y, y <= b[3]))))

    def member(self, x, y):
        known = ('mem', self.id, z3.simplify(term(x)).get_id(), z3.simplify(term(y)).get_id()) in _memo()
        i, b = Polygon.member(self, x, y)
        if known:
            return i, b
        p, pad, D = P(), term(self.dist), self.base.distance(Point(x, y)).t
        bi, bb = self.base.member(x, y)
        f = [z3.Implies(pad == 0, z3.And(i == bi, b == bb)), z3.Implies(pad > 0, z3.Implies(D == 0, i))]
        if self.round or self.over:
            f.append(z3.Implies(z3.And(pad > 0, D <= q('0.98') * pad), i))
        if not self.over:
            f.append(z3.Implies(z3.And(pad > 0, D > pad), z3.And(z3.Not(i), z3.Not(b))))
        p.assume(z3.Implies(pad >= 0, z3.And(*f)))
        return i, b


def _buffer(g, distance, a, k):
    quad = a[0] if a else k.get('quad_segs', k.get('resolution', 16))
    join = k.get('join_style', a[2] if len(a) > 2 else 1)
    cap = k.get('cap_style', 1)
    if k.get('single_sided') or not isinstance(quad, int):
        raise OutOfReach('buffer options')
    join = {'round': 1, 'mitre': 2, 'bevel': 3}.get(join, join)
    return Buffer(g, distance, join == 1 and quad >= 6, join == 2)


def affine_transform(geom, matrix):
    _note()
    m = list(matrix)
    if len(m) != 6:
        raise OutOfReach('3D affine map')
    if isinstance(geom, Point):
        a, b, d, e, x, y = m
        return Point([a * geom.x + b * geom.y + x, d * geom.x + e * geom.y + y])
    if geom is None:
        raise AttributeError("'NoneType' object has no attribute 'is_empty'")
    return Affine(geom, m)


def translate(geom, xoff=0.0, yoff=0.0, zoff=0.0):
    return affine_transform(geom, [1, 0, 0, 1, xoff, yoff])


def rotate(geom, angle, origin='center', use_radians=False):
    if isinstance(origin, str):
        raise OutOfReach('rotation about a computed centre')
    if not use_radians:
        angle = sym.sdiv(angle * sym.pi(), 180)
    c, s = sym.cos(angle), sym.sin(angle)
    x0, y0 = xy(origin)
    return affine_transform(geom, [c, -s, s, c, x0 - x0 * c + y0 * s, y0 - x0 * s - y0 * c])


def orient(poly, sign=1.0):
    h = poly.data.get('orient')
    if h:
        return h(poly, sign)
    return poly


def unary_union(geoms):
    if has_seq(geoms):
        h = geoms.data_union if hasattr(geoms, 'data_union') else None
        if h:
            return h()
        if getattr(P(), 'seq_unions', False):       # the contract speaks about the members of the union itself
            return SetOp('union', geoms.snapshot())
        raise OutOfReach('union of a symbolic number of sets')
    gs = list(geoms)
    if len(gs) == 1:
        return gs[0]
    u = SetOp('union', gs)
    if not gs:
        u.data['empty'] = True
    return u


def nearest_points(a, b):
    p = P()
    return (Point([R(p.fresh_real('nx')), R(p.fresh_real('ny'))]), Point([R(p.fresh_real('nx')), R(p.fresh_real('ny'))]))


def box(minx, miny, maxx, maxy, ccw=True):
    return Polygon([(maxx, miny), (maxx, maxy), (minx, maxy), (minx, miny)])


class Hull:
    """scipy.spatial.ConvexHull, known only through: vertices are indices of at least three of the points"""
    def __init__(self, points):
        from .seq import Seq
        p = P()
        m, n = p.fresh_int('hull'), iterm(points.n)
        p.assume(m >= 3)
        f = z3.Function(p.name('hull_vertex'), z3.IntSort(), z3.IntSort())

        def at(k):
            t = iterm(k)
            p.assume(z3.Implies(z3.And(t >= 0, t < m), z3.And(f(t) >= 0, f(t) < n)))
            return I(f(t))
        self.points, self.vertices = points, Seq(I(m), at, False)


def modules():
    geometry = Mod('shapely.geometry', dict(Point=Point, LineString=LineString, Polygon=Polygon, box=box))
    geometry.polygon = Mod('shapely.geometry.polygon', dict(orient=orient, Polygon=Polygon))
    ops = Mod('shapely.ops', dict(orient=orient, unary_union=unary_union, nearest_points=nearest_points,
                                  cascaded_union=unary_union))
    aff = Mod('shapely.affinity', dict(affine_transform=affine_transform, translate=translate, rotate=rotate))
    sh = Mod('shapely', dict(geometry=geometry, ops=ops, affinity=aff, Point=Point, LineString=LineString,
                             Polygon=Polygon, box=box, unary_union=unary_union))
    def ch(points, *a, **k):
        if not has_seq(points):
            raise OutOfReach('scipy ConvexHull')
        return Hull(points)
    spat = Mod('scipy.spatial', dict(ConvexHull=ch))
    sci = Mod('scipy', dict(spatial=spat))
    return {'shapely': sh, 'shapely.geometry': geometry, 'shapely.ops': ops, 'shapely.affinity': aff,
            'shapely.geometry.polygon': geometry.polygon, 'scipy': sci, 'scipy.spatial': spat}
