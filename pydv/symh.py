"""Symbolic reading of a contract: the harness H of a proof, and path exploration."""
import time
import traceback
import numpy as np
import z3
from .errors import OutOfReach, PathEnd, Skip
from . import sym, prop, solve, rt, npshim
from .prop import Prop
from .sym import R, I, B, CTX, Path, term, q
from .loader import Loader


def pterm(p):
    """z3 term of a Prop (or python bool / B)."""
    if not isinstance(p, Prop):
        if p is True or p is False:
            return z3.BoolVal(p)
        return sym.bterm(p)
    op = p.op
    if op == 'and':
        ts = [pterm(x) for x in p.a]
        return z3.And(*ts) if len(ts) != 1 else ts[0]
    if op == 'or':
        ts = [pterm(x) for x in p.a]
        return z3.Or(*ts) if len(ts) != 1 else ts[0]
    if op == 'not':
        return z3.Not(pterm(p.a[0]))
    if op == 'bool':
        v = p.a[0]
        if isinstance(v, Prop):
            return pterm(v)
        if hasattr(v, 'item') and not isinstance(v, (R, I, B)):
            v = v.item()
        if isinstance(v, (R, I)):
            return v.t != 0
        return sym.bterm(v) if not isinstance(v, (bool, np.bool_)) else z3.BoolVal(bool(v))
    a, b = p.a
    for u, v, w in ((a, b, 0), (b, a, 1)):
        if isinstance(u, float) and u in (sym.INF, -sym.INF):
            big = (u > 0)
            if op == 'eq':
                return z3.BoolVal(False)
            return z3.BoolVal((not big) if w == 0 else big)
    if isinstance(a, (I, int)) and isinstance(b, (I, int)) and not isinstance(a, bool) and not isinstance(b, bool):
        ta, tb = sym.iterm(a), sym.iterm(b)
    else:
        ta, tb = term(a), term(b)
    return {'eq': lambda: ta == tb, 'le': lambda: ta <= tb, 'lt': lambda: ta < tb}[op]()


class Env:
    def __init__(self):
        self.stubs, self.loops, self.depth, self.calls, self.stub_calls = {}, {}, {}, {}, {}
        self.loops_cut = set()
        self.unroll = 60
        self.H = None


class Session:
    def __init__(self, feas_ms=150, depth_limit=400, max_paths=3000, feas_nlsat=0):
        self.feas_nlsat = feas_nlsat
        self.pending = []
        self.stats = {'feasibility_checks': 0, 'paths': 0, 'ended': 0}
        self.feas_ms, self.depth_limit, self.max_paths = feas_ms, depth_limit, max_paths
        self.trivial = 0
        self.obs = []
        self.seen = set()
        self.names = {}
        self.assume_used = set()
        self.reached = 0
        self.stub_calls, self.calls, self.loops_cut = {}, {}, set()
        self.oor = []

    def count_name(self, n):
        self.names[n] = self.names.get(n, 0) + 1

    def add(self, ob):
        self.count_name(ob.name)
        key = (ob.name, frozenset(a.get_id() for a in ob.assumptions), ob.goal.get_id())
        if key in self.seen:
            return
        self.seen.add(key)
        self.obs.append(ob)

    def used(self, a):
        self.assume_used.add(a)


import enum
import abc
import functools
import copy


def shim_table():
    from . import shshim
    np_ = npshim.make_numpy()
    plt = npshim.make_plot('matplotlib')
    t = {'numpy': np_, 'numpy.linalg': np_.linalg, 'numpy.random': np_.random, 'math': npshim.make_math(),
         'time': npshim.make_time(), 'matplotlib': plt, 'matplotlib.pyplot': npshim.make_plot('matplotlib.pyplot'),
         'matplotlib.patches': npshim.make_plot('matplotlib.patches'),
         'matplotlib.path': npshim.make_plot('matplotlib.path')}
    t.update(shshim.modules())
    return t


class H:
    """Symbolic harness.  The same interface is offered by concrete.ConcreteH on the real code."""
    sym = True
    eq, ne, le, lt, ge, gt = map(staticmethod, (prop.eq, prop.ne, prop.le, prop.lt, prop.ge, prop.gt))
    and_, or_, not_, imp, iff, eqv = map(staticmethod, (prop.and_, prop.or_, prop.not_, prop.imp, prop.iff, prop.eqv))
    T, F = prop.T, prop.F

    def __init__(self, path, env, session):
        self.path, self.env, self.session = path, env, session
        self._loader = None
        self.checked = 0

    # ---- modules of the code under verification
    @property
    def loader(self):
        if self._loader is None:
            self._loader = Loader(rt.RT, shim_table(), extra_builtins=dict(rt.BUILTINS, float=rt.SymFloat, int=rt.SymInt))
        return self._loader

    def mod(self, name):
        return self.loader.load(name)

    # ---- inputs
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, gen=None):
        t = z3.Real(self.path.name(name))
        self.path.inputs[str(t)] = t
        if pos:
            self.path.assume(t > 0)
        if nonneg:
            self.path.assume(t >= 0)
        if lo is not None:
            self.path.assume(t >= q(lo))
        if hi is not None:
            self.path.assume(t <= q(hi))
        return R(t)

    angle = real

    def int(self, name, lo=None, hi=None):
        t = z3.Int(self.path.name(name))
        self.path.inputs[str(t)] = t
        if lo is not None:
            self.path.assume(t >= lo)
        if hi is not None:
            self.path.assume(t <= hi)
        return I(t)

    def vec(self, name, gen=None):
        r = np.empty(2, object)
        r[0], r[1] = self.real(name + '.x'), self.real(name + '.y')
        return r

    def arr(self, *xs):
        return npshim.array(list(xs))

    def choose(self, name, options):
        k = self.path.choose(len(options))
        self.path.inputs['?' + self.path.name(name)] = k
        return options[k]

    def fresh(self, name):
        return R(self.path.fresh_real(name))

    def fresh_int(self, name):
        return I(self.path.fresh_int(name))

    def fresh_bool(self, name):
        return B(self.path.fresh_bool(name))

    def fvec(self, name):
        r = np.empty(2, object)
        r[0], r[1] = self.fresh(name + '.x'), self.fresh(name + '.y')
        return r

    # ---- logic
    def assume(self, p):
        self.path.assume(pterm(p))

    def check(self, name, p, kind='post'):
        self.checked += 1
        t = pterm(p)
        st = z3.simplify(t)
        if z3.is_true(st):
            self.session.trivial += 1
            self.session.count_name(name)
            return
        self.path.prove(name, t, kind)

    def decide(self, p):
        """case split"""
        return self.path.branch(pterm(p))

    def cos(self, a):
        return sym.cos(a) if not (isinstance(a, (int, float)) and a == 0) else 1

    def sin(self, a):
        return sym.sin(a) if not (isinstance(a, (int, float)) and a == 0) else 0

    def sqrt(self, a):
        return sym.sqrt(a)

    def abs(self, a):
        return abs(a)

    def ite(self, c, a, b):
        t = pterm(c)
        return R(z3.If(t, term(a), term(b)))

    def min(self, *a):
        r = a[0]
        for v in a[1:]:
            r = npshim._min2(r, v)
        return r

    def max(self, *a):
        r = a[0]
        for v in a[1:]:
            r = npshim._max2(r, v)
        return r

    def div(self, a, b):
        return sym.sdiv(a, b)

    @property
    def pi(self):
        return sym.pi()

    def frac(self, a, b):
        from fractions import Fraction
        return Fraction(a, b)

    def lemma(self, name, p):
        """prove an intermediate fact, then use it"""
        self.check(name, p, 'lemma')
        self.assume(p)

    def by(self, name, goal, facts, abstract=(), assume=True):
        """prove goal from the given facts alone, the abstract terms generalised to arbitrary numbers;
        every fact is an obligation of its own"""
        self.checked += 1
        subs = [(term(e), z3.Real(self.path.name('abs'))) for e in abstract]
        subs = [(a, v) for a, v in subs if not z3.is_rational_value(a)]
        ts = []
        for i, f in enumerate(facts):
            t = pterm(f)
            ts.append(t)
            if z3.is_true(z3.simplify(t)):
                self.session.trivial += 1
                continue
            self.path.prove('%s [step %d]' % (name, i + 1), t, 'lemma', then_assume=False)
        g = pterm(goal)
        sb = (lambda t: z3.substitute(t, *subs)) if subs else (lambda t: t)
        self.session.add(sym.Obligation(name, [sb(t) for t in ts], sb(g), {}, list(self.path.taken), 'post',
                                        sym._caller_line(), list(self.path.defs)))
        if assume:
            self.path.assume(g)

    def same_angles(self):
        """equal angles have equal cosines and sines"""
        m = [v for k, v in self.path.trig_memo.items() if isinstance(v, tuple) and len(v) == 3]
        for i in range(len(m)):
            for j in range(i):
                (c1, s1, t1), (c2, s2, t2) = m[i], m[j]
                self.path.assume(z3.Implies(t1 == t2, z3.And(term(c1) == term(c2), term(s1) == term(s2))))

    def inst(self, *ks):
        """use the universal facts of searches at the given indices"""
        for k in ks:
            self.path.inst(sym.iterm(k))

    def universal(self, f):
        """f(k) is known to hold for every index k"""
        self.path.univ.append(lambda k: pterm(f(I(k))))

    def zero(self):
        return R(sym.q(0))

    def inst2(self, j, k):
        """use the ordering facts of sorts at a pair of indices"""
        for u in self.path.__dict__.get('univ2', []):
            self.path.assume(u(sym.iterm(j), sym.iterm(k)))

    def at(self, seq, k):
        return seq.at(k)

    def on_search(self, f):
        """f(index) whenever a search in a sequence of symbolic length has found an index"""
        self.path.__dict__.setdefault('on_search', []).append(f)

    def atan2(self, y, x):
        return npshim.arctan2(y, x)

    def at_search(self, ks):
        """use the universal facts of every search at these (valid) indices"""
        self.path.__dict__.setdefault('always', []).extend(sym.iterm(k) for k in ks)

    def func(self, name, xs):
        """some function of real arguments"""
        f = z3.Function(name, *([z3.RealSort()] * (len(xs) + 1)))
        return R(f(*[term(x) for x in xs]))

    def intfunc(self, name, arity=1):
        f = z3.Function(self.path.name(name), *([z3.IntSort()] * (arity + 1)))
        return lambda *k: I(f(*[sym.iterm(v) for v in k]))

    def realfunc(self, name, arity=1):
        f = z3.Function(self.path.name(name), *([z3.IntSort()] * arity + [z3.RealSort()]))
        return lambda *k: R(f(*[sym.iterm(v) for v in k]))

    def boolfunc(self, name, arity=1):
        f = z3.Function(self.path.name(name), *([z3.IntSort()] * arity + [z3.BoolSort()]))
        return lambda *k: B(f(*[sym.iterm(v) for v in k]))

    def pred(self, name, xs):
        f = z3.Function(name, *([z3.RealSort()] * len(xs) + [z3.BoolSort()]))
        return prop.wrap(B(f(*[term(x) for x in xs])))

    def boolean(self, p):
        return B(pterm(p))

    def ifi(self, c, a, b):
        return I(z3.simplify(z3.If(pterm(c), sym.iterm(a), sym.iterm(b))))

    def angle_pairs(self, on):
        """whether every two angles are related to the cross product of their directions; if not, relate() does it"""
        self.path.angle_pairs = on

    def angle_facts(self, on):
        """whether the sector of every angle is known from its direction, or only its range"""
        self.path.angle_facts = on

    def searched(self):
        """(index found, array searched) of every search for an extreme"""
        return self.path.__dict__.get('searches', [])

    def relate(self, a, b):
        m = {z3.simplify(x[0].t).get_id(): x[1:4] for x in self.path.atan_memo.values()}
        npshim.relate(self.path, m[z3.simplify(a.t).get_id()], m[z3.simplify(b.t).get_id()])

    def source(self, seq, k, base):
        """index of the row of base that seq holds at position k, read off the term"""
        t, b = z3.simplify(term(seq.at(k)[0])), term(base.at(0)[0])
        if z3.is_app(t) and t.num_args() == 1 and t.decl().eq(b.decl()):
            return I(t.arg(0))
        return I(self.path.fresh_int('source'))

    def abs_polygon(self, n=None):
        """a polygon with any number of vertices, known through its vertices and its predicates"""
        from .shshim import AbsPolygon
        g = AbsPolygon()
        if n is None:
            n = self.int('nvert', 3)
        g.verts = self.rows('v', n)
        g.n = n
        return g

    def seq_unions(self):
        """unions of any number of sets are kept as such"""
        self.path.seq_unions = True

    def member(self, g, p):
        """(interior, boundary) of the point in the geometry, as propositions"""
        i, b = g.member(p[0], p[1])
        return prop.wrap(B(i)), prop.wrap(B(b))

    def seq(self, n, at, is_list=True):
        from .seq import Seq
        return Seq(n, at, is_list)

    def rows(self, name, n):
        from .seq import rows
        return rows(self, name, n)

    def reals(self, name, n, fact=None):
        from .seq import reals
        return reals(self, name, n, fact)

    def random_outcomes(self):
        import contextlib
        return contextlib.nullcontext()

    def sum_of(self, f, k):
        return R(f(sym.iterm(k)))

    def same(self, a, b):
        return z3.simplify(term(a)).eq(z3.simplify(term(b)))

    def to_real(self, k):
        return R(z3.ToReal(sym.iterm(k)))

    def out_of_reach(self, why):
        raise OutOfReach(why)

    def permutes(self, s, base, k):
        """s holds the items of base in the order of a sort or shuffle (compared at position k)"""
        t = s.at(k)
        fs = [f for f, g, n in self.path.__dict__.get('orders', [])]
        return any(isinstance(t, R) and self.same(t, base.at(I(f(sym.iterm(k))))) for f in fs)

    def open_draws(self):
        self.path.open_draws = True
        self.note('a uniform draw never hits an end of its range exactly')

    # ---- contracts
    def use(self, contract, from_depth=0):
        c = contract
        self.env.stubs[c.qual] = (lambda a: self._stub(c, a), from_depth)

    def _stub(self, c, a):
        c.check_pre(self, a)
        self.session.used_contract(c)
        return c.result(self, a)

    def loops(self, qual, *specs):
        self.env.loops[qual] = specs

    def note(self, assumption):
        self.session.used(assumption)

    def unroll(self, n):
        self.env.unroll = n

    def raises(self, f, *exc):
        try:
            f()
        except exc:
            return True
        return False

    def reached(self):
        pass


def explore(unit, session, max_seconds=240):
    """All paths of the unit; obligations land in session.obs."""
    session.pending = [[]]
    session.contracts = set()
    session.used_contract = lambda c: session.contracts.add(c.qual)
    t0 = time.time()
    while session.pending:
        if session.stats['paths'] > session.max_paths:
            session.oor.append('more than %d paths' % session.max_paths)
            break
        if time.time() - t0 > max_seconds:
            session.oor.append('exploration took longer than %d s' % max_seconds)
            break
        prefix = session.pending.pop()
        path = Path(prefix, session)
        env = Env()
        h = H(path, env, session)
        env.H = h
        CTX.path, CTX.env = path, env
        session.stats['paths'] += 1
        try:
            unit(h)
            if h.checked or getattr(path, 'proved_here', 0):
                session.reached += 1
        except PathEnd:
            session.stats['ended'] += 1
            if h.checked or getattr(path, 'proved_here', 0):
                session.reached += 1
        except Skip:
            pass
        except OutOfReach as e:
            tb = traceback.extract_tb(e.__traceback__)
            w = [f for f in tb if f.filename.startswith('<repo>')]
            session.oor.append('%s%s' % (e, ' (%s:%d)' % (w[-1].filename[7:], w[-1].lineno) if w else ''))
            if len(session.oor) > 20:
                break
        except RecursionError as e:
            session.oor.append('recursion')
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            w = [f for f in tb if f.filename.startswith('<repo>')]
            if not w:
                session.oor.append('contract error: %s' % ''.join(traceback.format_exception(e))[-1500:])
                continue
            where = '%s:%d' % (w[-1].filename[7:], w[-1].lineno)
            inner = tb[-1].filename
            ob = sym.Obligation('no exception (%s: %s at %s)' % (type(e).__name__, str(e)[:200], where),
                                list(path.assumptions), z3.BoolVal(False), dict(path.inputs), list(path.taken),
                                'exception', where, list(path.defs))
            session.add(ob)
        finally:
            for k, v in env.stub_calls.items():
                session.stub_calls[k] = session.stub_calls.get(k, 0) + v
            for k, v in env.calls.items():
                session.calls[k] = session.calls.get(k, 0) + v
            session.loops_cut |= env.loops_cut
            CTX.path = CTX.env = None
    return session
