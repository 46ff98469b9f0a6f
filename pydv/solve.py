"""Discharging obligations: ring normalisation, then z3 in process, then external solvers raced."""
import os
import subprocess
import tempfile
import threading
import time
from fractions import Fraction
import z3

# --------------------------------------------------------------------- polynomials: {monomial: Fraction}
LIMIT = 60000


class TooBig(Exception):
    pass


class NotRing(Exception):
    pass


def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > 4 * LIMIT:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def p_pow(a, n):
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, a)
    return r


class Ring:
    """Terms as numerator / denominator over atoms; x^2 of a square root or sine is rewritten by its definition."""

    def __init__(self, defs, deadline):
        self.atoms = {}
        self.cache = {}
        self.rules = {}
        self.deadline = deadline
        self.keep = []
        for atom, kind, body in defs:
            self.keep.append(atom)
            self.rules[self._atom(atom)] = body
        self.rule_nf = {}

    def _atom(self, t):
        k = t.get_id()
        if k not in self.atoms:
            self.atoms[k] = len(self.atoms)
            self.keep.append(t)
        return self.atoms[k]

    def frac(self, t):
        k = t.get_id()
        if k in self.cache:
            return self.cache[k]
        if time.time() > self.deadline:
            raise TooBig()
        r = self._frac(t)
        self.cache[k] = r
        self.keep.append(t)
        return r

    def _frac(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            f = t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
            return p_const(f), p_const(1)
        if z3.is_to_real(t):
            return self._toreal(t.arg(0))
        d = t.decl().kind()
        ch = t.children()
        if d == z3.Z3_OP_ADD:
            n, e = self.frac(ch[0])
            for c in ch[1:]:
                n2, e2 = self.frac(c)
                n, e = self._addf(n, e, n2, e2, 1)
            return n, e
        if d == z3.Z3_OP_SUB:
            n, e = self.frac(ch[0])
            for c in ch[1:]:
                n2, e2 = self.frac(c)
                n, e = self._addf(n, e, n2, e2, -1)
            return n, e
        if d == z3.Z3_OP_UMINUS:
            n, e = self.frac(ch[0])
            return {m: -c for m, c in n.items()}, e
        if d == z3.Z3_OP_MUL:
            n, e = self.frac(ch[0])
            for c in ch[1:]:
                n2, e2 = self.frac(c)
                n, e = self.red(p_mul(n, n2)), self.red(p_mul(e, e2))
            return n, e
        if d == z3.Z3_OP_DIV:
            n, e = self.frac(ch[0])
            n2, e2 = self.frac(ch[1])
            return self.red(p_mul(n, e2)), self.red(p_mul(e, n2))
        if d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1:
            n, e = self.frac(ch[0])
            k = int(ch[1].as_fraction())
            return self.red(p_pow(n, k)), self.red(p_pow(e, k))
        if d == z3.Z3_OP_ITE:
            raise NotRing()
        return {((self._atom(t), 1),): Fraction(1)}, p_const(1)

    def _toreal(self, t):
        if z3.is_int_value(t):
            return p_const(t.as_long()), p_const(1)
        return {((self._atom(t), 1),): Fraction(1)}, p_const(1)

    def _addf(self, n, e, n2, e2, k):
        if e == e2:
            return p_add(n, n2, k), e
        if len(e2) == 1 and () in e2:
            return p_add({m: c * 1 for m, c in n.items()}, p_mul(n2, e), Fraction(k) / e2[()]), e
        if len(e) == 1 and () in e:
            c0 = e[()]
            return p_add(p_mul({m: c / c0 for m, c in n.items()}, e2), n2, k), e2
        return self.red(p_add(p_mul(n, e2), p_mul(n2, e), k)), self.red(p_mul(e, e2))

    def red(self, p):
        """rewrite v^2 -> definition for every sqrt / sin atom v (definitions are earlier, so this ends)"""
        while True:
            if time.time() > self.deadline:
                raise TooBig()
            best = None
            for m in p:
                for v, e in m:
                    if e >= 2 and v in self.rules and (best is None or v > best):
                        best = v
            if best is None:
                return p
            if best not in self.rule_nf:
                n, e = self.frac(self.rules[best])
                self.rule_nf[best] = (n, e)
            n, e = self.rule_nf[best]
            if not (len(e) == 1 and () in e):
                raise NotRing()              # handled by multiplying through in prove_zero
            c0 = e[()]
            groups = {}
            for m, c in p.items():
                k = 0
                rest = []
                for v, ex in m:
                    if v == best:
                        k = ex // 2
                        if ex % 2:
                            rest.append((v, 1))
                    else:
                        rest.append((v, ex))
                groups.setdefault(k, {})
                rm = tuple(rest)
                groups[k][rm] = groups[k].get(rm, 0) + c
            r = {}
            pw = p_const(1)
            body = {m: c / c0 for m, c in n.items()}
            for k in range(max(groups) + 1):
                if k in groups:
                    r = p_add(r, p_mul(groups[k], pw))
                pw = p_mul(pw, body)
            p = r

    def poly_red(self, p):
        """as red, with fractional definitions v^2 = n/e : multiplies the polynomial through by e"""
        while True:
            if time.time() > self.deadline:
                raise TooBig()
            best = None
            for m in p:
                for v, e in m:
                    if e >= 2 and v in self.rules and (best is None or v > best):
                        best = v
            if best is None:
                return p
            n, e = self.rule_nf.get(best) or self.frac(self.rules[best])
            groups = {}
            for m, c in p.items():
                k, rest = 0, []
                for v, ex in m:
                    if v == best:
                        k = ex // 2
                        if ex % 2:
                            rest.append((v, 1))
                    else:
                        rest.append((v, ex))
                rm = tuple(rest)
                groups.setdefault(k, {})[rm] = groups.get(k, {}).get(rm, 0) + c
            K = max(groups)
            r = {}
            for k, g in groups.items():
                t = p_mul(g, p_mul(p_pow(n, k), p_pow(e, K - k)))
                r = p_add(r, t)
            p = r


class LazyRing(Ring):
    def red(self, p):
        return p


def _subst_consts(t, assumptions):
    return t


def ring_prove(goal, assumptions, defs, seconds=4.0):
    """True if the equation follows from the definitions of the square roots / sines alone
    (denominators are non-zero by separate definedness obligations)."""
    if not (z3.is_eq(goal) and goal.arg(0).sort() == z3.RealSort()):
        return False
    dl = time.time() + seconds
    for cls in (Ring, LazyRing):
        try:
            rg = cls(defs, dl)
            a, b = goal.arg(0), goal.arg(1)
            n1, e1 = rg.frac(a)
            n2, e2 = rg.frac(b)
            n, _ = rg._addf(n1, e1, n2, e2, -1)
            n = rg.poly_red(n)
            return not n
        except (TooBig, RecursionError):
            return False
        except NotRing:
            continue
    return False


# --------------------------------------------------------------------- exact division, fraction-free atoms
def p_divexact(n, d, limit=400):
    """q with q*d == n, or None (multivariate division in lexicographic order)"""
    if not d or len(d) > 60 or len(n) > 600:
        return None

    def key(m):
        return tuple(sorted(((-v, e) for v, e in m), reverse=True))
    nv = sorted({v for p in (n, d) for m in p for v, _ in m})
    pos = {v: i for i, v in enumerate(nv)}

    def vec(m):
        r = [0] * len(nv)
        for v, e in m:
            r[pos[v]] = e
        return tuple(r)

    def mono(t):
        return tuple((nv[i], e) for i, e in enumerate(t) if e)
    N = {vec(m): c for m, c in n.items()}
    D = {vec(m): c for m, c in d.items()}
    ld = max(D)
    q = {}
    steps = 0
    while N:
        steps += 1
        if steps > limit:
            return None
        ln = max(N)
        t = tuple(a - b for a, b in zip(ln, ld))
        if any(e < 0 for e in t):
            return None
        c = N[ln] / D[ld]
        q[t] = c
        for m, k in D.items():
            x = tuple(a + b for a, b in zip(m, t))
            v = N.get(x, 0) - c * k
            if v:
                N[x] = v
            else:
                N.pop(x, None)
    return {mono(t): c for t, c in q.items()}


def p_term(p, rg):
    """z3 term of a polynomial over the atoms of the ring rg"""
    inv = getattr(rg, '_inv', None)
    if inv is None or len(inv) != len(rg.atoms):
        byid = {t.get_id(): t for t in rg.keep}
        inv = rg._inv = {i: byid[k] for k, i in rg.atoms.items()}
    out = []
    for m, c in p.items():
        f = [inv[v] for v, e in m for _ in range(e)]
        if c != 1 or not f:
            f = [z3.RealVal(str(c))] + f
        t = f[0]
        for x in f[1:]:
            t = t * x
        out.append(t)
    if not out:
        return z3.RealVal(0)
    return out[0] if len(out) == 1 else z3.Sum(out)


def quotient(ta, tb):
    """ta / tb as a polynomial when the division is exact, else None"""
    try:
        rg = LazyRing([], time.time() + 1.0)
        n1, d1 = rg.frac(ta)
        n2, d2 = rg.frac(tb)
        if len(n1) > 300 or len(n2) > 40 or len(d1) > 40 or len(d2) > 40:
            return None
        r = p_divexact(p_mul(n1, d2), p_mul(d1, n2))
        return None if r is None else p_term(r, rg)
    except (TooBig, NotRing, RecursionError, AttributeError, KeyError):
        return None


class Normal:
    """comparisons of fractions as comparisons of polynomials (every denominator is non-zero by its own obligation)"""
    def __init__(self, seconds=3.0):
        self.rg = LazyRing([], time.time() + seconds)
        self.changed = False

    def atom(self, t):
        if not (z3.is_eq(t) or z3.is_le(t) or z3.is_lt(t) or z3.is_ge(t) or z3.is_gt(t)):
            return t
        a, b = t.arg(0), t.arg(1)
        if a.sort() != z3.RealSort():
            return t
        try:
            n1, e1 = self.rg.frac(a)
            n2, e2 = self.rg.frac(b)
            if not (set(e1) <= {()} and set(e2) <= {()}):
                self.changed = True
                n, e = self.rg._addf(n1, e1, n2, e2, -1)
                x = n if z3.is_eq(t) else p_mul(n, e)
            else:
                return t
            if len(x) > 2000:
                return t
            x, z = p_term(x, self.rg), z3.RealVal(0)
            return x == z if z3.is_eq(t) else x <= z if z3.is_le(t) else x < z if z3.is_lt(t) else x >= z if z3.is_ge(t) else x > z
        except (TooBig, NotRing, RecursionError, AttributeError):
            return t

    def run(self, t):
        if z3.is_app(t) and t.sort() == z3.BoolSort():
            k = t.decl().kind()
            if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or k == z3.Z3_OP_EQ and t.arg(0).sort() == z3.BoolSort():
                return t.decl()(*[self.run(c) for c in t.children()]) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else \
                    (z3.And if k == z3.Z3_OP_AND else z3.Or)(*[self.run(c) for c in t.children()])
            if k == z3.Z3_OP_DISTINCT and t.num_args() == 2 and t.arg(0).sort() == z3.RealSort():
                return z3.Not(self.atom(t.arg(0) == t.arg(1)))
            return self.atom(t)
        return t


def find_ite(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return None
    seen.add(t.get_id())
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and t.sort() == z3.RealSort():
        c = t.arg(0)
        inner = find_ite(c, seen)
        return inner if inner is not None else t
    for c in t.children():
        r = find_ite(c, seen)
        if r is not None:
            return r
    return None


# --------------------------------------------------------------------- SMT
def fv(t, cache):
    k = t.get_id()
    if k in cache:
        return cache[k]
    if z3.is_quantifier(t):
        r = fv(t.body(), cache)
    elif z3.is_const(t):
        r = frozenset() if not (t.decl().kind() == z3.Z3_OP_UNINTERPRETED) else frozenset([t.decl().name()])
    else:
        r = frozenset().union(*[fv(c, cache) for c in t.children()]) if t.num_args() else frozenset()
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = r | {t.decl().name()}
    cache[k] = r
    return r


def filtered(assumptions, goal, rounds=2, cap=40):
    cache = {}
    vs = set(fv(goal, cache))
    left = list(assumptions)
    out = []
    for _ in range(rounds):
        take = [a for a in left if fv(a, cache) & vs]
        left = [a for a in left if not (fv(a, cache) & vs)]
        out += take
        for a in take:
            vs |= fv(a, cache)
    return out


def smt2(assumptions, goal, extra=''):
    s = z3.Solver()
    for a in assumptions:
        s.add(a)
    s.add(z3.Not(goal))
    return s.to_smt2()


Z3NEW = '/usr/local/bin/z3-new'
CVC5 = '/usr/bin/cvc5'
_sem = threading.Semaphore(int(os.environ.get('PYDV_PROCS', '8')))


def _nlsat(txt):
    return txt.replace('(check-sat)', '(check-sat-using (then simplify propagate-values solve-eqs purify-arith simplify qfnra-nlsat))')


def race(txts, timeout):
    """txts: list of (tag, argv-builder, text). First definite answer wins."""
    procs = []
    d = tempfile.mkdtemp(prefix='pydv')
    res = ('unknown', None)
    t0 = time.time()
    try:
        for i, (tag, argv, txt) in enumerate(txts):
            fn = os.path.join(d, '%d.smt2' % i)
            with open(fn, 'w') as f:
                f.write(txt)
            procs.append((tag, subprocess.Popen(argv + [fn], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        live = list(procs)
        while live and time.time() - t0 < timeout:
            for tag, p in list(live):
                if p.poll() is not None:
                    live.remove((tag, p))
                    out = p.stdout.read().strip().splitlines()
                    r = out[0].strip() if out else ''
                    if r == 'unsat':
                        return 'unsat', tag, time.time() - t0
                    if r == 'sat' and not tag.endswith('filtered'):
                        res = ('sat', tag)
                        return 'sat', tag, time.time() - t0
            time.sleep(0.01)
        return res[0], res[1], time.time() - t0
    finally:
        for tag, p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
            p.stdout.close()
        subprocess.run(['rm', '-rf', d])


def external(assumptions, goal, timeout):
    full = smt2(assumptions, goal)
    fl = filtered(assumptions, goal, 1)
    fl2 = filtered(assumptions, goal, 2)
    T = max(1, int(timeout))
    jobs = [('z3', [Z3NEW, '-T:%d' % T], full),
            ('z3-nlsat', [Z3NEW, '-T:%d' % T], _nlsat(full)),
            ('cvc5', [CVC5, '--tlimit=%d' % (T * 1000), '-q'], '(set-logic ALL)\n' + full)]
    if len(fl) < len(assumptions):
        t = smt2(fl, goal)
        jobs.append(('z3-filtered', [Z3NEW, '-T:%d' % T], t))
        jobs.append(('z3-nlsat-filtered', [Z3NEW, '-T:%d' % T], _nlsat(t)))
    if len(fl) < len(fl2) < len(assumptions):
        t = smt2(fl2, goal)
        jobs.append(('z3-nlsat2-filtered', [Z3NEW, '-T:%d' % T], _nlsat(t)))
    try:
        nm = Normal()
        na, ng = [nm.run(a) for a in (fl2 if len(fl2) < len(assumptions) else assumptions)], nm.run(goal)
        if nm.changed:
            jobs.append(('z3-nlsat-fractionfree-filtered', [Z3NEW, '-T:%d' % T], _nlsat(smt2(na, ng))))
            jobs.append(('z3-fractionfree-filtered', [Z3NEW, '-T:%d' % T], smt2(na, ng)))
    except z3.Z3Exception:
        pass
    return race(jobs, timeout + 1)


def quick(assumptions, goal, ms):
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*assumptions)
    s.add(z3.Not(goal))
    r = s.check()
    return str(r)


def model_of(assumptions, goal, inputs, seconds):
    """Values of the inputs in a model of assumptions and not goal, or None (run in a forked child)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        import json
        try:
            os.close(r)
            out = None
            for tac in ('nlsat', 'default'):
                if tac == 'nlsat':
                    s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'simplify', 'qfnra-nlsat').solver()
                else:
                    s = z3.Solver()
                s.set('timeout', int(seconds * 500))
                s.add(*assumptions)
                s.add(z3.Not(goal))
                try:
                    if s.check() == z3.sat:
                        m = s.model()
                        out = {}
                        for n, t in inputs.items():
                            if not z3.is_expr(t):
                                out[n] = t
                                continue
                            v = m.eval(t, model_completion=True)
                            out[n] = _num(v)
                        break
                except z3.Z3Exception:
                    pass
            os.write(w, json.dumps(out).encode())
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(w)
    import json
    import select
    t0 = time.time()
    data = b''
    while time.time() - t0 < seconds + 3:
        rd, _, _ = select.select([r], [], [], 0.1)
        if rd:
            c = os.read(r, 1 << 16)
            if not c:
                break
            data += c
    os.close(r)
    try:
        os.kill(pid, 9)
    except ProcessLookupError:
        pass
    os.waitpid(pid, 0)
    try:
        return json.loads(data.decode()) if data else None
    except ValueError:
        return None


def _num(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    return None


def split_goal(goal):
    """goal -> list of (extra assumptions, atomic goal)"""
    if z3.is_and(goal):
        return [x for c in goal.children() for x in split_goal(c)]
    if z3.is_implies(goal):
        return [([goal.arg(0)] + e, g) for e, g in split_goal(goal.arg(1))]
    if z3.is_or(goal):
        neg = [c.arg(0) for c in goal.children() if z3.is_not(c)]
        pos = [c for c in goal.children() if not z3.is_not(c)]
        if neg and len(pos) == 1:
            return [(neg + e, g) for e, g in split_goal(pos[0])]
        if neg and not pos:
            return [(neg[:-1], goal.children()[-1])] if len(neg) > 1 else [([], goal)]
    return [([], goal)]


def prove(assumptions, goal, defs, timeout, quick_ms=400, depth=0):
    """-> (status, backend); status in proved / sat / unknown"""
    parts = split_goal(goal)
    if len(parts) > 1 or parts[0][0]:
        backs = []
        for ex, g in parts:
            st, b = prove(assumptions + ex, g, defs, timeout, quick_ms, depth)
            if st != 'proved':
                return st, b
            backs.append(b)
        return 'proved', '+'.join(sorted(set('+'.join(backs).split('+'))))
    sg = z3.simplify(goal)
    if z3.is_true(sg):
        return 'proved', 'simplifier'
    it = None
    if z3.is_eq(goal) and goal.arg(0).sort() == z3.RealSort():
        if ring_prove(goal, assumptions, defs):
            return 'proved', 'ring'
    r = quick(assumptions, goal, quick_ms)
    if r == 'unsat':
        return 'proved', 'z3-api'
    if r == 'sat':
        return 'sat', 'z3-api'
    if depth < 6:
        it = find_ite(goal)
        if it is not None:
            c = it.arg(0)
            out = []
            for cond, br in ((c, it.arg(1)), (z3.Not(c), it.arg(2))):
                g2 = z3.substitute(goal, (it, br))
                st, b = prove(assumptions + [cond], g2, defs, timeout, quick_ms, depth + 1)
                if st != 'proved':
                    return st, b
                out.append(b)
            return 'proved', '+'.join(sorted(set('+'.join(out).split('+'))))
    st, tag, _ = external(assumptions, goal, timeout)
    return {'unsat': 'proved', 'sat': 'sat', 'unknown': 'unknown'}[st], tag or 'none'
