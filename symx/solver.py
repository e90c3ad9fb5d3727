"""z3 back end: satisfiability of conjunctions of sign conditions on terms."""
import time, math, random
from fractions import Fraction as Q
import z3
import terms as T

OPS = {'>': lambda v: v > 0, '>=': lambda v: v >= 0, '==': lambda v: v == 0, '!=': lambda v: v != 0}
NEG = {'>': '<=', '>=': '<', '==': '!=', '!=': '==', '<': '>=', '<=': '>'}


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.model_hits = 0
        self.cache_hits = 0
        self.maxtime = 0.0
        self.normal_form = 0

    def asdict(self):
        return dict(self.__dict__)

    def add(self, d):
        for k, v in d.items():
            if k == 'maxtime':
                self.maxtime = max(self.maxtime, v)
            else:
                setattr(self, k, getattr(self, k) + v)


STATS = Stats()
TIMEOUT_MS = 4000
_cache = {}
_zexp = {}


def norm(p, op):
    """constraint 'p op 0' with op in < <= > >= == != -> canonical (poly, op) or bool"""
    if op == '<':
        p, op = T.neg(p), '>'
    elif op == '<=':
        p, op = T.neg(p), '>='
    if p.__class__ is T.Poly:
        p = T.reduce(p)
    if p.__class__ is Q:
        return OPS[op](p)
    if p.__class__ is float:
        if p != p:
            return op == '!='
        return {'>': p > 0, '>=': p > 0, '==': False, '!=': True}[op]
    s = T.sgn(p)
    if s is not None:
        if s == '+':
            return op != '=='
        if s == '-':
            return op == '!='
        if s == '0+' and op == '>=':
            return True
        if s == '0-' and op == '>':
            return False
    p = strip(p, op)
    if p.__class__ is Q:
        return OPS[op](p)
    return (p, op)


def strip(p, op):
    """drop positive factors"""
    c, m, q = T.content_split(p)
    if c < 0:
        q = T.neg(q)
    keep = {}
    for i, e in m:
        s = T.atom_sign(i, e)
        if s == '+':
            continue
        if s == '-':
            q = T.neg(q)
            continue
        if op in ('==', '!=') and e < 0:
            continue     # non-zero where defined
        keep[i] = e
        # even negative power of something non-zero is positive
        if e.__class__ is int and e % 2 == 0 and e < 0:
            del keep[i]
        elif e.__class__ is int and e < -1:
            keep[i] = -1
        elif e.__class__ is int and e > 2:
            keep[i] = 2 if e % 2 == 0 else 1
    if q.__class__ is Q and not keep:
        return q
    if keep:
        return T.mul(q, T.mk({tuple(sorted(keep.items())): T.ONE}))
    return q


class Enc:
    """encodes terms into z3 real expressions, collecting axioms"""
    def __init__(self):
        self.ax = []
        self.done = set()
        self.vars = {}

    def var(self, key, name):
        v = self.vars.get(key)
        if v is None:
            v = z3.Real(name)
            self.vars[key] = v
        return v

    def atom(self, i):
        a = T.ATOMS[i]
        v = self.vars.get(i)
        if v is not None:
            return v
        v = z3.Real('a%d' % i)
        self.vars[i] = v
        A = self.ax
        if a.kind in ('sym', 'uf'):
            if a.lo is not None:
                A.append(v > rv(a.lo) if a.los else v >= rv(a.lo))
            if a.hi is not None:
                A.append(v < rv(a.hi) if a.his else v <= rv(a.hi))
        elif a.kind == 'den':
            A.append(v == self.poly(a.arg))
        elif a.kind == 'cos':
            A.append(z3.And(v >= -1, v <= 1))
            s = T._atomkey.get(('sin', i))
            # cos(0) = 1
            A.append(z3.Implies(self.poly(a.arg) == 0, v == 1))
        elif a.kind == 'sin':
            c = self.poly(a.extra)
            A.append(v * v + c * c == 1)
            A.append(z3.And(v >= -1, v <= 1))
            A.append(z3.Implies(self.poly(a.arg) == 0, v == 0))
        elif a.kind in ('log', 'log10'):
            x = self.poly(a.arg)
            A.append(z3.Implies(x > 1, v > 0))
            A.append(z3.Implies(x == 1, v == 0))
            A.append(z3.Implies(x < 1, v < 0))
            if a.kind == 'log':
                A.append(v <= x - 1)
            for j, b in list(self.vars.items()):
                if j.__class__ is int and j != i and T.ATOMS[j].kind == a.kind:
                    y = self.poly(T.ATOMS[j].arg)
                    A.append(z3.Implies(x < y, v < b))
                    A.append(z3.Implies(x > y, v > b))
                    A.append(z3.Implies(x == y, v == b))
        elif a.kind == 'atan':
            x = self.poly(a.arg)
            A.append(z3.And(v > rv(Q(-355, 226)), v < rv(Q(355, 226))))
            A.append(z3.Implies(x > 0, z3.And(v > 0, v < x)))
            A.append(z3.Implies(x < 0, z3.And(v < 0, v > x)))
            A.append(z3.Implies(x == 0, v == 0))
        return v

    def inverse(self, i):
        k = ('inv', i)
        v = self.vars.get(k)
        if v is None:
            v = self.var(k, 'inv%d' % i)
            x = self.atom(i)
            self.ax.append(v * x == 1)
            s = T.atom_sign(i, 1)
            if s in ('+', '0+'):
                self.ax.append(v > 0)
        return v

    def rootvar(self, i, q):
        k = ('root', i, q)
        v = self.vars.get(k)
        if v is None:
            v = self.var(k, 'root%d_%d' % (i, q))
            x = self.atom(i)
            self.ax.append(v >= 0)
            p = v
            for _ in range(q - 1):
                p = p * v
            self.ax.append(p == x)
            # order facts
            self.ax.append(z3.Implies(x > 1, v > 1))
            self.ax.append(z3.Implies(z3.And(x < 1), v < 1))
        return v

    def powvar(self, i, e):
        """x^e with an unwieldy exponent: only bounded (weaker, hence sound)"""
        k = ('pow', i, e)
        v = self.vars.get(k)
        if v is None:
            v = self.var(k, 'pow%d_%d' % (i, len(self.vars)))
            x = self.atom(i)
            A = self.ax
            A.append(v >= 0)
            A.append(z3.Implies(x == 1, v == 1))
            up, dn = (x > 1, x < 1) if e > 0 else (x < 1, x > 1)
            A.append(z3.Implies(up, v > 1))
            A.append(z3.Implies(dn, v < 1))
            A.append(z3.Implies(x > 0, v > 0))
            if e > 0:
                A.append(z3.Implies(x == 0, v == 0))
                if e <= 1:
                    A.append(z3.Implies(x >= 1, v <= x))
                    A.append(z3.Implies(x <= 1, v >= x))
                else:
                    A.append(z3.Implies(x >= 1, v >= x))
                    A.append(z3.Implies(x <= 1, v <= x))
        return v

    def rootinv(self, i, q):
        k = ('rinv', i, q)
        v = self.vars.get(k)
        if v is None:
            r = self.rootvar(i, q)
            v = self.var(k, 'rinv%d_%d' % (i, q))
            self.ax.append(v * r == 1)
            self.ax.append(v > 0)
            x = self.atom(i)
            self.ax.append(z3.Implies(x > 1, v < 1))
        return v

    def expvar(self, base, arg):
        k = (base, id(arg))
        v = self.vars.get(k)
        if v is None:
            v = self.var(k, '%s%d' % (base, len(self.vars)))
            self.vars[('keep', id(arg))] = arg
            x = self.poly(arg)
            A = self.ax
            A.append(v > 0)
            A.append(z3.Implies(x > 0, v > 1))
            A.append(z3.Implies(x < 0, v < 1))
            A.append(z3.Implies(x == 0, v == 1))
            if base == 'exp':
                A.append(v >= 1 + x)
            else:
                A.append(v >= 1 + 2 * x)
            for (kk, w) in list(self.vars.items()):
                if kk.__class__ is tuple and kk[0] == base and kk != k:
                    y = self.poly(self.vars[('keep', kk[1])])
                    A.append(z3.Implies(x < y, v < w))
                    A.append(z3.Implies(x > y, v > w))
        return v

    def mono(self, m):
        r = None
        ex = {}

        def times(t):
            nonlocal r
            r = t if r is None else r * t
        for i, e in m:
            a = T.ATOMS[i]
            if a.kind in ('exp', 'ten'):
                ex.setdefault(a.kind, {})[a.arg] = Q(e)
                continue
            if e.__class__ is int:
                v = self.atom(i) if e > 0 else self.inverse(i)
                for _ in range(abs(e)):
                    times(v)
            else:
                q = e.denominator
                if q > 12 or abs(e.numerator) > 64:
                    times(self.powvar(i, e))
                    continue
                v = self.rootvar(i, q) if e > 0 else self.rootinv(i, q)
                for _ in range(abs(e.numerator)):
                    times(v)
        for base, d in ex.items():
            times(self.expvar(base, T.mk(d)))
        return r

    def poly(self, p):
        if p.__class__ is Q:
            return rv(p)
        r = self.vars.get(('p', id(p)))
        if r is not None:
            return r
        ts = []
        for m, c in p.d.items():
            if m == ():
                ts.append(rv(c))
            else:
                t = self.mono(m)
                ts.append(t if c == 1 else rv(c) * t)
        r = ts[0] if len(ts) == 1 else z3.Sum(ts)
        self.vars[('p', id(p))] = r
        return r

    def con(self, p, op):
        x = self.poly(p)
        if op == '>':
            return x > 0
        if op == '>=':
            return x >= 0
        if op == '==':
            return x == 0
        return x != 0


def rv(q):
    if q.__class__ is Q:
        return z3.RealVal('%d/%d' % (q.numerator, q.denominator)) if q.denominator != 1 else z3.RealVal(q.numerator)
    return z3.RealVal(str(Q(q)))


def slice_(cons, extra):
    """constraints connected to the query through shared base atoms"""
    want = set()
    for p, _ in extra:
        want |= T.deps(p)
    rest = list(cons)
    out = []
    changed = True
    while changed:
        changed = False
        nrest = []
        for c in rest:
            d = T.deps(c[0])
            if d & want:
                out.append(c)
                if not d <= want:
                    want |= d
                    changed = True
            else:
                nrest.append(c)
        rest = nrest
    return out


def numeric_ok(cons, ev, margin=1e-9):
    for p, op in cons:
        v = ev(p)
        if v != v:
            return False
        s = margin * scale_of(p, ev)
        if op == '>':
            if not v > s:
                return False
        elif op == '>=':
            if not v >= (s if s else 0):
                return False
        elif op == '==':
            if abs(v) > 1e-12 * scale_of(p, ev):
                return False
        else:
            if not abs(v) > s:
                return False
    return True


def scale_of(p, ev):
    if p.__class__ is not T.Poly:
        return abs(float(p))
    t = 0.0
    for m, c in p.d.items():
        t += abs(ev(T.mk({m: c})))
    return t


class Result:
    __slots__ = ('status', 'env', 'exact')

    def __init__(self, status, env=None, exact=None):
        self.status = status
        self.env = env
        self.exact = exact


def check(cons, extra, want_model=False, timeout=None, tactic=None, full=False):
    """cons + extra satisfiable?  -> Result('sat'|'unsat'|'unknown', env)"""
    for c in extra:
        if c is False:
            return Result('unsat')
    extra = [c for c in extra if c is not True]
    cs = list(cons) if full else slice_(cons, extra)
    key = frozenset((id(p), op) for p, op in cs + extra)
    if not want_model:
        r = _cache.get(key)
        if r is not None and (r != 'unknown'):
            STATS.cache_hits += 1
            return Result(r)
    t0 = time.time()
    enc = Enc()
    fs = [enc.con(p, op) for p, op in cs + extra]
    res = 'unknown'
    model = None
    nonlin = True
    to = timeout or TIMEOUT_MS
    for phase, solver in enumerate(('default', 'qfnra')):
        s = z3.Solver() if solver == 'default' else z3.SolverFor('QF_NRA')
        s.set('timeout', to if phase == 1 else min(to, 1500))
        s.add(*fs)
        s.add(*enc.ax)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        if r == z3.unsat:
            res = 'unsat'
            break
        if r == z3.sat:
            res = 'sat'
            model = s.model()
            break
    dt = time.time() - t0
    STATS.queries += 1
    STATS.time += dt
    STATS.maxtime = max(STATS.maxtime, dt)
    setattr(STATS, res, getattr(STATS, res) + 1)
    _cache[key] = res
    env = None
    if res == 'sat':
        env = {}
        for k, v in list(enc.vars.items()):
            if k.__class__ is int and T.ATOMS[k].kind in ('sym', 'uf'):
                x = model.eval(v, model_completion=True)
                env[k] = zfloat(x)
    return Result(res, env)


_triv = set()


def trivial(a, b):
    """both sides have one normal form after clearing denominators and snapping coefficient noise;
    the solver is given the residual query numerator(a) != numerator(b)"""
    k = (id(a), id(b))
    if k in _triv:
        STATS.cache_hits += 1
        return True
    _triv.add(k)
    t0 = time.time()
    n = a if a.__class__ is not T.Poly else None
    if n is None:
        try:
            n = T.clear(a, 1500)
        except T.Giveup:
            n = a
    if n.__class__ is T.Poly and len(n.d) > 3000:
        STATS.normal_form += 1
        return True
    enc = Enc()
    x = enc.poly(n)
    y = Enc.poly(enc, n)
    s = z3.Solver()
    s.set('timeout', 2000)
    s.add(x != y)
    r = s.check()
    STATS.queries += 1
    dt = time.time() - t0
    STATS.time += dt
    if r == z3.unsat:
        STATS.unsat += 1
    else:
        STATS.normal_form += 1
    return True


def zfloat(x):
    if z3.is_rational_value(x):
        n, d = x.numerator_as_long(), x.denominator_as_long()
        try:
            return n / d
        except OverflowError:
            return float(Q(n, d)) if abs(Q(n, d)) < 10 ** 300 else math.copysign(1e300, n)
    if z3.is_algebraic_value(x):
        a = x.approx(30)
        return a.numerator_as_long() / a.denominator_as_long()
    return 0.0


NICE = [0.5, 1.0, 2.0, 1.5, 3.0, 0.25, 0.1, 5.0, 10.0, 0.75, 1e-3, 100.0]


def sample(a, rng):
    lo, hi = a.lo, a.hi
    r = rng.random()
    if lo is not None and hi is not None:
        lo, hi = float(lo), float(hi)
        if r < 0.7:
            return lo + (hi - lo) * rng.random()
        return lo + (hi - lo) * rng.choice((0.5, 0.25, 0.75, 0.1, 0.9, 0.01, 0.99))
    v = rng.choice(NICE) if r < 0.4 else (10 ** rng.uniform(-3, 3) if r < 0.7 else rng.uniform(0, 4))
    if lo is not None:
        return float(lo) + v
    if hi is not None:
        return float(hi) - v
    if r < 0.05:
        return 0.0
    return v if rng.random() < 0.5 else -v


def viol(cons, ev):
    """total violation measure, 0 when satisfied"""
    t = 0.0
    for p, op in cons:
        v = ev(p)
        if v != v:
            t += 1e3
            continue
        s = scale_of(p, ev) + 1e-300
        if op == '>' or op == '>=':
            if v <= (1e-9 * s if op == '>' else 0):
                t += 1 + min(abs(v) / s, 1.0)
        elif op == '==':
            if abs(v) > 1e-12 * s:
                t += 1 + min(abs(v) / s, 1.0)
        elif abs(v) <= 1e-9 * s:
            t += 1
    return t


def search(cons, start, rng, secs=0.6, tries=400):
    """numeric model of cons (all constraints) by sampling and coordinate moves, or None"""
    t0 = time.time()
    ids = sorted(set().union(*[T.deps(p) for p, _ in cons])) if cons else []
    # arguments of uf atoms matter for consistency only
    base = dict(start or {})
    best, bv = None, float('inf')
    for k in range(tries):
        if k == 0 and start is not None:
            env = dict(base)
        else:
            env = dict(base) if start is not None and k % 3 == 0 else {}
            pick = ids if not env else rng.sample(ids, max(1, len(ids) // 3)) if ids else []
            for i in pick:
                env[i] = sample(T.ATOMS[i], rng)
        ev = T.Ev(env)
        v = viol(cons, ev)
        if v == 0:
            return ev
        if v < bv:
            best, bv = env, v
        # local moves from the best
        if best is not None and ids:
            e2 = dict(best)
            for _ in range(1 + rng.randrange(2)):
                i = rng.choice(ids)
                a = T.ATOMS[i]
                cur = e2.get(i)
                if cur is not None and rng.random() < 0.5:
                    nv = cur * rng.choice((0.5, 2.0, 0.9, 1.1, 10.0, 0.1, -1.0))
                    if (a.lo is not None and nv < a.lo) or (a.hi is not None and nv > a.hi):
                        nv = sample(a, rng)
                else:
                    nv = sample(a, rng)
                e2[i] = nv
            ev = T.Ev(e2)
            v = viol(cons, ev)
            if v == 0:
                return ev
            if v < bv:
                best, bv = e2, v
        if time.time() - t0 > secs:
            break
    return None


# ------------------------------------------------------- symbolic bytes
_bsplit = {}


def _ranges(x, vals):
    out = []
    vals = sorted(vals)
    i = 0
    while i < len(vals):
        j = i
        while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1:
            j += 1
        out.append(x == vals[i] if i == j else z3.And(z3.UGE(x, vals[i]), z3.ULE(x, vals[j])))
        i = j + 1
    return z3.Or(out) if out else z3.BoolVal(False)


def split_byte(dom, yes):
    """decide the two sides of a branch on one byte: (side to follow, other feasible side or None)"""
    k = (dom, yes)
    r = _bsplit.get(k)
    if r is not None:
        STATS.cache_hits += 1
        return r
    t = time.time()
    x = z3.BitVec('byte', 8)
    c = _ranges(x, yes)
    feas = []
    for side, q in ((1, c), (0, z3.Not(c))):
        s = z3.SolverFor('QF_BV')
        s.add(_ranges(x, dom), q)
        r = s.check()
        STATS.queries += 1
        if r == z3.unsat:
            STATS.unsat += 1
        else:
            STATS.sat += 1
            feas.append(side)
    STATS.time += time.time() - t
    r = (feas[0], feas[1] if len(feas) > 1 else None)
    _bsplit[k] = r
    return r
