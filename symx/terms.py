"""Canonical real-arithmetic terms.

A double of the analysed program is one of
  * fractions.Fraction  - a known real number,
  * Poly                - a symbolic real (Laurent polynomial over atoms),
  * float               - only inf, -inf or nan (IEEE specials).

Atoms are symbols, named sub-polynomials ('den', which may carry negative and
fractional exponents), exponentials of one monomial, sin, cos, log, ... .
Everything is hash-consed; atoms with numerically and algebraically equal
arguments are identified.
"""
import math, cmath, random
from fractions import Fraction as Q

INF = float('inf')
NAN = float('nan')
ONE = Q(1)
ZERO = Q(0)
K = 2                       # fingerprint points
TERM_CAP = 300              # products larger than this name their operands
EXPAND_CAP = 30000          # give up expanding beyond this
_rng = random.Random(12345)


class Giveup(Exception):
    pass


def rat(x):
    """simplest rational within about one ulp of a double"""
    if x != x or x in (INF, -INF):
        return x
    f = Q(x)
    if f.denominator <= (1 << 20):
        return f
    a = abs(x)
    # continued fraction, stop at the first convergent within 1e-16 relative
    h0, h1, k0, k1 = 0, 1, 1, 0
    y = abs(f)
    z = y
    tol = y / (1 << 53)
    for _ in range(40):
        n = z.numerator // z.denominator
        h0, h1 = h1, n * h1 + h0
        k0, k1 = k1, n * k1 + k0
        c = Q(h1, k1)
        if abs(c - y) <= tol:
            if c.numerator.bit_length() + c.denominator.bit_length() < 50 + 0 * int(a):
                return c if x > 0 else -c
            break
        z = 1 / (z - n)
    # decimal literals such as 9.10938356e-31 or 1e-99
    d = Q(repr(x))
    return d


def small(q):
    """keep rationals from growing without bound"""
    if q.denominator.bit_length() > 400 or q.numerator.bit_length() > 1200:
        n, d = q.numerator, q.denominator
        # keep ~128 bits of precision
        s = n.bit_length() - 128
        if s > 0 and d.bit_length() - 128 > 0:
            t = min(s, d.bit_length() - 128)
            return Q(n >> t, d >> t)
        if d.bit_length() > 400:
            t = d.bit_length() - 128
            if n.bit_length() < 256:
                sh = 256
                return Q((n << sh) // d, 1 << sh) if False else Q(n, d)
    return q


class Atom:
    __slots__ = ('id', 'kind', 'arg', 'name', 'lo', 'hi', 'los', 'his', 'fp', 'z', 'deps', 'extra', 'pows')

    def __repr__(self):
        return atom_str(self)


ATOMS = []
_atomkey = {}
_fpindex = {}     # kind -> {rounded fp: [atoms]}


def new_atom(kind, arg=None, name=None, lo=None, hi=None, los=False, his=False, fp=None, deps=None):
    a = Atom()
    a.id = len(ATOMS)
    a.kind = kind
    a.arg = arg
    a.name = name
    a.lo = lo
    a.hi = hi
    a.los = los        # lower bound strict
    a.his = his
    a.fp = fp
    a.z = None
    a.extra = None
    a.pows = None
    a.deps = deps
    ATOMS.append(a)
    return a


def atom_str(a):
    if a.kind == 'sym':
        return a.name
    if a.kind == 'den':
        return '{D%d}' % a.id
    if a.kind in ('exp', 'ten'):
        return '%s<%s>' % (a.kind, mono_str(a.arg))
    if a.kind == 'uf':
        return '%s(%s)' % (a.name, ','.join(str(x) for x in a.arg))
    return '%s(%s)' % (a.kind, a.arg)


def mono_str(m):
    if not m:
        return '1'
    return '*'.join(str(ATOMS[i]) + ('' if e == 1 else '^%s' % e) for i, e in m)


class Poly:
    __slots__ = ('d', 'fp', 'z', 'h', 'fpm', 'num', '__weakref__')

    def __repr__(self):
        s = ' + '.join(('%s*%s' % (float(c), mono_str(m))) for m, c in list(self.d.items())[:12])
        return s + (' ...' if len(self.d) > 12 else '')


_intern = {}


def mk(d):
    """dict -> Fraction or interned Poly"""
    if not d:
        return ZERO
    if len(d) == 1 and () in d:
        return d[()]
    k = frozenset(d.items())
    p = _intern.get(k)
    if p is None:
        p = Poly()
        p.d = d
        p.fp = False
        p.z = None
        p.fpm = None
        p.num = None
        _intern[k] = p
    return p


def const(c):
    return c


def pd(x):
    """dict view of a Fraction or Poly"""
    if x.__class__ is Poly:
        return x.d
    return {(): x} if x else {}


def atom_poly(a, e=1):
    return mk({((a.id, e),): ONE})


# --------------------------------------------------------------- monomials
_mm = {}


def mono_mul(m1, m2):
    """-> (mono, extra) with extra a Poly/None multiplying the monomial"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    k = (m1, m2) if m1 <= m2 else (m2, m1)
    r = _mm.get(k)
    if r is not None:
        return r
    d = dict(m1)
    for i, e in m2:
        s = d.get(i)
        if s is None:
            d[i] = e
        else:
            s = s + e
            if s == 0:
                del d[i]
            else:
                if s.__class__ is Q and s.denominator == 1:
                    s = s.numerator
                d[i] = s
    extra = None
    for i in list(d):
        a = ATOMS[i]
        if a.kind == 'sin':
            e = d[i]
            if e >= 2:
                n = e // 2
                r_ = e - 2 * n
                if r_:
                    d[i] = r_
                else:
                    del d[i]
                c = a.extra   # cos partner poly
                t = sub(ONE, mul(c, c))
                t = ipow(t, n)
                extra = t if extra is None else mul(extra, t)
        elif a.kind == 'den':
            e = d[i]
            if e >= 1 and a.extra is None and len(a.arg.d) <= 12:
                n = int(e // 1)
                r_ = e - n
                if r_:
                    d[i] = r_
                else:
                    del d[i]
                t = ipow(a.arg, n)
                extra = t if extra is None else mul(extra, t)
    r = (tuple(sorted(d.items())), extra)
    _mm[k] = r
    return r


def acc(d, m, c):
    o = d.get(m)
    if o is None:
        d[m] = c
    else:
        s = o + c
        if s == 0:
            del d[m]
        elif (o > 0) != (c > 0) and abs(s) * 10000000000000 < abs(o):
            del d[m]
        else:
            d[m] = s


# -------------------------------------------------------------- arithmetic
TINY = Q(1, 10 ** 60)


def add(a, b):
    if a.__class__ is float or b.__class__ is float:
        return special(a, b, '+')
    if a.__class__ is Q and b.__class__ is Q:
        return a + b
    if a.__class__ is Q:
        a, b = b, a
    if b.__class__ is Q:
        if -TINY < b < TINY:
            # absorbed by rounding: guards against division by zero such as 1e-99
            return a
        d = dict(a.d)
        acc(d, (), b)
        r = mk(d)
        if b > 0 and id(a) in _nn:
            _note(r, '+')
        return r
    if len(b.d) > len(a.d):
        a, b = b, a
    d = dict(a.d)
    for m, c in b.d.items():
        acc(d, m, c)
    r = mk(d)
    if _nn:
        x = _nn.get(id(a))
        y = _nn.get(id(b))
        if x or y:
            x = x or _known(a)
            y = y or _known(b)
            if x and y:
                _note(r, '+' if x == '+' or y == '+' else '0+')
    return r


def neg(a):
    if a.__class__ is Poly:
        return mk({m: -c for m, c in a.d.items()})
    return -a


def sub(a, b):
    return add(a, neg(b))


def scale(a, c):
    if c == 0:
        return ZERO
    if a.__class__ is Q:
        return a * c
    if c == 1:
        return a
    r = mk({m: small(k * c) for m, k in a.d.items()})
    if c > 0 and _nn:
        x = _nn.get(id(a))
        if x:
            _note(r, x)
    return r


_mulmemo = {}


def mul(a, b):
    ca = a.__class__
    cb = b.__class__
    if ca is Q and cb is Q:
        return small(a * b)
    if ca is float or cb is float:
        return special(a, b, '*')
    if ca is Q:
        return scale(b, a)
    if cb is Q:
        return scale(a, b)
    k = (id(a), id(b)) if id(a) <= id(b) else (id(b), id(a))
    r = _mulmemo.get(k)
    if r is not None:
        return r
    r = _mul(a, b)
    _mulmemo[k] = r
    if a is b:
        _note(r, '+' if id(a) in _nn and _nn[id(a)] == '+' else '0+')
    elif _nn:
        x = _known(a)
        if x:
            y = _known(b)
            if y:
                _note(r, '+' if x == y == '+' else '0+')
    return r


def _mul(a, b, cap=True):
    if cap and len(a.d) * len(b.d) > TERM_CAP and len(a.d) > 1 and len(b.d) > 1:
        if len(a.d) > 12:
            a = let(a)
        if len(b.d) > 12:
            b = let(b)
    d = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m, ex = mono_mul(m1, m2)
            c = c1 * c2
            if ex is None:
                acc(d, m, c)
            else:
                t = mul_mono(ex, m, c)
                for mm, cc in pd(t).items():
                    acc(d, mm, cc)
    return mk({m: small(c) for m, c in d.items()})


# signs known by construction (squares, sums and products of non-negatives), path-independent
_nn = {}


def _known(p):
    if p.__class__ is Q:
        return '+' if p > 0 else ('0+' if p == 0 else None)
    if p.__class__ is not Poly:
        return None
    r = _nn.get(id(p))
    if r is None and len(p.d) <= 6:
        r = _sgn1(p)
        if r != '+' and r != '0+':
            r = None
    return r


def _note(p, s):
    if p.__class__ is Poly and len(p.d) > 1:
        o = _nn.get(id(p))
        if o is None or (o == '0+' and s == '+'):
            _nn[id(p)] = s
            _sgn.pop(id(p), None)


def mul_mono(p, m, c):
    """p * c * m"""
    if p.__class__ is Q:
        return mk({m: p * c}) if p * c else ZERO
    d = {}
    for m1, c1 in p.d.items():
        mm, ex = mono_mul(m1, m)
        if ex is None:
            acc(d, mm, c1 * c)
        else:
            for m3, c3 in pd(mul_mono(ex, mm, c1 * c)).items():
                acc(d, m3, c3)
    return mk(d)


def ipow(a, n):
    if a.__class__ is Q:
        return a ** n
    if n == 0:
        return ONE
    if n == 1:
        return a
    if n < 0:
        return ipow(inv(a), -n)
    h = ipow(a, n // 2)
    r = mul(h, h)
    if n & 1:
        r = mul(r, a)
    return r


def special(a, b, op):
    """IEEE rules once an operand is inf/nan (finite symbolic operands: sign needed)"""
    def f(x):
        if x.__class__ is float:
            return x
        if x.__class__ is Q:
            return 0.0 if x == 0 else (1.0 if x > 0 else -1.0)
        return None
    fa, fb = f(a), f(b)
    if (a.__class__ is float and a != a) or (b.__class__ is float and b != b):
        return NAN
    if op == '+':
        if a.__class__ is float and b.__class__ is float:
            return a + b
        return a if a.__class__ is float else b
    if fa is None or fb is None:
        raise NeedSign(a if fa is None else b)
    return fa * fb


class NeedSign(Exception):
    def __init__(self, p):
        self.p = p


# ------------------------------------------------------------ named polys
def content_split(p):
    """p = c * m * q, with q primitive (no common monomial, leading coef 1)"""
    items = list(p.d.items())
    common = dict(items[0][0])
    for m, _ in items[1:]:
        if not common and True:
            # negative exponents of any monomial still need pulling out
            pass
        dm = dict(m)
        for i in list(common):
            e = dm.get(i, 0)
            common[i] = min(common[i], e)
        for i, e in m:
            if i not in common:
                common[i] = min(0, e)
    common = {i: e for i, e in common.items() if e != 0}
    # fractional leftovers are fine
    if common:
        cm = tuple(sorted(common.items()))
        icm = tuple((i, -e) for i, e in cm)
        d = {}
        for m, c in items:
            dd = dict(m)
            for i, e in icm:
                s = dd.get(i, 0) + e
                if s.__class__ is Q and s.denominator == 1:
                    s = s.numerator
                if s == 0:
                    dd.pop(i, None)
                else:
                    dd[i] = s
            d[tuple(sorted(dd.items()))] = c
    else:
        cm = ()
        d = dict(p.d)
    lead = max(d)
    c = d[lead]
    if c != 1:
        d = {m: k / c for m, k in d.items()}
    q = mk(d)
    sp = _nn.get(id(p))
    if sp and c > 0:
        for i, e in cm:
            t = atom_sign(i, e)
            if t != '+':
                sp = None if t != '0+' else '0+'
            if not sp:
                break
        if sp:
            _note(q, sp)
    q2 = expand_pos(q)
    if sp and c > 0 and q2 is not q:
        _note(q2, sp)
    if q2 is not q:
        if q2.__class__ is Q:
            return c * q2, cm, ONE
        c3, m3, q3 = content_split(q2)
        return c * c3, merge(cm, m3), q3
    return c, cm, q


def expand_pos(p):
    """expand small named polynomials that occur with an integer part >= 1"""
    if p.__class__ is not Poly:
        return p
    hit = False
    for m in p.d:
        for i, e in m:
            if e >= 1:
                a = ATOMS[i]
                if a.kind == 'den' and a.extra is None and len(a.arg.d) <= 12:
                    hit = True
    if not hit:
        return p
    t = ZERO
    for m, c in p.d.items():
        t = add(t, norm_mono(dict(m), c))
    return t


def let(p, lazy=True):
    """name a polynomial: returns a Poly D (atom kind 'den')"""
    a = den_atom(p)
    if lazy:
        a.extra = True
    return atom_poly(a)


def den_atom(p):
    k = ('den', id(p))
    a = _atomkey.get(k)
    if a is not None:
        return a
    a = same_by_fp('den', p)
    if a is None:
        a = new_atom('den', p)
        a.fp = fp(p)
        index_fp('den', a, p)
    _atomkey[k] = a
    return a


def rkey(v):
    if v is None:
        return None
    out = []
    for z in v:
        for t in (z.real, z.imag):
            if t == 0 or abs(t) < 1e-12 * abs(z):
                out.append(0)
            else:
                out.append(float('%.6e' % t))
    return tuple(out)


def index_fp(kind, a, p):
    k = rkey(fp(p))
    if k is None:
        return
    _fpindex.setdefault(kind, {}).setdefault(k, []).append(a)


def close(u, v):
    for x, y in zip(u, v):
        if abs(x - y) > 1e-8 * (abs(x) + abs(y)) + 1e-300:
            return False
    return True


def same_by_fp(kind, p):
    f = fp(p)
    if f is None:
        return None
    tab = _fpindex.get(kind)
    if not tab:
        return None
    for a in tab.get(rkey(f), ()):
        q = a.arg
        if q is p:
            return a
        if close(fp(q), f):
            z = is_zero(sub(p, q))
            if z:
                return a
    return None


# ------------------------------------------------------------ fingerprints
def atom_fp(a):
    if a.fp is None:
        a.fp = False
    return a.fp or None


def sym_fp(lo, hi):
    l = 0.3 if lo is None else float(lo)
    h = 1.7 if hi is None else float(hi)
    if lo is None and hi is not None:
        l = h - 1.3
    if hi is None and lo is not None:
        h = l + 1.4 * max(1.0, abs(l))
        l = l + 0.3
    return [complex(l + (h - l) * (0.1 + 0.8 * _rng.random())) for _ in range(K)]


def fp(p):
    """list of K complex values, or None"""
    if p.__class__ is Q:
        try:
            return [complex(float(p))] * K
        except OverflowError:
            return None
    if p.__class__ is float:
        return None
    if p.fp is not False:
        return p.fp
    r = [0j] * K
    mag = [0.0] * K
    try:
        for m, c in p.d.items():
            c = float(c)
            for k in range(K):
                v = c
                for i, e in m:
                    f = atom_fp(ATOMS[i])
                    if f is None:
                        p.fp = None
                        return None
                    v = v * pw(f[k], e)
                r[k] += v
                mag[k] += abs(v)
        for k in range(K):
            if not (abs(r[k]) < 1e250):
                p.fp = None
                return None
            if mag[k] and abs(r[k]) < 1e-13 * mag[k]:
                r[k] = 0j
            elif mag[k] and abs(r[k]) < 1e-10 * mag[k]:
                # cancelled too far to trust
                p.fp = None
                p.fpm = mag
                return None
        p.fp = r
        p.fpm = mag
        return r
    except (OverflowError, ZeroDivisionError, ValueError):
        p.fp = None
        return None


def pw(z, e):
    if e == 1:
        return z
    if e.__class__ is int:
        return z ** e
    if z == 0:
        if e > 0:
            return 0j
        raise ZeroDivisionError
    if abs(z.imag) <= 1e-12 * abs(z) and z.real > 0:
        return complex(z.real ** float(e))
    raise ValueError


# -------------------------------------------------------------- inversion
_invmemo = {}


def inv(p):
    if p.__class__ is Q:
        return 1 / p
    r = _invmemo.get(id(p))
    if r is not None:
        return r
    if len(p.d) == 1:
        (m, c), = p.d.items()
        r = norm_mono({i: -e for i, e in m}, 1 / c)
    else:
        p1 = reduce(p)
        if p1.__class__ is Q or len(p1.d) == 1:
            r = inv(p1)
        else:
            c, m, q = content_split(p1)
            if q.__class__ is Q:
                r = norm_mono({i: -e for i, e in m}, 1 / (c * q))
            else:
                a = den_atom(q)
                dd = {i: -e for i, e in m}
                dd[a.id] = dd.get(a.id, 0) - 1
                r = norm_mono(dd, 1 / c)
    _invmemo[id(p)] = r
    _keep.append(p)
    return r


_keep = []


def norm_mono(d, c):
    """build c*prod atoms^e applying atom rules"""
    d = {i: e for i, e in d.items() if e != 0}
    d = {i: (e.numerator if e.__class__ is Q and e.denominator == 1 else e) for i, e in d.items()}
    ex = None
    for i in list(d):
        a = ATOMS[i]
        if a.kind == 'den' and d[i] >= 1 and a.extra is None and len(a.arg.d) <= 12:
            n = int(d[i] // 1)
            r = d[i] - n
            if r:
                d[i] = r
            else:
                del d[i]
            t = ipow(a.arg, n)
            ex = t if ex is None else mul(ex, t)
        elif a.kind == 'sin' and d[i] >= 2:
            n = d[i] // 2
            r = d[i] - 2 * n
            if r:
                d[i] = r
            else:
                del d[i]
            t = ipow(sub(ONE, mul(a.extra, a.extra)), n)
            ex = t if ex is None else mul(ex, t)
    m = tuple(sorted(d.items()))
    if ex is None:
        return mk({m: c})
    return mul_mono(ex, m, c)


def div(a, b):
    """b known to be non-zero"""
    if b.__class__ is float:
        if b != b or (a.__class__ is float and (a != a or a in (INF, -INF))):
            return NAN
        return ZERO
    if a.__class__ is float:
        return special(a, inv(b) if b.__class__ is Q else b, '*')
    if b.__class__ is Q and a.__class__ is Q:
        return small(a / b)
    if a is b:
        return ONE
    return mul(a, inv(b))


# ------------------------------------------------- expansion / zero testing
def den_ids(p):
    s = set()
    for m in p.d:
        for i, e in m:
            if ATOMS[i].kind == 'den' and (e < 0 or e >= 1):
                s.add(i)
    return s


def clear(p, cap=EXPAND_CAP):
    """numerator of p: multiply by den atoms until none is left with |floor(exp)|>0.
    Multiplication is by quantities known to be non-zero where p is defined."""
    n = 0
    while p.__class__ is Poly:
        ids = den_ids(p)
        if not ids:
            return p
        i = max(ids)
        a = ATOMS[i]
        lo = 0
        for m in p.d:
            for j, e in m:
                if j == i:
                    f = math.floor(e)
                    if f < lo:
                        lo = f
        d = {}
        groups = {}
        for m, c in p.d.items():
            ee = 0
            rest = m
            for j, e in m:
                if j == i:
                    ee = e
                    rest = tuple(x for x in m if x[0] != i)
                    break
            t = ee - lo
            fl = math.floor(t)
            fr = t - fl
            groups.setdefault((fl, fr), {})[rest] = c
        total = ZERO
        for (fl, fr), dd in groups.items():
            g = mk(dd)
            if fr:
                g = raw_mono(g, ((i, fr if fr.__class__ is Q else Q(fr)),))
            if fl:
                g = expand_mul(g, raw_pow(a.arg, fl), cap)
            total = add(total, g)
            if total.__class__ is Poly and len(total.d) > cap:
                raise Giveup
        p = total
        n += 1
        if n > 200:
            raise Giveup
    return p


def raw_mono(g, m):
    if g.__class__ is Q:
        return mk({m: g})
    d = {}
    for mm, c in g.d.items():
        x, ex = mono_mul(mm, m)
        if ex is None:
            acc(d, x, c)
        else:
            for m3, c3 in pd(mul_mono(ex, x, c)).items():
                acc(d, m3, c3)
    return mk(d)


_rawpow = {}


def raw_pow(p, n):
    k = (id(p), n)
    r = _rawpow.get(k)
    if r is None:
        r = p
        for _ in range(n - 1):
            r = expand_mul(r, p)
        _rawpow[k] = r
        _keep.append(p)
    return r


def expand_mul(a, b, cap=EXPAND_CAP):
    if a.__class__ is Q or b.__class__ is Q:
        return mul(a, b)
    if len(a.d) * len(b.d) > cap * 10:
        raise Giveup
    return _mul(a, b, cap=False)


_zmemo = {}


def is_zero(p):
    """True: p is identically zero (to coefficient tolerance); False: not shown"""
    if p.__class__ is Q:
        return p == 0
    if p.__class__ is float:
        return False
    r = _zmemo.get(id(p))
    if r is not None:
        return r
    f = fp(p)
    r = False
    ok = True
    if f is not None:
        mag = p.fpm
        for k in range(K):
            if abs(f[k]) > 1e-9 * mag[k]:
                ok = False
    if ok:
        try:
            q = clear(p)
            r = q.__class__ is Q and q == 0
        except Giveup:
            r = False
    _zmemo[id(p)] = r
    _keep.append(p)
    return r


def eq_numerators(a, b):
    """numerators of a and b over a common denominator: (A, B) or None"""
    # tag trick: clear a*t + b with a marker symbol
    t = marker()
    p = add(mul(a, atom_poly(t)), b)
    try:
        p = clear(p)
    except Giveup:
        return None
    A, B = {}, {}
    for m, c in pd(p).items():
        if any(i == t.id for i, e in m):
            A[tuple(x for x in m if x[0] != t.id)] = c
        else:
            B[m] = c
    return A, B


_marker = None


def marker():
    global _marker
    if _marker is None:
        _marker = new_atom('sym', name='#t', fp=[complex(0.77)] * K)
    return _marker


# -------------------------------------------------------------- reduction
_redmemo = {}


def reduce(p):
    """cancel den atoms where the numerator is exactly divisible"""
    if p.__class__ is not Poly:
        return p
    r = _redmemo.get(id(p))
    if r is not None:
        return r
    q = p
    ids = sorted((i for i in den_ids(q)), reverse=True) if q.__class__ is Poly else []
    for i in ids:
        if q.__class__ is not Poly:
            break
        a = ATOMS[i]
        if len(a.arg.d) > 40 or len(q.d) > 400:
            continue
        for _ in range(12):
            if q.__class__ is not Poly:
                break
            lo = 0
            for m in q.d:
                for j, e in m:
                    if j == i and e < lo:
                        lo = e
            if lo > -1:
                break
            top = {}
            rest = {}
            for m, c in q.d.items():
                dm = dict(m)
                if dm.get(i, 0) == lo:
                    del dm[i]
                    top[tuple(sorted(dm.items()))] = c
                else:
                    rest[m] = c
            quo = exact_div(mk(top), a.arg)
            if quo is None:
                break
            n = lo + 1
            t = quo if n == 0 else mul(quo, mk({((i, n),): ONE}))
            q = add(mk(rest), t)
    _redmemo[id(p)] = q
    _keep.append(p)
    if q is not p and id(p) in _nn:
        _note(q, _nn[id(p)])
    return q


def shift_nonneg(p):
    """p = m * q with q having only non-negative exponents and no common monomial"""
    mins = {}
    first = True
    for m in p.d:
        dm = dict(m)
        if first:
            mins = dict(dm)
            first = False
        else:
            for i in list(mins):
                mins[i] = min(mins[i], dm.get(i, 0))
            for i, e in dm.items():
                if i not in mins:
                    mins[i] = min(0, e)
    mins = {i: e for i, e in mins.items() if e}
    if not mins:
        return (), p.d
    d = {}
    for m, c in p.d.items():
        dm = dict(m)
        for i, e in mins.items():
            s = dm.get(i, 0) - e
            if s == 0:
                dm.pop(i, None)
            else:
                dm[i] = s
        d[tuple(sorted(dm.items()))] = c
    return tuple(sorted(mins.items())), d


def okey(order):
    def k(m):
        dm = dict(m)
        return tuple(dm.get(i, 0) for i in order)
    return k


def exact_div(p, q):
    """Laurent-polynomial quotient p/q if exact, else None"""
    if p.__class__ is Q:
        return None if p else ZERO
    if q.__class__ is Q:
        return scale(p, 1 / q)
    mp, dp = shift_nonneg(p)
    mq, dq = shift_nonneg(q)
    if len(dp) < len(dq) and len(dp) == 1:
        return None
    order = sorted({i for m in dq for i, _ in m} | {i for m in dp for i, _ in m}, reverse=True)
    key = okey(order)
    lq = max(dq, key=key)
    cq = dq[lq]
    lqd = dict(lq)
    r = dict(dp)
    quo = {}
    steps = 0
    while r:
        steps += 1
        if steps > 600 or len(r) > 3000:
            return None
        lr = max(r, key=key)
        dm = dict(lr)
        for i, e in lqd.items():
            s = dm.get(i, 0) - e
            if s < 0:
                return None
            if s == 0:
                dm.pop(i, None)
            else:
                dm[i] = s
        t = tuple(sorted(dm.items()))
        c = r[lr] / cq
        quo[t] = c
        for m, k in dq.items():
            mm = merge(t, m)
            acc(r, mm, -c * k)
        r.pop(lr, None)
    # attach mp/mq
    dd = dict(mp)
    for i, e in mq:
        s = dd.get(i, 0) - e
        if s == 0:
            dd.pop(i, None)
        else:
            dd[i] = s
    g = tuple(sorted(dd.items()))
    if not g:
        return mk(quo)
    return mk({merge(m, g): c for m, c in quo.items()})


def merge(m1, m2):
    d = dict(m1)
    for i, e in m2:
        s = d.get(i, 0) + e
        if s == 0:
            d.pop(i, None)
        else:
            if s.__class__ is Q and s.denominator == 1:
                s = s.numerator
            d[i] = s
    return tuple(sorted(d.items()))


def qroot(c, n=2):
    """rational n-th root of a positive rational (exact if possible)"""
    def ir(x):
        if n == 2:
            r = math.isqrt(x)
        elif x < 1 << 52:
            r = round(x ** (1.0 / n))
        else:
            l = math.log(x) / n
            if l > 600:
                return None
            r = int(round(math.exp(l)))
        for t in (r - 1, r, r + 1):
            if t >= 0 and t ** n == x:
                return t
        return None
    a, b = ir(c.numerator), ir(c.denominator)
    if a is not None and b is not None:
        return Q(a, b)
    if n == 2:
        # high-precision rational approximation
        s = 1 << 200
        v = math.isqrt(c.numerator * s * s // c.denominator)
        return rat_hp(Q(v, s))
    return rat(math.exp((math.log(c.numerator) - math.log(c.denominator)) / n))


def rat_hp(q):
    return q


def perfect_square(p):
    """q with q*q == p (p a Poly), or None"""
    mp, d = shift_nonneg(p)
    for i, e in mp:
        if e.__class__ is not int or e % 2:
            return None
    order = sorted({i for m in d for i, _ in m}, reverse=True)
    key = okey(order)
    lead = max(d, key=key)
    c = d[lead]
    if c < 0:
        return None
    for i, e in lead:
        if e.__class__ is not int or e % 2:
            return None
    rc = qroot(c)
    if rc * rc != c:
        # the content may carry the irrational part
        s = perfect_square(mk({m: k / c for m, k in p.d.items()}))
        return None if s is None else scale(s, rc)
    lm = tuple((i, e // 2) for i, e in lead)
    s = {lm: rc}
    r = dict(d)
    acc(r, lead, -c)
    steps = 0
    lmd = dict(lm)
    while r:
        steps += 1
        if steps > 60:
            return None
        lr = max(r, key=key)
        dm = dict(lr)
        for i, e in lmd.items():
            x = dm.get(i, 0) - e
            if x < 0:
                return None
            if x == 0:
                dm.pop(i, None)
            else:
                dm[i] = x
        t = tuple(sorted(dm.items()))
        if key(t) >= key(lm):
            return None
        c2 = r[lr] / (2 * rc)
        for m, k in s.items():
            acc(r, merge(m, t), -2 * c2 * k)
        acc(r, merge(t, t), -c2 * c2)
        s[t] = c2
        r.pop(lr, None)
    q = mk(s)
    if mp:
        q = mk({merge(m, tuple((i, e // 2) for i, e in mp)): c for m, c in pd(q).items()})
    return q


# --------------------------------------------------------------- functions
def atom_nonneg(i, e):
    """is atom^e known to be >= 0 independent of the path?"""
    if e.__class__ is int and e % 2 == 0:
        return True
    a = ATOMS[i]
    if e.__class__ is Q and e.denominator % 2 == 0:
        return True
    if a.kind in ('exp', 'ten'):
        return True
    if a.kind == 'den':
        return den_nonneg(a)
    return a.lo is not None and a.lo >= 0


def den_nonneg(a):
    """path-independent: every monomial non-negative"""
    if a.lo is not None:
        return a.lo >= 0
    if id(a.arg) in _nn:
        a.lo = 0
        return True
    for m, c in a.arg.d.items():
        if c < 0:
            return False
        for i, e in m:
            if not atom_nonneg(i, e):
                return False
    a.lo = 0
    return True


def root(p, num=1, denq=2, known_nonneg=True):
    """p ** (num/denq), p >= 0 known on this path. May raise NeedSign(poly q) when
    the result is |q| and the sign of q is not known: caller resolves."""
    if p.__class__ is Q:
        r = qroot(p, denq)
        return r ** num if num >= 0 or r else INF
    p = reduce(p)
    if p.__class__ is Q:
        return root(p, num, denq)
    c, m, q = content_split(p)
    # sign bookkeeping: choose c>0 by moving the sign into q
    if c < 0:
        c = -c
        q = neg(q)
    out = {}
    inside = {}
    ex = Q(num, denq)
    asks = []
    for i, e in m:
        if atom_nonneg(i, 1):
            out[i] = out.get(i, 0) + e * ex
        elif e.__class__ is int and e % 2 == 0 and denq == 2:
            asks.append((i, e // 2))
        else:
            inside[i] = e
    cr = qroot(c, denq) ** num
    sq = None
    if denq == 2 and q.__class__ is Poly:
        sq = perfect_square(q)
    res = norm_mono(out, cr)
    if inside or sq is None:
        t = q if not inside else mul(q, mk({tuple(sorted(inside.items())): ONE}))
        if t.__class__ is Q:
            if t < 0:
                return NAN
            res = mul(res, qroot(t, denq) ** num)
        else:
            c2, m2, q2 = content_split(t)
            if m2 == () and c2 > 0:
                res = scale(res, qroot(c2, denq) ** num)
                t = q2
            a = den_atom(t)
            res = mul(res, norm_mono({a.id: ex}, ONE))
        sq = None
    absd = []
    for i, h in asks:
        absd.append(mk({((i, h),): ONE}))
    if sq is not None:
        absd.append(sq)
    return res, absd, num


_expn = {}


def exp_of(p, base='exp'):
    """exp(p) or 10**p"""
    if p.__class__ is float:
        return p if p != p else (INF if p > 0 else ZERO)
    if p.__class__ is Q:
        return exp_const(p, base)
    p = reduce(p)
    if p.__class__ is Q:
        return exp_const(p, base)
    d = {}
    c0 = ONE
    poly = None
    for m, c in p.d.items():
        if m == ():
            c0 = exp_const(c, base)
            continue
        if len(m) == 1 and m[0][1] == 1:
            a = ATOMS[m[0][0]]
            if (base == 'ten' and a.kind == 'log10') or (base == 'exp' and a.kind == 'log'):
                # b^(c*log x) = x^c
                t = pow_pos(a.arg, c)
                poly = t if poly is None else mul(poly, t)
                continue
        k = (base, m)
        a = _expn.get(k)
        if a is None:
            a = new_atom(base, m, lo=0, los=True)
            f = fp(mk({m: ONE}))
            try:
                a.fp = None if f is None else [cmath.exp(z * (1 if base == 'exp' else math.log(10))) for z in f]
            except OverflowError:
                a.fp = None
            _expn[k] = a
        e = rnd(c)
        if e.denominator == 1:
            e = e.numerator
        d[a.id] = e
    r = mk({tuple(sorted(d.items())): ONE})
    if c0 != 1:
        r = mul(r, c0)
    if poly is not None:
        r = mul(r, poly)
    return r


def rnd(c):
    """exponents: rational rounded so that 1-ulp differences coincide"""
    if c.denominator < 1 << 20:
        return c
    return Q('%.12e' % float(c))


def exp_const(c, base):
    if c == 0:
        return ONE
    if base == 'ten' and c.denominator == 1 and abs(c) < 400:
        return Q(10) ** int(c)
    try:
        v = math.exp(float(c)) if base == 'exp' else 10.0 ** float(c)
    except OverflowError:
        return INF
    return Q(v)


def pow_pos(p, c):
    """p ** c for p > 0 and rational constant c"""
    if p.__class__ is Q:
        return Q(float(p) ** float(c)) if c.denominator != 1 else p ** c
    if c.denominator == 1:
        return ipow(p, c.numerator)
    c = rnd(c)
    if len(p.d) == 1:
        (m, k), = p.d.items()
        if all(atom_nonneg(i, 1) for i, _ in m):
            return norm_mono({i: e * c for i, e in m}, Q(float(k) ** float(c)))
    p = reduce(p)
    if p.__class__ is Q:
        return pow_pos(p, c)
    cc, m, q = content_split(p)
    if cc < 0 or not all(atom_nonneg(i, 1) for i, _ in m) or q.__class__ is Q:
        a = den_atom(p)
        return norm_mono({a.id: c}, ONE)
    a = den_atom(q)
    d = {i: e * c for i, e in m}
    d[a.id] = d.get(a.id, 0) + c
    return norm_mono(d, Q(float(cc) ** float(c)))


def _lead_neg(p):
    f = fp(p)
    if f is not None and abs(f[0].real) > 1e-12 and abs(f[0].imag) < 1e-6 * abs(f[0].real):
        return f[0].real < 0
    return p.d[max(p.d)] < 0


def fun(kind, p, lo=None, hi=None, los=False, his=False, f=None):
    """unary function atom with canonicalised argument"""
    k = (kind, id(p))
    a = _atomkey.get(k)
    if a is None:
        a = same_by_fp(kind, p)
        if a is None:
            a = new_atom(kind, p, lo=lo, hi=hi, los=los, his=his)
            g = fp(p)
            try:
                a.fp = None if g is None else [f(z) for z in g]
            except (OverflowError, ValueError, ZeroDivisionError):
                a.fp = None
            index_fp(kind, a, p)
        _atomkey[k] = a
        _keep.append(p)
    return a


def significant(p):
    """a phase without the terms that only a guard such as 1e-99 leaves in it"""
    if p.__class__ is Poly and len(p.d) > 1 and any(-TINY < c < TINY for c in p.d.values()):
        return mk({m: c for m, c in p.d.items() if not -TINY < c < TINY} or p.d)
    return p


def cos_of(p):
    if p.__class__ is float:
        return NAN
    p = significant(reduce(p))
    if p.__class__ is Q:
        return ONE if p == 0 else rat(math.cos(p))
    if _lead_neg(p):
        p = neg(p)
    return atom_poly(fun('cos', p, -1, 1, f=cmath.cos))


def sin_of(p):
    if p.__class__ is float:
        return NAN
    p = significant(reduce(p))
    if p.__class__ is Q:
        return ZERO if p == 0 else rat(math.sin(p))
    s = ONE
    if _lead_neg(p):
        p = neg(p)
        s = -ONE
    c = fun('cos', p, -1, 1, f=cmath.cos)
    k = ('sin', c.id)
    a = _atomkey.get(k)
    if a is None:
        a = new_atom('sin', c.arg, lo=-1, hi=1)
        g = fp(c.arg)
        try:
            a.fp = None if g is None else [cmath.sin(z) for z in g]
        except OverflowError:
            a.fp = None
        a.extra = atom_poly(c)
        _atomkey[k] = a
    return scale(atom_poly(a), s)


def log_of(p, kind='log'):
    """p > 0 known"""
    if p.__class__ is Q:
        if p == 1:
            return ZERO
        v = math.log(p) if kind == 'log' else log10q(p)
        return rat(v)
    p = reduce(p)
    if p.__class__ is Q:
        return log_of(p, kind)
    base = 'exp' if kind == 'log' else 'ten'
    if len(p.d) == 1:
        (m, c), = p.d.items()
        # pull exponentials out
        out = ZERO
        rest = []
        for i, e in m:
            a = ATOMS[i]
            if a.kind == base:
                out = add(out, mk({a.arg: Q(e)}))
            else:
                rest.append((i, e))
        if len(rest) < len(m):
            if not rest:
                return add(out, log_of(c, kind) if c != 1 else ZERO)
            return add(out, log_of(mk({tuple(rest): c}), kind))
    f = cmath.log if kind == 'log' else cmath.log10
    a = fun(kind, p, f=f)
    if a.lo is None and a.hi is None:
        s = sgn(sub(p, ONE))
        if s in ('+', '0+'):
            a.lo, a.los = 0, s == '+'
        elif s in ('-', '0-'):
            a.hi, a.his = 0, s == '-'
    return atom_poly(a)


def log10q(p):
    n = p.numerator
    d = p.denominator
    return math.log10(n) - math.log10(d) if n.bit_length() > 900 or d.bit_length() > 900 else math.log10(float(p))


def atan_of(p):
    if p.__class__ is float:
        return NAN if p != p else rat(math.copysign(math.pi / 2, p))
    p = reduce(p)
    if p.__class__ is Q:
        return rat(math.atan(p))
    s = ONE
    if _lead_neg(p):
        p = neg(p)
        s = -ONE
    return scale(atom_poly(fun('atan', p, Q(-355, 226), Q(355, 226), f=cmath.atan)), s)


_ufkey = {}


def uf(name, args, lo=None, hi=None, los=False, his=False):
    """uninterpreted function application"""
    args = tuple(reduce(x) if x.__class__ is Poly else x for x in args)
    k = (name, tuple(id(x) if x.__class__ is Poly else x for x in args))
    a = _ufkey.get(k)
    if a is None:
        # numerically identical arguments
        fk = (name,) + tuple(rkey(fp(x)) if x.__class__ is not float else x for x in args)
        lst = _fpindex.setdefault('uf', {}).setdefault(fk, []) if None not in fk else []
        for b in lst:
            if all(is_zero(sub(x, y)) for x, y in zip(args, b.arg)):
                a = b
                break
        if a is None:
            a = new_atom('uf', args, name=name, lo=lo, hi=hi, los=los, his=his, fp=sym_fp(lo, hi))
            lst.append(a)
        _ufkey[k] = a
        _keep.append(args)
    return atom_poly(a)


_syms = {}


def sym(name, lo=None, hi=None, los=False, his=False):
    k = (name, lo, hi, los, his)
    a = _syms.get(k)
    if a is None:
        a = new_atom('sym', name=name, lo=lo, hi=hi, los=los, his=his, fp=sym_fp(lo, hi))
        _syms[k] = a
    return atom_poly(a)


# ------------------------------------------------------------ quick signs
def atom_sign(i, e):
    """path independent: '+' >0, '0+' >=0, '-' <0, '0-' <=0, None"""
    a = ATOMS[i]
    if e.__class__ is Q:
        if e < 0 or atom_sign(i, 1) == '+':
            return '+'
        return '0+'
    even = e % 2 == 0
    s = None
    if a.kind in ('exp', 'ten'):
        return '+'
    if a.kind == 'den' and a.lo is None:
        den_nonneg(a)
    if a.lo is not None and (a.lo > 0 or (a.lo == 0 and a.los)):
        return '+'
    if a.hi is not None and (a.hi < 0 or (a.hi == 0 and a.his)):
        return '+' if even else '-'
    if a.kind == 'den':
        q = sgn(a.arg)
        if q in ('+', '-'):
            return '+' if even or q == '+' else '-'
        if q == '0+':
            s = '0+'
    if a.lo is not None and a.lo >= 0:
        s = '0+'
    elif a.hi is not None and a.hi <= 0:
        s = '0+' if even else '0-'
    elif even:
        s = '0+'
    if s and e < 0:   # defined => non-zero
        s = s[1]
    return s


_sgn = {}


def sgn(p):
    """path-independent sign of a term: '+','-','0','0+','0-' or None"""
    if p.__class__ is Q:
        return '0' if p == 0 else ('+' if p > 0 else '-')
    if p.__class__ is float:
        return None if p != p else ('+' if p > 0 else '-')
    r = _sgn.get(id(p), 0)
    if r != 0:
        return r
    r = _sgn0(p)
    if r is None:
        r = _sgn_iv(p)
    _sgn[id(p)] = r
    _keep.append(p)
    return r


def _sgn0(p):
    kn = _nn.get(id(p))
    if kn == '+':
        return kn
    r = _sgn1(p)
    return r if r == '+' or kn is None else kn


def _sgn1(p):
    tot = None
    for m, c in p.d.items():
        s = '+' if c > 0 else '-'
        for i, e in m:
            t = atom_sign(i, e)
            if t is None:
                return None
            if t == '+':
                pass
            elif t == '-':
                s = s.translate(_flip)
            elif t == '0+':
                s = s if s.startswith('0') else '0' + s
            else:
                s = s.translate(_flip)
                s = s if s.startswith('0') else '0' + s
        if tot is None:
            tot = s
        else:
            if tot[-1] != s[-1]:
                return None
            if len(s) == 1:
                tot = s
    return tot


_flip = str.maketrans('+-', '-+')


def atom_iv(a):
    lo = -INF if a.lo is None else float(a.lo)
    hi = INF if a.hi is None else float(a.hi)
    if a.kind == 'den' and a.lo is None:
        l, h = poly_iv(a.arg)
        return l, h
    return lo, hi


def iv_pow(lo, hi, e):
    if e == 1:
        return lo, hi
    if e.__class__ is Q or e < 0:
        if lo < 0:
            return -INF, INF
        f = float(e)

        def g(x):
            if x == 0:
                return INF if f < 0 else 0.0
            if x == INF:
                return 0.0 if f < 0 else INF
            try:
                return x ** f
            except OverflowError:
                return INF
        a, b = g(lo), g(hi)
        return min(a, b), max(a, b)
    try:
        if e % 2 == 0:
            a, b = abs(lo), abs(hi)
            l = 0.0 if lo <= 0 <= hi else min(a, b) ** e
            return l, max(a, b) ** e
        return lo ** e, hi ** e
    except OverflowError:
        return -INF, INF


def poly_iv(p):
    if p.__class__ is Q:
        v = float(p)
        return v, v
    L = H = 0.0
    for m, c in p.d.items():
        l = h = float(c)
        for i, e in m:
            al, ah = atom_iv(ATOMS[i])
            bl, bh = iv_pow(al, ah, e)
            xs = []
            for x in (l, h):
                for y in (bl, bh):
                    v = x * y if not ((x == 0 and abs(y) == INF) or (y == 0 and abs(x) == INF)) else 0.0
                    xs.append(v)
            l, h = min(xs), max(xs)
        L += l
        H += h
        if L != L or H != H:
            return -INF, INF
        if L == -INF and H == INF:
            return L, H
    return L, H


def _sgn_iv(p):
    l, h = poly_iv(p)
    m = 0.0
    try:
        m = sum(abs(float(c)) for c in p.d.values())
    except OverflowError:
        return None
    if l > 1e-9 * m and l > 0:
        return '+'
    if h < -1e-9 * m and h < 0:
        return '-'
    if l == 0:
        return '0+'
    if h == 0:
        return '0-'
    return None


# ---------------------------------------------------------- numeric value
class Ev:
    """numeric evaluation of terms under an assignment of symbols and uf atoms"""
    def __init__(self, env):
        self.env = env        # atom id -> float
        self.memo = {}

    def atom(self, i):
        v = self.env.get(i)
        if v is not None:
            return v
        v = self.memo.get(i)
        if v is not None:
            return v
        a = ATOMS[i]
        k = a.kind
        if k == 'den':
            v = self(a.arg)
        elif k == 'exp' or k == 'ten':
            x = self(mk({a.arg: ONE}))
            try:
                v = math.exp(x) if k == 'exp' else 10.0 ** x
            except OverflowError:
                v = INF
        elif k == 'sin':
            v = math.sin(self(a.arg))
        elif k == 'cos':
            v = math.cos(self(a.arg))
        elif k == 'log':
            x = self(a.arg)
            v = math.log(x) if x > 0 else NAN
        elif k == 'log10':
            x = self(a.arg)
            v = math.log10(x) if x > 0 else NAN
        elif k == 'atan':
            v = math.atan(self(a.arg))
        elif k == 'sym' or k == 'uf':
            v = default_value(a)
            self.env[i] = v
        else:
            raise KeyError(k)
        self.memo[i] = v
        return v

    def __call__(self, p):
        if p.__class__ is Q:
            return float(p)
        if p.__class__ is float:
            return p
        tot = 0.0
        try:
            for m, c in p.d.items():
                v = float(c)
                for i, e in m:
                    x = self.atom(i)
                    if e.__class__ is Q:
                        if ATOMS[i].kind in ('exp', 'ten'):
                            z = self(mk({ATOMS[i].arg: Q(e)}))
                            v *= math.exp(z) if ATOMS[i].kind == 'exp' else 10.0 ** z
                        else:
                            v *= x ** float(e) if x >= 0 else NAN
                    else:
                        v *= x ** e
                tot += v
        except (ZeroDivisionError, OverflowError):
            return NAN
        return tot


def default_value(a):
    lo, hi = a.lo, a.hi
    if lo is None and hi is None:
        return 0.0
    if lo is None:
        return float(hi) - 1.0
    if hi is None:
        return float(lo) + 1.0
    return (float(lo) + float(hi)) / 2


def base_atoms(ps):
    """all atom ids reachable from the given terms"""
    seen = set()
    stack = []

    def addp(p):
        if p.__class__ is Poly:
            for m in p.d:
                for i, _ in m:
                    if i not in seen:
                        seen.add(i)
                        stack.append(i)
    for p in ps:
        addp(p)
    while stack:
        a = ATOMS[stack.pop()]
        for q in atom_args(a):
            addp(q)
    return seen


def atom_args(a):
    if a.kind == 'sym':
        return ()
    if a.kind == 'uf':
        return a.arg
    if a.kind in ('exp', 'ten'):
        return (mk({a.arg: ONE}),)
    if a.kind == 'sin':
        return (a.arg, a.extra)
    return (a.arg,)


_depm = {}


def deps(p):
    """set of base (sym/uf) atom ids a term depends on"""
    if p.__class__ is not Poly:
        return frozenset()
    r = _depm.get(id(p))
    if r is None:
        s = set()
        for m in p.d:
            for i, _ in m:
                s |= adeps(ATOMS[i])
        r = frozenset(s)
        _depm[id(p)] = r
        _keep.append(p)
    return r


def adeps(a):
    if a.deps is None:
        if a.kind == 'sym':
            a.deps = frozenset((a.id,))
        elif a.kind == 'uf':
            s = {a.id}
            a.deps = frozenset(s)
        else:
            s = set()
            for q in atom_args(a):
                s |= deps(q)
            a.deps = frozenset(s)
    return a.deps
