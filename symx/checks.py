"""assertions: discharge by solver, or find and natively confirm a counterexample"""
import math
from fractions import Fraction as Q
import engine as G
import terms as T
import solver as S
from engine import PathEnd, Fault, UNDEF
from terms import Poly, ZERO, ONE

CTX = None        # explorer worker context: .native(path, env) -> outcome, .budget


def held(label):
    p = G.P
    p.ncheck += 1
    p.nhold += 1
    p.checks.append(label)


def do_assert(c, label):
    if c is UNDEF:
        raise Fault('uninit', 'assertion on an uninitialised value: ' + label)
    if c:
        held(label)
        return
    p = G.P
    p.ncheck += 1
    candidate(label, 'assert', [])
    raise PathEnd('failed', label)


def bad(v):
    return v.__class__ is float


def do_eq(a, b, scale, label):
    if a is UNDEF or b is UNDEF:
        raise Fault('uninit', 'uninitialised value compared: ' + label)
    p = G.P
    if bad(a) or bad(b):
        if bad(a) and bad(b) and a == b:
            held(label)
            return
        p.ncheck += 1
        candidate(label, 'eq', [])
        raise PathEnd('failed', label)
    d = T.sub(a, b)
    if d.__class__ is Q:
        m = max(abs(a) if a.__class__ is Q else 0, abs(b) if b.__class__ is Q else 0)
        if abs(d) <= m * Q(1, 10 ** 9) or (scale.__class__ is Q and abs(d) <= scale * Q(1, 10 ** 9)) or \
           (scale is None and abs(d) < Q(1, 10 ** 12)):
            if a.__class__ is Poly:
                S.trivial(a, b)
            held(label)
            return
        p.ncheck += 1
        candidate(label, 'eq', [], (a, b, scale))
        raise PathEnd('failed', label)
    st, diff = eq_query(p, a, b, d)
    if st == 'unsat':
        held(label)
        return
    p.ncheck += 1
    candidate(label, 'eq', [(diff, '!=')], (a, b, scale), st)


def snapped(a, b, d):
    """numerator of a-b with coefficient noise removed; Fraction 0 when equal"""
    if T.is_zero(d):
        return ZERO
    try:
        ab = T.eq_numerators(a, b)
    except T.Giveup:
        ab = None
    if ab is None:
        return T.reduce(d)
    A, B = ab
    out = {}
    for m in set(A) | set(B):
        x, y = A.get(m, ZERO), B.get(m, ZERO)
        e = x - y
        if abs(e) <= max(abs(x), abs(y)) * Q(1, 10 ** 10):
            continue
        out[m] = e
    return T.mk(out)


_sn = {}


def eq_query(p, a, b, d):
    k = (id(a), id(b)) if a.__class__ is Poly and b.__class__ is Poly else None
    r = _sn.get(k) if k else None
    if r is None:
        r = snapped_eq(a, b, d)
        if k:
            _sn[k] = r
    c = S.norm(r, '!=')
    if c is False:
        # both sides have the same normal form; the solver confirms the trivial query
        S.trivial(a, b)
        return 'unsat', r
    if c is True:
        return 'sat', r
    return S.check(p.pc, [c]).status, r


def snapped_eq(a, b, d):
    # eq_numerators clears a*t + b, so B carries b itself
    return snapped(a, b, d)


def do_le(a, b, strict, label):
    if a is UNDEF or b is UNDEF:
        raise Fault('uninit', 'uninitialised value compared: ' + label)
    p = G.P
    if bad(a) or bad(b):
        x = a if bad(a) else 0.0
        y = b if bad(b) else 0.0
        if (x < y) or (x <= y and not strict):
            held(label)
            return
        p.ncheck += 1
        candidate(label, 'le', [])
        raise PathEnd('failed', label)
    d = T.sub(b, a)
    c = S.norm(d, '<=' if strict else '<')
    if c is False:
        held(label)
        return
    if c is True:
        p.ncheck += 1
        candidate(label, 'le', [])
        raise PathEnd('failed', label)
    k = p.look(c)
    st = 'unsat' if k is False else S.check(p.pc, [c], timeout=8000).status
    if st == 'unsat':
        held(label)
        return
    p.ncheck += 1
    candidate(label, 'le', [c], None, st, d)


def gap(ev, abs_):
    a, b, s = abs_
    x, y = ev(a), ev(b)
    if x != x or y != y:
        return -1.0
    sc = max(abs(x), abs(y), 1e-9 if s is None else abs(ev(s)) + 1e-300)
    return abs(x - y) / sc


def models(p, extra, abs_=None, d=None):
    """numeric assignments satisfying the path and the violation, best first"""
    cons = p.pc
    rng = G.E.rng
    seen = 0

    def good(ev):
        if not S.numeric_ok(cons, ev):
            return False
        if abs_ is not None:
            return gap(ev, abs_) > 3e-6
        return S.numeric_ok(extra, ev)
    # the path's own model
    if p.ensure_env() and good(p.ev):
        yield T.Ev(dict(p.ev.env))
    marg = []
    if abs_ is not None and extra:
        df = T.sub(abs_[0], abs_[1])
        for sg in (1, -1):
            c = S.norm(T.sub(T.scale(df, Q(sg)), Q(1, 100)), '>')
            if c not in (True, False):
                marg.append([c])
    elif d is not None:
        c = S.norm(T.add(d, Q(1, 100)), '<')
        if c not in (True, False):
            marg.append([c])
    for m in marg + [list(extra)]:
        ev = S.search(list(cons) + m, p.env if p.env else None, rng, 0.5)
        if ev is not None and good(ev):
            yield ev
        r = S.check(cons, m, want_model=True, full=True, timeout=3000)
        if r.status == 'sat':
            ev = T.Ev(dict(r.env))
            if good(ev):
                yield ev
            ev = S.search(list(cons) + m, r.env, rng, 0.5)
            if ev is not None and good(ev):
                yield ev
        elif r.status == 'unsat' and m is extra:
            return
    for _ in range(4):
        ev = S.search(list(cons) + list(extra), None, rng, 0.3)
        if ev is not None and good(ev):
            yield ev


def candidate(label, kind, extra, abs_=None, st='sat', d=None):
    """violation candidate on the current path: confirm against the real code or record as open"""
    p = G.P
    if len(p.undis) > 300:
        raise PathEnd('limit', 'too many failures on one path')
    if not CTX.may_try(label):
        p.undis.append((label, kind, 'not retried'))
        return
    tried = 0
    try:
        for ev in models(p, extra, abs_, d):
            tried += 1
            out = CTX.confirm(p, ev, label, kind)
            if out is not None:
                p.viol.append(out)
                CTX.note(label, True)
                return
            if tried >= 5:
                break
    except PathEnd as e:
        if e.kind == 'infeasible':
            raise
    CTX.note(label, False)
    p.undis.append((label, kind, '%s, %d models tried' % (st, tried)))


def hang():
    """a path that ran out of time: a replay that does not end either is a violation"""
    p = G.P
    label = 'the code does not finish'
    if not CTX.may_try(label) or CTX.slow >= 2:
        return
    for ev in models(p, [], None, None):
        out = CTX.confirm(p, ev, label, 'hang')
        if out is not None:
            p.viol.append(out)
        CTX.note(label, out is not None)
        return


def fault(f):
    """memory error / UB on the current path"""
    candidate('%s: %s' % (f.kind, f.msg), f.kind, [])
