"""Symbolic executor for one path at a time: memory, IEEE specials, forking."""
import math, struct, sys, time
from fractions import Fraction as Q
import terms as T
import solver as S
from terms import Poly, INF, NAN, ZERO, ONE
import llvmc
from llvmc import OBJSHIFT, BASE, pyname

OMASK = (1 << OBJSHIFT) - 1
sys.setrecursionlimit(20000)


class PathEnd(Exception):
    """normal end of a path; kind: done, assume, exit, throw, infeasible, limit, unsupported"""
    def __init__(self, kind, msg=''):
        Exception.__init__(self, kind, msg)
        self.kind = kind
        self.msg = msg


class Fault(Exception):
    """memory error / undefined behaviour / uninitialised use on this path"""
    def __init__(self, kind, msg=''):
        Exception.__init__(self, kind, msg)
        self.kind = kind
        self.msg = msg


class Undef:
    __slots__ = ()

    def _u(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __or__ = __ror__ = __xor__ = __rxor__ = _u
    __rshift__ = __lshift__ = __rrshift__ = __rlshift__ = __neg__ = __invert__ = __floordiv__ = __mod__ = _u
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _u
    __hash__ = object.__hash__

    def __and__(self, o):
        if o.__class__ is SB and not o:
            return 0
        return 0 if o.__class__ is int and o == 0 else self
    __rand__ = __and__

    def __bool__(self):
        raise Fault('uninit', 'decision on an uninitialised value')
    __index__ = __bool__

    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


# ---------------------------------------------------------- symbolic bytes
class SB:
    """integer value that is a function of one symbolic input byte: table over the values still possible"""
    __slots__ = ('v', 't')
    __hash__ = None

    def __init__(self, v, t):
        self.v = v
        self.t = t

    def map(self, f):
        t = self.t
        return mkb(self.v, {b: f(t[b]) for b in P.bdom[self.v]})

    def __bool__(self):
        t = self.t
        dom = P.bdom[self.v]
        yes = tuple(b for b in dom if t[b])
        if len(yes) == len(dom):
            return True
        if not yes:
            return False
        i = len(P.trail)
        if i < len(P.prefix):
            d = P.prefix[i]
        else:
            d, other = S.split_byte(dom, yes)
            if other is not None:
                P.alts.append((tuple(P.trail) + (other,), 'sat'))
        P.trail.append(d)
        P.bdom[self.v] = yes if d else tuple(b for b in dom if not t[b])
        return bool(d)

    def conc(self):
        """fork over the distinct values"""
        t = self.t
        dom = P.bdom[self.v]
        vals = sorted(set(t[b] for b in dom))
        x = vals[P.choose(len(vals))]
        P.bdom[self.v] = tuple(b for b in dom if t[b] == x)
        return x

    __index__ = __int__ = conc

    def __repr__(self):
        return 'SB(%d)' % self.v


def mkb(v, t):
    vals = iter(t.values())
    x = next(vals)
    for y in vals:
        if y is not x and (y is UNDEF or x is UNDEF or y != x):
            return SB(v, t)
    return x


def op2(f, anding=False):
    def g(a, b):
        cb = b.__class__
        if cb is int or cb is bool:
            t = a.t
            return mkb(a.v, {k: f(t[k], b) for k in P.bdom[a.v]})
        if cb is SB:
            if b.v == a.v:
                t, u = a.t, b.t
                return mkb(a.v, {k: f(t[k], u[k]) for k in P.bdom[a.v]})
            x = len(set(a.t[k] for k in P.bdom[a.v]))
            y = len(set(b.t[k] for k in P.bdom[b.v]))
            if x <= y:
                c = a.conc()
                u = b.t
                return mkb(b.v, {k: f(c, u[k]) for k in P.bdom[b.v]})
            c = b.conc()
            t = a.t
            return mkb(a.v, {k: f(t[k], c) for k in P.bdom[a.v]})
        if b is UNDEF:
            if anding and not a:
                return 0
            return UNDEF
        return NotImplemented
    return g


def _sbops():
    import operator as o
    for n in 'add sub mul xor lshift rshift floordiv mod'.split():
        f = getattr(o, n)
        setattr(SB, '__%s__' % n, op2(f))
        setattr(SB, '__r%s__' % n, op2(lambda x, y, f=f: f(y, x)))
    for n in 'and or'.split():
        f = getattr(o, n + '_')
        setattr(SB, '__%s__' % n, op2(f, n == 'and'))
        setattr(SB, '__r%s__' % n, op2(f, n == 'and'))
    for n in 'eq ne lt le gt ge'.split():
        f = getattr(o, n)
        setattr(SB, '__%s__' % n, op2(lambda x, y, f=f: UNDEF if x is UNDEF or y is UNDEF else 1 if f(x, y) else 0))
    SB.__neg__ = lambda a: a.map(lambda x: -x)
    SB.__invert__ = lambda a: a.map(lambda x: ~x)


_sbops()


class WB:
    """several bytes loaded at once, some of them symbolic"""
    __slots__ = ('b',)
    __hash__ = None

    def __init__(self, b):
        self.b = b

    def other(self, o):
        return o.b if o.__class__ is WB else [(o >> (8 * i)) & 255 for i in range(len(self.b))]

    def __eq__(self, o):
        if o is UNDEF:
            return UNDEF
        for x, y in zip(self.b, self.other(o)):
            if not x == y:
                return 0
        return 1

    def __ne__(self, o):
        r = self == o
        return r if r is UNDEF else 1 - r

    def conc(self):
        return sum((x.conc() if x.__class__ is SB else x) << (8 * i) for i, x in enumerate(self.b))

    def _c(name):
        def f(self, o):
            return getattr(self.conc(), name)(o.conc() if o.__class__ in (WB, SB) else o)
        return f
    for _n in 'add radd sub rsub mul rmul and rand or ror xor rxor lt le gt ge rshift lshift'.split():
        locals()['__%s__' % _n] = _c('__%s__' % _n)
    __bool__ = lambda s: bool(s.conc())
    __int__ = __index__ = conc


class Obj:
    __slots__ = ('size', 'cells', 'raw', 'mask', 'alive', 'kind', 'name', 'ro')

    def __init__(self, size, kind, name=''):
        self.size = size
        self.cells = {}
        self.raw = None
        self.mask = None
        self.alive = True
        self.kind = kind
        self.name = name
        self.ro = False

    def copy(self):
        o = Obj(self.size, self.kind, self.name)
        o.cells = dict(self.cells)
        if self.raw is not None:
            o.raw = bytearray(self.raw)
            o.mask = bytearray(self.mask)
        o.alive = self.alive
        o.ro = self.ro
        return o

    def need_raw(self):
        if self.raw is None:
            self.raw = bytearray(self.size)
            self.mask = bytearray(self.size)


class Engine:
    """process-wide state; one instance"""

    def __init__(self, module):
        self.M = module
        self.NS = {}
        self.path_id = 0
        self.snap = None
        self.max_instr = 10 ** 9
        self.compiled = 0
        self.encoded = set()
        build_runtime(self)

    # -------------------------------------------------------- functions
    def fetch(self, name):
        """python callable for an IR function (compiled lazily)"""
        py = pyname(name)
        f = self.NS.get(py)
        if f is None:
            f = self.make(name)
            self.NS[py] = f
        return f

    def make(self, name):
        b = BUILTINS.get(name)
        if b is not None:
            return b
        if name in self.M.funcs:
            def stub(*a, _n=name):
                f = self.compile(_n)
                self.NS[pyname(_n)] = f
                return f(*a)
            return stub
        a = self.M.alias.get(name)
        if a:
            n2 = self.M.funcid.get(a >> OBJSHIFT)
            if n2:
                return self.fetch(n2)

        def missing(*a, _n=name):
            raise PathEnd('unsupported', 'external function ' + _n)
        return missing

    def compile(self, name):
        src, calls = self.M.gen(name)
        for c in calls:
            self.fetch(c)
        nc = self.compiled
        for i in range(nc, len(self.M.consts)):
            self.NS['c%d' % i] = self.M.consts[i][1]
        self.compiled = len(self.M.consts)
        code = compile(src, name, 'exec')
        exec(code, self.NS)
        self.encoded.add(name)
        return self.NS[pyname(name)]


# ===================================================================== path
objs = {}
E = None
P = None          # current path


class Path:
    def __init__(self, prefix=(), hints=None):
        self.prefix = prefix
        self.trail = []
        self.pc = []             # canonical (poly, op)
        self.known = {}
        self.env = None
        self.ev = None
        self.alts = []           # alternative prefixes
        self.draws = []          # (kind, term) in the order requested
        self.logs = []
        self.reach = set()
        self.checks = []         # per-label outcomes
        self.viol = []
        self.undis = []
        self.exit_ok = False
        self.throw_ok = False
        self.nobj = 0
        self.heap_live = 0
        self.stack = []
        self.counter = {}
        self.notes = []
        self.unknown_side = False
        self.instr = 0
        self.symcount = {}
        self.fs = {}
        self.files = {}
        self.ph = {}             # numeric placeholders
        self.ncheck = 0
        self.nhold = 0
        self.deadline = None
        self.bdom = []           # per symbolic byte: values still possible

    # ------------------------------------------------------------ models
    def ensure_env(self):
        if self.ev is not None:
            return True
        env = {}
        if not self.pc:
            self.env = env
            self.ev = T.Ev(env)
            return True
        ev = T.Ev({})
        if S.numeric_ok(self.pc, ev):
            self.env, self.ev = ev.env, ev
            return True
        if self.env is False:
            return False
        r = S.check(self.pc, [], want_model=True, full=True, timeout=3000)
        if r.status == 'unsat':
            raise PathEnd('infeasible')
        if r.status == 'sat':
            ev = T.Ev(r.env)
            if S.numeric_ok(self.pc, ev):
                self.env, self.ev = ev.env, ev
                return True
        ev = S.search(self.pc, r.env if r.status == 'sat' else None, E.rng)
        if ev is not None:
            self.env, self.ev = ev.env, ev
            return True
        self.env = False
        return False

    def add(self, c):
        """add canonical constraint c=(p,op) known to be taken"""
        p, op = c
        self.pc.append(c)
        k = self.known
        i = id(p)
        n = T.neg(p)
        j = id(n)
        KEEP.append(n)
        KEEP.append(p)
        if op == '>':
            k[(i, '>')] = k[(i, '>=')] = k[(i, '!=')] = k[(j, '!=')] = True
            k[(i, '==')] = k[(j, '==')] = k[(j, '>')] = k[(j, '>=')] = False
        elif op == '>=':
            k[(i, '>=')] = True
            k[(j, '>')] = False
            if k.get((j, '>=')) is True or k.get((i, '!=')) is False:
                k[(i, '==')] = k[(j, '==')] = True
                k[(i, '!=')] = k[(j, '!=')] = False
            elif k.get((i, '!=')) is True:
                k[(i, '>')] = True
                k[(j, '>=')] = False
        elif op == '==':
            k[(i, '==')] = k[(j, '==')] = k[(i, '>=')] = k[(j, '>=')] = True
            k[(i, '!=')] = k[(j, '!=')] = k[(i, '>')] = k[(j, '>')] = False
        else:
            k[(i, '!=')] = k[(j, '!=')] = True
            k[(i, '==')] = k[(j, '==')] = False
            if k.get((i, '>=')) is True:
                k[(i, '>')] = True
                k[(j, '>=')] = False
            if k.get((j, '>=')) is True:
                k[(j, '>')] = True
                k[(i, '>=')] = False
        if self.ev is not None and not S.numeric_ok((c,), self.ev):
            self.ev = None
            self.env = None

    def look(self, c):
        return self.known.get((id(c[0]), c[1]))

    def branch(self, p, op):
        c = S.norm(p, op)
        if c is True or c is False:
            return c
        r = self.known.get((id(c[0]), c[1]))
        if r is not None:
            return r
        nc = S.norm(p, S.NEG[op])
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = self.decide(c, nc)
        self.trail.append(d)
        if d == 1 or d is True:
            self.add(c)
            return True
        self.add(nc)
        return False

    def decide(self, c, nc):
        if self.deadline and time.time() > self.deadline:
            raise PathEnd('limit', 'path time limit')
        have = self.ensure_env()
        side = None
        if have:
            if S.numeric_ok((c,), self.ev):
                side = 1
            elif S.numeric_ok((nc,), self.ev):
                side = 0
        if side is not None:
            r = S.check(self.pc, [nc if side else c])
            if r.status != 'unsat':
                self.alts.append((tuple(self.trail) + (1 - side,), r.status))
            return side
        r1 = S.check(self.pc, [c])
        r0 = S.check(self.pc, [nc])
        if r1.status == 'unsat' and r0.status == 'unsat':
            raise PathEnd('infeasible')
        if r1.status == 'unsat':
            return 0
        if r0.status == 'unsat':
            return 1
        self.alts.append((tuple(self.trail) + (0,), r0.status))
        return 1

    def choose(self, n):
        """non-deterministic integer in [0,n)"""
        if n <= 1:
            return 0
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for k in range(1, n):
                self.alts.append((tuple(self.trail) + (k,), 'sat'))
        self.trail.append(d)
        return d

    def require(self, p, op):
        """assumption without forking"""
        c = S.norm(p, op)
        if c is True:
            return
        if c is False:
            raise PathEnd('assume')
        r = self.known.get((id(c[0]), c[1]))
        if r is True:
            return
        if r is False:
            raise PathEnd('assume')
        self.add(c)


KEEP = []


def branch(p, op):
    return P.branch(p, op)


# ================================================================= memory
def new_obj(size, kind, name=''):
    P.nobj += 1
    oid = E.firstobj + P.nobj
    o = Obj(size, kind, name)
    objs[oid] = o
    return oid


def new_addr(size, kind, name=''):
    return (new_obj(size, kind, name) << OBJSHIFT) + BASE


def fault_in(oid, a):
    """object not materialised yet: global or error"""
    if oid.__class__ is not int:
        if oid is UNDEF:
            raise Fault('uninit', 'uninitialised pointer used')
        raise PathEnd('unsupported', 'symbolic address')
    if E.snap is not None:
        o = E.snap.get(oid)
        if o is not None:
            o = o.copy()
            objs[oid] = o
            return o
    g = E.M.globals.get(oid)
    if g is None:
        if oid == 0:
            raise Fault('null', 'null pointer access')
        if oid in E.M.funcid:
            raise Fault('segv', 'data access to a function')
        raise Fault('segv', 'wild pointer %x' % a)
    name, v, size = g
    o = Obj(size, 'global', name)
    L = E.M.L
    init = None
    if not L.LLVMIsDeclaration(llvmc.P(v)):
        init = L.LLVMGetInitializer(llvmc.P(v))
    if init:
        cells = {}
        raw = []
        E.M.init_cells(init, 0, cells, raw)
        o.cells = cells
        if raw:
            o.need_raw()
            for off, b in raw:
                o.raw[off:off + len(b)] = b
                o.mask[off:off + len(b)] = b'\1' * len(b)
    else:
        o.size = max(size, 4096)
        o.need_raw()
        o.mask[:] = b'\1' * o.size
    objs[oid] = o
    return o


def obj_at(a, n, write=False):
    if a.__class__ is not int:
        if a is UNDEF:
            raise Fault('uninit', 'uninitialised pointer used')
        if a.__class__ is not SB:
            raise PathEnd('unsupported', 'symbolic address')
        a = a.conc()
    oid = a >> OBJSHIFT
    o = objs.get(oid)
    if o is None:
        o = fault_in(oid, a)
    if not o.alive:
        raise Fault('uaf', 'use of %s object after its end of life' % o.kind)
    off = (a & OMASK) - BASE
    if off < 0 or off + n > o.size:
        raise Fault('oob', '%s of %d bytes at offset %d of a %d-byte %s object %s' % (
            'write' if write else 'read', n, off, o.size, o.kind, o.name))
    return o, off


def overlaps(o, off, n):
    cells = o.cells
    r = []
    if len(cells) < n + 16:
        for k, (s, v) in cells.items():
            if k < off + n and k + s > off:
                r.append(k)
    else:
        for k in range(off - 15, off + n):
            c = cells.get(k)
            if c is not None and k + c[0] > off:
                r.append(k)
    return r


def cell_bytes(s, v):
    """bytes of a concrete cell, or None"""
    if v.__class__ is int or v.__class__ is bool:
        return (int(v) & ((1 << (8 * s)) - 1)).to_bytes(s, 'little')
    if v.__class__ is Q:
        try:
            return struct.pack('<d', float(v))
        except OverflowError:
            return struct.pack('<d', INF if v > 0 else -INF)
    if v.__class__ is float:
        return struct.pack('<d', v)
    return None


def spill(o, k):
    """turn cell k into raw bytes"""
    s, v = o.cells.pop(k)
    o.need_raw()
    if v is UNDEF:
        o.mask[k:k + s] = bytes(s)
        return
    b = cell_bytes(s, v)
    if b is None:
        raise PathEnd('unsupported', 'partial access to a symbolic value')
    o.raw[k:k + s] = b
    o.mask[k:k + s] = b'\1' * s


def clear_range(o, off, n):
    for k in overlaps(o, off, n):
        s = o.cells[k][0]
        if k >= off and k + s <= off + n:
            del o.cells[k]
            if o.raw is not None:
                o.mask[k:k + s] = bytes(s)
        else:
            spill(o, k)


def ldf(a):
    try:
        o = objs[a >> OBJSHIFT]
        if o.alive:
            c = o.cells[(a & OMASK) - BASE]
            if c[0] == 8:
                v = c[1]
                if v.__class__ is int:
                    return bits2f(v)
                return v
    except (KeyError, TypeError):
        pass
    o, off = obj_at(a, 8)
    c = o.cells.get(off)
    if c is not None and c[0] == 8:
        v = c[1]
        return bits2f(v) if v.__class__ is int else v
    b = read_bytes(o, off, 8)
    if b is None:
        return UNDEF
    return T.rat(struct.unpack('<d', b)[0])


def stf(a, v):
    try:
        o = objs[a >> OBJSHIFT]
        off = (a & OMASK) - BASE
        if o.alive and o.cells[off][0] == 8:
            o.cells[off] = (8, v)
            return
    except (KeyError, TypeError):
        pass
    o, off = obj_at(a, 8, True)
    if o.cells or o.raw is not None:
        clear_range(o, off, 8)
    o.cells[off] = (8, v)


def read_bytes(o, off, n):
    """concrete bytes or None when (partly) uninitialised"""
    ov = overlaps(o, off, n) if o.cells else ()
    if not ov:
        if o.raw is None:
            return None
        if o.mask[off:off + n] != b'\1' * n:
            return None
        return bytes(o.raw[off:off + n])
    out = bytearray(n)
    have = bytearray(n)
    if o.raw is not None:
        out[:] = o.raw[off:off + n]
        have[:] = o.mask[off:off + n]
    for k in ov:
        s, v = o.cells[k]
        if v is UNDEF:
            return None
        b = cell_bytes(s, v)
        if b is None:
            raise PathEnd('unsupported', 'bytes of a symbolic value')
        lo, hi = max(k, off), min(k + s, off + n)
        out[lo - off:hi - off] = b[lo - k:hi - k]
        have[lo - off:hi - off] = b'\1' * (hi - lo)
    if have != b'\1' * n:
        return None
    return bytes(out)


def ldi(a, n):
    try:
        o = objs[a >> OBJSHIFT]
        if o.alive:
            c = o.cells[(a & OMASK) - BASE]
            if c[0] == n:
                return c[1]
    except (KeyError, TypeError):
        pass
    if a.__class__ is SB:
        t = {}
        memo = {}
        for k in P.bdom[a.v]:
            x = a.t[k]
            if x not in memo:
                memo[x] = ldi(x, n)
                if memo[x].__class__ is not int:
                    return ldi(a.conc(), n)
            t[k] = memo[x]
        return mkb(a.v, t)
    o, off = obj_at(a, n)
    c = o.cells.get(off)
    if c is not None and c[0] == n:
        return c[1]
    if n > 1 and any(o.cells[k][1].__class__ is SB for k in overlaps(o, off, n)):
        bs = []
        for i in range(off, off + n):
            c = o.cells.get(i)
            if c is not None and c[0] == 1:
                bs.append(c[1])
            else:
                b = read_bytes(o, i, 1)
                bs.append(UNDEF if b is None else b[0])
        return WB(bs)
    b = read_bytes(o, off, n)
    if b is None:
        return UNDEF
    return int.from_bytes(b, 'little')


def sti(a, n, v):
    if v.__class__ is WB:
        putb(a, list(v.b))
        return
    try:
        o = objs[a >> OBJSHIFT]
        off = (a & OMASK) - BASE
        if o.alive and o.cells[off][0] == n:
            o.cells[off] = (n, v)
            return
    except (KeyError, TypeError):
        pass
    o, off = obj_at(a, n, True)
    if o.cells or o.raw is not None:
        clear_range(o, off, n)
    o.cells[off] = (n, v)


def memcpy(d, s, n, *_):
    if n.__class__ is not int:
        if n is UNDEF:
            raise Fault('uninit', 'uninitialised size')
        if n.__class__ is not SB:
            raise PathEnd('unsupported', 'symbolic size')
        n = n.conc()
    if n == 0:
        return d
    so, soff = obj_at(s, n)
    do, doff = obj_at(d, n, True)
    # snapshot the source
    whole = []
    frag = []
    if so.cells:
        for k in overlaps(so, soff, n):
            z, v = so.cells[k]
            if k >= soff and k + z <= soff + n:
                whole.append((k - soff, z, v))
            else:
                frag.append((k, z, v))
    raw = None
    if so.raw is not None:
        raw = bytes(so.raw[soff:soff + n])
        mask = bytes(so.mask[soff:soff + n])
    fr = []
    for k, z, v in frag:
        if v is UNDEF:
            fr.append((max(k, soff) - soff, min(k + z, soff + n) - soff, None))
            continue
        b = cell_bytes(z, v)
        if b is None:
            raise PathEnd('unsupported', 'partial copy of a symbolic value')
        lo, hi = max(k, soff), min(k + z, soff + n)
        fr.append((lo - soff, hi - soff, b[lo - k:hi - k]))
    clear_range(do, doff, n)
    if raw is not None:
        do.need_raw()
        do.raw[doff:doff + n] = raw
        do.mask[doff:doff + n] = mask
    elif do.raw is not None:
        do.mask[doff:doff + n] = bytes(n)
    for lo, hi, b in fr:
        do.need_raw()
        if b is None:
            do.mask[doff + lo:doff + hi] = bytes(hi - lo)
        else:
            do.raw[doff + lo:doff + hi] = b
            do.mask[doff + lo:doff + hi] = b'\1' * (hi - lo)
    for k, z, v in whole:
        do.cells[doff + k] = (z, v)
        if do.raw is not None:
            do.mask[doff + k:doff + k + z] = bytes(z)
    return d


def memset(d, c, n, *_):
    if n.__class__ is not int:
        if n is UNDEF:
            raise Fault('uninit', 'uninitialised size')
        if n.__class__ is not SB:
            raise PathEnd('unsupported', 'symbolic size')
        n = n.conc()
    if n == 0:
        return d
    o, off = obj_at(d, n, True)
    clear_range(o, off, n)
    if c.__class__ is SB:
        c = c & 255
        for i in range(n):
            o.cells[off + i] = (1, c)
        return d
    o.need_raw()
    if c is UNDEF:
        o.mask[off:off + n] = bytes(n)
        return d
    o.raw[off:off + n] = bytes([c & 255]) * n
    o.mask[off:off + n] = b'\1' * n
    return d


def getb(a, n):
    if n == 0:
        return b''
    o, off = obj_at(a, n)
    b = read_bytes(o, off, n)
    if b is None:
        raise Fault('uninit', 'uninitialised bytes used')
    return b


def getl(a, n):
    """list of n byte values, symbolic ones included"""
    if n.__class__ is SB:
        n = n.conc()
    if n == 0:
        return b''
    o, off = obj_at(a, n)
    if not any(o.cells[k][1].__class__ is SB for k in overlaps(o, off, n)):
        return getb(a, n)
    out = []
    for i in range(off, off + n):
        c = o.cells.get(i)
        if c is not None and c[0] == 1:
            if c[1] is UNDEF:
                raise Fault('uninit', 'uninitialised bytes used')
            out.append(c[1])
        else:
            b = read_bytes(o, i, 1)
            if b is None:
                raise Fault('uninit', 'uninitialised bytes used')
            out.append(b[0])
    return out


def cstrl(a):
    """byte values of a C string up to its end, symbolic ones included (forks on the end)"""
    o, off = obj_at(a, 1)
    if not any(c[1].__class__ is SB for k, c in o.cells.items() if k >= off):
        return cstr(a)
    out = []
    while True:
        if off >= o.size:
            raise Fault('oob', 'string not terminated inside its %s object' % o.kind)
        c = o.cells.get(off)
        if c is not None and c[0] == 1:
            v = c[1]
        else:
            b = read_bytes(o, off, 1)
            v = UNDEF if b is None else b[0]
        if v is UNDEF:
            raise Fault('uninit', 'uninitialised string')
        if v == 0:
            return out
        out.append(v)
        off += 1


def putb(a, b):
    if not b:
        return
    o, off = obj_at(a, len(b), True)
    if b.__class__ is list:
        clear_range(o, off, len(b))
        for i, v in enumerate(b):
            o.cells[off + i] = (1, v)
        return
    clear_range(o, off, len(b))
    o.need_raw()
    o.raw[off:off + len(b)] = b
    o.mask[off:off + len(b)] = b'\1' * len(b)


def cstr(a, lim=1 << 20):
    o, off = obj_at(a, 1)
    if o.raw is not None and not o.cells and not o.alive is False:
        i = o.raw.find(0, off)
        if i >= 0 and o.mask.find(0, off, i + 1) < 0:
            return bytes(o.raw[off:i])
    out = bytearray()
    while True:
        c = o.cells.get(off)
        if c is not None and c[0] == 1:
            v = c[1]
            if v is UNDEF:
                raise Fault('uninit', 'uninitialised string')
        else:
            if off >= o.size:
                raise Fault('oob', 'string not terminated inside its %s object' % o.kind)
            b = read_bytes(o, off, 1)
            if b is None:
                raise Fault('uninit', 'uninitialised string')
            v = b[0]
        if v.__class__ is SB:
            v = v.conc()
        if v == 0:
            return bytes(out)
        out.append(int(v))
        off += 1


# stack
def frame_enter():
    return len(P.stack)


def alloca(n):
    oid = new_obj(n, 'stack')
    P.stack.append(oid)
    return (oid << OBJSHIFT) + BASE


def frame_exit(sp):
    st = P.stack
    for oid in st[sp:]:
        o = objs[oid]
        o.alive = False
        o.cells = {}
    del st[sp:]


def malloc(n, kind='heap'):
    if n is UNDEF:
        raise Fault('uninit', 'uninitialised allocation size')
    if n > 1 << 32:
        raise Fault('alloc', 'allocation of %d bytes' % n)
    P.heap_live += 1
    return new_addr(n, kind)


def free_(a, kind='heap', how='free'):
    if a is UNDEF:
        raise Fault('uninit', 'uninitialised pointer freed')
    if a == 0:
        return
    oid = a >> OBJSHIFT
    o = objs.get(oid)
    if o is None:
        o = fault_in(oid, a)
    if not o.alive:
        raise Fault('doublefree', 'object freed twice')
    if o.kind not in ('heap', 'new', 'newarr') or (a & OMASK) != BASE:
        raise Fault('badfree', '%s of a %s pointer at offset %d' % (how, o.kind, (a & OMASK) - BASE))
    if o.kind != kind:
        raise Fault('badfree', '%s of memory from %s' % (how, o.kind))
    o.alive = False
    o.cells = {}
    o.raw = o.mask = None
    P.heap_live -= 1


# ============================================================ arithmetic
def u2(a, b):
    return a is UNDEF or b is UNDEF


def fadd(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return T.add(a, b)


def fsub(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if b.__class__ is float:
        return T.add(a, -b)
    return T.sub(a, b)


def fneg(a):
    if a is UNDEF:
        return UNDEF
    return T.neg(a)


def fmul(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.__class__ is float or b.__class__ is float:
        return spec_mul(a, b)
    return T.mul(a, b)


def sign_of(p):
    """-1, 0, 1 (may fork)"""
    if p.__class__ is Q:
        return (p > 0) - (p < 0)
    if p.__class__ is float:
        return 1 if p > 0 else -1
    s = T.sgn(p)
    if s == '+':
        return 1
    if s == '-':
        return -1
    if branch(p, '=='):
        return 0
    return 1 if branch(p, '>') else -1


def spec_mul(a, b):
    if a != a or b != b:
        return NAN
    s = sign_of(a) * sign_of(b)
    return NAN if s == 0 else (INF if s > 0 else -INF)


def nonzero(b):
    if b.__class__ is Q:
        return b != 0
    s = T.sgn(b)
    if s == '+' or s == '-':
        return True
    return branch(b, '!=')


def fdiv(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    ca, cb = a.__class__, b.__class__
    if cb is float:
        if b != b or ca is float:
            return NAN
        return ZERO
    if ca is float:
        if a != a:
            return NAN
        s = sign_of(b)
        return a if s >= 0 else -a     # inf/0 treated as +0
    if not nonzero(b):
        s = sign_of(a)
        return NAN if s == 0 else (INF if s > 0 else -INF)
    return T.div(a, b)


def frem(a, b):
    if a.__class__ is Q and b.__class__ is Q and b != 0:
        return a - b * Q(int(a / b))
    raise PathEnd('unsupported', 'frem')


def cmpc(a, b):
    """None if symbolic, else python-comparable"""
    return a.__class__ is not Poly and b.__class__ is not Poly


def mkcmp(op, ordered):
    pyop = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
            '==': lambda a, b: a == b, '!=': lambda a, b: a != b}[op]

    def f(a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if (a.__class__ is float and a != a) or (b.__class__ is float and b != b):
            return 0 if ordered else 1
        if a.__class__ is float or b.__class__ is float:
            x = a if a.__class__ is float else 0.0
            y = b if b.__class__ is float else 0.0
            return 1 if pyop(x, y) else 0
        if a.__class__ is Q and b.__class__ is Q:
            return 1 if pyop(a, b) else 0
        return 1 if branch(T.sub(a, b), op) else 0
    return f


def fcmp_ord(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return 0 if (a.__class__ is float and a != a) or (b.__class__ is float and b != b) else 1


def fcmp_uno(a, b):
    r = fcmp_ord(a, b)
    return r if r is UNDEF else 1 - r


def X_fabs(a):
    if a is UNDEF:
        return UNDEF
    if a.__class__ is not Poly:
        return abs(a)
    s = T.sgn(a)
    if s in ('+', '0+'):
        return a
    if s in ('-', '0-'):
        return T.neg(a)
    return a if branch(a, '>=') else T.neg(a)


def X_sqrt(a):
    if a is UNDEF:
        return UNDEF
    if a.__class__ is float:
        return a if a > 0 else NAN
    if a.__class__ is Q:
        if a < 0:
            return NAN
        return T.root(a)
    s = T.sgn(a)
    if s not in ('+', '0+'):
        if s == '-' or not branch(a, '>='):
            return NAN
    return do_root(a, 1, 2)


def do_root(a, num, den):
    r = T.root(a, num, den)
    if r.__class__ is not tuple:
        return r
    res, absd, n = r
    for q in absd:
        t = X_fabs(q)
        t = T.ipow(t, abs(n))
        res = T.mul(res, t) if n > 0 else fdiv(res, t)
    return res


def ispos(p):
    s = T.sgn(p)
    return s == '+' or branch(p, '>')


def X_pow(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if b.__class__ is Q and b == 0:
        return ONE
    if a.__class__ is Q and a == 1:
        return ONE
    if a.__class__ is float or b.__class__ is float:
        if a != a or b != b:
            return NAN
        if b.__class__ is float:
            if a.__class__ is Poly:
                a = X_fabs(a)
                if branch(T.sub(a, ONE), '>'):
                    return INF if b > 0 else ZERO
                return ZERO if b > 0 else INF
            x = abs(a)
            return ONE if x == 1 else (INF if (x > 1) == (b > 0) else ZERO)
        if b.__class__ is Poly:
            return INF if branch(b, '>') else ZERO
        v = math.pow(a, float(b)) if True else 0
        return v if v in (INF, -INF) or v != v else Q(v)
    if b.__class__ is Q:
        if b.denominator == 1:
            n = b.numerator
            if a.__class__ is Q:
                if a == 0:
                    return ZERO if n > 0 else INF
                if abs(n) < 400:
                    return T.small(a ** n)
            if abs(n) <= 64:
                if n < 0:
                    if not nonzero(a):
                        return INF
                    return T.ipow(T.inv(a), -n)
                return T.ipow(a, n)
        if a.__class__ is Q:
            if a < 0:
                return NAN
            if a == 0:
                return ZERO if b > 0 else INF
            if a == 10:
                return T.exp_of(b, 'ten')
            if b.denominator == 2 and abs(b.numerator) < 64:
                return T.root(a) ** b.numerator
            return Q(math.pow(float(a), float(b)))
        if not ispos(a):
            if branch(a, '=='):
                return ZERO if b > 0 else INF
            return NAN if b.denominator != 1 else NAN
        if b.denominator == 2:
            return do_root(a, b.numerator, 2)
        return T.pow_pos(a, b)
    # symbolic exponent
    if a.__class__ is Q:
        if a == 10:
            return T.exp_of(b, 'ten')
        if a > 0:
            return T.exp_of(T.scale(b, T.log_of(a)), 'exp')
    elif ispos(a):
        return T.exp_of(T.mul(b, T.log_of(a)), 'exp')
    raise PathEnd('unsupported', 'pow with symbolic exponent of a non-positive base')


def X_exp(a):
    if a is UNDEF:
        return UNDEF
    return T.exp_of(a, 'exp')


def X_exp10(a):
    if a is UNDEF:
        return UNDEF
    return T.exp_of(a, 'ten')


def X_exp2(a):
    return T.exp_of(fmul(a, T.log_of(Q(2))), 'exp')


def X_sinh(a):
    return T.scale(T.sub(X_exp(a), X_exp(T.neg(a))), Q(1, 2)) if a.__class__ is not float else a


def X_cosh(a):
    return T.scale(T.add(X_exp(a), X_exp(T.neg(a))), Q(1, 2)) if a.__class__ is not float else abs(a)


def mklog(kind):
    def f(a):
        if a is UNDEF:
            return UNDEF
        if a.__class__ is float:
            return a if a > 0 else NAN
        s = sign_of(a)
        if s == 0:
            return -INF
        if s < 0:
            return NAN
        return T.log_of(a, kind)
    return f


def wrap1(fn):
    def f(a):
        if a is UNDEF:
            return UNDEF
        return fn(a)
    return f


X_log = mklog('log')
X_log10 = mklog('log10')
X_sin = wrap1(T.sin_of)
X_cos = wrap1(T.cos_of)


def X_tan(a):
    return fdiv(X_sin(a), X_cos(a))


X_atan = wrap1(T.atan_of)


def X_atan2(y, x):
    if u2(y, x):
        return UNDEF
    if x.__class__ is float or y.__class__ is float:
        if x != x or y != y:
            return NAN
        raise PathEnd('unsupported', 'atan2 of infinities')
    sx = sign_of(x)
    sy = sign_of(y)
    pi = T.rat(math.pi)
    if sx > 0:
        return T.atan_of(T.div(y, x))
    if sx == 0:
        return ZERO if sy == 0 else pi / 2 * sy
    if sy >= 0:
        return T.add(T.atan_of(T.div(y, x)), pi)
    return T.add(T.atan_of(T.div(y, x)), -pi)


def mkinvtrig(name):
    f = getattr(math, name)

    def g(a):
        if a is UNDEF:
            return UNDEF
        if a.__class__ is float:
            return NAN
        if a.__class__ is Q:
            return T.rat(f(float(a))) if -1 <= a <= 1 else NAN
        if not branch(T.sub(ONE, a), '>=') or not branch(T.add(ONE, a), '>='):
            return NAN
        lo, hi = (0, Q(355, 113)) if name == 'acos' else (Q(-355, 226), Q(355, 226))
        return T.uf('#' + name, (a,), lo, hi)
    return g


X_acos = mkinvtrig('acos')
X_asin = mkinvtrig('asin')


def X_cbrt(a):
    if a.__class__ is Q:
        return T.rat(math.copysign(abs(float(a)) ** (1 / 3), a))
    s = sign_of(a)
    if s == 0:
        return ZERO
    if s > 0:
        return do_root(a, 1, 3)
    return T.neg(do_root(T.neg(a), 1, 3))


def X_hypot(a, b):
    return X_sqrt(fadd(fmul(a, a), fmul(b, b)))


def X_fmuladd(a, b, c):
    return fadd(fmul(a, b), c)


def X_copysign(a, b):
    a = X_fabs(a)
    s = sign_of(b)
    return a if s >= 0 else fneg(a)


def fminmax(mx):
    def f(a, b):
        if u2(a, b):
            return UNDEF
        if a.__class__ is float and a != a:
            return b
        if b.__class__ is float and b != b:
            return a
        if a.__class__ is not Poly and b.__class__ is not Poly:
            return max(a, b) if mx else min(a, b)
        if fcmp_lt(a, b):
            return b if mx else a
        return a if mx else b
    return f


fcmp_lt = mkcmp('<', True)


def floor_of(p):
    """integer floor, forking over the possible values"""
    if p.__class__ is Q:
        return math.floor(p)
    for _ in range(200):
        i = len(P.trail)
        if i < len(P.prefix):
            n, how = P.prefix[i]
        else:
            how = 0
            n = None
            if P.ensure_env():
                v = P.ev(p)
                if v == v and abs(v) < 1e15:
                    n = math.floor(v)
            if n is None:
                r = S.check(P.pc, [], want_model=True, full=True)
                if r.status == 'sat':
                    v = T.Ev(r.env)(p)
                    if v == v and abs(v) < 1e15:
                        n = math.floor(v)
            if n is None:
                raise PathEnd('unsupported', 'cannot concretise')
            lt = S.norm(T.add(p, Q(-n)), '<')
            ge = S.norm(T.add(p, Q(-n - 1)), '>=')
            for c, h in ((lt, -1), (ge, 1)):
                if c is False:
                    continue
                if c is True or S.check(P.pc, [c]).status != 'unsat':
                    P.alts.append((tuple(P.trail) + ((n, h),), 'sat'))
        P.trail.append((n, how))
        if how == 0:
            P.require(T.add(p, Q(-n)), '>=')
            P.require(T.sub(Q(n + 1), p), '>')
            return n
        if how < 0:
            P.require(T.add(p, Q(-n)), '<')
        else:
            P.require(T.add(p, Q(-n - 1)), '>=')
    raise PathEnd('limit', 'floor')


def X_floor(a):
    if a is UNDEF or a.__class__ is float:
        return a
    return Q(floor_of(a))


def X_ceil(a):
    if a is UNDEF or a.__class__ is float:
        return a
    return Q(-floor_of(T.neg(a)))


def X_trunc(a):
    if a is UNDEF or a.__class__ is float:
        return a
    if a.__class__ is Q:
        return Q(math.trunc(a))
    if branch(a, '>='):
        return Q(floor_of(a))
    return Q(-floor_of(T.neg(a)))


def X_round(a):
    if a is UNDEF or a.__class__ is float:
        return a
    if a.__class__ is Poly and not branch(a, '>='):
        return Q(-floor_of(T.add(T.neg(a), Q(1, 2))))
    if a.__class__ is Q and a < 0:
        return Q(-math.floor(-a + Q(1, 2)))
    return Q(floor_of(T.add(a, Q(1, 2))))


def X_rint(a):
    if a is UNDEF or a.__class__ is float:
        return a
    if a.__class__ is Q:
        return Q(round(a))
    return Q(floor_of(T.add(a, Q(1, 2))))


def X_is_fpclass(a, mask):
    if a is UNDEF:
        return UNDEF
    mask = int(mask)
    if a.__class__ is float:
        if a != a:
            return 1 if mask & 3 else 0
        return 1 if mask & (512 if a > 0 else 4) else 0
    # finite: normal/subnormal/zero
    if mask & 0x1f8 == 0x1f8:
        return 1
    if mask & 0x1f8 == 0:
        return 0
    s = sign_of(a)
    if s == 0:
        return 1 if mask & 0x60 else 0
    return 1 if mask & (0x180 if s > 0 else 0x18) else 0


def fptoint(a, w, signed):
    if a is UNDEF:
        return UNDEF
    if a.__class__ is float:
        return UNDEF
    t = X_trunc(a)
    n = int(t)
    if signed:
        if not -(1 << (w - 1)) <= n < (1 << (w - 1)):
            return UNDEF
    elif not 0 <= n < (1 << w):
        return UNDEF
    return n & ((1 << w) - 1)


def inttofp(v, sw, signed):
    if v is UNDEF:
        return UNDEF
    if v.__class__ is SB:
        v = v.conc()
    v = int(v)
    if signed and v >> (sw - 1):
        v -= 1 << sw
    return Q(v)


def f2bits(v):
    if v.__class__ is Q or v.__class__ is float:
        try:
            return struct.unpack('<Q', struct.pack('<d', float(v)))[0]
        except OverflowError:
            pass
    return v


def bits2f(v):
    if v.__class__ is int:
        return T.rat(struct.unpack('<d', struct.pack('<Q', v))[0])
    return v


# integers
def s_(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def sg8(v):
    if v.__class__ is int:
        return v - 256 if v >= 128 else v
    if v.__class__ is SB:
        return v.map(lambda x: x - 256 if x >= 128 else x)
    return v


def sg16(v):
    if v.__class__ is int:
        return v - 65536 if v >= 32768 else v
    if v.__class__ is SB:
        return v.map(lambda x: x - 65536 if x >= 32768 else x)
    return v


def sg32(v):
    if v.__class__ is int:
        return v - 4294967296 if v >= 2147483648 else v
    if v.__class__ is SB:
        return v.map(lambda x: x - 4294967296 if x >= 2147483648 else x)
    return v


def sg64(v):
    if v.__class__ is int:
        return v - 18446744073709551616 if v >= 9223372036854775808 else v
    if v.__class__ is SB:
        return v.map(lambda x: x - 18446744073709551616 if x >= 9223372036854775808 else x)
    return v


def sgn_(v, w):
    if v is UNDEF:
        return v
    if v.__class__ is SB:
        return v.map(lambda x: s_(x, w))
    return s_(int(v), w)


def zext(v, sw, w):
    if v is True or v is False:
        return int(v)
    return v


def sext(v, sw, w):
    if v is UNDEF:
        return v
    if v.__class__ is SB:
        return v.map(lambda x: sext(x, sw, w))
    v = int(v)
    if v >> (sw - 1):
        return v | ((1 << w) - (1 << sw))
    return v


def i_udiv(a, b, w):
    if u2(a, b):
        return UNDEF
    if b == 0:
        raise Fault('ub', 'integer division by zero')
    return a // b


def i_urem(a, b, w):
    if u2(a, b):
        return UNDEF
    if b == 0:
        raise Fault('ub', 'integer division by zero')
    return a % b


def i_sdiv(a, b, w):
    if u2(a, b):
        return UNDEF
    if b == 0:
        raise Fault('ub', 'integer division by zero')
    x, y = s_(a, w), s_(b, w)
    q = abs(x) // abs(y)
    return (q if (x < 0) == (y < 0) else -q) & ((1 << w) - 1)


def i_srem(a, b, w):
    if u2(a, b):
        return UNDEF
    if b == 0:
        raise Fault('ub', 'integer division by zero')
    x, y = s_(a, w), s_(b, w)
    r = abs(x) % abs(y)
    return (r if x >= 0 else -r) & ((1 << w) - 1)


def i_shl(a, b, w):
    if u2(a, b) or b >= w:
        return UNDEF
    return (a << b) & ((1 << w) - 1)


def i_lshr(a, b, w):
    if u2(a, b) or b >= w:
        return UNDEF
    return a >> b


def i_ashr(a, b, w):
    if u2(a, b) or b >= w:
        return UNDEF
    return (s_(a, w) >> b) & ((1 << w) - 1)


def lift2(f):
    def g(a, b, w):
        if a.__class__ is SB or b.__class__ is SB:
            return op2(lambda x, y: f(x, y, w))(a, b) if a.__class__ is SB else op2(lambda y, x: f(x, y, w))(b, a)
        return f(a, b, w)
    return g


def lift1(f, k=0):
    def g(a, *r):
        if a.__class__ is SB:
            return a.map(lambda x: f(x, *r))
        return f(a, *r)
    return g


for _n in 'i_udiv i_urem i_sdiv i_srem i_shl i_lshr i_ashr'.split():
    globals()[_n] = lift2(globals()[_n])


def insval(agg, v, idx):
    l = list(agg)
    if len(idx) == 1:
        l[idx[0]] = v
    else:
        l[idx[0]] = insval(l[idx[0]], v, idx[1:])
    return tuple(l)


def atomicrmw(op, a, v, w):
    if op in (11, 12):
        old = ldf(a)
        stf(a, (fadd if op == 11 else fsub)(old, v))
        return old
    old = ldi(a, w // 8)
    m = (1 << w) - 1
    new = {0: lambda: v, 1: lambda: old + v, 2: lambda: old - v, 3: lambda: old & v, 4: lambda: ~(old & v),
           5: lambda: old | v, 6: lambda: old ^ v}[op]()
    sti(a, w // 8, new & m)
    return old


def cmpxchg(a, c, n, w):
    old = ldi(a, w // 8)
    if old == c:
        sti(a, w // 8, n)
        return (old, 1)
    return (old, 0)


def icall(a, args):
    if a.__class__ is SB:
        a = a.conc()
    if a is UNDEF:
        raise Fault('uninit', 'call through an uninitialised pointer')
    n = E.M.funcid.get(a >> OBJSHIFT)
    if n is None or (a & OMASK) != BASE:
        raise Fault('segv', 'call through a bad pointer %x' % a)
    return E.fetch(n)(*args)


def unreachable():
    raise Fault('unreachable', 'undefined behaviour reached')


def unsupported(msg):
    raise PathEnd('unsupported', msg)


def inline_asm(*a):
    return 0


def X_umin(a, b, w):
    return UNDEF if u2(a, b) else min(a, b)


def X_umax(a, b, w):
    return UNDEF if u2(a, b) else max(a, b)


def X_smin(a, b, w):
    return UNDEF if u2(a, b) else (a if s_(a, w) <= s_(b, w) else b)


def X_smax(a, b, w):
    return UNDEF if u2(a, b) else (a if s_(a, w) >= s_(b, w) else b)


def X_abs(a, _, w):
    return UNDEF if a is UNDEF else abs(s_(a, w)) & ((1 << w) - 1)


def X_ctlz(a, _, w):
    return UNDEF if a is UNDEF else w - int(a).bit_length()


def X_cttz(a, _, w):
    return UNDEF if a is UNDEF else (w if a == 0 else (a & -a).bit_length() - 1)


def X_ctpop(a, w):
    return UNDEF if a is UNDEF else bin(a).count('1')


def X_bswap(a, w):
    return UNDEF if a is UNDEF else int.from_bytes(int(a).to_bytes(w // 8, 'little'), 'big')


def X_usub_sat(a, b, w):
    return UNDEF if u2(a, b) else max(a - b, 0)


def X_uadd_sat(a, b, w):
    return UNDEF if u2(a, b) else min(a + b, (1 << w) - 1)


def X_fshl(a, b, c, w):
    c %= w
    return ((a << c) | (b >> (w - c))) & ((1 << w) - 1)


def ovf(f, signed):
    def g(a, b, w):
        if a.__class__ is SB:
            a = a.conc()
        if b.__class__ is SB:
            b = b.conc()
        if u2(a, b):
            return (UNDEF, UNDEF)
        if signed:
            r = f(s_(a, w), s_(b, w))
            return (r & ((1 << w) - 1), 0 if -(1 << (w - 1)) <= r < (1 << (w - 1)) else 1)
        r = f(a, b)
        return (r & ((1 << w) - 1), 0 if 0 <= r < (1 << w) else 1)
    return g


for _n in 'X_umin X_umax X_smin X_smax X_usub_sat X_uadd_sat'.split():
    globals()[_n] = lift2(globals()[_n])
for _n in 'X_abs X_ctlz X_cttz X_ctpop X_bswap'.split():
    globals()[_n] = lift1(globals()[_n])


def X_trap():
    raise Fault('trap', 'trap')


def X_objectsize(*a):
    return (1 << 64) - 1


def or1(a, b):
    if a.__class__ is SB or b.__class__ is SB:
        if a is UNDEF or b is UNDEF:
            return UNDEF
        return a | b
    if a is UNDEF:
        return 1 if b is not UNDEF and b else UNDEF
    if b is UNDEF:
        return 1 if a else UNDEF
    return a | b


BUILTINS = {}


def builtin(*names):
    def d(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return d


def build_runtime(eng):
    global E
    E = eng
    NS = eng.NS
    g = globals()
    for k in '''UNDEF ldf stf ldi sti fadd fsub fmul fdiv frem fneg fcmp_ord fcmp_uno i_udiv i_sdiv i_urem i_srem i_shl
      i_lshr i_ashr zext sext sg8 sg16 sg32 sg64 sgn_ fptoint inttofp f2bits bits2f insval atomicrmw cmpxchg icall unreachable
      unsupported inline_asm frame_enter frame_exit alloca'''.split():
        NS[k] = g[k]
    NS['i1'] = lambda x: x
    NS['or1'] = or1
    for nm, op, o in (('oeq', '==', 1), ('ogt', '>', 1), ('oge', '>=', 1), ('olt', '<', 1), ('ole', '<=', 1), ('one', '!=', 1),
                      ('ueq', '==', 0), ('ugt', '>', 0), ('uge', '>=', 0), ('ult', '<', 0), ('ule', '<=', 0), ('une', '!=', 0)):
        NS['fcmp_' + nm] = mkcmp(op, bool(o))
    NS['fcmp_true'] = lambda a, b: 1
    NS['fcmp_false'] = lambda a, b: 0
    for k, v in list(g.items()):
        if k.startswith('X_'):
            NS[k] = v
    NS['X_memcpy'] = NS['X_memmove'] = memcpy
    NS['X_memset'] = memset
    NS['X_minnum'] = NS['X_minimum'] = fminmax(False)
    NS['X_maxnum'] = NS['X_maximum'] = fminmax(True)
    NS['X_powi'] = lambda a, n: X_pow(a, Q(s_(n, 32)))
    NS['X_nearbyint'] = NS['X_roundeven'] = X_rint
    NS['X_lround'] = NS['X_llround'] = lambda a: int(X_round(a)) & ((1 << 64) - 1)
    import operator
    NS['X_sadd_with_overflow'] = ovf(operator.add, True)
    NS['X_ssub_with_overflow'] = ovf(operator.sub, True)
    NS['X_smul_with_overflow'] = ovf(operator.mul, True)
    NS['X_uadd_with_overflow'] = ovf(operator.add, False)
    NS['X_usub_with_overflow'] = ovf(operator.sub, False)
    NS['X_umul_with_overflow'] = ovf(operator.mul, False)
    NS['X_ubsantrap'] = NS['X_debugtrap'] = X_trap
    NS['X_expect'] = lambda a, b: a
    NS['X_stacksave'] = lambda: 0
    NS['X_stackrestore'] = lambda a: None
    NS['X_is_constant'] = lambda a: 0
    NS['X_eh_typeid_for'] = lambda a: 0
    NS['X_fma'] = X_fmuladd
    NS['X_threadlocal_address'] = lambda a: a
    NS['X_launder_invariant_group'] = NS['X_strip_invariant_group'] = lambda a: a
    eng.firstobj = eng.M.nextobj + 16
    import builtins_rt


def run_ctors(eng, p):
    """run the module's global constructors once and keep the resulting memory"""
    eng.snap = None
    M = eng.M
    a = M.addr.get('llvm.global_ctors')
    if a is not None:
        oid = a >> OBJSHIFT
        g = M.globals[oid]
        cells = {}
        raw = []
        init = M.L.LLVMGetInitializer(llvmc.P(g[1]))
        if init:
            M.init_cells(init, 0, cells, raw)
            ent = []
            for off in sorted(cells):
                if off % 24 == 0:
                    ent.append((cells[off][1], cells[off + 8][1]))
            for pr, fn in sorted(ent, key=lambda t: t[0]):
                eng.fetch(M.funcid[fn >> OBJSHIFT])()
    if p.trail:
        raise PathEnd('unsupported', 'global constructors branch on symbolic values')
    eng.snap = dict(objs)
    eng.snap_nobj = p.nobj
    eng.snap_live = p.heap_live
    objs.clear()
