"""threads of the program under test: every switch point is a decision of the path, every access is checked for data races

One thread runs at a time.  A thread may be switched away from at every synchronisation operation (as long as the path's switch
budget lasts) and is when it blocks or ends; for programs without data races these are the only points that matter, and data races
themselves are found from the happens-before order of the accesses (vector clocks), not from the order in which they were run."""
import threading
import engine as G
import checks as C
from engine import PathEnd, Fault, BUILTINS, OBJSHIFT, OMASK, BASE, UNDEF, builtin, s_

RACE = 'two threads use the same memory, one of them to write, without synchronisation'
DEAD = 'every thread waits for another'
threading.stack_size(256 << 20)


class Stop(BaseException):
    pass


class Th:
    def __init__(self, tid):
        self.tid = tid
        self.sem = threading.Semaphore(0)
        self.stack = []
        self.state = 'ready'        # ready, blocked, barrier, done
        self.off = 0                # > 0: accesses are not recorded
        self.counter = None


class Team:
    def __init__(self, n):
        self.n = n
        self.t = [Th(i) for i in range(n)]
        self.vc = [[1 if i == j else 0 for j in range(n)] for i in range(n)]
        self.cur = None
        self.main = threading.Semaphore(0)
        self.exc = None
        self.stop = False
        self.owner = {}             # lock address -> tid
        self.sync = {}              # address -> clock of the last release
        self.acc = {}               # object -> granule -> [(tid, clock, mask, write)]
        self.nb = 0
        self.first = 0              # objects from here on were made by the team


R = None            # running team


def me():
    return R.cur


def path():
    p = G.P
    if not hasattr(p, 'switches'):
        p.switches = 2
        p.ttls = {}
        p.nthreads = 1
        p.icv = 1
        p.disp, p.dispn, p.dispc, p.singlen, p.singles = {}, {}, {}, {}, set()
    return p


# -------------------------------------------------------------- scheduling
def pick(cands, extra):
    """index into cands, recorded as an input of the replay"""
    p = G.P
    k = p.choose(len(cands))
    if len(cands) > 1:
        p.draws.append(('i', k, 'schedule'))
    return cands[k]


def switch(to):
    r, a = R, R.cur
    if to is a:
        return
    a.stack = G.P.stack
    r.cur = to
    G.P.stack = to.stack
    to.sem.release()
    a.sem.acquire()
    if r.stop:
        raise Stop()


def ready():
    return [t for t in R.t if t.state == 'ready']


def point():
    """a place where another thread may go on first"""
    if R is None:
        return
    if R.stop:
        raise Stop()
    p = path()
    o = [t for t in ready() if t is not R.cur]
    if not o or p.switches <= 0:
        return
    to = pick([R.cur] + o, 0)
    if to is not R.cur:
        p.switches -= 1
        switch(to)


def block(state):
    """the running thread cannot go on"""
    R.cur.state = state
    o = ready()
    if not o:
        C.candidate(DEAD, 'assert', [])
        raise PathEnd('failed', DEAD)
    switch(pick(o, 1))


def merge(a, b):
    for i in range(len(a)):
        if b[i] > a[i]:
            a[i] = b[i]


def acquire(addr):
    if R is not None:
        s = R.sync.get(addr)
        if s:
            merge(R.vc[R.cur.tid], s)


def release(addr):
    if R is not None:
        t = R.cur.tid
        s = R.sync.setdefault(addr, [0] * R.n)
        merge(s, R.vc[t])
        R.vc[t][t] += 1


def lock(addr):
    if R is None:
        return
    point()
    while R.owner.get(addr) is not None:
        if R.owner[addr] == R.cur.tid:
            C.candidate(DEAD, 'assert', [])
            raise PathEnd('failed', DEAD)
        R.cur.waits = addr
        block('blocked')
    R.owner[addr] = R.cur.tid
    acquire(addr)


def unlock(addr):
    if R is None:
        return
    release(addr)
    R.owner[addr] = None
    for t in R.t:
        if t.state == 'blocked' and t.waits == addr:
            t.state = 'ready'


def barrier():
    if R is None:
        return
    R.nb += 1
    if R.nb < R.n:
        block('barrier')
        return
    R.nb = 0
    v = [0] * R.n
    for x in R.vc:
        merge(v, x)
    for i, x in enumerate(R.vc):
        x[:] = v
        x[i] += 1
    for t in R.t:
        if t.state == 'barrier':
            t.state = 'ready'


def team(n, call):
    """run call(tid) in n threads"""
    global R
    p = path()
    r = Team(n)
    r.first = G.E.firstobj + p.nobj + 1
    keep = p.stack
    for t in r.t:
        t.stack = list(keep)
    p.switches = getattr(p, 'budget', 2)

    def body(t):
        t.sem.acquire()
        try:
            if not r.stop:
                call(t.tid)
        except Stop:
            pass
        except BaseException as e:
            if r.exc is None:
                r.exc = e
            r.stop = True
        t.state = 'done'
        if not r.stop:
            try:
                o = ready()
                if o:
                    to = pick(o, 1)
                    r.cur = to
                    G.P.stack = to.stack
                    to.sem.release()
                    return
                if any(x.state != 'done' for x in r.t):
                    C.candidate(DEAD, 'assert', [])
                    r.exc = PathEnd('failed', DEAD)
                    r.stop = True
            except BaseException as e:
                r.exc = e
                r.stop = True
        r.main.release()
    ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in r.t]
    for h in ths:
        h.start()
    try:
        R = r
        r.cur = pick(r.t, 2)
        p.stack = r.cur.stack
        r.cur.sem.release()
        r.main.acquire()
    finally:
        r.stop = True
        for t in r.t:
            t.sem.release()
        for h in ths:
            h.join()
        R = None
        p.stack = keep
    if r.exc is not None:
        raise r.exc


# ---------------------------------------------------------------- accesses
def access(a, n, w, at=False):
    r = R
    if r is None:
        return
    if r.stop:
        raise Stop()
    t = r.cur
    if t.off or a.__class__ is not int:
        return
    oid = a >> OBJSHIFT
    o = G.objs.get(oid)
    if o is not None and o.kind == 'stack' and oid >= r.first:
        return
    if oid in SKIP or (o is not None and o.name.startswith(QUIET)):
        return
    off = (a & OMASK) - BASE
    m = r.acc.get(oid)
    if m is None:
        m = r.acc[oid] = {}
    tid = t.tid
    vc = r.vc[tid]
    now = vc[tid]
    for (t2, c2, lo2, hi2, w2) in m.get(None, ()):      # large accesses are kept as ranges
        if t2 != tid and (w or w2) and c2 > vc[t2] and lo2 < off + n and off < hi2:
            race(o, oid)
    g0, g1 = off >> 3, (off + n - 1) >> 3
    if g1 - g0 > 16:
        for g in m:
            if g is not None and g0 <= g <= g1:
                for (t2, c2, m2, w2, at2) in m[g]:
                    if t2 != tid and (w or w2) and c2 > vc[t2] and (g0 < g < g1 or m2 & part(g, g0, g1, off, n)):
                        race(o, oid)
        l = m.setdefault(None, [])
        x = (tid, now, off, off + n, w)
        if x not in l:
            l.append(x)
        return
    for g in range(g0, g1 + 1):
        mask = part(g, g0, g1, off, n)
        l = m.get(g)
        if l is None:
            m[g] = [(tid, now, mask, w, at)]
            continue
        have = False
        for (t2, c2, m2, w2, at2) in l:
            if t2 == tid:
                if c2 == now and m2 & mask == mask and (w2 or not w) and (at or not at2):
                    have = True
            elif (w or w2) and m2 & mask and c2 > vc[t2] and not (at and at2):
                race(o, oid)
        if not have:
            l.append((tid, now, mask, w, at))


def part(g, g0, g1, off, n):
    """bytes of granule g in the range of n bytes from off"""
    lo = off - g * 8 if g == g0 else 0
    hi = off + n - g * 8 if g == g1 else 8
    return ((1 << hi) - 1) & ~((1 << lo) - 1)


def race(o, oid):
    C.candidate(RACE, 'assert', [])
    raise PathEnd('failed', RACE + ': ' + (o.kind + ' ' + o.name if o is not None else str(oid)))


SKIP = set()
QUIET = ('_ZSt4cout', '_ZSt4cerr', '_ZSt4clog', '_ZSt3cin', 'vfs')


def vsync(a, n, how, order):
    """before (how 1: load, 2: store, 3: both) an atomic operation of n bytes"""
    if R is None:
        return
    point()
    access(a, n, bool(how & 2), True)
    if how & 1 and order in (4, 6, 7):
        acquire(a)
    if how & 2 and order in (5, 6, 7):
        release(a)


def tls(a):
    if R is None or R.cur.tid == 0:
        return a
    p = path()
    oid = a >> OBJSHIFT
    k = (R.cur.tid, oid)
    x = p.ttls.get(k)
    if x is None:
        name, v, size = G.E.M.globals[oid]
        n = G.new_obj(size, 'global', name)
        o = G.objs[n]
        L = G.E.M.L
        init = L.LLVMGetInitializer(G.llvmc.P(v))
        cells, raw = {}, []
        if init:
            G.E.M.init_cells(init, 0, cells, raw)
        o.cells = cells
        if raw:
            o.need_raw()
            for off, b in raw:
                o.raw[off:off + len(b)] = b
                o.mask[off:off + len(b)] = b'\1' * len(b)
        x = p.ttls[k] = (n << OBJSHIFT) + BASE
    return x + (a & OMASK) - BASE


def enable(eng):
    """put the access checks into the executor"""
    NS = eng.NS
    ldf, stf, ldi, sti, mcpy, mset = G.ldf, G.stf, G.ldi, G.sti, G.memcpy, G.memset
    free0 = G.free_

    def ldf_(a):
        if R is not None:
            access(a, 8, False)
        return ldf(a)

    def stf_(a, v):
        if R is not None:
            access(a, 8, True)
        stf(a, v)

    def ldi_(a, n):
        if R is not None:
            access(a, n, False)
        return ldi(a, n)

    def sti_(a, n, v):
        if R is not None:
            access(a, n, True)
        sti(a, n, v)

    def memcpy_(d, s, n, *r):
        if R is not None and n.__class__ is int and n > 0:
            access(s, n, False)
            access(d, n, True)
        return mcpy(d, s, n, *r)

    def memset_(d, c, n, *r):
        if R is not None and n.__class__ is int and n > 0:
            access(d, n, True)
        return mset(d, c, n, *r)

    def free_(a, kind='heap', how='free'):
        if R is not None and a.__class__ is int and a:
            o = G.objs.get(a >> OBJSHIFT)
            if o is not None and o.alive and o.size:
                access(a, o.size, True)
        return free0(a, kind, how)
    NS.update(ldf=ldf_, stf=stf_, ldi=ldi_, sti=sti_, X_memcpy=memcpy_, X_memmove=memcpy_, X_memset=memset_)
    NS['aldi'] = ldi
    NS['astf'] = stf
    NS['aldf'] = ldf
    NS['asti'] = sti
    NS['vsync'] = vsync
    NS['X_threadlocal_address'] = tls
    for n in ('memcpy', 'memmove'):
        BUILTINS[n] = memcpy_
    BUILTINS['memset'] = memset_
    import builtins_rt as B
    B.free_ = free_
    G.free_ = free_


# ------------------------------------------------------- the OpenMP runtime
@builtin('__kmpc_global_thread_num')
def gtn(loc):
    return R.cur.tid if R is not None else 0


@builtin('__kmpc_fork_call')
def fork(loc, argc, fn, *args):
    p = path()
    n = getattr(p, 'push', 0) or p.icv
    p.push = 0
    if R is not None:
        n = 1
    p.level = getattr(p, 'level', 0)

    def call(tid):
        sp = G.frame_enter()
        a, b = G.alloca(4), G.alloca(4)
        G.sti(a, 4, tid)
        G.sti(b, 4, 0)
        G.icall(fn, (a, b) + args)
        G.frame_exit(sp)
    if R is not None:                       # nested: the thread on its own
        call(R.cur.tid)
        return None
    p.nthreads = n
    p.disp, p.dispn, p.dispc, p.singlen, p.singles = {}, {}, {}, {}, set()
    team(n, call)
    p.nthreads = 1
    return None


@builtin('__kmpc_push_num_threads')
def push(loc, gtid, n):
    path().push = s_(n, 32)


@builtin('omp_set_num_threads')
def setn(n):
    n = s_(n, 32)
    if n < 1:
        raise PathEnd('unsupported', 'omp_set_num_threads(%d)' % n)
    path().icv = n


@builtin('omp_get_max_threads', 'omp_get_num_procs', 'omp_get_thread_limit')
def maxn():
    return path().icv


@builtin('omp_get_num_threads')
def numn():
    return path().nthreads


@builtin('omp_get_thread_num')
def tnum():
    return R.cur.tid if R is not None else 0


@builtin('omp_in_parallel')
def inpar():
    return 1 if R is not None else 0


@builtin('omp_get_wtime')
def wtime():
    return G.T.ZERO


@builtin('omp_set_dynamic', 'omp_set_nested', 'omp_set_schedule', 'omp_set_max_active_levels', 'omp_init_lock', 'omp_destroy_lock',
         '__kmpc_for_static_fini', 'pthread_mutex_init', 'pthread_mutex_destroy', '__kmpc_flush')
def nop(*a):
    if len(a) == 2 or len(a) == 1:
        return 0
    return 0


def trips(lo, up, st):
    if st > 0:
        return 0 if up < lo else (up - lo) // st + 1
    return 0 if up > lo else (lo - up) // -st + 1


def static_init(w, signed):
    def f(loc, gtid, sched, plast, plo, pup, pstride, incr, chunk):
        tid, n = tnum(), path().nthreads
        cv = (lambda v: s_(v, w)) if signed else (lambda v: v)
        lo, up = cv(G.ldi(plo, w // 8)), cv(G.ldi(pup, w // 8))
        st, ck = s_(incr, w), s_(chunk, w)
        m = (1 << w) - 1
        tot = trips(lo, up, st)
        sched = s_(sched, 32) & 63
        if sched == 33:                             # static, chunked
            ck = max(ck, 1)
            b = lo + tid * ck * st
            e = b + (ck - 1) * st
            stride = ck * st * n
            nch = (tot + ck - 1) // ck
            last = 1 if tot and tid == (nch - 1) % n else 0
        else:
            q, r = divmod(tot, n)
            mine = q + (1 if tid < r else 0)
            first = tid * q + min(tid, r)
            b = lo + first * st
            e = b + (mine - 1) * st
            if not mine:                            # nothing to do: start beyond the end
                b, e = (up + st, up) if signed or st > 0 else (up, up - 1)
                if not signed and up == m:
                    raise PathEnd('unsupported', 'empty unsigned loop')
            stride = tot * st if tot else st
            last = 1 if mine and first + mine == tot else 0
        G.sti(plast, 4, last)
        G.sti(plo, w // 8, b & m)
        G.sti(pup, w // 8, e & m)
        G.sti(pstride, w // 8, stride & m)
    return f


def disp_init(w, signed):
    def f(loc, gtid, sched, lo, up, st, chunk):
        p = path()
        cv = (lambda v: s_(v, w)) if signed else (lambda v: v)
        d = p.disp
        k = p.dispn
        tid = tnum()
        i = k.get(tid, 0)
        k[tid] = i + 1
        if i not in d:
            lo, up, st = cv(lo), cv(up), s_(st, w)
            d[i] = [lo, trips(lo, up, st), st, max(s_(chunk, w), 1), 0]
        p.dispc[tid] = i
    return f


def disp_next(w, signed):
    def f(loc, gtid, plast, plo, pup, pst):
        point()
        p = path()
        d = p.disp[p.dispc[tnum()]]
        lo, tot, st, ck, at = d
        if at >= tot:
            return 0
        e = min(at + ck, tot)
        d[4] = e
        m = (1 << w) - 1
        G.sti(plast, 4, 1 if e == tot else 0)
        G.sti(plo, w // 8, (lo + at * st) & m)
        G.sti(pup, w // 8, (lo + (e - 1) * st) & m)
        G.sti(pst, w // 8, st & m)
        return 1
    return f


for _s, _w, _g in (('4', 32, True), ('4u', 32, False), ('8', 64, True), ('8u', 64, False)):
    BUILTINS['__kmpc_for_static_init_' + _s] = static_init(_w, _g)
    BUILTINS['__kmpc_dispatch_init_' + _s] = disp_init(_w, _g)
    BUILTINS['__kmpc_dispatch_next_' + _s] = disp_next(_w, _g)
    BUILTINS['__kmpc_dispatch_fini_' + _s] = lambda *a: 0
    BUILTINS['__kmpc_dispatch_deinit'] = lambda *a: 0


@builtin('__kmpc_critical', '__kmpc_critical_with_hint')
def crit(loc, gtid, lk, *a):
    lock(lk)


@builtin('__kmpc_end_critical')
def ecrit(loc, gtid, lk):
    unlock(lk)


@builtin('omp_set_lock', 'pthread_mutex_lock', 'omp_set_nest_lock')
def olock(a):
    lock(a)
    return 0


@builtin('omp_unset_lock', 'pthread_mutex_unlock', 'omp_unset_nest_lock')
def ounlock(a):
    unlock(a)
    return 0


@builtin('__kmpc_barrier')
def obar(loc, gtid):
    barrier()


@builtin('__kmpc_master', '__kmpc_masked')
def master(loc, gtid, *a):
    return 1 if tnum() == 0 else 0


@builtin('__kmpc_end_master', '__kmpc_end_masked', '__kmpc_end_single')
def emaster(*a):
    return None


@builtin('__kmpc_single')
def single(loc, gtid):
    point()
    p = path()
    k = p.singlen
    tid = tnum()
    i = k.get(tid, 0)
    k[tid] = i + 1
    won = p.singles
    if i in won:
        return 0
    won.add(i)
    return 1


RED = 7 << OBJSHIFT


@builtin('__kmpc_reduce', '__kmpc_reduce_nowait')
def reduce_(loc, gtid, n, size, data, fn, lk):
    lock(lk)
    return 1


@builtin('__kmpc_end_reduce', '__kmpc_end_reduce_nowait')
def ereduce(loc, gtid, lk):
    unlock(lk)


@builtin('__kmpc_serialized_parallel', '__kmpc_end_serialized_parallel')
def ser(*a):
    return None


# ------------------------------------------------------------ harness side
@builtin('vf_switches')
def vf_switches(n):
    p = path()
    p.budget = p.switches = s_(n, 32)


@builtin('vf_track')
def vf_track(on):
    if R is not None:
        R.cur.off += -1 if on else 1


@builtin('vf_thread')
def vf_thread():
    return tnum()
