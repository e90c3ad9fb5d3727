"""exploration of all paths of the harnesses, in parallel worker processes"""
import signal
import os, sys, time, random, subprocess, json, multiprocessing as mp, traceback, tempfile, resource, math
from fractions import Fraction as Q
import engine as G
import terms as T
import solver as S
import checks as C
from engine import Path, PathEnd, Fault, Engine, UNDEF
from llvmc import Module


class Ctx:
    """per-worker context: native confirmation and retry budgets"""

    def __init__(self, native, scratch, valgrind=None):
        self.native = native
        self.scratch = scratch
        self.valgrind = valgrind
        self.tries = {}
        self.good = {}
        self.harness = None
        self.nruns = 0
        self.slow = 0

    def may_try(self, label):
        k = (self.harness, label)
        return self.tries.get(k, 0) < 12 and self.good.get(k, 0) < 2

    def note(self, label, ok):
        k = (self.harness, label)
        self.tries[k] = self.tries.get(k, 0) + 1
        if ok:
            self.good[k] = self.good.get(k, 0) + 1

    def values(self, p, ev):
        out = []
        ufs = {}
        for kind, t, name in p.draws:
            if kind == 'i':
                out.append(('i', t, name))
            elif kind == 'b':
                d = p.bdom[t]
                out.append(('i', next((b for b in d if 97 <= b < 123), next((b for b in d if 32 < b < 127), d[0])), name))
            else:
                v = ev(t)
                if v != v or v in (T.INF, -T.INF):
                    return None
                if t.__class__ is T.Poly:
                    (m, c), = t.d.items()
                    a = T.ATOMS[m[0][0]]
                    if a.kind == 'uf':
                        key = (a.name,) + tuple(ev(x) for x in a.arg)
                        o = ufs.setdefault(key, v)
                        if o != v:
                            return None          # not a function
                out.append(('r', v, name))
        return out

    def run(self, vals, harness, tool=None, timeout=40):
        self.nruns += 1
        if self.slow >= 2:      # do not wait again and again
            timeout = 5
        d = tempfile.mkdtemp(dir=self.scratch)
        f = os.path.join(d, 'values')
        with open(f, 'w') as h:
            h.write('%s\n' % harness)
            for k, v, n in vals:
                h.write('%s %s %s\n' % (k, v if k == 'i' else float.hex(float(v)), n))
        exe = [self.native, f]
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=6000'
        env['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=98:print_stacktrace=0'
        if tool == 'valgrind':
            if not self.valgrind:
                return None
            exe = ['valgrind', '-q', '--error-exitcode=97', self.valgrind(), f]
        try:
            r = subprocess.run(exe, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
            out = r.stdout.decode('latin1')
            err = r.stderr.decode('latin1')
            rc = r.returncode
        except subprocess.TimeoutExpired:
            out, err, rc = '', 'timeout', -999
            self.slow += 1
        subprocess.run(['rm', '-rf', d])
        res = {'rc': rc, 'fail': None, 'end': None, 'logs': [], 'reach': [], 'err': err[-3000:], 'chk': 0, 'desync': False}
        for l in out.splitlines():
            if l.startswith('@FAIL '):
                res['fail'] = l[6:]
            elif l.startswith('@END '):
                res['end'] = l[5:]
            elif l.startswith('@LOG '):
                a = l[5:].rsplit(' ', 1)
                res['logs'].append((a[0], float.fromhex(a[1]) if 'nan' not in a[1] and 'inf' not in a[1] else float(a[1])))
            elif l.startswith('@REACH '):
                res['reach'].append(l[7:])
            elif l.startswith('@CHK'):
                res['chk'] += 1
            elif l.startswith('@DESYNC'):
                res['desync'] = True
        return res

    def confirm(self, p, ev, label, kind):
        vals = self.values(p, ev)
        if vals is None:
            return None
        r = self.run(vals, self.harness, 'valgrind' if kind == 'uninit' else None)
        if r is None or r['desync']:
            return None
        what = None
        if kind == 'hang' and r['rc'] == -999:
            what = 'the real code does not finish within 40 s'
        sig = r['rc'] in (-11, -6, -8, -4, -7)
        if r['fail'] is not None:
            what = 'assertion fails in the real code: ' + r['fail']
        elif r['rc'] == 97 and kind == 'uninit':
            what = 'valgrind reports use of an uninitialised value'
        elif kind not in ('assert', 'eq', 'le') and (r['rc'] in (99, 98) or sig):
            what = 'real code crashes (rc %d)' % r['rc']
        elif r['rc'] in (99, 98) or sig:
            what = 'real code crashes (rc %d)' % r['rc']
            kind = 'crash'
        elif r['end'] and r['end'].startswith('throw') and kind == 'throw':
            what = 'uncaught exception: ' + r['end']
        elif r['end'] and r['end'].startswith('exit') and kind == 'exit' and (not p.exit_ok or r['end'] == 'exit 0'):
            what = 'unexpected ' + r['end']
        if what is None:
            return None
        return {'harness': self.harness, 'label': r['fail'] or label, 'kind': kind, 'what': what, 'values': vals,
                'err': r['err'][-1500:], 'rc': r['rc']}


def run_path(eng, harness, prefix, deadline):
    p = Path(tuple(prefix))
    p.deadline = deadline
    G.P = p
    G.objs.clear()
    p.status = 'done'
    p.msg = ''
    try:
        # a loop that never asks about a symbolic value
        signal.setitimer(signal.ITIMER_REAL, max(2.0, deadline - time.time() + 3))
        if eng.snap is None:
            G.run_ctors(eng, p)
        p.nobj = eng.snap_nobj
        p.heap_live = eng.snap_live
        eng.fetch(harness)()
        signal.setitimer(signal.ITIMER_REAL, 0)
    except PathEnd as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        p.status, p.msg = e.kind, e.msg
        try:
            if e.kind == 'exit' and (not p.exit_ok or p.exit_ok == 2 and e.msg == 'exit(0)'):
                C.candidate('unexpected exit', 'exit', [])
                p.status = 'failed'
            elif e.kind == 'throw' and not p.throw_ok:
                C.candidate('uncaught exception ' + e.msg, 'throw', [])
                p.status = 'failed'
            elif e.kind == 'limit' and 'time' in e.msg:
                p.deadline = time.time() + 60
                C.hang()
                p.status = 'limit' if not p.viol else 'failed'
        except PathEnd as e2:
            p.status = e2.kind
    except Fault as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        p.status, p.msg = 'failed', '%s: %s' % (e.kind, e.msg)
        if os.environ.get('SYMX_DEBUG'):
            traceback.print_exc()
        try:
            C.fault(e)
        except PathEnd as e2:
            p.status = e2.kind
    except T.Giveup:
        p.status, p.msg = 'unsupported', 'term too large'
    except T.NeedSign:
        p.status, p.msg = 'unsupported', 'sign of a term times infinity'
    except RecursionError:
        p.status, p.msg = 'limit', 'recursion depth'
    except (TypeError, AttributeError, NameError, KeyError, IndexError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        p.status, p.msg = 'unsupported', 'operation on a symbolic value: %s at %s' % (str(e)[:120], [f.name for f in tb[-3:]])
        if os.environ.get('SYMX_DEBUG'):
            traceback.print_exc()
    signal.setitimer(signal.ITIMER_REAL, 0)
    return p


def out_of_time(sig, frame):
    raise PathEnd('limit', 'path time limit')


def worker(conn, eng, cfg):
    signal.signal(signal.SIGALRM, out_of_time)
    random.seed(cfg['seed'])
    eng.rng = random.Random(cfg['seed'] * 1000 + cfg['wid'])
    ctx = Ctx(cfg['native'], cfg['scratch'], cfg.get('valgrind'))
    C.CTX = ctx
    cov_done = {}
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            break
        if msg is None:
            break
        harness, prefixes, slice_s, hard = msg
        ctx.harness = harness
        stack = list(prefixes)
        t0 = time.time()
        S.STATS.__init__()
        out = {'harness': harness, 'paths': {}, 'viol': [], 'undis': [], 'checks': {}, 'reach': {}, 'wit': [], 'msgs': {},
               'forks': 0, 'ncheck': 0, 'nhold': 0, 'sample': None, 'validated': 0, 'mismatch': [], 'draws': 0}
        while stack and time.time() - t0 < slice_s and time.time() < hard:
            pre = stack.pop()
            p = run_path(eng, harness, pre, min(hard, time.time() + cfg['path_s']))
            for a, st in p.alts:
                stack.append(a)
            out['paths'][p.status] = out['paths'].get(p.status, 0) + 1
            if p.msg and p.status not in ('done', 'assume', 'infeasible', 'exit', 'throw'):
                out['msgs'][p.msg[:200]] = out['msgs'].get(p.msg[:200], 0) + 1
            out['forks'] += len(p.trail)
            out['ncheck'] += p.ncheck
            out['nhold'] += p.nhold
            for l in p.checks:
                out['checks'][l] = out['checks'].get(l, 0) + 1
            out['viol'] += p.viol
            out['undis'] += [(harness,) + u for u in p.undis]
            for l in p.reach:
                out['reach'][l] = out['reach'].get(l, 0) + 1
            # witness: replay reached paths natively
            if p.status in ('done', 'exit', 'throw') and not p.viol and not p.undis:
                key = (harness, frozenset(p.reach), p.status)
                n = cov_done.get(key, 0)
                if n < cfg['wit']:
                    cov_done[key] = n + 1
                    w = witness(ctx, p)
                    if w is not None:
                        out['wit'].append((sorted(p.reach), p.status, w[0]))
                        if w[0] == 'ok':
                            out['validated'] += 1
                        elif w[0] != 'nomodel':
                            out['mismatch'].append((harness, sorted(p.reach), w[0], w[1]))
                        if out['sample'] is None and w[0] == 'ok':
                            out['sample'] = {'harness': harness, 'decisions': len(p.trail), 'inputs': w[2],
                                             'checks': sorted(set(p.checks))[:12], 'path_condition': [str(c[0])[:100] + ' ' + c[1] + ' 0' for c in p.pc[:6]]}
            if len(out['viol']) > 20:
                break
        out['left'] = stack
        out['stats'] = S.STATS.asdict()
        out['encoded'] = sorted(eng.encoded)
        out['nruns'] = ctx.nruns
        ctx.nruns = 0
        out['time'] = time.time() - t0
        rss = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
        out['retire'] = rss > 2500000
        conn.send(out)
        if out['retire']:
            break
    conn.close()
    os._exit(0)


def witness(ctx, p):
    try:
        if not p.ensure_env():
            return ('nomodel', '', None)
        ev = p.ev
        vals = ctx.values(p, ev)
    except PathEnd:
        return ('nomodel', '', None)
    if vals is None:
        return ('nomodel', '', None)
    r = ctx.run(vals, ctx.harness)
    shown = ['%s=%s' % (n, v if k == 'i' else '%.6g' % v) for k, v, n in vals[:24]]
    if r['desync']:
        return ('desync', r['err'][-300:], shown)
    if r['fail']:
        return ('native-fail: ' + r['fail'], ' '.join(shown), shown)
    end = (r['end'] or 'rc %d %s' % (r['rc'], r['err'][-200:])).split(' ')[0]
    if end != p.status:
        return ('end %s instead of %s' % (end, p.status), r['err'][-300:] + ' '.join(shown), shown)
    if sorted(set(r['reach'])) != sorted(p.reach):
        return ('reach differs', str(r['reach']), shown)
    if len(r['logs']) != len(p.logs):
        return ('log count', '', shown)
    for (l1, v1), (l2, v2) in zip(r['logs'], p.logs):
        x = ev(v2) if v2 is not UNDEF else None
        if l1 != l2 or x is None:
            return ('log %s' % l1, '', shown)
        if x != x and v1 != v1:
            continue
        if not (abs(v1 - x) <= 1e-6 * max(abs(v1), abs(x), 1e-3)):
            return ('log %s: native %r symbolic %r' % (l1, v1, x), ' '.join(shown), shown)
    return ('ok', '', shown)


def explore(bitcode, harnesses, cfg, budget_s, nproc=8, progress=None):
    """run every harness to completion or until the budget ends"""
    M = Module(bitcode)
    M.threads = bool(cfg.get('threads'))
    eng = Engine(M)
    if M.threads:
        import threads
        threads.enable(eng)
    eng.tier = cfg.get('tier', 'quick')
    eng.rng = random.Random(cfg['seed'])
    missing = [h for h in harnesses if h not in M.funcs]
    if missing:
        raise RuntimeError('harness functions missing: %s' % missing)
    tend = time.time() + budget_s
    ctxm = mp.get_context('fork')
    pend = {h: [()] for h in harnesses}
    res = {h: {'paths': {}, 'viol': [], 'undis': [], 'checks': {}, 'reach': {}, 'wit': [], 'msgs': {}, 'forks': 0, 'ncheck': 0,
               'nhold': 0, 'samples': [], 'validated': 0, 'mismatch': [], 'left': 0, 'time': 0.0} for h in harnesses}
    stats = S.Stats()
    encoded = set()
    workers = []

    def spawn(i):
        a, b = ctxm.Pipe()
        c = dict(cfg)
        c['wid'] = i
        pr = ctxm.Process(target=worker, args=(b, eng, c), daemon=True)
        pr.start()
        b.close()
        return {'conn': a, 'proc': pr, 'busy': None, 'id': i}
    for i in range(nproc):
        workers.append(spawn(i))
    nid = nproc
    order = list(harnesses)
    rr = 0
    stop = False
    nruns = 0
    lost = []
    while True:
        now = time.time()
        # assign
        if not stop and now < tend:
            for w in workers:
                if w['busy'] is None:
                    # the harness with the fewest busy workers per pending work
                    cand = [h for h in order if pend[h]]
                    if not cand:
                        break
                    busy = {}
                    for x in workers:
                        if x['busy']:
                            busy[x['busy'][0]] = busy.get(x['busy'][0], 0) + 1
                    h = min(cand, key=lambda h: (busy.get(h, 0), order.index(h)))
                    n = max(1, min(len(pend[h]) // nproc, 40))
                    batch = pend[h][-n:]
                    del pend[h][-n:]
                    w['busy'] = (h, batch)
                    w['conn'].send((h, batch, cfg.get('slice', 1.0), tend))
        act = [w for w in workers if w['busy'] is not None]
        if not act:
            break
        ready = mp.connection.wait([w['conn'] for w in act] + [w['proc'].sentinel for w in act], timeout=5)
        for w in list(act):
            if w['conn'] in ready or w['proc'].sentinel in ready:
                try:
                    out = w['conn'].recv() if w['conn'].poll() else None
                except EOFError:
                    out = None
                if out is None:
                    if w['proc'].is_alive() and w['conn'] not in ready:
                        continue
                    # worker died: drop its batch
                    lost.append((w['busy'][0], 'worker ended unexpectedly'))
                    res[w['busy'][0]]['msgs']['worker died'] = 1
                    res[w['busy'][0]]['left'] += len(w['busy'][1])
                    workers.remove(w)
                    workers.append(spawn(nid))
                    nid += 1
                    continue
                h = out['harness']
                R = res[h]
                pend[h] += out['left']
                for k in ('paths', 'checks', 'reach', 'msgs'):
                    for a, b in out[k].items():
                        R[k][a] = R[k].get(a, 0) + b
                for k in ('viol', 'undis', 'wit', 'mismatch'):
                    R[k] += out[k]
                for k in ('forks', 'ncheck', 'nhold', 'validated', 'time'):
                    R[k] += out[k]
                if out['sample'] and len(R['samples']) < 2:
                    R['samples'].append(out['sample'])
                stats.add(out['stats'])
                encoded |= set(out['encoded'])
                nruns += out['nruns']
                w['busy'] = None
                if out['retire']:
                    w['proc'].join(5)
                    workers.remove(w)
                    workers.append(spawn(nid))
                    nid += 1
                if progress:
                    progress(res, pend)
                if sum(len(R['viol']) for R in res.values()) >= cfg.get('max_viol', 6):
                    stop = True
        if time.time() > tend + 100:
            break
    for w in workers:
        try:
            w['conn'].send(None)
        except (BrokenPipeError, OSError):
            pass
    for w in workers:
        w['proc'].join(1)
        if w['proc'].is_alive():
            w['proc'].kill()
    for h in harnesses:
        res[h]['left'] += len(pend[h])
    return res, stats.asdict(), encoded, {'native_runs': nruns, 'stopped': stop, 'lost': lost}
