#!/usr/bin/env python3-vt
"""decide one property of /repo's current source:  check.py <ID> [--replay FILE]

Builds the property's harnesses together with the repository sources to LLVM IR (executed
symbolically, assertions decided by the SMT solver) and to a native sanitised binary (every
counterexample is replayed there before it is reported).
"""
import os, sys, time, json, tempfile, shutil, hashlib
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'symx'))
sys.setrecursionlimit(20000)
import build, explore, spec
from llvmc import Module


def known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                d = {}
                for part in l[6:].split(' | '):
                    k, _, v = part.strip().partition('=')
                    d[k] = v
                out.append(d)
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    if pid == '--selftest':
        import z3
        x = z3.Real('x')
        s = z3.Solver()
        s.add(x * x < 0)
        ok = s.check() == z3.unsat
        for t in ('clang++', 'llvm-link', 'opt', 'g++', 'valgrind'):
            ok = ok and any(shutil.which(n) for n in (t, t + '-18'))
        print('toolchain %s' % ('ok' if ok else 'MISSING'))
        return 0 if ok else 2
    only = [a for a in sys.argv[2:] if not a.startswith('-')]
    replay = None
    if '--replay' in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        only = []
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ['VERIF_TIER'] = tier
    sp = spec.SPEC[pid]
    work = tempfile.mkdtemp(prefix='vf_%s_' % pid, dir=os.environ.get('VF_TMP', '/tmp'))
    if os.environ.get('QED_TABLES_PATH'):
        del os.environ['QED_TABLES_PATH']
    try:
        return run(pid, sp, tier, seed, work, t0, only, replay)
    finally:
        if os.environ.get('VF_KEEP') is None:
            shutil.rmtree(work, ignore_errors=True)


def run(pid, sp, tier, seed, work, t0, only, replay):
    budget = sp.get('budget', {}).get(tier, 100 if tier == 'quick' else 3000)
    tot = {'paths': {}, 'forks': 0, 'ncheck': 0, 'nhold': 0, 'validated': 0}
    cov = {'harnesses': {}, 'functions_encoded': set(), 'solver': {}, 'undischarged': [], 'unsupported': {},
           'witness_mismatches': [], 'native_runs': 0}
    samples, viol = [], []
    left = 0
    jobs = sp['jobs']
    if replay:
        jobs = [jobs[replay['job']]]
    built = []
    for k, job in enumerate(jobs):
        if tier == 'quick' and job.get('thorough_only'):
            continue
        w = os.path.join(work, 'j%d' % k)
        os.mkdir(w)
        bc, nat, vg = build.build(w, job['h'], job['groups'], job.get('defs', ()), per_file=job.get('per_file'), threads=job.get('threads', False))
        built.append((k, job, w, bc, nat, vg))
    tb = time.time() - t0
    if replay:
        k, job, w, bc, nat, vg = built[0]
        ctx = explore.Ctx(nat, w, vg)
        r = ctx.run([tuple(v) for v in replay['values']], replay['harness'], 'valgrind' if replay['kind'] == 'uninit' else None)
        print(json.dumps(r, indent=1))
        return 0
    tstart = time.time()
    for n, (k, job, w, bc, nat, vg) in enumerate(built):
        M = Module(bc)
        hs = [h for h in M.funcs if h.startswith('q_') or (tier == 'thorough' and h.startswith('t_'))]
        del M
        if only:
            hs = [h for h in hs if h in only]
        if not hs:
            continue
        remain = budget - (time.time() - tstart)
        share = remain / (len(built) - n)
        cfg = {'native': nat, 'valgrind': vg, 'scratch': w, 'seed': seed, 'path_s': job.get('path_s', 40 if tier == 'quick' else 200), 'wit': 2,
               'tier': tier, 'max_viol': 3, 'threads': job.get('threads', False)}
        cfg.update(job.get('cfg', {}))
        res, st, enc, misc = explore.explore(bc, sorted(hs), cfg, max(10, share), nproc=int(os.environ.get('VF_NPROC', os.cpu_count() or 4)))
        for h in sorted(hs):
            R = res[h]
            for a, b in R['paths'].items():
                tot['paths'][a] = tot['paths'].get(a, 0) + b
            for f in ('forks', 'ncheck', 'nhold', 'validated'):
                tot[f] += R[f]
            cov['harnesses'][job['h'] + ':' + h] = {
                'paths': R['paths'], 'unexplored_prefixes': R['left'], 'assertions_checked': R['ncheck'], 'assertions_discharged': R['nhold'],
                'assertion_labels': R['checks'], 'reached': R['reach'], 'witnesses_validated': R['validated'], 'cpu_s': round(R['time'], 1)}
            left += R['left']
            for v in R['viol']:
                v['job'] = k
                viol.append(v)
            cov['undischarged'] += [list(u) for u in R['undis']]
            for m, c in R['msgs'].items():
                cov['unsupported'][h + ': ' + m] = c
            cov['witness_mismatches'] += [[str(x)[:300] for x in m] for m in R['mismatch']][:5]
            samples += R['samples'][:2]
        for a, b in st.items():
            if isinstance(b, (int, float)):
                cov['solver'][a] = cov['solver'].get(a, 0) + b
        cov['functions_encoded'] |= set(enc)
        cov['native_runs'] += misc['native_runs']
        if misc['lost']:
            cov.setdefault('lost_workers', []).extend(misc['lost'])
        if viol:
            break
    import subprocess
    names = sorted(cov['functions_encoded'])
    dem = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True).stdout.splitlines()
    own = [d for d in dem if not d.startswith(('std::', '__gnu', 'void std::', 'bool std::', 'vf_', 'q_', 't_', 'operator new', '__'))]
    cov['functions_encoded'] = [d[:140] for d in own][:200]
    cov['functions_encoded_total'] = len(names)
    cov['bounds'] = sp['bounds']
    cov['outside_bounds'] = sp.get('outside', '')
    cov['oracle'] = sp.get('oracle', '')
    cov['build_s'] = round(tb, 1)
    nund = len(cov['undischarged'])
    cov['undischarged_total'] = nund
    cov['undischarged'] = cov['undischarged'][:20]
    bad = sum(tot['paths'].get(s, 0) for s in ('unsupported', 'limit', 'timeout'))
    cov['complete'] = bool(left == 0 and nund == 0 and bad == 0 and not viol)
    cov['states'] = sum(tot['paths'].values())
    cov['transitions'] = tot['forks']
    cov['traces_validated_against_impl'] = tot['validated']
    cov['assertions_checked'] = tot['ncheck']
    cov['assertions_discharged'] = tot['nhold']
    cov['path_outcomes'] = tot['paths']
    cov['samples'] = samples[:8] or [{'note': 'no path completed with a natively validated witness in this run'}]
    kn = known()
    new, old = [], {}
    for v in viol:
        hit = None
        for k in kn:
            if k.get('property') == pid and k.get('harness') == v['harness'] and k.get('label') == v['label']:
                hit = k
        if hit:
            old.setdefault(hit['harness'] + ' ' + hit['label'], hit)
        else:
            new.append(v)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': spec.COMMON + sp.get('assumes', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    for h in old.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, h.get('what', h['label'])))
    rc = 0
    if new:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for v in new:
            key = (v['harness'], v['label'])
            if key in seen:
                continue
            seen.add(key)
            f = os.path.join(rd, '%s-%s.json' % (pid, hashlib.sha1(repr(key).encode()).hexdigest()[:8]))
            json.dump(v, open(f, 'w'), indent=1, default=str)
            print('%s: %s: %s' % (v['harness'], v['label'], v['what']))
            for kk, x, nm in v['values'][:30]:
                print('    %s = %s' % (nm, x))
            print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(f, VERIF)))
        rc = 1
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d paths %s, %d/%d assertions discharged, %d queries, %.1f s solver, %d witnesses replayed, %d undischarged, %d left, %.1f s'
          % (pid, tier, cov['states'], tot['paths'], tot['nhold'], tot['ncheck'], cov['solver'].get('queries', 0), cov['solver'].get('time', 0),
             tot['validated'], nund, left, time.time() - t0))
    for m, c in list(cov['unsupported'].items())[:5]:
        print('   note: %s (%d)' % (m, c))
    for u in cov['undischarged'][:5]:
        print('   undischarged: %s' % u)
    for u in cov['witness_mismatches'][:5]:
        print('   witness mismatch: %s' % u)
    return rc


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
