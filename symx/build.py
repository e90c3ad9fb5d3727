"""compile harness + repository sources to bitcode and to a native replay binary"""
import os, subprocess, hashlib, glob, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'


def includes():
    out = []
    for d, dn, fn in os.walk(os.path.join(REPO, 'Source')):
        dn.sort()
        if os.path.basename(d) == 'Geant':
            dn[:] = []
            continue
        if any(f.endswith(('.hh', '.h', '.hpp')) for f in fn):
            out.append('-I' + d)
    return out


SRC = {
    'tools': ['Tools/MCTools.cpp', 'Tools/Numerics.cpp', 'Tools/UnitsSystem.cpp'],
    'particles': ['Particles/Particle.cpp', 'Particles/Lepton.cpp', 'Particles/Photon.cpp', 'Particles/ParticleList.cpp'],
    'source': ['Particles/SourceGenerator.cpp'],
    'fields': ['Physics/Fields/EMField/StaticEMField.cpp', 'Physics/Fields/EMField/PlaneEMField.cpp',
               'Physics/Fields/EMField/GaussianEMField.cpp', 'Physics/Fields/EMField/FocusingField.cpp'],
    'pushers': ['Physics/ParticlePushers/ParticlePusher.cpp', 'Physics/ParticlePushers/LorentzPusher.cpp',
                'Physics/ParticlePushers/LandauPusher.cpp', 'Physics/ParticlePushers/ModifiedLandauPusher.cpp'],
    'processes': ['Physics/Processes/PhotonEmission.cpp', 'Physics/Processes/ContinuousEmission.cpp',
                  'Physics/Processes/StochasticEmission.cpp', 'Physics/Processes/NonLinearBreitWheeler.cpp'],
    'input': ['IO/Input/FileParser.cpp', 'IO/Input/INIReader.cpp', 'IO/Input/ini.cpp'],
    'ini': ['IO/Input/ini.cpp'],
    'reader': ['IO/Input/INIReader.cpp', 'IO/Input/ini.cpp'],
    'hist': ['IO/Output/Histogram.cpp'],
    'output': ['IO/Output/HDF5Output.cpp', 'IO/Output/Histogram.cpp', 'IO/Output/OutputManager.cpp'],
    'main': ['Exec/QEDCASC.cpp'],
    'python': ['Python/RunManager.cpp'],
    'bindings': ['Python/QEDCascPy-Bindings.cpp'],
}


def sources(groups):
    """the group's files, plus any new source file a change may have added beside them"""
    out = []
    dirs = set()
    for g in groups:
        for f in SRC[g]:
            p = os.path.join(REPO, 'Source', f)
            if os.path.exists(p):
                out.append(p)
    known = {os.path.join(REPO, 'Source', f) for l in SRC.values() for f in l}
    skip = {'test.cpp', 'QEDCascPy-Bindings.cpp'}
    for g in groups:
        for f in SRC[g]:
            dirs.add(os.path.dirname(os.path.join(REPO, 'Source', f)))
    for d in sorted(dirs):
        if os.path.basename(d) in ('Exec', 'Python'):
            continue
        for p in sorted(glob.glob(d + '/*.cpp')):
            if p not in known and os.path.basename(p) not in skip:
                out.append(p)
    return out


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(' '.join(cmd[:3]) + ' ...\n' + r.stdout.decode('latin1')[-4000:])


def build(work, harness, groups, defs=(), valgrind=False, per_file=None, threads=False):
    """returns (bitcode, native binary, valgrind builder)"""
    inc = includes()
    files = [(os.path.join(VERIF, 'h', harness), True)] + [(s, False) for s in sources(groups)]
    per_file = per_file or {}
    jobs = []
    bcs, objs, vobjs = [], [], []
    D = ['-D' + d for d in defs] + ['-I' + REPO]
    if threads:
        D += ['-DVF_THREADS']
    for i, (f, h) in enumerate(files + [(VERIF + '/rt/sym/rt.cpp', True), (VERIF + '/rt/rng_default.cpp', True)]):
        o = '%s/s%d.bc' % (work, i)
        bcs.append(o)
        extra = per_file.get(os.path.basename(f), [])
        jobs.append([LLVM + 'clang++', '-std=gnu++11', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
                     '-ffp-contract=off', '-fno-math-errno', '-fno-pic', '-fno-pie', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DVF_SYM', '-emit-llvm', '-w', '-c', '-g0',
                     '-fno-strict-aliasing', '-fno-builtin-printf'] + (['-fopenmp'] if threads else []) + [ '-I' + VERIF + '/rt/sym', '-I' + VERIF + '/rt/common'] + inc + D + extra + [f, '-o', o])
    nfl = ['-std=gnu++11', '-w', '-g', '-DVF_NATIVE', '-I' + VERIF + '/rt/common', '-fno-strict-aliasing']
    RT = [VERIF + '/rt/native.cpp', VERIF + '/rt/native_omp.cpp', VERIF + '/rt/rng_default.cpp']
    for i, (f, h) in enumerate(files + [(r, True) for r in RT if threads or r != RT[1]]):
        o = '%s/n%d.o' % (work, i)
        objs.append(o)
        extra = per_file.get(os.path.basename(f), [])
        if threads:
            jobs.append(([LLVM + 'clang++', '-O0', '-fsanitize=thread', '-fopenmp', '-pthread'] if f not in RT else ['g++', '-O1', '-pthread']) +
                        ['-c'] + nfl + inc + D + extra + [f, '-o', o])
            continue
        jobs.append(['g++', '-O0', '-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero', '-fno-sanitize=vptr', '-fno-omit-frame-pointer',
                     '-c'] + nfl + inc + D + extra + [f, '-o', o])
    with ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(run, j) for j in jobs]:
            f.result()
    bc = work + '/all.bc'
    run([LLVM + 'llvm-link', '-o', bc] + bcs)
    nat = work + '/native'
    if threads:
        run(['g++', '-pthread', '-rdynamic', '-Wl,--wrap=exit,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=__cxa_guard_release', '-o', nat] +
            objs + ['-ldl'])
        return bc, nat, None
    run(['g++', '-fsanitize=address,undefined', '-rdynamic', '-Wl,--wrap=exit', '-o', nat] + objs + ['-ldl'])

    def vg():
        exe = work + '/native_vg'
        if os.path.exists(exe):
            return exe
        tmp = '%s/vg%d' % (work, os.getpid())
        os.mkdir(tmp)
        vo = []
        for i, (f, h) in enumerate(files + [(VERIF + '/rt/native.cpp', True), (VERIF + '/rt/rng_default.cpp', True)]):
            o = '%s/v%d.o' % (tmp, i)
            vo.append(o)
            run(['g++', '-O0', '-c'] + nfl + inc + D + per_file.get(os.path.basename(f), []) + [f, '-o', o])
        run(['g++', '-rdynamic', '-Wl,--wrap=exit', '-o', tmp + '/exe'] + vo + ['-ldl'])
        os.rename(tmp + '/exe', exe)
        return exe
    return bc, nat, vg
