"""tools/mkseed.py ID... | --all [--check] [--keep]: (re)generates seeded/<ID> from seed_defs.py against /repo's HEAD and
confirms in a scratch copy that the demonstration passes without and fails with the change; --check also runs the
property's check (VERIF_REPO = the changed scratch copy)"""
import re, sys, os, subprocess, json, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seed_defs import SEEDS, PRELUDE, GROUPS

DEMO = '''#!/bin/sh
# run in the repository: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
%s
g++ -std=gnu++11 -O1 -w %s "$here/demo.cpp" %s -o "$tmp/demo" %s || exit 2
cd "$tmp" && timeout 120 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def scratch():
    d = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    subprocess.check_call('git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -Af && '
                          'git -c user.email=a@b -c user.name=a commit -qm base' % (d, d), shell=True)
    return d


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    if '--all' in sys.argv:
        ids = list(SEEDS)
    ok = True
    for i in ids:
        s = SEEDS[i]
        out = '/verif/seeded/' + i
        os.makedirs(out, exist_ok=True)
        incs = ' '.join('-I"$PWD/%s"' % x for x in GROUPS['inc'] + s.get('inc', []))
        srcs = ' '.join('"$PWD/Source/%s"' % x for g in s['groups'] for x in GROUPS[g])
        open(out + '/demo.cpp', 'w').write(PRELUDE + s['demo'])
        for n, t in s.get('extra', {}).items():
            os.makedirs(os.path.dirname(out + '/' + n), exist_ok=True)
            open(out + '/' + n, 'w').write(t)
        open(out + '/demo.sh', 'w').write(DEMO % (s.get('pre', ''), incs + ' ' + s.get('cflags', ''), srcs, s.get('libs', '')) if 'sh' not in s else s['sh'])
        os.chmod(out + '/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
        d = scratch()
        try:
            a = sh('sh %s/demo.sh' % out, cwd=d)
            for f, old, new in s['edits']:
                p = d + '/Source/' + f
                t = open(p).read()
                assert t.count(old) == 1, (i, f, old, t.count(old))
                open(p, 'w').write(t.replace(old, new))
            for f in {e[0] for e in s['edits']}:
                bl = sh('git -C /repo blame -s --abbrev=10 HEAD -- Source/' + f).stdout.splitlines()
                for l in sh('git diff -U0 -- Source/' + f, cwd=d).stdout.splitlines():
                    m = re.match(r'@@ -(\d+)(?:,(\d+))?', l)
                    if m:
                        for k in range(int(m.group(1)), int(m.group(1)) + int(m.group(2) or 1)):
                            if not bl[k - 1].startswith('^'):
                                print(i, 'NOT ORIGINAL', bl[k - 1])
            open(out + '/patch.diff', 'w').write(sh('git diff', cwd=d).stdout)
            b = sh('sh %s/demo.sh' % out, cwd=d)
            ap = sh('git -C /repo apply --check %s/patch.diff' % out)
            good = a.returncode == 0 and b.returncode not in (0, 2) and ap.returncode == 0
            msg = '%s %s demo clean %d, planted %d' % (i, 'ok' if good else 'BAD', a.returncode, b.returncode)
            if not good:
                msg += '\n' + a.stdout[-800:] + a.stderr[-1500:] + '\n--\n' + b.stdout[-500:] + b.stderr[-1500:] + ap.stderr
                ok = False
            else:
                msg += '   ' + (b.stderr or b.stdout).strip()[-120:]
            print(msg, flush=True)
            if '--check' in sys.argv and good:
                c = sh('timeout 900 python3-vt /verif/check.py %s' % s['prop'], env=dict(os.environ, VERIF_REPO=d), cwd='/verif')
                v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
                print('    check %s exit %d %s' % (s['prop'], c.returncode, 'CAUGHT' if c.returncode == 1 and v else 'MISSED ' + c.stdout[-600:] + c.stderr[-300:]), flush=True)
        finally:
            shutil.rmtree(d)
    sys.exit(not ok)


main()
