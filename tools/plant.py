"""Development helper: makes and confirms one planted bug (seeded/<id>/).
usage: plant.py SPEC.py   where SPEC defines id, property, needs, breaks, edits=[(file, old, new[, occurrence])], demo (shell text run in a scratch directory
with hlc in ./bin), files={name: text}. Applies it to /repo, builds, runs the tests and the demo, and undoes it."""
import json, os, subprocess, sys
R = '/repo'
HEAD = '''#!/bin/bash
# run in /repo after the build: exit 0 when the compiler is right
D=$(cd "$(dirname "$0")" && pwd)
. /opt/hlc/env.sh
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir "$W/bin"
cp _build/bin/hlc.exe "$W/bin/"
cp -r implicit "$W/bin/implicit"
cp "$D"/* "$W/" 2>/dev/null
cd "$W"
hlc() { timeout 60 wine bin/hlc.exe "$@" > hlc.log 2>&1 < /dev/null; }
run() { timeout 60 wine "$@" < /dev/null; }
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main(spec):
    g = {}
    exec(open(spec).read(), g)
    d = '/verif/seeded/' + g['id']
    os.makedirs(d, exist_ok=True)
    for n, t in g['files'].items():
        open(d + '/' + n, 'w').write(t)
    open(d + '/demo.sh', 'w').write(HEAD + g['demo'].strip() + '\n')
    os.chmod(d + '/demo.sh', 0o755)
    assert not sh('git -C /repo status --porcelain').stdout, 'dirty'
    sh('bash /opt/vp/build.sh')
    r = sh('bash %s/demo.sh' % d, cwd=R)
    ok0 = r.returncode == 0
    print('clean demo:', r.returncode, r.stdout.decode()[-300:] if not ok0 else '')
    try:
        for e in g['edits']:
            p = R + '/' + e[0]
            s = open(p).read()
            n = s.count(e[1])
            k = e[3] if len(e) > 3 else 0
            assert n == 1 or len(e) > 3, (n, e[1])
            i = -1
            for _ in range(k + 1):
                i = s.index(e[1], i + 1)
            s = s[:i] + e[2] + s[i + len(e[1]):]
            open(p, 'w').write(s)
        patch = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'wb').write(patch)
        b = sh('bash /opt/vp/build.sh')
        assert b.returncode == 0, b.stdout.decode()[-800:]
        r = sh('bash %s/demo.sh' % d, cwd=R)
        print('bug demo:', r.returncode)
        sh('bash /opt/vp/test.sh /tmp/o.json')
        bl = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        miss = bl - set(json.load(open('/tmp/o.json'))['passed'])
        print('tests missing:', sorted(miss)[:5])
        good = ok0 and r.returncode != 0 and not miss
        # blame: the changed lines must be original
        json.dump({'property': g['property'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        det = ''
        if good and '--nocheck' not in sys.argv:
            for pid in [g['property']]:
                c = sh('python3 run.py %s' % pid, cwd='/verif', env=dict(os.environ, VERIF_MAX_FAIL='2', VERIF_SEED='1'))
                det = '%s exit %d' % (pid, c.returncode)
                print('check:', det, c.stdout.decode()[-400:])
        print('RESULT', g['id'], 'COUNTS' if good else 'NO')
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')


main(sys.argv[1])
