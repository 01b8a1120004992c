#!/usr/bin/env python3
"""seed.py SPEC.py [ID...]: write and confirm planted bugs.

SPEC.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new[, nth])], needs, breaks, flags, demo (C++ source).
A change is kept in /verif/seeded/<id> only when it builds, the stable tests pass with it, and its demonstration
succeeds without it and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
spec = {}
exec(open(sys.argv[1]).read(), spec)
want = sys.argv[2:]
base = json.load(open('/opt/vp/BASELINE.json'))['stable']


def sh(cmd, cwd, t=300):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def one(s):
    sid = s['id']
    os.makedirs('/tmp/w/cache', exist_ok=True)
    d = tempfile.mkdtemp(prefix='plant_')
    try:
        r = d + '/repo'
        sh(f'git -C /repo worktree list >/dev/null; git clone -q /repo {r}', '/')
        out = d + '/seeded'
        os.makedirs(out)
        open(out + '/demo.cc', 'w').write(s['demo'].lstrip('\n'))
        libs = s.get('flags', '')
        open(out + '/demo.sh', 'w').write(f'''#!/bin/bash
# run in the source tree; exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -r "$t"' EXIT
g++ -std=c++14 -w -O1 -I"$PWD" "$d/demo.cc" -o "$t/demo" {libs} || exit 3
timeout 60 "$t/demo"
''')
        os.chmod(out + '/demo.sh', 0o755)
        rc, o = sh(f'bash {out}/demo.sh', r)
        if rc:
            return sid, f'demo fails on the clean tree ({rc}): {o[-600:]}'
        for e in s['edits']:
            p = f'{r}/{e[0]}'
            t = open(p).read()
            n = t.count(e[1])
            if n == 0 or (n > 1 and len(e) < 4):
                return sid, f'{n} matches in {e[0]} of {e[1][:60]!r}'
            if len(e) > 3:
                i = -1
                for _ in range(e[3]):
                    i = t.index(e[1], i + 1)
                t = t[:i] + e[2] + t[i + len(e[1]):]
            else:
                t = t.replace(e[1], e[2])
            open(p, 'w').write(t)
        rc, diff = sh('git diff', r)
        open(out + '/patch.diff', 'w').write(diff)
        rc, o = sh(f'bash {out}/demo.sh', r)
        if rc in (0, 3):
            return sid, f'demo does not fail with the change ({rc}) {o[-300:]}'
        # the original repository's lines only
        for l in diff.splitlines():
            pass
        rc, o2 = sh(f'''rm -rf {d}/b; mkdir {d}/b; for t in {' '.join(b.split('/')[1] for b in base)}; do echo $t; done > {d}/list; cat > {d}/one.sh <<'X'
n=$1; f="-g -O2 -O3 -w -I. -DTOON_USE_LAPACK -DTOON_CHECK_BOUNDS -DTOON_INITIALIZE_SNAN"
k=$(g++ $f -E tests/$n.cc 2>&1 | grep -v '^#' | sha256sum | cut -c1-32); c=/tmp/w/cache/$k
if [ ! -e $c ]; then
g++ $f tests/$n.cc -o {d}/b/$n -llapack 2>{d}/b/$n.err && timeout 200 {d}/b/$n > {d}/b/$n.out 2>{d}/b/$n.stderr < /dev/null || echo 'Crash!!!' > {d}/b/$n.out
[ -x {d}/b/$n ] || echo 'Compile error!' > {d}/b/$n.out
cp {d}/b/$n.out $c
fi
cp $c {d}/b/$n.out
timeout 60 awk -vname="$n" -f tests/numdiff.awk -vf1={d}/b/$n.out -vf2=tests/$n.txt
X
xargs -P8 -I{{}} bash {d}/one.sh {{}} < {d}/list''', r, 600)
        bad = [b for b in base if (b.split('/')[1] + ' Passed') not in o2]
        if bad:
            return sid, f'stable tests fail: {bad}'
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        dst = '/verif/seeded/' + sid
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(out, dst)
        return sid, f'kept'
    finally:
        shutil.rmtree(d)


for s in spec['SEEDS']:
    if not want or s['id'] in want:
        print(*one(s), flush=True)
