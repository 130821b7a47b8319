#!/usr/bin/env python3
"""Development aid. usage: mkseed.py SPEC.py — SPEC defines name, prop, edits=[(file, old, new[, occ])], needs, breaks, demo (C++), optional flags.
Creates /verif/seeded/<name>/, validates it (demo passes unpatched, patched builds + tests pass, demo fails) and runs the checks."""
import sys, os, subprocess, tempfile, shutil, json
ns = {'flags': '', 'checks': None, 'san': '-fsanitize=address'}
exec(open(sys.argv[1]).read(), ns)
name = ns['name']; d = f'/verif/seeded/{name}'; os.makedirs(d, exist_ok=True)
T = tempfile.mkdtemp(prefix='seed')
R = T + '/repo'; shutil.copytree('/repo', R, symlinks=True)
for e in ns['edits']:
    f, old, new = e[:3]; occ = e[3] if len(e) > 3 else None
    s = open(f'{R}/{f}').read(); n = s.count(old)
    assert n, ('not found', f, old)
    assert n == 1 or occ is not None, ('ambiguous', f, old, n)
    i = -1
    for _ in range((occ or 0) + 1): i = s.index(old, i + 1)
    open(f'{R}/{f}', 'w').write(s[:i] + new + s[i + len(old):])
diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
open(d + '/patch.diff', 'w').write(diff)
open(d + '/demo.cpp', 'w').write(ns['demo'])
open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# exit 0 when the property holds on the tree in the current directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
clang++-18 -std=c++20 -fno-exceptions -fno-rtti -DRPP_RELWITHDEBINFO_BUILD -w -g -O1 {ns['san']} {ns['flags']} -I"$R" "$D/demo.cpp" "$R/rpp/impl/unify.cpp" "$R/rpp/pos/unify.cpp" -o "$T/demo" -lpthread || exit 1
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
''')
json.dump(dict(property=ns['prop'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(d + '/meta.json', 'w'), indent=1)
D = tempfile.mkdtemp(prefix='seeddemo')
for f in ('demo.sh', 'demo.cpp'): shutil.copy(d + '/' + f, D)
a = subprocess.run(['bash', D + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
print('demo unpatched:', a.returncode, (a.stdout + a.stderr)[-600:] if a.returncode else '')
b = subprocess.run(['bash', D + '/demo.sh'], cwd=R, capture_output=True, text=True)
print('demo patched:', b.returncode, (b.stdout + b.stderr)[:300])
c = subprocess.run(f'cmake -S {R} -B {T}/b -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/clang++-18 -DCMAKE_BUILD_TYPE=RelWithDebInfo -DRPP_TEST=ON && ninja -C {T}/b -j8 && ctest --test-dir {T}/b -j1 --timeout 40', shell=True, capture_output=True, text=True)
t = [l for l in c.stdout.splitlines() if 'tests passed' in l or '***' in l or 'error:' in l]
print('tests:', c.returncode, t[-4:])
for q in ns['checks'] or [ns['prop']]:
    p = subprocess.run(['python3-vt', '/verif/run.py', q], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=R))
    print('check', q, p.returncode, p.stdout.strip().splitlines()[:1], p.stdout.strip().splitlines()[-1:])
shutil.rmtree(T); shutil.rmtree(D)
