#!/usr/bin/env python3
"""mkseed.py ID: turns /tmp/sw's diff and /tmp/demo/ID.cpp into /verif/seeded/ID after confirming it.
The edit is given as a python file /tmp/demo/ID.py defining META (property, needs, what_it_breaks) and EDITS [(file, old, new[, count])]."""
import json, os, re, shutil, subprocess, sys
ID = sys.argv[1]
V = '/verif'
SW = '/tmp/sw'
src = {}
exec(open('/tmp/demo/%s.py' % ID).read(), src)
if not os.path.isdir(SW):
    subprocess.check_call(['cp', '-a', '/repo', SW])
subprocess.check_call(['git', '-C', SW, 'fetch', '-q', '/repo', 'HEAD'])
subprocess.check_call(['git', '-C', SW, 'reset', '-q', '--hard', 'FETCH_HEAD'])
D = '%s/seeded/%s' % (V, ID)
shutil.rmtree(D, ignore_errors=True)
os.makedirs(D)
demo = open('/tmp/demo/%s.cpp' % ID).read() if os.path.exists('/tmp/demo/%s.cpp' % ID) else open('/tmp/demo/%s.cpp' % src['DEMO']).read()
open(D + '/demo.cpp', 'w').write(demo)
shutil.copytree(V + '/stubs', D + '/stubs')
for h in re.findall(r'#include "([a-z]+\.h)"', demo) + ['common.h']:
    shutil.copy(V + '/replay/' + h, D)
srcs = ' '.join(l.split(':', 1)[1].strip() for l in demo.splitlines() if l.startswith('// SOURCES:'))
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# run in the repository's root; exit 0 when the property holds for this demonstration
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
F="-O1 -std=c++20 -w -Wno-c++11-narrowing -march=haswell -mno-avx512f -maes -mrdseed -include cstring -include cstdint -include functional -include stdexcept -include vector -I. -I$D/stubs -I$D"
n=0
for s in "$D/demo.cpp" %s; do
  n=$((n+1))
  clang++ $F -c "$s" -o "$W/$n.o" &
done
wait
clang++ "$W"/*.o -o "$W/demo" -lfmt -lpthread -lcrypto -lssl -lre2 || exit 3
(cd "$W" && timeout 120 ./demo)
''' % srcs)
os.chmod(D + '/demo.sh', 0o755)
json.dump(src['META'], open(D + '/meta.json', 'w'), indent=1)


def demo_rc():
    p = subprocess.run(['bash', D + '/demo.sh'], cwd=SW, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode()[-1500:]


r0, o0 = demo_rc()
for e in src['EDITS']:
    f, old, new = e[:3]
    s = open(SW + '/' + f).read()
    c = s.count(old)
    assert c >= 1 and (len(e) > 3 or c == 1), (f, c, old)
    if len(e) > 3:
        parts = s.split(old)
        k = e[3]
        s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
    else:
        s = s.replace(old, new)
    open(SW + '/' + f, 'w').write(s)
patch = subprocess.check_output(['git', '-C', SW, 'diff'])
open(D + '/patch.diff', 'wb').write(patch)
r1, o1 = demo_rc()
subprocess.check_call(['git', '-C', SW, 'reset', '-q', '--hard', 'FETCH_HEAD'])
print(ID, 'clean', r0, 'patched', r1)
if r0 != 0:
    print('CLEAN OUTPUT', o0)
print(o1[-600:])
sys.exit(0 if r0 == 0 and r1 not in (0, 3) else 1)
