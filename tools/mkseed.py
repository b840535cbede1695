"""mkseed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS DEMO.cpp : makes seeded/ID from one textual replacement (FILE relative to include/HXLibs)"""
import sys, os, json, subprocess, shutil
def mk(id, prop, file, old, new, needs, breaks, demo, more=()):
    R = '/tmp/wt/r'; subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'], check=True); subprocess.run(['git', '-C', R, 'pull', '-q'], check=True)
    for f, o, n in [(file, old, new)] + list(more):
        p = R + '/include/HXLibs/' + f; s = open(p).read(); assert s.count(o) == 1, (f, s.count(o), o); open(p, 'w').write(s.replace(o, n))
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout; open(d + '/patch.diff', 'w').write(diff)
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds for the inputs below
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
clang++-20 -std=c++20 -O1 -w -pthread -fno-access-control -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=undefined -Iinclude -Ilib/liburing/include "$d/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && timeout 120 ./demo
''')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
