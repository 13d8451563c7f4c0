"""seed(id, prop, file, [(old, new[, count])], demo C++ source, library sources, needs, breaks): writes seeded/<id>/"""
import os, subprocess, json, tempfile
def seed(id, prop, edits, demo, srcs, needs, breaks, libs='-ldl -lrt', sh=None, cxx='-O1'):
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'], check=True)
    try:
        for f, old, new in edits:
            p = w + '/r/' + f; s = open(p, newline='', encoding='latin1').read()
            old, new = [x.replace('\n', '\r\n') if '\r\n' in s and '\r\n' not in x else x for x in (old, new)]
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w', newline='', encoding='latin1').write(s.replace(old, new))
        df = subprocess.run(['git', '-C', w + '/r', 'diff'], capture_output=True).stdout
        open(d + '/patch.diff', 'wb').write(df)
    finally:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r']); os.rmdir(w)
    if demo: open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(sh or '''#!/bin/bash
# run with cwd = repository root
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++11 %s -g -pthread -I. -o "$t/demo" "$d/demo.cpp" %s %s || exit 3
cd "$t" && timeout -k 5 60 "$t/demo"
''' % (cxx, ' '.join(srcs), libs))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
