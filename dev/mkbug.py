"""dev/mkbug.py: writes seeded/<id>/ from a spec: id, property, file edits, demo source.
usage: from dev.mkbug import bug"""
import os, subprocess, json, tempfile, shutil

DEMO = '''#!/bin/bash
# exit 0 if the property holds
set -u
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d /tmp/demo-XXXXXX); trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O1 -w -I"$PWD/include" %(flags)s -o "$t/demo" "$d/demo.cpp" %(srcs)s -lfmt %(libs)s || exit 3
cd "$t" && timeout 120 ./demo
'''


def bug(id, prop, edits, demo, needs, breaks, srcs=(), libs='', flags=''):
    d = os.path.join('/verif/seeded', id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='mkbug-', dir='/tmp')
    diff = ''
    subprocess.run(['git', 'clone', '-q', '--shared', '/repo', w + '/r'], check=True)
    for f, a, b in edits:
        p = os.path.join(w, 'r', f)
        s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    diff = subprocess.run(['git', '-C', w + '/r', 'diff'], capture_output=True, text=True).stdout
    shutil.rmtree(w)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO % dict(srcs=' '.join(f'"$PWD/{s}"' for s in srcs), libs=libs, flags=flags))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
