#!/usr/bin/env python3
"""Helper to write a planted bug: mkbug.bug(id, prop, needs, breaks, {file: [(old,new)]}, demo_c)
Writes /verif/seeded/<id>/{patch.diff,meta.json,demo.sh,demo.c}. Works on a scratch copy of /repo."""
import os, subprocess, json, shutil, tempfile
SH = '''#!/bin/bash
# Exit 0 when the behaviour is right, nonzero when it is not.  Run with cwd /repo.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf -- "${T:?}"' EXIT
gcc -O1 -w -I c/graphLib -o "$T/demo" "$D/demo.c" $(find c/graphLib -name '*.c') -lm || exit 2
cd "$T" && timeout 200 ./demo
'''
def bug(id, prop, needs, breaks, edits, demo_c, sh=SH, extra={}):
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mkbug')
    subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
    for f, subs in edits.items():
        p = t + '/r/c/' + f
        s = open(p, newline='').read(); crlf = '\r\n' in s; s = s.replace('\r\n', '\n')
        for o, n in subs:
            assert s.count(o) == 1, (id, f, s.count(o), o)
            s = s.replace(o, n)
        if crlf: s = s.replace('\n', '\r\n')
        open(p, 'w', newline='').write(s)
    df = subprocess.check_output(['git', '-C', t + '/r', 'diff'])
    open(d + '/patch.diff', 'wb').write(df)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write(sh); os.chmod(d + '/demo.sh', 0o755)
    if demo_c: open(d + '/demo.c', 'w').write(demo_c)
    for k, v in extra.items(): open(d + '/' + k, 'w').write(v)
    shutil.rmtree(t)
