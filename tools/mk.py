#!/usr/bin/env python3
"""mk.py: create /verif/seeded/<id> from a spec file (python dict list).
Each spec: id, property, file, edits [(old,new)] (old must be unique), demo (python text), needs, breaks."""
import subprocess, sys, os, json, shutil
S = '/tmp/mk.scr'
def make(id, prop, edits, demo, needs, breaks):
    subprocess.run(['rm', '-rf', '/tmp/mk.scr'], check=True)
    subprocess.run(['git', 'clone', '-q', '/repo', S], check=True)
    for f, old, new in edits:
        p = os.path.join(S, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', S, 'diff'], capture_output=True, text=True).stdout
    assert diff
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0 when the property holds\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 SPECULA_DISABLE_GPU=TRUE exec /opt/venv/bin/python "$d/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    subprocess.run(['rm', '-rf', '/tmp/mk.scr'], check=True)
    print('made', id)
ns = {'make': make}
exec(open(sys.argv[1]).read(), ns)
