#!/usr/bin/env python3
"""mut.py [FILTER]: regression of the checks on small edits of a scratch copy.
Specs in tools/mutants.py: M(check, expected, file, old, new) with expected
'V' (violation) or 'Q' (quiet)."""
import os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = []
def M(check, exp, *edits):
    if len(edits) == 3 and isinstance(edits[0], str):
        edits = (tuple(edits),)
    SPECS.append((check, exp, edits))
exec(open(os.environ.get('MUT_SPECS', os.path.join(V, 'tools', 'mutants.py')), encoding='utf-8').read())
flt = sys.argv[1] if len(sys.argv) > 1 else ''
def one(i):
    check, exp, edits = SPECS[i]
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        shutil.copytree(os.environ.get('MUT_BASE', '/repo') + '/specula', d + '/specula', ignore=shutil.ignore_patterns('__pycache__'))
        for f, old, new in edits:
            p = f'{d}/specula/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                return i, f'BADSPEC count={s.count(old)} {f}: {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new))
        r = subprocess.run([sys.executable, V + '/check.py', check], capture_output=True, text=True, env=dict(os.environ, SA_REPO=d, SA_EVID=d + '/ev'))
        got = {0: 'Q', 1: 'V'}.get(r.returncode, f'rc{r.returncode}')
        msg = '' if got == exp else '  MISMATCH ' + (r.stdout + r.stderr)[-300:].replace("\n", " | ")
        first = [l.strip()[:170] for l in r.stdout.splitlines() if l.strip().startswith('[')][:1]
        return i, f'{got} (want {exp}) {first}{msg}'
    finally:
        shutil.rmtree(d)
todo = [i for i, s in enumerate(SPECS) if flt in s[0]]
with ThreadPoolExecutor(4) as ex:
    bad = 0
    for i, m in ex.map(one, todo):
        ok = 'MISMATCH' not in m and 'BADSPEC' not in m
        bad += not ok
        print(('ok  ' if ok else 'BAD ') + SPECS[i][0], i, repr(SPECS[i][2][0][2][:60]), m)
print('bad', bad, 'of', len(todo))
