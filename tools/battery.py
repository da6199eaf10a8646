#!/usr/bin/env python3
"""battery.py [CHECK]: snippets injected at the start of a step of BaseOperation
(v1: its input object, a: the array in it, out: its output object), to see which
ways of touching storage the monitors recognise.  Development aid."""
import ast, importlib, os, sys, multiprocessing as mp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, V + '/tools')
sys.setrecursionlimit(20000)
from sa.index import Index
import sa.sweep as SW
REL = 'specula/processing_objects/base_operation.py'
SPECS = []
def T(chk, exp, code, setup=''):
    SPECS.append((chk, exp, code, setup))
exec(open(V + '/tools/battery_specs.py').read())

def serial(ix, factory, tier='quick', classes=None, collect=None):
    SW._CTX['x'] = (ix, factory, 2, 30000, collect)
    return {'BaseOperation': SW._one(('BaseOperation',))[1:]}

def work(a):
    chk, exp, code, setup = a
    src = open('/repo/' + REL).read()
    tree = ast.parse(src)
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef) and f.name == 'trigger_code':
            if chk != 'P02':
                f.body = []
            f.body[0:0] = ast.parse("v1 = self.local_inputs['in_value1']\na = v1.value\nout = self.out_value\nxp = self.xp\nimport copy\nfrom collections import deque\nfrom specula import cpuArray\nimport numpy as np\n" + code + ('\nout.generation_time = self.current_time' if chk not in ('P01', 'P02') else '')).body
        if isinstance(f, ast.FunctionDef) and f.name == 'setup' and setup:
            f.body += ast.parse("v1 = self.local_inputs['in_value1']\na = v1.value\nout = self.out_value\nxp = self.xp\nfrom collections import deque\n" + setup).body
    mod = importlib.import_module('sa.rules.' + chk.lower())
    mod.sweep = serial
    try:
        res = mod.run(Index(overlay={REL: ast.unparse(ast.fix_missing_locations(tree))}), 'quick')
    except Exception as e:
        return 'E', repr(e)[:200]
    f = [str(v) for v in res.findings.values() if 'BaseOperation' in str(v) or True]
    return ('V' if f else 'Q'), f[:1]

flt = sys.argv[1] if len(sys.argv) > 1 else ''
todo = [s for s in SPECS if flt in s[0]]
with mp.get_context('fork').Pool(4) as p:
    n = 0
    for s, (r, f) in zip(todo, p.imap(work, todo)):
        if r != s[1]:
            n += 1
            print('BAD', s[0], 'want', s[1], 'got', r, repr(s[2]), f)
print('bad', n, 'of', len(todo))
