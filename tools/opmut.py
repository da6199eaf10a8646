#!/usr/bin/env python3
"""opmut.py CHECK OPERATOR [FILEFILTER] [--all]: apply a mutation operator at
every place of the source, one at a time, and list the mutants the check does
not report (--all: every mutant).  Development aid; no check uses it."""
import ast, importlib, os, sys, copy, multiprocessing as mp, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
from sa.index import Index
import sa.sweep as SW
from sa.lifecycle import processing_classes

OPS = {}
def op(f):
    OPS[f.__name__] = f
    return f

def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            yield n

def bodies(n):
    for x in ast.walk(n):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(x, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b

STEP = ('trigger', 'trigger_code', 'post_trigger', 'prepare_trigger', 'check_ready', 'finalize', 'setup')
def is_stamp(s):
    return isinstance(s, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == 'generation_time' for t in s.targets)

@op
def del_stamp(tree):
    for b in bodies(tree):
        for i, s in enumerate(b):
            if is_stamp(s):
                old = b[i]; b[i] = ast.Pass()
                yield f'{s.lineno}: del {ast.unparse(s)}'
                b[i] = old
@op
def cond_stamp(tree):
    for b in bodies(tree):
        for i, s in enumerate(b):
            if is_stamp(s):
                old = b[i]; b[i] = ast.parse('if self.verbose:\n    pass').body[0]; b[i].body = [old]
                yield f'{s.lineno}: cond {ast.unparse(s)}'
                b[i] = old
@op
def early_stamp(tree):
    for b in bodies(tree):
        for i, s in enumerate(b):
            if is_stamp(s):
                b.insert(i, ast.parse('if self.verbose:\n    return').body[0])
                yield f'{s.lineno}: early return before {ast.unparse(s)}'
                del b[i]
@op
def wrong_stamp(tree):
    for b in bodies(tree):
        for i, s in enumerate(b):
            if is_stamp(s):
                old = s.value
                for w in ('self.current_time_seconds', 'self.current_time + 1', '0'):
                    s.value = ast.parse(w).body[0].value
                    yield f'{s.lineno}: stamp={w} {ast.unparse(s)}'
                s.value = old
@op
def del_copy(tree):
    for n in ast.walk(tree):
        for fld, v in list(ast.iter_fields(n)):
            vs = v if isinstance(v, list) else [v]
            for i, c in enumerate(vs):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'copy' and not c.args:
                    if isinstance(v, list): v[i] = c.func.value
                    else: setattr(n, fld, c.func.value)
                    yield f'{c.lineno}: nocopy {ast.unparse(c)}'
                    if isinstance(v, list): v[i] = c
                    else: setattr(n, fld, c)
                if isinstance(c, ast.Call) and any(k.arg in ('copy', 'force_copy') for k in c.keywords):
                    old = c.keywords
                    c.keywords = [k for k in old if k.arg not in ('copy', 'force_copy')]
                    yield f'{c.lineno}: nocopykw {ast.unparse(c)}'
                    c.keywords = old
@op
def inplace(tree):
    """t = L op R  ->  t = L; t op= R"""
    for b in bodies(tree):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.BinOp) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) \
                    and isinstance(s.value.left, (ast.Name, ast.Attribute, ast.Subscript)):
                t = copy.deepcopy(s.targets[0])
                a = ast.Assign(targets=[copy.deepcopy(t)], value=s.value.left)
                g = ast.AugAssign(target=t, op=s.value.op, value=s.value.right)
                b[i:i+1] = [a, g]
                yield f'{s.lineno}: inplace {ast.unparse(s)}'
                b[i:i+2] = [s]
@op
def rebind(tree):
    """x[:] = e -> x = e"""
    for b in bodies(tree):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].slice, ast.Slice) and s.targets[0].slice.lower is None and s.targets[0].slice.upper is None \
                    or isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and isinstance(s.targets[0].slice, ast.Constant) and s.targets[0].slice.value is Ellipsis:
                b[i] = ast.Assign(targets=[s.targets[0].value], value=s.value)
                yield f'{s.lineno}: rebind {ast.unparse(s)}'
                b[i] = s
@op
def del_prec(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            for k in list(n.keywords):
                if k.arg in ('precision', 'target_device_idx') :
                    i = n.keywords.index(k)
                    del n.keywords[i]
                    yield f'{n.lineno}: del {k.arg} in {ast.unparse(n)[:70]}'
                    n.keywords.insert(i, k)
@op
def dtype(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            for k in list(n.keywords):
                if k.arg == 'dtype' and 'dtype' in ast.unparse(k.value):
                    old = k.value
                    k.value = ast.parse('self.xp.float64').body[0].value
                    yield f'{n.lineno}: float64 in {ast.unparse(n)[:70]}'
                    k.value = old
                    i = n.keywords.index(k)
                    del n.keywords[i]
                    yield f'{n.lineno}: no dtype in {ast.unparse(n)[:70]}'
                    n.keywords.insert(i, k)
@op
def attr(tree):
    """misspell one self attribute read"""
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == 'self':
            n.attr += '_z'
            yield f'{n.lineno}: {n.attr}'
            n.attr = n.attr[:-2]
@op
def attr2(tree):
    """misspell one attribute read on something else than self/xp/np"""
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and not (isinstance(n.value, ast.Name) and n.value.id in ('self', 'np', 'xp', 'os', 'plt', 'fits')) and not ast.unparse(n.value).endswith(('xp', 'np')):
            n.attr += '_z'
            yield f'{n.lineno}: {ast.unparse(n)[:80]}'
            n.attr = n.attr[:-2]
@op
def kwname(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg:
                    k.arg += '_z'
                    yield f'{n.lineno}: {ast.unparse(n)[:80]}'
                    k.arg = k.arg[:-2]
@op
def local(tree):
    for f in functions(tree):
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id != 'self':
                n.id += '_z'
                yield f'{n.lineno}: {n.id}'
                n.id = n.id[:-2]
@op
def del_super(tree):
    for b in bodies(tree):
        for i, s in enumerate(b):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and 'super()' in ast.unparse(s) and '__init__' not in ast.unparse(s):
                b[i] = ast.Pass()
                yield f'{s.lineno}: del {ast.unparse(s)}'
                b[i] = s
@op
def ionames(tree):
    for f in functions(tree):
        if f.name in ('input_names', 'output_names'):
            for d in ast.walk(f):
                if isinstance(d, ast.Dict):
                    for i, k in enumerate(d.keys):
                        kk, vv = d.keys[i], d.values[i]
                        del d.keys[i]; del d.values[i]
                        yield f'{f.lineno}: {f.name} without {ast.unparse(kk)}'
                        d.keys.insert(i, kk); d.values.insert(i, vv)
                        if isinstance(vv, ast.Tuple) and len(vv.elts) > 1 and isinstance(vv.elts[1], ast.Constant):
                            t = vv.elts[1]; o = t.value
                            t.value = o.replace(' (optional)', '') if '(optional)' in o else o + ' (optional)'
                            yield f'{f.lineno}: {f.name} optional toggled {ast.unparse(kk)}'
                            t.value = o
@op
def ioreg(tree):
    for b in bodies(tree):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and ast.unparse(s.targets[0].value) in ('self.inputs', 'self.outputs'):
                b[i] = ast.parse('if self.verbose:\n    pass').body[0]; b[i].body = [s]
                yield f'{s.lineno}: cond {ast.unparse(s)}'
                b[i] = s
@op
def outnew(tree):
    """self.X.value = e / self.X.value[:] = e -> self.X = BaseValue(value=e)"""
    for b in bodies(tree):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign):
                t = s.targets[0]
                if isinstance(t, ast.Subscript): t = t.value
                if isinstance(t, ast.Attribute) and t.attr in ('value', 'slopes', 'pixels', 'i') and isinstance(t.value, ast.Attribute):
                    b[i] = ast.Assign(targets=[copy.deepcopy(t.value)], value=ast.parse('BaseValue(value=0, target_device_idx=self.target_device_idx, precision=self.precision)').body[0].value)
                    b[i].value.keywords[0].value = s.value
                    b[i].targets[0].ctx = ast.Store()
                    yield f'{s.lineno}: new {ast.unparse(s)}'
                    b[i] = s

@op
def inwrite(tree):
    for f in functions(tree):
        names = {}
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and 'local_inputs' in ast.unparse(n.value) and isinstance(n.targets[0], (ast.Name, ast.Attribute)):
                names[ast.unparse(n.targets[0])] = 1
        for b in bodies(f):
            i = 0
            while i < len(b):
                s = b[i]
                if isinstance(s, (ast.Assign, ast.Expr, ast.AugAssign)):
                    for n in ast.walk(s):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and (ast.unparse(n.value) in names or ast.unparse(n.value).startswith('self.local_inputs[')) and not n.attr.startswith('__'):
                            x = ast.unparse(n)
                            for t in (f'{x} *= 2', f'{x}[0] = 0', f'tmpz = {x}\ntmpz += 1', f'tmpz = {x}.ravel()\ntmpz[0] = 1', f'self.xp.multiply({x}, 2, out={x})'):
                                new = ast.parse(t).body
                                b[i:i] = new
                                yield f'{s.lineno}: {t!r}'
                                del b[i:i+len(new)]
                            break
                i += 1

def strip(res, base):
    return {k: f for k, f in res.findings.items() if k not in base}

_G = {}
def serial(ix, factory, tier='quick', classes=None, collect=None):
    cl = _G['cl']
    SW._CTX['x'] = (ix, factory, 2, 30000, collect)
    return {c: SW._one((c,))[1:] for c in cl if c in ix.classes}

def target_classes(ix, rel):
    defs = {c for c, k in ix.classes.items() if k.module.rel == rel}
    pc = processing_classes(ix)
    return [c for c in pc if any(m.name in defs for m in ix.mro(c))]

def work(a):
    rel, src, desc = a
    try:
        ix = Index(overlay={rel: src})
        _G['cl'] = target_classes(ix, rel)
        if not _G['cl'] and _G['need']:
            if '--lib' not in sys.argv: return desc, rel, 'noclass', []
            _G['cl'] = processing_classes(ix)
        res = _G['mod'].run(ix, 'quick')
        f = {k: v for k, v in res.findings.items() if k not in _G['base']}
        return desc, rel, ('V' if f else 'Q'), [str(v) for v in f.values()][:1]
    except Exception:
        return desc, rel, 'ERR', [traceback.format_exc()[-300:]]

if __name__ == '__main__':
    chk, opn = sys.argv[1:3]
    flt = sys.argv[3] if len(sys.argv) > 3 and not sys.argv[3].startswith('--') else 'processing_objects'
    mod = importlib.import_module('sa.rules.' + chk.lower())
    _G.update(mod=mod, need=True)
    full = Index()
    orig = SW.sweep
    _G['base'] = set(mod.run(full, 'quick').findings)
    mod.sweep = serial
    if hasattr(mod, 'rest'):
        def rest1(ix, tier):
            mod._CTX['x'] = (ix, 8000)
            names = [c for c in sorted(ix.classes) if ix.classes[c].module.rel == _G['rel']] + ['mod:' + m for m, k in ix.modules.items() if k.rel == _G['rel']]
            return [mod._rest(c) for c in names]
        mod.rest = rest1
        w0 = work
        def work(a):
            _G['rel'] = a[0]; _G['need'] = False
            return w0(a)
    jobs = []
    for m in full.modules.values():
        if flt in m.rel:
            tree = ast.parse(m.src)
            for d in OPS[opn](tree):
                jobs.append((m.rel, ast.unparse(ast.fix_missing_locations(tree)), d))
    if '--sample' in sys.argv:
        import random
        random.Random(1).shuffle(jobs); jobs = jobs[:int(sys.argv[sys.argv.index('--sample') + 1])]
    with mp.get_context('fork').Pool(8) as p:
        out = p.map(work, jobs, chunksize=1)
    n = {}
    for d, rel, r, f in out:
        n[r] = n.get(r, 0) + 1
        if r != 'V' or '--all' in sys.argv:
            print(r, rel.split('/')[-1], d[:130], f)
    print(n)
