#!/usr/bin/env python3
"""refactor.py OPERATOR|all [CHECK...]: apply a behaviour-preserving rewriting
everywhere in a scratch copy of the package and list the alarms of the checks
(none is expected beyond those on the unchanged tree).  Development aid."""
import ast, copy, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def blocks(n):
    for x in ast.walk(n):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(x, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield x, b


def functions(tree):
    for x in ast.walk(tree):
        if isinstance(x, ast.FunctionDef):
            yield x


def methods(tree):
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef):
            for m in c.body:
                if isinstance(m, ast.FunctionDef):
                    yield c, m


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def parse(s):
    return ast.parse(s).body


def odd(f):
    """functions better left alone"""
    return any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Lambda)) or isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x is not f
               or isinstance(x, ast.Name) and x.id in ('locals', 'exec', 'eval', 'vars') for x in ast.walk(f))


@op
def rename(tree):
    for f in functions(tree):
        if odd(f):
            continue
        imported = {(a.asname or a.name).split('.')[0] for x in ast.walk(f) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        exc = {x.name for x in ast.walk(f) if isinstance(x, ast.ExceptHandler) and x.name}
        loc = names(f, ast.Store) - set(params(f)) - imported - exc
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = 'my_' + x.id


@op
def temporaries(tree):
    k = [0]
    for x, b in list(blocks(tree)):
        if isinstance(x, (ast.Module, ast.ClassDef)):
            continue
        i = 0
        while i < len(b):
            s = b[i]
            v = s.value if isinstance(s, (ast.Assign, ast.Expr, ast.Return, ast.AugAssign)) else None
            pre = []
            if isinstance(v, ast.Call) and not any(isinstance(a, ast.Starred) for a in v.args) and all(q.arg for q in v.keywords) \
                    and not any(isinstance(z, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for z in ast.walk(v)):
                for fld, j in [('args', j) for j in range(len(v.args))] + [('keywords', j) for j in range(len(v.keywords))]:
                    a = v.args[j] if fld == 'args' else v.keywords[j].value
                    if isinstance(a, (ast.Call, ast.BinOp, ast.Attribute, ast.Subscript, ast.Compare)):
                        k[0] += 1
                        n = f'tmp_{k[0]}'
                        pre.append(ast.Assign([ast.Name(n, ast.Store())], a))
                        if fld == 'args':
                            v.args[j] = ast.Name(n, ast.Load())
                        else:
                            v.keywords[j].value = ast.Name(n, ast.Load())
            b[i:i] = pre
            i += len(pre) + 1


@op
def invert(tree):
    for x in ast.walk(tree):
        if isinstance(x, ast.If) and x.orelse and not (len(x.orelse) == 1 and isinstance(x.orelse[0], ast.If)):
            x.test = ast.UnaryOp(ast.Not(), x.test)
            x.body, x.orelse = x.orelse, x.body


@op
def nest(tree):
    for x, b in blocks(tree):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and not isinstance(x, ast.Module):
                s.orelse = b[i + 1:]
                del b[i + 1:]
                break


@op
def implmethod(tree):
    for c, m in list(methods(tree)):
        if odd(m) or m.decorator_list or m.name.startswith('__') or m.args.vararg or m.args.kwarg or m.args.kwonlyargs or not m.args.args:
            continue
        new = copy.deepcopy(m)
        new.name = f'_impl_{c.name.lower()}_{m.name}'
        new.args.defaults = []
        new.returns = None
        call = ast.Call(ast.Attribute(ast.Name('self', ast.Load()), new.name, ast.Load()), [ast.Name(a.arg, ast.Load()) for a in m.args.args[1:]], [])
        doc = m.body[:1] if isinstance(m.body[0], ast.Expr) and isinstance(m.body[0].value, ast.Constant) else []
        m.body = doc + [ast.Return(call)]
        c.body.insert(c.body.index(m) + 1, new)


@op
def helper(tree):
    """the last compound statement of a method becomes a method"""
    for c, m in list(methods(tree)):
        if odd(m) or any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in m.decorator_list) or not m.args.args or m.args.args[0].arg != 'self' or not m.body:
            continue
        s = m.body[-1]
        if not isinstance(s, (ast.If, ast.For, ast.With, ast.While)) or any(isinstance(x, (ast.Import, ast.ImportFrom)) for x in ast.walk(m)):
            continue
        loc = (names(m, ast.Store) | set(params(m))) - {'self'}
        used = sorted(names(s, ast.Load) & loc & (set(params(m)) | set().union(*[names(x, ast.Store) for x in m.body[:-1]] or [set()])))
        # a local that may be unbound before the statement
        sure = set(params(m)) | set().union(*[names(t, ast.Store) for x in m.body[:-1] if isinstance(x, ast.Assign) for t in x.targets] or [set()])
        if any(u not in sure for u in used) or (names(s, ast.Load) & loc & names(s, ast.Store)) - sure - {x.id for q in ast.walk(s) if isinstance(q, (ast.For, ast.comprehension)) for x in ast.walk(q.target) if isinstance(x, ast.Name)} and False:
            continue
        name = f'_last_{c.name.lower()}_{m.name.strip("_")}'
        new = ast.FunctionDef(name, ast.arguments([], [ast.arg('self')] + [ast.arg(u) for u in used], None, [], [], None, []), [s], [])
        call = ast.Call(ast.Attribute(ast.Name('self', ast.Load()), name, ast.Load()), [ast.Name(u, ast.Load()) for u in used], [])
        m.body[-1] = ast.Return(call) if m.name != '__init__' else ast.Expr(call)
        c.body.insert(c.body.index(m) + 1, new)


@op
def first(tree):
    """the statements at the beginning of a method that only deal with self become a method"""
    for c, m in list(methods(tree)):
        if odd(m) or any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in m.decorator_list) or not m.args.args or m.args.args[0].arg != 'self' or m.name == '__init__':
            continue
        i0 = 1 if isinstance(m.body[0], ast.Expr) and isinstance(m.body[0].value, ast.Constant) else 0
        i = i0
        pr = set(params(m)) - {'self'}
        while i < len(m.body) and not names(m.body[i], ast.Store) and not any(isinstance(x, (ast.Return, ast.Import, ast.ImportFrom)) for x in ast.walk(m.body[i])):
            i += 1
        blk = m.body[i0:i]
        if len(blk) < 2:
            continue
        used = sorted(set().union(*[names(s, ast.Load) for s in blk]) & pr)
        name = f'_first_{c.name.lower()}_{m.name.strip("_")}'
        new = ast.FunctionDef(name, ast.arguments([], [ast.arg('self')] + [ast.arg(u) for u in used], None, [], [], None, []), blk, [])
        m.body[i0:i] = [ast.Expr(ast.Call(ast.Attribute(ast.Name('self', ast.Load()), name, ast.Load()), [ast.Name(u, ast.Load()) for u in used], []))]
        c.body.insert(c.body.index(m) + 1, new)


@op
def ternary(tree):
    for x, b in list(blocks(tree)):
        if isinstance(x, (ast.Module, ast.ClassDef)):
            continue
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                b[i] = ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                b[i] = ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])


@op
def toternary(tree):
    for x, b in list(blocks(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 == len(s.orelse) and all(isinstance(q, ast.Assign) and len(q.targets) == 1 for q in s.body + s.orelse) \
                    and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                b[i] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))


@op
def indexloop(tree):
    for x in ast.walk(tree):
        if isinstance(x, ast.For) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == 'enumerate' and len(x.iter.args) == 1 \
                and isinstance(x.target, ast.Tuple) and isinstance(x.target.elts[0], ast.Name) and isinstance(x.iter.args[0], (ast.Name, ast.Attribute)):
            seq = x.iter.args[0]
            i, v = x.target.elts
            x.target = i
            x.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [seq], [])], [])
            x.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(seq), ast.Name(i.id, ast.Load()), ast.Load())))


@op
def listloop(tree):
    k = [0]
    for x, b in list(blocks(tree)):
        if isinstance(x, (ast.Module, ast.ClassDef)):
            continue
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and not any(isinstance(q, (ast.Lambda, ast.ListComp)) and q is not s.value for q in ast.walk(s.value)):
                k[0] += 1
                g = s.value.generators[0]
                n = f'acc_{k[0]}'
                ren = {q.id: f'{q.id}_{k[0]}' for q in ast.walk(g.target) if isinstance(q, ast.Name)}
                for q in list(ast.walk(g.target)) + list(ast.walk(s.value.elt)) + [z for c in g.ifs for z in ast.walk(c)]:
                    if isinstance(q, ast.Name) and q.id in ren:
                        q.id = ren[q.id]
                app = ast.Expr(ast.Call(ast.Attribute(ast.Name(n, ast.Load()), 'append', ast.Load()), [s.value.elt], []))
                body = [app]
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                b[i:i + 1] = [ast.Assign([ast.Name(n, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, []), ast.Assign(s.targets, ast.Name(n, ast.Load()))]
                i += 3
            else:
                i += 1


@op
def swap(tree):
    def simple(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and not any(isinstance(q, (ast.Call, ast.Subscript, ast.NamedExpr)) for q in ast.walk(s)) and isinstance(s.targets[0], (ast.Name, ast.Attribute))
    def key(t):
        return t.id if isinstance(t, ast.Name) else t.attr
    def used(s):
        return {q.id for q in ast.walk(s.value) if isinstance(q, ast.Name)} | {q.attr for q in ast.walk(s) if isinstance(q, ast.Attribute) and q is not s.targets[0]} | names(s.targets[0], ast.Load)
    for x, b in list(blocks(tree)):
        if isinstance(x, (ast.Module, ast.ClassDef)):
            continue
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if simple(s) and simple(t) and key(s.targets[0]) != key(t.targets[0]) and key(s.targets[0]) not in used(t) and key(t.targets[0]) not in used(s):
                b[i], b[i + 1] = t, s
                i += 2
            else:
                i += 1


@op
def flip(tree):
    F = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
    for x in ast.walk(tree):
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in F:
            x.ops = [F[type(x.ops[0])]()]
            x.left, x.comparators = x.comparators[0], [x.left]


@op
def nots(tree):
    N = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    class T(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in N:
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [N[type(n.ops[0])]()], n.comparators))
            return n
    T().visit(tree)


@op
def continues(tree):
    for x in ast.walk(tree):
        if isinstance(x, ast.For) and len(x.body) == 1 and isinstance(x.body[0], ast.If) and not x.body[0].orelse:
            s = x.body[0]
            x.body = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], [])] + s.body


@op
def flagged(tree):
    """conditions are given a name first"""
    k = [0]
    for x, b in list(blocks(tree)):
        if isinstance(x, (ast.Module, ast.ClassDef)):
            continue
        i = 0
        while i < len(b):
            s = b[i]
            isel = isinstance(x, ast.If) and b is x.orelse and len(b) == 1
            if isinstance(s, ast.If) and isinstance(s.test, (ast.Compare, ast.BoolOp, ast.Call)) and not isel:
                k[0] += 1
                n = f'flag_{k[0]}'
                b.insert(i, ast.Assign([ast.Name(n, ast.Store())], s.test))
                s.test = ast.Name(n, ast.Load())
                i += 1
            i += 1


@op
def alias(tree):
    """self is read through local aliases of its attributes"""
    for c, m in methods(tree):
        if odd(m) or not m.args.args or m.args.args[0].arg != 'self' or m.name == '__init__':
            continue
        stored = {q.attr for q in ast.walk(tree) if isinstance(q, ast.Attribute) and isinstance(q.ctx, (ast.Store, ast.Del)) and q is not None and q in set(ast.walk(m))}
        if any(isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and isinstance(q.func.value, ast.Name) and q.func.value.id == 'self' for q in ast.walk(m)) or \
           any(isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id == 'super' for q in ast.walk(m)):
            continue
        reads = {}
        for s in m.body[:1] if not (isinstance(m.body[0], ast.Expr) and isinstance(m.body[0].value, ast.Constant)) else m.body[1:2]:
            if isinstance(s, (ast.Assign, ast.Expr, ast.Return, ast.AugAssign)):
                for q in ast.walk(s):
                    if isinstance(q, ast.Attribute) and isinstance(q.value, ast.Name) and q.value.id == 'self' and isinstance(q.ctx, ast.Load) and q.attr not in stored:
                        reads[q.attr] = 1
        reads = sorted(reads)
        class T(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id == 'self' and n.attr in reads and isinstance(n.ctx, ast.Load):
                    return ast.Name('al_' + n.attr, ast.Load())
                return n
        m.body = [T().visit(s) for s in m.body]
        pre = [ast.Assign([ast.Name('al_' + a, ast.Store())], ast.Attribute(ast.Name('self', ast.Load()), a, ast.Load())) for a in reads]
        k = 1 if isinstance(m.body[0], ast.Expr) and isinstance(m.body[0].value, ast.Constant) else 0
        m.body[k:k] = pre


@op
def nothing(tree):
    for f in functions(tree):
        k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) and len(f.body) > 1 else 0
        f.body[k:k] = parse('_unused = None')


def make(opname, d):
    shutil.copytree('/repo/specula', d + '/specula', ignore=shutil.ignore_patterns('__pycache__'))
    for r, _, fs in os.walk(d + '/specula'):
        for fn in fs:
            if fn.endswith('.py'):
                p = os.path.join(r, fn)
                t = ast.parse(open(p).read())
                OPS[opname](t)
                ast.fix_missing_locations(t)
                s = ast.unparse(t)
                compile(s, p, 'exec')
                open(p, 'w').write(s + '\n')


def main():
    ops = list(OPS) if sys.argv[1] == 'all' else sys.argv[1].split(',')
    checks = sys.argv[2:] or [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    for o in ops:
        d = tempfile.mkdtemp(prefix='ref.', dir='/tmp')
        try:
            make(o, d)
            def one(c):
                r = subprocess.run([sys.executable, V + '/check.py', c], capture_output=True, text=True, env=dict(os.environ, SA_REPO=d, SA_EVID=d + '/ev'))
                return c, r.returncode, [l.strip() for l in (r.stdout + r.stderr).splitlines() if l.strip().startswith('[') or 'BROKEN' in l or 'Error' in l]
            bad = 0
            with ThreadPoolExecutor(4) as ex:
                for c, rc, ls in ex.map(one, checks):
                    if rc:
                        bad += 1
                        print(f'{o} {c} rc={rc} {len(ls)} alarms', flush=True)
                        for l in ls[:12]:
                            print('     ', l[:260], flush=True)
            print(f'== {o}: {bad} checks with alarms', flush=True)
        finally:
            if os.environ.get('KEEP'):
                print(d)
            else:
                shutil.rmtree(d)


if __name__ == '__main__':
    main()
