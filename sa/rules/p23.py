"""Units of time.  A unit is inferred for every expression of every class: T
(integer ticks), S (seconds), C (a constructor parameter, which the user gives
in seconds), R (ticks per second), n (a number).  Ticks and seconds are never
compared, added or assigned to each other; the conversions take the unit they
convert; a tick count is never used as a physical quantity."""
import ast
from ..index import dotted
from ..paths import Paths, mentions, has_attr, walk, callee, show
from ..report import Result

MATH = {'sin', 'cos', 'tan', 'exp', 'expm1', 'log', 'log10', 'sqrt', 'interp', 'sinh', 'cosh', 'tanh', 'power', 'polyval'}
E = frozenset()
N = frozenset('n')
T, S, C, R = (frozenset(x) for x in 'TSCR')
TICKS = {'current_time', 'generation_time'}
SECS = {'current_time_seconds', 'time_step', 'total_time'}
KEEP = {'abs', 'int', 'float', 'round', 'max', 'min', 'array', 'asarray', 'sort', 'sorted', 'floor', 'ceil', 'rint', 'unique', 'concatenate', 'list', 'tuple',
        'maximum', 'minimum', 'fmax', 'fmin', 'amax', 'amin', 'nanmax', 'nanmin', 'diff', 'ravel', 'atleast_1d', 'float64', 'int64', 'float32', 'uint64', 'to_xp', 'cpuArray', 'copy',
        'deepcopy', 'item', 'astype', 'tolist', 'flatten', 'mean', 'median', 'sum', 'reshape', 'squeeze', 'reversed', 'next', 'iter', 'round_', 'around', 'trunc', 'stack', 'hstack',
        'get', 'pop', 'popleft', 'values', 'setdefault', 'full', 'full_like', 'repeat', 'tile'}
BINF = {'mod': ast.Mod, 'fmod': ast.Mod, 'remainder': ast.Mod, 'subtract': ast.Sub, 'add': ast.Add, 'floor_divide': ast.FloorDiv, 'divide': ast.Div, 'true_divide': ast.Div,
        'multiply': ast.Mult, 'divmod': ast.Mod}
CMPF = {'greater', 'less', 'greater_equal', 'less_equal', 'equal', 'not_equal', 'isclose', 'allclose', 'array_equal', 'maximum', 'minimum', 'max', 'min'}
GROW = {'append', 'extend', 'add', 'insert', 'appendleft'}
HOOKS = {'check_ready', 'prepare_trigger'}
NAMES = {'T': 'ticks', 'S': 'seconds', 'C': 'seconds (a constructor parameter)'}


def words(u):
    return ' or '.join(NAMES[x] for x in 'TSC' if x in u)


class Env(dict):
    def copy(self):
        return Env(self)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    out = Env()
    for k in set(a) | set(b):
        # an attribute one side does not bind keeps its value of before: unknown here
        out[k] = a.get(k, E) | b.get(k, E)
    return out


class Units:
    def __init__(self, rule, ix, cls):
        self.rule, self.ix, self.cls = rule, ix, cls
        self.attrs = {}
        self.stack = []
        self.report = False
        self.weights = []

    # -- driver
    def run(self):
        roots, seen = [], set()
        for c in self.ix.mro(self.cls):
            for f in list(c.methods.values()) + list(c.setters.values()):
                k = (f.name, 'setter' in f.decorators)
                if k not in seen and not f.is_static and not f.is_classmethod:
                    seen.add(k)
                    roots.append(f)
        for rnd in range(4):
            self.report = rnd == 3
            new = {}
            for f in roots:
                env = Env()
                self.params(f, env)
                out = self.function(f, env)
                for k, u in (out or {}).items():
                    if k.startswith('.'):
                        new[k] = new.get(k, E) | u
            if new == self.attrs and not self.report:
                self.report = True
                for f in roots:
                    env = Env()
                    self.params(f, env)
                    self.function(f, env)
                break
            self.attrs = new
        self.unbalanced()
        for k, u in self.attrs.items():
            if 'T' in u and u & {'S', 'C'}:
                c, f = next(((c, f) for c in self.ix.mro(self.cls) for f in c.methods.values() for x in ast.walk(f.node)
                             if isinstance(x, ast.Attribute) and x.attr == k[1:] and isinstance(x.ctx, ast.Store)), (None, None))
                if f is not None:
                    self.rule.bad('attribute', f'{c.name}{k}', f'{f.module.rel}:{f.node.lineno}', f'{c.name}{k} holds ticks on some paths and {words(u & (S | C))} on others')

    def params(self, f, env):
        a = f.node.args
        ps = a.posonlyargs + a.args + a.kwonlyargs
        for p in ps:
            env[p.arg] = E
            if f.name == '__init__' and p.arg != 'self':
                env[p.arg] = C
            elif self.cls == 'LoopControl' and f.name in ('run', 'start') and p.arg in ('run_time', 'dt', 't0'):
                env[p.arg] = C
        if f.name in HOOKS and len(ps) > 1:
            env[ps[1].arg] = T

    def function(self, f, env):
        self.stack.append(f)
        self.rets = getattr(self, 'rets', [])
        self.rets.append([E, None])
        self.rule.n['functions'].add(f.where)
        end = self.block(f.node.body, env)
        ret, renv = self.rets.pop()
        self.stack.pop()
        out = join(end, renv)
        self.ret = ret
        return out

    def bad(self, what, node, msg):
        if self.report:
            f = self.stack[-1]
            self.rule.bad(what, f'{f.qual}', f'{f.module.rel}:{getattr(node, "lineno", 0)}', f'{f.qual}(): {msg}')

    # -- statements
    def block(self, body, env):
        for s in body:
            if env is None:
                return None
            env = self.stmt(s, env)
        return env

    def stmt(self, s, env):
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Assign):
            u = self.ev(s.value, env)
            for t in s.targets:
                self.bind(t, u, env, s, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env, s, s.value)
        elif isinstance(s, ast.AugAssign):
            u = self.binop(s.op, self.ev(s.target, env), self.ev(s.value, env), s)
            self.bind(s.target, u, env, s, None)
        elif isinstance(s, ast.Return):
            u = self.ev(s.value, env) if s.value is not None else E
            r = self.rets[-1]
            r[0] |= u
            r[1] = join(r[1], env)
            return None
        elif isinstance(s, ast.Raise):
            return None
        elif isinstance(s, (ast.Break, ast.Continue)):
            self.brk[-1] = join(self.brk[-1], env)
            return None
        elif isinstance(s, ast.If):
            self.ev(s.test, env)
            a, b = env.copy(), env.copy()
            self.narrow(s.test, a, True)
            self.narrow(s.test, b, False)
            return join(self.block(s.body, a), self.block(s.orelse, b))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.brk = getattr(self, 'brk', [])
            self.brk.append(None)
            for _ in (1, 2):
                u = self.ev(s.iter, env)
                e = env.copy()
                self.bindelem(s.target, s.iter, u, e)
                env = join(env, self.block(s.body, e))
                env = join(env, self.brk[-1])
            self.brk.pop()
            return self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            self.brk = getattr(self, 'brk', [])
            self.brk.append(None)
            for _ in (1, 2):
                self.ev(s.test, env)
                env = join(env, self.block(s.body, env.copy()))
                env = join(env, self.brk[-1])
            self.brk.pop()
            return self.block(s.orelse, env)
        elif isinstance(s, ast.Try):
            e0 = env.copy()
            e1 = self.block(s.body, env.copy())
            out = self.block(s.orelse, e1) if e1 is not None else None
            for h in s.handlers:
                out = join(out, self.block(h.body, join(e0, e1).copy()))
            if s.finalbody:
                f = self.block(s.finalbody, (out if out is not None else join(e0, e1)).copy())
                return f if out is not None else None
            return out
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                u = self.ev(it.context_expr, env)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, u, env, s, None)
            return self.block(s.body, env)
        elif isinstance(s, ast.Assert):
            self.ev(s.test, env)
        elif isinstance(s, ast.Delete):
            pass
        return env

    def narrow(self, t, env, truth):
        """Where a value is None it has no unit."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.narrow(t.operand, env, not truth)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == truth:
                for v in t.values:
                    self.narrow(v, env, truth)
            return
        k = None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            if isinstance(t.ops[0], (ast.Is, ast.Eq)) == truth:
                k = self.key(t.left)
        elif not truth:
            k = self.key(t)
        if k is not None:
            env[k] = E

    def key(self, n):
        if isinstance(n, ast.Name):
            return n.id
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self':
            return '.' + n.attr
        return None

    def bind(self, t, u, env, node, value):
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else None
            us = [self.ev(v, env) for v in vs] if vs else None
            for i, x in enumerate(t.elts):
                self.bind(x, us[i] if us else E, env, node, vs[i] if vs else None)
            return
        if isinstance(t, ast.Starred):
            return self.bind(t.value, u, env, node, None)
        if isinstance(t, ast.Subscript):
            k = self.key(t.value)
            self.ev(t.slice, env)
            name = t.value.attr if isinstance(t.value, ast.Attribute) else None
            self.sink(name, u, node)
            if k is not None:
                env[k] = self.look(k, env) | (u - N)
            return
        k = self.key(t)
        if isinstance(t, ast.Attribute):
            self.sink(t.attr, u, node)
            if k is None:
                self.ev(t.value, env)
        if k is not None:
            env[k] = u
            if k[0] == '.':
                st = self.ix.find_setter(self.cls, k[1:])
                if st is not None and len(self.stack) < 6 and st not in self.stack:
                    e = self.sub(env)
                    ps = [p.arg for p in st.node.args.args]
                    for p in ps[1:]:
                        e[p] = u
                    self.back(env, self.function(st, e))

    def sink(self, name, u, node):
        if name in TICKS:
            self.rule.n['stores'] += 1
            if u & {'S', 'C'}:
                self.bad('stamp', node, f'{name} is given {words(u & (S | C))}, it is counted in ticks')
        elif name == 'current_time_seconds':
            self.rule.n['stores'] += 1
            if 'T' in u:
                self.bad('stamp', node, f'{name} is given ticks')

    def bindelem(self, t, it, u, env):
        """target of a for loop"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name):
            if it.func.id == 'enumerate' and isinstance(t, ast.Tuple) and len(t.elts) == 2 and it.args:
                self.bind(t.elts[0], N, env, t, None)
                return self.bindelem(t.elts[1], it.args[0], self.ev(it.args[0], env), env)
            if it.func.id == 'zip' and isinstance(t, ast.Tuple) and len(t.elts) == len(it.args):
                for x, a in zip(t.elts, it.args):
                    self.bindelem(x, a, self.ev(a, env), env)
                return
            if it.func.id == 'range':
                return self.bind(t, self.range(it, env), env, t, None)
        self.bind(t, u if not isinstance(t, (ast.Tuple, ast.List)) else E, env, t, None)

    def range(self, it, env):
        u = E
        for a in it.args:
            u |= self.ev(a, env)
        return (u - N) or N

    # -- expressions
    def look(self, k, env):
        if k in env:
            return env[k]
        if k[0] == '.':
            if k[1:] in TICKS:
                return T
            if k[1:] in SECS:
                return S
            if k[1:] == '_time_resolution':
                return R
            return self.attrs.get(k, E)
        return E

    def ev(self, n, env):
        if n is None:
            return E
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m:
            return m(n, env)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return E

    def x_Constant(self, n, env):
        if isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            return R if n.value == 1e9 else N
        return E

    def x_Name(self, n, env):
        return env.get(n.id, E)

    def x_Attribute(self, n, env):
        k = self.key(n)
        if k is not None:
            if n.attr not in TICKS and n.attr not in SECS:
                p = self.ix.find_method(self.cls, n.attr)
                if p is not None and p.is_property and p not in self.stack and len(self.stack) < 6:
                    self.back(env, self.function(p, self.sub(env)))
                    return self.ret
            return self.look(k, env)
        b = self.ev(n.value, env)
        if n.attr in TICKS:
            return T
        if n.attr in SECS:
            return S
        if n.attr == '_time_resolution':
            return R
        if n.attr in ('T', 'real'):
            return b
        k = self.key(n.value)
        if k is not None and k[0] == '.':
            for c in self.rule.types(self.cls, k[1:]):
                return self.rule.units(c).get('.' + n.attr, E)
        return E

    def x_Subscript(self, n, env):
        self.ev(n.slice, env)
        b = self.ev(n.value, env)
        if isinstance(n.slice, ast.Constant) and n.slice.value in SECS:
            return S
        return b

    def x_Tuple(self, n, env):
        u = E
        for x in n.elts:
            u |= self.ev(x, env)
        return u
    x_List = x_Set = x_Tuple

    def x_Dict(self, n, env):
        u = E
        for k, v in zip(n.keys, n.values):
            self.ev(k, env)
            u |= self.ev(v, env)
        return u if len(n.values) == 1 else E

    def x_Starred(self, n, env):
        return self.ev(n.value, env)

    def x_NamedExpr(self, n, env):
        u = self.ev(n.value, env)
        self.bind(n.target, u, env, n, None)
        return u

    def x_IfExp(self, n, env):
        self.ev(n.test, env)
        a, b = env.copy(), env.copy()
        self.narrow(n.test, a, True)
        self.narrow(n.test, b, False)
        return self.ev(n.body, a) | self.ev(n.orelse, b)

    def x_BoolOp(self, n, env):
        u = E
        e = env.copy()
        for v in n.values:
            u |= self.ev(v, e)
            self.narrow(v, e, isinstance(n.op, ast.And))
        return u

    def x_UnaryOp(self, n, env):
        u = self.ev(n.operand, env)
        return E if isinstance(n.op, ast.Not) else u

    def x_Lambda(self, n, env):
        return E

    def x_comp(self, n, env):
        e = env.copy()
        for g in n.generators:
            self.bindelem(g.target, g.iter, self.ev(g.iter, e), e)
            for c in g.ifs:
                self.ev(c, e)
        if isinstance(n, ast.DictComp):
            self.ev(n.key, e)
            return self.ev(n.value, e)
        return self.ev(n.elt, e)
    x_ListComp = x_SetComp = x_GeneratorExp = x_DictComp = x_comp

    def x_Compare(self, n, env):
        us = [self.ev(x, env) for x in [n.left] + n.comparators]
        for op, a, b in zip(n.ops, us, us[1:]):
            if not isinstance(op, (ast.Is, ast.IsNot)):
                self.mix(a, b, n, 'compared with')
        return E

    def mix(self, a, b, node, how):
        if a & {'T', 'S'} and b & {'T', 'S', 'C'} or b & {'T', 'S'} and a & {'T', 'S', 'C'}:
            self.rule.n['mixes'] += 1
        for x, y in ((a, b), (b, a)):
            if 'T' in x and y & {'S', 'C'}:
                self.bad('mix', node, f'ticks are {how} {words(y & (S | C))}: {ast.unparse(node)[:80]}')
                return True
        return False

    def x_BinOp(self, n, env):
        a, b = self.ev(n.left, env), self.ev(n.right, env)
        if isinstance(n.op, ast.Mult):
            for x, u in ((n.left, a), (n.right, b)):
                if isinstance(x, (ast.List, ast.Tuple)):
                    return u          # repetition of a list
        if isinstance(n.op, ast.Pow) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
            if n.left.value == 10 and n.right.value == 9:
                return R
        return self.binop(n.op, a, b, n)

    def binop(self, op, a, b, node):
        if isinstance(op, (ast.Add, ast.Sub)):
            if self.mix(a, b, node, 'added to' if isinstance(op, ast.Add) else 'subtracted from or by'):
                return E
            return self.plus(a, b)
        if isinstance(op, ast.Mod):
            if self.mix(a, b, node, 'reduced modulo'):
                return E
            return a - N or a
        if isinstance(op, ast.Mult):
            if 'R' in a | b:
                o = b if 'R' in a else a
                return T if o & {'S', 'C'} else E
            if 'T' in a | b:
                o = b if 'T' in a else a
                if not o & {'n', 'T'}:
                    self.phys('*', node)
                    return E
                return T
            if a == N or b == N:
                return b if a == N else a
            return E
        if isinstance(op, (ast.Div, ast.FloorDiv)):
            if 'R' in b:
                return S if 'T' in a else E
            if self.mix(a, b, node, 'divided by'):
                return E
            if 'T' in a:
                if 'T' in b:
                    return N
                if b - N:
                    return E
                if not b:
                    self.phys('*', node)
                    return E
                return T
            if 'T' in b:
                self.phys('/', node)
                return E
            if a & {'S', 'C'} and b == N:
                return a
            return N if a == N and b == N or a == S and b == S else E
        return E

    def phys(self, how, node):
        # a sum weighted with ticks is a mean once it is divided by ticks
        if self.report:
            self.weights.append((how, self.stack[-1], node))

    def unbalanced(self):
        if len({h for h, _, _ in self.weights}) == 1:
            for h, f, node in self.weights:
                self.stack.append(f)
                self.bad('quantity', node, f'a number of ticks is used as a physical quantity: {ast.unparse(node)[:80]}')
                self.stack.pop()

    def plus(self, a, b):
        if 'T' in a | b:
            return T
        if 'S' in a | b:
            return S
        if a == N:
            return b
        if b == N:
            return a
        return C if a == C and b == C else E

    # -- calls
    def sub(self, env):
        return Env({k: v for k, v in env.items() if k.startswith('.')})

    def back(self, env, out):
        for k, v in (out or {}).items():
            if k.startswith('.'):
                env[k] = v

    def x_Call(self, n, env):
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        args = [self.ev(a, env) for a in n.args]
        kw = {k.arg: self.ev(k.value, env) for k in n.keywords}
        base = E
        target = None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == 'self':
                target = self.ix.find_method(self.cls, name)
            elif isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and self.stack[-1].cls:
                target = self.ix.find_method(self.cls, name, after=self.stack[-1].cls.name)
            elif isinstance(f.value, ast.Name) and f.value.id in self.ix.classes and name in ('__init__', *HOOKS, 'setup') and args:
                target = self.ix.find_method(f.value.id, name)
                args = args[1:]
            else:
                base = self.ev(f.value, env)
        a0 = args[0] if args else next(iter(kw.values()), E)
        if name == 'seconds_to_t':
            self.rule.n['conversions'] += 1
            if 'T' in a0:
                self.bad('conversion', n, f'seconds_to_t() is given ticks: {ast.unparse(n)[:80]}')
            return T
        if name == 't_to_seconds':
            self.rule.n['conversions'] += 1
            if a0 & {'S', 'C'}:
                self.bad('conversion', n, f't_to_seconds() is given {words(a0 & (S | C))}: {ast.unparse(n)[:80]}')
            return S
        if name in HOOKS and a0 & {'S', 'C'}:
            self.bad('conversion', n, f'{name}() is given {words(a0 & (S | C))}: {ast.unparse(n)[:80]}')
        if target is None and isinstance(f, ast.Attribute) and name in ('run', 'start') and isinstance(f.value, ast.Attribute):
            k = self.key(f.value)
            if k and 'LoopControl' in self.rule.types(self.cls, k[1:]):
                for w, u in [('', x) for x in args] + list(kw.items()):
                    if 'T' in u:
                        self.bad('conversion', n, f'{name}() of the loop is given ticks')
        if name == 'setattr' and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
            self.sink(n.args[1].value, args[2], n)
        if target is not None:
            if target.is_property:
                return E
            if target in self.stack or len(self.stack) > 7:
                return E
            e = self.sub(env)
            a = target.node.args
            ps = [p.arg for p in a.posonlyargs + a.args]
            if not target.is_static:
                ps = ps[1:]
            for p in ps + [p.arg for p in a.kwonlyargs]:
                e[p] = E
            for p, d in list(zip(reversed(ps), reversed(a.defaults))) + list(zip([p.arg for p in a.kwonlyargs], a.kw_defaults)):
                e[p] = self.ev(d, Env()) if d is not None else E
            for p, u in zip(ps, args):
                e[p] = u
            for p, u in kw.items():
                if p is not None:
                    e[p] = u
            if target.name in HOOKS and ps and not e[ps[0]]:
                e[ps[0]] = T
            b = getattr(self, 'brk', [])
            self.brk = []
            self.back(env, self.function(target, e))
            self.brk = b
            return self.ret
        if name in GROW and isinstance(f, ast.Attribute):
            k = self.key(f.value)
            if k is not None and args:
                env[k] = self.look(k, env) | (args[-1] - N)
            return E
        if name in BINF and len(args) == 2:
            return self.binop(BINF[name](), args[0], args[1], n)
        if name in CMPF and len(args) >= 2:
            for x in args[1:]:
                self.mix(args[0], x, n, 'compared with')
        if name in MATH and any('T' in x for x in args):
            self.phys('*', n)
            return E
        if name in KEEP:
            u = base
            for x in args:
                u |= x
            return (u - N) or u
        return E


class Rule:
    def __init__(self, ix, res):
        self.ix, self.res = ix, res
        self.n = {'functions': set(), 'conversions': 0, 'mixes': 0, 'stores': 0, 'classes': 0}
        self.done = {}
        self.ty = {}

    def bad(self, rule, construct, where, msg):
        self.res.add(rule, construct, where, msg)

    def types(self, cls, attr):
        """classes an attribute of cls is constructed with"""
        k = (cls, attr)
        if k not in self.ty:
            out = set()
            for c in self.ix.mro(cls):
                for f in c.methods.values():
                    for s in ast.walk(f.node):
                        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call):
                            for t in s.targets:
                                if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == 'self':
                                    d = dotted(s.value.func)
                                    if d and d.split('.')[-1] in self.ix.classes:
                                        out.add(d.split('.')[-1])
            self.ty[k] = sorted(out)
        return self.ty[k]

    def units(self, cls):
        if cls not in self.done:
            self.done[cls] = {}
            u = Units(self, self.ix, cls)
            self.n['classes'] += 1
            u.run()
            self.done[cls] = u.attrs
        return self.done[cls]

    # -- the clock
    def conversions(self):
        SELF = ('v', 'self')
        for name, par in (('seconds_to_t', 1), ('t_to_seconds', 1)):
            owners = [c for c in self.ix.classes.values() if name in c.methods]
            for c in owners:
                f = c.methods[name]
                ps = [a.arg for a in f.node.args.args]
                x = ('v', ps[1])
                for p in Paths(self.ix, c.name).run(f):
                    if p.how == 'raise':
                        continue
                    v = p.value
                    nodes = [q for q in walk(v) if len(q) > 1]
                    if name == 'seconds_to_t':
                        prod = [q for q in nodes if q[0] == 'op' and q[1] == '*' and mentions(q, lambda z: z == x) and has_attr(q, '_time_resolution')]
                        near = any(q[0] == 'call' and callee(q) in ('round', 'rint', 'around') for q in nodes) or any(
                            q[0] == 'op' and q[1] == '+' and ('c', 0.5) in q[2:] for q in nodes)
                        if not prod:
                            self.bad('definition', f'{c.name}.seconds_to_t', f'{c.rel}:{f.node.lineno}', f'seconds_to_t(s) is {show(v)}, not s times the resolution')
                        elif not near:
                            self.bad('definition', f'{c.name}.seconds_to_t:round', f'{c.rel}:{f.node.lineno}', f'seconds_to_t(s) is {show(v)}: truncated, not the nearest tick')
                    else:
                        quo = [q for q in nodes if q[0] == 'op' and q[1] == '/' and mentions(q[2], lambda z: z == x) and has_attr(q[3], '_time_resolution')]
                        if not quo or any(q[0] == 'op' and q[1] == '//' for q in nodes) or any(q[0] == 'call' and callee(q) in ('int', 'round') and mentions(q, lambda z: z and z[0] == 'op') for q in nodes):
                            self.bad('definition', f'{c.name}.t_to_seconds', f'{c.rel}:{f.node.lineno}', f't_to_seconds(t) is {show(v)}, not t divided by the resolution')
        for m in self.ix.modules.values():
            for fn in ast.walk(m.tree):
                if not isinstance(fn, (ast.FunctionDef, ast.ClassDef)):
                    continue
                for s in ast.walk(fn) if isinstance(fn, ast.FunctionDef) else fn.body:
                    tg = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, (ast.AugAssign, ast.AnnAssign)) else []
                    for t in tg:
                        if isinstance(t, ast.Attribute) and t.attr == '_time_resolution' or isinstance(t, ast.Name) and t.id == '_time_resolution':
                            self.n['stores'] += 1
                            if m.rel.endswith('base_time_obj.py'):
                                continue
                            self.bad('resolution', f'{m.rel}:{fn.name}', f'{m.rel}:{s.lineno}', f'{fn.name}: the resolution of the clock is changed for one object only')


def run(ix, tier):
    res = Result()
    r = Rule(ix, res)
    for c in sorted(ix.classes):
        if ix.is_sub(c, 'BaseTimeObj') or c == 'Simul':
            r.units(c)
    r.conversions()
    n = r.n
    res.floor('classes_analysed', n['classes'], 60)
    res.floor('conversions_seen', n['conversions'], 30)
    res.stats.update(functions_analysed=len(n['functions']), tick_expressions_combined=n['mixes'], clock_stores=n['stores'])
    res.assumptions = ['a parameter of a constructor that enters a computation with times is in seconds (as documented)',
                       'values read from files and from the outputs of other objects have no known unit']
    return res
