"""Precision/device propagation rule.  (a) every data object, sub-object or
helper whose constructor accepts a precision / target device and that is built
while a processing object is constructed, set up or run receives both
explicitly, and never as a literal constant; (b) no array reaching an output is
allocated without a dtype; (c) no method of an object that knows its precision,
and no library function with a dtype parameter, converts or allocates with a
hard-coded floating point type."""
import ast
from ..engine import Monitor, NOCONST
from ..index import dotted
from ..report import Result
from ..sweep import sweep, sweep_stats

PARAMS = ('precision', 'target_device_idx')
POS = {'zeros': 2, 'ones': 2, 'empty': 2, 'full': 3}
HARD = {'float16', 'float32', 'float64', 'complex64', 'complex128', 'single', 'double', 'half'}

# confirmed by reading
NEW_OK = {
    # placeholder sent to the browser when the requested object does not exist
    ('DisplayServer', 'BaseValue'),
    # header-only factory used by restore(): precision of restored data is global
    ('Pixels', 'Pixels'),
}
HARD_OK = {
    # scipy least squares fit on the CPU, result copied back into own dtype
    ('SpotMonitor', 'float64'),
    # what is sent to the browser
    ('DisplayServer', 'float32'),
}


def mentions_param(s, p):
    if s == ('param', p) or s == p:
        return True
    return isinstance(s, tuple) and any(mentions_param(x, p) for x in s)


class Prop(Monitor):
    init = ()

    def __init__(self, ix, cname):
        self.ix = ix
        self.cname = cname
        self.out = {'new': {}, 'arr': {}, 'n': 0, 'alloc': 0, 'base': {}, 'own': set()}
        self.locs = {}

    def on_new(self, eng, st, cname, loc, args, kwargs, bound, node):
        f = self.ix.find_method(cname, '__init__')
        fn = eng.fn()
        if f is None or fn is None:
            return
        names = [p.arg for p in f.node.args.args + f.node.args.kwonlyargs]
        starred = any(isinstance(a, ast.Starred) for a in getattr(node, 'args', ())) or \
            any(k.arg is None for k in getattr(node, 'keywords', ()))
        owner = fn.qual.split('.')[0]
        if (owner, cname) in NEW_OK:
            return
        # a class building one of its own kind in a static factory has no owner
        if not self.has_self(fn) and not set(PARAMS) & set(a.arg for a in fn.node.args.args):
            return
        for p in PARAMS:
            if p not in names:
                continue
            if p == 'precision' and not self.has_self(fn) and p not in [a.arg for a in fn.node.args.args]:
                continue
            self.out['n'] += 1
            v = bound.get(p)
            if v is None:
                if not starred:
                    self.out['new'][(fn.qual, cname, p, 'not passed')] = eng.where(node)
            elif v.sym and v.sym[0] == 'const' and v.const is not NOCONST:
                self.out['new'][(fn.qual, cname, p, f'fixed to {v.const}')] = eng.where(node)

    @staticmethod
    def has_self(fn):
        a = fn.node.args.args
        return bool(a) and a[0].arg == 'self'

    def on_enter(self, eng, st, fn, node):
        self.helper(eng, fn, node)
        # the object itself: what its constructor received reaches the base class
        if fn.cls is None or fn.cls.name != 'BaseTimeObj' or fn.name != '__init__':
            return
        a = eng.enter_args
        if not a or ('self',) not in a[0].locs:
            return
        init = self.ix.find_method(self.cname, '__init__')
        if init is None:
            return
        own = [x.arg for x in init.node.args.args + init.node.args.kwonlyargs]
        names = [x.arg for x in fn.node.args.args]
        b = eng.enter_bound
        for p in PARAMS:
            if p not in own or p not in names:
                continue
            self.out['n'] += 1
            self.out['own'].add(p)
            v = b.get(p)
            if v is None or not mentions_param(v.sym, p):
                if any(isinstance(n, ast.Call) and '__init__' in ast.unparse(n.func) and any(
                        k.arg is None and not (init.node.args.kwarg and isinstance(k.value, ast.Name) and k.value.id == init.node.args.kwarg.arg)
                        for k in n.keywords) for n in ast.walk(init.node)):
                    continue    # handed over inside a ** dictionary
                self.out['base'][p] = (init.cls.name, f'{init.module.rel}:{init.node.lineno}')

    def helper(self, eng, fn, node):
        """Functions and factories of the package taking a precision, device or dtype."""
        if fn.name == '__init__' or not isinstance(node, ast.Call) or isinstance(fn.node, ast.Lambda):
            return
        caller = eng.fn()
        if caller is None or not self.has_self(caller) or caller.cls is None or not self.ix.is_sub(caller.cls.name, 'BaseTimeObj'):
            return
        if any(isinstance(a, ast.Starred) for a in node.args) or any(k.arg is None for k in node.keywords):
            return
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        off = 1 if pos and pos[0] in ('self', 'cls') and fn.cls is not None and not fn.is_static else 0
        for p in PARAMS:
            if p not in pos + [x.arg for x in a.kwonlyargs]:
                continue
            self.out['n'] += 1
            if any(k.arg == p for k in node.keywords) or (p in pos and pos.index(p) - off < len(node.args)):
                continue
            self.out['new'][(caller.qual, fn.qual + '()', p, 'not passed')] = eng.where(node)

    def on_call(self, eng, st, name, recv, args, kwargs, node):
        d = name.split('.')
        if d[-1] in ('cpuArray', 'to_xp') and ('dtype' in kwargs or len(args) > (1 if d[-1] == 'cpuArray' else 2)):
            # the allocation is converted right away to the requested type
            for a in args:
                for l in getattr(a, 'locs', ()):
                    self.locs.pop(l, None)
            return
        if d[-1] in POS and d[0] in ('np', 'xp', 'cp', 'numpy', 'cupy') and len(d) == 2:
            self.out['alloc'] += 1
            if 'dtype' not in kwargs and len(args) < POS[d[-1]]:
                self.locs[('arr', eng.site(node))] = (eng.fn().qual, eng.where(node), name)

    def after_phase(self, eng, st, ph):
        for n, (v, ol) in self.lc.outputs(st).items():
            for l in self.lc.reach(st, ol):
                if l in self.locs:
                    self.out['arr'][(str(n),) + self.locs[l]] = ph


def hardcoded(ix, res):
    """(c): hard-coded floating types where a configured dtype is available."""
    nfun = 0
    seen_ok = 0
    for m in ix.modules.values():
        for cls, fn in funcs(m.tree):
            args = [a.arg for a in fn.args.args + fn.args.kwonlyargs]
            if cls is not None:
                if cls not in ix.classes or not ix.is_sub(cls, 'BaseTimeObj') or 'self' not in args:
                    if 'dtype' not in args:
                        continue
            elif 'dtype' not in args:
                continue
            nfun += 1
            skip = set()
            for n in ast.walk(fn):
                if isinstance(n, ast.Compare):
                    skip |= {id(x) for x in ast.walk(n)}
                # a type chosen from the configured precision
                if isinstance(n, (ast.IfExp, ast.If)) and any(
                        isinstance(x, (ast.Attribute, ast.Name)) and (getattr(x, 'attr', None) or getattr(x, 'id', None)) in ('precision', 'dtype', 'complex_dtype')
                        for x in ast.walk(n.test)):
                    skip |= {id(x) for x in ast.walk(n)}
                if isinstance(n, ast.arguments):
                    skip |= {id(x) for d in n.defaults + [k for k in n.kw_defaults if k] for x in ast.walk(d)}
                # a scalar constant of that type (GPU kernels)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in HARD:
                    skip |= {id(n.func)}
            for n in ast.walk(fn):
                t = None
                if isinstance(n, ast.Attribute) and n.attr in HARD and isinstance(n.ctx, ast.Load):
                    d = dotted(n)
                    if d and d.split('.')[-2] in ('np', 'xp', 'cp', 'numpy', 'cupy'):
                        t = n.attr
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'astype':
                    a = n.args[0] if n.args else None
                    if isinstance(a, ast.Constant) and a.value in HARD:
                        t, n = a.value, a
                elif isinstance(n, ast.keyword) and n.arg == 'dtype' and isinstance(n.value, ast.Constant) and n.value.value in HARD:
                    t, n = n.value.value, n.value
                if t is None or id(n) in skip:
                    continue
                owner = cls or m.name.split('.')[-1]
                if (owner, t) in HARD_OK and isinstance(n, ast.Constant):
                    seen_ok += 1
                    continue
                res.add('hard-coded-type', f'{owner}.{fn.name}:{t}', f'{m.rel}:{n.lineno}',
                        f'{owner}.{fn.name} uses {t} instead of the precision it was configured with')
    res.floor('functions_with_a_configured_dtype', nfun, 500)
    res.stats['accepted_fixed_types_seen'] = seen_ok


def funcs(tree):
    for x in tree.body:
        if isinstance(x, ast.FunctionDef):
            yield None, x
        elif isinstance(x, ast.ClassDef):
            for f in x.body:
                if isinstance(f, ast.FunctionDef):
                    yield x.name, f


def run(ix, tier):
    res = Result()
    out = sweep(ix, Prop, tier)
    sweep_stats(res, out)
    n = al = 0
    for c, (o, s) in sorted(out.items()):
        if o is None or s['error']:
            continue
        n += o['n']
        al += o['alloc']
        for (fn, cname, p, how), where in sorted(o['new'].items()):
            res.add('not-propagated', f'{fn}:{cname}:{p}', where,
                    f'{fn} (running for {c}) builds a {cname} whose {p} is {how}: it falls back to the global default '
                    f'instead of the value configured for the object')
        for p, (owner, where) in sorted(o['base'].items()):
            res.add('constructor-drops-argument', f'{c}:{p}', where,
                    f"{owner}.__init__ (building a {c}) does not hand the {p} it receives to its base class: the object uses the global default")
        for (name, fn, where, d), ph in sorted(o['arr'].items()):
            res.add('untyped-output-array', f'{c}.{name}:{fn}', where,
                    f"output '{name}' of {c} holds an array allocated by {d}() without dtype in {fn}: always double precision")
    hardcoded(ix, res)
    res.floor('constructor_arguments_checked', n, 600)
    res.floor('allocations_seen', al, 500)
    return res
