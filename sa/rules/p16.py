"""Reproducibility rule.  Random numbers come only from generators that are
seeded from the parameters of the object: (1) no draw from the global generator
of numpy/cupy/python, unless the path has established that the user gave no
seed; (2) every generator constructed in the life cycle of a processing class
gets a seed that is not None and derives from parameters or constants; (3) a
generator built during a step has a seed that advances; (4) every seed
parameter of a class reaches a generator; (5) no wall clock, process or memory
identity value is stored in an object that takes part in the simulation."""
import ast
from ..engine import Monitor
from ..report import Result
from ..sweep import sweep, sweep_stats

MAKERS = {'default_rng', 'RandomState', 'Generator', 'SeedSequence', 'PCG64', 'MT19937', 'Philox', 'XORWOW', 'MRG32k3a', 'Philox4x3210',
          'Random', 'BitGenerator'}
SEEDED = MAKERS - {'Generator', 'BitGenerator'}
NEUTRAL = {'random_sample!', 'get_state'}
CLOCKS = ('time', 'time_ns', 'perf_counter', 'perf_counter_ns', 'monotonic', 'process_time', 'now', 'utcnow', 'today', 'getpid', 'urandom', 'uuid1', 'uuid4',
          'id', 'token_bytes', 'token_hex')
CLOCK_NAMES = {'time.' + c for c in CLOCKS} | {'time', 'time_ns', 'perf_counter', 'monotonic', 'datetime.now', 'datetime.datetime.now', 'datetime.utcnow',
                                               'datetime.datetime.utcnow', 'datetime.date.today', 'os.getpid', 'getpid', 'os.urandom', 'urandom',
                                               'uuid.uuid1', 'uuid.uuid4', 'uuid1', 'uuid4', 'id', 'hash', 'random.random'}
REPORTING = ('BaseDisplay', 'DisplayServer', 'DataStore')
STEP = ('step', 'trigger', 'post')


def flat(s):
    if isinstance(s, (tuple, frozenset)):
        for x in s:
            yield from flat(x)
    else:
        yield s


def random_name(name):
    """'cp.random.normal' -> 'normal', for the modules holding a global generator"""
    n = str(name)
    for p in ('cp.random.', 'np.random.', 'numpy.random.', 'cupy.random.', 'random.'):
        if n.startswith(p):
            return n[len(p):]
    return None


class Rng(Monitor):
    init = ()

    def __init__(self, ix, cname, steps=2, budget=30000):
        self.ix = ix
        self.cname = cname
        self.out = {'bad': {}, 'seeds': set(), 'makers': 0, 'draws': 0}
        self.ph = None
        self.reporting = any(b in ix.classes and ix.is_sub(cname, b) for b in REPORTING)

    def on_phase(self, eng, st, ph):
        self.ph = ph

    def bad(self, eng, kind, what, node):
        f = eng.fn()
        self.out['bad'].setdefault((kind, what, f.qual if f else '?'), eng.where(node))

    def on_call(self, eng, st, name, recv, args, kwargs, node):
        n = random_name(name)
        if n is None and str(name).split('.')[-1] in SEEDED:
            n = str(name).split('.')[-1]
        if n is None:
            return
        if n in SEEDED:
            self.out['makers'] += 1
            a = args[0] if args else kwargs.get('seed')
            if a is None or a.kinds == frozenset(['None']):
                self.bad(eng, 'unseeded-generator', n, node)
                return
            s = set(x for x in flat(a.sym) if isinstance(x, str)) if a.sym else set()
            if 'None' in a.kinds and not no_seed_test(eng.fn(), node):
                self.bad(eng, 'unseeded-generator', n, node)
            if s & (CLOCK_NAMES - {'random.random'}) and 'call' in s:
                self.bad(eng, 'clock-seed', n, node)
            self.out['seeds'] |= s
            if self.ph in STEP and not s & {'aug', 'T', '?'}:
                self.bad(eng, 'restarted-generator', n, node)
        elif n not in MAKERS and '.' not in n:
            self.out['draws'] += 1
            if n not in NEUTRAL and not no_seed_test(eng.fn(), node):
                self.bad(eng, 'global-generator', n, node)

    def tainted(self, val):
        if not val.sym:
            return None
        todo = [val.sym]
        while todo:
            s = todo.pop()
            if isinstance(s, tuple):
                if len(s) >= 2 and s[0] == 'call' and s[1] in CLOCK_NAMES - {'random.random', 'time'}:
                    return s[1]
                todo.extend(x for x in s if isinstance(x, (tuple, frozenset)))
            elif isinstance(s, frozenset):
                todo.extend(s)
        return None

    def on_setattr(self, eng, st, base, attr, val, node):
        if not self.reporting:
            t = self.tainted(val)
            if t:
                self.bad(eng, 'clock-value', t, node)

    def on_write(self, eng, st, locs, node, how, val=None):
        if not self.reporting and val is not None:
            t = self.tainted(val)
            if t:
                self.bad(eng, 'clock-value', t, node)


def no_seed_test(fn, node):
    """node lies in a branch taken only when a seed is None"""
    if fn is None:
        return False

    def tests_seed(t):
        # truth value of `t` that means "no seed given", or None
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = tests_seed(t.operand)
            return None if r is None else not r
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None \
                and 'seed' in ast.unparse(t.left).lower():
            if isinstance(t.ops[0], (ast.Is, ast.Eq)):
                return True
            if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
                return False
        return None
    for n in ast.walk(fn.node):
        if isinstance(n, (ast.If, ast.IfExp)):
            r = tests_seed(n.test)
            if r is None:
                continue
            part = n.body if r else n.orelse
            for b in part if isinstance(part, list) else [part]:
                if any(m is node for m in ast.walk(b)):
                    return True
    return False


def functions_of(m):
    yield from m.functions.values()
    for c in m.classes.values():
        yield from c.methods.values()


def init_params(ix, cname):
    f = ix.find_method(cname, '__init__')
    if f is None:
        return []
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.arg != 'self']


def static_draws(ix):
    """Draws from a global generator anywhere in the package (also in code no
    processing class reaches): chains <module>.random.<draw>."""
    out = []
    n = 0
    for m in ix.modules.values():
        std = set()
        direct = {}
        for s in ast.walk(m.tree):
            if isinstance(s, ast.Import):
                std |= {a.asname or a.name for a in s.names if a.name == 'random'}
            elif isinstance(s, ast.ImportFrom) and s.module in ('random', 'numpy.random', 'cupy.random'):
                direct.update({a.asname or a.name: a.name for a in s.names})
        for f in functions_of(m):
            for c in ast.walk(f.node):
                if not isinstance(c, ast.Call):
                    continue
                d = None
                if isinstance(c.func, ast.Attribute):
                    v = c.func.value
                    if isinstance(v, ast.Attribute) and v.attr == 'random':
                        d = c.func.attr
                    elif isinstance(v, ast.Name) and v.id in std:
                        d = c.func.attr
                elif isinstance(c.func, ast.Name) and c.func.id in direct:
                    d = direct[c.func.id]
                if d is None:
                    continue
                n += 1
                if d in SEEDED:
                    if not c.args and not c.keywords:
                        out.append(('unseeded-generator', d, f, c))
                elif d not in MAKERS and not no_seed_test(f, c):
                    out.append(('global-generator', d, f, c))
    return out, n


def run(ix, tier):
    res = Result()
    out = sweep(ix, Rng, tier)
    sweep_stats(res, out)
    found = {}
    makers = draws = params = 0
    for c, (o, s) in sorted(out.items()):
        if o is None or s['error']:
            continue
        makers += o['makers']
        draws += o['draws']
        for (kind, what, fn), where in sorted(o['bad'].items(), key=str):
            found.setdefault((kind, fn, what), where)
        if s['aborted'] in ('init',):
            continue
        for p in init_params(ix, c):
            if 'seed' in p.lower():
                params += 1
                if p not in o['seeds']:
                    f = ix.find_method(c, '__init__')
                    found.setdefault(('seed-unused', f.qual, p), f'{f.module.rel}:{f.node.lineno}')
    st, n = static_draws(ix)
    for kind, d, f, c in st:
        found.setdefault((kind, f.qual, d), f'{f.module.rel}:{c.lineno}')
    msg = {'global-generator': 'draws {1} from the global random generator: two runs of the same configuration differ',
           'unseeded-generator': 'builds a random generator ({1}) that may be unseeded',
           'clock-seed': 'seeds {1} with something that differs from run to run',
           'restarted-generator': 'builds {1} anew at every step with the same seed: the same numbers are drawn at every step',
           'clock-value': 'stores a value of {1}, which differs from run to run, in the state of the simulation',
           'seed-unused': "takes the seed parameter '{1}' but no random generator is built from it"}
    for (kind, fn, what), where in sorted(found.items()):
        res.add(kind, f'{fn}.{what}', where, f'{fn} ' + msg[kind].format(fn, what))
    res.floor('generators_built', makers, 5)
    res.floor('seed_parameters', params, 6)
    res.stats['random_call_sites'] = n
    return res
