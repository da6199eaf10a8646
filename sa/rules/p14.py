"""Optional input rule: on every path of every phase, an attribute or element
is taken from an optional input only where the path has established that the
input is set - unless setup() of the class rejects, with an explicit raise
governed by a test of that input, the configurations that leave it unset."""
import ast
from ..conc import Conc, UNK
from ..engine import Monitor
from ..paths import Paths, TooMany
from ..report import Result
from ..sweep import sweep, sweep_stats


class OptIn(Monitor):
    init = ()

    def __init__(self, ix, cname, steps=2, budget=30000):
        self.out = {'bad': {}, 'uses': 0, 'opt': set(), 'n': 0}
        self.ph = None

    def on_phase(self, eng, st, ph):
        self.ph = ph

    def on_attr(self, eng, st, base, attr, node):
        if any(l[0] == 'in' for l in base.locs):
            self.out['n'] += 1

    def on_none_deref(self, eng, st, base, node, what):
        ins = {l[1] for l in base.locs if l[0] == 'in'}
        if not ins or len(ins) != len(base.locs):
            return
        f = eng.fn()
        for i in ins:
            self.out['bad'].setdefault((i, f.qual if f else '?', self.ph), (eng.where(node), what))


def input_names_in(fn, expr, defs, seen=()):
    """Names of the inputs the value of expr is derived from (string keys of
    self.local_inputs / self.inputs, through the local variables)."""
    out = set()
    for n in ast.walk(expr):
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            out.add(n.value)
        elif isinstance(n, ast.Name) and n.id in defs and n.id not in seen:
            for d in defs[n.id]:
                out |= input_names_in(fn, d, defs, seen + (n.id,))
        elif isinstance(n, ast.Attribute) and ('self.' + n.attr) in defs and ('self.' + n.attr) not in seen:
            for d in defs['self.' + n.attr]:
                out |= input_names_in(fn, d, defs, seen + ('self.' + n.attr,))
    return out


def none_tests(fn, e, defs, seen=()):
    """Inputs whose being set or not decides the truth of e."""
    if isinstance(e, ast.BoolOp):
        return set().union(*(none_tests(fn, v, defs, seen) for v in e.values))
    if isinstance(e, ast.UnaryOp):
        return none_tests(fn, e.operand, defs, seen)
    if isinstance(e, ast.Compare):
        ops = [e.left] + e.comparators
        if any(isinstance(c, ast.Constant) and c.value is None for c in ops):
            return set().union(*(input_names_in(fn, o, defs) for o in ops))
        if any(isinstance(c, ast.Constant) for c in ops):      # len(x) == 0, flag == False
            return set().union(*(none_tests(fn, o, defs, seen) for o in ops))
        return set()
    if isinstance(e, (ast.Name, ast.Attribute)):
        k = e.id if isinstance(e, ast.Name) else 'self.' + e.attr
        if k in defs and k not in seen:
            return set().union(*(none_tests(fn, d, defs, seen + (k,)) for d in defs[k]))
        return set()
    if isinstance(e, ast.Subscript):
        return input_names_in(fn, e, defs)
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'get':
            return input_names_in(fn, e, defs)
        out = set()
        for a in e.args:
            for n in ast.walk(a):
                if isinstance(n, (ast.Compare, ast.Name, ast.Subscript)):
                    out |= none_tests(fn, n, defs, seen)
        return out
    return set()


def governed(fn, e, defs, seen=()):
    """Inputs an explicit rejection depends on, however it is written; what
    is compared of their contents does not count."""
    if isinstance(e, ast.Constant):
        return set()
    if isinstance(e, (ast.Name, ast.Attribute)):
        if isinstance(e, ast.Attribute) and not (isinstance(e.value, ast.Name) and e.value.id == 'self'):
            return set()
        k = e.id if isinstance(e, ast.Name) else 'self.' + e.attr
        if k in defs and k not in seen:
            return set().union(*(governed(fn, d, defs, seen + (k,)) for d in defs[k]))
        return set()
    if isinstance(e, ast.Subscript):
        if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
            return {e.slice.value}
        return set()
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get' and e.args and isinstance(e.args[0], ast.Constant):
        return {e.args[0].value}
    return set().union(set(), *(governed(fn, c, defs, seen) for c in ast.iter_child_nodes(e)))


def rejected(ix, cname):
    """Inputs whose absence setup() (or what it calls on self) rejects."""
    out = set()
    done = set()
    for c in ix.mro(cname):
        if c.name == 'BaseProcessingObj':
            continue
        f = c.methods.get('setup')
        todo_f = [f] if f else []
        while todo_f:
            f = todo_f.pop()
            if f in done:
                continue
            done.add(f)
            defs = {}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            defs.setdefault(t.id, []).append(n.value)
                        elif isinstance(t, ast.Attribute):
                            defs.setdefault('self.' + t.attr, []).append(n.value)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                    g = ix.find_method(cname, n.func.attr)
                    if g is not None and g.cls is not None and g.cls.name != 'BaseProcessingObj':
                        todo_f.append(g)

            def walk(stmts, conds):
                for s in stmts:
                    if isinstance(s, ast.Raise):
                        for c_ in conds:
                            out.update(none_tests(f, c_, defs) | governed(f, c_, defs))
                    elif isinstance(s, ast.If):
                        walk(s.body, conds + [s.test])
                        walk(s.orelse, conds + [s.test])
                    elif isinstance(s, ast.Assert):
                        out.update(none_tests(f, s.test, defs) | governed(f, s.test, defs))
                    else:
                        for fld in ('body', 'orelse', 'finalbody'):
                            b = getattr(s, fld, None)
                            if isinstance(b, list):
                                walk(b, conds)
            walk(f.node.body, [])
    return out


ENTRY = {'setup': ('setup',), 'step': ('prepare_trigger',), 'trigger': ('trigger', 'trigger_code'), 'post': ('post_trigger',)}
LOCAL = ('a', ('v', 'self'), 'local_inputs')


class Unset(Conc):
    """The input `name` is not connected; what was decided on the path and
    what setup() left in the attributes is known."""
    def __init__(self, name, conds=None, attrs=None):
        self.name = name
        self.conds = conds or {}
        self.attrs = attrs or {}

    def isit(self, v):
        if v[0] == 'i' and v[1] == LOCAL and v[2] == ('c', self.name):
            return True
        return v[0] == 'call' and v[1] == ('a', LOCAL, 'get') and v[2][:1] == (('c', self.name),)

    def leaf(self, v):
        if self.isit(v):
            return None
        if v[0] in ('i', 'call') and LOCAL in (v[1], v[1][1] if v[1][0] == 'a' else None):
            # an object that is there counts as true
            if v in self.conds:
                return 'set' if self.conds[v] else None
            none = self.conds.get(('cmp', 'is', v, ('c', None)))
            return UNK if none is None else None if none else 'set'
        if v in self.conds:
            return self.conds[v]
        if v in self.attrs:
            a = self.attrs[v]
            return UNK if a == v else self(a)
        return UNK


def derefs(ev, v):
    """Does evaluating v take an attribute of the unset input?"""
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'a' and isinstance(v[1], tuple) and ev.isit(v[1]):
        return True
    if v[0] == 'ite':
        t = ev(v[1])
        return derefs(ev, v[1]) or (t is UNK or bool(t)) and derefs(ev, v[2]) or (t is UNK or not t) and derefs(ev, v[3])
    if v[0] in ('and', 'or'):
        for x in v[1:]:
            if derefs(ev, x):
                return True
            t = ev(x)
            if t is not UNK and bool(t) == (v[0] == 'or'):
                return False
        return False
    return any(derefs(ev, x) for x in v[1:])


class Unclear(Exception):
    """A decision the rule does not see through."""


def plain(a, stored):
    """Atoms that are independent of each other: a flag or a missing option of
    the object, an input that is set or empty."""
    def leaf(v):
        if v[0] == 'a' and v[1] == ('v', 'self'):
            return v not in stored
        return v[0] == 'i' and v[1] == LOCAL and v[2][0] == 'c' or v[0] == 'call' and v[1] == ('a', LOCAL, 'get')
    if leaf(a):
        return True
    if a[0] == 'nonempty':
        return leaf(a[1])
    if a[0] == 'cmp':
        l, r = a[2], a[3]
        if a[1] == 'is':
            return ('c', None) in (l, r) and (leaf(l) or leaf(r))
        for x, y in ((l, r), (r, l)):
            if y[0] == 'c' and x[0] == 'call' and x[1] == ('v', 'len') and leaf(x[2][0]) and x[2][0][1] != ('v', 'self'):
                return True
    return False


def about_data(v):
    """The contents of an object are compared, not whether it is there."""
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] == 'a' and isinstance(v[1], tuple) and v[1] not in (('v', 'self'), LOCAL):
        return True
    return any(about_data(x) for x in v[1:])


def unset_paths(ix, cname, meth, name, attrs=None):
    """Paths of the method that end normally although the input is unset."""
    f = ix.find_method(cname, meth)
    if f is None or f.cls is None or f.cls.name == 'BaseProcessingObj':
        return []
    base = ix.classes['BaseProcessingObj'].methods
    ev = Unset(name, None, attrs)
    ps = Paths(ix, cname, limit=3000, noinline=tuple(b for b in base if b not in ('to_xp',)), oracle=ev.oracle).run(f)
    if attrs is None and not all(plain(a, ()) or about_data(a) for p in ps if p.how == 'raise' for a in p.conds):
        raise Unclear
    return [p for p in ps if p.how != 'raise']


def contradicts(ix, cname, name, ph):
    """False when some configuration passes setup() with the input unset and
    reaches, without failing otherwise, a use of it in phase `ph`."""
    def uses(p, attrs=None):
        ev = Unset(name, p.conds, attrs)
        return any(derefs(ev, x) for it in p.trace for x in it[1:] if isinstance(x, tuple))
    try:
        alive = unset_paths(ix, cname, 'setup', name)
        if ph == 'setup':
            return not any(uses(p) and all(plain(a, ()) for a in p.conds) for p in alive)
        for s in alive:
            if uses(s) or not all(plain(a, ()) for a in s.conds):
                continue
            attrs = {}
            for i, lv, v, node in s.stores():
                if lv[0] == 'a' and lv[1] == ('v', 'self'):
                    attrs[lv] = v
            merged = Unset(name, s.conds, attrs)
            for m in ENTRY.get(ph, ()):
                for p in unset_paths(ix, cname, m, name, attrs):
                    if not uses(p) or not all(plain(a, attrs) for a in p.conds):
                        continue
                    # flags the step decides the way setup() knows them
                    back = Unset(name, p.conds, attrs)
                    if all(merged(a) is UNK or bool(merged(a)) == t for a, t in p.conds.items()) and all(
                            a in p.conds or back(a) is UNK or bool(back(a)) == t for a, t in s.conds.items()):
                        return False
        return True
    except (TooMany, Unclear):
        return True


def run(ix, tier):
    res = Result()
    out = sweep(ix, OptIn, tier)
    sweep_stats(res, out)
    n = 0
    waived = 0
    for c, (o, s) in sorted(out.items()):
        if o is None or s['error']:
            continue
        n += o['n']
        rej = rejected(ix, c) if o['bad'] else ()
        for (i, fn, ph), (where, what) in sorted(o['bad'].items(), key=str):
            if i in rej and contradicts(ix, c, i, ph):
                waived += 1
                continue
            owner = fn.split('.')[0]
            owner = owner if owner in ix.classes and ix.is_sub(c, owner) else c
            res.add('unset-optional-input', f'{owner}.{i}:{fn}', where,
                    f"{fn} uses .{what} of the optional input '{i}' of {c} on a path where it may be unset, and setup does not reject that")
    res.stats['uses_covered_by_setup_check'] = waived
    res.floor('input_uses_examined', n, 300)
    return res
