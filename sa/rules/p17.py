"""Save / restore rule.  For every data class with save() and restore(), the
constructor, save() and restore() are run abstractly one after the other on a
fully populated object over a model of the FITS file: (1) every key and
extension that restore() reads has been written by save(); (2) every attribute
written to the file ends up in the same attribute of the restored object; (3)
not transposed; (4) every attribute that the constructor computes from its
parameters, and that code outside the class reads, is recovered; (5) arrays
allocated by restore() from saved dimensions have their axes in order; (6) no
header value has an infinite default."""
import ast
import sys
from ..engine import Engine, Monitor, State, Val, EMPTY, NOCONST, constval, root
from ..fits import FitsModel, FILE
from ..report import Result
from ..sweep import sweep, sweep_stats

BASE = 'BaseDataObj'
META = {'shape', 'size', 'ndim', 'dtype', 'nbytes', 'itemsize'}
NOTSTATE = {'target_device_idx', 'precision', 'verbose', 'data_dir'}


class Model(FitsModel):
    """FitsModel that also looks at the shapes allocated by restore()"""
    restoring = False

    def __init__(self):
        super().__init__()
        self.swapped = []
        self.shapes = 0

    def call(self, eng, st, d, args, kwargs, n):
        if self.restoring and d.split('.')[-1] in ('zeros', 'ones', 'empty', 'full'):
            sh = args[0] if args else kwargs.get('shape')
            it = eng.tuple_items(st, sh) if sh is not None else None
            last = {}
            for x in it or ():
                s = x.sym
                while isinstance(s, tuple) and len(s) == 3 and s[0] == 'call' and s[1] in ('int', 'float', 'np.int64'):
                    s = s[2]
                if isinstance(s, tuple) and s[0] == 'item' and len(s) == 3 and isinstance(s[1], tuple) and s[1][0] == 'attr' and s[1][2] == 'shape' \
                        and isinstance(s[2], tuple) and s[2][0] == 'const':
                    try:
                        i = int(s[2][1])
                    except ValueError:
                        continue
                    self.shapes += 1
                    if i < last.get(s[1], i) and i >= 0:
                        f = eng.fn()
                        self.swapped.append((f.qual if f else '?', eng.where(n)))
                    last[s[1]] = i
        return super().call(eng, st, d, args, kwargs, n)


class Rec(Monitor):
    init = ()

    def __init__(self):
        self.model = Model()
        self.content = {}      # loc -> [Val] written into it

    def on_write(self, eng, st, locs, node, how, val=None):
        if val is None:
            return
        for l in locs:
            c = self.content.setdefault(l, [])
            if len(c) < 40 and not any(x is val for x in c):
                c.append(val)


def leaves(v, mon, st, seen=None, depth=0):
    """(kind, name, meta, transposes) of everything `v` is made of, and
    whether some part is unknown."""
    seen = set() if seen is None else seen
    out = set()
    unknown = False

    def sym(s, meta, tr):
        nonlocal unknown
        if isinstance(s, frozenset):
            for x in s:
                sym(x, meta, tr)
            return
        if not isinstance(s, tuple) or not s:
            return
        if s[0] in ('orig', 'param') and len(s) == 2 and isinstance(s[1], str):
            out.add((s[0], s[1], meta, tr % 2))
            return
        if s == ('?',):
            unknown = True
            return
        if s[0] == 'const':
            return
        if s[0] == 'attr' and len(s) == 3:
            sym(s[1], meta or s[2] in META, tr + (s[2] in ('T', 'mT')))
            return
        if s[0] == 'call' and len(s) > 1 and s[1] in ('len', 'np.shape', 'shape', 'size', 'ndim'):
            for x in s[2:]:
                sym(x, True, tr)
            return
        t = tr + (s[0] == 'call' and len(s) > 1 and isinstance(s[1], str) and s[1].split('.')[-1] in ('transpose', 'swapaxes', 'moveaxis'))
        for x in s:
            if isinstance(x, (tuple, frozenset)):
                sym(x, meta, t)
    sym(v.sym, False, 0)
    for l in v.locs:
        if l in seen:
            continue
        seen.add(l)
        r = l
        while r[0] == 'path':
            r = r[1]
        if r[0] in ('orig', 'param') and len(r) == 2:
            if not any(o[0] == r[0] and o[1] == r[1] for o in out):
                out.add((r[0], r[1], False, 0))
        if depth < 6:
            for c in mon.content.get(l, ()):
                o, u = leaves(c, mon, st, seen, depth + 1)
                out |= o
                unknown = unknown or u
            for (hl, hk), hv in list(st.heap.items()):
                if hl == l and hk.startswith('['):
                    o, u = leaves(hv, mon, st, seen, depth + 1)
                    out |= o
                    unknown = unknown or u
    return out, unknown


def permuted(s, a):
    """A list display putting item k of the saved attribute `a` at another
    position, in the symbol of the restored value."""
    if isinstance(s, frozenset):
        return any(permuted(x, a) for x in s)
    if not isinstance(s, tuple):
        return False

    def items(x, out):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'item' and x[1] == ('orig', a) and x[2][0] == 'const':
                out.add(str(x[2][1]))
            else:
                for y in x:
                    items(y, out)
        elif isinstance(x, frozenset):
            for y in x:
                items(y, out)
        return out
    if s and s[0] in ('list', 'tuple') and len(s) > 2:
        got = [items(x, set()) for x in s[1:]]
        if all(len(g) == 1 for g in got) and len(set.union(*got)) == len(got) and any(g != {str(i)} for i, g in enumerate(got)):
            return True
    return any(permuted(x, a) for x in s)


def attrs(st, loc):
    return {k: v for (l, k), v in st.heap.items() if l == loc and not k.startswith('$') and not k.startswith('[')}


class Reads(Monitor):
    """(class, attribute) pairs read by code outside the class."""
    init = ()

    def __init__(self, ix, cname):
        self.ix = ix
        self.out = set()

    def on_attr(self, eng, st, base, attr, node):
        for k in base.kinds:
            if k in self.ix.classes and self.ix.is_sub(k, BASE):
                f = eng.fn()
                c = f.cls.name if f is not None and f.cls is not None else None
                if c is None or not (self.ix.is_sub(k, c) or self.ix.is_sub(c, k)):
                    self.out.add((k, attr))


def populate(ix, cname, st, loc, ctor, deps, infra):
    """Give every attribute of the object a symbolic value of its own."""
    universe = set(ix.class_attr_universe(cname)) | set(ctor)
    methods = {m for c in ix.mro(cname) for m in list(c.methods) + list(c.setters)}
    for a in sorted(universe):
        if a in infra or a in methods or a == '*' or not isinstance(a, str):
            continue
        v = ctor.get(a)
        ks = (v.kinds - {'None', '?'}) if v is not None else EMPTY
        if ks & set(ix.classes) and not deps.get(a):
            continue
        if ks and ks <= {'int', 'float', 'str', 'bool', 'complex'}:
            nv = Val(EMPTY, ks, ('orig', a))
        elif ks & {'type', 'func', 'ext', 'module'}:
            continue
        else:
            nv = Val(frozenset([('orig', a)]), ks or frozenset(['obj']), ('orig', a))
        for l2, k2 in [k for k in st.heap if k[0] == ('orig', a)]:
            del st.heap[(l2, k2)]
        st.heap[(loc, a)] = nv
    return universe, methods


def construct(ix, cname, mon, budget=60000):
    """(engine, state, location, object, constructor attributes, parameter
    dependences, infrastructure attributes) of an abstract object"""
    eng = Engine(ix, mon, cname)
    eng.budget = budget
    st = State([{}], {}, frozenset([((), EMPTY)]))
    loc = ('self',)
    me = Val(frozenset([loc]), frozenset([cname]), ('self',))
    b = Engine(ix, Monitor(), BASE)
    bst = State([{}], {}, frozenset([((), EMPTY)]))
    b.run_method(bst, Val(frozenset([loc]), frozenset([BASE]), ('self',)), BASE, '__init__', symbolic=True)
    infra = set(attrs(bst, loc))
    eng.run_method(st, me, cname, '__init__', symbolic=True)
    ctor = attrs(st, loc)
    deps = {}
    for a, v in ctor.items():
        o, u = leaves(v, mon, st)
        deps[a] = {x[1] for x in o if x[0] == 'param'} - NOTSTATE
    return eng, st, loc, me, ctor, deps, infra


def one(ix, cname, used):
    """-> dict(findings, stats) or a reason why the class is not analysed"""
    mon = Rec()
    eng, st, loc, me, ctor, deps, infra = construct(ix, cname, mon)
    if not st.alts:
        return 'constructor does not complete'
    universe, methods = populate(ix, cname, st, loc, ctor, deps, infra)
    mon.content.clear()
    fname = Val(EMPTY, frozenset(['str']), ('param', 'filename'))
    eng.run_method(st, me, cname, 'save', args=[fname])
    if not st.alts:
        return 'save() does not complete'
    m = mon.model
    hd = m.hdus(st, FILE)
    if hd is None:
        return 'the file written by save() is not determined: ' + '; '.join(f'{a} at {w}' for a, w in m.unknown[:3])
    saved = {}
    heads = {}
    for i, h in enumerate(hd):
        for what, v in [('data', st.heap.get((h, 'data')))] + [
                (k, hv) for hl in st.heap[(h, 'header')].locs for (l2, k), hv in list(st.heap.items()) if l2 == hl and k.startswith('[')]:
            if v is None:
                continue
            o, u = leaves(v, mon, st)
            for x in o:
                if x[0] == 'orig':
                    saved.setdefault(x[1], set()).add((i, what, x[2]))
    m.restoring = True
    res = eng.run_method(st, None, cname, 'restore', args=[fname])
    if not st.alts or res is None:
        return {'findings': [('not-restorable', cname, 'restore', f'restore() raises on every path for a file written by save() ({m.missing[:1]})')], 'saved': len(saved), 'attrs': 0}
    out = []
    for kind, key, fn, where in m.missing:
        out.append(('missing-' + kind, f'{fn}.{key}', where, f'{fn} reads the {kind} {key} which {cname}.save() does not write'))
    for fn, where in m.swapped:
        out.append(('axes-swapped', f'{cname}.restore', where, f'while restoring a {cname}, {fn} allocates an array whose axes are swapped with respect to the saved one'))
    objs = [l for l in res.locs if l[0] == 'new' and l[1] == cname]
    if not objs:
        return 'restore() returns ' + str(sorted(res.kinds))
    outside = {a for k, a in used if ix.is_sub(cname, k) or ix.is_sub(k, cname)}
    got = {}
    for l in objs:
        for a, v in attrs(st, l).items():
            o, u = leaves(v, mon, st)
            s, uu = got.get(a, (set(), False))
            got[a] = (s | o, uu or u)
    f = ix.find_method(cname, 'restore')
    where = f'{f.module.rel}:{f.node.lineno}'
    n = 0
    for a in sorted(universe):
        if a in infra or a in methods:
            continue
        o, u = got.get(a, (set(), False))
        origs = {x for x in o if x[0] == 'orig'}
        full = a in saved and any(not x[2] for x in saved[a])
        if full:
            n += 1
            if a not in {x[1] for x in origs}:
                back = set()
                for x in origs:
                    back |= deps.get(x[1], set())
                if (not u or (origs and all(x[1] == 'data' for x in saved[a]))) and not (deps.get(a) and deps[a] <= back):
                    out.append(('not-restored', f'{cname}.{a}', where, f'{cname}.save() writes {a} to the file, but the restored object does not get it back'))
            elif any(permuted(v.sym, a) for l in objs for k, v in attrs(st, l).items() if k == a):
                out.append(('permuted', f'{cname}.{a}', where, f'{cname}.{a} comes back with its elements in another order after save() and restore()'))
            elif all(x[3] for x in origs if x[1] == a and not x[2]) and any(not x[2] for x in origs if x[1] == a):
                out.append(('transposed', f'{cname}.{a}', where, f'{cname}.{a} comes back transposed after save() and restore()'))
        elif deps.get(a) and a in outside and a in ctor:
            n += 1
            back = set()
            for x in origs:
                back |= deps.get(x[1], set())
            if not (back & deps[a]) and not u:
                out.append(('state-lost', f'{cname}.{a}', where, f'{cname}.{a}, set from the parameter(s) {", ".join(sorted(deps[a]))} and read elsewhere, is not recovered by save() and restore()'))
    return {'findings': out, 'saved': len(saved), 'attrs': n, 'ops': m.ops}


def unwritable(ix, cname):
    """header values that can be infinite, or not a number, stored without a
    test of the value: a FITS header rejects them"""
    out = []
    n = 0
    bad = {}
    for c in ix.mro(cname):
        f = c.methods.get('__init__')
        if f is None:
            continue
        a = f.node.args
        pos = a.posonlyargs + a.args
        for arg, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]:
            t = ast.unparse(d).replace(' ', '').lower()
            if t.lstrip('-') in ("float('inf')", 'float("inf")', 'np.inf', 'math.inf', "float('nan')", 'np.nan', 'math.nan', "float('infinity')"):
                bad[arg.arg] = t
    if not bad:
        return out, n
    for c in ix.mro(cname):
        f = c.methods.get('__init__')
        if f is None:
            continue
        attrs_ = {t.attr: x.value.id for x in ast.walk(f.node) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in bad
                  for t in x.targets if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self'}
        for mname in ('get_fits_header', 'save'):
            g = ix.find_method(cname, mname)
            if g is None:
                continue
            tested = {x.attr for t in ast.walk(g.node) if isinstance(t, (ast.If, ast.IfExp)) for x in ast.walk(t.test) if isinstance(x, ast.Attribute)}
            for x in ast.walk(g.node):
                v = k = None
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Subscript):
                    v, k = x.value, x.targets[0].slice
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'set' and len(x.args) > 1:
                    v, k = x.args[1], x.args[0]
                while isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'float' and len(v.args) == 1:
                    v = v.args[0]
                if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == 'self':
                    n += 1
                    if v.attr in attrs_ and v.attr not in tested:
                        out.append(('not-savable', f'{cname}.{v.attr}', f'{g.module.rel}:{x.lineno}', f'{g.qual} stores {v.attr} in a FITS header, which rejects its default value {bad[attrs_[v.attr]]}'))
    return out, n


def classes(ix):
    out = []
    for c in ix.subclasses(BASE):
        if 'restore' in c.methods and ix.find_method(c.name, 'save') is not None and ix.find_method(c.name, 'restore').is_static:
            out.append(c.name)
    return sorted(out)


def run(ix, tier):
    res = Result()
    sys.setrecursionlimit(20000)
    out = sweep(ix, Reads, tier)
    sweep_stats(res, out)
    used = set().union(*[o for o, s in out.values() if o])
    skipped = {}
    n = a = 0
    for c in classes(ix):
        inf, hv = unwritable(ix, c)
        for rule, cons, where, msg in inf:
            res.add(rule, cons, where, msg)
        r = one(ix, c, used)
        if isinstance(r, str):
            skipped[c] = r
            continue
        n += 1
        a += r['attrs']
        for rule, cons, where, msg in r['findings']:
            res.add(rule, cons, where, msg)
    res.floor('classes_round_tripped', n, 15)
    res.floor('attributes_followed', a, 40)
    res.stats['classes_not_analysed'] = skipped
    res.assumptions = ['astropy.io.fits returns the values it was given (scalars and arrays)']
    return res
