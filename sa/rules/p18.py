"""Value access rule.  For every data class, on an object whose attributes all
hold a symbolic value: after set_value(v), on every path, the storage that
get_value() hands out has been overwritten in full with v, in place; after
obj.p = v for a property p with a setter, reading p gives something made of v."""
import ast
from ..engine import Engine, Monitor, State, Val, EMPTY, NOCONST, NONE, constval
from ..report import Result
from .p17 import construct, populate, leaves, attrs, Model, BASE

V = ('param', '$value')


class Mon(Monitor):
    init = frozenset()

    def __init__(self):
        self.model = M()
        self.content = {}
        self.live = False
        self.stores = 0
        self.where = {}

    def made_of_v(self, val, st):
        if val is None:
            return False
        o, u = leaves(val, self, st)
        return any(x[0] == 'param' and x[1] == V[1] and not x[2] for x in o)

    def on_write(self, eng, st, locs, node, how, val=None):
        if val is not None:
            for l in locs:
                c = self.content.setdefault(l, [])
                if len(c) < 40 and not any(x is val for x in c):
                    c.append(val)
        if not self.live:
            return
        self.stores += 1
        ok = not isinstance(node, ast.AugAssign) and self.made_of_v(val, st)
        tgt = target(eng)
        for l in locs:
            self.where[l] = eng.where(node)
            if ok:
                eng.map_mon(st, lambda m, l=l: m | {('w', l, tgt)})

    def on_setattr(self, eng, st, base, attr, val, node):
        if not self.live or ('self',) not in base.locs:
            return
        self.stores += 1
        if self.made_of_v(val, st):
            cur = st.heap.get((('self',), attr))
            same = cur is not None and val.locs and val.locs <= cur.locs
            if not same:
                eng.map_mon(st, lambda m: m | {('r', attr, eng.where(node))})


class M(Model):
    def call(self, eng, st, d, args, kwargs, n):
        if d.split('.')[-1] == 'isscalar' and args and args[0].kinds == frozenset(['ndarray']):
            return constval(False)
        if d.split('.')[-1] in ('copyto', 'put') and len(args) > 1:
            eng.store_base = (args[0], None, None)
            eng.mon.on_write(eng, st, args[0].locs, n, 'copyto', args[1])
            eng.store_base = None
            return Val()
        return super().call(eng, st, d, args, kwargs, n)


def isfull(sl):
    return isinstance(sl, ast.Slice) and sl.lower is None and sl.upper is None and (sl.step is None) or isinstance(sl, ast.Constant) and sl.value is Ellipsis


def target(eng):
    """index of the store: () for all of the array, (0,) for its first
    element, None when not known"""
    sb = getattr(eng, 'store_base', None)
    if sb is None:
        return ('?',)
    b, k, sl = sb
    idx = ()
    s = b.sym
    while isinstance(s, tuple) and len(s) == 3 and s[0] == 'item':
        if isinstance(s[2], tuple) and s[2][0] == 'const':
            idx = (s[2][1],) + idx
        elif 'slice' not in str(s[2]):
            idx = (s[2],) + idx
        s = s[1]
    if sl is None:
        return idx
    parts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
    while parts and isfull(parts[-1]):
        parts = parts[:-1]
    for p in parts:
        if isinstance(p, ast.Constant) and isinstance(p.value, int):
            idx += (str(p.value),)
        elif isinstance(p, ast.Slice):
            if isfull(p):
                idx += (':',)
            else:
                return idx + ('part',)
        elif len(parts) == 1 and k is not None and "('orig'," in str(k.sym):
            idx += (k.sym,)
        else:
            return ('?',)
    return idx


def getidx(sym):
    idx = ()
    while isinstance(sym, tuple) and len(sym) == 3 and sym[0] == 'item' and isinstance(sym[2], tuple) and sym[2] != ('?',):
        idx = ((sym[2][1] if sym[2][0] == 'const' else sym[2]),) + idx
        sym = sym[1]
    return idx


def covered(tgts, gi):
    """do the stores cover the element gi of the array?"""
    for t in tgts:
        if '?' in t:
            return True
        if t == gi[:len(t)]:
            return True
    # element by element
    sub = {t[len(gi)] for t in tgts if len(t) == len(gi) + 1 and t[:len(gi)] == gi}
    return '0' in sub and '1' in sub


def fresh(ix, cname):
    mon = Mon()
    eng, st, loc, me, ctor, deps, infra = construct(ix, cname, mon)
    if not st.alts:
        return None
    populate(ix, cname, st, loc, ctor, deps, infra)
    for (l, a), v in list(st.heap.items()):
        if l == loc and v.kinds >= {'ndarray'} and v.locs == frozenset([('orig', a)]):
            st.heap[(l, a)] = v.with_(kinds=frozenset(['ndarray']))
    mon.content.clear()
    st.alts = frozenset((frozenset(), f) for m, f in st.alts)
    return mon, eng, st, loc, me


def value(ix, cname):
    r = fresh(ix, cname)
    if r is None:
        return 'constructor does not complete'
    mon, eng, st, loc, me = r
    g = eng.run_method(st, me, cname, 'get_value')
    if g is None or not st.alts:
        return 'no value'
    want = {l[1] for l in g.locs if l[0] == 'orig'}
    o, u = leaves(g, mon, st)
    from_attr = {x[1] for x in o if x[0] == 'orig'}
    if not from_attr:
        return 'get_value() is not made of attributes'
    gi = getidx(g.sym)
    st.alts = frozenset((frozenset(), f) for m, f in st.alts)
    mon.live = True
    eng.run_method(st, me, cname, 'set_value', args=[Val(frozenset([V]), frozenset(['ndarray']), V)])
    mon.live = False
    if not st.alts:
        return 'set_value() raises'
    f = ix.find_method(cname, 'set_value')
    where = f'{f.module.rel}:{f.node.lineno}'
    out = []
    for m, _ in st.alts:
        tg = [x[2] for x in m if x[0] == 'w' and x[1][0] == 'orig' and x[1][1] in from_attr]
        rb = [x for x in m if x[0] == 'r' and x[1] in from_attr]
        tg += [x[2] for x in m if x[0] == 'w' and x[1][0] in ('arr', 'new') and rb]
        if not tg and not rb:
            out.append(('value-not-stored', where, f'on some path {cname}.set_value() does not store the value in what get_value() returns ({", ".join(sorted(from_attr))})'))
        elif tg and not rb and not covered(tg, gi):
            out.append(('value-partly-stored', where, f'on some path {cname}.set_value() stores only a part of the value that get_value() returns'))
        elif rb and want:
            out.append(('value-reallocated', rb[0][2], f'{cname}.set_value() replaces the array {rb[0][1]} instead of writing into it'))
    # the same on an object which does not hold a value yet
    r = fresh(ix, cname)
    mon, eng, st, loc, me = r
    ctor = construct(ix, cname, Mon())[4]
    empty = [a for a in from_attr if a in ctor and 'None' in ctor[a].kinds or a in late(ix, cname)]
    if empty:
        for a in empty:
            st.heap[(loc, a)] = NONE
        mon.live = True
        eng.run_method(st, me, cname, 'set_value', args=[Val(frozenset([V]), frozenset(['ndarray']), V)])
        mon.live = False
        for m, _ in st.alts:
            if not m:
                out.append(('value-not-stored', where, f'on some path {cname}.set_value() does not store the value when {empty[0]} is not allocated'))
    return {'findings': sorted(set(out)), 'stores': mon.stores}


def late(ix, cname):
    """attributes that some method sets to None"""
    out = set()
    for c in ix.mro(cname):
        for f in c.methods.values():
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and x.value.value is None:
                    out |= {t.attr for t in x.targets if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self'}
    return out


def prop(ix, cname, name):
    r = fresh(ix, cname)
    if r is None:
        return 'constructor does not complete'
    mon, eng, st, loc, me = r
    s = ix.find_setter(cname, name)
    mon.live = True
    eng.call_function(st, s, [me, Val(frozenset([V]), frozenset(['ndarray']), V)], {}, None)
    mon.live = False
    if not st.alts:
        return 'setter raises'
    bad = any(not m for m, _ in st.alts)
    alts0 = st.alts
    f = ix.find_method(cname, name)
    g = eng.call_function(st, f, [me], {}, None)
    if g is None or not st.alts:
        return 'getter raises'
    where = f'{s.module.rel}:{s.node.lineno}'
    o, u = leaves(g, mon, st)
    v = any(x[0] == 'param' and x[1] == V[1] for x in o)
    from_attr = {x[1] for x in o if x[0] == 'orig'}
    gi = getidx(g.sym)
    for m, _ in alts0:
        tg = [x[2] for x in m if x[0] == 'w' and x[1][0] == 'orig' and x[1][1] in from_attr]
        if tg and any(x[0] == 'r' for x in m) is False:
            v = v or covered(tg, gi)
            bad = bad or not covered(tg, gi)
    if bad or not v and not u:
        return {'findings': [('property-not-stored', where, f'after assigning {cname}.{name}, reading it does not give the assigned value')], 'stores': mon.stores}
    return {'findings': [], 'stores': mon.stores}


def run(ix, tier):
    res = Result()
    n = k = stores = 0
    skipped = {}
    for c in sorted(x.name for x in ix.subclasses(BASE)):
        if ix.find_method(c, 'get_value') is not None and ix.find_method(c, 'set_value') is not None:
            r = value(ix, c)
            if isinstance(r, str):
                skipped[c] = r
            else:
                n += 1
                stores += r['stores']
                for rule, where, msg in r['findings']:
                    res.add(rule, c, where, msg)
        for ci in [ix.classes[c]]:
            for p in sorted(ci.setters):
                r = prop(ix, c, p)
                if isinstance(r, str):
                    skipped[f'{c}.{p}'] = r
                    continue
                k += 1
                stores += r['stores']
                for rule, where, msg in r['findings']:
                    res.add(rule, f'{c}.{p}', where, msg)
    res.floor('classes_with_a_value', n, 10)
    res.floor('properties_with_a_setter', k, 4)
    res.stats['stores'] = stores
    res.stats['not_analysed'] = skipped
    res.assumptions = ['shapes are those of the object (a mismatch is refused by numpy)']
    return res
