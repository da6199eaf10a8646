"""History ownership rule: a value kept from one step for a later one - an
element added during a step to a container that survives the step (append,
extend, item stored under a time or a counter), or an attribute set in a step
and read in a later one before being set again - does not share storage with an
input, nor with a buffer that the object itself overwrites in place at every
step: otherwise the record silently changes after it was made."""
import ast
from ..engine import root, Monitor, EMPTY, Val, SCALAR_ATTRS
from ..lifecycle import T, TOLD, flat
from ..report import Result
from ..sweep import sweep, sweep_stats
from .effects import field_of, ACTIVE

GROW = ('list +=', '.append()', '.extend()', '.appendleft()', '.insert()', '.add()', '.setdefault()')


class Hist(Monitor):
    init = ()

    def __init__(self, ix, cname):
        self.ix = ix
        self.cname = cname
        self.out = {'grow': {}, 'kept': {}, 'n': 0, 'reads': 0}
        self.ph = None
        self.persist = set()
        self.grown = {}
        self.inplace = {}

    def on_phase(self, eng, st, ph):
        self.ph = ph
        if ph == 'step' and not self.persist:
            self.persist = self.lc.reach(st, {('self',)}, depth=5)

        if ph == 'step':
            self.age(st)

    def held(self, st):
        """Containers reachable from the object, not through its connections."""
        seen = set()
        front = {('self',)}
        for _ in range(5):
            nxt = set()
            for (l, k), v in st.heap.items():
                if l in front and k not in ('inputs', 'local_inputs', 'remote_outputs') and not k.startswith('$'):
                    nxt |= {x for x in v.locs if x[0] in ('cont', 'new') and x not in seen}
            seen |= nxt
            front = nxt
        return {l for l in seen if l[0] == 'cont'}

    def age(self, st):
        """Input storage found in a container when a step begins was put there by an earlier one."""
        held = self.held(st)
        for (l, k), v in list(st.heap.items()):
            if l in held and k.startswith('[') and v.locs:
                new = {x: ('old', x) for x in v.locs if x[0] != 'old' and any(root(y)[0] == 'in' and root(y)[1] != '?' for y in self.lc.reach(st, {x}, depth=2))}
                if new:
                    st.heap[(l, k)] = v.with_(locs=frozenset(new.get(x, x) for x in v.locs))

    def survives(self, l):
        while l[0] == 'path':
            if l in self.persist:
                return True
            l = l[1]
        return l in self.persist or l == ('self',)

    def grow(self, eng, st, locs, val, node):
        if self.ph not in ACTIVE or val is None:
            return
        cont = [l for l in locs if self.survives(l)]
        if not cont:
            return
        self.out['n'] += 1
        f = eng.fn()
        reach = self.lc.reach(st, val.locs, depth=3)
        for l in reach:
            self.grown.setdefault((f.qual if f else '?', eng.where(node)), set()).add((l, l in val.locs))

    def on_item(self, eng, st, locs, keys, val, node):
        k = getattr(eng, 'item_key', None)
        if k is None or self.ph not in ACTIVE:
            return
        if 'T' in flat(k.sym or ()) or (k.kinds and k.kinds <= {'int', 'float'}):
            self.grow(eng, st, locs, val, node)
        eng.item_key = None

    def on_write(self, eng, st, locs, node, how, val=None):
        if how in GROW:
            self.grow(eng, st, locs, val, node)
        elif how not in ('container item store', '.pop()', '.clear()', '.update()', 'setattr') and not how.startswith('list ') and self.ph in ACTIVE:
            f = eng.fn()
            for l in locs:
                self.inplace.setdefault(l, (f.qual if f else '?', eng.where(node)))

    # attributes kept over the step boundary
    def on_setattr(self, eng, st, base, attr, val, node):
        if base.locs != frozenset([('self',)]):
            return
        if self.ph in ACTIVE and any(root(l)[0] == 'in' for l in val.locs) and not (val.kinds and val.kinds <= self.objects()):
            st.heap[(('self',), '$keep:' + attr)] = Val(sym=T)
        else:
            st.heap.pop((('self',), '$keep:' + attr), None)

    def uses_value(self, fn, node):
        """False when only metadata is used (shape, None test) or the whole
        content is about to be overwritten."""
        if fn is None:
            return True
        if not hasattr(fn, 'parents'):
            fn.parents = {id(c): p for p in ast.walk(fn.node) for c in ast.iter_child_nodes(p)}
        p = fn.parents.get(id(node))
        if isinstance(p, ast.Attribute):
            return p.attr not in SCALAR_ATTRS
        if isinstance(p, ast.Compare):
            return not all(isinstance(o, (ast.Is, ast.IsNot)) for o in p.ops)
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name):
            return p.func.id not in ('len', 'isinstance', 'type', 'id')
        if isinstance(p, ast.Subscript) and isinstance(p.ctx, ast.Store) and not isinstance(fn.parents.get(id(p)), ast.AugAssign):
            return False
        return True

    def objects(self):
        return set(self.ix.classes) | {'None', 'list', 'dict', 'tuple'}

    def on_attr(self, eng, st, base, attr, node):
        if self.ph not in ACTIVE or base.locs != frozenset([('self',)]):
            return
        self.out['reads'] += 1
        m = st.heap.get((('self',), '$keep:' + attr))
        if m is not None and m.sym == TOLD and self.uses_value(eng.fn(), node):
            f = eng.fn()
            self.out['kept'].setdefault((f.qual if f else '?', attr), eng.where(node))

    def after_phase(self, eng, st, ph):
        if ph != 'step':
            return
        names = None
        for l in self.held(st):
            v = st.heap.get((l, '[*]'))
            for x in (v.locs if v is not None else ()):
                if x[0] == 'old':
                    if names is None:
                        names = {y: k for (b, k), w in st.heap.items() if b == ('self',) for y in w.locs}
                    at = names.get(l, 'a container')
                    self.out['grow'].setdefault((self.cname + '.' + at, 'input of an earlier step'), (f'{self.cname}', 'still held at the end of the next step'))
        for (fn, where), ls in self.grown.items():
            for l, direct in ls:
                r, fld = field_of(l)
                if r[0] == 'in' and r[1] != '?':
                    self.out['grow'].setdefault((fn, 'input ' + str(r[1])), (where, fld))
                elif l in self.inplace and self.survives(l) and l[0] != 'cont':
                    self.out['grow'].setdefault((fn, 'buffer ' + self.name(l)), (where, 'overwritten in ' + self.inplace[l][0]))

    def name(self, l):
        r, fld = field_of(l)
        return fld or str(r[1] if len(r) > 1 else r[0])


def run(ix, tier):
    res = Result()
    out = sweep(ix, Hist, tier)
    sweep_stats(res, out)
    n = reads = 0
    for c, (o, s) in sorted(out.items()):
        if o is None or s['error']:
            continue
        n += o['n']
        reads += o['reads']
        for (fn, what), (where, extra) in sorted(o['grow'].items()):
            res.add('record-shares-storage', f'{fn}:{what}', where, f'{fn} keeps in a record that survives the step storage of {what} ({extra or "value"}), analysed from {c}')
        for (fn, attr), where in sorted(o['kept'].items()):
            res.add('kept-value-shares-storage', f'{fn}:{attr}', where,
                    f'{fn} reads self.{attr} as left by an earlier step, but it shares the storage of an input, which has changed since (analysed from {c})')
    res.stats['record_updates'] = n
    res.floor('attribute_reads_in_steps', reads, 2000)
    res.assumptions = ['external numerical functions return fresh arrays unless they are documented views']
    return res
