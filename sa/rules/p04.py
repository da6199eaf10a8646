"""Instance independence rule.  (a) No life-cycle path of a processing class
stores into storage shared by all instances - class attributes, module
globals, mutable default arguments, results of memoised functions - except
insertion of a missing entry in a cache whose key covers everything the entry's
construction depends on.  (b) Storage handed out by such a cache is scratch: it
is never reachable from an output and never read in a life-cycle phase other
than the one that writes it."""
import ast
from ..engine import root, Val
from ..index import dotted
from ..report import Result
from ..sweep import sweep, sweep_stats
from .effects import Effects, field_of

# one per process by design
PROCESS_WIDE = {
    # help text of the reader of this process's only standard input
    ('TerminalInput', 'output_list_for_help'),
}
SHARED = ('cls', 'mod', 'default', 'memo')
PH = ('step', 'trigger', 'post')


class Shared(Effects):
    roots = SHARED
    init = frozenset()

    def __init__(self, ix, cname):
        super().__init__(ix, cname)
        self.cached = {}
        self.out.update(ins=set(), loads={}, carry={}, writes={}, outs={}, cached=0)

    def on_phase(self, eng, st, ph):
        self.ph = ph
        self.cur = self.closure(st)
        st.alts = frozenset((frozenset(), f) for m, f in st.alts)

    def closure(self, st):
        res = {}
        for l, name in self.cached.items():
            for x in self.lc.reach(st, {l}):
                if x[0] in ('new', 'fresh', 'path') or x == l:
                    res.setdefault(x, name)
        return res

    def on_write(self, eng, st, locs, node, how, val=None):
        self.out['stores'] += 1
        for l in locs:
            r = root(l)
            if r[0] in SHARED:
                f = eng.fn()
                if how == 'container item store' and r[0] in ('cls', 'mod') and l == r:
                    self.out['ins'].add((r, f.qual, eng.where(node)))
                    if val is not None:
                        for x in val.locs:
                            if root(x)[0] not in SHARED:
                                self.cached[x] = f'{r[1]}.{r[2]}'
                        self.cur = self.closure(st)
                    continue
                self.rec(eng, node, l, None, how)
            elif l in getattr(self, 'cur', ()):
                self.out['writes'].setdefault((self.cur[l], str(l)), set()).add(self.ph)
                if self.ph in PH:
                    if how == 'in-place operator' and any(l not in m for m, f in st.alts):
                        self.out['carry'].setdefault((self.cur[l], eng.fn().qual), eng.where(node))
                    eng.map_mon(st, lambda m, l=l: m | {l})

    def on_setattr(self, eng, st, base, attr, val, node):
        super().on_setattr(eng, st, base, attr, val, node)
        for l in base.locs:
            if l in getattr(self, 'cur', ()):
                self.out['writes'].setdefault((self.cur[l], str(l)), set()).add(self.ph)

    def on_load(self, eng, st, val, node):
        if self.ph not in PH or val.kinds & {'func'}:
            return
        for l in val.locs:
            if l in self.cur and not isinstance(getattr(node, 'ctx', None), ast.Store):
                self.out['loads'].setdefault((self.cur[l], str(l)), {}).setdefault(self.ph, (eng.where(node), eng.fn().qual))

    def after_phase(self, eng, st, ph):
        if ph in ('step', 'finalize'):
            self.cur = self.closure(st)
            self.out['cached'] = len(self.cached)
            for name, (v, ol) in self.lc.outputs(st).items():
                for l in self.lc.reach(st, ol):
                    if l in self.cur:
                        self.out['outs'][(str(name), self.cur[l])] = str(l)


def atoms(fnode, expr, depth=0, seen=None):
    """Parameters / self attributes / globals an expression is computed from."""
    seen = seen or set()
    params = {a.arg for a in fnode.args.args + fnode.args.kwonlyargs} - {'self', 'cls'}
    assigns = {}
    for n in ast.walk(fnode):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    assigns.setdefault(t.id, []).append(n.value)
    out = set()

    def visit(e):
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            if d and d.startswith('self.'):
                out.add('.'.join(d.split('.')[:2]))
                return
            if d and d.split('.')[0] in params:
                out.add(d)
                return
            visit(e.value)
            return
        if isinstance(e, ast.Name):
            if e.id in params and e.id not in assigns:
                out.add(e.id)
            elif e.id in assigns:
                if e.id not in seen:
                    seen.add(e.id)
                    if e.id in params:
                        out.add(e.id)
                    for v in assigns[e.id]:
                        visit(v)
            return
        if isinstance(e, ast.Call):
            for a in e.args:
                visit(a)
            for k in e.keywords:
                visit(k.value)
            f = e.func
            if isinstance(f, ast.Attribute):
                d = dotted(f)
                if d and d.startswith('self.') and d.count('.') == 1:
                    return          # a method / dtype constructor of self
                if d and d.startswith('self.xp.'):
                    out.add('self.xp')
                    return
                visit(f.value)
            return
        for c in ast.iter_child_nodes(e):
            visit(c)
    visit(expr)
    return out


# what one atom determines
IMPLIED = {'self.target_device_idx': {'self.xp', 'self.xp_str', 'self._target_device', 'target_device_idx'},
           'target_device_idx': {'self.xp', 'self.target_device_idx'},
           'self.precision': {'self.dtype', 'self.complex_dtype', 'precision'},
           'precision': {'self.dtype', 'self.complex_dtype', 'self.precision'},
           'self.dtype': {'self.precision', 'precision'}}


def cache_keys(ix, res):
    """Every insertion C[key] = value into a class-level or module-level dict."""
    n = 0
    for m in ix.modules.values():
        for cls, fn in functions(m.tree):
            for s in ast.walk(fn):
                if not isinstance(s, ast.Assign):
                    continue
                for t in s.targets:
                    if not isinstance(t, ast.Subscript):
                        continue
                    d = dotted(t.value)
                    if not d:
                        continue
                    name = d.split('.')[-1]
                    shared = False
                    if cls is not None and d.split('.')[0] in ('self', 'cls', cls.name) and d.count('.') == 1:
                        shared = class_dict(ix, m, cls, name)
                    elif d.count('.') == 0:
                        shared = any(isinstance(x, ast.Assign) and isinstance(x.value, (ast.Dict, ast.Call))
                                     and any(isinstance(y, ast.Name) and y.id == name for y in x.targets)
                                     for x in m.tree.body)
                        shared = shared and not any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)
                                                    for x in ast.walk(fn))
                    if not shared:
                        continue
                    n += 1
                    ka = atoms(fn, t.slice)
                    va = atoms(fn, s.value)
                    cov = set(ka)
                    for a in ka:
                        cov |= IMPLIED.get(a, set())
                    # derived forms: an attribute of a covered atom, or a covered
                    # attribute standing for an argument of the same object
                    miss = sorted(a for a in va - cov if not any(a.startswith(k + '.') for k in cov)
                                  and a not in ('self.xp',) or (a == 'self.xp' and 'self.xp' not in cov))
                    if miss:
                        owner = cls.name if cls is not None else m.name
                        res.add('cache-key-incomplete', f'{owner}.{name}', f'{m.rel}:{s.lineno}',
                                f"entries of the shared cache {owner}.{name} are built from {', '.join(miss)}, "
                                f"which the key does not include: objects with different settings get each other's entry")
    return n


def functions(tree):
    for x in ast.walk(tree):
        if isinstance(x, ast.ClassDef):
            for f in x.body:
                if isinstance(f, ast.FunctionDef):
                    yield x, f
    for x in tree.body:
        if isinstance(x, ast.FunctionDef):
            yield None, x


def class_dict(ix, m, cls, name):
    if cls.name in ix.classes:
        f = None
        for c in ix.mro(cls.name):
            ci = c
            if ci is None:
                continue
            for b in ci.node.body:
                if isinstance(b, (ast.Assign, ast.AnnAssign)):
                    tg = b.targets if isinstance(b, ast.Assign) else [b.target]
                    if any(isinstance(t, ast.Name) and t.id == name for t in tg):
                        f = b
        if f is None:
            return False
        # an instance attribute of the same name hides it
        for c in ix.mro(cls.name):
            ci = c
            if ci is None:
                continue
            for x in ast.walk(ci.node):
                if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store) and dotted(x) == 'self.' + name:
                    return False
        return True
    return False


def run(ix, tier):
    res = Result()
    out = sweep(ix, Shared, tier)
    sweep_stats(res, out)
    stores = 0
    ncache = 0
    for c, (o, s) in sorted(out.items()):
        if o is None or s['error']:
            continue
        stores += o['stores']
        ncache += o['cached']
        for (r, fld, how, ph), (where, fn) in sorted(o['w'].items(), key=str):
            if (c, str(r[-1])) in PROCESS_WIDE:
                continue
            what = {'cls': 'class attribute', 'mod': 'module global', 'default': 'mutable default argument',
                    'memo': 'result of a memoised function'}[r[0]]
            nm = '.'.join(map(str, r[1:]))
            res.add('shared-state-written', f'{fn}:{r[0]}:{nm}.{fld}'[:160], where,
                    f"{fn} (running for {c}, phase {ph}) modifies a {what} ({nm} {fld}, {how}): the state is shared by every instance")
        for (name, cache), l in sorted(o['outs'].items()):
            res.add('cached-storage-published', f'{c}.{name}:{cache}', ix.classes[c].rel,
                    f"{c}: output '{name}' is (or contains) storage of the shared cache {cache}")
        for (cache, fn), where in sorted(o['carry'].items()):
            res.add('shared-scratch-carried-over', f'{c}:{cache}:{fn}', where,
                    f"{fn} ({c}) updates storage of the shared cache {cache} in place before writing it in this step: "
                    f"the previous content may be another object's")
        for key, phs in sorted(o['loads'].items()):
            wr = o['writes'].get(key, set())
            for ph, (where, fn) in sorted(phs.items()):
                if ph not in wr and wr & set(PH):
                    res.add('shared-scratch-across-phases', f'{c}:{key[0]}:{fn}', where,
                            f"{fn} ({c}, phase {ph}) reads storage of the shared cache {key[0]} that was filled in "
                            f"another phase ({', '.join(sorted(wr & set(PH)))}): another object can overwrite it in between")
    res.stats['cached_storages'] = ncache
    n = cache_keys(ix, res)
    res.floor('cache_insertions', n, 3)
    res.floor('stores_examined', stores, 2000)
    return res
