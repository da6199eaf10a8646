"""Interface rule.  For every processing class the names and types returned by
input_names()/output_names() are compared with what the constructor (and
setup) registers, on every path: declared but not registered, registered but
not declared, registered with another type, required input registered as
optional; reads of an input/output name that is never registered; outputs
that no step ever writes."""
import ast
from ..engine import Monitor, State, Val, EMPTY, NOCONST
from ..lifecycle import Lifecycle, BASE
from ..report import Result
from ..sweep import sweep, sweep_stats


class Iface(Monitor):
    init = (frozenset(), frozenset())

    def __init__(self, ix, cname):
        self.ix = ix
        self.cname = cname
        self.out = {'paths': None, 'ikind': {}, 'okind': {}, 'iopt': {}, 'bad': {}, 'reads': 0, 'written': set(),
                    'decl_in': None, 'decl_out': None, 'where': {}}
        self.ph = None

    def on_phase(self, eng, st, ph):
        self.ph = ph

    def dictlocs(self, st, name):
        d = st.heap.get((('self',), name))
        return d.locs if d is not None else EMPTY

    def on_item(self, eng, st, locs, keys, val, node):
        for i, name in enumerate(('inputs', 'outputs')):
            if locs & self.dictlocs(st, name):
                ks = frozenset(keys)
                for k in ks:
                    self.out['where'].setdefault((name, k), eng.where(node))
                eng.map_mon(st, lambda m: (m[0] | ks, m[1]) if i == 0 else (m[0], m[1] | ks))

    def on_delitem(self, eng, st, locs, key, node):
        for i, name in enumerate(('inputs', 'outputs')):
            if locs & self.dictlocs(st, name):
                ks = frozenset([key])
                eng.map_mon(st, lambda m: (m[0] - ks, m[1]) if i == 0 else (m[0], m[1] - ks))

    def on_member(self, eng, st, locs, key, present):
        for i, name in enumerate(('inputs', 'outputs')):
            if locs & self.dictlocs(st, name):
                st.alts = frozenset((m, f) for m, f in st.alts if '*' in m[i] or (key in m[i]) == present)

    def on_setattr(self, eng, st, base, attr, val, node):
        if ('self',) in base.locs and attr in ('inputs', 'outputs'):
            # literal dictionaries
            ks = set()
            for l in val.locs:
                for (hl, hk) in st.heap:
                    if hl == l and isinstance(hk, str) and hk.startswith('['):
                        ks.add('*' if hk == '[*]' else ast.literal_eval(hk[1:-1]))
            ks = frozenset(ks)
            i = 0 if attr == 'inputs' else 1
            for k in ks:
                self.out['where'].setdefault((attr, k), eng.where(node))
            eng.map_mon(st, lambda m: (ks, m[1]) if i == 0 else (m[0], ks))
        if self.ph in ('setup', 'step', 'trigger', 'post', 'finalize'):
            self.wr(st, base.locs)

    def on_write(self, eng, st, locs, node, how, val=None):
        if self.ph in ('setup', 'step', 'trigger', 'post', 'finalize'):
            self.wr(st, locs)

    def wr(self, st, locs):
        self.out['written'] |= set(locs)

    def on_key(self, eng, st, base, key, node):
        for name in ('inputs', 'local_inputs', 'outputs'):
            dl = self.dictlocs(st, name)
            if not dl or not (base.locs <= dl):
                continue
            self.out['reads'] += 1
            reg = dl
            if name == 'local_inputs':
                if self.ph == 'init':
                    continue
                reg = self.dictlocs(st, 'inputs')
            have = {k for (l, k) in st.heap if l in reg}
            if f'[{key!r}]' not in have and '[*]' not in have:
                self.out['bad'][(name, key)] = eng.where(node)

    def after_phase(self, eng, st, ph):
        if ph == 'init':
            self.out['paths'] = [m for m, f in st.alts]
            self.snapshot(eng, st)
        if ph in ('finalize', 'step'):
            for n, (v, ol) in self.lc.outputs(st).items():
                r = self.lc.reach(st, ol)
                self.out.setdefault('reach', {}).setdefault(n, set()).update(r)
            self.snapshot(eng, st)

    def snapshot(self, eng, st):
        for name, k2 in (('inputs', 'ikind'), ('outputs', 'okind')):
            for dl in self.dictlocs(st, name):
                for (l, k), x in list(st.heap.items()):
                    if l != dl or not isinstance(k, str) or not k.startswith('['):
                        continue
                    key = '*' if k == '[*]' else ast.literal_eval(k[1:-1])
                    if name == 'inputs':
                        for ll in x.locs:
                            t = st.heap.get((ll, 'output_ref_type'))
                            o = st.heap.get((ll, 'optional'))
                            self.out[k2].setdefault(key, set()).add(
                                t.fn[1] if t is not None and t.fn and t.fn[0] == 'class' else
                                ('list' if t is not None and t.sym == ('builtin', 'list') else '?'))
                            self.out['iopt'].setdefault(key, set()).add(
                                o.const if o is not None and o.const is not NOCONST else '?')
                            self.out.setdefault('icls', {}).setdefault(key, set()).update(x.kinds)
                    else:
                        self.out[k2].setdefault(key, set()).update(x.kinds or {'?'})


def declared(eng, ix, cname, meth):
    """Evaluate the class method abstractly -> {name: (type, desc)} or None."""
    f = ix.find_method(cname, meth)
    if f is None:
        return None
    st = State([{}], {}, frozenset([((), EMPTY)]))
    cls = Val(kinds=frozenset(['type']), fn=('class', cname), sym=('class', cname))
    try:
        r = eng.call_function(st, f, [] if f.is_static else [cls], {}, None)
    except NotImplementedError:
        return None
    if r is None or not r.locs or not st.alts:
        return None
    out = {}
    for (l, k), v in st.heap.items():
        if l in r.locs and isinstance(k, str) and k.startswith('['):
            if k == '[*]':
                out['*'] = ('?', '')
                continue
            name = ast.literal_eval(k[1:-1])
            ty, desc = '?', ''
            for vl in v.locs:
                t = st.heap.get((vl, '[0]')) or st.heap.get((vl, 'type'))
                d = st.heap.get((vl, '[1]')) or st.heap.get((vl, 'desc'))
                if t is not None and t.fn and t.fn[0] == 'class':
                    ty = t.fn[1]
                elif t is not None and t.kinds == frozenset(['tuple']):
                    ty = '?'
                if t is not None and t.sym == ('builtin', 'list'):
                    ty = 'list'
                if d is not None and isinstance(d.const, str):
                    desc = d.const
            out[name] = (ty, desc)
    return out


class Plain(Monitor):
    init = ()


def run(ix, tier):
    res = Result()
    out = sweep(ix, Iface, tier)
    sweep_stats(res, out)
    from ..engine import Engine
    n_in = n_out = reads = 0
    for c, (o, s) in sorted(out.items()):
        if o is None or s['error'] or s['aborted'] == 'init' or o['paths'] is None:
            continue
        reads += o['reads']
        file = ix.classes[c].module.rel
        for (name, key), where in sorted(o['bad'].items()):
            res.add('unregistered-name-read', f'{c}.{name}:{key}', where,
                    f"{c} reads {name}['{key}'], which its constructor never registers")
        din = declared(Engine(ix, Plain(), c), ix, c, 'input_names')
        dout = declared(Engine(ix, Plain(), c), ix, c, 'output_names')
        allin = set().union(*[m[0] for m in o['paths']]) if o['paths'] else set()
        allout = set().union(*[m[1] for m in o['paths']]) if o['paths'] else set()
        if din is not None:
            n_in += len(din)
            for k, (ty, desc) in sorted(din.items()):
                if k == '*':
                    continue
                opt_decl = desc.rstrip().endswith('(optional)')
                if '*' not in allin:
                    if k not in allin:
                        if not opt_decl:
                            res.add('declared-not-registered', f'{c}.inputs:{k}', file, f"{c}.input_names() declares '{k}', which the constructor never registers")
                    elif not opt_decl and any(k not in m[0] for m in o['paths']):
                        res.add('registered-on-some-paths', f'{c}.inputs:{k}', o['where'].get(('inputs', k), file),
                                f"{c}: input '{k}' is declared as required and registered on some paths of the constructor only")
                ks = o['ikind'].get(k, set()) - {'?'}
                if ty != '?' and ks and ks != {ty}:
                    res.add('input-type', f'{c}.inputs:{k}', o['where'].get(('inputs', k), file),
                            f"{c}: input '{k}' is declared as {ty} and registered as {'/'.join(sorted(ks))}")
                op = o['iopt'].get(k, set())
                said = 'optional' in desc.lower()
                if op == {True} and not said and k in allin and '*' not in allin:
                    res.add('required-input-registered-optional', f'{c}.inputs:{k}', o['where'].get(('inputs', k), file),
                            f"{c}: input '{k}' is declared as required and registered as optional: a missing connection is not reported")
                if op == {False} and said:
                    res.add('optional-mismatch', f'{c}.inputs:{k}', o['where'].get(('inputs', k), file),
                            f"{c}: input '{k}' is declared as optional and registered as required")
            if '*' not in din:
                for k in sorted(map(str, allin - set(din) - {'*'})):
                    res.add('registered-not-declared', f'{c}.inputs:{k}', o['where'].get(('inputs', k), file), f"{c} registers input '{k}', which input_names() does not declare")
        if dout is not None:
            n_out += len(dout)
            for k, (ty, desc) in sorted(dout.items()):
                if k == '*' or '*' in allout:
                    continue
                opt = desc.rstrip().endswith('(optional)')
                if k not in allout:
                    res.add('declared-not-registered', f'{c}.outputs:{k}', file, f"{c}.output_names() declares '{k}', which the constructor never registers")
                elif not opt and any(k not in m[1] for m in o['paths']):
                    res.add('registered-on-some-paths', f'{c}.outputs:{k}', o['where'].get(('outputs', k), file),
                            f"{c}: output '{k}' is declared and registered on some paths of the constructor only")
                ks = o['okind'].get(k, set()) - {'?'} - ({'None'} if opt else set())
                if ty != '?' and ks and not all(q == ty or (q in ix.classes and ix.is_sub(q, ty)) for q in ks):
                    res.add('output-type', f'{c}.outputs:{k}', o['where'].get(('outputs', k), file),
                            f"{c}: output '{k}' is declared as {ty} and registered as {'/'.join(sorted(ks))}")
            if '*' not in dout:
                for k in sorted(map(str, allout - set(dout) - {'*'})):
                    res.add('registered-not-declared', f'{c}.outputs:{k}', o['where'].get(('outputs', k), file), f"{c} registers output '{k}', which output_names() does not declare")
            if s['aborted'] is None and not s['exhausted']:
                for k, locs in sorted(o.get('reach', {}).items(), key=str):
                    if not locs & o['written']:
                        res.add('output-never-written', f'{c}.outputs:{k}', o['where'].get(('outputs', k), file),
                                f"{c}: no step ever writes output '{k}'")
    res.floor('declared_inputs', n_in, 120)
    res.floor('declared_outputs', n_out, 120)
    res.floor('name_reads_checked', reads, 300)
    return res
