"""Configuration immutability rule: on every path through the life cycle of
every processing class no store reaches storage that may alias an object passed
as a constructor parameter (reconstructors, influence functions, pupil data,
filters, sources, arrays: the objects several processing objects can share),
except objects the class itself publishes as outputs (their time stamp)."""
import ast
from ..engine import root
from ..report import Result
from ..sweep import sweep, sweep_stats
from .effects import Effects, field_of

SCALARS = {'int', 'float', 'str', 'bool'}

# confirmed by reading: state that the data object's own documentation defines
# as run-time state of that object
BY_DESIGN = {
    # tunable gain: IirFilterData.set_gain is the documented run-time interface
    ('IirFilterData', 'gain'), ('IirFilterData', 'num'), ('IirFilterData', '_num_normalized'),
    # "The result is stored in chromatic_shifts_m" of the source
    ('Source', 'chromatic_shifts_m'),
    # a float computed in the constructor, not an array
    ('LaserLaunchTelescope', 'beacon_focus'),
}
FIELDS = {a for k, a in BY_DESIGN}


class PWrites(Effects):
    roots = ('param',)

    def on_setattr(self, eng, st, base, attr, val, node):
        self.out['stores'] += 1
        owned = set()
        if attr in ('generation_time', 'tag'):
            for n, (v, ol) in self.lc.outputs(st).items():
                owned |= set(ol)
        if any((k, attr) in BY_DESIGN for k in base.kinds) or attr in FIELDS:
            return
        for l in base.locs:
            if l in owned:
                continue
            self.rec(eng, node, l, attr, 'attribute assignment')

    def on_write(self, eng, st, locs, node, how, val=None):
        self.out['stores'] += 1
        for l in locs:
            if l[0] == 'path' and any(l[2] == a for k, a in BY_DESIGN):
                continue
            self.rec(eng, node, l, None, how)


def scalar_params(ix, c):
    f = ix.find_method(c, '__init__')
    out = set()
    if f is None:
        return out
    for a in f.node.args.args + f.node.args.kwonlyargs:
        if a.annotation is not None:
            t = ast.unparse(a.annotation)
            if t in SCALARS:
                out.add(a.arg)
    return out


def run(ix, tier):
    res = Result()
    out = sweep(ix, PWrites, tier)
    sweep_stats(res, out)
    stores = 0
    nparams = 0
    for c, (o, s) in sorted(out.items()):
        if o is None or s['error']:
            continue
        stores += o['stores']
        sc = scalar_params(ix, c)
        f = ix.find_method(c, '__init__')
        if f is not None:
            nparams += max(0, len(f.node.args.args) - 1 - len(sc))
        for (r, fld, how, ph), (where, fn) in sorted(o['w'].items(), key=str):
            if r[1] in sc and not fld:
                continue
            if fld.split('.')[-1] == 'generation_time' and '.' in fld and ph in ('trigger', 'post'):
                # a parameter that is itself a processing object stamps its own
                # output data when the composite object runs it
                continue
            k = fn.split('.')[0]
            owner = k if k in ix.classes and ix.is_sub(c, k) else c
            res.add('parameter-modified', f'{owner}.{r[1]}.{fld}:{ph}', where,
                    f"{fn} modifies the object passed to {c} as parameter '{r[1]}' ({fld or 'value'}, {how}, phase {ph})")
    res.floor('stores_examined', stores, 2000)
    res.floor('object_parameters', nparams, 300)
    return res
