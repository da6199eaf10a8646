"""Output ownership rule: after every abstract step, the storage reachable from
each declared output of a processing class is disjoint from the storage
reachable from its inputs (an output array is never the producer's array nor a
view of it)."""
from ..engine import root
from ..report import Result
from ..sweep import sweep, sweep_stats
from .effects import Effects, field_of


class Alias(Effects):
    roots = ()

    def after_phase(self, eng, st, ph):
        for name, (v, ol) in self.lc.outputs(st).items():
            self.out.setdefault('outs', set()).add(str(name))
            for l in self.lc.reach(st, ol):
                r, fld = field_of(l)
                if r[0] == 'in' and r[1] != '?':
                    self.out['alias'].setdefault((str(name), str(r[1])), (fld, ph))


def run(ix, tier):
    res = Result()
    out = sweep(ix, Alias, tier)
    sweep_stats(res, out)
    n = 0
    for c, (o, s) in sorted(out.items()):
        if o is None or s['error']:
            continue
        n += len(o.get('outs', ()))
        for (name, inp), (fld, ph) in sorted(o['alias'].items()):
            res.add('output-aliases-input', f'{c}.{name}<-{inp}', ix.classes[c].rel,
                    f"{c}: output '{name}' may share its storage with input '{inp}' ({fld or 'object itself'}) after phase {ph}")
    res.floor('outputs_checked', n, 120)
    return res
