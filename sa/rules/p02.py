"""Input immutability rule: on every path through the life cycle of every
processing class (constructor, setup, step, finalize) no store - attribute
assignment, item store, in-place operator, out= argument, mutating method -
reaches storage that may alias an object received through an input."""
from ..report import Result
from ..sweep import sweep, sweep_stats
from .effects import Effects


class InWrites(Effects):
    roots = ('in',)


def run(ix, tier):
    res = Result()
    out = sweep(ix, InWrites, tier)
    sweep_stats(res, out)
    ninp = 0
    stores = 0
    for c, (o, s) in sorted(out.items()):
        if o is None or s['error']:
            continue
        stores += o['stores']
        for (r, fld, how, ph), (where, fn) in sorted(o['w'].items(), key=str):
            if r[1] == '?':
                continue        # inputs wired by the class itself to objects it owns
            owner = defining_class(ix, c, fn, o)
            res.add('input-modified', f'{owner}.{r[1]}.{fld}:{ph}', where,
                    f"{fn} modifies data received by {c} through input '{r[1]}' ({fld or 'value'}, {how}, phase {ph})")
    res.floor('stores_examined', stores, 2000)
    res.assumptions = ['external numerical functions write only to their out= arguments',
                       'two different inputs of one object are not the same object']
    return res


def defining_class(ix, c, fn, o):
    """Key by the class whose code contains the store when it is in the
    hierarchy of c, else by c."""
    k = fn.split('.')[0]
    if k in ix.classes and ix.is_sub(c, k):
        return k
    return c
