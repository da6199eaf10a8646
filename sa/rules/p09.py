"""Output identity rule.  Connections, recorders and remote transfers hold a
reference to each output object taken after construction.  In the abstract life
cycle of every processing class: after the constructor, no store replaces an
entry of the outputs dictionary (or the dictionary, or the membership of an
output list) by another object, and no attribute that held an output object is
rebound to a different object."""
from ..engine import Monitor, EMPTY
from ..report import Result
from ..sweep import sweep, sweep_stats

LATE = ('setup', 'step', 'trigger', 'post', 'finalize')


class Ident(Monitor):
    init = ()

    def __init__(self, ix, cname):
        self.ix = ix
        self.cname = cname
        self.out = {'bad': {}, 'outs': 0, 'holders': 0, 'stores': 0}
        self.ph = None
        self.outs = {}
        self.held = {}

    def on_phase(self, eng, st, ph):
        self.ph = ph

    def after_phase(self, eng, st, ph):
        if ph != 'init':
            return
        self.outs = self.lc.outputs(st)
        self.conts = {}
        for n, (v, ol) in self.outs.items():
            self.out['outs'] += 1
            for l in v.locs:
                if l[0] == 'cont':
                    self.conts[l] = n
        objs = {l: n for n, (v, ol) in self.outs.items() for l in ol if l[0] == 'new'}
        for (l, k), v in st.heap.items():
            if l == ('self',) and isinstance(k, str) and not k.startswith('[') and k not in ('outputs', 'inputs', 'local_inputs'):
                hit = {objs[x] for x in v.locs if x in objs}
                # the attribute holds output objects and nothing else
                if hit and all(x in objs for x in v.locs):
                    self.held[k] = (v.locs, sorted(map(str, hit)))
                    self.out['holders'] += 1
        # lists and dictionaries of output objects: the outputs they hold
        self.colls = {}
        d = st.heap.get((('self',), 'outputs'))
        for (l, k), v in st.heap.items():
            if isinstance(k, str) and k.startswith('[') and l[0] == 'cont' and l not in self.conts and not (d is not None and l in d.locs):
                if v.locs and all(x in objs for x in v.locs):
                    self.colls.setdefault(l, set()).update(v.locs)
                else:
                    self.colls[l] = None
        self.objs = objs

    def on_item(self, eng, st, locs, keys, val, node):
        if self.ph not in LATE:
            return
        d = st.heap.get((('self',), 'outputs'))
        if d is not None and locs & d.locs:
            self.out['stores'] += 1
            for k in keys:
                v = self.outs.get(k)
                if v is None or not (val.locs and val.locs <= v[0].locs):
                    self.out['bad'][('replaced', str(k))] = (eng.where(node), eng.fn().qual, self.ph)
        for l in locs:
            was = getattr(self, 'colls', {}).get(l)
            if was and not (val.locs and val.locs <= set(self.objs)):
                self.out['stores'] += 1
                names = '/'.join(sorted({str(self.objs[x]) for x in was}))
                self.out['bad'][('element of the list of outputs replaced', names)] = (eng.where(node), eng.fn().qual, self.ph)

    def on_write(self, eng, st, locs, node, how, val=None):
        if self.ph not in LATE:
            return
        for l in locs:
            if l in getattr(self, 'conts', {}):
                self.out['bad'][('list membership changed', str(self.conts[l]))] = (eng.where(node), eng.fn().qual, self.ph)

    def on_delitem(self, eng, st, locs, key, node):
        if self.ph not in LATE:
            return
        d = st.heap.get((('self',), 'outputs'))
        if d is not None and locs & d.locs:
            self.out['bad'][('removed', str(key))] = (eng.where(node), eng.fn().qual, self.ph)

    def on_setattr(self, eng, st, base, attr, val, node):
        if self.ph not in LATE or ('self',) not in base.locs:
            return
        self.out['stores'] += 1
        if attr == 'outputs':
            self.out['bad'][('replaced', '(all)')] = (eng.where(node), eng.fn().qual, self.ph)
        if attr in self.held:
            locs, names = self.held[attr]
            if not (val.locs and val.locs <= locs):
                self.out['bad'][(f'self.{attr} rebound', '/'.join(names))] = (eng.where(node), eng.fn().qual, self.ph)


def run(ix, tier):
    res = Result()
    out = sweep(ix, Ident, tier)
    sweep_stats(res, out)
    n = h = st = 0
    for c, (o, s) in sorted(out.items()):
        if o is None or s['error']:
            continue
        n += o['outs']
        h += o['holders']
        st += o['stores']
        for (how, name), (where, fn, ph) in sorted(o['bad'].items()):
            res.add('output-replaced', f'{c}.{name}:{how}', where,
                    f"{fn} ({ph} of {c}): output '{name}' {how} after the connections were made; consumers keep the old object")
    res.floor('outputs_checked', n, 150)
    res.floor('attributes_holding_outputs', h, 80)
    res.floor('late_stores_examined', st, 800)
    return res
