"""Timestamp rule: in the abstract life cycle of every processing class, on
every path through one step (check_ready, trigger, post_trigger), if the
storage of an output is updated then the output's generation_time is assigned,
and the assigned value is the current simulation time and nothing else."""
import ast

from ..engine import Monitor
from ..lifecycle import T
from ..report import Result
from ..sweep import sweep, sweep_stats

ACTIVE = ('step', 'trigger', 'post')

# Confirmed by reading: long-exposure accumulators, published (and stamped)
# only by finalize(); checked there instead.
FINALIZED_PREFIXES = ('out_int_', 'out_std_')
FINALIZED_CLASSES = ('PSF', 'PsfCoronagraph')
# Documented mode: with update_time_on_dt the output is zeroed while the window
# is open and only "published" when the window closes.
SILENT = {('WindowedIntegration', 'output')}
# Declared outputs never produced by the class (stubs / inherited ports)
NEVER = {('AVC', 'out_comm'), ('ModalrecImplicitPolc', 'out_pseudo_ol_modes')}


def zeroing(node):
    """x *= 0 / x[...] = 0: the output is blanked while its window is open."""
    if isinstance(node, ast.AugAssign):
        return isinstance(node.op, ast.Mult) and isinstance(node.value, ast.Constant) and node.value.value == 0
    return isinstance(node, ast.Assign) and isinstance(node.value, ast.Constant) and node.value.value == 0


class Stamp(Monitor):
    init = frozenset()

    def __init__(self, ix, cname):
        self.ix = ix
        self.cname = cname
        self.out = {'bad': [], 'final': {}, 'names': [], 'stamped': set(), 'fin': {}, 'sites': set()}
        self.outs = {}
        self.lastw = {}
        self.ph = None

    def on_phase(self, eng, st, ph):
        self.ph = ph
        self.outs = self.split(self.lc.outputs(st))
        self.locs2 = {}
        if ph in ('step', 'finalize'):
            st.alts = frozenset((frozenset(), f) for m, f in st.alts)

    @staticmethod
    def split(outs):
        """Outputs registered under a computed name: one entry per origin."""
        if '*' not in outs:
            return outs
        res = {n: x for n, x in outs.items() if n != '*'}
        named = set().union(*[ol for v, ol in res.values()]) if res else set()
        v, ol = outs['*']
        for i, l in enumerate(sorted(ol - named, key=str)):
            res[f'*{i}' if len(ol) > 1 else '*'] = (v, {l})
        return res

    def hit(self, st, locs):
        s = set(locs)
        return [n for n, (v, ol) in self.outs.items() if self.lc.reach(st, ol) & s]

    def on_write(self, eng, st, locs, node, how, val=None):
        if self.ph not in ACTIVE and self.ph != 'finalize':
            return
        if zeroing(node) and any(self.ix.is_sub(self.cname, c) for c, o in SILENT):
            return
        for n in self.hit(st, locs):
            self.lastw[n] = f'{eng.where(node)} ({eng.fn().qual})'
            eng.map_mon(st, lambda m, n=n: m | {(n, 'w')})

    def on_setattr(self, eng, st, base, attr, val, node):
        if self.ph not in ACTIVE and self.ph != 'finalize':
            return
        if zeroing(node) and any(self.ix.is_sub(self.cname, c) for c, o in SILENT):
            return
        for name, (v, ol) in self.outs.items():
            if not (base.locs & ol):
                continue
            if attr == 'generation_time':
                self.out['sites'].add(eng.where(node))
                if self.is_now(val):
                    eng.map_mon(st, lambda m, n=name: m | {(n, 's')})
                    self.out['stamped'].add(name)
                else:
                    f = eng.fn()
                    self.out['bad'].append((name, eng.where(node), f.qual, str(val.sym)))
            elif attr not in ('tag',):
                self.lastw[name] = f'{eng.where(node)} ({eng.fn().qual})'
                eng.map_mon(st, lambda m, n=name: m | {(n, 'w')})

    @staticmethod
    def is_now(val):
        s = val.sym
        if s == T:
            return True
        # int(t), identity wrappers
        if s and s[0] == 'call' and s[1] == 'int' and len(s) == 3 and s[2] == T:
            return True
        return False

    def after_phase(self, eng, st, ph):
        if ph == 'step':
            self.out['names'] = sorted(map(str, self.outs))
            for m, f in st.alts:
                for n in self.outs:
                    if (n, 'w') in m and (n, 's') not in m:
                        self.out['final'][str(n)] = self.lastw.get(n, '?')
        if ph == 'finalize':
            for m, f in st.alts:
                for n in self.outs:
                    if (n, 'w') in m and (n, 's') not in m:
                        self.out['fin'][str(n)] = self.lastw.get(n, '?')


def run(ix, tier):
    res = Result()
    out = sweep(ix, Stamp, tier)
    sweep_stats(res, out)
    nout = 0
    sites = set()
    for c, (o, s) in sorted(out.items()):
        if o is None or s['error']:
            continue
        ci = ix.classes[c]
        sites |= o['sites']
        for name, where, fn, sym in o['bad']:
            res.add('stamp-not-current-time', f'{c}.{name}', where,
                    f"{fn} stamps output '{name}' of {c} with a value that is not the current step time ({sym[:80]})")
        for name in o['names']:
            nout += 1
            fin = any(ix.is_sub(c, k) for k in FINALIZED_CLASSES) and name.startswith(FINALIZED_PREFIXES)
            if name in o['final'] and not fin:
                res.add('unstamped-output', f'{c}.{name}', o['final'][name],
                        f"{c}: output '{name}' is updated (last at {o['final'][name]}) but some path through the step "
                        f"does not set its generation_time to the current time")
            if fin and name in o['fin']:
                res.add('unstamped-output-finalize', f'{c}.{name}', o['fin'][name],
                        f"{c}: output '{name}' is published by finalize() without its generation_time being set")
            if name not in o['stamped'] and (c, name) not in NEVER and not name.startswith('*') and not s['aborted'] and not s['exhausted']:
                res.add('never-stamped', f'{c}.{name}', ci.rel,
                        f"{c}: output '{name}' is never stamped with the current time on any path")
    res.floor('outputs_checked', nout, 120)
    res.floor('stamp_sites', len(sites), 60)
    res.assumptions = ['loops over collections run at least once',
                       'external (numpy/cupy/scipy) functions write only to their out= arguments']
    return res
