"""Recomputation rule: an array that survives the step (reachable from the
object after setup) is accumulated into - in-place operator - during a step
only after being written anew in the same step; otherwise the result of one
step leaks into the next.  The exposure and averaging objects, whose purpose is
to integrate over several steps, may do so for the number of integration
buffers they have.  "Written anew" is judged per path set: an array some path
of the step overwrites before the accumulation counts as overwritten (the reset
is usually guarded by the same configuration flag as the accumulation)."""
import ast
from ..engine import root, Monitor, Val, NONE, UNK, mk
from ..lifecycle import Lifecycle
from ..report import Result
from ..sweep import sweep, sweep_stats
from .effects import ACTIVE

# integration over several steps is what these do: number of such buffers
INTEGRATORS = {'CCD': 1,                        # charge integrated until the end of the exposure
               'DynamicDarkCalibrator': 1,      # sum of the frames being averaged
               'PSF': 2, 'PsfCoronagraph': 2,   # long exposure PSFs and their squares
               'WindowedIntegration': 1,        # sum over the window
               'AtmoInfiniteEvolution': 1,  # position of the screens
               'AtmoInfiniteEvolutionUpDown': 1}

# and these start again once they have delivered the sum
RESTART = ('CCD', 'DynamicDarkCalibrator', 'WindowedIntegration')


class Acc(Monitor):
    init = ()

    def __init__(self, ix, cname, steps=2, budget=30000):
        self.ix = ix
        self.cname = cname
        self.out = {'acc': {}, 'n': 0, 'fresh': 0, 'reset': set()}
        self.reset = set()
        self.ph = None
        self.acc = {}
        self.persist = set()
        self.mixed = {}

    def on_phase(self, eng, st, ph):
        self.ph = ph
        if ph == 'step':
            self.mixed = {}
            if not self.persist:
                self.persist = self.lc.reach(st, {('self',)}, depth=5)
            # what was overwritten in the previous step counts no more
            for k in [k for k in st.heap if k[1] == '$fresh']:
                del st.heap[k]
        # replaying a captured graph has the effect of trigger_code itself
        st.heap[(('self',), 'cuda_graph')] = NONE

    def fresh(self, st, locs):
        for l in locs:
            st.heap[(l, '$fresh')] = Val()

    def on_write(self, eng, st, locs, node, how, val=None):
        if self.ph not in ACTIVE:
            return
        zero = val is not None and val.const is not None and val.const == 0 and isinstance(getattr(node, 'op', None), ast.Mult)
        # counters
        zero = zero or (val is not None and type(val.const) is int and val.const == 1 and isinstance(getattr(node, 'op', None), (ast.Add, ast.Sub)))
        again = val is not None and how == 'item store' and not locs.isdisjoint(self.mixed.get(val.sym, ()))
        if (how in ('in-place operator', 'in-place item operator') or how.startswith('.__i') or how.endswith('.at') or again) and not zero:
            self.out['n'] += 1
            for l in locs:
                if root(l)[0] == 'arr' and l in self.persist and (l, '$fresh') not in st.heap:
                    f = eng.fn()
                    self.acc.setdefault(l, (f.qual if f else '?', eng.where(node)))
        else:
            self.out['fresh'] += 1
            self.reset |= set(locs)
            self.fresh(st, locs)

    # values computed from what an earlier step left in an array
    def on_binop(self, eng, st, op, a, b, node):
        if self.ph not in ACTIVE or not isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            return
        old = set()
        for v in (a, b):
            old |= self.mixed.get(v.sym, set())
            if eng.maybe_array(v):
                old |= {l for l in v.locs if root(l)[0] == 'arr' and l in self.persist and (l, '$fresh') not in st.heap}
        if old:
            s = mk('bin', type(op).__name__, a.sym, b.sym)
            if s != UNK:
                self.mixed.setdefault(s, set()).update(old)

    def on_setattr(self, eng, st, base, attr, val, node):
        if self.ph in ACTIVE:
            was = set()
            for l in base.locs:
                if (l, attr) in st.heap:
                    was |= st.heap[(l, attr)].locs
            for l in was & self.mixed.get(val.sym, set()):
                f = eng.fn()
                self.out['acc'].setdefault('.' + attr, (f.qual if f else '?', eng.where(node)))
            if not isinstance(node, ast.AugAssign):
                # another array takes the place
                self.reset |= was - val.locs
            self.fresh(st, val.locs)

    def names(self, st):
        """location -> shortest attribute path from self"""
        out = {}
        front = [(('self',), '')]
        for _ in range(5):
            nxt = []
            for l, p in front:
                for (hl, k), v in st.heap.items():
                    if hl == l and not k.startswith('$'):
                        for x in v.locs:
                            if x not in out:
                                out[x] = (p + '.' + k).lstrip('.') if not k.startswith('[') else p + k
                                nxt.append((x, out[x]))
            front = nxt
        return out

    def after_phase(self, eng, st, ph):
        if ph != 'step' or not self.acc:
            return
        live = self.lc.reach(st, {('self',)}, depth=5) & self.persist
        names = self.names(st)
        for l in live:
            if l in self.acc and root(l)[0] == 'arr':
                self.out['acc'].setdefault(names.get(l, str(l)[:60]), self.acc[l])
                if l in self.reset:
                    self.out['reset'].add(names.get(l, str(l)[:60]))


def run(ix, tier):
    res = Result()
    out = sweep(ix, Acc, tier)
    sweep_stats(res, out)
    n = 0
    allowed = restarts = 0
    for c, (o, s) in sorted(out.items()):
        if o is None or s['error']:
            continue
        n += o['n']
        # the objects it drives have their own
        owners = {c} | {fn.split('.')[0] for fn, w in o['acc'].values() if fn.split('.')[0] in ix.classes and not ix.is_sub(c, fn.split('.')[0])}
        room = sum(k for x in owners for b, k in INTEGRATORS.items() if b in ix.classes and ix.is_sub(x, b))
        if len(o['acc']) <= room:
            if any(b in ix.classes and ix.is_sub(c, b) for b in RESTART):
                for name, (fn, where) in sorted(o['acc'].items()):
                    restarts += 1
                    if name not in o['reset']:
                        res.add('integration-never-restarted', f'{fn}:{c}.{name}', where,
                                f'{fn} adds to {c}.{name}, and no path of a step sets it anew: what was delivered is delivered again')
            allowed += len(o['acc'])
            continue
        for name, (fn, where) in sorted(o['acc'].items()):
            res.add('accumulates-over-steps', f'{fn}:{c}.{name}', where,
                    f'{fn} adds to {c}.{name} without overwriting it first in the same step: the previous step leaks into the result')
    res.stats['integration_buffers'] = allowed
    res.stats['integration_restarts'] = restarts
    res.floor('accumulations_examined', n, 150)
    return res
