"""Stream capture rule.  For every class whose setup captures trigger_code into
a CUDA graph (it reaches capture_stream on itself), the captured code - with
everything it calls - must act only on arrays: replaying the graph repeats the
array operations on the memory they had at capture time and nothing else.  So
in trigger_code (1) no attribute of an object that survives the step is bound
to another object, (2) no attribute is read that some other part of the step
binds anew, (3) no container that survives the step is changed, and no random
number is drawn, clock read or file touched."""
import ast
from ..engine import Monitor, constval, NOCONST
from ..lifecycle import Lifecycle
from ..report import Result
from ..sweep import sweep, sweep_stats

STEP = ('step', 'trigger', 'post')
HOST_CALLS = ('print', 'open', 'input')
HOST_MODULES = ('time.', 'random.', 'np.random.', 'numpy.random.', 'cp.random.', 'os.')


class Probe(Monitor):
    """First pass: is trigger_code captured, and under which flags of the object."""
    init = ()

    def __init__(self):
        self.cap = False
        self.flags = {}

    def on_enter(self, eng, st, fn, node):
        if fn.name == 'capture_stream' and eng.phase in ('init', 'setup') and self.on_self(st, eng):
            first = not self.cap
            self.cap = True
            here = {}
            for m, facts in st.alts:
                mine = {}
                for (text, locs), vs, k, truth in facts:
                    t = text[5:] if text.startswith('self.') else ''
                    if t.isidentifier() and locs == ("('self',)",):
                        mine[t] = truth
                here = mine if not here else {k: v for k, v in here.items() if mine.get(k) == v}
            self.flags = here if first else {k: v for k, v in self.flags.items() if here.get(k) == v}

    def on_self(self, st, eng):
        v = st.frames[-1].get('self')
        return v is not None and v.locs == frozenset([('self',)])


class Capture(Monitor):
    init = ()

    def __init__(self, ix, cname, steps=2, budget=30000):
        self.ix = ix
        self.cname = cname
        self.out = {'cap': False, 'sets': {}, 'reads': {}, 'bad': {}, 'ops': 0}
        self.ph = None
        self.persist = None
        p = Probe()
        lc = Lifecycle(ix, cname, p, steps=0, budget=budget)
        lc.run()
        self.out['cap'] = p.cap
        self.flags = p.flags
        self.sets = {}
        self.reads = {}

    def on_phase(self, eng, st, ph):
        self.ph = ph
        if ph == 'step' and self.out['cap']:
            if self.persist is None:
                self.persist = self.lc.reach(st, {('self',)}, depth=5) | {('self',)}
            for k, v in self.flags.items():
                st.heap[(('self',), k)] = constval(v)

    def captured(self, eng):
        return self.ph == 'trigger' and self.out['cap'] and any(
            f.name == 'trigger_code' for f, _ in eng.stack)

    def report(self, eng, kind, what, node):
        f = eng.fn()
        self.out['bad'].setdefault((kind, what, f.qual if f else '?'), eng.where(node))

    def on_setattr(self, eng, st, base, attr, val, node):
        if self.ph not in STEP or self.persist is None:
            return
        for l in base.locs:
            if l not in self.persist:
                continue
            old = st.heap.get((l, attr))
            if old is not None and old.locs and old.locs == val.locs:
                continue        # in place operator, or the same object again
            if old is not None and val.const is not NOCONST and old.const is not NOCONST and val.const is old.const:
                continue
            if self.captured(eng):
                self.report(eng, 'rebinds', attr, node)
            elif not resize_guard(eng.fn(), node):
                f = eng.fn()
                self.sets.setdefault((l, attr), f.qual if f else '?')

    def on_attr(self, eng, st, base, attr, node):
        if not self.captured(eng):
            return
        self.out['ops'] += 1
        for l in base.locs:
            if l in self.persist:
                f = eng.fn()
                self.reads.setdefault((l, attr), (f.qual if f else '?', eng.where(node)))
            elif l[0] == 'in' and attr == 'generation_time':
                self.report(eng, 'reads', attr, node)

    def on_write(self, eng, st, locs, node, how, val=None):
        if self.captured(eng) and any(l in self.persist and l[0] == 'cont' for l in locs):
            self.report(eng, 'changes container', how, node)

    def on_call(self, eng, st, name, recv, args, kwargs, node):
        if not self.captured(eng):
            return
        self.out['ops'] += 1
        if name in HOST_CALLS or str(name).startswith(HOST_MODULES):
            self.report(eng, 'host call', name, node)
        elif recv is not None and any(('random' in str(k).lower() or str(k) == 'Generator') for k in recv.kinds):
            self.report(eng, 'host call', name, node)

    def after_phase(self, eng, st, ph):
        if ph == 'finalize':
            for k in self.reads.keys() & self.sets.keys():
                self.out['bad'].setdefault(('reads', k[1], self.reads[k][0]), self.reads[k][1] + f' (bound in {self.sets[k]})')


def resize_guard(fn, node):
    """The store is governed by a test of a shape, a length or of the absence
    of a value: (re)allocation, not a per-step change."""
    if fn is None:
        return False

    def dims(e):
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and n.attr in ('shape', 'size', 'ndim'):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len':
                return True
            if isinstance(n, ast.Constant) and n.value is None:
                return True
        return False
    for n in ast.walk(fn.node):
        if isinstance(n, ast.If) and dims(n.test) and any(m is node for b in n.body + n.orelse for m in ast.walk(b)):
            return True
    return False


def run(ix, tier):
    res = Result()
    out = sweep(ix, Capture, tier)
    sweep_stats(res, out)
    caps = 0
    ops = 0
    for c, (o, s) in sorted(out.items()):
        if o is None or s['error'] or not o['cap']:
            continue
        caps += 1
        ops += o['ops']
        for (kind, what, fn), where in sorted(o['bad'].items(), key=str):
            owner = fn.split('.')[0]
            owner = owner if owner in ix.classes and ix.is_sub(c, owner) else c
            res.add('capture-' + kind.split()[0], f'{owner}:{fn}.{what}', where.split(' ')[0],
                    f'{fn}, captured in the CUDA graph of {c}, {kind} {what}: a replay of the graph does not'
                    + (where[where.index(' '):] if ' ' in where else ''))
    res.floor('captured_classes', caps, 4)
    res.floor('captured_operations_examined', ops, 200)
    return res
