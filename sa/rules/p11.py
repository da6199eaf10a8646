"""Gating rule.  (a) Control-flow paths of the base class: an object is ready
exactly when it has no inputs, or all its inputs are optional and unset, or one
of its inputs carries a time stamp not older than the current time; the flag is
reset by every post_trigger; trigger and post_trigger refuse to run when it is
not set; setup refuses a missing required input.  (b) Abstract life cycle of
every class: overridden hooks run the base class part on every path, and the
outcome of the gate is the same for every class."""
import ast

from ..engine import Monitor, NOCONST, constval
from ..index import AnalysisBroken
from ..lifecycle import BASE
from ..conc import Conc, UNK
from ..paths import Paths, show, mentions, has_attr, callee, recv, arg, walk
from ..report import Result
from ..sweep import sweep, sweep_stats

SELF = ('v', 'self')
FLAG = ('a', SELF, 'inputs_changed')


class Scen(Conc):
    """Two inputs, each unset, a single object or a list, with their time stamps."""
    def __init__(self, ins):
        self.ins = ins
        self.keys = ('a', 'b')[:len(ins)]

    def stamps(self, x):
        return [] if x[0] == 'unset' else [x[2]] if x[0] == 'one' else list(x[2])

    def __str__(self):
        rels = {'LT': 'old', 'EQ': 'fresh', 'GT': 'from later'}
        return ', '.join(('optional ' if x[1] else 'required ') + ('unset' if x[0] == 'unset' else ' + '.join(rels[r] for r in self.stamps(x))) for x in self.ins) or 'no inputs'

    def elements(self, it):
        if it in (('a', SELF, 'inputs'), ('a', SELF, 'local_inputs')):
            return [('c', k) for k in self.keys]
        r = self(it)
        return [('i', it, ('c', i)) for i in range(len(r))] if isinstance(r, list) else None

    def of(self, v, name):
        """key of self.<name>[key]"""
        if v[0] == 'call' and callee(v) == 'get' and recv(v) is not None and v[2] and v[2][0][0] == 'c':
            v = ('i', recv(v), v[2][0])
        if v[0] == 'i' and v[1] == ('a', SELF, name) and v[2][0] == 'c' and v[2][1] in self.keys:
            return v[2][1]
        return None

    def leaf(self, v):
        if v[0] == 'nonempty' and v[1][0] == 'a':
            v = v[1]
        if v in (('a', SELF, 'inputs'), ('a', SELF, 'local_inputs')):
            return {k: k for k in self.keys}
        if v == ('a', SELF, 'current_time') or v == ('v', 't'):
            return 100
        k = self.of(v, 'inputs')
        if k is not None:
            return ('input', k)
        k = self.of(v, 'local_inputs')
        if k is None and v[0] == 'call' and callee(v) == 'get' and recv(v) is not None:
            k = self.of(recv(v), 'inputs')
        if k is not None:
            x = self.ins[self.keys.index(k)]
            if x[0] == 'unset':
                return None
            return ('obj', x[2]) if x[0] == 'one' else [('obj', r) for r in x[2]]
        if v[0] == 'call' and callee(v) == 'getattr' and len(v[2]) > 1 and v[2][1][0] == 'c':
            v = ('a', v[2][0], v[2][1][1])
        if v[0] == 'a':
            b = self(v[1])
            if v[2] == 'optional' and isinstance(b, tuple) and b[0] == 'input':
                return self.ins[self.keys.index(b[1])][1]
            if v[2] == 'generation_time' and isinstance(b, tuple) and b[0] == 'obj':
                return {'LT': 99, 'EQ': 100, 'GT': 101}[b[1]]
        if v == ('v', 'list'):
            return list
        if v[0] == 'call' and callee(v) == 'type' and len(v[2]) == 1:
            x = self(v[2][0])
            return UNK if x is UNK else list if isinstance(x, list) else type(x)
        if v[0] == 'call' and callee(v) == 'isinstance' and len(v[2]) == 2:
            x = self(v[2][0])
            if x is not UNK and mentions(v[2][1], lambda q: q == ('v', 'list')):
                return isinstance(x, list)
        return UNK


class Base:
    def __init__(self, ix, res):
        self.ix = ix
        self.res = res
        self.file = ix.classes[BASE].module.rel
        self.n = 0
        self.undecided = 0

    def paths(self, meth, noinline=()):
        f = self.ix.find_method(BASE, meth)
        if f is None:
            raise AnalysisBroken(f'{BASE}.{meth} not found')
        ps = Paths(self.ix, BASE, noinline=noinline).run(f)
        self.n += len(ps)
        return ps

    def bad(self, rule, what, node, msg):
        line = getattr(node, 'lineno', None)
        self.res.add(rule, what, f'{self.file}:{line}' if line else self.file, msg)

    def flag(self, p):
        s = [x for x in p.stores('inputs_changed') if x[1] == FLAG]
        return s[-1][2] if s else None

    def check_ready(self):
        seen = set()
        for p in self.paths('check_ready', ('checkInputTimes', 'prepare_trigger')):
            if p.how != 'return':
                continue
            ct = [x for x in p.stores('current_time') if x[1] == ('a', SELF, 'current_time')]
            gate = p.calls('checkInputTimes')
            prep = p.calls('prepare_trigger')
            if not gate:
                self.bad('gate', 'check_ready', p.node, 'check_ready(): some path does not look at the input times')
                continue
            if not ct or ct[0][2] != ('v', 't') or ct[0][0] > gate[0][0]:
                self.bad('current-time', 'check_ready', p.node, 'check_ready(): current_time is not set to the step time before the inputs are checked')
            r = p.conds.get(gate[0][1])
            fl = self.flag(p)
            if r is None:
                # flag assigned from the value itself
                if fl != gate[0][1]:
                    self.bad('gate', 'check_ready', p.node, 'check_ready(): readiness does not depend on the input times')
                r = fl
                seen.add(r)
            else:
                seen.add(r)
                if fl not in (('c', r), gate[0][1]):
                    self.bad('gate', f'check_ready:{r}', p.node, f'check_ready(): inputs_changed is {show(fl) if fl else "left unchanged"} when checkInputTimes() is {r}')
                if p.value not in (('c', r), gate[0][1]):
                    self.bad('gate', f'check_ready:return:{r}', p.node, f'check_ready() returns {show(p.value)} when checkInputTimes() is {r}')
                if r is True:
                    if len(prep) != 1 or arg(prep[0][1], 0, 't') != ('v', 't'):
                        self.bad('prepare', 'check_ready', p.node, 'check_ready(): prepare_trigger(t) is not called exactly once on a ready object')
                elif prep:
                    self.bad('prepare', 'check_ready:not-ready', p.node, 'check_ready(): prepare_trigger() is called on an object that is not ready')

    def refuse(self, meth):
        ok = False
        for p in self.paths(meth, ('trigger_code', 'checkInputTimes')):
            r = next((x[2] for x in p.trace if x[0] == 'cond' and x[1] == FLAG), None)
            if r is False and p.how == 'raise':
                ok = True
            if r is False and p.how == 'return':
                self.bad('not-refused', meth, p.node, f'{meth}() does not refuse to run when the inputs have not changed')
            if r is None and p.how == 'return':
                self.bad('not-refused', meth, p.node, f'{meth}(): some path does not test inputs_changed')
            if p.how == 'return' and meth == 'trigger':
                code = p.calls('trigger_code')
                gr = [c for c in p.calls('launch')]
                if len(code) + len(gr) != 1:
                    self.bad('computation', 'trigger', p.node, 'trigger(): some path does not run the computation exactly once')
                if gr and not any(t and mentions(a, lambda x: x == ('a', SELF, 'cuda_graph')) for a, t in p.conds.items()):
                    self.bad('computation', 'trigger:graph', p.node, 'trigger() launches a graph that was not captured')
            if p.how == 'return' and meth == 'post_trigger':
                if self.flag(p) != ('c', False):
                    self.bad('flag-not-reset', meth, p.node, 'post_trigger(): some path leaves inputs_changed set')
            if p.how == 'raise' and r is not False and not p.exceptional:
                self.bad('gate', f'{meth}:raise', p.node, f'{meth}() raises on a ready object')
        if not ok:
            self.bad('not-refused', meth, None, f'{meth}() never refuses to run when the inputs have not changed')

    def setup(self):
        kinds = [('unset', True), ('unset', False), ('one', True, 'LT'), ('one', False, 'LT')]
        for sc in [Scen(())] + [Scen((x, y)) for x in kinds for y in kinds]:
            want = 'raise' if ('unset', False) in sc.ins else 'return'
            ps = self.scenario('setup', sc, ('get_all_inputs',))
            if any(not p.calls('get_all_inputs') and not p.calls('get') for p in ps if sc.ins):
                self.bad('inputs-not-fetched', 'setup', None, 'setup(): some path does not fetch the inputs')
                continue
            got = {p.how for p in ps}
            if want not in got:
                self.bad('required-input', f'setup:{want}', None, f'setup() {"accepts a missing required input" if want == "raise" else "rejects inputs that are set or optional"} ({sc})')
            self.undecided += len(got) > 1

    def get_all(self):
        ok = False
        for p in self.paths('get_all_inputs'):
            if not any(x[0] == 'loop' and has_attr(x[2], 'inputs') for x in p.trace):
                continue
            g = [(i, v, n) for i, v, n in p.calls('get') if has_attr(v[1], 'inputs')]
            if not g:
                self.bad('inputs-not-fetched', 'get_all_inputs', p.node, 'get_all_inputs(): some path does not fetch an input')
                continue
            i, v, n = g[0]
            if arg(v, 0, 'target_device_idx') != ('a', SELF, 'target_device_idx'):
                self.bad('device', 'get_all_inputs', n, f'get_all_inputs() fetches inputs for device {show(v[2][0]) if v[2] else "?"} instead of the device of the object')
            st = [x for x in p.stores() if x[1][0] == 'i' and x[1][1] == ('a', SELF, 'local_inputs')]
            up = [c for c in p.calls('update') if recv(c[1]) == ('a', SELF, 'local_inputs')]
            if not any(x[2] == v for x in st) and not up:
                self.bad('inputs-not-fetched', 'get_all_inputs:store', n, 'get_all_inputs(): the value fetched is not stored in local_inputs')
            ok = True
        if not ok:
            # written as a comprehension
            for p in self.paths('get_all_inputs'):
                if any(mentions(x, lambda q: q[0] == 'call' and callee(q) == 'get') for x in p.trace if x[0] in ('store', 'call')):
                    return
            self.bad('inputs-not-fetched', 'get_all_inputs', None, 'get_all_inputs() never fetches the inputs')

    def times(self):
        kinds = [('unset', True)] + [('one', o, r) for o in (True, False) for r in ('LT', 'EQ', 'GT')] + [
            ('list', o, rs) for o in (True, False) for rs in (('LT', 'LT'), ('LT', 'EQ'), ('EQ', 'LT'))]
        rels = {'LT': 'older than', 'EQ': 'equal to', 'GT': 'later than'}
        for sc in [Scen(())] + [Scen((x, y)) for x in kinds for y in kinds if x == ('unset', True) or y == ('unset', True) or x[1] == y[1]]:
            st = [r for x in sc.ins for r in sc.stamps(x)]
            want = not st or any(r != 'LT' for r in st)
            got, fetched = set(), True
            for p in self.scenario('checkInputTimes', sc, ('get_all_inputs',)):
                if p.how != 'return':
                    continue
                r = sc(p.value)
                got.add(None if r is UNK else bool(r))
                if sc.ins and not p.calls('get_all_inputs') and not p.calls('get'):
                    fetched = False
            if not fetched:
                self.bad('inputs-not-fetched', 'checkInputTimes', None, 'checkInputTimes(): the inputs are not fetched before their times are compared')
            if got != {not want}:
                self.undecided += got != {want}
                continue
            if not sc.ins:
                self.bad('no-inputs', 'checkInputTimes', None, 'an object without inputs is not triggered at every step')
            elif not st:
                self.bad('optional-inputs', 'checkInputTimes', None, 'an object whose inputs are all optional and unset is not triggered')
            elif want and 'LT' in st or want and len(st) < sum(len(sc.stamps(x)) or 1 for x in sc.ins):
                self.bad('any-input', 'checkInputTimes', None, f'an object is not triggered by one refreshed input ({sc})')
            else:
                self.bad('freshness', f'checkInputTimes:{"fresh" if want else "stale"}', None, f'an object is {"not " if want else ""}triggered by inputs whose time stamps are {" / ".join(rels[r] for r in sorted(set(st)))} the current time ({sc})')

    def scenario(self, meth, sc, noinline):
        f = self.ix.find_method(BASE, meth)
        if f is None:
            raise AnalysisBroken(f'{BASE}.{meth} not found')
        ps = Paths(self.ix, BASE, noinline=noinline, oracle=sc.oracle, elements=sc.elements).run(f)
        self.n += len(ps)
        return ps

    def prepare(self):
        for p in self.paths('prepare_trigger'):
            s = [x for x in p.stores('current_time_seconds')]
            if p.how == 'return' and (not s or not has_attr(s[-1][2], 'current_time') and not mentions(s[-1][2], lambda q: q == ('v', 't'))
                                      or not has_attr(s[-1][2], '_time_resolution')):
                self.bad('current-time', 'prepare_trigger', p.node, 'prepare_trigger(): current_time_seconds is not the current time in seconds')


HOOKS = {'__init__': 'init', 'setup': 'setup', 'prepare_trigger': 'step', 'post_trigger': 'post'}


class Hooks(Monitor):
    init = frozenset()

    def __init__(self, ix, cname):
        self.ix = ix
        self.cname = cname
        self.out = {'bad': {}, 'checked': 0}

    def on_phase(self, eng, st, ph):
        if ph in ('init', 'setup', 'step'):
            st.alts = frozenset((frozenset(), f) for m, f in st.alts)

    def on_enter(self, eng, st, fn, node):
        if fn.cls is not None and fn.cls.name == BASE and fn.name in HOOKS:
            a = eng.enter_args
            if a and ('self',) in a[0].locs:
                eng.map_mon(st, lambda m: m | {fn.name})

    def lost(self, st, name, ph):
        if self.eng_.budget <= 0:
            return
        self.out['checked'] += 1
        if any(name not in m for m, f in st.alts):
            self.out['bad'][(name, 'base class ' + name + ' not run on some path')] = ph

    def required(self):
        """Does the class declare inputs?  (recorders get theirs from the configuration)"""
        f = self.ix.find_method(self.cname, 'input_names')
        if f is None:
            return True
        out = []
        for n in ast.walk(f.node):
            if isinstance(n, ast.Dict):
                out += [v for v in n.values]
        return bool(out) or not any(isinstance(n, ast.Dict) for n in ast.walk(f.node))

    def after_phase(self, eng, st, ph):
        self.eng_ = eng
        if ph == 'init':
            self.lost(st, '__init__', ph)
        elif ph == 'setup':
            if self.required():
                self.lost(st, 'setup', ph)
            self.gate(eng, st)
        elif ph == 'step':
            self.lost(st, 'prepare_trigger', ph)
            self.lost(st, 'post_trigger', ph)
            v = st.heap.get((('self',), 'inputs_changed'))
            self.out['checked'] += 1
            if eng.budget > 0 and (v is None or v.const is not False):
                self.out['bad'][('post_trigger', 'inputs_changed is still set after the step')] = ph

    def gate(self, eng, st):
        lc = self.lc
        key = BASE + '.checkInputTimes'
        save = eng.intercepts[key]
        m0, self.on_enter_saved = self.out, None
        b0 = eng.budget
        try:
            # not ready
            s2 = st.copy()
            eng.intercepts[key] = lambda e, s, f, a, k, n: constval(False)
            s2.heap[(('self',), 'inputs_changed')] = constval(True)
            r = eng.run_method(s2, lc.me, self.cname, 'check_ready', args=[constval(7)])
            self.out['checked'] += 1
            v = s2.heap.get((('self',), 'inputs_changed'))
            if s2.alts and (v is None or v.const is not False):
                self.out['bad'][('check_ready', 'inputs_changed stays set although no input was refreshed')] = 'step'
            if s2.alts and (r is None or r.const is not False):
                self.out['bad'][('check_ready', 'does not return False although no input was refreshed')] = 'step'
            if s2.alts and any('prepare_trigger' in m for m, f in s2.alts):
                self.out['bad'][('check_ready', 'prepares a step although no input was refreshed')] = 'step'
            # ready
            s2 = st.copy()
            eng.intercepts[key] = save
            s2.heap[(('self',), 'inputs_changed')] = constval(False)
            r = eng.run_method(s2, lc.me, self.cname, 'check_ready', args=[constval(7)])
            v = s2.heap.get((('self',), 'inputs_changed'))
            self.out['checked'] += 1
            if s2.alts and (v is None or v.const is not True):
                self.out['bad'][('check_ready', 'inputs_changed is not set although an input was refreshed')] = 'step'
            if s2.alts and (r is None or r.const is not True):
                self.out['bad'][('check_ready', 'does not return True although an input was refreshed')] = 'step'
        finally:
            eng.intercepts[key] = save
            eng.budget = b0


def run(ix, tier):
    res = Result()
    if BASE not in ix.classes:
        raise AnalysisBroken('BaseProcessingObj not found')
    b = Base(ix, res)
    b.check_ready()
    b.refuse('trigger')
    b.refuse('post_trigger')
    b.setup()
    b.get_all()
    b.times()
    b.prepare()
    res.floor('base_class_paths', b.n, 25)
    res.stats['undecided_scenarios'] = b.undecided
    out = sweep(ix, Hooks, tier)
    sweep_stats(res, out)
    n = 0
    for c, (o, s) in sorted(out.items()):
        if o is None or s['error']:
            continue
        n += o['checked']
        for (meth, what), ph in sorted(o['bad'].items()):
            f = ix.find_method(c, meth)
            owner = f.cls.name if f is not None and f.cls else c
            where = f'{f.module.rel}:{f.node.lineno}' if f is not None else ix.classes[c].rel
            res.add('hook', f'{owner}.{meth}:{what}', where, f'{c}.{meth} (defined in {owner}): {what}')
    res.floor('hook_obligations', n, 700)
    return res
