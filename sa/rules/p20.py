"""Trigger order rule.  Paths of Simul.build_trigger_order, is_leaf,
has_delayed_output and remove_inputs, pruned by scenarios (kind of the input
definition, its delay, its producer): an object is placed only when no input of
the current step is left, after the consumers of its delayed outputs, and what
is placed is removed from the inputs of the others, and only that."""
from ..paths import Paths, show, mentions, has_attr, callee, recv, arg, walk
from ..conc import Conc, UNK
from ..index import AnalysisBroken
from ..report import Result


class Scen(Conc):
    """inputs: None (no inputs), 'str', 'list', 'empty'; delay; own: the
    producer of the input is the object looked for"""
    def __init__(self, inputs, delay=0, own=True):
        self.inputs = inputs
        self.delay = delay
        self.own = own

    def __str__(self):
        if self.inputs is None:
            return 'an object without inputs'
        k = {'str': 'a single input', 'list': 'a list of inputs', 'empty': 'an empty list of inputs'}[self.inputs]
        return k if self.inputs == 'empty' else f'{k} with delay {self.delay}' + ('' if self.own is None else ' from ' + ('the' if self.own else 'another') + ' object')

    def isinputs(self, v):
        """the dictionary of the inputs of an object"""
        if v[0] == 'call' and callee(v) in ('items', 'values', 'copy', 'deepcopy', 'list', 'dict', 'tuple', 'get'):
            r = recv(v) if v[1][0] == 'a' and recv(v) not in (('v', 'copy'),) else None
            if callee(v) == 'get':
                return v[2][:1] == (('c', 'inputs'),)
            return any(self.isinputs(x) for x in ((r,) if r is not None else ()) + v[2])
        return v[0] == 'i' and v[2] == ('c', 'inputs')

    def isdef(self, v):
        """the definition of one input"""
        if v[0] == 'call' and callee(v) in ('copy', 'list', 'deepcopy') and v[2]:
            return self.isdef(v[2][0])
        return v[0] == 'i' and self.isinputs(v[1]) and v[2][0] == 'elem' or v[0] == 'elem' and v[1][0] == 'call' and callee(v[1]) == 'values' and self.isinputs(v[1])

    def leaf(self, v):
        k = v[0]
        if k == 'cmp' and v[1] == 'in' and v[2] == ('c', 'inputs'):
            return self.inputs is not None
        if k == 'nonempty' and self.isinputs(v[1]):
            return self.inputs is not None
        if self.isinputs(v) and k == 'call' and callee(v) == 'get':
            return {} if self.inputs is None else UNK
        if self.isdef(v):
            return {'str': 'x', 'list': ['x0', 'x1'] if isinstance(self.delay, tuple) else ['x'], 'empty': []}.get(self.inputs, UNK)
        if k == 'call':
            f = callee(v)
            if f == 'isinstance' and len(v[2]) == 2 and self.isdef(v[2][0]):
                return self.kind(v[2][1])
            if f == 'output_delay':
                return self.of(v[2][0] if v[2] else None)
            if f == 'output_owner':
                return 'me' if self.own else 'me2'
        if k == 'cmp' and v[1] in ('is', '==') and v[2][0] == 'call' and callee(v[2]) == 'type' and v[2][2] and self.isdef(v[2][2][0]):
            return self.kind(v[3])
        if k == 'a' and v[1][0] == 'call' and callee(v[1]) == 'split_output':
            return {'delay': self.of(v[1][2][0] if v[1][2] else None), 'obj_name': 'me' if self.own else 'me2'}.get(v[2], UNK)
        if k == 'v' and v[1] in ('obj_name', 'obj_to_remove'):
            return 'me'
        return UNK

    def of(self, x):
        """delay of one definition"""
        if not isinstance(self.delay, tuple):
            return self.delay
        tok = self(x) if x is not None else UNK
        return {'x0': self.delay[0], 'x1': self.delay[1]}.get(tok, UNK) if isinstance(tok, str) else UNK

    def kind(self, t):
        names = [x[1] for x in walk(t) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'v']
        if not names:
            return UNK
        return (self.inputs == 'str' and 'str' in names) or (self.inputs in ('list', 'empty') and 'list' in names)


SCEN = [Scen(None)] + [Scen(k, d, o) for k in ('str', 'list') for d in (0, -1) for o in (True, False)] + [Scen('empty')]


class Rule:
    def __init__(self, ix, res):
        self.ix = ix
        self.res = res
        self.n = {'paths': 0, 'decided': 0, 'undecided': 0}

    def paths(self, meth, scen=None, **kw):
        f = self.ix.find_method('Simul', meth)
        if f is None:
            raise AnalysisBroken(f'Simul.{meth} not found')
        self.f = f
        self.file = f.module.rel
        P = Paths(self.ix, 'Simul', limit=20000, oracle=scen.oracle if scen else None, unroll=True, noinline=[x for x in ('output_delay', 'output_owner', 'split_output', 'is_leaf', 'has_delayed_output', 'remove_inputs') if x != meth], **kw)
        ps = P.run(f)
        self.n['paths'] += len(ps)
        return ps

    def bad(self, rule, what, node, msg):
        line = getattr(node, 'lineno', None) or self.f.node.lineno
        self.res.add(rule, what, f'{self.file}:{line}', msg)

    def reaches(self, p, scen):
        """does the path look at the (non-empty) collections?"""
        return scen.inputs is None or not any(x[0] == 'skip' and self.sure(x[2], scen) for x in p.trace)

    def sure(self, it, scen):
        c = scen(it)
        if c is not UNK and not c:
            return False
        return scen.isinputs(it) or scen.isdef(it) or mentions(it, lambda q: q == ('v', 'params')) or it[0] == 'tup'

    def decided(self, meth, p, scen, got, want, rule, msg):
        if got is UNK:
            self.n['undecided'] += 1
            return
        self.n['decided'] += 1
        if bool(got) != want:
            self.bad(rule, f'{meth}:{scen.inputs}:{scen.delay}:{scen.own}', p.node, f'{meth}(): {scen} {msg}')

    def leaf(self):
        for s in SCEN + [Scen('list', (0, -1)), Scen('list', (-1, 0))]:
            if s.own is False:
                continue
            want = s.inputs in (None, 'empty') or s.delay != 0 and not isinstance(s.delay, tuple)
            s = Scen(s.inputs, s.delay, None)
            for p in self.paths('is_leaf', s):
                if p.how == 'return' and self.reaches(p, s):
                    self.decided('is_leaf', p, s, s(p.value), want, 'leaf', 'is ' + ('not ' if want else '') + 'considered available at the beginning of the step')
        self.early('is_leaf', True, 'as soon as one input is not available')

    def early(self, meth, val, what):
        """the answer must not be given before all inputs have been seen"""
        for p in self.paths(meth):
            if p.how == 'return' and p.value == ('c', val) and any(mentions(it, lambda q: q == ('c', 'inputs') or q == ('v', 'params')) for lid, it in p.loops_at(len(p.trace))):
                self.bad('early', meth, p.node, f'{meth}() answers {val} before looking at the other inputs')

    def delayed(self):
        for s in SCEN:
            want = s.inputs in ('str', 'list') and s.own and s.delay < 0
            for p in self.paths('has_delayed_output', s):
                if p.how == 'return' and self.reaches(p, s) and any(x[0] == 'loop' for x in p.trace):
                    self.decided('has_delayed_output', p, s, s(p.value), bool(want), 'delayed', 'is ' + ('not ' if want else '') + 'taken as a delayed use of the object')

        self.early('has_delayed_output', False, '')

    def removal(self):
        for s in SCEN:
            if s.delay < 0 or s.inputs in (None, 'empty'):
                continue
            removed = s.inputs != 'empty' and s.own
            for p in self.paths('remove_inputs', s):
                if p.how != 'return' or not self.reaches(p, s):
                    continue
                if not any(x[0] in ('loop',) and s.isinputs(x[2]) for x in p.trace) and not any(x[0] == 'store' and x[2][0] == 'comp' for x in p.trace):
                    continue
                got = self.kept(p, s)
                if got is UNK:
                    self.n['undecided'] += 1
                    continue
                self.n['decided'] += 1
                if got == bool(removed):
                    self.bad('removal', f'remove_inputs:{s.inputs}:{s.own}', p.node, f'remove_inputs(): {s} is ' + ('kept' if removed else 'removed'))

    def kept(self, p, s):
        """is the input definition still there at the end?"""
        dels = [x for x in p.trace if x[0] == 'del'] + [c for c in p.calls('pop')]
        st = [x for x in p.stores() if x[1][0] == 'i']
        out = [x for x in st if x[1][2] == ('c', 'inputs') or s.isinputs(x[1])]
        item = [x for x in st if x not in out and (s.isinputs(x[1][1]) or x[1][1][0] in ('call', 'dict'))]
        # the modified copy must be stored back, unless it is the original
        r = True
        if dels:
            r = False
        for x in item:
            v = s(x[2])
            if v is UNK:
                return UNK
            r = bool(v) if isinstance(v, list) else True
        if out and out[-1][2][0] == 'comp':
            c = s.one(out[-1][2]) if out[-1][2][1] == 'dict' else UNK
            ifs = [s(q) for q in out[-1][2][4]]
            if any(q is UNK for q in ifs):
                return UNK
            return all(ifs)
        if (dels or item) and not out:
            where = [x[1][1] for x in dels if x[0] == 'del'] + [x[1][1] for x in item]
            if where and all(w[0] == 'call' for w in where):
                return True          # only a copy was changed
        return r

    def order(self):
        ps = self.paths('build_trigger_order', ident=True)
        lists = {p.value[2] for p in ps if p.how == 'return' and p.value[0] == 'tup' and len(p.value[2]) == 2}
        lists = list(lists)[0] if len(lists) == 1 else None
        if lists is None or any(x[0] != 'tup' or len(x) != 4 for x in lists):
            self.n['undecided'] += 1
            return
        self.ready = self.filtered(ps, lists)
        placed = returned = False
        f = self.f
        for p in ps:
            if p.how == 'return' and p.value[0] == 'tup' and len(p.value[2]) == 2:
                returned = True
            apps = p.calls('append')
            obj = [(i, v, n) for i, v, n in apps if v[2] and recv(v) == lists[0]]
            idx = [(i, v, n) for i, v, n in apps if v[2] and recv(v) == lists[1]]
            delay = {a: t for a, t in p.conds.items() if a[0] == 'call' and callee(a) == 'has_delayed_output'}
            leaf = {a: t for a, t in p.conds.items() if a[0] == 'call' and callee(a) == 'is_leaf'}
            for i, v, n in obj:
                placed = True
                x = v[2][0]
                if not self.fromleaf(x) and True not in leaf.values():
                    self.bad('order', 'leaf', n, 'build_trigger_order() places an object without checking that its inputs are available')
                if False not in delay.values() and not mentions(x, lambda q: q[0] == 'call' and callee(q) == 'has_delayed_output'):
                    self.bad('order', 'delayed', n, 'build_trigger_order() places an object before the objects that read its delayed outputs')
                for a in delay:
                    if a[2] and a[2][0] != x:
                        self.bad('order', 'delayed-of', n, f'build_trigger_order() checks the delayed outputs of {show(a[2][0])} instead of the object placed')
                if len(obj) != 1 or len(idx) != 1:
                    self.bad('order', 'index', n, 'build_trigger_order(): an object and its trigger index are not recorded together')
                here = set(p.loops_at(i))
                dl = [d for j, d in enumerate(p.trace) if d[0] == 'del' and d[1][2] == x and here <= set(p.loops_at(j))] + [c for c in p.calls('pop') if c[1][2][:1] == (x,)]
                rm = [c for c in p.calls('remove_inputs') if (x in c[1][2] or x in [w for k, w in c[1][3]]) and here <= set(p.loops_at(c[0]))]
                if not dl:
                    self.bad('order', 'again', n, 'build_trigger_order() does not remove an object it has placed')
                if not rm:
                    self.bad('order', 'inputs', n, 'build_trigger_order() does not remove the outputs of a placed object from the inputs of the others')
            if not obj and False in delay.values():
                self.bad('order', 'skipped', p.node, 'build_trigger_order(): an object whose inputs are available is not placed')
            for i, v, n in idx:
                x = v[2][0]
                if x[0] == 'c' or not (mentions(x, lambda q: q[0] == 'elem' and mentions(q[1], lambda z: z[0] == 'call' and callee(z) in ('count', 'range', 'enumerate'))) or mentions(x, lambda q: q[0] == 'phi')):
                    self.bad('order', 'index-value', n, f'build_trigger_order(): the trigger index is {show(x)}, not the number of the round')
        if not returned:
            self.bad('order', 'result', f.node, 'build_trigger_order() does not return the order and the indices')
        if not placed:
            self.bad('order', 'never', f.node, 'build_trigger_order() never places an object')

    def filtered(self, ps, lists):
        """lists filled only with objects that is_leaf() accepts"""
        ok, bad = set(), set()
        for p in ps:
            for i, v, n in p.calls('append'):
                l = recv(v)
                if l is None or l[0] != 'tup' or l in lists or not v[2]:
                    continue
                here = p.loops_at(i)
                cs = [x for j, x in enumerate(p.trace[:i]) if x[0] == 'cond' and x[1][0] == 'call' and callee(x[1]) == 'is_leaf' and p.loops_at(j) == here]
                (ok if cs and cs[-1][2] else bad).add(l)
        return ok - bad

    def fromleaf(self, v):
        return mentions(v, lambda q: q[0] == 'comp' and len(q) == 5 and any(c[0] == 'call' and callee(c) == 'is_leaf' for c in q[4])) or mentions(v, lambda q: q in self.ready)


def run(ix, tier):
    res = Result()
    r = Rule(ix, res)
    r.leaf()
    r.delayed()
    r.removal()
    r.order()
    res.floor('paths_analysed', r.n['paths'], 60)
    res.floor('obligations_decided', r.n['decided'], 15)
    res.stats['undecided'] = r.n['undecided']
    res.assumptions = ['the delay and the producer of an input are those of its definition (split_output)']
    return res
