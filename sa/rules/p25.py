"""Averages rule.  A counter is an attribute a step increments by one; what the
same class divides by it is a sum.  On every path of a step the sum gains one
term exactly when the counter gains one; they start empty together and are
reset together; at the end every sum kept with a counter is divided by it,
once.  A calibrator that integrates a number of frames given by the user is
followed, as a transition system, over orders, new orders and changes of the
number: each average divides by the number of frames summed."""
import ast
import itertools

from ..conc import Conc, UNK
from ..index import AnalysisBroken
from ..paths import Paths, TooMany, callee as callee_, recv, walk, show, mentions
from ..report import Result

SELF = ('v', 'self')
STEP = ('prepare_trigger', 'trigger_code', 'post_trigger')


def callee(v):
    f = callee_(v)
    return f.split('.')[-1] if f else f


def at(name):
    return ('a', SELF, name)


def root(lv):
    """(attribute of self, depth) of an lvalue"""
    while lv[0] in ('a', 'i'):
        if lv[0] == 'a' and lv[1] == SELF:
            return lv[2]
        lv = lv[1]
    return None


def place(lv):
    """the lvalue with its indices forgotten"""
    if lv == SELF:
        return 'self'
    if lv[0] == 'a':
        b = place(lv[1])
        return b and f'{b}.{lv[2]}'
    if lv[0] == 'i' and lv[2][0] == 'c' and isinstance(lv[2][1], str):
        b = place(lv[1])
        return b and ALIAS.get(f'{b}.{lv[2][1]}', f'{b}.{lv[2][1]}')
    if lv[0] == 'i' and lv[1][0] == 'elem' and callee(lv[1][1]) == 'enumerate' and lv[2] == ('c', 1):
        return place(('elem', lv[1][1][2][0], lv[1][2]))
    if lv[0] in ('i', 'elem'):
        b = place(lv[1])
        if b and b.endswith('[]'):
            return b
        return b and f'{b}[]'
    if lv[0] == 'call' and callee(lv) in ('enumerate', 'zip') and lv[2]:
        return place(lv[2][0])
    return None


def indices(lv):
    """the indices of an lvalue; an element of a loop and the number of the element are the same index"""
    out = []
    while lv[0] in ('a', 'i', 'elem'):
        if lv[0] == 'elem':
            out.append(('k', lv[2]))
        elif lv[0] == 'i' and not (lv[2][0] == 'c' and isinstance(lv[2][1], str)):
            for x in reversed(lv[2][2] if lv[2][0] == 'tup' else (lv[2],)):
                if x[0] != 'slice':
                    out.append(index(x))
        lv = lv[1]
    return out[::-1]


def index(x):
    if x[0] == 'call' and callee(x) == 'int' and len(x[2]) == 1:
        x = x[2][0]
    if x[0] == 'elem' and callee(x[1]) == 'range' or x[0] == 'i' and x[2] == ('c', 0) and x[1][0] == 'elem' and callee(x[1][1]) == 'enumerate':
        return ('k', (x if x[0] == 'elem' else x[1])[2])
    return x


def undivided(v, a, c):
    """v uses the sum a without dividing it by the counter c"""
    if not isinstance(v, tuple) or not v:
        return False
    if len(v) == 4 and v[0] == 'op' and v[1] == '/' and place(v[3]) == c:
        v = v[2]
        if place(v) == a:
            return False
    if v[0] in ('a', 'i', 'elem') and place(v) == a:
        return True
    return any(undivided(x, a, c) for x in v if isinstance(x, tuple))


def square(v):
    """v is x * x: x"""
    if len(v) == 4 and v[0] == 'op':
        if v[1] == '**' and v[3] in (('c', 2), ('c', 2.0)):
            return v[2]
        if v[1] == '*' and v[2] == v[3]:
            return v[2]
    if v and v[0] == 'call' and callee(v) == 'square' and len(v[2]) == 1:
        return v[2][0]
    if v and v[0] == 'call' and callee(v) == 'power' and len(v[2]) == 2 and v[2][1] in (('c', 2), ('c', 2.0)):
        return v[2][0]
    return None


ALIAS = {}


def increment(lv, v):
    """v is lv + something: the something"""
    if v[0] == 'op' and v[1] == '+':
        if v[2] == lv:
            return v[3]
        if v[3] == lv:
            return v[2]
    return None


class Rule:
    def __init__(self, ix, res):
        self.ix, self.res = ix, res
        self.n = {'paths': 0, 'sums': 0, 'too_many': [], 'counters': [], 'histories': 0, 'steps': 0, 'variances': 0, 'undecided': 0}

    def bad(self, rule, what, f, node, msg):
        self.res.add(rule, what, f'{f.module.rel}:{getattr(node, "lineno", None) or f.node.lineno}', msg)

    def paths(self, cls, meth, **kw):
        f = self.ix.find_method(cls, meth)
        if f is None:
            return None, []
        try:
            ps = Paths(self.ix, cls, noinline=('cpuArray', 'seconds_to_t', 't_to_seconds', 'save', 'generate_rec', '_set_profile_outputs', '_set_radial_profile_output', '_compute_radial_profile_data', '_compute_profile_metrics'), **kw).run(f)
        except TooMany:
            self.n['too_many'].append(f'{cls}.{meth}')
            ps = []
        self.n['paths'] += len(ps)
        return f, [p for p in ps if not p.exceptional]

    # -- counters and sums -------------------------------------------------
    def counters(self, cls):
        """attributes a step increments by one"""
        out = set()
        for c in self.ix.mro(cls):
            for f in c.methods.values():
                if f.name == '__init__':
                    continue
                for s in ast.walk(f.node):
                    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.value, ast.Constant) and s.value.value == 1:
                        out.add(self.attr(s.target))
                    elif isinstance(s, ast.Assign) and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add) and any(
                            isinstance(x, ast.Constant) and x.value == 1 for x in (s.value.left, s.value.right)):
                        out.add(self.attr(s.targets[0]))
        return {x for x in out if x}

    def zeros(self, cls):
        """attributes the constructor sets to zero or zeros"""
        out = set()
        for c in self.ix.mro(cls):
            f = c.methods.get('__init__')
            for s in ast.walk(f.node) if f else ():
                if isinstance(s, ast.Assign):
                    z = isinstance(s.value, ast.Constant) and s.value.value == 0 and s.value.value is not False or any(
                        isinstance(x, ast.Call) and getattr(x.func, 'attr', getattr(x.func, 'id', '')).startswith('zeros') for x in ast.walk(s.value))
                    if z:
                        out |= {self.attr(t) for t in s.targets}
        return {x for x in out if x} - {'current_time', 'current_time_seconds'}

    def alias(self, cls):
        """outputs that are also attributes"""
        out = {}
        for c in self.ix.mro(cls):
            f = c.methods.get('__init__')
            for s in ast.walk(f.node) if f else ():
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript) and self.attr(s.targets[0]) == 'outputs' and isinstance(
                        s.targets[0].slice, ast.Constant) and isinstance(s.value, ast.Attribute) and self.attr(s.value):
                    out[f'self.outputs.{s.targets[0].slice.value}'] = f'self.{s.value.attr}'
        return out

    def attr(self, t):
        while isinstance(t, ast.Subscript):
            t = t.value
        return t.attr if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' else None

    def averages(self, cls):
        fin = self.ix.find_method(cls, 'finalize')
        if fin is None or fin.cls.name == 'BaseProcessingObj':
            return
        cand = self.counters(cls) | self.zeros(cls)
        if not cand:
            return
        ALIAS.clear()
        ALIAS.update(self.alias(cls))
        ff, fps = self.paths(cls, 'finalize')
        if not self.counters(cls) and not any(len(q) == 4 and q[0] == 'op' and q[1] == '/' and place(q[3]) and root(q[3]) in cand for p in fps for v, n in self.values(p) for q in walk(v)):
            return
        steps = {m: self.paths(cls, m) for m in STEP}
        # what a path adds: (counter or sum) -> number of terms
        adds = []
        for m, (f, ps) in steps.items():
            for p in ps:
                if p.how != 'return':
                    continue
                inc, acc, reset, where = {}, {}, set(), {}
                for i, lv, v, n in p.stores():
                    r = root(lv)
                    k = place(lv)
                    if k is None:
                        continue
                    t = increment(lv, v)
                    if r in cand and t == ('c', 1):
                        inc[k] = inc.get(k, 0) + 1
                        where[k] = n
                    elif r in cand and t is None and v == ('c', 0):
                        reset.add(k)
                    elif t is not None and t[0] != 'c':
                        acc[k] = acc.get(k, 0) + 1
                        where[k] = n
                    elif t is None and v[0] == 'op' and v[1] == '*' and ('c', 0) in v[2:] or v == ('c', 0) or v[0] == 'op' and v[1] == '*' and ('c', 0.0) in v[2:]:
                        reset.add(k)
                    elif t is None and any(x[0] == 'cond' and x[2] and x[1][0] == 'cmp' and x[1][1] in ('is', '==') and x[1][2:] == (lv, ('c', None)) for x in p.trace[:i]) and v != ('c', None):
                        # the first term
                        acc[k] = acc.get(k, 0) + 1
                        where[k] = n
                adds.append((m, f, p, inc, acc, reset, where))
        ncount = {k for _, _, _, inc, _, _, _ in adds for k in inc}
        # what is divided by a counter, anywhere
        divided = {}
        allp = [(m, f, p) for m, (f, ps) in steps.items() for p in ps]
        allp += [('finalize', ff, p) for p in fps]
        for p in fps:
            for v, n in self.values(p):
                ncount |= {place(q[3]) for q in walk(v) if len(q) == 4 and q[0] == 'op' and q[1] == '/' and place(q[3]) and place(q[2]) and root(q[3]) in cand and place(q[3]).count('.') == 1}
        if not ncount:
            return
        for m, f, p in allp:
            for v, n in self.values(p):
                for q in walk(v):
                    if len(q) == 4 and q[0] == 'op' and q[1] == '/' and place(q[3]) in ncount and place(q[2]):
                        divided.setdefault(place(q[3]), {}).setdefault(place(q[2]), []).append((m, f, n))
        for c in sorted(ncount):
            mates = {}
            for m, f, p, inc, acc, reset, where in adds:
                if c in inc:
                    for a in acc:
                        mates.setdefault(a, (m, f, where[a]))
            sums = set(divided.get(c, {}))
            # a counter that divides nothing and guards nothing is not one of frames summed
            used = bool(sums) or not any(mentions_place(v, c) for m, f, p in allp for v, n in self.values(p) if not self.isinc(v, c)) and not any(
                mentions_place(a, c) for m, f, p in allp for a in p.conds)
            if not used or not (sums or mates):
                continue
            self.n['counters'].append(f'{cls}:{c}')
            for a in sorted(sums | {x for x in mates}):
                self.n['sums'] += 1
                self.pair(cls, c, a, adds, fps, ff, mates)
            self.initial(cls, c)
            for a in sums:
                self.starts(cls, c, a)
                self.used_raw(cls, c, a, fps, ff)
            self.variance(cls, c, adds, fps, ff)
            self.same_index(cls, c, sums, adds, fps, ff)

    def isinc(self, v, c):
        return v[0] == 'op' and v[1] == '+' and ('c', 1) in v[2:]

    def values(self, p):
        for x in p.trace:
            if x[0] == 'store':
                yield x[2], x[3]
            elif x[0] == 'call':
                yield x[1], x[2]

    def same(self, a, b):
        """sum b is (inside) a"""
        return a == b or a.startswith(b + '.') or b.startswith(a + '.') or a.startswith(b + '[') or b.startswith(a + '[')

    def pair(self, cls, c, a, adds, fps, ff, mates):
        short = f'{cls}:{a}'
        for m, f, p, inc, acc, reset, where in adds:
            k = inc.get(c, 0)
            t = max([n for x, n in acc.items() if self.same(x, a)] or [0])
            if t != k:
                node = next((where[x] for x in list(acc) + [c] if x in where and (self.same(x, a) or x == c)), None)
                self.bad('terms', short, f, node, f'{cls}.{m}(): on a path {a} gains {t} term(s) and {c} is incremented {k} time(s)')
            elif k and p.loops_at is not None:
                ia = next((i for i, lv, v, n in p.stores() if place(lv) and self.same(place(lv), a) and (increment(lv, v) is not None or True)), None)
                ic = next((i for i, lv, v, n in p.stores() if place(lv) == c and increment(lv, v) == ('c', 1)), None)
                if ia is not None and ic is not None and len(p.loops_at(ia)) != len(p.loops_at(ic)):
                    self.bad('terms', short + ':loop', f, where.get(c), f'{cls}.{m}(): {a} and {c} are not updated in the same loop')
            if (c in reset) != any(self.same(x, a) for x in reset):
                self.bad('reset', short, f, p.node, f'{cls}.{m}(): {a} and {c} are not reset together')
        if not fps:
            return
        good = 0
        for p in fps:
            if p.how != 'return' or self.empty(p, c):
                continue
            n = 0
            for v, node in self.values(p):
                n += any(len(q) == 4 and q[0] == 'op' and q[1] == '/' and place(q[3]) == c and place(q[2]) and self.same(place(q[2]), a) for q in walk(v))
            # in place: lv := lv / n counts once even if the result is used again
            w = sum(1 for i, lv, v, node in p.stores() if v[0] == 'op' and v[1] == '/' and place(v[3]) == c and place(lv) and self.same(place(lv), a)
                    and place(v[2]) is not None and self.same(place(v[2]), a))
            if n == 0:
                self.bad('divided', short, ff, p.node, f'{cls}.finalize(): a path ends without dividing the sum {a} by {c}')
            elif w > 1 or self.twice(p, c, a):
                self.bad('divided', short + ':twice', ff, p.node, f'{cls}.finalize(): {a} is divided by {c} more than once')
            else:
                good += 1
        return good

    def twice(self, p, c, a):
        for v, node in self.values(p):
            for q in walk(v):
                if len(q) == 4 and q[0] == 'op' and q[1] == '/' and place(q[3]) == c and any(
                        len(r) == 4 and r[0] == 'op' and r[1] == '/' and place(r[3]) == c and place(r[2]) and self.same(place(r[2]), a) for r in walk(q[2])):
                    return True
        return False

    def empty(self, p, c):
        """the path is one where nothing was counted, or skips a loop over them"""
        for x in p.trace:
            if x[0] == 'skip':
                return True
        for a, t in p.conds.items():
            if not mentions_place(a, c):
                continue
            if a[0] == 'cmp' and a[1] == '<' and a[2] == ('c', 0) and not t:
                return True
            if a[0] == 'cmp' and a[1] == '<' and a[3] == ('c', 1) and t:
                return True
            if a[0] == 'cmp' and a[1] == '==' and ('c', 0) in a[2:] and t:
                return True
            if place(a) == c and not t:
                return True
        return False

    def initial(self, cls, c):
        f, ps = self.paths(cls, '__init__')
        name = c.split('.')[1].split('[')[0]
        for p in ps:
            vs = [(v, n) for i, lv, v, n in p.stores() if lv == at(name)]
            if p.how == 'return' and vs:
                v = vs[-1][0]
                if not (v == ('c', 0) or mentions(v, lambda q: q[0] == 'call' and (callee(q) or '').startswith('zeros'))):
                    self.bad('initial', f'{cls}:{name}', f, vs[-1][1], f'{cls}: the counter {name} starts at {show(v)}')

    def starts(self, cls, c, a):
        for m in ('__init__', 'setup'):
            f, ps = self.paths(cls, m)
            for p in ps:
                for i, lv, v, n in p.stores():
                    if place(lv) == a and (v[0] == 'c' and v[1] not in (0, None) or v[0] == 'call' and (callee(v) or '').split('_')[0] in ('ones', 'full', 'empty', 'rand', 'random')):
                        self.bad('initial', f'{cls}:{a}', f, n, f'{cls}.{m}(): the sum {a} starts at {show(v)}')

    def used_raw(self, cls, c, a, fps, ff):
        for p in fps:
            if p.how != 'return' or self.empty(p, c):
                continue
            for i, lv, v, n in p.stores():
                if place(lv) and place(lv).split('.')[-1] != 'generation_time' and undivided(v, a, c):
                    self.bad('divided', f'{cls}:{a}:before', ff, n, f'{cls}.finalize(): {place(lv)} is computed from the sum {a} before it is divided by {c}')

    def variance(self, cls, c, adds, fps, ff):
        pairs = {}
        for p in fps:
            for v, n in self.values(p):
                for q in walk(v):
                    if len(q) == 4 and q[0] == 'op' and q[1] == '-' and square(q[3]) is not None:
                        x, y = q[2], square(q[3])
                        if all(len(t) == 4 and t[0] == 'op' and t[1] == '/' and place(t[3]) == c and place(t[2]) for t in (x, y)):
                            pairs[place(x[2]), place(y[2])] = n
        for (s2, s1), n in pairs.items():
            self.n['variances'] += 1
            for m, f, p, inc, acc, reset, where in adds:
                t = {}
                for i, lv, v, nd in p.stores():
                    x = increment(lv, v)
                    if x is not None and place(lv) in (s1, s2):
                        t[place(lv)] = (x, nd)
                if len(t) == 2 and square(t[s2][0]) != t[s1][0]:
                    self.bad('variance', f'{cls}:{s2}', f, t[s2][1], f'{cls}.{m}(): the variance is computed from {s2} and {s1}, but the term of {s2} is {show(t[s2][0])[:80]}, not the square of {show(t[s1][0])[:80]}')

    def same_index(self, cls, c, sums, adds, fps, ff):
        """the same counter for the same sum, at every place"""
        seen = {}
        for m, f, p, inc, acc, reset, where in adds:
            cs = [(lv, n) for i, lv, v, n in p.stores() if place(lv) == c and increment(lv, v) == ('c', 1)]
            for i, lv, v, n in p.stores():
                if place(lv) in sums and increment(lv, v) is not None:
                    for lc, nc in cs:
                        self.match(cls, c, place(lv), lv, lc, f, nc, m, seen)
        for p in fps:
            for v, n in self.values(p):
                for q in walk(v):
                    if len(q) == 4 and q[0] == 'op' and q[1] == '/' and place(q[3]) == c and place(q[2]) in sums:
                        self.match(cls, c, place(q[2]), q[2], q[3], ff, n, 'finalize', seen)

    def match(self, cls, c, a, la, lc, f, node, m, seen):
        ia, ic = indices(la), indices(lc)
        if not ia and not ic or not ic:
            return
        perm = tuple(ia.index(x) if x in ia else None for x in ic)
        if None in perm or len(set(perm)) != len(perm):
            self.bad('index', f'{cls}:{a}', f, node, f'{cls}.{m}(): {show(la)[:90]} goes with {show(lc)[:90]}')
            return
        if seen.setdefault(a, perm) != perm:
            self.bad('index', f'{cls}:{a}', f, node, f'{cls}.{m}(): {show(la)[:90]} goes with {show(lc)[:90]}, elsewhere with another element of the counter')

    # -- a number of frames ordered by the user ------------------------------
    def ordered(self, cls):
        if cls not in self.ix.classes:
            return
        fprep, ftrig = self.ix.find_method(cls, 'prepare_trigger'), self.ix.find_method(cls, 'trigger_code')
        init = dict(counter=0, nframes=2, current_time=0, target_device_idx=-1)
        base = Frames({'nframes': 2, 'target_device_idx': -1, 'precision': 0}, {})
        f, ps = self.paths(cls, '__init__', oracle=base.oracle)
        at0 = None
        for p in ps:
            if p.how == 'return':
                at0 = after(p, base)
        if at0 is None:
            raise AnalysisBroken(f'{cls}.__init__: no path to the end')
        at0.update(current_time=0, target_device_idx=-1)
        sums = self.sums(cls, at0)
        if not sums:
            raise AnalysisBroken(f'{cls}: no sum found')
        for s in sums:
            at0[s] = 0
        for again, change in itertools.product((None, 1, 2, 3), (None, (0, 3), (1, 3), (1, 1), (2, 1), (3, 3))):
            self.n['histories'] += 1
            attrs = dict(at0)
            due = None          # frames still to be summed in the order being served
            n = attrs.get('nframes', 2)
            for t in range(7):
                ev = {'in_trigger': t == 0 or t == again, 'in_nframes': change[1] if change and change[0] == t else None, 'in_reset': False, 'in_load': None}
                self.n['steps'] += 1
                st = Frames({}, attrs, ev)
                out = self.follow(cls, ('prepare_trigger', 'trigger_code'), st)
                if out is None:
                    self.n['undecided'] += 1
                    break
                attrs, made, node, f = out
                for v in made:
                    if v is UNK:
                        self.n['undecided'] += 1
                    elif abs(v - 1) > 1e-9:
                        h = f'ordered at step 0' + (f', again at step {again}' if again else '') + (f', number changed to {change[1]} at step {change[0]}' if change else '')
                        self.bad('average', f'{cls}', f, node, f'{cls}: frames all equal to 1 average to {v:g} ({h}, 2 frames at first)')
                        return

    def sums(self, cls, at0):
        out = set()
        f, ps = self.paths(cls, 'trigger_code')
        for p in ps:
            for i, lv, v, n in p.stores():
                t = increment(lv, v)
                if lv[0] == 'a' and lv[1] == SELF and t is not None and mentions(t, lambda q: q[0] == 'a' and q[2] == 'pixels'):
                    out.add(lv[2])
        return out

    def follow(self, cls, meths, st):
        made, node, fn = [], None, None
        for m in meths:
            f, ps = self.paths(cls, m, oracle=st.oracle)
            ps = [p for p in ps if p.how == 'return']
            outs = {}
            for p in ps:
                a, mk, nd = st.after(p)
                outs[repr(sorted((k, v) for k, v in a.items() if isinstance(v, (int, float)))) + repr(mk)] = (a, mk, nd)
            if len(outs) != 1:
                return None
            a, mk, nd = next(iter(outs.values()))
            if mk:
                made += mk
                node, fn = nd, f
            st = Frames({}, a, st.ev)
        return st.attrs, made, node, fn


def mentions_place(v, c):
    return any(q and q[0] in ('a', 'i') and place(q) == c for q in walk(v))


def after(p, c):
    out = {}
    for i, lv, v, n in p.stores():
        if lv[0] == 'a' and lv[1] == SELF:
            r = c(v)
            if r is UNK:
                out.pop(lv[2], None)
            else:
                out[lv[2]] = r
    return out


class Frames(Conc):
    """Every pixel of every frame is 1; the interactive inputs are given."""
    def __init__(self, params, attrs, ev=None):
        self.params, self.attrs, self.ev = params, attrs, ev or {}

    def name(self, v):
        if v[0] == 'call' and callee(v) == 'get' and v[2]:
            v = ('i', recv(v), v[2][0])
        if v[0] == 'i' and v[1] in (at('local_inputs'), at('inputs')) and v[2][0] == 'c':
            return v[2][1]
        return None

    def leaf(self, v):
        k = v[0]
        if k == 'v' and v[1] in self.params:
            return self.params[v[1]]
        if k == 'a' and v[1] == SELF:
            return self.attrs.get(v[2], UNK)
        if k == 'a' and v[2] == 'pixels':
            return 1 if self.name(v[1]) else UNK
        n = self.name(v)
        if n is not None and n in self.ev:
            return None if self.ev[n] in (None, False) else ('obj', n)
        if k == 'a' and v[2] == 'generation_time':
            n = self.name(v[1])
            if n in self.ev:
                return self.attrs.get('current_time', 0)
        if k == 'a' and v[2] == 'value':
            n = self.name(v[1])
            if n in self.ev:
                return self.ev[n]
        if k == 'op' and v[1] == '/':
            a, b = self(v[2]), self(v[3])
            try:
                return UNK if a is UNK or b is UNK else a / b
            except (TypeError, ZeroDivisionError):
                return UNK
        if k == 'call' and callee(v) in ('astype', 'copy', 'float', 'round', 'rint', 'asarray', 'array', 'divide', 'true_divide', 'zeros_like', 'zeros'):
            r = recv(v) if v[1][0] == 'a' else None
            xs = [self(x) for x in v[2]]
            if callee(v).startswith('zeros'):
                return 0
            if callee(v).endswith('divide') and len(xs) == 2 and UNK not in xs:
                return xs[0] / xs[1]
            if callee(v) in ('astype', 'copy') and r is not None:
                return self(r)
            if xs and callee(v) not in ('divide', 'true_divide'):
                return xs[0]
        return UNK

    def after(self, p):
        out = dict(self.attrs)
        cur = Frames(self.params, self.attrs, self.ev)
        made, node = [], None
        for i, lv, v, n in p.stores():
            r = cur(v)
            if lv[0] == 'i' and lv[2][0] == 'slice':
                lv = lv[1]
            if lv[0] == 'a' and lv[1] == SELF:
                if r is UNK:
                    out.pop(lv[2], None)
                else:
                    out[lv[2]] = r
            elif lv[0] == 'a' and lv[2] in ('pixels', 'value') and any(len(q) == 4 and q[0] == 'op' and q[1] == '/' for q in walk(v)) or \
                    lv[0] == 'a' and lv[2] in ('pixels', 'value') and mentions(v, lambda q: q[0] == 'call' and (callee(q) or '').endswith('divide')):
                made.append(r)
                node = n
        return out, made, node


def run(ix, tier):
    res = Result()
    r = Rule(ix, res)
    for c in sorted(ix.classes):
        if ix.is_sub(c, 'BaseProcessingObj'):
            r.averages(c)
    r.ordered('DynamicDarkCalibrator')
    n = r.n
    res.floor('counters', len(n['counters']), 3)
    res.floor('sums', n['sums'], 4)
    res.stats.update(paths_analysed=n['paths'], counters_found=n['counters'], variances=n['variances'], histories_followed=n['histories'], steps_followed=n['steps'], undecided=n['undecided'], too_many_paths=n['too_many'])
    res.assumptions = ['terms added to a sum are the ones of the step (P13)']
    return res
