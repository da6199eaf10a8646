"""Abstract execution of a processing object's life cycle:
constructor -> setup -> (check_ready -> trigger -> post_trigger)* -> finalize.
"""
import ast
from .engine import (Engine, State, Val, Monitor, EMPTY, UNK, NOCONST, constval, join, root, join_states, NONE)

BASE = 'BaseProcessingObj'
T = ('T',)
TOLD = ('T of an earlier step',)


def flat(s):
    if isinstance(s, tuple):
        for x in s:
            yield from flat(x)
    else:
        yield s


ABSTRACT = {'BaseProcessingObj'}


def processing_classes(ix):
    """Concrete processing classes: everything deriving from the base class."""
    out = []
    for c in ix.subclasses(BASE):
        out.append(c.name)
    return sorted(out)


class Lifecycle:
    def __init__(self, ix, cname, monitor, steps=2, budget=400000):
        self.ix = ix
        self.cname = cname
        self.mon = monitor
        self.eng = Engine(ix, monitor, cname)
        self.eng.budget = budget
        self.steps = steps
        self.me = Val(frozenset([('self',)]), frozenset([cname]), ('self',))
        self.inputs = {}        # name -> (type class or None, is_list, optional)
        self.aborted = None
        self.eng.intercepts['InputList.get'] = self._input_get
        self.eng.intercepts['InputValue.get'] = self._input_get
        self.eng.intercepts[BASE + '.checkInputTimes'] = lambda e, s, f, a, k, n: self._check_times(s, a)
        self.eng.lifecycle = self

    def _check_times(self, st, args):
        # the gate is analysed separately; here: inputs are fetched, step is due
        f = self.ix.find_method(self.cname, 'get_all_inputs')
        if f is not None and args:
            self.eng.call_function(st, f, [args[0]], {}, None)
        return constval(True)

    def input_key(self, st, v):
        """Name under which an InputValue/InputList object is registered."""
        d = st.heap.get((('self',), 'inputs'))
        keys = set()
        if d is None:
            return keys
        for dl in d.locs:
            for (l, k), x in st.heap.items():
                if l == dl and isinstance(k, str) and k.startswith('[') and x.locs & v.locs:
                    try:
                        keys.add(ast.literal_eval(k[1:-1]) if k != '[*]' else '*')
                    except Exception:
                        keys.add('*')
        return keys

    def _input_get(self, eng, st, f, args, kwargs, node):
        if not args:
            return None
        me = args[0]
        keys = self.input_key(st, me)
        if not keys:
            keys = {'?'}
        kinds = set()
        optional = False
        is_list = False
        for l in me.locs:
            t = st.heap.get((l, 'output_ref_type'))
            if t is not None and t.fn and t.fn[0] == 'class':
                kinds.add(t.fn[1])
            else:
                kinds.add('?')
            o = st.heap.get((l, 'optional'))
            if o is None or o.const is not False:
                optional = True
            if l[0] == 'new' and l[1] == 'InputList':
                is_list = True
        locs = frozenset(('in', k) for k in keys)
        k = frozenset(kinds) if kinds else frozenset(['?'])
        sym = ('in', tuple(sorted(map(str, keys))))
        if is_list:
            lst = ('cont', 'list', ('in',) + tuple(sorted(map(str, keys))))
            st.heap[(lst, '[*]')] = Val(locs, k, ('elem', sym))
            return Val(frozenset([lst]), frozenset(['list']), sym)
        if optional:
            k = k | {'None'}
        return Val(locs, k, sym)

    def outputs(self, st):
        """name -> list of object locations of the declared outputs."""
        d = st.heap.get((('self',), 'outputs'))
        res = {}
        if d is None:
            return res
        for dl in d.locs:
            for (l, k), x in list(st.heap.items()):
                if l == dl and isinstance(k, str) and k.startswith('['):
                    try:
                        name = ast.literal_eval(k[1:-1]) if k != '[*]' else '*'
                    except Exception:
                        name = '*'
                    locs = set()
                    for cl in x.locs:
                        if cl[0] == 'cont':
                            e = self.eng.all_elems(st, cl)
                            if e is not None:
                                locs |= e.locs
                        else:
                            locs.add(cl)
                    res[name] = (x, locs)
        return res

    def reach(self, st, locs, depth=3):
        """Storage reachable from the given object locations."""
        seen = set(locs)
        front = set(locs)
        byobj = {}
        for (l, k), v in st.heap.items():
            byobj.setdefault(l, []).append(v)
        for _ in range(depth):
            nxt = set()
            for l in front:
                for v in byobj.get(l, ()):
                    for x in v.locs:
                        if x not in seen:
                            seen.add(x)
                            nxt.add(x)
            front = nxt
        return seen

    def run(self):
        eng, me, c = self.eng, self.me, self.cname
        st = State([{}], {}, frozenset([(self.mon.init, EMPTY)]))
        self.mon.lc = self
        self.phase(st, 'init')
        eng.run_method(st, me, c, '__init__', symbolic=True)
        if not st.alts:
            self.aborted = 'init'
            return st
        st.alts = frozenset((m, EMPTY) for m, f in st.alts)
        self.dynamic_inputs(st)
        self.after(st, 'init')
        self.phase(st, 'setup')
        eng.run_method(st, me, c, 'setup', symbolic=True)
        if not st.alts:
            self.aborted = 'setup'
            return st
        st.alts = frozenset((m, EMPTY) for m, f in st.alts)
        self.after(st, 'setup')
        prev = None
        for i in range(self.steps):
            before = st.copy()
            self.phase(st, 'step')
            if not self.step(st):
                self.aborted = 'step'
                return st
            self.after(st, 'step')
            st.alts = frozenset((m, EMPTY) for m, f in st.alts)
            # the step may also be skipped
            st2 = join_states(before, st)
            st.frames, st.heap, st.alts = st2.frames, st2.heap, st2.alts
        self.phase(st, 'finalize')
        st.heap[(('self',), 'current_time')] = Val(kinds=frozenset(['int']), sym=T)
        self.run_final(st)
        self.after(st, 'finalize')
        return st

    def dynamic_inputs(self, st):
        """Recorder-like classes get their inputs from the configuration
        (input_list): register one representative input."""
        if self.ix.const_in_class_lists('supported_classes', self.cname) is False:
            return
        d = st.heap.get((('self',), 'inputs'))
        if d is None:
            return
        iv = ('new', 'InputValue', ('dynamic-input',))
        st.heap[(iv, 'output_ref_type')] = Val(kinds=frozenset(['type']), fn=('class', 'BaseValue'))
        st.heap[(iv, 'optional')] = constval(False)
        for dl in d.locs:
            st.heap[(dl, "['recorded']")] = Val(frozenset([iv]), frozenset(['InputValue']))
        if self.ix.find_method(self.cname, 'setOutputs'):
            self.eng.run_method(st, self.me, self.cname, 'setOutputs')

    def run_final(self, st):
        s2 = st.copy()
        self.eng.run_method(s2, self.me, self.cname, 'finalize', symbolic=True)
        if s2.alts:
            st.frames, st.heap, st.alts = s2.frames, s2.heap, s2.alts
        else:
            self.aborted = 'finalize'

    def age(self, st):
        """A new step begins: times kept from earlier steps are not 'now'."""
        def old(s):
            if s == T:
                return TOLD
            if isinstance(s, tuple):
                return tuple(old(x) for x in s)
            return s
        for k, v in list(st.heap.items()):
            s = v.sym
            if s and 'T' in flat(s):
                st.heap[k] = v.with_(sym=old(s))

    def step(self, st):
        eng, me, c = self.eng, self.me, self.cname
        self.age(st)
        t = Val(kinds=frozenset(['int']), sym=T)
        eng.run_method(st, me, c, 'check_ready', args=[t])
        if not st.alts:
            return False
        st.heap[(('self',), 'inputs_changed')] = constval(True)
        self.phase(st, 'trigger')
        eng.run_method(st, me, c, 'trigger')
        if not st.alts:
            return False
        self.phase(st, 'post')
        eng.run_method(st, me, c, 'post_trigger')
        return bool(st.alts)

    def phase(self, st, name):
        self.eng.phase = name
        h = getattr(self.mon, 'on_phase', None)
        if h:
            h(self.eng, st, name)

    def after(self, st, name):
        h = getattr(self.mon, 'after_phase', None)
        if h:
            h(self.eng, st, name)
