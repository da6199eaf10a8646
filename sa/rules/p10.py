"""Schedule rule.  All control-flow paths (helpers inlined) of the loop
controller: every scheduled object is set up, checked, triggered, post-processed
and finalized once per phase, in ascending trigger order, unconditionally except
for the readiness flag; time advances by exactly one step per iteration from t0
until t0 + run time; exceptions are re-raised."""
from ..paths import Paths, show, mentions, has_attr, callee, recv, arg
from ..index import AnalysisBroken
from ..report import Result

SELF = ('v', 'self')
T = ('a', SELF, 't')
STEP = ('check_ready', 'trigger', 'post_trigger', 'send_outputs')


def linear(v, k=1, out=None):
    """Linear form of a sum: {term: coefficient}."""
    out = {} if out is None else out
    if v[0] == 'c' and isinstance(v[1], (int, float)):
        out[1] = out.get(1, 0) + k * v[1]
    elif v[0] == 'op' and v[1] in '+-' and len(v[1]) == 1:
        linear(v[2], k, out)
        linear(v[3], k if v[1] == '+' else -k, out)
    elif v[0] == 'op' and v[1] == 'neg':
        linear(v[2], -k, out)
    else:
        out[v] = out.get(v, 0) + k
    return {t: c for t, c in out.items() if c}


def is_elem(v):
    return v is not None and has_attr(v, 'trigger_lists')


def ascending(it):
    """Iteration over the groups in ascending order."""
    srt = [x for x in walk(it) if x[0] == 'call' and x[1] == ('v', 'sorted')]
    if not srt:
        return False
    for s in srt:
        r = arg(s, None, 'reverse')
        if r is not None and r != ('c', False):
            return False
        if arg(s, None, 'key') is not None and not has_attr(arg(s, None, 'key'), 'trigger_lists') and arg(s, None, 'key')[0] != 'lfn':
            return False
    if mentions(it, lambda x: x[0] == 'call' and x[1] == ('v', 'reversed')):
        return False
    if mentions(it, lambda x: x[0] == 'slice'):
        return False
    return True


def walk(v):
    from ..paths import walk as w
    for x in w(v):
        if isinstance(x, tuple) and x:
            yield x


def gates(v):
    """Is the atom v the readiness flag of a scheduled object?"""
    if v[0] == 'a' and v[2] == 'inputs_changed' and is_elem(v[1]):
        return True
    return v[0] == 'call' and callee(v) == 'check_ready' and is_elem(recv(v))


def filtered(r):
    """The object comes from a selection of the ready ones."""
    return mentions(r, lambda x: x[0] == 'comp' and len(x) == 5 and any(gates(c) for c in x[4]))


def last_flag(s):
    """A condition that is true in the last iteration."""
    cnt = has_attr(s, 'iter_counter') or has_attr(s, 't')
    end = has_attr(s, 'run_time') or has_attr(s, 'niters')
    if not (cnt and end):
        return False
    if s[0] == 'cmp' and s[1] == '==' and has_attr(s, 'iter_counter') and has_attr(s, 'niters'):
        f = linear(('op', '-', s[2], s[3]))
        it, nit = ('a', SELF, 'iter_counter'), ('call', ('a', SELF, 'niters'), (), ())
        if it in f and nit in f:
            return f in ({it: 1, nit: -1, 1: 1}, {it: -1, nit: 1, 1: -1})
    return True


def order_item(v, attr, k):
    return has_attr(v, attr) or mentions(v, lambda q: q[0] == 'i' and len(q) == 3 and q[2] == ('c', k) and q[1][0] == 'call' and callee(q[1]) == 'build_trigger_order')


class Rule:
    def __init__(self, ix, res):
        self.ix = ix
        self.res = res
        self.n = {'paths': 0, 'events': 0}
        self.file = ix.classes['LoopControl'].module.rel

    def paths(self, meth, noinline=('iter', 'start', 'finish', 'run', 'niters')):
        f = self.ix.find_method('LoopControl', meth)
        if f is None:
            raise AnalysisBroken(f'LoopControl.{meth} not found')
        P = Paths(self.ix, 'LoopControl', noinline=[x for x in noinline if x != meth])
        ps = P.run(f)
        self.n['paths'] += len(ps)
        return ps

    def bad(self, rule, what, node, msg):
        line = getattr(node, 'lineno', None)
        self.res.add(rule, what, f'{self.file}:{line}' if line else self.file, msg)

    def events(self, p, names):
        ev = [(i, v, n) for i, v, n in p.calls() if callee(v) in names and is_elem(recv(v))]
        self.n['events'] += len(ev)
        return ev

    def order_ok(self, p, i, meth, name, node):
        loops = p.loops_at(i)
        outer = [it for lid, it in loops if has_attr(it, 'trigger_lists')]
        if not outer:
            self.bad('not-for-every-object', f'{meth}:{name}', node, f'{meth}() calls {name}() outside a loop over the scheduled objects')
            return
        if not any(ascending(it) for it in outer[:1]):
            self.bad('group-order', f'{meth}:{name}', node, f'{meth}() calls {name}() iterating {show(outer[0])}: the trigger groups are not visited in ascending order')
        if mentions(outer[-1], lambda x: x[0] == 'slice') and not filtered(outer[-1]):
            self.bad('not-for-every-object', f'{meth}:{name}', node, f'{meth}() calls {name}() for a part of the objects only ({show(outer[-1])})')

    def swallowed(self, p, meth):
        if p.exceptional and p.how != 'raise':
            # an exception of one of the scheduled objects was handled
            i = [k for k, x in enumerate(p.trace) if x[0] == 'except'][0]
            if any(has_attr(it, 'trigger_lists') for lid, it in p.loops_at(i)):
                self.bad('exception-swallowed', meth, p.node, f'{meth}(): an exception raised by a scheduled object is caught and not re-raised')
            return True
        return p.exceptional

    def every(self, ps, meth, name, gated):
        """name() reached for an arbitrary object on every path (when ready)."""
        seen = False
        loop = None
        for p in ps:
            for i, v, n in self.events(p, (name,)):
                seen = True
                loop = loop or [lid for lid, it in p.loops_at(i)][-1]
        if not seen:
            self.bad('phase-missing', f'{meth}:{name}', None, f'{meth}() never calls {name}() on the scheduled objects')
            return
        for p in ps:
            if p.exceptional or p.how != 'return':
                continue
            ev = self.events(p, (name,))
            entered = any(x[0] == 'loop' and x[1] == loop for x in p.trace)
            skipped_outer = not entered
            if skipped_outer:
                # legitimate only because an enclosing collection is empty
                if not any(x[0] == 'skip' and has_attr(x[2], 'trigger_lists') for x in p.trace):
                    self.bad('not-for-every-object', f'{meth}:{name}', p.node, f'{meth}(): some path does not reach the loop calling {name}()')
                continue
            c = []
            on = False
            for x in p.trace:
                if x[0] == 'loop' and x[1] == loop:
                    on = True
                if x[0] == 'endloop' and x[1] == loop:
                    on = False
                    if x[2] == 'break':
                        self.bad('not-for-every-object', f'{meth}:{name}', p.node, f'{meth}(): the loop calling {name}() may be left before the last object')
                if on and x[0] == 'cond':
                    c.append((x[1], x[2]))
            ready = [t for a, t in c if gates(a)]
            it = [x[2] for x in p.trace if x[0] == 'loop' and x[1] == loop][0]
            flt = filtered(it)
            if gated:
                if ev and not (True in ready or flt):
                    self.bad('not-gated', f'{meth}:{name}', ev[0][2], f'{meth}() calls {name}() on an object whose inputs did not change')
                if not ev and (True in ready or flt or not ready):
                    extra = ', '.join(f'{show(a)} is {t}' for a, t in c if not gates(a))
                    self.bad('not-for-every-object', f'{meth}:{name}', p.node, f'{meth}(): {name}() is not called on a ready object when {extra or "a path skips it"}')
            elif not ev:
                self.bad('not-for-every-object', f'{meth}:{name}', p.node,
                         f'{meth}(): {name}() is not called when ' + (', '.join(f'{show(a)} is {t}' for a, t in c) or 'a path skips it'))
            if len(ev) > 1 and name not in ('send_outputs',):
                self.bad('called-twice', f'{meth}:{name}', ev[1][2], f'{meth}() calls {name}() more than once per object')
            for i, v, n in ev:
                self.order_ok(p, i, meth, name, n)

    # ---------------------------------------------------------------
    def iter(self):
        ps = self.paths('iter')
        ps = [p for p in ps if not self.swallowed(p, 'iter')]
        self.every(ps, 'iter', 'check_ready', False)
        self.every(ps, 'iter', 'trigger', True)
        self.every(ps, 'iter', 'post_trigger', True)
        self.every(ps, 'iter', 'send_outputs', False)
        for p in ps:
            if p.how != 'return':
                continue
            pos = {}
            for i, v, n in self.events(p, STEP):
                nm = callee(v)
                pos.setdefault(nm, (i, v, n))
                if nm == 'check_ready' and arg(v, 0, 't') != T:
                    self.bad('wrong-time', 'iter:check_ready', n, f'iter() checks the objects at time {show(arg(v, 0, "t") or ("c", None))} instead of the current time')
                if nm == 'send_outputs':
                    s = arg(v, 0, 'skip_delayed', ('c', False))
                    if not last_flag(s):
                        self.bad('last-iteration', 'iter:send_outputs', n, f'iter() sends delayed outputs with skip_delayed={show(s)}: not tied to the last iteration')
                    if arg(v, 2, 'first_mpi_send', ('c', True)) != ('c', False):
                        self.bad('send-mode', 'iter:send_outputs', n, 'iter() sends outputs as first-time transfers')
                    if arg(v, 1, 'delayed_only', ('c', False)) != ('c', False):
                        self.bad('send-mode', 'iter:send_outputs', n, 'iter() sends delayed outputs only')
            seq = [k for k in STEP if k in pos]
            outer = {k: [lid for lid, it in p.loops_at(pos[k][0]) if has_attr(it, 'trigger_lists')][:1] for k in seq}
            for k in seq[1:]:
                if outer[k] != outer[seq[0]]:
                    self.bad('phase-order', f'iter:{k}:groups', pos[k][2],
                             f'iter() calls {k}() in a pass over the groups of its own: {seq[0]}() of the following groups comes before')
            for a, b in zip(seq, seq[1:]):
                if pos[a][0] > pos[b][0]:
                    self.bad('phase-order', f'iter:{a}-{b}', pos[b][2], f'iter() calls {b}() before {a}()')
                elif b != 'send_outputs' and p.loops_at(pos[a][0]):
                    # the pass over the group doing the first must be over
                    lid = p.loops_at(pos[a][0])[-1][0]
                    if not any(x[0] == 'endloop' and x[1] == lid for x in p.trace[pos[a][0]:pos[b][0]]):
                        self.bad('phase-order', f'iter:{a}-{b}', pos[b][2],
                                 f'iter() calls {b}() of an object before {a}() of the following objects of the same group')
            self.advance(p, 't', {T: 1, ('a', SELF, 'dt'): 1}, 'the time step')
            self.advance(p, 'iter_counter', {('a', SELF, 'iter_counter'): 1, 1: 1}, 'one')

    def advance(self, p, attr, form, what):
        st = [x for x in p.stores(attr) if x[1] == ('a', SELF, attr)]
        if len(st) != 1 or linear(st[-1][2]) != form or any(p.loops_at(x[0]) for x in st):
            self.bad('time-advance', f'iter:{attr}', st[-1][3] if st else p.node,
                     f'iter(): on some path self.{attr} is not advanced exactly once by {what}' + (f' (becomes {show(st[-1][2])})' if st else ''))
            return
        last = max([i for i, v, n in self.events(p, STEP)] or [-1])
        if attr == 't' and st[0][0] < last:
            self.bad('time-advance', 'iter:early', st[0][3], 'iter() advances the time before all objects have run')

    def start(self):
        ps = [p for p in self.paths('start') if not self.swallowed(p, 'start')]
        for name in ('setup', 'sanity_check'):
            self.every(ps, 'start', name, False)
        first = delayed = False
        for p in ps:
            if p.how != 'return':
                continue
            su = [i for i, v, n in self.events(p, ('setup',))]
            sc = [i for i, v, n in self.events(p, ('sanity_check',))]
            if su and sc and sc[0] < su[0]:
                self.bad('phase-order', 'start:setup-sanity_check', None, 'start() checks the objects before setting them up')
            for i, v, n in self.events(p, ('send_outputs',)):
                fm = arg(v, 2, 'first_mpi_send', ('c', True))
                do = arg(v, 1, 'delayed_only', ('c', False))
                sk = arg(v, 0, 'skip_delayed', ('c', False))
                if fm == ('c', True):
                    first = True
                    if su and i > su[0]:
                        self.bad('phase-order', 'start:first-send', n, 'start(): initial remote values are sent after an object was set up (setup() waits for them)')
                    if sk != ('c', False) or do != ('c', False):
                        self.bad('send-mode', 'start:first-send', n, 'start(): the initial transfer does not cover all remote outputs')
                elif do == ('c', True):
                    delayed = True
                    if su and i < su[0]:
                        self.bad('phase-order', 'start:delayed-send', n, 'start(): delayed outputs are sent before the object was set up')
                    if sk != ('c', False):
                        self.bad('send-mode', 'start:delayed-send', n, 'start(): the transfer of delayed outputs skips them')
                else:
                    self.bad('send-mode', 'start:send', n, f'start(): unexpected transfer {show(v)}')
            for attr in ('run_time', 'dt', 't0'):
                s = [x for x in p.stores(attr) if x[1] == ('a', SELF, attr)]
                if not s or not mentions(s[-1][2], lambda q: q == ('v', attr)) or not has_attr(s[-1][2], '_time_resolution'):
                    self.bad('time-units', f'start:{attr}', s[-1][3] if s else None, f'start(): self.{attr} is not the parameter {attr} converted to clock ticks')
            t0 = [x[2] for x in p.stores('t0')]
            s = [x for x in p.stores('t') if x[1] == T]
            if not s or not t0 or s[-1][2] != t0[-1]:
                self.bad('time-advance', 'start:t', s[-1][3] if s else None, 'start(): the simulation does not begin at t0')
            s = [x for x in p.stores('iter_counter') if x[1] == ('a', SELF, 'iter_counter')]
            if not s or s[-1][2] != ('c', 0):
                self.bad('time-advance', 'start:iter_counter', s[-1][3] if s else None, 'start(): the iteration counter is not reset')
        if not first:
            self.bad('phase-missing', 'start:first-send', None, 'start() never sends the initial value of remote outputs')
        if not delayed:
            self.bad('phase-missing', 'start:delayed-send', None, 'start() never sends the initial value of delayed remote outputs')

    def run(self):
        ps = self.paths('run')
        want = {T: 1, ('a', SELF, 't0'): -1, ('a', SELF, 'run_time'): -1}
        seen = False
        for p in ps:
            if p.how != 'return':
                continue
            calls = [(i, callee(v), v, n) for i, v, n in p.calls() if recv(v) == SELF]
            names = [c[1] for c in calls]
            if names[:1] != ['start']:
                self.bad('phase-order', 'run:start', None, 'run() does not call start() first')
            else:
                v = calls[0][2]
                for k, (a, pos) in {'run_time': ('run_time', 0), 'dt': ('dt', 1), 't0': ('t0', 2)}.items():
                    if arg(v, pos, k) != ('v', a):
                        self.bad('time-units', f'run:{k}', calls[0][3], f'run() starts with {k}={show(arg(v, pos, k) or ("c", None))}')
            if names.count('finish') != 1 or names[-1] != 'finish':
                self.bad('phase-missing', 'run:finish', None, 'run(): finish() is not called exactly once at the end of the loop')
            li = [(k, x) for k, x in enumerate(p.trace) if x[0] == 'loop' and x[2] == ('c', 'while')]
            if not li:
                # loop not entered: time already over
                if not any(x[0] == 'skip' for x in p.trace):
                    self.bad('loop', 'run:loop', None, 'run() has a path without the simulation loop')
                continue
            seen = True
            k, x = li[0]
            cs = {}
            for y in p.trace[k + 1:]:
                if y[0] != 'cond':
                    break
                cs[y[1]] = y[2]
            inf = fin = None
            for a, t in cs.items():
                if a[0] == 'cmp' and a[1] == '<':
                    f = linear(('op', '-', a[2], a[3]))
                    if f == {('a', SELF, 'run_time'): 1}:
                        inf = t
                    elif f == want:
                        fin = t
                    elif has_attr(a, 'run_time'):
                        self.bad('loop-condition', 'run', None, f'run(): the loop continues while {show(a)} is {t}')
            if not (inf is True or fin is True):
                self.bad('loop-condition', 'run', None, 'run(): an iteration is admitted although the run time is over (expected: infinite run or t < t0 + run_time)')
            its = [i for i, nm, v, n in calls if nm == 'iter']
            inloop = [i for i in its if any(l[0] == x[1] for l in p.loops_at(i))]
            if len(its) != 1 or len(inloop) != 1:
                self.bad('loop', 'run:iter', None, 'run(): some path through the loop body does not execute exactly one iteration')
            if any(y[0] == 'endloop' and y[1] == x[1] and y[2] == 'break' for y in p.trace):
                self.bad('loop', 'run:break', None, 'run(): the loop may be left before the end of the run time')
        if not seen:
            self.bad('loop', 'run:loop', None, 'run() has no simulation loop')

    def finish(self):
        ps = [p for p in self.paths('finish') if not self.swallowed(p, 'finish')]
        self.every(ps, 'finish', 'finalize', False)

    def adding(self):
        for p in self.paths('add'):
            ok = False
            for i, v, n in p.calls('append'):
                r = recv(v)
                if r == ('i', ('a', SELF, 'trigger_lists'), ('v', 'idx')) and v[2][:1] == (('v', 'obj'),):
                    ok = True
            for i, lv, v, n in p.stores():
                if lv == ('i', ('a', SELF, 'trigger_lists'), ('v', 'idx')):
                    ok = ok or mentions(v, lambda q: q == ('v', 'obj'))
            if p.how == 'return' and not ok:
                self.bad('not-scheduled', 'add', p.node, 'add(): on some path the object is not appended to the list of its trigger index')

    def simul(self):
        f = self.ix.find_method('Simul', 'run')
        if f is None:
            raise AnalysisBroken('Simul.run not found')
        P = Paths(self.ix, 'Simul', inline=lambda g: g.cls is not None and g.cls.name == 'Simul' and g.name.startswith('_'), limit=20000)
        ps = P.run(f)
        self.n['paths'] += len(ps)
        file = f.module.rel
        seen = False
        loop = None
        for p in ps:
            for i, v, n in p.calls('add'):
                if arg(v, 0, 'obj') is not None and has_attr(v, 'objs') and p.loops_at(i):
                    loop = p.loops_at(i)[-1][0]
        if loop is None:
            self.res.add('not-scheduled', 'Simul.run', file, 'Simul.run() never adds the objects to the loop')
            return
        for p in ps:
            if p.how != 'return' or p.exceptional:
                continue
            if not any(x[0] == 'loop' and x[1] == loop for x in p.trace):
                continue
            adds = [(i, v, n) for i, v, n in p.calls('add') if any(l[0] == loop for l in p.loops_at(i))]
            on = False
            local = proc = None
            for x in p.trace:
                if x[0] == 'loop' and x[1] == loop:
                    on = True
                elif x[0] == 'endloop' and x[1] == loop:
                    if x[2] == 'break':
                        self.res.add('not-scheduled', 'Simul.run:break', file, 'Simul.run(): the loop that schedules the objects may be left early')
                    on = False
                elif on and x[0] == 'cond':
                    if has_attr(x[1], 'remote_objs_ranks'):
                        local = not x[2]
                    elif has_attr(x[1], 'objs') and x[1][0] == 'cmp' and x[1][1] == 'in':
                        local = x[2]
                    elif x[1][0] == 'call' and x[1][1] == ('v', 'isinstance'):
                        proc = x[2]
                    elif not adds:
                        local = False if local is None else local
            if not adds and local is not False and proc is not False:
                self.res.add('not-scheduled', 'Simul.run', file, 'Simul.run(): some path does not schedule a processing object built by this process')
            for i, v, n in adds:
                seen = True
                o, k = arg(v, 0, 'obj'), arg(v, 1, 'idx')
                if not order_item(k, 'trigger_order_idx', 1):
                    self.res.add('not-scheduled', 'Simul.run:idx', f'{file}:{n.lineno}', f'Simul.run() schedules objects with index {show(k)} instead of their trigger order')
                if not order_item(o, 'trigger_order', 0):
                    self.res.add('not-scheduled', 'Simul.run:obj', f'{file}:{n.lineno}', f'Simul.run() schedules {show(o)} instead of the objects of the trigger order')
            for i, v, n in p.calls('run'):
                if has_attr(v[1], 'loop') or has_attr(v, 'mainParams'):
                    for k, pos, key in (('run_time', 0, 'total_time'), ('dt', 1, 'time_step')):
                        a = arg(v, pos, k)
                        if a is None or not mentions(a, lambda q: q == ('c', key)):
                            self.res.add('run-parameters', f'Simul.run:{k}', f'{file}:{n.lineno}', f'Simul.run(): the loop is run with {k}={show(a) if a else None}')
                    if arg(v, 2, 't0', ('c', 0)) != ('c', 0):
                        self.res.add('run-parameters', 'Simul.run:t0', f'{file}:{n.lineno}', 'Simul.run(): the loop does not start at time 0')
        self.n['simul'] = seen


def run(ix, tier):
    res = Result()
    if 'LoopControl' not in ix.classes:
        raise AnalysisBroken('LoopControl not found')
    r = Rule(ix, res)
    r.iter()
    r.start()
    r.run()
    r.finish()
    r.adding()
    r.simul()
    res.floor('paths_analysed', r.n['paths'], 40)
    res.floor('schedule_events_on_paths', r.n['events'], 40)
    return res
