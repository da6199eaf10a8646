"""Connection rule.  Control-flow paths of the input items, of the device
transfer of data objects, of the remote send/receive pair and of the functions
of Simul that make the connections, pruned by scenarios (input set or not, same
device or not, remote or not, first exchange or later, kinds of array, delay):
every get() gives the current content of the connected output, on the device of
the reader; what one process sends is what the other receives."""
import itertools
from ..paths import Paths, show, mentions, callee, recv, arg, walk
from ..conc import Conc, UNK
from ..index import AnalysisBroken
from ..report import Result

SELF = ('v', 'self')
PICKLE_SEND = {'send', 'ssend', 'bsend', 'isend', 'ibsend', 'issend'}
BUFFER_SEND = {'Send', 'Ssend', 'Bsend', 'Isend', 'Ibsend', 'Issend'}


def sattr(n):
    return ('a', SELF, n)


class Tok(str):
    """an object that is not None"""


class Scen(Conc):
    def __init__(self, label, leaves):
        self.label = label
        self.leaves = leaves

    def __str__(self):
        return self.label

    def leaf(self, v):
        for f in self.leaves:
            r = f(v) if callable(f) else (f[1] if v == f[0] else UNK)
            if r is not UNK:
                return r
        return UNK

    def c_i(self, v):
        r = super().c_i(v)
        if r is UNK and v[2][0] == 'c':
            b = self(v[1])
            if isinstance(b, list) and isinstance(v[2][1], int):
                try:
                    return b[v[2][1]]
                except IndexError:
                    return UNK
        return r


class Rule:
    def __init__(self, ix, res):
        self.ix = ix
        self.res = res
        self.n = {'paths': 0, 'obligations': 0, 'undecided': 0}

    def find(self, cls, meth):
        f = self.ix.find_method(cls, meth)
        if f is None:
            raise AnalysisBroken(f'{cls}.{meth} not found')
        self.f = f
        self.name = f'{cls}.{meth}'
        self.file = f.module.rel
        return f

    def paths(self, cls, meth, scen=None, noinline=(), **kw):
        f = self.find(cls, meth)
        P = Paths(self.ix, cls, limit=20000, oracle=scen.oracle if scen else None, noinline=noinline, **kw)
        ps = P.run(f)
        self.n['paths'] += len(ps)
        return ps

    def bad(self, rule, what, node, msg):
        line = getattr(node, 'lineno', None) or self.f.node.lineno
        self.res.add(rule, what, f'{self.file}:{line}', msg)

    def need(self, ok, rule, what, node, msg):
        self.n['obligations'] += 1
        if not ok:
            self.bad(rule, what, node, msg)
        return ok

    # -- one input item -------------------------------------------------
    def item_get(self):
        """_InputItem.get"""
        def leaves(remote, ref, same, cloned, value, xp):
            def f(v):
                if v == sattr('remote_rank'):
                    return 3 if remote else None
                if v == sattr('output_ref'):
                    return None if ref is None else Tok('ref')
                if v == sattr('cloned_value'):
                    return Tok('clone') if cloned else None
                if v[0] == 'cmp' and v[1] == '==' and mentions(v, lambda q: q == ('v', 'target_device_idx')) and mentions(v, lambda q: q[0] == 'a' and q[2] == 'target_device_idx'):
                    return same
                if v[0] == 'call' and callee(v) == 'get_value':
                    return Tok('value') if value else None
                if v[0] == 'a' and v[2] == 'xp_str':
                    return xp
                if v[0] == 'call' and callee(v) == 'recv':
                    return Tok('received')
                return UNK
            return [f]
        ref = sattr('output_ref')
        for cloned in (False, True):
            s = Scen('an input that is not set', leaves(False, None, False, cloned, True, 'np'))
            for p in self.paths('_InputItem', 'get', s):
                self.need(p.how == 'return' and (p.value == ref or s(p.value) is None), 'item', 'unset', p.node, f'get() of {s} does not give None')
            s = Scen('an output on the same device', leaves(False, True, True, cloned, True, 'np'))
            for p in self.paths('_InputItem', 'get', s):
                self.need(p.how == 'return' and p.value == ref, 'item', 'local', p.node, f'get() of {s} gives {show(p.value) if p.value else "an error"} instead of the output object')
        for cloned in (False, True):
            s = Scen('an output on another device' + (', already transferred' if cloned else ''), leaves(False, True, False, cloned, True, 'np'))
            for p in self.paths('_InputItem', 'get', s):
                self.refreshed(p, s, ref, cloned)
        for cloned, value, xp in itertools.product((False, True), (False, True), ('np', 'cp')):
            if not cloned and value:
                continue
            s = Scen('a remote output, ' + ('first exchange' if not cloned else 'not first exchange' if value else 'still without value'), leaves(True, None, False, cloned, value, xp))
            for p in self.paths('_InputItem', 'get', s):
                self.remote(p, s, cloned, value, xp)

    def refreshed(self, p, s, src, cloned):
        n = p.node
        if not self.need(p.how == 'return', 'item', 'refreshed', n, f'get() of {s} ends in an error'):
            return
        if not cloned:
            c = [v for i, v, nd in p.calls('copyTo') if recv(v) == src and ('v', 'target_device_idx') in v[2] + tuple(x for k, x in v[3])]
            if self.need(bool(c), 'item', 'copied', n, f'get() of {s}: the output is not copied to the device of the reader'):
                self.need(p.value in c, 'item', 'copied-result', n, f'get() of {s} gives {show(p.value)}, not the copy')
                self.need(any(l[2] == 'cloned_value' and v in c for i, l, v, nd in p.stores()), 'item', 'copied-kept', n, f'get() of {s}: the copy is not kept')
        else:
            c = [v for i, v, nd in p.calls('transferDataTo') if recv(v) == src and sattr('cloned_value') in v[2] + tuple(x for k, x in v[3])]
            self.need(bool(c), 'item', 'transfer', n, f'get() of {s}: the copy is not refreshed with the current data')
            self.need(p.value == sattr('cloned_value'), 'item', 'transfer-result', n, f'get() of {s} gives {show(p.value)}, not the refreshed copy')

    def tagged(self, v, off, other=()):
        """does the call use the rank and the tag (+off) of the item?"""
        src = arg(v, 0 if callee(v) == 'recv' else 1, 'source')
        if callee(v) == 'recv' and len(v[2]) > 0 and src == v[2][0] and 'source' not in dict(v[3]):
            src = arg(v, 1, 'source')
        tag = arg(v, 2, 'tag')
        want = sattr('tag') if not off else ('op', '+', sattr('tag'), ('c', off))
        return src == sattr('remote_rank') and tag in (want, ('op', '+', ('c', off), sattr('tag')))

    def remote(self, p, s, cloned, value, xp):
        n = p.node
        if not self.need(p.how == 'return', 'remote', 'error', n, f'get() of {s} ends in an error'):
            return
        small = [v for i, v, nd in p.calls() if callee(v) in ('recv', 'irecv')]
        big = [v for i, v, nd in p.calls() if callee(v) in ('Recv', 'Irecv')]
        clone = sattr('cloned_value')
        if not (cloned and value):
            if not self.need(len(small) == 1 and not big, 'remote', 'object', n, f'get() of {s}: {len(small)} objects and {len(big)} buffers are received instead of one object'):
                return
            r = small[0]
            self.need(self.tagged(r, 0), 'remote', 'address', n, f'get() of {s}: the object is not received from the rank and with the tag of the connection ({show(r)})')
            st = [v for i, l, v, nd in p.stores('xp') if l[1] == r]
            self.need(bool(st) and mentions(st[-1], lambda q: q == ('v', 'cp')) == (xp == 'cp') and st[-1][0] != 'c', 'remote', 'xp', n, f'get() of {s}: the array module of a received {xp} object is not set again')
            self.refreshed(p, s, r, cloned)
            return
        if not self.need(len(small) == 1 and len(big) == 1, 'remote', 'buffer', n, f'get() of {s}: {len(big)} buffers and {len(small)} time stamps are received instead of one each'):
            return
        b = big[0]
        self.need(self.tagged(b, 0), 'remote', 'buffer-address', n, f'get() of {s}: the data is not received from the rank and with the tag of the connection ({show(b)})')
        self.need(self.tagged(small[0], 1), 'remote', 'time-address', n, f'get() of {s}: the time stamp is not received from the rank and with the tag that follows the one of the connection ({show(small[0])})')
        st = [v for i, l, v, nd in p.stores('generation_time') if l[1] == clone]
        self.need(bool(st) and st[-1] == small[0], 'remote', 'time', n, f'get() of {s}: the received time stamp is not set')
        buf = arg(b, 0, 'buf')
        pos = [i for i, v, nd in p.calls() if v == b]
        sv = [(i, v) for i, v, nd in p.calls('set_value') if recv(v) == clone]
        self.need(bool(sv) and sv[-1][1][2][:1] == (buf,) and sv[-1][0] > pos[0], 'remote', 'value', n, f'get() of {s}: the received data is not stored')
        self.need(p.value == clone, 'remote', 'result', n, f'get() of {s} gives {show(p.value)}')

    def item_init(self):
        def leaves(remote, good, val):
            return [(('v', 'remote_rank'), remote), (('v', 'value'), Tok('x') if val else None),
                    lambda v: good if v[0] == 'call' and callee(v) == 'isinstance' and v[2][:1] == (('v', 'value'),) else UNK]
        for remote, good, val in ((None, True, True), (3, False, False), (None, False, True), (0, False, False)):
            s = Scen('x', leaves(remote, good, val))
            for p in self.paths('_InputItem', '__init__', s):
                if remote is None and not good:
                    self.need(p.how == 'raise', 'item-init', 'type', p.node, 'an output of the wrong type is accepted by an input')
                    continue
                if not self.need(p.how == 'return', 'item-init', 'refused', p.node, 'a valid input item is refused'):
                    continue
                last = {l[2]: v for i, l, v, n in p.stores() if l[0] == 'a' and l[1] == SELF}
                for a, w in (('remote_rank', ('v', 'remote_rank')), ('tag', ('v', 'tag')), ('output_ref', ('v', 'value')), ('cloned_value', ('c', None))):
                    self.need(last.get(a) == w or a in last and s(last[a]) is None and s(w) is None, 'item-init', a, p.node, f'_InputItem: {a} is {show(last[a]) if a in last else "not set"}')

    # -- lists of items ---------------------------------------------------
    def list_get(self):
        iv = sattr('input_values')
        seen = 0
        for p in self.paths('InputList', 'get', noinline=('flatten',)):
            if p.how != 'return':
                self.need(False, 'list', 'error', p.node, 'InputList.get() ends in an error')
                continue
            calls = [x for x in walk(p.value) if isinstance(x, tuple) and x and x[0] == 'comp']
            loops = [x for x in p.trace if x[0] == 'loop' and x[2][0] != 'c']
            skips = [x for x in p.trace if x[0] == 'skip']
            if skips and not loops:
                continue
            seen += 1
            src = [c[3] for c in calls if len(c) == 5] + [x[2] for x in loops]
            self.need(iv in src, 'list', 'source', p.node, 'InputList.get() does not go through the items of the list in order')
            got = [x for c in calls for x in walk(c) if isinstance(x, tuple) and x and x[0] == 'call' and callee(x) == 'get'] + [v for i, v, n in p.calls('get')]
            got = [g for g in got if recv(g) is not None and recv(g)[0] == 'elem' and ('v', 'target_device_idx') in g[2] + tuple(x for k, x in g[3])]
            self.need(bool(got), 'list', 'get', p.node, 'InputList.get() does not get the items on the device of the reader')
            for c in calls:
                self.need(not (len(c) == 5 and c[3] == iv and c[4]), 'list', 'filter', p.node, 'InputList.get() leaves out some items')
            if loops and got and not any(c[3] == iv for c in calls if len(c) == 5):
                stored = [v for i, v, n in p.calls() if callee(v) in ('append', 'extend', 'insert') and any(mentions(a, lambda q: q in got) for a in v[2])]
                grown = any(mentions(x, lambda q: q in got) for x in p.env.values() if isinstance(x, tuple)) and mentions(p.value, lambda q: q in got)
                self.need(bool(stored) or grown, 'list', 'left-out', p.node, 'InputList.get() leaves out some items')
        self.need(seen > 0, 'list', 'never', self.f.node, 'InputList.get() never gets its items')

    def value_get(self):
        def leaves(n, opt):
            toks = [Tok('x%d' % i) for i in range(n)]
            return [lambda v: toks if v[0] == 'call' and callee(v) == 'get' and v[1][0] == 'a' and v[1][1][0] in ('super', 'call', 'v') and v[1][1] != ('v', 'item') else UNK,
                    (sattr('optional'), opt)]
        for n, opt in ((0, True), (0, False), (1, True), (1, False), (2, True), (2, False)):
            s = Scen(f'a list of {n} items' + (' (optional)' if opt else ''), leaves(n, opt))
            for p in self.paths('InputValue', 'get', s, noinline=('get',)):
                if n == 2 or (n == 0 and not opt):
                    self.need(p.how == 'raise', 'value', f'{n}:{opt}', p.node, f'InputValue.get(): {s} is not refused')
                elif self.need(p.how == 'return', 'value', f'{n}:{opt}', p.node, f'InputValue.get(): {s} is refused'):
                    r = s(p.value)
                    want = 'x0' if n else None
                    if r is UNK:
                        self.n['undecided'] += 1
                        continue
                    self.need(r == want, 'value', f'{n}:{opt}:result', p.node, f'InputValue.get(): {s} gives {r}')

    def list_append(self):
        iv = sattr('input_values')
        for kind, remote, good in (('list', None, True), ('one', None, True), ('one', None, False), ('one', 2, False), ('none', 0, False)):
            leaves = [(('v', 'remote_rank'), remote), (('v', 'item'), None if kind == 'none' else Tok('it')),
                      lambda v: (kind == 'list' if mentions(v[2][1], lambda q: q == ('v', 'list')) else good) if v[0] == 'call' and callee(v) == 'isinstance' and v[2][:1] == (('v', 'item'),) else UNK,
                      lambda v: kind == 'list' if v[0] == 'cmp' and v[2][0] == 'call' and callee(v[2]) == 'type' and mentions(v, lambda q: q == ('v', 'list')) else UNK]
            for p in self.paths('InputList', 'append', Scen('', leaves)):
                added = [v for i, v, n in p.calls('append') if recv(v) == iv] + [v for i, v, n in p.calls('extend') if recv(v) == iv]
                added += [v for i, l, v, n in p.stores('input_values')]
                if kind == 'one' and remote is None and not good:
                    self.need(p.how == 'raise' and not added, 'append', 'type', p.node, 'InputList.append() accepts an output of the wrong type')
                    continue
                if kind == 'list':
                    if any(x[0] == 'loop' and x[2] == ('v', 'item') for x in p.trace):
                        rec = [v for i, v, n in p.calls('append') if recv(v) == SELF]
                        for v in rec:
                            a = [arg(v, 0, 'item'), arg(v, 1, 'remote_rank'), arg(v, 2, 'tag')]
                            self.need(a[0] is not None and a[0][0] == 'elem' and a[1:] == [('v', 'remote_rank'), ('v', 'tag')], 'append', 'elements', p.node, 'InputList.append(): an element of a list is not appended with the rank and tag')
                        self.need(bool(rec) or bool(added), 'append', 'list', p.node, 'InputList.append() does not append the elements of a list')
                    continue
                if not self.need(p.how == 'return' and len(added) == 1, 'append', 'item', p.node, f'InputList.append(): {len(added)} items added for one output'):
                    continue
                it = [x for x in walk(added[0]) if isinstance(x, tuple) and x and x[0] == 'call' and callee(x) == '_InputItem']
                if self.need(bool(it), 'append', 'class', p.node, 'InputList.append() does not add an input item'):
                    c = it[0]
                    for pos, a, w in ((0, 'type_', sattr('output_ref_type')), (1, 'value', ('v', 'item')), (2, 'remote_rank', ('v', 'remote_rank')), (3, 'tag', ('v', 'tag'))):
                        g = arg(c, pos, a)
                        self.need(g == w, 'append', a, p.node, f'InputList.append(): {a} of the input item is {show(g) if g else "missing"}')
        for cls in ('InputList', 'InputValue'):
            for p in self.paths(cls, 'set', noinline=('append',)):
                cl = [i for i, l, v, n in p.stores('input_values') if v[0] == 'tup' and not v[2]] + [i for i, v, n in p.calls('clear') if recv(v) == iv]
                ap = [(i, v) for i, v, n in p.calls('append') if recv(v) == SELF]
                first = self.f.node.args.args[1].arg
                self.need(p.how == 'return' and bool(cl) and bool(ap) and min(cl) < ap[0][0], 'set', cls, p.node, f'{cls}.set() does not replace the items of the input')
                for i, v in ap:
                    self.need(mentions(v, lambda q: q == ('v', first)) and arg(v, 1, 'remote_rank') == ('v', 'remote_rank') and arg(v, 2, 'tag') == ('v', 'tag'), 'set', f'{cls}:args', p.node, f'{cls}.set() does not pass its arguments on')

    # -- device transfer ---------------------------------------------------
    def transfer(self):
        D = ('v', 'destobj')
        for sk, dk, dev, force, name in itertools.product(('np', 'cp', 'other'), ('np', 'cp', 'other'), (-1, 0), (False, True), ('value', '_value')):
            if sk == 'other' and (dk != 'np' or dev != -1):
                continue
            def f(v, sk=sk, dk=dk, dev=dev, force=force, name=name):
                if v[0] == 'elem' and self.cur(v[1]) == ['value', '_value'] and v[1] not in getattr(self.cur, 'bind', {}):
                    return name
                if v[0] == 'a' and v[2] == 'ndarray':
                    return {'cp': 'cpA', 'cupy': 'cpA', 'np': 'npA', 'numpy': 'npA'}.get(v[1][1] if v[1][0] == 'v' else '', UNK)
                if v == ('v', 'cp'):
                    return Tok('cp')
                if v == ('v', 'array_types'):
                    return ['npA', 'cpA']
                o = self.owner(v)
                if v[0] == 'call' and callee(v) == 'type' and len(v[2]) == 1:
                    o = self.owner(v[2][0])
                    return {'self': sk + 'A', 'dest': dk + 'A'}.get(o, UNK)
                if v[0] == 'call' and callee(v) == 'isinstance' and len(v[2]) == 2:
                    o = self.owner(v[2][0])
                    k = {'self': sk + 'A', 'dest': dk + 'A'}.get(o, UNK)
                    t = self.cur(v[2][1])
                    return UNK if k is UNK or t is UNK else (k in t if isinstance(t, list) else k == t)
                if v == ('a', D, 'target_device_idx'):
                    return dev
                if v == ('v', 'force_reallocation'):
                    return force
                if v[0] == 'call' and callee(v) == 'dir':
                    return ['value', '_value']
                if v[0] == 'call' and callee(v) in ('vars',) or v[0] == 'a' and v[2] == '__dict__':
                    return ['value', '_value']
                if v[0] == 'call' and callee(v) == 'get_properties':
                    return ['prop']
                return UNK
            s = Scen(f'{sk} array to {dk} array on device {dev}' + (' with forced reallocation' if force else ''), [f])
            self.cur = s
            reached = 0
            for p in self.paths('BaseDataObj', 'transferDataTo', s, noinline=('get_properties',)):
                if p.how == 'return':
                    st = [v for i, l, v, n in p.stores('generation_time') if l[1] == D]
                    self.need(bool(st) and st[-1] == sattr('generation_time'), 'transfer', 'time', p.node or self.f.node, 'transferDataTo() does not copy the time stamp')
                for x in p.trace:
                    if x[0] == 'loop' and x[2][0] != 'c':
                        got = s(x[2])
                        self.need(got is UNK or got == ['value', '_value'], 'transfer', 'attributes', self.f.node, 'transferDataTo() does not go through all attributes of the object')
                if not any(x[0] == 'loop' for x in p.trace):
                    continue
                reached += 1
                inplace, realloc, node = self.effects(p, D)
                what = f'{sk}:{dk}:{dev}:{force}'
                if sk == 'other':
                    continue
                if not self.need(inplace or realloc, 'transfer', what if not p.exceptional else 'exception', node, f'transferDataTo(): {s}' + (', when the copy in place fails' if p.exceptional else '') + ': the data does not reach the destination object'):
                    continue
                proper = dk == ('cp' if dev >= 0 else 'np')
                if proper and not force and not p.exceptional:
                    self.need(bool(inplace) and not realloc, 'transfer', 'reallocated', node, f'transferDataTo(): {s}: the array of the destination is replaced without need')
                if (not proper or force) or p.exceptional:
                    if self.need(bool(realloc), 'transfer', what + ':type', node, f'transferDataTo(): {s}: the array of the destination is not replaced by one on its device'):
                        v = realloc[-1]
                        tohost = mentions(v, lambda q: q[0] == 'call' and callee(q) in ('get', 'cpuArray', 'asnumpy')) or mentions(v, lambda q: q[0] == 'call' and callee(q) == 'to_xp' and q[2][:1] == (('v', 'numpy'),))
                        todev = mentions(v, lambda q: q == ('v', 'cp'))
                        self.need((todev if dev >= 0 else tohost or sk == 'np' and not todev), 'transfer', what + ':device', node, f'transferDataTo(): {s}: {show(v)} is not on the device of the destination')
            self.need(reached > 0, 'transfer', 'never', self.f.node, 'transferDataTo() never transfers an attribute')

    def owner(self, v):
        """whose attribute is this value?"""
        if v[0] == 'call' and callee(v) == 'getattr' and len(v[2]) >= 2:
            return {SELF: 'self', ('v', 'destobj'): 'dest'}.get(v[2][0])
        if v[0] == 'i' and (v[1][0] == 'call' and callee(v[1]) == 'vars' or v[1][0] == 'a' and v[1][2] == '__dict__'):
            b = v[1][2][0] if v[1][0] == 'call' else v[1][1]
            return {SELF: 'self', ('v', 'destobj'): 'dest'}.get(b)
        return None

    def effects(self, p, D):
        inplace, realloc, node = [], [], self.f.node
        src = lambda v: mentions(v, lambda q: self.owner(q) == 'self')
        for x in p.trace:
            if x[0] == 'store' and x[1][0] == 'i' and x[1][2][0] in ('slice', 'c') and self.owner(x[1][1]) == 'dest' and src(x[2]):
                if x[1][2] in (('c', Ellipsis), ('slice', ('c', None), ('c', None), ('c', None))):
                    inplace.append(x[2])
                    node = x[3]
            if x[0] == 'call':
                v = x[1]
                f = callee(v)
                if f == 'get' and recv(v) is not None and self.owner(recv(v)) == 'self' and dict(v[3]).get('out') is not None and self.owner(dict(v[3])['out']) == 'dest':
                    inplace.append(v)
                elif f == 'set' and recv(v) is not None and self.owner(recv(v)) == 'dest' and v[2] and src(v[2][0]):
                    inplace.append(v)
                elif f == 'copyto' and len(v[2]) >= 2 and self.owner(v[2][0]) == 'dest' and src(v[2][1]):
                    inplace.append(v)
                elif f == 'setattr' and len(v[2]) == 3 and v[2][0] == D:
                    (realloc if src(v[2][2]) else []).append(v[2][2])
                else:
                    continue
                node = x[2]
        return inplace, realloc, node

    def copy_to(self):
        for same in (True, False):
            for dev in (-1, 0):
                s = Scen(f'device {dev}', [(('v', 'target_device_idx'), dev), (sattr('target_device_idx'), dev if same else -2)])
                for p in self.paths('BaseDataObj', 'copyTo', s, noinline=('transferDataTo',)):
                    if not self.need(p.how == 'return', 'copy', 'error', p.node, 'copyTo() ends in an error'):
                        continue
                    tr = [(i, v) for i, v, n in p.calls('transferDataTo') if recv(v) == SELF]
                    if same:
                        self.need(p.value == SELF or bool(tr), 'copy', 'same', p.node, 'copyTo() to the same device does not give the object')
                        continue
                    c = p.value
                    self.need(c[0] == 'call' and (callee(c) or '').split('.')[-1] in ('copy', '__copy__', 'deepcopy') and mentions(c, lambda q: q == SELF), 'copy', 'clone', p.node, f'copyTo() gives {show(c)}, not a copy of the object')
                    st = {l[2]: (i, v) for i, l, v, n in p.stores() if l[1] == c}
                    ok = [(i, v) for i, v in tr if arg(v, 0, 'destobj') == c]
                    if self.need(bool(ok), 'copy', 'data', p.node, 'copyTo() does not transfer the arrays to the copy'):
                        self.need(arg(ok[0][1], 1, 'force_reallocation') == ('c', True), 'copy', 'shared', p.node, 'copyTo() writes into the arrays of the original: no reallocation is asked')
                        d = st.get('target_device_idx')
                        self.need(d is not None and s(d[1]) == dev and d[0] < ok[0][0], 'copy', 'device', p.node, 'copyTo() does not set the device of the copy before transferring the arrays')
                        x = st.get('xp')
                        self.need(x is not None and mentions(x[1], lambda q: q == ('v', 'cp')) == (dev >= 0), 'copy', 'xp', p.node, f'copyTo(): the array module of a copy on device {dev} is {show(x[1]) if x else "that of the original"}')

    # -- remote sends -------------------------------------------------------
    def send(self):
        item, rank, tag = ('v', 'item'), ('v', 'dest_rank'), ('v', 'dest_tag')
        for first, seen, value in itertools.product((True, False), repeat=3):
            leaves = [(('v', 'first_mpi_send'), first),
                      lambda v: seen if v[0] == 'cmp' and v[1] == 'in' and v[2] == tag and v[3] == sattr('sent_valid') else UNK,
                      lambda v: seen if v[0] == 'call' and callee(v) == 'get' and recv(v) == sattr('sent_valid') else UNK,
                      lambda v: (Tok('val') if value else None) if v[0] == 'call' and callee(v) == 'get_value' and recv(v) == item else UNK]
            s = Scen(('the first exchange' if first else 'a later exchange') + (' of an output with a value' if seen else ' of an output without value so far'), leaves)
            for p in self.paths('BaseProcessingObj', 'send_remote_output', s):
                n = p.node or self.f.node
                if not self.need(p.how == 'return', 'send', 'error', n, f'send_remote_output(): {s} ends in an error'):
                    continue
                small = [(i, v) for i, v, nd in p.calls() if callee(v) in PICKLE_SEND]
                big = [(i, v) for i, v, nd in p.calls() if callee(v) in BUFFER_SEND]
                ok = lambda v, t: arg(v, 1, 'dest') == rank and arg(v, 2, 'tag') in t
                t0, t1 = (tag,), (('op', '+', tag, ('c', 1)), ('op', '+', ('c', 1), tag))
                if first or not seen:
                    if self.need(len(small) == 1 and not big and arg(small[0][1], 0, 'obj') == item, 'send', 'object', n, f'send_remote_output(): {s} does not send the object, once'):
                        self.need(ok(small[0][1], t0), 'send', 'address', n, f'send_remote_output(): {s} is not sent to the rank and with the tag of the connection')
                elif self.need(len(small) == 1 and len(big) == 1, 'send', 'buffer', n, f'send_remote_output(): {s} does not send the data and the time stamp'):
                    b, g = big[0][1], small[0][1]
                    d = arg(b, 0, 'buf')
                    self.need(d is not None and mentions(d, lambda q: q[0] == 'call' and callee(q) == 'get_value' and recv(q) == item), 'send', 'data', n, f'send_remote_output(): {s} sends {show(d) if d else "nothing"} instead of the value')
                    self.need(arg(g, 0, 'obj') == ('a', item, 'generation_time'), 'send', 'time', n, f'send_remote_output(): {s} sends {show(arg(g, 0, "obj"))} instead of the time stamp')
                    self.need(ok(b, t0) and ok(g, t1), 'send', 'buffer-address', n, f'send_remote_output(): {s} is not sent to the rank and with the tags of the connection')
                # what is taken off the object to send it is put back
                for a in {l[2] for i, l, v, nd in p.stores() if l[1] == item}:
                    last = [v for i, l, v, nd in p.stores(a) if l[1] == item][-1]
                    self.need(last == ('a', item, a), 'send', f'left:{a}', n, f'send_remote_output(): {s} leaves {a} = {show(last)} in the output object')
                mark = [v for i, l, v, nd in p.stores() if l == ('i', sattr('sent_valid'), tag)]
                self.need(bool(mark and s(mark[-1]) is not False) == value, 'send', f'valid:{value}', n, f'send_remote_output(): {s} with{"" if value else "out"} a value is {"not " if value else ""}remembered as sent')

    def send_outputs(self):
        for delay, skip, only, many in itertools.product((-1, 0), (False, True), (False, True), (False, True)):
            def f(v, delay=delay, many=many):
                spec = lambda q: q[0] == 'elem' and mentions(q[1], lambda z: z == sattr('remote_outputs'))
                if v[0] == 'i' and v[2] == ('c', 2) and spec(v[1]):
                    return delay
                if v[0] == 'call' and callee(v) == 'isinstance' and v[2][1] == ('v', 'list') and mentions(v[2][0], lambda q: q == sattr('outputs')):
                    return many
                if v[0] == 'cmp' and v[2][0] == 'call' and callee(v[2]) == 'type' and mentions(v[2], lambda q: q == sattr('outputs')):
                    return many
                return UNK
            s = Scen(f'a connection with delay {delay}, skip_delayed={skip}, delayed_only={only}', [(('v', 'skip_delayed'), skip), (('v', 'delayed_only'), only), f])
            want = not (delay < 0 and skip) and not (delay >= 0 and only)
            seen = False
            for p in self.paths('BaseProcessingObj', 'send_outputs', s, noinline=('send_remote_output',), unroll=True):
                n = p.node or self.f.node
                if not self.need(p.how == 'return', 'send-outputs', 'error', n, 'send_outputs() ends in an error'):
                    continue
                inner = [x for x in p.trace if x[0] == 'loop' and mentions(x[2], lambda q: q == sattr('remote_outputs'))]
                if len(inner) < 2 or any(x[0] == 'skip' and mentions(x[2], lambda q: q == sattr('outputs')) for x in p.trace):
                    continue
                sent = [v for i, v, nd in p.calls('send_remote_output')]
                self.need(bool(sent) == want, 'send-outputs', f'{delay}:{skip}:{only}', n, f'send_outputs(): {s} is ' + ('not sent' if want else 'sent'))
                for v in sent:
                    seen = True
                    a = [arg(v, 0, 'item'), arg(v, 1, 'dest_rank'), arg(v, 2, 'dest_tag'), arg(v, 3, 'first_mpi_send')]
                    out = a[0] is not None and mentions(a[0], lambda q: q == sattr('outputs')) and mentions(a[0], lambda q: q[0] == 'elem' and q[1] == sattr('remote_outputs'))
                    if many:
                        out = out and a[0][0] in ('elem', 'i')
                    self.need(out, 'send-outputs', 'item', n, f'send_outputs() sends {show(a[0]) if a[0] else "nothing"} instead of the output')
                    self.need(a[1] is not None and a[1][0] == 'i' and a[1][2] == ('c', 0) and a[2] is not None and a[2][0] == 'i' and a[2][2] == ('c', 1), 'send-outputs', 'address', n, 'send_outputs() does not use the rank and the tag of the connection')
                    self.need(a[3] == ('v', 'first_mpi_send'), 'send-outputs', 'first', n, 'send_outputs() does not pass on whether this is the first exchange')
            self.need(seen == want, 'send-outputs', 'never' if want else f'{delay}:{skip}:{only}', self.f.node, f'send_outputs(): {s} is ' + ('never sent' if want else 'sent'))
        for p in self.paths('BaseProcessingObj', 'addRemoteOutput'):
            a = [x.arg for x in self.f.node.args.args]
            ap = [v for i, v, n in p.calls('append') if recv(v) == ('i', sattr('remote_outputs'), ('v', a[1])) and v[2] == (('v', a[2]),)]
            st = [1 for i, l, v, n in p.stores() if l == ('i', sattr('remote_outputs'), ('v', a[1])) and mentions(v, lambda q: q == l)]
            self.need(bool(ap or st), 'send-outputs', 'add', p.node or self.f.node, 'addRemoteOutput() does not add the connection to those of the output')

    # -- Simul ----------------------------------------------------------------
    def connect(self):
        objs, ranks = sattr('objs'), sattr('remote_objs_ranks')
        dest, iname = ('v', 'dest_object'), ('v', 'input_name')
        tags = {}
        for ref, local in ((True, True), (True, False), (False, True)):
            def f(v, ref=ref, local=local):
                if v[0] == 'a' and v[2] == 'ref' or v[0] == 'i' and v[2] == ('c', 3) and v[1][0] == 'call' and callee(v[1]) == 'split_output':
                    return Tok('ref') if ref else None
                if v[0] == 'cmp' and v[1] == 'in' and v[2] == dest:
                    if mentions(v[3], lambda q: q == objs):
                        return local
                    if mentions(v[3], lambda q: q == ranks):
                        return not local
                return UNK
            s = Scen({(True, True): 'a local connection', (True, False): 'a connection to a remote object', (False, True): 'a connection from a remote object'}[(ref, local)], [f])
            for p in self.paths('Simul', 'connect', s, noinline=('split_output', 'addRemoteOutput', 'append')):
                n = p.node or self.f.node
                if not self.need(p.how == 'return', 'connect', 'error', n, f'connect(): {s} ends in an error'):
                    continue
                inp = ('i', ('a', ('i', objs, dest), 'inputs'), iname)
                app = [v for i, v, nd in p.calls() if callee(v) in ('append', 'set') and recv(v) is not None and recv(v) == inp]
                rem = [v for i, v, nd in p.calls('addRemoteOutput')]
                spl = [v for i, v, nd in p.calls('split_output')]
                self.need(bool(spl) and arg(spl[0], 0, 'output_name') == ('v', 'output_name') and arg(spl[0], 1, 'get_ref') == ('c', True), 'connect', 'output', n, 'connect() does not look up the output')
                out = lambda name: ('a', spl[0], name) if spl else None
                self.need(len(app) == (1 if local else 0) and len(rem) == (0 if local else 1), 'connect', f'{ref}:{local}', n, f'connect(): {s} makes {len(app)} local and {len(rem)} remote links')
                for v in app:
                    self.need(callee(v) == 'append', 'connect', 'replaces', n, f'connect(): {s} replaces the outputs already connected to the input')
                    it, rk, tg = arg(v, 0, 'item'), arg(v, 1, 'remote_rank'), arg(v, 2, 'tag')
                    if ref:
                        self.need(it == out('ref') and (rk is None or s(rk) is None), 'connect', 'local', n, f'connect(): {s} links {show(it) if it else "nothing"}')
                    else:
                        self.need(s(it) is None and rk == ('i', ranks, out('obj_name')), 'connect', 'recv', n, f'connect(): {s}: the rank is {show(rk) if rk else "not given"}')
                        tags['recv'] = (tg, spl[0] if spl else None, n)
                for v in rem:
                    self.need(recv(v) == ('i', objs, out('obj_name')), 'connect', 'sender', n, f'connect(): {s} is added to {show(recv(v))}')
                    nm, sp = arg(v, 0, 'name'), arg(v, 1, 'remote_output')
                    self.need(nm == out('output_key'), 'connect', 'sender-output', n, f'connect(): {s} sends the output {show(nm)}')
                    if self.need(sp is not None and sp[0] == 'tup' and len(sp[2]) == 3, 'connect', 'spec', n, f'connect(): {s} is not described by rank, tag and delay'):
                        self.need(sp[2][0] == ('i', ranks, dest), 'connect', 'send-rank', n, f'connect(): {s}: the rank is {show(sp[2][0])}')
                        self.need(sp[2][2] == out('delay'), 'connect', 'send-delay', n, f'connect(): {s}: the delay is {show(sp[2][2])}')
                        tags['send'] = (sp[2][1], spl[0] if spl else None, n)
        if len(tags) == 2:
            (a, o, n), (b, o2, n2) = tags['recv'], tags['send']
            self.need(a == b, 'connect', 'tag', n, 'connect(): the two sides of a remote connection compute different tags')
            for t in (a, b):
                if t is None:
                    continue
                for x, name in ((('a', o, 'obj_name'), 'producer'), (('a', o, 'output_key'), 'output'), (dest, 'reader'), (iname, 'input')):
                    self.need(mentions(t, lambda q: q == x), 'connect', f'tag:{name}', n, f'connect(): the tag of a remote connection does not depend on the name of the {name}')
                self.need(not mentions(t, lambda q: q[0] == 'call' and q[1][0] == 'v' and q[1][1] in ('hash', 'id')), 'connect', 'tag-process', n, 'connect(): the tag of a remote connection differs from one process to another')

    def connect_all(self):
        objs = sattr('objs')
        ins = lambda q: q[0] == 'i' and q[2] == ('c', 'inputs')
        for local, ref, kind, known, outk in itertools.product((True, False), (True, False), ('str', 'list', 'bad'), (True, False), (True, False)):
            if kind == 'bad' and not (local and known and outk):
                continue
            def f(v, local=local, ref=ref, kind=kind, known=known, outk=outk):
                if v[0] == 'cmp' and v[1] == 'in':
                    if v[2] in (('c', 'inputs'), ('c', 'outputs')):
                        return True
                    if v[2][0] == 'elem' and v[2][1] == ('v', 'params') and mentions(v[3], lambda q: q == objs) and not mentions(v[3], lambda q: q[0] == 'a' and q[2] in ('inputs', 'outputs')):
                        return local
                    if mentions(v[3], lambda q: q[0] == 'a' and q[2] == 'inputs'):
                        return known
                    if mentions(v[3], lambda q: q[0] == 'a' and q[2] == 'outputs'):
                        return outk
                    if mentions(v[3], lambda q: q == ('c', 'outputs')):
                        return outk
                if v[0] == 'call' and callee(v) == 'isinstance' and mentions(v[2][0], ins) and len(v[2]) == 2:
                    names = [x[1] for x in walk(v[2][1]) if isinstance(x, tuple) and len(x) == 2 and x[0] == 'v']
                    return kind in names
                if v[0] == 'a' and v[2] == 'ref' and v[1][0] == 'call':
                    return Tok('ref') if ref else None
                if v[0] == 'cmp' and v[1] == '==' and ('c', 'input_list') in v[2:]:
                    return False
                if v[0] == 'cmp' and mentions(v, lambda q: q == sattr('all_objs_ranks')):
                    return not local if v[1] != '==' else local
                return UNK
            s = Scen(('a local' if local else 'a remote') + ' object reading ' + ('an output' if ref else 'a remote output'), [f])
            seen = 0
            for p in self.paths('Simul', 'connect_objects', s, noinline=('connect', 'split_output'), unroll=True):
                n = p.node or self.f.node
                lo = [x[2] for x in p.trace if x[0] == 'loop']
                inl = [x for x in lo if mentions(x, ins)]
                outl = [x for x in lo if mentions(x, lambda q: q[0] == 'i' and q[2] == ('c', 'outputs'))]
                if outl and not outk:
                    self.need(p.how == 'raise', 'connect-all', 'output-name', n, 'connect_objects() accepts an output that the object does not have')
                    continue
                if outl and outk and p.how == 'raise' and not inl:
                    self.need(False, 'connect-all', 'output-refused', n, 'connect_objects() refuses an output that the object has')
                if not inl or p.how == 'raise' and not outk:
                    continue
                if local and not known:
                    self.need(p.how == 'raise', 'connect-all', 'input-name', n, 'connect_objects() accepts an input that the object does not have')
                    continue
                if kind == 'bad':
                    self.need(p.how == 'raise', 'connect-all', 'definition', n, 'connect_objects() accepts an input definition that is neither a name nor a list')
                    continue
                if p.exceptional:
                    self.need(p.how == 'raise', 'connect-all', 'swallowed', n, 'connect_objects() swallows the error of a connection')
                    continue
                if any(x[0] == 'skip' and mentions(x[2], ins) for x in p.trace):
                    continue
                c = [v for i, v, nd in p.calls('connect') if recv(v) == SELF]
                if p.how == 'raise':
                    self.need(False, 'connect-all', 'refused', n, f'connect_objects() refuses {s}')
                    continue
                seen += 1
                if local or ref:
                    if self.need(len(c) == 1, 'connect-all', f'{local}:{ref}', n, f'connect_objects(): {s} is connected {len(c)} times'):
                        a = [arg(c[0], 0, 'output_name'), arg(c[0], 1, 'input_name'), arg(c[0], 2, 'dest_object')]
                        okn = a[0] is not None and mentions(a[0], ins) and a[0][0] in ('elem', 'i')
                        if kind == 'list':
                            okn = okn and a[0][0] == 'elem' and a[0][1][0] in ('i', 'elem') and not mentions(a[0][1], lambda q: q[0] == 'slice')
                        self.need(okn and a[1] is not None and a[1][0] == 'elem' and mentions(a[1], ins) and a[2] == ('elem', ('v', 'params'), a[2][2] if a[2] and len(a[2]) > 2 else None), 'connect-all', 'names', n, f'connect_objects() connects {[show(x) if x else None for x in a]}')
                else:
                    self.need(not c, 'connect-all', 'remote', n, 'connect_objects() connects two remote objects')
            if kind != 'bad' and known and outk:
                self.need(seen > 0, 'connect-all', f'never:{local}:{ref}:{kind}', self.f.node, f'connect_objects(): {s} is never connected')

    def split(self):
        cases = {'obj.out': ('obj', 'out', 0, None), 'obj.out:-1': ('obj', 'out', -1, None), 'in-obj.out:-2': ('obj', 'out', -2, 'in'),
                 'in-obj.out': ('obj', 'out', 0, 'in'), 'obj': ('obj', None, 0, None), 'in-obj': ('obj', None, 0, 'in'), 'obj:-1': ('obj', None, -1, None)}
        o_ = sattr('objs')
        for text, want in cases.items():
            for get, here, remote, use, known in ((False, True, False, False, True), (True, True, False, False, True), (True, True, False, True, True), (True, False, True, False, True), (True, False, False, False, True), (True, True, False, False, False)):
                def f(v, here=here, remote=remote, known=known):
                    if v[0] == 'cmp' and v[1] == 'in':
                        if v[3] == o_ or v[3] == ('call', ('a', o_, 'keys'), (), ()):
                            return here
                        if v[3] == sattr('remote_objs_ranks'):
                            return remote
                        if mentions(v[3], lambda q: q == o_) and v[3] != o_:
                            return known
                    if v[0] == 'i' and v[1] == o_ and self.cur(v[2]) == want[0]:
                        return Tok('O')
                    if v[0] == 'a' and v[2] in ('outputs', 'local_inputs') and self.cur(v[1]) == 'O':
                        return {'out': Tok('O.' + v[2])}
                    return UNK
                s = Scen(text, [(('v', 'output_name'), text), (('v', 'get_ref'), get), (('v', 'use_inputs'), use), f])
                self.cur = s
                for p in self.paths('Simul', 'split_output', s):
                    n = p.node or self.f.node
                    fail = get and not here and not remote or get and here and not known and want[1] is not None
                    if fail:
                        self.need(p.how == 'raise', 'split', 'missing', n, f'split_output({text!r}) accepts an object or output that does not exist')
                        continue
                    if not self.need(p.how == 'return', 'split', 'refused', n, f'split_output({text!r}) ends in an error'):
                        continue
                    v = p.value
                    if v[0] != 'call' or callee(v) != 'Output':
                        self.n['undecided'] += 1
                        continue
                    for pos, name, w in ((0, 'obj_name', want[0]), (1, 'output_key', want[1]), (2, 'delay', want[2]), (4, 'input_name', want[3])):
                        x = arg(v, pos, name)
                        g = s(x) if x is not None else None
                        if g is UNK:
                            self.n['undecided'] += 1
                            continue
                        self.need(g == w, 'split', f'{name}:{text}', n, f'split_output({text!r}) gives {name} = {g!r}')
                    x = arg(v, 3, 'ref')
                    g = s(x) if x is not None else None
                    w = None if not get or remote else 'O' if want[1] is None else 'O.local_inputs' if use else 'O.outputs'
                    if g is UNK:
                        self.n['undecided'] += 1
                        continue
                    self.need(g == w, 'split', f'ref:{get}:{use}', n, f'split_output({text!r}, get_ref={get}, use_inputs={use}) refers to {g}')


def run(ix, tier):
    res = Result()
    r = Rule(ix, res)
    for m in ('item_get', 'item_init', 'list_get', 'value_get', 'list_append', 'transfer', 'copy_to', 'send', 'send_outputs', 'connect', 'connect_all', 'split'):
        getattr(r, m)()
    res.floor('paths_analysed', r.n['paths'], 300)
    res.floor('obligations_decided', r.n['obligations'], 300)
    res.stats['undecided'] = r.n['undecided']
    res.assumptions = ['an output over MPI is a single data object (lists are not sent element by element with separate tags)',
                       'both processes read the same configuration']
    return res
