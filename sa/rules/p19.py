"""Configuration rule.  Control-flow paths of Simul.build_objects (helpers
inlined), one set of paths for every kind of parameter name (plain, _ref,
_list_ref, _dict_ref, _data, _object, _list_object, _dict_object), for objects
built here or elsewhere: the constructor receives the configured value, the
referenced object, the file content or the restored object, under the name
without suffix, and nothing else is swallowed or invented.  Also: objects are
built after those they refer to, additional files and overrides are merged as
written, tags are read where calibrations are saved."""
import ast

from ..paths import Paths, show, mentions, has_attr, callee, recv, arg, walk
from ..index import AnalysisBroken
from ..report import Result
from ..conc import Conc, UNK

SELF = ('v', 'self')


class Case(Conc):
    """One kind of parameter: name in the file, constructor arguments."""
    def __init__(self, kind, name, args, **kw):
        self.kind = kind
        self.name = name
        self.args = args
        self.rank = kw.get('rank')              # process rank
        self.target = kw.get('target')          # target_rank
        self.data = kw.get('data', False)       # data object class
        self.tag = kw.get('tag', False)
        self.isnone = kw.get('isnone', False)

    def conc(self, v):
        return self(v)

    def leaf(self, v):
        k = v[0]
        if k == 'v' and v[1].split('.')[-1] == 'process_rank':
            return self.rank
        if k == 'a' and v[2] == 'args' and v[1][0] == 'call' and callee(v[1]) == 'getfullargspec':
            return self.args
        if k in ('i', 'elem'):
            return self.item(v)
        if k == 'cmp':
            return self.cmp(v)
        if k == 'call':
            return self.call(v)
        return UNK

    def item(self, v):
        if v[0] == 'elem' and self.isparams(v[1]):
            return self.name
        if v[0] == 'i' and self.isparams(v[1]) and v[2] == ('c', 'target_rank'):
            return self.target
        if v[0] == 'i' and self.isvalue(v) and self.isnone:
            return None
        return UNK

    def isparams(self, v):
        """the parameter dictionary of the object being built"""
        if v[0] == 'call' and callee(v) in ('items', 'copy', 'dict', 'list', 'deepcopy'):
            r = recv(v) if v[1][0] == 'a' and not v[2] else (v[2][0] if v[2] else None)
            return r is not None and self.isparams(r)
        return v[0] == 'i' and v[1] == ('v', 'params') and v[2][0] in ('elem', 'v', 'i')

    def isvalue(self, v):
        return v[0] == 'i' and self.isparams(v[1]) and v[2][0] in ('elem',) and self.isparams(v[2][1])

    def cmp(self, v):
        op, a, b = v[1:4]
        if op == 'in' and self.isparams(b):
            x = self.conc(a)
            if x == 'tag':
                return self.tag
            if x == 'target_rank':
                return self.target is not None
            return UNK
        if op == 'is' and b == ('c', None) and self.isvalue(a):
            return self.isnone
        return UNK

    def call(self, v):
        f = callee(v)
        r = recv(v) if v[1][0] == 'a' else None
        if f in ('get', 'pop') and r is not None and self.isparams(r) and v[2]:
            return self.target if self.conc(v[2][0]) == 'target_rank' else UNK
        if f == 'issubclass':
            return self.data
        if f == 'isinstance' and len(v[2]) == 2 and self.isvalue(v[2][0]) and self.isnone:
            return False
        return UNK


def params_loop(it):
    """iteration over the parameters of one object"""
    c = Case('', '', [])
    return c.isparams(it)


class Merge(Conc):
    """an entry with simulation index idx (or without), in simulation 2"""
    def __init__(self, idx):
        self.idx = idx

    def leaf(self, v):
        if v == ('a', SELF, 'simul_idx'):
            return 2
        if v[0] == 'call' and callee(v) in ('search', 'match', 'fullmatch'):
            return None if self.idx is None else True
        if v[0] == 'call' and callee(v) == 'int' and mentions(v, lambda q: q[0] == 'call' and callee(q) in ('search', 'match', 'fullmatch')):
            return self.idx
        return UNK


class Refs(Conc):
    """a parameter called name"""
    def __init__(self, name):
        self.name = name

    def leaf(self, v):
        if v[0] == 'elem' and mentions(v[1], lambda q: q[0] == 'i' and q[1] == ('v', 'params')):
            if not mentions(v[1], lambda q: q[0] == 'elem' and q is not v and mentions(q[1], lambda z: z[0] == 'i' and z[1] == ('v', 'params'))):
                return self.name
        return UNK


class Rule:
    def __init__(self, ix, res):
        self.ix = ix
        self.res = res
        self.f = ix.find_method('Simul', 'build_objects')
        if self.f is None:
            raise AnalysisBroken('Simul.build_objects not found')
        self.file = self.f.module.rel
        self.n = {'paths': 0, 'cases': 0, 'iterations': 0}

    def bad(self, rule, what, node, msg):
        line = getattr(node, 'lineno', None)
        self.res.add(rule, what, f'{self.file}:{line}' if line else self.file, msg)

    def run(self, case):
        P = Paths(self.ix, 'Simul', limit=20000, oracle=case.oracle, cut=params_loop, ident=True, unroll=True,
                  noinline=('build_order', 'setSimulParams', 'import_class', 'get_type_hints', '_resolve_dataobj_type', 'printMemUsage'))
        ps = P.run(self.f)
        self.n['paths'] += len(ps)
        self.n['cases'] += 1
        self.n['iterations'] += len(P.iterations)
        return P, ps

    # -- one parameter ----------------------------------------------------
    SUF = (('plain', 'foo', 'foo'), ('ref', 'foo_ref', 'foo'), ('list_ref', 'foo_list_ref', 'foo_list'), ('dict_ref', 'foo_dict_ref', 'foo_dict'),
           ('data', 'foo_data', 'foo'), ('object', 'foo_object', 'foo'), ('list_object', 'foo_list_object', 'foo_list'), ('dict_object', 'foo_dict_object', 'foo_dict'),
           ('suffix_in_constructor', 'foo_ref', 'foo_ref'), ('special_in_constructor', 'outputs', 'outputs'))

    def parameters(self):
        for kind, name, par in self.SUF:
            case = Case(kind, name, ['self', par, 'target_device_idx', 'precision'])
            P, ps = self.run(case)
            self.stored(case, par, P)
            if kind in ('plain', 'data', 'object', 'list_object', 'dict_object'):
                self.stored(Case(kind, name, case.args, isnone=True), par, None)
        # not accepted by the constructor
        for name in ('foo', 'foo_ref', 'foo_object', 'foo_data'):
            case = Case('unknown', name, ['self', 'bar', 'target_device_idx', 'precision'])
            P, ps = self.run(case)
            for lid, st, how, node in P.iterations:
                if how != 'raise':
                    self.bad('unknown-accepted', name, self.f.node, f'build_objects(): a parameter {name} that the constructor does not accept is not rejected')
        for name in ('class', 'inputs', 'outputs'):
            case = Case('special', name, ['self', 'foo', 'target_device_idx', 'precision'])
            P, ps = self.run(case)
            for lid, st, how, node in P.iterations:
                if how == 'raise' or self.stores(case, st, lid):
                    self.bad('special', name, node or self.f.node, f'build_objects(): the entry "{name}" is treated as a constructor parameter')
        # built by another process: nothing is looked up
        for kind, name, par in self.SUF:
            case = Case(kind, name, ['self', par, 'target_device_idx', 'precision'], rank=0, target=1)
            P, ps = self.run(case)
            for p in ps:
                if p.how == 'raise' and not p.exceptional and any(x[0] == 'loop' and params_loop(x[2]) for x in p.trace) and kind in ('plain', 'ref'):
                    self.bad('remote', f'{kind}:raise', p.node, f'build_objects(): a {kind} parameter of an object built by another process is rejected')

    def seg(self, st, lid):
        k = max(i for i, x in enumerate(st.trace) if x[0] == 'loop' and x[1] == lid)
        return st.trace[k:]

    def stores(self, case, st, lid):
        """(key, value, node) stored by this iteration in the constructor arguments"""
        out = []
        for x in self.seg(st, lid):
            if x[0] == 'store' and x[1][0] == 'i' and (x[1][1][0] == 'dict' or x[1][1][0] == 'phi'):
                k = case.conc(x[1][2])
                if k in ('start', 'end', 'start_label', 'end_label'):
                    continue
                if x[1][1][0] == 'dict' and self.inner_dict(x[1][1], st, lid):
                    continue
                out.append((k, x[2], x[3]))
            elif x[0] == 'call' and callee(x[1]) in ('update', 'setdefault', '__setitem__') and recv(x[1]) is not None and recv(x[1])[0] == 'dict':
                a = x[1][2]
                if callee(x[1]) != 'update' and len(a) == 2:
                    out.append((case.conc(a[0]), a[1], x[2]))
                elif a and a[0][0] == 'dict' and len(a[0][1]) == 1:
                    out.append((case.conc(a[0][1][0][0]), a[0][1][0][1], x[2]))
        return out

    def inner_dict(self, d, st, lid):
        """a dictionary that becomes the value of a parameter"""
        return any(x[0] == 'store' and x[2] == d for x in self.seg(st, lid))

    def stored(self, case, par, P):
        if P is None:
            P, ps = self.run(case)
        kind = case.kind
        if not P.iterations:
            self.bad('parameters', 'loop', self.f.node, 'build_objects() does not go through the parameters of the objects')
            return
        any_ok = False
        for lid, st, how, node in P.iterations:
            if how == 'raise':
                continue
            s = self.stores(case, st, lid)
            if how == 'break':
                self.bad('parameter-lost', f'{kind}:break', node or self.f.node, f'build_objects(): the parameters after a {kind} one are not read')
            if len(s) == 0:
                self.bad('parameter-lost', f'{kind}', self.f.node, f'build_objects(): on some path a {kind} parameter ({case.name}) is not passed to the constructor')
                continue
            any_ok = True
            key, val, n = s[-1]
            if key is not UNK and key != par:
                self.bad('parameter-name', kind, n, f'build_objects(): a {kind} parameter {case.name} is passed to the constructor as {key!r}')
            self.value(case, val, n, st, lid)
        if not any_ok:
            self.bad('parameter-lost', f'{kind}:never', self.f.node, f'build_objects() never passes a {kind} parameter ({case.name}) to the constructor')

    def value(self, case, val, n, st, lid):
        kind = case.kind
        if case.isnone:
            if case.conc(val) is not None and not (kind in ('plain',) and case.isvalue(val)):
                self.bad('parameter-value', f'{kind}:none', n, f'build_objects(): an empty {kind} parameter becomes {show(val)}')
            return
        what = None
        if kind in ('plain', 'suffix_in_constructor', 'special_in_constructor'):
            if not case.isvalue(val):
                what = 'is not the configured value'
        elif kind == 'ref':
            if not self.obj_of(val, lambda k: case.isvalue(k)):
                what = 'is not the object it names'
        elif kind in ('list_ref', 'dict_ref'):
            what = self.refs(case, val, kind, st, lid)
        elif kind == 'data':
            if not (val[0] == 'call' and callee(val) in ('read_data', 'readfits') and mentions(val, case.isvalue)):
                what = 'is not the content of the file it names'
        elif kind == 'object':
            what = self.restored(case, val, case.isvalue, st, n)
        else:
            what = self.restored_many(case, val, kind, st, lid, n)
        if what:
            self.bad('parameter-value', kind, n, f'build_objects(): the value passed for a {kind} parameter {what} ({show(val)[:80]})')

    def obj_of(self, v, test):
        return v[0] == 'i' and v[1] == ('a', SELF, 'objs') and test(v[2]) or \
            v[0] == 'call' and callee(v) in ('output_ref', '__getitem__') and len(v[2]) == 1 and test(v[2][0])

    def elem_of(self, case):
        return lambda k: k[0] == 'elem' and (case.isvalue(k[1]) or k[1][0] == 'call' and k[1][2] and case.isvalue(k[1][2][0]))

    def refs(self, case, val, kind, st, lid):
        el = self.elem_of(case)
        if val[0] == 'comp':
            if val[4]:
                return 'leaves some of the named objects out'
            e = val[2]
            if kind == 'dict_ref':
                if not (e[0] == 'tup' and el(e[2][0])):
                    return 'is not keyed by the names'
                e = e[2][1]
            return None if self.obj_of(e, el) else 'is not made of the objects it names'
        if val[0] == 'call' and callee(val) in ('list', 'dict', 'tuple') and val[2]:
            return self.refs(case, val[2][0], kind, st, lid)
        entered = [x for x in self.seg(st, lid) if x[0] == 'loop' and case.isvalue(x[2])]
        if not entered or any(x[0] == 'skip' and case.isvalue(x[2]) for x in self.seg(st, lid)):
            return None
        seg = self.seg(st, lid)
        ap = [x for x in seg if x[0] == 'call' and callee(x[1]) == 'append' and recv(x[1]) == val and self.obj_of(x[1][2][0], el)] + \
             [x for x in seg if x[0] == 'store' and x[1][0] == 'i' and x[1][1] == val and self.obj_of(x[2], el)]
        if val[0] in ('tup', 'dict') and not ap:
            return 'is not made of the objects it names'
        return None

    def restored(self, case, val, isname, st, n):
        if val[0] != 'call' or callee(val) != 'restore':
            return 'is not restored from the file it names'
        fn = arg(val, 0, 'filename')
        if fn is None or not mentions(fn, isname):
            return 'is not restored from the file it names'
        d = arg(val, 1, 'target_device_idx')
        if d is None or not mentions(d, lambda q: q == ('c', 'target_device_idx')):
            return 'is not restored on the device of the object'
        tags = [x for x in st.trace if x[0] == 'store' and x[1] == ('a', val, 'tag')]
        if not tags or not isname(tags[-1][2]):
            return 'does not carry its tag'
        return None

    def restored_many(self, case, val, kind, st, lid, n):
        seg = self.seg(st, lid)
        el = self.elem_of(case)
        if kind == 'dict_object':
            isname = lambda k: k[0] == 'i' and case.isvalue(k[1]) and k[2][0] == 'elem'
        else:
            isname = el
        if val[0] == 'comp':
            if val[4]:
                return 'leaves some objects out'
            e = val[2][2][1] if kind == 'dict_object' and val[2][0] == 'tup' else val[2]
            return self.restored(case, e, isname, st, n)
        loops = [x for x in seg if x[0] == 'loop' and (case.isvalue(x[2]) or mentions(x[2], case.isvalue) and not case.isparams(x[2]))]
        if not loops or val[0] not in ('tup', 'dict') or any(x[0] == 'skip' and mentions(x[2], case.isvalue) for x in seg):
            return None
        ap = [x[1][2][0] for x in seg if x[0] == 'call' and callee(x[1]) == 'append' and recv(x[1]) == val]
        st_ = [(x[1][2], x[2]) for x in seg if x[0] == 'store' and x[1][0] == 'i' and x[1][1] == val]
        if kind == 'list_object':
            if len(ap) != 1:
                return 'does not contain one object per tag'
            return self.restored(case, ap[0], isname, st, n)
        if len(st_) != 1:
            return 'does not contain one object per tag'
        if st_[0][0][0] != 'elem' or not case.isvalue(st_[0][0][1]):
            return 'is not keyed as in the file'
        return self.restored(case, st_[0][1], isname, st, n)

    # -- the whole object -----------------------------------------------------
    def objects(self):
        args = ['self', 'foo', 'target_device_idx', 'precision']
        for rank in (None, 0, 1):
            for target in (None, 0, 1):
                for data in (False, True):
                    case = Case('object', 'foo', args, rank=rank, target=target, data=data)
                    built = rank is None or rank == (0 if target is None else target) or (data and target is None)
                    self.built(case, built)
        # default arguments given by the simulation
        self.built(Case('object', 'foo', args + ['data_dir', 'params_dict', 'input_ref_getter', 'output_ref_getter', 'info_getter']), True)
        for rank, target in ((None, None), (0, 0), (0, None)):
            self.tagged(Case('tag', 'foo', args, rank=rank, target=target, data=True, tag=True))

    def obj_stores(self, p):
        return [(i, v, n) for i, lv, v, n in p.stores() if lv[0] == 'i' and lv[1] == ('a', SELF, 'objs') and self.iskey(lv[2])]

    def iskey(self, k):
        return k[0] == 'elem' and k[1] != ('v', 'params') or k[0] == 'elem'

    def outer(self, p):
        return any(x[0] == 'loop' and not params_loop(x[2]) for x in p.trace)

    def built(self, case, built):
        P, ps = self.run(case)
        desc = f'{"data" if case.data else "processing"} object with target_rank {case.target} in process {case.rank}'
        for p in ps:
            if p.how == 'raise' or not self.outer(p):
                continue
            if p.exceptional:
                self.bad('exception-swallowed', 'build_objects', p.node, 'build_objects(): an exception raised by a constructor is not reported')
                continue
            st = self.obj_stores(p)
            rem = [x for x in p.stores() if x[1][0] == 'i' and x[1][1] == ('a', SELF, 'remote_objs_ranks')]
            if any(x[0] == 'endloop' and x[2] == 'break' and not params_loop(x[1:]) for x in p.trace if x[0] == 'endloop' and len(x) > 2 and self.main_loop(p, x[1])):
                self.bad('object-lost', 'break', p.node, 'build_objects(): the objects after some one are not built')
            if built:
                if not st:
                    self.bad('object-lost', 'not-built', p.node, f'build_objects(): a {desc} is not built')
                    continue
                if rem:
                    self.bad('rank', 'built-remote', rem[0][3], f'build_objects(): a {desc}, which is built, is also recorded as remote')
                self.construct(case, p, st)
            else:
                if st:
                    self.bad('rank', 'built-elsewhere', st[0][2], f'build_objects(): a {desc} is built although it belongs to another process')
                if not rem:
                    self.bad('rank', 'rank-lost', p.node, f'build_objects(): the rank of a {desc} is not recorded')
                elif case.conc(rem[-1][2]) is not UNK and case.conc(rem[-1][2]) != (0 if case.target is None else case.target):
                    self.bad('rank', 'rank-wrong', rem[-1][3], f'build_objects(): a {desc} is recorded with rank {case.conc(rem[-1][2])}')

    def main_loop(self, p, lid):
        return any(x[0] == 'loop' and x[1] == lid and mentions(x[2], lambda q: q[0] == 'call' and callee(q) == 'build_order') for x in p.trace)

    def construct(self, case, p, st):
        i, v, n = st[-1]
        if v[0] != 'call':
            self.bad('object-lost', 'value', n, f'build_objects() stores {show(v)[:60]} instead of the object it builds')
            return
        # constructor call with the collected parameters
        kws = [w for k, w in v[3] if k is None]
        params = self.param_dict(p)
        if params is None:
            return
        if not kws:
            self.bad('parameter-lost', 'constructor', n, 'build_objects() does not pass the parameters to the constructor')
            return
        parts = [x for w in kws for x in self.layers(w, p, params, i)]
        conf = [k for k, x in enumerate(parts) if x[0] == 'configured']
        if not conf:
            if not any(x[0] == 'unknown' for x in parts):
                self.bad('parameter-lost', 'constructor', n, 'build_objects() does not pass the parameters read from the file to the constructor')
        else:
            for kind, key, node in parts[conf[-1] + 1:]:
                if kind == 'default' and not self.guarded(case, p, key, params):
                    self.bad('parameter-lost', f'overwritten:{show(key) if key else "?"}', node or n, f'build_objects(): the configured value of {show(key) if key else "a parameter"} is replaced')
        nm = [x for x in p.stores('name') if x[1][1] == v or has_attr(x[1][1], 'objs')]
        if not nm or not self.iskey(nm[-1][2]):
            self.bad('object-name', 'built', n, 'build_objects(): the object built does not get its name')

    def guarded(self, case, p, key, params):
        """on this path the configuration does not have the parameter"""
        return key is not None and any(a[0] == 'cmp' and a[1] == 'in' and a[2] == key and not t and
                                       (case.isparams(a[3]) or mentions(a[3], lambda q: q in params)) for a, t in p.conds.items())

    def layers(self, w, p, params, end, depth=0):
        """what a dictionary of constructor arguments is made of, later entries
        replacing earlier ones: (configured|default|unknown, key, node)"""
        if depth > 6:
            return [('unknown', None, None)]

        def sub(x):
            return self.layers(x, p, params, end, depth + 1)

        if w[0] == 'dict' and len(w) == 3:
            out = [('configured', None, None)] if w in params else []
            for j, x in enumerate(p.trace[:end]):
                if x[0] == 'store' and x[1][0] == 'i' and x[1][1] == w:
                    if w in params and any(params_loop(it) for lid, it in p.loops_at(j)):
                        continue
                    out.append(('default', x[1][2], x[3]))
                elif x[0] == 'call' and recv(x[1]) == w and callee(x[1]) in ('update', '__ior__') :
                    for y in x[1][2]:
                        out += sub(y)
                    for k, y in x[1][3]:
                        out += sub(y) if k is None else [('default', ('c', k), x[2])]
            return out
        if w[0] == 'dict':
            return [('default', k, None) for k, y in w[1]]
        if w[0] == 'phi' or w in params:
            return [('configured', None, None)] if mentions(w, lambda q: q in params) else [('unknown', None, None)]
        if w[0] == 'op' and w[1] == '|':
            return sub(w[2]) + sub(w[3])
        if w[0] == 'call':
            f = callee(w)
            if f in ('copy', 'deepcopy') and not w[2]:
                return sub(recv(w))
            if f in ('dict_union', 'dict', 'copy', 'deepcopy', 'OrderedDict'):
                out = [y for x in w[2] for y in sub(x)]
                for k, y in w[3]:
                    out += sub(y) if k is None else [('default', ('c', k), None)]
                return out
        if mentions(w, lambda q: q in params):
            return [('configured', None, None)]
        return [('unknown', None, None)]

    def param_dict(self, p):
        """the dictionaries written by the parameter loop"""
        if not hasattr(self, '_pd'):
            case = Case('plain', 'foo', ['self', 'foo', 'target_device_idx', 'precision'])
            P, ps = self.run(case)
            self._pd = {x[1][1] for lid, st, how, n in P.iterations for x in self.seg(st, lid) if x[0] == 'store' and x[1][0] == 'i' and x[1][1][0] == 'dict' and case.isvalue(x[2])}
        return self._pd or None

    def tagged(self, case):
        P, ps = self.run(case)
        seen = False
        for p in ps:
            if p.how == 'raise' or p.exceptional or not self.outer(p):
                continue
            st = self.obj_stores(p)
            if not st:
                self.bad('object-lost', 'tag', p.node, 'build_objects(): an object with a tag is not restored')
                continue
            seen = True
            i, v, n = st[-1]
            if not (v[0] == 'call' and callee(v) == 'restore'):
                self.bad('tag', 'restore', n, f'build_objects(): an object with a tag becomes {show(v)[:60]} instead of being restored')
                continue
            fn = arg(v, 0, 'filename')
            if fn is None or not mentions(fn, lambda q: q == ('c', 'tag')) or not mentions(fn, lambda q: q == ('c', 'class')):
                self.bad('tag', 'file', n, 'build_objects(): an object with a tag is not restored from the file of that class and tag')
            d = arg(v, 1, 'target_device_idx')
            if d is None or not mentions(d, lambda q: q == ('c', 'target_device_idx')):
                self.bad('tag', 'device', n, 'build_objects(): an object with a tag is not restored on the device of the object')
            for a, want in (('name', self.iskey), ('tag', lambda q: mentions(q, lambda z: z == ('c', 'tag')))):
                s = [x for x in p.stores(a) if x[1][1] == v or has_attr(x[1][1], 'objs')]
                if not s or not want(s[-1][2]):
                    self.bad('object-name', f'tag:{a}', n, f'build_objects(): a restored object does not get its {a}')

    # -- order, merging --------------------------------------------------------
    def order(self):
        f = self.ix.find_method('Simul', 'build_order')
        if f is None:
            raise AnalysisBroken('Simul.build_order not found')
        P = Paths(self.ix, 'Simul', depth=8)
        ps = P.run(f)
        self.n['paths'] += len(ps)
        app = False
        for p in ps:
            for i, v, n in p.calls('append'):
                a = v[2][0] if v[2] else ('c', None)
                if a[0] == 'elem' and a[1] == ('v', 'params') or a == ('v', 'key') or mentions(a, lambda q: q[0] == 'elem' and q[1] == ('v', 'params')):
                    app = True
                    later = [w for j, w, _ in p.calls() if j > i and callee(w) in ('output_owner', 'split_output') and self.same_frame(p, i, j)]
                    if later:
                        self.bad('build-order', 'after', n, 'build_order(): an object is placed before the objects it refers to')
        if not app:
            self.bad('build-order', 'objects', f.node, 'build_order() does not place every object')
        # references are followed before the object is placed
        for name in ('foo_ref', 'foo_list_ref', 'foo_dict_ref'):
            c = Refs(name)
            ps = Paths(self.ix, 'Simul', depth=8, oracle=c.oracle, noinline=('output_owner', 'split_output')).run(f)
            self.n['paths'] += len(ps)
            ok = any(callee(v) in ('output_owner', 'split_output') for p in ps for i, v, n in p.calls())
            if not ok:
                self.bad('build-order', f'references:{name[4:]}', f.node, f'build_order() does not follow the references in {name[3:]} parameters')
            for p in ps:
                own = [v for i, v, n in p.calls() if callee(v) in ('output_owner', 'split_output')]
                new = [t for a, t in p.conds.items() if a[0] == 'cmp' and a[1] == 'in' and own and mentions(a[2], lambda q: q in own)]
                rec = [v for i, v, n in p.calls() if v[1][0] == 'lfn' and mentions(v[2], lambda q: q in own)]
                if own and False in new and not rec and p.how == 'return':
                    self.bad('build-order', f'recursion:{name[4:]}', f.node, 'build_order(): an object that is referred to is not placed first')

    def tag(self, s, ps):
        for p in ps:
            p.scen = s
        return ps

    def same_frame(self, p, i, j):
        return [l[0] for l in p.loops_at(i)] == [l[0] for l in p.loops_at(j)][:len(p.loops_at(i))] and len(p.loops_at(j)) == len(p.loops_at(i)) + 1

    def merging(self):
        f = self.ix.find_method('Simul', 'combine_params')
        if f is None:
            raise AnalysisBroken('Simul.combine_params not found')
        ps = [p for s in (Merge(None), Merge(2), Merge(1), Merge(3)) for p in self.tag(s, Paths(self.ix, 'Simul', oracle=s.oracle, noinline=('remove_inputs',)).run(f))]
        self.n['paths'] += len(ps)
        VALS = lambda q: q[0] == 'i' and q[1] == ('v', 'additional_params')
        kinds = {}
        ISP = lambda q: q == ('v', 'params') or q[0] == 'phi' and q[2] == 'params' or q[0] == 'call' and callee(q) == 'remove_inputs'
        for p in ps:
            if not any(x[0] == 'loop' and mentions(x[2], lambda q: q == ('v', 'additional_params')) for x in p.trace):
                continue
            idx = [p.scen.idx in (None, 2)]
            rem = [t for a, t in p.conds.items() if a[0] == 'cmp' and a[1] == '==' and mentions(a, lambda q: q == ('c', 'remove'))]
            ovr = [t for a, t in p.conds.items() if a[0] == 'call' and callee(a) == 'endswith' and a[2][:1] == (('c', '_override'),)]
            up = [(v, n) for i, v, n in p.calls('update') if mentions(recv(v) or ('c', 0), ISP)]
            add = [x for x in p.stores() if x[1][0] == 'i' and ISP(x[1][1])]
            dl = [x for x in p.trace if x[0] == 'del' and ISP(x[1][1])] + p.calls('pop')
            ri = p.calls('remove_inputs')
            effect = up or add or dl or ri
            if any(x[0] == 'endloop' and x[2] == 'break' for x in p.trace):
                self.bad('merge', 'break', p.node, 'combine_params(): entries after some one are ignored')
            if False in idx:
                if effect or p.how == 'raise':
                    self.bad('merge', 'index', p.node, 'combine_params(): an entry for another simulation index is applied')
                continue
            if p.how == 'raise':
                continue
            if True in rem:
                if any(x[0] == 'loop' and mentions(x[2], VALS) for x in p.trace):
                    kinds['remove'] = True
                    if not dl:
                        self.bad('merge', 'remove', p.node, 'combine_params(): an object to remove is kept')
                    if not ri:
                        self.bad('merge', 'remove-inputs', p.node, 'combine_params(): connections to a removed object are kept')
            elif True in ovr:
                kinds['override'] = True
                if not any(u[0][2] and mentions(u[0][2][0], VALS) for u in up) and not any(mentions(x[2], VALS) for x in p.stores()):
                    self.bad('merge', 'override', p.node, 'combine_params(): an override is not applied')
                if add and not up:
                    for x in add:
                        if VALS(x[2]):
                            self.bad('merge', 'override-replaces', x[3], 'combine_params(): an override replaces all the parameters of the object')
            elif False in rem and False in ovr:
                kinds['add'] = True
                if not any(VALS(x[2]) for x in add) and not up:
                    self.bad('merge', 'add', p.node, 'combine_params(): an additional object is lost')
                free = [t for a, t in p.conds.items() if a[0] == 'cmp' and a[1] == 'in' and ISP(a[3])]
                if add and True in free:
                    self.bad('merge', 'add-replaces', add[0][3], 'combine_params(): an object of the first file is silently replaced')
        for k in ('remove', 'override', 'add'):
            if k not in kinds:
                self.bad('merge', f'{k}:missing', f.node, f'combine_params() has no path for {k}')
        f = self.ix.find_method('Simul', 'apply_overrides')
        if f is None:
            raise AnalysisBroken('Simul.apply_overrides not found')
        ps = Paths(self.ix, 'Simul').run(f)
        self.n['paths'] += len(ps)
        for p in ps:
            if p.how != 'return' or not any(x[0] == 'loop' for x in p.trace):
                continue
            st = [x for x in p.stores() if x[1][0] == 'i' and mentions(x[1], lambda q: q == ('v', 'params'))]
            if not st:
                if not p.stores() and not p.calls('update') and not p.calls('setdefault'):
                    self.bad('merge', 'overrides', p.node, 'apply_overrides(): some override is ignored')
                continue
            for x in st:
                if not (x[2][0] == 'i' and x[2][2][0] == 'elem' or x[2][0] == 'elem' or mentions(x[2], lambda q: q[0] == 'elem')):
                    self.bad('merge', 'overrides-value', x[3], f'apply_overrides() sets {show(x[2])[:60]}')

    # -- files -------------------------------------------------------------------
    def files(self):
        ci = self.ix.classes.get('CalibManager')
        if ci is None:
            raise AnalysisBroken('CalibManager not found')
        d = {}
        for n in ast.walk(ci.node):
            if isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and isinstance(k.value, str) and isinstance(v, ast.Constant) and isinstance(v.value, str):
                        d[k.value] = v.value.strip('/')
        self.res.floor('calibration_directories', len(d), 20)
        dos = {c.name for c in self.ix.subclasses('BaseDataObj') if self.ix.find_method(c.name, 'restore') is not None}
        n = 0
        SPECIAL = {}
        for c in self.ix.subclasses('BaseProcessingObj'):
            f = self.ix.find_method(c.name, '__init__')
            for p in f.node.args.args + f.node.args.kwonlyargs if f else []:
                if p.arg == 'data_dir':
                    n += 1
                    if c.name not in d:
                        self.res.add('no-directory', c.name, f'{f.module.rel}:{f.node.lineno}', f'{c.name} takes a data_dir, but CalibManager has no directory for it')
            # a calibrator writes where the objects it produces are read
        for c in self.ix.subclasses('BaseProcessingObj'):
            f = c.methods.get('__init__')
            for p in f.node.args.args + f.node.args.kwonlyargs if f else []:
                t, many = self.dtype(p.annotation, dos)
                if not t or c.module.rel.count('/') < 2:
                    continue
                n += 1
                where = f'{f.module.rel}:{p.lineno}'
                if many:
                    if not any(x in d for x in t):
                        self.res.add('no-directory', f'{c.name}.{p.arg}', where, f'{c.name}: {p.arg}_object cannot be loaded, CalibManager has no directory for {sorted(t)[0]}')
                    continue
                if p.arg not in d:
                    self.res.add('no-directory', f'{c.name}.{p.arg}', where, f'{c.name}: {p.arg}_object cannot be loaded, CalibManager has no directory for it')
        # calibrators and consumers agree
        for cal, names in sorted(self.producers(dos).items()):
            for t in sorted(names) if cal in d else ():
                pars = [x for x in sorted(self.consumers(t)) if x in d]
                n += 1
                if pars and not any(d[x] == d[cal] for x in pars):
                    self.res.add('directory-mismatch', f'{cal}:{t}', ci.module.rel, f'{cal} saves its {t} in {d[cal]}, but the parameters of that type ({", ".join(pars)}) are read from {d[pars[0]]}')
        self.n['directories'] = n

    def dtype(self, ann, dos):
        if ann is None:
            return set(), False
        src = ann.value if isinstance(ann, ast.Constant) and isinstance(ann.value, str) else None
        if src:
            try:
                ann = ast.parse(src, mode='eval').body
            except SyntaxError:
                return set(), False
        names = {n.id for n in ast.walk(ann) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(ann) if isinstance(n, ast.Attribute)}
        many = bool({'list', 'dict', 'List', 'Dict'} & names)
        return names & dos, many

    def consumers(self, t):
        if not hasattr(self, '_cons'):
            self._cons = {}
            dos = {c.name for c in self.ix.subclasses('BaseDataObj')}
            for c in self.ix.subclasses('BaseProcessingObj'):
                f = c.methods.get('__init__')
                for p in f.node.args.args + f.node.args.kwonlyargs if f else []:
                    for x in self.dtype(p.annotation, dos)[0]:
                        self._cons.setdefault(x, set()).add(p.arg)
        return self._cons.get(t, set())

    def producers(self, dos):
        """calibrator class -> data classes it constructs and saves"""
        out = {}
        for c in self.ix.subclasses('BaseProcessingObj'):
            f = self.ix.find_method(c.name, '__init__')
            if f is None or 'data_dir' not in [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]:
                continue
            saved = {ast.unparse(n.func.value) for m in c.methods.values() for n in ast.walk(m.node)
                     if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'save'}
            made = {n.value.func.id for m in c.methods.values() for n in ast.walk(m.node)
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in dos
                    and ast.unparse(n.targets[0]) in saved}
            if made:
                out[c.name] = made
        return out


def run(ix, tier):
    res = Result()
    r = Rule(ix, res)
    r.parameters()
    r.objects()
    r.order()
    r.merging()
    r.files()
    res.floor('paths_analysed', r.n['paths'], 300)
    res.floor('parameter_cases', r.n['cases'], 40)
    res.floor('parameter_iterations', r.n['iterations'], 60)
    res.stats['directories'] = r.n.get('directories')
    res.assumptions = ['the YAML reader delivers the file as written']
    return res
