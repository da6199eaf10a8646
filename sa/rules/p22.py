"""Recording rule.  The transition of a recorder over one step is read off the
control-flow paths of its trigger code (what it stores, what it saves, how its
counters change, as expressions of the state before the step); the transition
system so extracted is followed over the small states that decide it: time
before/after start, inputs unset/stale/fresh, downsampling factors, chunk sizes.
The writers and the loaders are compared for the layout of the files."""
import ast
import re
from collections import defaultdict

from ..conc import Conc, UNK
from ..index import AnalysisBroken
from ..paths import Paths, show, mentions, callee as callee_, recv, walk
from ..report import Result

SELF = ('v', 'self')
NOW = ('a', SELF, 'current_time')


def callee(v):
    f = callee_(v)
    return f.split('.')[-1] if f else f


def at(name):
    return ('a', SELF, name)


class Rec(Conc):
    """State of a recorder (attrs: values of its attributes) and of its inputs."""
    def __init__(self, attrs, items=None, keys=('a', 'b'), now=100):
        self.attrs = attrs
        self.items = items or {}
        self.keys = keys
        self.now = now

    def elements(self, it):
        if it in (at('local_inputs'), at('inputs'), at('storage')):
            return [('c', k) for k in self.keys]
        if it[0] == 'i' and it[1] == at('storage'):
            return None
        r = self(it)
        if isinstance(r, dict) and it[0] == 'a':
            return [('c', k) for k in r]
        return None

    def item(self, v):
        if v[0] == 'call' and callee(v) == 'get' and recv(v) in (at('local_inputs'), at('inputs')) and v[2]:
            v = ('i', recv(v), v[2][0])
        if v[0] == 'call' and callee(v) == 'get' and recv(v) is not None and recv(v)[0] == 'i' and recv(v)[1] == at('inputs'):
            v = recv(v)
        if v[0] == 'i' and v[1] in (at('local_inputs'), at('inputs')) and v[2][0] == 'c':
            return v[2][1]
        return None

    def leaf(self, v):
        if v == NOW or v == ('v', 't'):
            return self.now
        if v[0] == 'a' and v[1] == SELF and v[2] in self.attrs:
            return self.attrs[v[2]]
        if v in (at('local_inputs'), at('inputs')):
            return {k: k for k in self.keys}
        k = self.item(v)
        if k is not None and k in self.keys:
            x = self.items.get(k, 'fresh')
            return None if x is None else ('obj', k)
        if v[0] == 'call' and callee(v) == 'getattr' and len(v[2]) > 1 and v[2][1][0] == 'c':
            v = ('a', v[2][0], v[2][1][1])
        if v[0] == 'a' and v[2] == 'generation_time':
            k = self.item(v[1])
            if k is not None and k in self.keys:
                return self.now if self.items.get(k, 'fresh') == 'fresh' else self.now - 1
        if v[0] == 'call' and callee(v) == 'get' and recv(v) is not None and v[2]:
            b, x = self(recv(v)), self(v[2][0])
            if isinstance(b, dict) and x is not UNK:
                if x in b:
                    return b[x]
                return self(v[2][1]) if len(v[2]) > 1 else None
        if v[0] == 'call' and callee(v) == 'isinstance' and len(v[2]) == 2 and mentions(v[2][0], lambda q: q == at('storage')):
            return True
        if v[0] == 'call' and callee(v) == 'hasattr':
            return True
        return UNK

    def c_i(self, v):
        b = self(v[1])
        if isinstance(b, defaultdict):
            k = self(v[2])
            return UNK if k is UNK else b.get(k, b.default_factory())
        return super().c_i(v)


class Rule:
    def __init__(self, ix, res):
        self.ix = ix
        self.res = res
        self.n = {'paths': 0, 'steps': 0, 'decided': 0, 'undecided': 0}

    def fn(self, cls, meth):
        f = self.ix.find_method(cls, meth)
        if f is None:
            raise AnalysisBroken(f'{cls}.{meth} not found')
        return f

    def run(self, cls, meth, rec, noinline=()):
        self.f = self.fn(cls, meth)
        ps = Paths(self.ix, cls, noinline=('cpuArray', 'seconds_to_t') + tuple(noinline), oracle=rec.oracle, elements=rec.elements).run(self.f)
        self.n['paths'] += len(ps)
        return ps

    def bad(self, rule, what, node, msg):
        line = getattr(node, 'lineno', None) or self.f.node.lineno
        self.res.add(rule, what, f'{self.f.module.rel}:{line}', msg)

    def initial(self, cls):
        """attributes with a known initial value"""
        out = {}
        c = Conc()
        ps = self.run(cls, '__init__', Rec({}))
        for p in ps:
            if p.how != 'return':
                continue
            for i, lv, v, n in p.stores():
                if lv[0] != 'a' or lv[1] != SELF:
                    continue
                if v[0] == 'call' and callee(v) in ('defaultdict', 'Counter', 'OrderedDict', 'dict'):
                    if callee(v) == 'Counter' or v[2] == (('v', 'int'),):
                        out[lv[2]] = defaultdict(int)
                    elif not v[2]:
                        out[lv[2]] = {}
                    elif v[2][0][0] == 'lfn':
                        from ..paths import LOCALFN
                        b = getattr(LOCALFN[v[2][0][3]], 'body', None)
                        if isinstance(b, ast.Constant):
                            out[lv[2]] = defaultdict(lambda x=b.value: x)
                elif v == ('dict', ()):
                    out[lv[2]] = {}
                else:
                    x = c(v)
                    if x is not UNK and not isinstance(x, (dict, list)):
                        out[lv[2]] = x
        return out

    def after(self, p, rec):
        """attributes after the path, from the expressions it stored"""
        new = {k: (v.copy() if isinstance(v, dict) else v) for k, v in rec.attrs.items()}
        for i, lv, v, n in p.stores():
            if lv[0] == 'a' and lv[1] == SELF:
                if v[0] == 'call' and callee(v) == 'defaultdict' or v == ('dict', ()):
                    if isinstance(new.get(lv[2]), dict):
                        new[lv[2]].clear()
                    continue
                x = rec(v)
                if x is UNK:
                    new.pop(lv[2], None)
                else:
                    new[lv[2]] = x
            elif lv[0] == 'i' and lv[1][0] == 'a' and lv[1][1] == SELF and isinstance(new.get(lv[1][2]), dict):
                k, x = rec(lv[2]), rec(v)
                if k is not UNK and x is not UNK:
                    new[lv[1][2]][k] = x
        return new

    def one(self, ps):
        ps = [p for p in ps if p.how == 'return' and not p.exceptional]
        if len({tuple(x for x in p.trace if x[0] in ('call', 'store', 'del')) for p in ps}) != 1:
            self.n['undecided'] += 1
            return None
        self.n['decided'] += 1
        return ps[0]

    # -- what a path records -------------------------------------------------
    def stored_at(self, lv):
        """(key, index) when lv is an entry of the storage"""
        if lv[0] != 'i':
            return None
        b = lv[1]
        if b[0] == 'i' and b[1] == at('storage'):
            return b[2], lv[2]
        if b[0] == 'call' and callee(b) in ('setdefault', 'get') and recv(b) == at('storage') and b[2]:
            return b[2][0], lv[2]
        return None

    def events(self, p):
        out = []
        for x in p.trace:
            if x[0] == 'store':
                s = self.stored_at(x[1])
                if s:
                    out.append(('sample', s[0], s[1], x[2], x[3]))
                elif x[1] == at('storage'):
                    out.append(('reset', x[3]))
                elif x[1][0] == 'a' and x[1][2] == 'value' and mentions(x[1], lambda q: q[0] == 'a' and len(q) == 3 and q[2] in ('outputs', 'buffered_outputs')):
                    out.append(('emit', x[3]))
            elif x[0] == 'call':
                f = callee(x[1])
                if f == 'update' and recv(x[1]) is not None and x[1][2] and x[1][2][0][0] == 'dict':
                    for k, v in x[1][2][0][1]:
                        s = self.stored_at(('i', recv(x[1]), k))
                        if s:
                            out.append(('sample', s[0], s[1], v, x[2]))
                elif f == 'clear' and recv(x[1]) == at('storage') or f == 'init_storage':
                    out.append(('reset', x[2]))
                elif f == 'save' and recv(x[1]) == SELF:
                    out.append(('save', x[2]))
                elif f in ('create_TN_folder', 'makedirs', 'mkdir'):
                    out.append(('folder', x[2]))
                elif f == 'emit_buffered_data':
                    out.append(('emit', x[2]))
                elif f == 'trigger_code':
                    out.append(('trigger', x[2]))
        return out

    def private(self, v, key):
        """a copy of the value of input `key`"""
        if not mentions(v, lambda q: q[0] == 'call' and callee(q) == 'get_value' and self.keyof(recv(q)) == key):
            return 'is not the value of the input'
        for q in walk(v):
            if isinstance(q, tuple) and q and q[0] == 'call':
                f, kw = callee(q), dict(q[3])
                if not mentions(q[2], lambda z: z[0] == 'call' and callee(z) == 'get_value') and not (recv(q) is not None and mentions(recv(q), lambda z: z[0] == 'call' and callee(z) == 'get_value')):
                    continue
                if f == 'cpuArray' and (kw.get('force_copy') == ('c', True) or q[2][-1:] == (('c', True),)):
                    return None
                if f in ('copy', 'deepcopy', 'array', 'tolist') and kw.get('copy') != ('c', False):
                    return None
        return 'is not a copy of the value of the input'

    def keyof(self, v):
        return Rec({}).item(v) if v is not None else None

    # -- DataStore -------------------------------------------------------------
    def store_steps(self):
        cls = 'DataStore'
        init = self.initial(cls)
        for a in ('iter_counter',):
            if a in init and init[a] != 0:
                self.bad('chunks', 'iter_counter', None, f'DataStore.{a} does not start from 0')
        no = ('create_TN_folder', 'save')
        base = dict(init, start_time=50, split_size=0, downsample_factor=1, downsample_factor_by_input={}, first_suffix=0)
        # which samples
        for start, when in ((50, 'after'), (100, 'at'), (150, 'before')):
            for kind in ('fresh', 'stale', None):
                rec = Rec(dict(base, start_time=start), {'a': kind, 'b': 'fresh'})
                p = self.one(self.run(cls, 'trigger_code', rec, no))
                if p is None:
                    continue
                ev = self.events(p)
                for k in 'ab':
                    want = when != 'before' and rec.items[k] == 'fresh'
                    got = [e for e in ev if e[0] == 'sample' and rec(e[1]) == k]
                    self.sample(cls, k, rec.items[k], when, want, got, rec)
        # downsampling: sequences of samples
        for fac, by in ((1, {}), (2, {}), (3, {}), (1, {'a': 2}), (1, {'a': 3, 'b': 2})):
            attrs = dict(base, downsample_factor=fac, downsample_factor_by_input=by)
            count = {'a': 0, 'b': 0}
            for j in range(8):
                kinds = {'a': 'fresh', 'b': 'fresh' if j % 2 == 0 else 'stale'}
                rec = Rec(attrs, kinds, now=100 + j)
                p = self.one(self.run(cls, 'trigger_code', rec, no))
                self.n['steps'] += 1
                if p is None:
                    break
                ev = self.events(p)
                for k in 'ab':
                    if kinds[k] != 'fresh':
                        continue
                    n = by.get(k, fac)
                    want = count[k] % n == 0
                    count[k] += 1
                    got = any(e[0] == 'sample' and rec(e[1]) == k for e in ev)
                    if got != want:
                        self.bad('downsampling', f'DataStore:{"kept" if got else "lost"}', p.node, f'DataStore with downsampling 1 of {n}: sample number {count[k]} of an input is {"stored" if got else "not stored"}')
                attrs = self.after(p, rec)
            # the additional trigger at the end sees the last sample again
            else:
                if fac > 1 and not by:
                    self.again(cls, attrs, count, fac, no)
        # chunks
        for split in (0, 1, 2, 3):
            attrs = dict(base, split_size=split)
            for j in range(7):
                rec = Rec(attrs, now=100 + j)
                p = self.one(self.run(cls, 'trigger_code', rec, no))
                self.n['steps'] += 1
                if p is None:
                    break
                names = [e[0] for e in self.events(p)]
                want = split > 0 and (j + 1) % split == 0
                if ('save' in names) != want:
                    self.bad('chunks', f'DataStore:{"early" if not want else "missing"}', p.node, f'DataStore with chunks of {split}: {"a" if not want else "no"} chunk is saved after {j + 1} iterations')
                elif want:
                    self.chunk(cls, names, p)
                elif 'reset' in names:
                    self.bad('lost', 'DataStore:reset', p.node, 'DataStore forgets the stored samples without saving them')
                attrs = self.after(p, rec)
        # start time
        st = [v for p in self.run(cls, '__init__', Rec({})) for i, lv, v, n in p.stores('start_time')]
        if st and not any(mentions(v, lambda q: q == ('v', 'start_time')) for v in st):
            self.bad('start-time', 'DataStore', None, 'DataStore: start_time is not the one given')
        elif st and not all(mentions(v, lambda q: q[0] == 'call' and callee(q) == 'seconds_to_t') or not mentions(v, lambda q: q == ('v', 'start_time')) for v in st):
            self.bad('start-time', 'DataStore:units', None, 'DataStore: start_time (seconds) is not converted to the time unit of the simulation')

    def again(self, cls, attrs, count, fac, no):
        """repeat the last time: the decision on its sample must not change"""
        now = 107
        rec = Rec(attrs, {'a': 'fresh', 'b': 'stale'}, now=now)
        p = self.one(self.run(cls, 'trigger_code', rec, no))
        if p is None:
            return
        got = any(e[0] == 'sample' and rec(e[1]) == 'a' for e in self.events(p))
        want = (count['a'] - 1) % fac == 0
        if got and not want:
            self.bad('downsampling', 'DataStore:again', p.node, 'DataStore: the additional trigger of finalize() stores a sample that downsampling had left out')

    def sample(self, cls, k, kind, when, want, got, rec):
        state = {'fresh': 'refreshed', 'stale': 'not refreshed', None: 'unset'}[kind]
        if bool(got) != want:
            self.bad('samples', f'{cls}:{kind}:{when}', got[0][4] if got else None, f'{cls}: an input that is {state} is {"stored" if got else "not stored"} {when} the start time')
            return
        if len(got) > 1:
            self.bad('samples', f'{cls}:twice', got[1][4], f'{cls}: a sample is stored more than once')
        for e in got:
            if cls == 'DataStore' and e[2] != NOW:
                self.bad('time', cls, e[4], f'{cls}: a sample is stored under {show(e[2])} instead of the time of the step')
            why = self.private(e[3], k)
            if why:
                self.bad('value', cls, e[4], f'{cls}: what is stored {why}')

    def chunk(self, cls, names, p):
        i = names.index('save')
        if names.count('save') > 1:
            self.bad('chunks', f'{cls}:twice', p.node, f'{cls}: a chunk is saved more than once')
        if 'folder' not in names[:i]:
            self.bad('directory', cls, p.node, f'{cls}: a chunk is saved without a directory of its own')
        if 'reset' not in names[i:]:
            self.bad('chunks', f'{cls}:reset', p.node, f'{cls}: the samples of a chunk that was saved are kept for the next one')
        if 'reset' in names[:i]:
            self.bad('lost', f'{cls}:reset', p.node, f'{cls}: the samples of a chunk are forgotten before being saved')
        if 'sample' in names[i:]:
            self.bad('lost', f'{cls}:sample', p.node, f'{cls}: a sample is stored after its chunk was saved and forgotten')

    def store_end(self):
        cls = 'DataStore'
        for split in (0, 2, 3):
            for tn in (True, False):
                n = 7
                rec = Rec(dict(split_size=split, create_tn=tn, storage={'a': {1: 1}}, iter_counter=n, first_suffix=0, current_time=100))
                ps = [p for p in self.run(cls, 'finalize', rec, ('create_TN_folder', 'save', 'trigger_code')) if p.how == 'return']
                for p in ps[:1] if self.one(ps) is not None else []:
                    names = [e[0] for e in self.events(p)]
                    k = 'all' if split == 0 else 'last chunk'
                    if names.count('save') != 1:
                        self.bad('end', f'DataStore:{k}', p.node, f'DataStore: at the end, the samples stored ({k}) are saved {names.count("save")} times')
                        continue
                    i = names.index('save')
                    if 'folder' not in names[:i]:
                        self.bad('directory', 'DataStore:end', p.node, 'DataStore: at the end, samples are saved without creating the directory')
                    if 'trigger' in names[i:]:
                        self.bad('end', 'DataStore:trigger', p.node, 'DataStore: at the end, the last samples are read after saving')

    def folder(self):
        ps = [p for p in self.run('DataStore', 'create_TN_folder', Rec({})) if p.how == 'return']
        made = False
        for p in ps:
            m = p.calls('makedirs') + p.calls('mkdir')
            st = p.stores('tn_dir')
            if not m:
                if st and not any(x[0] == 'endloop' and x[2] == 'next' for x in p.trace):
                    self.bad('directory', 'create_TN_folder', p.node, 'create_TN_folder(): a directory is used without being created')
                continue
            made = True
            i, v, n = m[-1]
            d = v[2][0] if v[2] else recv(v)
            new = [a for a, t in p.conds.items() if t is False and a[0] == 'call' and callee(a) in ('exists', 'isdir', 'lexists') and (d in a[2] or recv(a) == d)]
            if not new and dict(v[3]).get('exist_ok') == ('c', True):
                self.bad('directory', 'create_TN_folder:new', n, 'create_TN_folder(): a directory that exists already is used again')
            if st and st[-1][2] != d:
                self.bad('directory', 'create_TN_folder:used', n, f'create_TN_folder(): creates {show(d)} but uses {show(st[-1][2])}')
            if not st:
                self.bad('directory', 'create_TN_folder:unused', n, 'create_TN_folder(): the directory created is not the one used')
            if d is not None and not mentions(d, lambda q: q == ('v', 'suffix')) and d[0] != 'phi' and not mentions(d, lambda q: q[0] == 'phi'):
                self.bad('directory', 'create_TN_folder:suffix', n, 'create_TN_folder(): the suffix of the chunk is not part of the name of the directory')
        if not made:
            self.bad('directory', 'create_TN_folder:never', None, 'create_TN_folder() does not create a directory')

    # -- files -------------------------------------------------------------------
    def files(self):
        self.layout = {}
        for fmt, want in (('fits', 'writeto'), ('pickle', 'dump'), ('other', None)):
            rec = Rec(dict(data_format=fmt, replay_params=None, params={}))
            ps = self.run('DataStore', 'save', rec, ('save_params', 'update_header_with_storage_metadata', 'get_fits_header'))
            if want is None:
                if any(p.how == 'return' for p in ps):
                    self.bad('files', 'save:format', None, 'DataStore.save() ignores an unknown file format')
                continue
            for p in ps:
                if p.how != 'return' or p.exceptional:
                    continue
                w = [(i, v, n) for i, v, n in p.calls() if callee(v) in ('writeto', 'dump', 'save', 'savez', 'tofile', 'write') and mentions(v, lambda q: q == at('storage'))]
                for k in 'ab':
                    mine = [(v, n) for i, v, n in w if mentions(v, lambda q: self.column(q, k, 'values'))]
                    if len(mine) != 1:
                        self.bad('files', f'save:{fmt}', p.node, f'DataStore.save() ({fmt}): the samples of an input go to {len(mine)} files')
                        continue
                    v, n = mine[0]
                    if not mentions(v, lambda q: self.column(q, k, 'keys')):
                        self.bad('files', f'save:{fmt}:times', n, f'DataStore.save() ({fmt}): the times of the samples are not saved with them')
                    if any(mentions(v, lambda q: self.column(q, o, what)) for o in 'ab' if o != k for what in ('keys', 'values')):
                        self.bad('files', f'save:{fmt}:mixed', n, f'DataStore.save() ({fmt}): the samples of different inputs are mixed in one file')
                    if not mentions(v, lambda q: q[0] in ('op', 'fstr', 'call') and self.named(q, k)):
                        self.bad('files', f'save:{fmt}:name', n, f'DataStore.save() ({fmt}): the file is not named after the input')
                    self.times(v, k, n, fmt)
                    if fmt == 'fits':
                        h = [q for q in walk(v) if isinstance(q, tuple) and q and q[0] == 'call' and callee(q) == 'HDUList' and q[2] and q[2][0][0] == 'tup']
                        if h:
                            for j, x in enumerate(h[0][2][0][2]):
                                self.layout[('fits', 'values' if mentions(x, lambda q: self.column(q, k, 'values')) else 'keys')] = j
                    else:
                        for q in walk(v):
                            if isinstance(q, tuple) and q and q[0] == 'dict' and len(q) == 2 and q[1]:
                                for a, x in q[1]:
                                    for what in ('values', 'keys'):
                                        if a[0] == 'c' and mentions(x, lambda z: self.column(z, k, what)):
                                            self.layout[('pickle', what)] = a[1]
            self.n['decided'] += 1

    def column(self, q, k, what):
        """storage[k].values() / .keys() (or the dictionary iterated)"""
        b = ('i', at('storage'), ('c', k))
        if q[0] == 'call' and len(q) == 4 and callee(q) in (what, 'items') and recv(q) == b:
            return True
        if what == 'keys' and q[0] == 'call' and callee(q) in ('list', 'tuple', 'array', 'sorted', 'fromiter') and q[2][:1] == (b,):
            return True
        return False

    def named(self, q, k):
        if q[0] == 'fstr':
            return ('c', k) in q[2]
        if q[0] == 'op' and q[1] in ('+', '%', '/'):
            return ('c', k) in q[2:]
        if q[0] == 'call':
            return callee(q) in ('join', 'format', 'with_suffix', 'joinpath') and any(x == ('c', k) for x in q[2])
        return False

    def times(self, v, k, n, fmt):
        for q in walk(v):
            if isinstance(q, tuple) and q and q[0] == 'call' and len(q) == 4 and mentions(q[2], lambda z: self.column(z, k, 'keys')):
                dt = dict(q[3]).get('dtype')
                if callee(q) == 'astype' and q[2]:
                    dt = q[2][0]
                if dt is None and callee(q) in ('array', 'asarray', 'fromiter') and len(q[2]) > 1:
                    dt = q[2][1]
                if dt is not None and not re.search(r"u?int(32|64)?\b|'u?i8'", show(dt)):
                    self.bad('integer-times', fmt, n, f'DataStore.save() ({fmt}): the times of the samples are saved as {show(dt)}, not as integers')

    def loaders(self):
        for fmt, meth in (('fits', 'load_fits'), ('pickle', 'load_pickle')):
            rec = Rec({})
            ok = False
            for p in self.run('DataSource', meth, rec):
                if p.how != 'return':
                    continue
                for i, lv, v, n in p.stores():
                    if lv[0] == 'i' and lv[1] == at('storage'):
                        if lv[2] != ('v', 'name'):
                            self.bad('load', f'{fmt}:name', n, f'DataSource.{meth}(): the samples are stored under {show(lv[2])}, not under their name')
                        self.pairs(v, fmt, meth, n)
                        ok = True
            if not ok:
                self.bad('load', fmt, None, f'DataSource.{meth}() does not store the samples')
            rec = Rec(dict(data_format=fmt, items={}, storage={}), keys=())
            for p in self.run('DataSource', 'loadFromFile', rec, ('load_fits', 'load_pickle')):
                if p.how == 'return' and not [c for c in p.calls(meth)]:
                    self.bad('load', f'{fmt}:format', p.node, f'DataSource: {fmt} files are not read by {meth}()')

        rec = Rec(dict(data_format='fits', items={}, storage={'dup': {}}), keys=())
        leaf = rec.leaf
        rec.leaf = lambda v: 'dup' if v == ('v', 'name') else leaf(v)
        if any(p.how == 'return' for p in self.run('DataSource', 'loadFromFile', rec, ('load_fits', 'load_pickle'))):
            self.bad('load', 'duplicate', None, 'DataSource accepts two outputs of the same name')

    def pairs(self, v, fmt, meth, n):
        if v[0] == 'call' and callee(v) in ('dict', 'OrderedDict') and v[2] and v[2][0][0] == 'call' and callee(v[2][0]) == 'zip' and len(v[2][0][2]) == 2:
            k, x = v[2][0][2]
        elif v[0] == 'comp' and v[1] == 'dict' and v[2][0] == 'tup':
            k, x = v[2][2]
            if v[4]:
                self.bad('load', f'{fmt}:filter', n, f'DataSource.{meth}(): only some of the samples are loaded')
        else:
            self.n['undecided'] += 1
            return
        for val, what, name in ((k, 'keys', 'times'), (x, 'values', 'values')):
            want = self.layout.get((fmt, what))
            got = set()
            for q in walk(val):
                if not (isinstance(q, tuple) and q):
                    continue
                if fmt == 'fits' and q[0] == 'a' and q[2] == 'data' and q[1][0] == 'i' and q[1][2][0] == 'c':
                    got.add(q[1][2][1])
                if fmt == 'pickle' and q[0] == 'i' and q[2][0] == 'c' and isinstance(q[2][1], str):
                    got.add(q[2][1])
            if what == 'values':
                # the position comes from the times
                other = self.layout.get((fmt, 'keys'))
                got = got - {other} if want in got else got
            if want is not None and got and got != {want}:
                self.bad('load', f'{fmt}:{name}', n, f'DataSource.{meth}(): the {name} are read from {sorted(map(str, got))}, where DataStore puts them in {want}')
            self.n['decided'] += 1

    def source(self):
        for ka in (True, False):
            rec = Rec(dict(storage={'a': {100: 'x'} if ka else {99: 'x'}, 'b': {100: 'y'}}))
            p = self.one(self.run('DataSource', 'trigger_code', rec))
            if p is None:
                continue
            for k, there in (('a', ka), ('b', True)):
                out = ('i', at('outputs'), ('c', k))
                sv = [(i, v, n) for i, v, n in p.calls('set_value') if recv(v) == out] + [(i, v, n) for i, lv, v, n in p.stores('value') if lv[1] == out]
                gt = [(i, v, n) for i, lv, v, n in p.stores('generation_time') if lv[1] == out]
                node = sv[0][2] if sv else p.node
                if bool(sv) != there or bool(gt) != there:
                    self.bad('replay', 'there' if there else 'missing', node, 'DataSource: an output is ' + ('not refreshed at a time for which there is a sample' if there else 'refreshed at a time for which there is no sample'))
                    continue
                for i, v, n in sv:
                    cell = [q for q in walk(v) if isinstance(q, tuple) and q and (q[0] == 'i' and q[1] == ('i', at('storage'), ('c', k)) or q[0] == 'call' and callee(q) in ('get', 'pop') and recv(q) == ('i', at('storage'), ('c', k)))]
                    ts = [q[2] if q[0] == 'i' else q[2][0] for q in cell]
                    if not ts:
                        self.bad('replay', 'value', n, 'DataSource: the value given is not the one stored for this output')
                    elif any(t != NOW for t in ts):
                        self.bad('replay', 'time', n, f'DataSource: the value given is that of {show(ts[0])}, not of the current time')
                for i, v, n in gt:
                    if v != NOW:
                        self.bad('replay', 'stamp', n, f'DataSource: the time stamp of an output is {show(v)}, not the current time')

    # -- DataBuffer ------------------------------------------------------------------
    def buffer(self):
        cls = 'DataBuffer'
        init = self.initial(cls)
        for size in (1, 3):
            attrs = dict(init, buffer_size=size)
            pos = set()
            for j in range(7):
                rec = Rec(attrs, {'a': 'fresh', 'b': [None, 'stale', 'fresh'][j % 3]}, now=100 + j)
                p = self.one(self.run(cls, 'trigger_code', rec, ('emit_buffered_data',)))
                self.n['steps'] += 1
                if p is None:
                    break
                ev = self.events(p)
                names = [e[0] for e in ev]
                for k in 'ab':
                    got = [e for e in ev if e[0] == 'sample' and rec(e[1]) == k]
                    self.sample(cls, k, rec.items[k], 'after', rec.items[k] == 'fresh', got, rec)
                    for e in got:
                        x = rec(e[2])
                        if k == 'a' and x is not UNK and x in pos:
                            self.bad('lost', f'{cls}:position', e[4], f'{cls}: a sample replaces another one of the same buffer')
                        pos.add(x)
                want = (j + 1) % size == 0
                if ('emit' in names) != want:
                    self.bad('buffer', f'{cls}:{"missing" if want else "early"}', p.node, f'{cls} of {size} steps: the samples are {"not " if want else ""}emitted after {j + 1} steps')
                elif want:
                    i = names.index('emit')
                    if 'reset' in names[:i] or 'sample' in names[i:]:
                        self.bad('lost', f'{cls}:order', p.node, f'{cls}: samples are forgotten without being emitted')
                    if 'reset' not in names[i:]:
                        self.bad('buffer', f'{cls}:reset', p.node, f'{cls}: the samples emitted are kept for the next buffer')
                    pos = set()
                elif 'reset' in names:
                    self.bad('lost', f'{cls}:reset', p.node, f'{cls}: samples are forgotten without being emitted')
                attrs = self.after(p, rec)
        # the rest, at the end
        for n in (1, 2):
            rec = Rec(dict(init, buffer_size=3, step_counter=n, storage={'a': {0: 1}}))
            for p in self.run(cls, 'finalize', rec, ('emit_buffered_data',)):
                if p.how == 'return' and 'emit' not in [e[0] for e in self.events(p)]:
                    self.bad('end', cls, p.node, f'{cls}: the samples accumulated are not emitted at the end')
        # what is emitted
        rec = Rec(dict(buffered_outputs={'a_buffered': 1, 'b_buffered': 1}, outputs={'a_buffered': 1, 'b_buffered': 1}, storage={'a': {0: 1}, 'b': {0: 1}}))
        p = self.one(self.run(cls, 'emit_buffered_data', rec))
        if p is not None:
            for k in 'ab':
                mine = [(lv, v, n) for i, lv, v, n in p.stores() if lv[0] == 'a' and lv[1][0] == 'i' and rec(lv[1][2]) == k + '_buffered'] + [
                    (('a', recv(v), 'value'), v, n) for i, v, n in p.calls('set_value') if recv(v)[0] == 'i' and rec(recv(v)[2]) == k + '_buffered']
                val = [(v, n) for lv, v, n in mine if lv[2] == 'value']
                gt = [(v, n) for lv, v, n in mine if lv[2] == 'generation_time']
                if not val:
                    self.bad('emit', f'{cls}:value', p.node, f'{cls}: the samples of an input are not put in its output')
                elif not mentions(val[-1][0], lambda q: self.column(q, k, 'values')) or any(mentions(val[-1][0], lambda q: q[0] == 'slice') for _ in (1,)):
                    self.bad('emit', f'{cls}:samples', val[-1][1], f'{cls}: the output of an input is {show(val[-1][0])}, not all its samples')
                if not gt or gt[-1][0] != NOW:
                    self.bad('emit', f'{cls}:stamp', p.node, f'{cls}: the time stamp of the output is not the current time')


def run(ix, tier):
    res = Result()
    r = Rule(ix, res)
    r.store_steps()
    r.store_end()
    r.folder()
    r.files()
    r.loaders()
    r.source()
    r.buffer()
    res.floor('paths_analysed', r.n['paths'], 60)
    res.floor('obligations_decided', r.n['decided'], 20)
    res.stats.update(steps_followed=r.n['steps'], undecided=r.n['undecided'])
    res.assumptions = ['the value returned by get_value() is the content of the data object (P09, P21)', 'writing a file succeeds']
    return res
