"""Calibration files rule.  For every class that computes a calibration and
saves it (constructor with data_dir and overwrite), the paths of __init__,
setup, finalize and post_trigger are pruned by a configuration (directory, tags,
overwrite, existence of the files) and the names of the files they test and
save are folded to constants: each result goes to one file of its own directly
under data_dir, named after its tag, in a directory made before, never
replacing a file unless overwrite is set.  The save() methods of the data
classes pass that permission on to the first write of the file."""
import ast
import os

from ..conc import Conc, UNK
from ..paths import Paths, TooMany, callee as callee_, recv, walk, show, mentions
from ..report import Result

SELF = ('v', 'self')
NOIN = ('cpuArray', 'seconds_to_t', 'make_tn', 'generate_rec', 'generate_rec_mmse', 'restore')


def callee(v):
    f = callee_(v)
    return f.split('.')[-1] if f else f


def at(name):
    return ('a', SELF, name)


class Calib(Conc):
    def __init__(self, params, exists=False, attrs=None):
        self.params = params
        self.exists = exists
        self.attrs = attrs or {}

    def elements(self, it):
        if it[0] == 'i' and it[1] in (at('local_inputs'), at('inputs'), at('outputs')) and it[2][0] == 'c' and 'list' in str(it[2][1]):
            return [('elem', it, 0), ('elem', it, 1)]
        if it[0] == 'call' and callee(it) == 'range':
            r = self(it)
            return [('c', x) for x in r] if isinstance(r, list) and len(r) <= 3 else None
        if it[0] in ('v', 'a'):
            r = self(it)
            if isinstance(r, list) and len(r) <= 3:
                return [('i', it, ('c', i)) for i in range(len(r))]
        return None

    def leaf(self, v):
        k = v[0]
        if k == 'v' and v[1] in self.params:
            return self.params[v[1]]
        if k == 'a':
            if v[1] == SELF and v[2] in self.attrs:
                return self.attrs[v[2]]
            if v[2] == 'value' and mentions(v[1], lambda q: q in (at('local_inputs'), at('inputs'))):
                return 'VAL'
        if k == 'op' and v[1] == '/':
            a, b = self(v[2]), self(v[3])
            return os.path.join(a, b) if isinstance(a, str) and isinstance(b, str) else UNK
        if k == 'call':
            f = callee(v)
            xs = [self(x) for x in v[2]]
            if f in ('exists', 'isfile', 'lexists', 'is_file'):
                return self.exists
            if f in ('join', 'joinpath', 'Path', 'PurePath', 'str', 'fspath', 'normpath', 'expanduser', 'dirname', 'basename', 'split', 'splitext'):
                r = recv(v) if v[1][0] == 'a' else None
                if r is not None and r[0] not in ('v',) and not (r[0] == 'a' and r[2] == 'path') or r is not None and isinstance(self(r), str):
                    b = self(r)
                    if f == 'joinpath':
                        xs = [b] + xs
                    elif f == 'join' and isinstance(b, str) and xs and isinstance(xs[0], list):
                        return b.join(xs[0]) if all(isinstance(x, str) for x in xs[0]) else UNK
                    else:
                        return super().c_call(v)
                if f == 'str' and len(xs) == 1 and isinstance(xs[0], (int, str)):
                    return str(xs[0])
                if not xs or not all(isinstance(x, str) for x in xs) or v[3]:
                    return UNK
                if f in ('join', 'joinpath', 'Path', 'PurePath'):
                    return os.path.join(*xs)
                if f in ('str', 'fspath', 'expanduser'):
                    return xs[0]
                r = getattr(os.path, f)(xs[0])
                return list(r) if isinstance(r, tuple) else r
            if f == 'make_tn':
                return 'TN'
            if f == 'range' and len(xs) == 1 and isinstance(xs[0], int):
                return list(range(xs[0]))
            if f == 'len' and len(v[2]) == 1:
                es = self.elements(v[2][0])
                if es is not None:
                    return len(es)
            if f == 'isinstance' and len(v[2]) == 2 and v[2][1] in (('v', 'str'), ('fn', 'str')):
                return isinstance(xs[0], str) if xs[0] is not UNK else UNK
        if k == 'a' and v[2] in ('parent', 'name', 'suffix', 'stem'):
            b = self(v[1])
            if isinstance(b, str):
                return {'parent': os.path.dirname(b), 'name': os.path.basename(b), 'suffix': os.path.splitext(b)[1], 'stem': os.path.splitext(os.path.basename(b))[0]}[v[2]]
        return UNK


class Rule:
    def __init__(self, ix, res):
        self.ix, self.res = ix, res
        self.hidden = {}        # classes testing names that were not found
        self.n = {'paths': 0, 'saves': 0, 'undecided': 0, 'classes': [], 'configs': 0, 'data_classes': 0, 'too_many': 0}

    def run(self, cls, meth, c):
        f = self.ix.find_method(cls, meth)
        ps = []
        for kw in ({}, {'inline': lambda f: f.name == '__init__'}):
            try:
                ps = Paths(self.ix, cls, noinline=NOIN + ('save',), oracle=c.oracle, elements=c.elements, **kw).run(f)
                break
            except TooMany:
                self.n['too_many'] += 1
        self.n['paths'] += len(ps)
        return [p for p in ps if not p.exceptional]

    def bad(self, rule, what, f, node, msg):
        self.res.add(rule, what, f'{f.module.rel}:{getattr(node, "lineno", None) or f.node.lineno}', msg)

    def attrs(self, p, c):
        out = dict(c.attrs)
        d = Calib(c.params, c.exists, out)
        for x in p.trace:
            if x[0] == 'store' and x[1][0] == 'a' and x[1][1] == SELF:
                if x[2] == ('tup', 'list', ()):
                    out[x[1][2]] = []
                    continue
                r = d(x[2])
                if r is UNK:
                    out.pop(x[1][2], None)
                else:
                    out[x[1][2]] = r
            elif x[0] == 'call' and callee(x[1]) == 'append' and recv(x[1]) is not None and x[1][2]:
                b = recv(x[1])
                if b[0] == 'a' and b[1] == SELF and isinstance(out.get(b[2]), list):
                    r = d(x[1][2][0])
                    out[b[2]] = out[b[2]] + [r]
        return out

    def saves(self, cls, meth, c):
        """paths of a method, the save() of the class itself inlined"""
        f = self.ix.find_method(cls, meth)
        try:
            ps = Paths(self.ix, cls, noinline=NOIN, oracle=c.oracle, elements=c.elements, inline=self.inl(cls)).run(f)
        except TooMany:
            self.n['too_many'] += 1
            ps = []
        self.n['paths'] += len(ps)
        return [p for p in ps if not p.exceptional]

    def moving(self, cls):
        """attributes assigned at run time: their first value says nothing"""
        return {n.attr for k in self.ix.mro(cls) for m, f in k.methods.items() if m != '__init__' for n in ast.walk(f.node)
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self'}

    def inl(self, cls):
        own = {f.node for k in self.ix.mro(cls) for f in k.methods.values()}
        return lambda f: f.node in own or f.cls is None

    def configs(self, cls, ps):
        tags = [p for p in ps if 'tag' in p and 'template' not in p and 'pupdata' not in p]
        tmpl = [p for p in ps if 'template' in p]
        for data in ('D', '/D'):
            for auto in ((False, True) if tmpl else (False,)):
                for ow in (False, True):
                    par = {'data_dir': data, 'overwrite': ow, 'n_inputs': 2, 'nmodes': 3, 'target_device_idx': -1, 'precision': 0, 'save_on_exit': True, 'mmse': False,
                           'display_debug': False, 'noise_cov': None, 'dt': None, 'verbose': 0}
                    par = {k: v for k, v in par.items() if k in ps}
                    for i, t in enumerate(tags):
                        par[t] = 'auto' if auto else ['T0', 'T1'] if 'n_inputs' in ps and t == 'im_tag' else f'T_{t}'
                    for t in tmpl:
                        par[t] = f'M_{t}' if auto else None
                    for p in ps:
                        if p.endswith('first_mode'):
                            par[p] = 0
                    yield par, auto
                    for t in tags if not auto and not ow else ():
                        yield dict(par, **{t: None}), True

    def calibrator(self, cls):
        init = self.ix.find_method(cls, '__init__')
        a = init.node.args
        ps = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        if 'data_dir' not in ps or 'overwrite' not in ps:
            return
        self.n['classes'].append(cls)
        kinds = {}
        for par, auto in self.configs(cls, ps):
            self.n['configs'] += 1
            c = Calib(par)
            inits = self.run(cls, '__init__', c)
            done = set()
            tested, saved = {}, {}
            for p in inits:
                if p.how == 'raise':
                    continue
                moving = self.moving(cls)
                at0 = {k: v for k, v in self.attrs(p, c).items() if not (isinstance(v, (int, float)) and k in moving)}
                key = repr(sorted((k, v) for k, v in at0.items() if isinstance(v, (str, list, bool, int)) or v is None))
                if key in done:
                    continue
                done.add(key)
                d = Calib(par, False, at0)
                self.tests(p, Calib(par, False, at0), tested, init)
                for meth in ('setup', 'finalize', 'post_trigger'):
                    f = self.ix.find_method(cls, meth)
                    if f is None or f.cls.name in ('BaseProcessingObj',):
                        continue
                    some = False
                    for q in self.saves(cls, meth, d):
                        self.tests(q, d, tested, f)
                        n = self.path(cls, meth, f, q, d, par, saved)
                        some |= n > 0
                        if meth == 'finalize' and q.how == 'return' and not any('tag' in k and 'template' not in k and v is None for k, v in par.items()):
                            kinds.setdefault('final', []).append((n, q, f))
            full = {os.path.normpath(x) for x in saved}
            for t, (node, f) in tested.items():
                if full and os.path.normpath(t) not in full:
                    self.bad('tested', f'{cls}', f, node, f'{cls}: with data_dir={par["data_dir"]!r} the existence of {t} is tested, but the files saved are {sorted(saved)}')
            for t, (node, f) in saved.items() if tested and not self.hidden.get(cls) and 'VAL' not in str(saved) else ():
                if os.path.normpath(t) not in {os.path.normpath(x) for x in tested} and 'None' not in t and 'TN' not in t:
                    self.bad('tested', f'{cls}:{f.name}', f, node, f'{cls}: {t} is saved with data_dir={par["data_dir"]!r}, but only {sorted(tested)} are tested for existence')
            # an existing file, no permission to replace it
            if tested and not par['overwrite']:
                e = Calib(par, True)
                if any(t[1] is init for t in tested.values()) and any(p.how == 'return' for p in self.run(cls, '__init__', e)):
                    self.bad('exists', f'{cls}', init, None, f'{cls}: a file that exists is not refused at construction without overwrite')
            if tested and par['overwrite']:
                e = Calib(par, True)
                if not any(p.how == 'return' for p in self.run(cls, '__init__', e)):
                    self.bad('exists', f'{cls}:overwrite', init, None, f'{cls}: an existing file is refused although overwrite is set')
        fin = kinds.get('final', [])
        if fin and any(n for n, q, f in fin):
            for n, q, f in fin:
                if n == 0:
                    self.bad('saved', f'{cls}.finalize', f, q.node, f'{cls}.finalize(): a path ends without saving the result')

    def tests(self, p, d, tested, f):
        for i, v, n in p.calls():
            if callee(v) in ('exists', 'isfile', 'lexists') and v[2]:
                r = d(v[2][0])
                if isinstance(r, str):
                    tested.setdefault(r, (n, f))
                else:
                    self.hidden[f.cls.name] = True
        for c in p.conds:
            for q in walk(c):
                if q and q[0] == 'call' and callee(q) in ('exists', 'isfile', 'lexists') and q[2]:
                    r = d(q[2][0])
                    if isinstance(r, str):
                        tested.setdefault(r, (None, f))

    def path(self, cls, meth, f, p, d, par, saved):
        made, mine, n = [], {}, 0
        d = Calib(par, d.exists, dict(d.attrs))
        for x in p.trace:
            if x[0] == 'store' and x[1][0] == 'a' and x[1][1] == SELF:
                r = d(x[2])
                if r is UNK:
                    d.attrs.pop(x[1][2], None)
                else:
                    d.attrs[x[1][2]] = r
            if x[0] != 'call':
                continue
            v, node = x[1], x[2]
            g = callee(v)
            if g in ('makedirs', 'mkdir'):
                r = d(v[2][0]) if v[2] else d(recv(v)) if recv(v) is not None else UNK
                made.append(r)
            if g != 'save' or recv(v) is None or recv(v) == SELF or not (v[2] or dict(v[3]).get('filename')):
                continue
            n += 1
            self.n['saves'] += 1
            kw = dict(v[3])
            name = d(v[2][0] if v[2] else kw['filename'])
            ow = v[2][1] if len(v[2]) > 1 else kw.get('overwrite')
            what = f'{cls}.{meth}'
            if ow is None:
                self.bad('overwrite', what, f, node, f'{what}(): saves without passing overwrite on')
            else:
                r = d(ow)
                if r is UNK or r != par['overwrite']:
                    self.bad('overwrite', what, f, node, f'{what}(): saves with overwrite={show(ow)}, the object was built with overwrite={par["overwrite"]}')
            if not isinstance(name, str):
                self.n['undecided'] += 1
                continue
            saved[name] = (node, f)
            parts = os.path.normpath(name).strip('/').split('/')
            here = os.path.isabs(name) == os.path.isabs(par['data_dir'])
            if parts[0] != 'D' or len(parts) != 2 or not here:
                self.bad('place', what, f, node, f'{what}(): with data_dir={par["data_dir"]!r} the result is saved as {name}')
            base = parts[-1]
            if not base.endswith('.fits') or base.endswith('.fits.fits'):
                self.bad('name', f'{what}:extension', f, node, f'{what}(): the result is saved as {name}')
            tags = [t for k, v2 in par.items() if 'tag' in k and 'pupdata' not in k and v2 not in (None, 'auto') for t in (v2 if isinstance(v2, list) else [v2])]
            if 'None' in base:
                self.bad('name', f'{what}:None', f, node, f'{what}(): a result without a tag is saved as {name}')
            elif not any(t in base for t in tags + ['VAL', 'TN']):
                self.bad('name', f'{what}:tag', f, node, f'{what}(): the result is saved as {name}, not under its tag')
            if name in mine:
                self.bad('name', f'{what}:shared', f, node, f'{what}(): two results are saved in the same file {name}')
            mine[name] = node
            dirn = os.path.dirname(os.path.normpath(name))
            if not any(m is UNK or isinstance(m, str) and os.path.normpath(m) == dirn for m in made):
                self.bad('directory', what, f, node, f'{what}(): {name} is saved, its directory was not made before')
        return n

    # -- the permission reaches the file ----------------------------------
    def data(self, cls):
        f = self.ix.classes[cls].methods.get('save')
        if f is None:
            return
        a = f.node.args
        ps = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        if 'overwrite' not in ps:
            return
        self.n['data_classes'] += 1
        for p in Paths(self.ix, cls, noinline=('cpuArray', 'get_fits_header')).run(f):
            if p.how != 'return' or p.exceptional:
                continue
            first = True
            for i, v, node in p.calls():
                g = callee(v)
                if g not in ('writeto', 'append') or g == 'append' and not (v[2] and v[2][0] == ('v', ps[1])):
                    continue
                ow = dict(v[3]).get('overwrite')
                if g == 'append' and first:
                    self.bad('permission', f'{cls}.save:append', f, node, f'{cls}.save(): adds to the file before it is created')
                if g == 'writeto':
                    if first and ow != ('v', 'overwrite'):
                        self.bad('permission', f'{cls}.save', f, node, f'{cls}.save(): the file is written with overwrite={show(ow) if ow else "the default"}')
                    if not mentions(v, lambda q: q == ('v', ps[1])):
                        self.bad('permission', f'{cls}.save:name', f, node, f'{cls}.save(): writes to another file than the one given')
                first = False
            if first:
                self.bad('permission', f'{cls}.save:nothing', f, p.node, f'{cls}.save(): a path writes no file')


def run(ix, tier):
    res = Result()
    r = Rule(ix, res)
    for c in sorted(ix.classes):
        if ix.is_sub(c, 'BaseProcessingObj') and ix.find_method(c, '__init__'):
            r.calibrator(c)
        if ix.is_sub(c, 'BaseDataObj'):
            r.data(c)
    n = r.n
    res.floor('calibrators', len(n['classes']), 6)
    res.floor('saves_followed', n['saves'], 20)
    res.stats.update(paths_analysed=n['paths'], configurations=n['configs'], data_classes=n['data_classes'], undecided_names=n['undecided'], methods_with_too_many_paths=n['too_many'], classes=n['classes'])
    res.assumptions = ['os.path.join and string operations are folded with the semantics of the host (POSIX)', 'tags contain no directory separator']
    return res
