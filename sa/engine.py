"""Abstract interpreter over the repository's syntax trees.

A value abstracts: the set of storage locations it may alias (allocation
sites, named inputs, constructor parameters, ...), the set of kinds (classes /
builtin kinds) it may have, a bounded symbolic provenance and, when known, a
constant.  Methods and functions of the repository are inlined (by class
hierarchy resolution, bounded depth); external calls use a model table.  At
merge points the alias environment is joined; the monitor state is kept
disjunctively (property simulation) together with the branch facts that
separate the alternatives.
"""
import ast
import builtins
from .index import Index, dotted, AnalysisBroken

EMPTY = frozenset()
NOCONST = object()
UNK = ('?',)
MAXDEPTH = 14
MAXSYM = 60


def symsize(s):
    if isinstance(s, tuple):
        return 1 + sum(symsize(x) for x in s)
    if isinstance(s, frozenset):
        return 1 + sum(symsize(x) for x in s)
    return 1


def mk(*a):
    n = 0
    for x in a:
        n += symsize(x)
        if n > MAXSYM:
            return UNK
    return tuple(a)


class Val:
    __slots__ = ('locs', 'kinds', 'sym', 'const', 'fn')

    def __init__(self, locs=EMPTY, kinds=EMPTY, sym=UNK, const=NOCONST, fn=None):
        self.locs = locs
        self.kinds = kinds
        self.sym = sym
        self.const = const
        self.fn = fn

    def may_none(self):
        return 'None' in self.kinds

    def __eq__(self, o):
        return (isinstance(o, Val) and self.locs == o.locs and self.kinds == o.kinds and self.sym == o.sym
                and const_eq(self.const, o.const) and self.fn is o.fn)

    __hash__ = None

    def with_(self, **kw):
        v = Val(self.locs, self.kinds, self.sym, self.const, self.fn)
        for k, x in kw.items():
            setattr(v, k, x)
        return v

    def __repr__(self):
        return f'Val(locs={set(self.locs)}, kinds={set(self.kinds)}, sym={self.sym}, const={"-" if self.const is NOCONST else self.const!r})'


def const_eq(a, b):
    if a is NOCONST or b is NOCONST:
        return a is b
    return type(a) is type(b) and a == b


NONE = Val(kinds=frozenset(['None']), sym=('const', 'None'), const=None)
UNKNOWN = Val()


def constval(c):
    k = 'None' if c is None else type(c).__name__
    try:
        hash(c)
        s = ('const', repr(c))
    except TypeError:
        s = UNK
    return Val(kinds=frozenset([k]), sym=s, const=c)


def symjoin(a, b):
    if a == b:
        return a
    A = a[1] if a and a[0] == 'phi' else frozenset([a])
    B = b[1] if b and b[0] == 'phi' else frozenset([b])
    S = A | B
    if len(S) > 6:
        return UNK
    return ('phi', S)


def join(a, b):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    # unknown kinds (empty) absorb
    if a.kinds and b.kinds:
        kinds = a.kinds | b.kinds
    else:
        kinds = (a.kinds | b.kinds) | frozenset(['?']) if (a.kinds or b.kinds) else EMPTY
    return Val(a.locs | b.locs, kinds, symjoin(a.sym, b.sym),
               a.const if const_eq(a.const, b.const) else NOCONST,
               a.fn if a.fn is b.fn else (a.fn or b.fn))


def root(loc):
    while loc[0] == 'path':
        loc = loc[1]
    return loc


def locstr(loc):
    if loc[0] == 'path':
        return locstr(loc[1]) + '.' + loc[2]
    if loc[0] == 'in':
        return f"input '{loc[1]}'"
    if loc[0] == 'param':
        return f"parameter '{loc[1]}'"
    if loc[0] == 'new':
        return f'{loc[1]} object'
    if loc[0] == 'self':
        return 'self'
    if loc[0] in ('cls', 'mod'):
        return f'{loc[1]}.{loc[2]}'
    return loc[0]


class State:
    __slots__ = ('frames', 'heap', 'alts')

    def __init__(self, frames=None, heap=None, alts=None):
        self.frames = frames if frames is not None else [{}]
        self.heap = heap if heap is not None else {}
        self.alts = alts if alts is not None else frozenset()

    def copy(self):
        return State([dict(f) for f in self.frames[-1:]] if False else self.frames[:-1] + [dict(self.frames[-1])],
                     dict(self.heap), self.alts)

    @property
    def env(self):
        return self.frames[-1]


MAXALTS = 24


def merge_alts(alts):
    """ESP-style: alternatives with the same monitor state are merged,
    keeping only the branch facts they share."""
    by = {}
    for m, f in alts:
        if m in by:
            by[m] = by[m] & f
        else:
            by[m] = f
    if len(by) > MAXALTS:
        # drop facts altogether
        return frozenset((m, EMPTY) for m in by)
    return frozenset(by.items())


def join_states(a, b):
    if a is None:
        return b
    if b is None:
        return a
    frames = []
    n = min(len(a.frames), len(b.frames))
    for i in range(n):
        fa, fb = a.frames[i], b.frames[i]
        if fa is fb:
            frames.append(fa)
            continue
        f = {}
        for k in fa.keys() | fb.keys():
            va, vb = fa.get(k), fb.get(k)
            if va is None or vb is None:
                v = va or vb
                # possibly-unbound local: keep the bound one
                f[k] = v
            else:
                f[k] = va if va == vb else join(va, vb)
        frames.append(f)
    heap = {}
    diff = {}
    flags = []
    for k in a.heap.keys() | b.heap.keys():
        if k[1] == '$guard':
            continue
        va, vb = a.heap.get(k), b.heap.get(k)
        if va is None or vb is None:
            heap[k] = va or vb
        elif va is vb or va == vb:
            heap[k] = va
        else:
            heap[k] = j = join(va, vb)
            if isinstance(va.const, bool) and isinstance(vb.const, bool):
                flags.append((k, va.const))
            elif va.locs != vb.locs or va.kinds != vb.kinds:
                diff.setdefault(k[0], []).append((k[1], va, vb, j))
    # correlation of a boolean attribute with the aliases set alongside it
    for (l, fa), ca in flags:
        if l in diff:
            g = {ca: {n: (va, j) for n, va, vb, j in diff[l]}, (not ca): {n: (vb, j) for n, va, vb, j in diff[l]}}
            heap[(l, '$guard')] = Val(fn=('guard', fa, g))
    for st_ in (a, b):
        for k, v in st_.heap.items():
            if k[1] == '$guard' and k not in heap:
                heap[k] = v
    return State(frames, heap, merge_alts(a.alts | b.alts))


def same_state(a, b):
    return a is not None and b is not None and a.frames == b.frames and a.heap == b.heap and a.alts == b.alts


class Monitor:
    """Base class of the property monitors (all hooks optional)."""
    init = ()

    def on_write(self, eng, st, locs, node, how, val=None):
        pass

    def on_item(self, eng, st, locs, keys, val, node):
        pass

    def on_unset(self, eng, st, base, attr, node):
        pass

    def on_member(self, eng, st, locs, key, present):
        pass

    def on_delitem(self, eng, st, locs, key, node):
        pass

    def on_key(self, eng, st, base, key, node):
        pass

    def on_setattr(self, eng, st, base, attr, val, node):
        pass

    def on_attr_missing(self, eng, st, base, attr, classes, node):
        pass

    def on_attr(self, eng, st, base, attr, node):
        pass

    def on_none_deref(self, eng, st, base, node, what):
        pass

    def on_new(self, eng, st, cname, loc, args, kwargs, bound, node):
        pass

    def on_call(self, eng, st, name, recv, args, kwargs, node):
        pass

    def on_badcall(self, eng, st, fn, msg, node):
        pass

    def on_name_missing(self, eng, st, name, node):
        pass

    def on_enter(self, eng, st, fn, node):
        pass

    def on_compare(self, eng, st, op, a, b, node):
        pass

    def on_binop(self, eng, st, op, a, b, node):
        pass

    def on_load(self, eng, st, val, node):
        pass

    def on_except(self, eng, st, node):
        pass

    # models of external code supplied by a rule: a Val, or None for the default
    model = None


# ---- models of external functions -------------------------------------
VIEW_FUNCS = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'reshape', 'ravel', 'squeeze', 'transpose',
              'atleast_1d', 'atleast_2d', 'atleast_3d', 'broadcast_to', 'swapaxes', 'moveaxis', 'rollaxis',
              'expand_dims', 'real', 'imag', 'diagonal', 'flip', 'flipud', 'fliplr', 'rot90', 'require',
              'asfarray', 'frombuffer', 'as_strided', 'sliding_window_view', 'split', 'array_split', 'hsplit', 'vsplit'}
VIEW_METHODS = {'reshape', 'ravel', 'squeeze', 'transpose', 'view', 'swapaxes', 'diagonal'}
MUT_METHODS = {'fill', 'sort', 'resize', 'put', 'itemset', 'partition', 'setfield', 'byteswap!', 'set'}
VIEW_ATTRS = {'T', 'real', 'imag', 'flat', 'data', 'mT'}
SCALAR_ATTRS = {'shape', 'size', 'ndim', 'dtype', 'nbytes', 'itemsize', 'device'}
MUT_ARG0_FUNCS = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis', 'shuffle', 'heapify', 'heappush'}
# index of the positional output argument of array functions
UFUNC1 = {'negative', 'positive', 'abs', 'absolute', 'fabs', 'exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p', 'sqrt', 'cbrt', 'square', 'reciprocal',
          'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'floor', 'ceil', 'trunc', 'rint', 'fix', 'sign', 'conj', 'conjugate',
          'isnan', 'isinf', 'isfinite', 'logical_not', 'invert', 'deg2rad', 'rad2deg', 'radians', 'degrees', 'signbit'}
UFUNC2 = {'add', 'subtract', 'multiply', 'divide', 'true_divide', 'floor_divide', 'mod', 'remainder', 'fmod', 'power', 'float_power', 'maximum', 'minimum',
          'fmax', 'fmin', 'arctan2', 'hypot', 'logical_and', 'logical_or', 'logical_xor', 'bitwise_and', 'bitwise_or', 'bitwise_xor', 'left_shift',
          'right_shift', 'greater', 'greater_equal', 'less', 'less_equal', 'equal', 'not_equal', 'copysign', 'matmul', 'dot', 'outer', 'round', 'around', 'round_'}
OUT_POS = {**{f: 1 for f in UFUNC1}, **{f: 2 for f in UFUNC2}, 'clip': 3, 'cumsum': 3, 'cumprod': 3, 'sum': 3, 'mean': 3, 'prod': 3, 'std': 3, 'var': 3,
           'max': 2, 'min': 2, 'amax': 2, 'amin': 2, 'argmax': 2, 'argmin': 2, 'take': 3, 'compress': 3, 'nansum': 3, 'concatenate': 2}
ARITH = {'add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'hypot', 'logaddexp', 'maximum', 'minimum'}
INPLACE_DUNDER = {'__i' + x + '__' for x in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'and', 'or', 'xor', 'lshift', 'rshift', 'matmul')} | {'__setitem__', '__delitem__'}
INPLACE_OPERATOR = {'iadd', 'isub', 'imul', 'itruediv', 'ifloordiv', 'imod', 'ipow', 'iand', 'ior', 'ixor', 'ilshift', 'irshift', 'imatmul', 'iconcat', 'setitem', 'delitem'}
NP_ALLOC = {'zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'array', 'arange',
            'linspace', 'eye', 'identity', 'copy', 'where', 'stack', 'concatenate', 'hstack', 'vstack', 'dot', 'matmul',
            'exp', 'sin', 'cos', 'sqrt', 'abs', 'angle', 'repeat', 'tile', 'outer', 'meshgrid', 'linalg.inv',
            'interp', 'cumsum', 'nan_to_num', 'clip', 'round', 'multiply', 'add', 'subtract', 'divide'}
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__class__', '__doc__', '__spec__', '__package__'}
ARRAYK = frozenset(['ndarray'])


class Engine:
    def __init__(self, index, monitor, runtime_cls=None):
        self.ix = index
        self.mon = monitor
        self.cls = runtime_cls
        self.stack = []        # (Function, call node)
        self.budget = 400000
        self.summ = {}
        self.reports = []
        self.stats = {'functions': set(), 'calls': 0, 'writes': 0, 'truncated': 0}
        self.frame_id = 0
        self.reporting = True
        self.phase = None
        self.declared_inputs = {}
        self.cut = set()      # function quals not inlined
        self.intercepts = {}

    # ---------------------------------------------------------------- util
    def fn(self):
        return self.stack[-1][0] if self.stack else None

    def where(self, node):
        f = self.fn()
        if f is None:
            return '?'
        return f'{f.module.rel}:{getattr(node, "lineno", "?")}'

    def chain(self):
        return ' > '.join(f.qual for f, _ in self.stack)

    def site(self, node):
        f = self.fn()
        ctx = tuple((n.lineno, n.col_offset) for _, n in self.stack[-4:] if n is not None)
        # what a step allocates is not what the constructor or setup allocated with the same statement
        when = self.phase in ('step', 'trigger', 'post')
        return (f.module.rel if f else '?', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), getattr(node, 'end_lineno', 0), getattr(node, 'end_col_offset', 0), ctx, when)

    def fresh(self, node, kinds=ARRAYK, sym=UNK):
        return Val(frozenset([('arr', self.site(node))]), kinds, sym)

    def map_mon(self, st, f):
        st.alts = frozenset((f(m), fa) for m, fa in st.alts)

    # ---------------------------------------------------------------- class summaries
    def class_summary(self, cname):
        """attr -> kinds, from an abstract run of the class's constructor."""
        if cname in self.summ:
            return self.summ[cname]
        self.summ[cname] = {}
        if cname not in self.ix.classes:
            return {}
        sub = Engine(self.ix, Monitor(), cname)
        sub.summ = self.summ
        st = State([{}], {}, frozenset([((), EMPTY)]))
        loc = ('self',)
        me = Val(frozenset([loc]), frozenset([cname]))
        try:
            sub.run_method(st, me, cname, '__init__', symbolic=True)
        except RecursionError:
            pass
        res = {}
        for (l, k), v in st.heap.items():
            if l == loc:
                res[k] = v.kinds
        # attributes assigned in other methods (kinds unknown) stay absent
        multi = {}
        for c in self.ix.mro(cname):
            for mname, f in list(c.methods.items()) + list(c.setters.items()):
                if mname == '__init__':
                    continue
                ps = f.node.args.posonlyargs + f.node.args.args
                sn = ps[0].arg if ps else None
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == sn:
                        multi[n.attr] = True
        for k in multi:
            if k in res and (res[k] <= frozenset(['None'])):
                res[k] = EMPTY
        # objects stored in containers: element kinds
        self.summ[cname] = res
        return res

    # ---------------------------------------------------------------- running
    def param_val(self, name, annotation, default):
        kinds = set()
        known = False
        if annotation is not None:
            ks = self.ann_kinds(annotation)
            if ks:
                kinds |= ks
                known = True
        if default is not None:
            if isinstance(default, ast.Constant) and default.value is None:
                kinds.add('None')
                if not known:
                    kinds.add('?')
            elif isinstance(default, ast.Constant) and not known:
                kinds.add(type(default.value).__name__)
        if annotation is None and kinds <= {'None', '?'} and self.phase != 'fn':
            c = self.ix.param_classes()[0].get(name)
            if c:
                kinds = (kinds - {'?'}) | {c}
        if kinds and kinds <= {'int', 'float', 'str', 'bool', 'None'}:
            return Val(EMPTY, frozenset(kinds), ('param', name))
        return Val(frozenset([('param', name)]), frozenset(kinds), ('param', name))

    def ann_kinds(self, ann):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return set()
        if isinstance(ann, ast.Constant) and ann.value is None:
            return {'None'}
        d = dotted(ann)
        if d:
            n = d.split('.')[-1]
            if n in self.ix.classes:
                return {n}
            if n in ('int', 'float', 'str', 'bool', 'list', 'dict', 'tuple', 'set'):
                return {n}
            if n == 'ndarray':
                return {'ndarray'}
            return set()
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            a, b = self.ann_kinds(ann.left), self.ann_kinds(ann.right)
            return (a | b) if a and b else set()
        if isinstance(ann, ast.Subscript):
            n = (dotted(ann.value) or '').split('.')[-1]
            if n in ('List', 'list', 'Sequence'):
                return {'list'}
            if n in ('Dict', 'dict'):
                return {'dict'}
            if n in ('Tuple', 'tuple'):
                return {'tuple'}
            if n == 'Optional':
                a = self.ann_kinds(ann.slice)
                return a | {'None'} if a else set()
            if n == 'Union':
                els = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                r = set()
                for e in els:
                    a = self.ann_kinds(e)
                    if not a:
                        return set()
                    r |= a
                return r
        return set()

    def run_method(self, st, me, cname, meth, args=(), kwargs=None, symbolic=False):
        """Run a method on `me` in place; returns its Val or None when absent
        (st.alts becomes empty when every path raises)."""
        f = self.ix.find_method(cname, meth)
        if f is None:
            return None
        if symbolic:
            a = f.node.args
            pos = a.posonlyargs + a.args
            kwargs = dict(kwargs or {})
            defaults = dict(zip([p.arg for p in pos][len(pos) - len(a.defaults):], a.defaults))
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    defaults[p.arg] = d
            start = 0 if f.is_static else 1
            for p in pos[start:] + a.kwonlyargs:
                if p.arg not in kwargs:
                    kwargs[p.arg] = self.param_val(p.arg, p.annotation, defaults.get(p.arg))
        return self.call_function(st, f, ([] if f.is_static else [me]) + list(args), kwargs or {}, None)

    # ---------------------------------------------------------------- calls
    def bind(self, st, f, args, kwargs, node, env0=None):
        a = f.node.args
        pos = a.posonlyargs + a.args
        env = dict(env0 or {})
        names = [p.arg for p in pos]
        star_in = any(x is None for x in args)
        args = [x for x in args if x is not None]
        for n, v in zip(names, args):
            env[n] = v
        bound = set(names[:len(args)])
        if len(args) > len(names):
            if a.vararg is None and not star_in:
                self.mon.on_badcall(self, st, f, f'takes {len(names)} positional arguments but {len(args)} were given', node)
        if a.vararg:
            extra = args[len(names):]
            l = ('cont', 'tuple', self.site(node or f.node) + (a.vararg.arg,))
            env[a.vararg.arg] = Val(frozenset([l]), frozenset(['tuple']))
            for i, v in enumerate(extra):
                st.heap[(l, f'[{i}]')] = v
        kwn = {p.arg for p in a.kwonlyargs}
        starkw = '**' in kwargs
        for k, v in kwargs.items():
            if k == '**':
                continue
            if k in names or k in kwn:
                if k in bound:
                    self.mon.on_badcall(self, st, f, f"got multiple values for argument '{k}'", node)
                env[k] = v
                bound.add(k)
            elif a.kwarg is None:
                self.mon.on_badcall(self, st, f, f"got an unexpected keyword argument '{k}'", node)
        if a.kwarg:
            l = ('cont', 'dict', self.site(node or f.node) + (a.kwarg.arg,))
            env[a.kwarg.arg] = Val(frozenset([l]), frozenset(['dict']))
            for k, v in kwargs.items():
                if k != '**' and k not in names and k not in kwn:
                    st.heap[(l, f'[{k!r}]')] = v
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[p.arg] = d
        missing = []
        for n in names + [p.arg for p in a.kwonlyargs]:
            if n not in bound:
                if n in defs:
                    env[n] = self.default_val(st, f, n, defs[n])
                    if starkw or star_in:
                        env[n] = Val()
                else:
                    env[n] = Val()
                    if not starkw and not star_in:
                        missing.append(n)
        if missing:
            self.mon.on_badcall(self, st, f, f'missing required argument(s) {", ".join(missing)}', node)
        return env

    def default_val(self, st, f, n, d):
        if isinstance(d, ast.Constant):
            return constval(d.value)
        if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant):
            return constval(-d.operand.value)
        if isinstance(d, (ast.List, ast.Dict, ast.Set)) or (isinstance(d, ast.Call) and dotted(d.func) in ('list', 'dict', 'set')):
            k = 'list' if isinstance(d, ast.List) else 'dict' if isinstance(d, ast.Dict) else 'set'
            return Val(frozenset([('default', f.where, n)]), frozenset([k]))
        return Val()

    def call_function(self, st, f, args, kwargs, node, env0=None, collect_yield=False):
        """Inline f. Mutates st in place; returns joined return Val."""
        self.stats['calls'] += 1
        self.stats['functions'].add(f.where)
        if f.qual in self.intercepts:
            r = self.intercepts[f.qual](self, st, f, args, kwargs, node)
            if r is not None:
                return r
        env = self.bind(st, f, args, kwargs, node, env0)
        depth = len(self.stack)
        rec = sum(1 for g, _ in self.stack if g.node is f.node)
        if depth >= MAXDEPTH or rec >= 2 or self.budget <= 0:
            self.stats['truncated'] += 1
            return Val()
        self.enter_args = args
        self.enter_bound = env
        self.mon.on_enter(self, st, f, node)
        self.stack.append((f, node))
        st.frames = st.frames + [env]
        self.frame_id += 1
        env['$fid'] = constval(self.frame_id)
        if isinstance(f.node, ast.Lambda):
            v = self.eval(st, f.node.body)
            st.frames = st.frames[:-1]
            self.stack.pop()
            return v
        self_yields = []
        env['$yield'] = Val()
        out, exits = self.exec_block(st, f.node.body)
        memo = bool(getattr(f, 'decorators', None) and f.decorators & {'lru_cache', 'cache', 'cached_property', 'memoize'})
        rets = [(s, v) for kind, s, v in exits if kind == 'return']
        if out is not None:
            rets.append((out, NONE))
        self.stack.pop()
        if not rets:
            # every path raises
            st.alts = frozenset()
            st.frames = st.frames[:-1]
            self.dead(st)
            return Val()
        s, v = rets[0]
        for s2, v2 in rets[1:]:
            v = join(v, v2)
            s = join_states(s, s2)
        gen = f.is_generator if not isinstance(f.node, ast.Lambda) else False
        if gen:
            y = s.env.get('$yield')
            l = ('cont', 'list', self.site(node or f.node) + ('yield',))
            s.heap[(l, '[*]')] = y if y is not None else Val()
            v = Val(frozenset([l]), frozenset(['list']))
        if memo and 'cached_property' not in f.decorators:
            # a memoised result is shared by every later caller
            v = v.with_(locs=frozenset(('memo', f.where, str(l)) for l in v.locs), fn=None)
        st.frames = s.frames[:-1]
        st.heap = s.heap
        # drop facts about the callee's locals
        fid = env['$fid'].const
        st.alts = merge_alts(frozenset((m, frozenset(x for x in fa if x[2] == 0 or x[2] != fid)) for m, fa in s.alts))
        if not st.alts:
            self.dead(st)
        return v

    def dead(self, st):
        pass

    # ---------------------------------------------------------------- statements
    def exec_block(self, st, body):
        """Execute statements from st. Returns (fallthrough state or None, exits)."""
        exits = []
        cur = st
        for s in body:
            if cur is None:
                break
            if not cur.alts:
                return None, exits
            self.budget -= 1
            if self.budget <= 0:
                self.stats['truncated'] += 1
                return cur, exits
            cur, ex = self.exec_stmt(cur, s)
            exits.extend(ex)
        if cur is not None and not cur.alts:
            cur = None
        return cur, exits

    def exec_stmt(self, st, s):
        t = type(s)
        if t is ast.Expr:
            self.eval(st, s.value)
            return st, []
        if t is ast.Global:
            old = st.env.get('$globals')
            st.env['$globals'] = Val(const=(old.const if old is not None else ()) + tuple(s.names))
            return st, []
        if t is ast.Assign:
            v = self.eval(st, s.value)
            if v.fn is None and v.const is NOCONST and isinstance(s.value, (ast.Compare, ast.BoolOp, ast.UnaryOp)) \
                    and (v.kinds == frozenset(['bool']) or isinstance(s.value, ast.Compare)):
                fid = st.env.get('$fid')
                v = v.with_(fn=('cond', s.value, fid.const if fid is not None else -1))
            for tg in s.targets:
                self.assign(st, tg, v, s)
            return st, []
        if t is ast.AnnAssign:
            if s.value is not None:
                v = self.eval(st, s.value)
                self.assign(st, s.target, v, s)
            return st, []
        if t is ast.AugAssign:
            self.augassign(st, s)
            return st, []
        if t is ast.Return:
            v = self.eval(st, s.value) if s.value is not None else NONE
            return None, [('return', st, v)]
        if t is ast.If:
            return self.exec_if(st, s)
        if t in (ast.For, ast.AsyncFor):
            return self.exec_for(st, s)
        if t is ast.While:
            return self.exec_while(st, s)
        if t is ast.Raise:
            if s.exc is not None:
                self.eval(st, s.exc)
            return None, [('raise', st, None)]
        if t is ast.Try or t.__name__ == 'TryStar':
            return self.exec_try(st, s)
        if t in (ast.With, ast.AsyncWith):
            for it in s.items:
                v = self.eval(st, it.context_expr)
                if it.optional_vars is not None:
                    self.assign(st, it.optional_vars, v, s)
            return self.exec_block(st, s.body)
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            f = Function_nested(s, self.fn())
            st.env[s.name] = Val(kinds=frozenset(['func']), fn=('closure', f, st.env))
            return st, []
        if t is ast.Break:
            return None, [('break', st, None)]
        if t is ast.Continue:
            return None, [('continue', st, None)]
        if t in (ast.Import, ast.ImportFrom):
            self.local_import(st, s)
            return st, []
        if t is ast.Assert:
            tr, fa = self.branch(st, s.test)
            return tr, []
        if t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Subscript):
                    b = self.eval(st, tg.value)
                    k = None if isinstance(tg.slice, ast.Slice) else self.eval(st, tg.slice)
                    if k is not None and k.const is not NOCONST and len(b.locs) == 1:
                        (l,) = b.locs
                        st.heap.pop((l, f'[{k.const!r}]'), None)
                        self.mon.on_delitem(self, st, b.locs, k.const, s)
                    self.write(st, b, s, 'del item')
                elif isinstance(tg, ast.Attribute):
                    b = self.eval(st, tg.value)
                    if b.locs and b.locs != frozenset([('self',)]):
                        self.setattr(st, b, tg.attr, NONE, s)
            return st, []
        if t is ast.ClassDef:
            st.env[s.name] = Val(kinds=frozenset(['type']))
            return st, []
        if t is ast.Match:
            self.eval(st, s.subject)
            out, exits = None, []
            for c in s.cases:
                o, e = self.exec_block(st.copy(), c.body)
                out = join_states(out, o)
                exits += e
            out = join_states(out, st)
            return out, exits
        return st, []

    def local_import(self, st, s):
        m = self.fn().module
        if isinstance(s, ast.ImportFrom):
            base = s.module or ''
            for a in s.names:
                nm = a.asname or a.name
                if base == 'specula' or base.startswith('specula.'):
                    st.env[nm] = self.symbol_val(('from', base, a.name), m, nm)
                else:
                    st.env[nm] = Val(kinds=frozenset(['ext']), fn=('ext', base + '.' + a.name), sym=('ext', base + '.' + a.name))
        else:
            for a in s.names:
                nm = a.asname or a.name.split('.')[0]
                tgt = a.name if a.asname else a.name.split('.')[0]
                if tgt.split('.')[0] == 'specula':
                    st.env[nm] = Val(kinds=frozenset(['module']), fn=('repomod', tgt))
                else:
                    st.env[nm] = Val(kinds=frozenset(['module']), fn=('ext', tgt), sym=('ext', tgt))

    def exec_if(self, st, s):
        tr, fa = self.branch(st, s.test)
        out, exits = None, []
        if tr is not None:
            o, e = self.exec_block(tr, s.body)
            out = o
            exits += e
        if fa is not None:
            if s.orelse:
                o, e = self.exec_block(fa, s.orelse)
                exits += e
            else:
                o = fa
            out = join_states(out, o)
        return out, exits

    def loop_exits(self, exits):
        brk, cont, other = None, None, []
        for k, s, v in exits:
            if k == 'break':
                brk = join_states(brk, s)
            elif k == 'continue':
                cont = join_states(cont, s)
            else:
                other.append((k, s, v))
        return brk, cont, other

    def exec_for(self, st, s):
        it = self.eval(st, s.iter)
        others = []
        brks = None
        ev = self.element(st, it, s.iter)
        known = self.known_items(st, s.iter, it)
        if known is not None and len(known) <= 12:
            cur = st
            for kv in known:
                if cur is None:
                    break
                self.assign(cur, s.target, kv, s)
                o, e = self.exec_block(cur, s.body)
                b, c, oth = self.loop_exits(e)
                others += oth
                brks = join_states(brks, b)
                cur = join_states(o, c)
            out = cur
            if s.orelse and out is not None:
                out, e = self.exec_block(out, s.orelse)
                others += e
            return join_states(out, brks), others
        cur = st
        res = None
        for i in range(2):
            pre = cur.copy()
            self.assign(pre, s.target, ev, s)
            o, e = self.exec_block(pre, s.body)
            b, c, oth = self.loop_exits(e)
            others += oth
            brks = join_states(brks, b)
            nxt = join_states(o, c)
            if nxt is None:
                break
            res = join_states(res, nxt)
            cur = res.copy()
            ev = self.element(cur, it, s.iter)
        # loops over collections are taken to run at least once
        # (an iteration over an empty collection has no element to mishandle)
        out = res
        if out is None and brks is None:
            out = st if not others or True else None
        if s.orelse and out is not None:
            out, e = self.exec_block(out, s.orelse)
            others += e
        return join_states(out, brks), others

    def known_items(self, st, node, it):
        """Exact list of element values for small literal sequences."""
        if isinstance(node, (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in node.elts):
            return self.tuple_items(st, it)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('zip', 'enumerate'):
            return None
        if it.kinds <= frozenset(['list', 'tuple']) and it.kinds and len(it.locs) == 1:
            return self.tuple_items(st, it)
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ('items', 'keys', 'values'):
            return getattr(self, '_last_dict_items', None) and None
        return None

    def tuple_items(self, st, v):
        if len(v.locs) != 1:
            return None
        (l,) = v.locs
        if l[0] != 'cont' or (l, '[*]') in st.heap:
            return None
        items = []
        i = 0
        while (l, f'[{i}]') in st.heap:
            items.append(st.heap[(l, f'[{i}]')])
            i += 1
        if not items:
            return None
        return items

    def exec_while(self, st, s):
        others, brks = [], None
        out = None
        cur = st
        for i in range(2):
            tr, fa = self.branch(cur.copy(), s.test)
            out = join_states(out, fa)
            if tr is None:
                break
            o, e = self.exec_block(tr, s.body)
            b, c, oth = self.loop_exits(e)
            others += oth
            brks = join_states(brks, b)
            nxt = join_states(o, c)
            if nxt is None:
                break
            cur = nxt
        else:
            tr, fa = self.branch(cur.copy(), s.test)
            out = join_states(out, fa)
            if out is None and brks is None and tr is not None:
                # endless loop: left by an exception only
                others.append(('raise', tr, None))
        if s.orelse and out is not None:
            out, e = self.exec_block(out, s.orelse)
            others += e
        return join_states(out, brks), others

    def exec_try(self, st, s):
        pre = st.copy()
        o, e = self.exec_block(st, s.body)
        out = o
        exits = []
        raised = [x for x in e if x[0] == 'raise']
        exits += [x for x in e if x[0] != 'raise']
        if s.handlers:
            hs = pre
            if o is not None:
                hs = join_states(hs, o)
            for k, rs, v in raised:
                if len(rs.frames) == len(hs.frames):
                    hs = join_states(hs, rs)
            hs.alts = merge_alts(hs.alts | pre.alts)
            for h in s.handlers:
                h_st = hs.copy()
                self.mon.on_except(self, h_st, h)
                if h.name:
                    h_st.env[h.name] = Val(kinds=frozenset(['exception']))
                ho, he = self.exec_block(h_st, h.body)
                exits += he
                out = join_states(out, ho)
        else:
            exits += raised
        if s.orelse and o is not None:
            pass_st = out
            oo, oe = self.exec_block(out, s.orelse) if out is not None else (None, [])
            out = oo
            exits += oe
        if s.finalbody:
            if out is not None:
                out, fe = self.exec_block(out, s.finalbody)
                exits += fe
            newex = []
            for k, es, v in exits:
                fo, fe = self.exec_block(es.copy(), s.finalbody)
                if fo is not None:
                    newex.append((k, fo, v))
                newex += fe
            exits = newex
        return out, exits

    # ---------------------------------------------------------------- branching
    NEG = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}

    def branch(self, st, test):
        """Return (true state or None, false state or None)."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            a, b = self.branch(st, test.operand)
            return b, a
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And):
                cur, fout = st, None
                for v in test.values:
                    if cur is None:
                        break
                    t, f = self.branch(cur, v)
                    fout = join_states(fout, f)
                    cur = t
                return cur, fout
            cur, tout = st, None
            for v in test.values:
                if cur is None:
                    break
                t, f = self.branch(cur, v)
                tout = join_states(tout, t)
                cur = f
            return tout, cur
        if isinstance(test, ast.NamedExpr):
            v = self.eval(st, test)
            return self.split(st, ast.Name(id=test.target.id, ctx=ast.Load()), v)
        v = self.eval(st, test)
        return self.split(st, test, v)

    def split(self, st, test, v):
        if v.const is not NOCONST:
            try:
                return (st, None) if v.const else (None, st)
            except Exception:
                pass
        if v.kinds == frozenset(['None']):
            return None, st
        node, pol = test, True
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in self.NEG:
            node = ast.Compare(left=node.left, ops=[self.NEG[type(node.ops[0])]()], comparators=node.comparators)
            pol = False
        key, deps, fid = self.fact_key(st, node)
        t = st
        f = st.copy()
        if key is not None:
            ta, fa = [], []
            for m, fs in st.alts:
                known = None
                for (k, d, i, tv) in fs:
                    if k == key and i == fid:
                        known = tv
                        break
                if known is None:
                    ta.append((m, fs | {(key, deps, fid, pol)}))
                    fa.append((m, fs | {(key, deps, fid, not pol)}))
                elif known == pol:
                    ta.append((m, fs))
                else:
                    fa.append((m, fs))
            t.alts = frozenset(ta)
            f.alts = frozenset(fa)
        self.narrow(t, test, True)
        self.narrow(f, test, False)
        return (t if t.alts else None), (f if f.alts else None)

    def fact_key(self, st, node):
        """A stable key for a side-effect free condition over self attributes
        and locals; deps = names whose assignment invalidates it."""
        deps = set()
        fid = 0
        cur = st.env.get('$fid')
        for n in ast.walk(node):
            if isinstance(n, ast.Call):
                if dotted(n.func) in ('len', 'isinstance', 'hasattr', 'abs', 'float', 'int'):
                    continue
                return None, None, 0
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.Await, ast.NamedExpr, ast.GeneratorExp, ast.JoinedStr)):
                return None, None, 0
        def visit(n):
            nonlocal fid
            if isinstance(n, ast.Attribute):
                d = dotted(n)
                if d and d.split('.')[0] == 'self':
                    deps.add('self.' + d.split('.')[1])
                    return
                visit(n.value)
                deps.add('.' + n.attr)
                return
            if isinstance(n, ast.Name):
                if n.id in ('len', 'isinstance', 'hasattr', 'abs', 'float', 'int', 'True', 'False', 'None'):
                    return
                if n.id in self.fn().module.symbols and n.id not in st.env:
                    return
                deps.add(n.id)
                fid = cur.const if cur is not None else -1
                return
            for c in ast.iter_child_nodes(n):
                visit(c)
        visit(node)
        if 'self' in deps:
            deps.discard('self')
        selfv = st.env.get('self')
        sl = tuple(sorted(map(str, selfv.locs))) if selfv is not None else ()
        return (ast.unparse(node), sl), frozenset(deps), fid

    def invalidate(self, st, dep):
        if any(dep in d for m, fs in st.alts for (k, d, i, t) in fs):
            st.alts = frozenset((m, frozenset(x for x in fs if dep not in x[1])) for m, fs in st.alts)

    def narrow(self, st, test, truth):
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op, c = test.ops[0], test.comparators[0]
            if isinstance(c, ast.Constant) and c.value is None and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                isnone = isinstance(op, (ast.Is, ast.Eq)) == truth
                self.refine(st, test.left, (lambda ks: frozenset(['None'])) if isnone else (lambda ks: ks - {'None'}), isnone)
                return
            if isinstance(op, (ast.Is, ast.Eq)) and truth or isinstance(op, (ast.IsNot, ast.NotEq)) and not truth:
                # type(x) is C
                if isinstance(test.left, ast.Call) and dotted(test.left.func) == 'type' and test.left.args:
                    cn = (dotted(c) or '').split('.')[-1]
                    if cn in self.ix.classes or cn in ('list', 'tuple', 'dict', 'str', 'int', 'float', 'bool'):
                        self.refine(st, test.left.args[0], lambda ks: frozenset([cn]), False)
                return
            if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)) and isinstance(test.left, ast.Call) and dotted(test.left.func) == 'type' and test.left.args:
                cn = (dotted(c) or '').split('.')[-1]
                if cn in self.BUILTINS:
                    self.refine(st, test.left.args[0], lambda ks: (ks - {cn}) or (frozenset(['?']) if ks else ks), False)
                return
            if isinstance(op, (ast.In, ast.NotIn)):
                k = constval(test.left.value) if isinstance(test.left, ast.Constant) else self.peekval(st, test.left)
                d = self.peekval(st, c)
                if k is not None and d is not None and k.const is not NOCONST and d.locs:
                    self.mon.on_member(self, st, d.locs, k.const, isinstance(op, ast.In) == truth)
                return
        if isinstance(test, ast.Call) and dotted(test.func) == 'isinstance' and len(test.args) == 2:
            names = self.class_names(test.args[1])
            if names is None:
                return
            if truth:
                def fsel(ks):
                    keep = frozenset(k for k in ks if k in names or any(self.ix.is_sub(k, n) for n in names if n in self.ix.classes))
                    return keep if keep and '?' not in ks else frozenset(n for n in names)
                self.refine(st, test.args[0], fsel, False)
            else:
                def fsel2(ks):
                    r = frozenset(k for k in ks if not (k in names or any(self.ix.is_sub(k, n) for n in names if n in self.ix.classes)))
                    return r if ks else ks
                self.refine(st, test.args[0], fsel2, False)
            return
        if isinstance(test, (ast.Name, ast.Attribute, ast.Subscript)):
            if truth:
                self.refine(st, test, lambda ks: ks - {'None'}, False)
            if isinstance(test, ast.Attribute):
                self.apply_guard(st, test, truth)
            v = self.peek(st, test)
            if v is not None and v.fn and v.fn[0] == 'cond' and v.fn[1] is not test:
                self.narrow_cond(st, v.fn[1], v.fn[2], truth)
            return
        if isinstance(test, ast.Call) and dotted(test.func) == 'hasattr' and truth and len(test.args) == 2:
            # unknown afterwards: stop attribute checks on it
            a = test.args[1]
            if isinstance(a, ast.Constant):
                def h(ks):
                    keep = frozenset(k for k in ks if (hasattr(self.BUILTINS[k], a.value) if k in self.BUILTINS else
                                                       k not in self.ix.classes or a.value in self.ix.class_attr_universe(k)))
                    return keep or frozenset(['?'])
                self.refine(st, test.args[0], h, False)
            return

    def apply_guard(self, st, test, truth):
        b = self.peek(st, test.value)
        if b is None or len(b.locs) != 1:
            return
        (l,) = b.locs
        g = st.heap.get((l, '$guard'))
        if g is None or g.fn[1] != test.attr:
            return
        for attr, (v, j) in g.fn[2][truth].items():
            cur = st.heap.get((l, attr))
            if cur is not None and cur == j:
                st.heap[(l, attr)] = v

    def narrow_cond(self, st, ast_node, fid, truth):
        cur = st.env.get('$fid')
        names = {n.id for n in ast.walk(ast_node) if isinstance(n, ast.Name)}
        if (cur is not None and cur.const == fid) or names <= {'self', 'None'}:
            self.narrow_rec(st, ast_node, truth)

    def narrow_rec(self, st, test, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow_rec(st, test.operand, not truth)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == truth:
                for v in test.values:
                    self.narrow_rec(st, v, truth)
            return
        self.narrow(st, test, truth)

    def class_names(self, node):
        els = node.elts if isinstance(node, ast.Tuple) else [node]
        out = set()
        for e in els:
            d = dotted(e)
            if d is None:
                return None
            n = d.split('.')[-1]
            if n in self.ix.classes or n in ('list', 'tuple', 'dict', 'str', 'int', 'float', 'bool', 'ndarray', 'set'):
                out.add(n)
            else:
                return None
        return out

    def refine(self, st, target, f, tonone):
        if isinstance(target, ast.Name):
            v = st.env.get(target.id)
            if v is not None:
                st.env[target.id] = self.refv(v, f, tonone)
        elif isinstance(target, ast.Attribute):
            b = self.peek(st, target.value)
            if b is not None and len(b.locs) == 1:
                (l,) = b.locs
                v = self.getattr_raw(st, l, b, target.attr)
                if v is not None:
                    st.heap[(l, target.attr)] = self.refv(v, f, tonone)
        elif isinstance(target, ast.Subscript):
            k = target.slice
            b = self.peek(st, target.value)
            if b is not None and len(b.locs) == 1:
                (l,) = b.locs
                key = None
                if isinstance(k, ast.Constant):
                    key = f'[{k.value!r}]'
                elif isinstance(k, ast.Name):
                    kv = st.env.get(k.id)
                    if kv is not None and kv.const is not NOCONST:
                        key = f'[{kv.const!r}]'
                if key and (l, key) in st.heap:
                    st.heap[(l, key)] = self.refv(st.heap[(l, key)], f, tonone)
                elif isinstance(k, ast.Constant) and isinstance(k.value, int) and (l, '[*]') in st.heap:
                    # a test on the first element stands for the whole list
                    st.heap[(l, '[*]')] = self.refv(st.heap[(l, '[*]')], f, tonone)

    def refv(self, v, f, tonone):
        if tonone:
            return NONE
        ks = f(v.kinds)
        if v.const is None and v.const is not NOCONST:
            return v
        return v.with_(kinds=ks)

    def peek(self, st, node):
        """Evaluate a side-effect free access path without reporting."""
        if isinstance(node, ast.Name):
            return st.env.get(node.id)
        if isinstance(node, ast.Attribute):
            b = self.peek(st, node.value)
            if b is None or len(b.locs) != 1:
                return None
            (l,) = b.locs
            return self.getattr_raw(st, l, b, node.attr)
        return None

    # ---------------------------------------------------------------- assignment
    def assign(self, st, tg, v, node):
        if isinstance(tg, ast.Name):
            if '$globals' in st.env and tg.id in st.env['$globals'].const:
                self.mon.on_write(self, st, frozenset([('mod', self.fn().module.name, tg.id)]), node, 'global assignment', v)
            st.env[tg.id] = v
            self.invalidate(st, tg.id)
            if isinstance(v.const, bool):
                fid = st.env.get('$fid')
                self.add_fact(st, tg.id, tg.id, fid.const if fid is not None else -1, v.const)
            return
        if isinstance(tg, (ast.Tuple, ast.List)):
            items = self.tuple_items(st, v)
            n = len(tg.elts)
            if items is not None and len(items) == n and not any(isinstance(e, ast.Starred) for e in tg.elts):
                for e, iv in zip(tg.elts, items):
                    self.assign(st, e, iv, node)
            else:
                ev = self.element(st, v, node)
                for i, e in enumerate(tg.elts):
                    e2 = e.value if isinstance(e, ast.Starred) else e
                    self.assign(st, e2, ev.with_(sym=mk('item', v.sym, i)), node)
            return
        if isinstance(tg, ast.Attribute):
            b = self.eval(st, tg.value)
            self.setattr(st, b, tg.attr, v, node)
            return
        if isinstance(tg, ast.Subscript):
            b = self.eval(st, tg.value)
            k = self.eval(st, tg.slice) if not isinstance(tg.slice, ast.Slice) else self.eval_slice(st, tg.slice)
            self.setitem(st, b, tg.slice, k, v, node)
            return
        if isinstance(tg, ast.Starred):
            self.assign(st, tg.value, v, node)

    def setitem(self, st, b, slnode, k, v, node):
        if isinstance(slnode, ast.Slice) and b.kinds == frozenset(['list']):
            v = self.element(st, v, node)
        conts = [l for l in b.locs if l[0] == 'cont' or self.is_container(st, b)]
        if b.kinds & {'list', 'dict', 'tuple', 'set', 'defaultdict'}:
            for l in b.locs:
                if k.const is not NOCONST:
                    key = f'[{k.const!r}]'
                    if len(b.locs) == 1:
                        st.heap[(l, key)] = v
                    else:
                        st.heap[(l, key)] = join(st.heap.get((l, key)), v)
                else:
                    st.heap[(l, '[*]')] = join(st.heap.get((l, '[*]')), v)
            self.item_key = k
            self.mon.on_item(self, st, b.locs, [k.const if k.const is not NOCONST else '*'], v, node)
            self.mon.on_write(self, st, b.locs, node, 'container item store', v)
            return
        self.store_base = (b, k, slnode)
        self.write(st, b, node, 'item store', v)
        self.store_base = None

    def is_container(self, st, b):
        return bool(b.kinds & {'list', 'dict', 'tuple', 'set'})

    def write(self, st, b, node, how, v=None):
        self.stats['writes'] += 1
        self.mon.on_write(self, st, b.locs, node, how, v)

    def setattr(self, st, b, attr, v, node):
        cls = [k for k in b.kinds if k in self.ix.classes]
        for c in cls:
            s = self.ix.find_setter(c, attr)
            if s is not None:
                self.call_function(st, s, [b, v], {}, node)
                return
        if b.kinds and b.kinds <= {'list', 'dict', 'tuple', 'str', 'int', 'float', 'bool'}:
            self.mon.on_attr_missing(self, st, b, attr, sorted(b.kinds), node)
        if attr == 'verbose' and v.const is not NOCONST:
            # switched on and off by the user at any time
            v = v.with_(const=NOCONST, sym=('verbose',))
        self.mon.on_setattr(self, st, b, attr, v, node)
        if len(b.locs) == 1:
            (l,) = b.locs
            st.heap[(l, attr)] = v
        else:
            for l in b.locs:
                st.heap[(l, attr)] = join(self.heap_get(st, l, attr), v)
        if b.fn and b.fn[0] == 'class':
            self.mon.on_write(self, st, frozenset([('cls', b.fn[1], attr)]), node, 'class attribute store', v)
        self.invalidate(st, 'self.' + attr)
        self.invalidate(st, '.' + attr)
        if isinstance(v.const, bool) and st.env.get('self') is not None and b.locs == st.env['self'].locs:
            self.add_fact(st, 'self.' + attr, 'self.' + attr, 0, v.const)

    def add_fact(self, st, text, dep, fid, truth):
        selfv = st.env.get('self')
        sl = tuple(sorted(map(str, selfv.locs))) if selfv is not None else ()
        st.alts = frozenset((m, fs | {((text, sl), frozenset([dep]), fid, truth)}) for m, fs in st.alts)

    def heap_get(self, st, l, attr):
        return st.heap.get((l, attr))

    def augassign(self, st, s):
        tg = s.target
        v = self.eval(st, s.value)
        if isinstance(tg, ast.Name):
            old = self.eval(st, ast.copy_location(ast.Name(id=tg.id, ctx=ast.Load()), tg))
            if '$globals' in st.env and tg.id in st.env['$globals'].const:
                self.mon.on_write(self, st, frozenset([('mod', self.fn().module.name, tg.id)]), s, 'global assignment', v)
            self.mon.on_binop(self, st, s.op, old, v, s)
            if self.maybe_array(old) and v.kinds != frozenset(['str']) and old.kinds != frozenset(['list']):
                self.write(st, old, s, 'in-place operator', v)
                st.env[tg.id] = old.with_(sym=mk('aug', type(s.op).__name__, old.sym, v.sym), const=NOCONST)
            else:
                st.env[tg.id] = self.binop(st, s, s.op, old, v)
            if old.kinds & {'list'}:
                e = self.element(st, v, s)
                for l in old.locs:
                    st.heap[(l, '[*]')] = join(st.heap.get((l, '[*]')), e)
                self.mon.on_write(self, st, old.locs, s, 'list +=', e)
            self.invalidate(st, tg.id)
        elif isinstance(tg, ast.Attribute):
            b = self.eval(st, tg.value)
            old = self.getattr(st, b, tg.attr, s)
            self.mon.on_binop(self, st, s.op, old, v, s)
            if self.maybe_array(old) and v.kinds != frozenset(['str']) and old.kinds != frozenset(['list']):
                self.write(st, old, s, 'in-place operator', v)
                nv = old.with_(sym=mk('aug', type(s.op).__name__, old.sym, v.sym), const=NOCONST)
            elif old.kinds == frozenset(['list']) and isinstance(s.op, ast.Add):
                e = self.element(st, v, s)
                for l in old.locs:
                    st.heap[(l, '[*]')] = join(st.heap.get((l, '[*]')), e)
                self.mon.on_write(self, st, old.locs, s, 'list +=', e)
                nv = old
            else:
                nv = self.binop(st, s, s.op, old, v)
            self.setattr(st, b, tg.attr, nv, s)
        elif isinstance(tg, ast.Subscript):
            b = self.eval(st, tg.value)
            k = self.eval(st, tg.slice) if not isinstance(tg.slice, ast.Slice) else self.eval_slice(st, tg.slice)
            if b.kinds & {'list', 'dict'}:
                old = self.getitem(st, b, tg.slice, k, s)
                if self.maybe_array(old):
                    self.write(st, old, s, 'in-place operator', v)
                    nv = old.with_(sym=mk('aug', type(s.op).__name__, old.sym, v.sym), const=NOCONST)
                else:
                    nv = self.binop(st, s, s.op, old, v)
                self.setitem(st, b, tg.slice, k, nv, s)
            else:
                self.write(st, b, s, 'in-place item operator', v)

    SCALARK = frozenset(['int', 'float', 'str', 'bool', 'None', 'tuple', 'complex', 'type', 'func', 'module'])

    def maybe_array(self, v):
        if v.const is not NOCONST:
            return False
        if v.kinds and v.kinds <= self.SCALARK:
            return False
        return bool(v.locs)

    # ---------------------------------------------------------------- expressions
    def eval(self, st, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.eval(st, c)
            return Val()
        return m(st, n)

    def e_Constant(self, st, n):
        return constval(n.value)

    def e_Name(self, st, n):
        if n.id in st.env:
            return st.env[n.id]
        f = self.fn()
        # enclosing closures were merged at call time; module symbols next
        s = f.module.symbols.get(n.id)
        if s is not None:
            return self.symbol_val(s, f.module, n.id)
        if n.id in BUILTINS:
            return Val(kinds=frozenset(['builtin']), fn=('builtin', n.id), sym=('builtin', n.id))
        if not self.assigned_somewhere(f, n.id):
            self.mon.on_name_missing(self, st, n.id, n)
        return Val()

    def assigned_somewhere(self, f, name):
        if isinstance(f.node, ast.Lambda):
            return True
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store):
                return True
            if isinstance(x, ast.arg) and x.arg == name:
                return True
            if isinstance(x, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name.split('.')[0]) == name for a in x.names):
                return True
            if isinstance(x, ast.ExceptHandler) and x.name == name:
                return True
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name:
                return True
            if isinstance(x, ast.Global) and name in x.names:
                return True
        return False

    def symbol_val(self, s, module, name):
        if s[0] == 'from':
            r = self.ix.resolve_symbol_direct(s) if hasattr(self.ix, 'resolve_symbol_direct') else None
            base, nm = s[1], s[2]
            if base + '.' + nm in self.ix.modules:
                return Val(kinds=frozenset(['module']), fn=('repomod', base + '.' + nm))
            bm = self.ix.modules.get(base)
            if bm is None:
                return Val()
            if nm in bm.symbols:
                t = bm.symbols[nm]
                if t[0] == 'const':
                    return self.modvar(bm, nm)
                return self.symbol_val(t, bm, nm)
            # class by name (module not scanned the symbol)
            return Val(sym=('mod', base, nm))
        if s[0] == 'func':
            return Val(kinds=frozenset(['func']), fn=('func', s[1]), sym=('func', s[1].name))
        if s[0] == 'class':
            return Val(kinds=frozenset(['type']), fn=('class', s[1]), sym=('class', s[1]))
        if s[0] == 'ext':
            return Val(kinds=frozenset(['ext']), fn=('ext', s[1]), sym=('ext', s[1]))
        if s[0] == 'mod':
            return Val(kinds=frozenset(['module']), fn=('repomod', s[1]))
        if s[0] == 'const':
            return self.modvar(module, name)
        return Val()

    def modvar(self, module, name):
        node = module.symbols[name][1]
        if module.name == 'specula' and name in ('cp', 'xp', 'np'):
            return Val(kinds=frozenset(['xp']), fn=('ext', name), sym=('mod', 'specula', name))
        if module.name == 'specula':
            return Val(sym=('mod', 'specula', name), locs=frozenset([('mod', module.name, name)]))
        if isinstance(node, ast.Constant):
            return constval(node.value).with_(sym=('const', repr(node.value)))
        k = EMPTY
        if isinstance(node, ast.List):
            k = frozenset(['list'])
        elif isinstance(node, ast.Dict):
            k = frozenset(['dict'])
        elif isinstance(node, ast.Call) and (dotted(node.func) or '') in self.ix.classes:
            k = frozenset([dotted(node.func)])
        if isinstance(node, ast.Call) and dotted(node.func) and dotted(node.func).split('.')[-1] == 'namedtuple':
            return Val(kinds=frozenset(['type']), fn=('namedtuple', name), sym=('class', name))
        if isinstance(node, ast.Call) and dotted(node.func) == 'fuse':
            return Val(kinds=frozenset(['func']))
        return Val(locs=frozenset([('mod', module.name, name)]), kinds=k, sym=('mod', module.name, name))

    def e_Attribute(self, st, n):
        b = self.eval(st, n.value)
        v = self.getattr(st, b, n.attr, n)
        if v is not None and v.locs:
            self.mon.on_load(self, st, v, n)
        return v

    def getattr_raw(self, st, l, b, attr):
        v = st.heap.get((l, attr))
        if v is not None:
            return v
        return None

    def getattr(self, st, b, attr, n):
        if b.fn is not None:
            k = b.fn[0]
            if k == 'ext':
                d = b.fn[1] + '.' + attr
                return Val(kinds=frozenset(['ext']), fn=('ext', d), sym=('ext', d))
            if k == 'repomod':
                mod = self.ix.modules.get(b.fn[1])
                if b.fn[1] + '.' + attr in self.ix.modules:
                    return Val(kinds=frozenset(['module']), fn=('repomod', b.fn[1] + '.' + attr))
                if mod is not None and attr in mod.symbols:
                    return self.symbol_val(mod.symbols[attr], mod, attr)
                if mod is not None and attr not in ('__file__', '__name__', '__path__', '__doc__'):
                    self.mon.on_name_missing(self, st, b.fn[1] + '.' + attr, n)
                return Val()
            if k == 'class':
                f = self.ix.find_method(b.fn[1], attr)
                if f is not None:
                    return Val(kinds=frozenset(['func']), fn=('unbound', f, b))
                if attr == '__name__':
                    return Val(kinds=frozenset(['str']), sym=('clsname', b.fn[1]))
                ca = self.ix.find_class_attr(b.fn[1], attr)
                if ca:
                    return self.class_attr_val(ca[0], attr, ca[1])
                if not hasattr(type, attr) and not self.may_have_attr(b.fn[1], attr, True):
                    self.mon.on_attr_missing(self, st, b, attr, [b.fn[1]], n)
                return Val()
            if k == 'super':
                _, clsname, after, me = b.fn
                f = self.ix.find_method(clsname, attr, after=after)
                if f is not None:
                    return Val(kinds=frozenset(['func']), fn=('bound', f, me, clsname))
                if self.ix.find_class_attr(clsname, attr) is None and not self.ix.has_external_base(clsname) \
                        and not hasattr(object, attr):
                    self.mon.on_attr_missing(self, st, me, 'super().' + attr, [clsname], n)
                return Val(kinds=frozenset(['func']), fn=('noop', attr))
        if b.kinds == frozenset(['None']):
            self.mon.on_none_deref(self, st, b, n, attr)
            return Val()
        if 'None' in b.kinds:
            self.mon.on_none_deref(self, st, b, n, attr)
        self.mon.on_attr(self, st, b, attr, n)
        cls = [k for k in b.kinds if k in self.ix.classes]
        # explicit heap value
        res = None
        got = False
        for l in b.locs:
            v = st.heap.get((l, attr))
            if v is not None:
                res = join(res, v) if res is not None else v
                got = True
        if cls:
            missing = []
            for c in cls:
                f = self.ix.find_method(c, attr)
                if f is not None:
                    if f.is_property:
                        if not got:
                            r = self.call_function(st, f, [b.with_(kinds=frozenset([c]))], {}, n)
                            res = join(res, r) if res is not None else r
                        continue
                    if f.is_static or f.is_classmethod:
                        r = Val(kinds=frozenset(['func']), fn=('unbound', f, Val(fn=('class', c))))
                    else:
                        r = Val(kinds=frozenset(['func']), fn=('bound', f, b, c))
                    res = join(res, r) if res is not None else r
                    continue
                if got:
                    continue
                exact = all(l[0] in ('new', 'self') for l in b.locs) and bool(b.locs)
                if not self.may_have_attr(c, attr, exact):
                    missing.append(c)
                    continue
                ca = self.ix.find_class_attr(c, attr)
                if ca and not any((l, attr) in st.heap for l in b.locs):
                    r = self.class_attr_val(ca[0], attr, ca[1])
                    res = join(res, r) if res is not None else r
                    continue
            # the value may be of one of several classes: reported only when
            # none of them can have the attribute
            if missing and '?' not in b.kinds and not got and res is None and len(missing) == len(b.kinds - {'None'}):
                self.mon.on_attr_missing(self, st, b, attr, missing, n)
            if res is not None:
                return res
        elif not got and b.kinds - {'None'} and b.kinds <= self.BUILTINS.keys() | {'None'} \
                and b.locs and all(l[0] in ('cont', 'new') for l in b.locs) \
                and not any(hasattr(self.BUILTINS[k], attr) for k in b.kinds - {'None'}):
            self.mon.on_attr_missing(self, st, b, attr, sorted(b.kinds - {'None'}), n)
        if got:
            return res
        # array-ish attributes
        if attr in SCALAR_ATTRS and not cls:
            return Val(kinds=frozenset(['tuple']) if attr == 'shape' else (frozenset(['int']) if attr in ('size', 'ndim') else EMPTY),
                       sym=mk('attr', b.sym, attr))
        if attr in VIEW_ATTRS and not cls:
            return b.with_(kinds=b.kinds - {'None'}, sym=mk('attr', b.sym, attr), const=NOCONST, fn=None)
        if attr == 'xp':
            return Val(kinds=frozenset(['ext']), fn=('ext', 'numpy'), sym=('ext', 'numpy'))
        # lazily create symbolic attribute storage
        if b.locs == frozenset([('self',)]):
            self.mon.on_unset(self, st, b, attr, n)
        locs = set()
        kinds = set()
        unknown = False
        for c in cls:
            ks = self.class_summary(c).get(attr)
            if ks:
                kinds |= ks
            else:
                unknown = True
        if not cls:
            unknown = True
        for l in b.locs:
            d = 0
            x = l
            while x[0] == 'path':
                d += 1
                x = x[1]
            if x[0] in ('self',) or d < 4:
                locs.add(('path', l, attr))
            else:
                locs.add(l)
        v = Val(frozenset(locs), frozenset() if unknown and not kinds else (frozenset(kinds) | (frozenset(['?']) if unknown else EMPTY)),
                mk('attr', b.sym, attr))
        if v.kinds and v.kinds <= self.SCALARK:
            v.locs = EMPTY
        # a bound method of an array / unknown object
        if not cls:
            v.fn = ('method', b, attr)
        if len(b.locs) == 1 and cls:
            (l,) = b.locs
            st.heap[(l, attr)] = v
        return v

    BUILTINS = {'list': list, 'dict': dict, 'set': set}

    def may_have_attr(self, c, attr, exact):
        if hasattr(object, attr) or attr == '__dict__':
            return True
        for k in [c] if exact else [c] + [x.name for x in self.ix.subclasses(c)]:
            uni = self.ix.class_attr_universe(k)
            if attr in uni or '*' in uni or self.ix.has_external_base(k) or self.ix.find_method(k, '__getattr__'):
                return True
        return False

    def class_attr_val(self, c, attr, node):
        if isinstance(node, ast.Constant):
            return constval(node.value)
        k = EMPTY
        if isinstance(node, ast.List):
            k = frozenset(['list'])
        elif isinstance(node, ast.Dict) or (isinstance(node, ast.Call) and dotted(node.func) in ('dict', 'defaultdict')):
            k = frozenset(['dict'])
        d = dotted(node)
        if d and d.split('.')[-1] in self.ix.classes:
            return Val(kinds=frozenset(['type']), fn=('class', d.split('.')[-1]), sym=('class', d.split('.')[-1]))
        return Val(locs=frozenset([('cls', c.name, attr)]), kinds=k, sym=('clsattr', c.name, attr))

    def eval_slice(self, st, s):
        for x in (s.lower, s.upper, s.step):
            if x is not None:
                self.eval(st, x)
        return Val(kinds=frozenset(['slice']))

    def e_Slice(self, st, n):
        return self.eval_slice(st, n)

    def e_Subscript(self, st, n):
        b = self.eval(st, n.value)
        k = self.eval(st, n.slice)
        return self.getitem(st, b, n.slice, k, n)

    def basic_index(self, st, slnode, k):
        """True when the index certainly yields a view / element (ints, slices)."""
        if isinstance(slnode, ast.Slice):
            return True
        if isinstance(slnode, ast.Tuple):
            return all(self.basic_index(st, e, self.peekval(st, e)) for e in slnode.elts)
        if isinstance(slnode, ast.Constant):
            return slnode.value is Ellipsis or slnode.value is None or isinstance(slnode.value, int)
        if isinstance(slnode, ast.UnaryOp) and isinstance(slnode.operand, ast.Constant):
            return True
        if k is not None and k.kinds and k.kinds <= {'int', 'slice', 'ellipsis', 'None'}:
            return True
        if isinstance(slnode, ast.Attribute) and slnode.attr == 'newaxis':
            return True
        if k is not None and 'slice' in k.kinds:
            return True
        if k is not None and k.kinds and k.kinds <= {'tuple'}:
            els = [self.all_elems(st, l) for l in k.locs]
            if els and all(e is not None and e.kinds and e.kinds <= {'int', 'slice', 'ellipsis', 'None'} for e in els):
                return True
        if isinstance(slnode, ast.BinOp):
            return self.basic_index(st, slnode.left, self.peekval(st, slnode.left)) and self.basic_index(st, slnode.right, self.peekval(st, slnode.right))
        return False

    def peekval(self, st, e):
        try:
            return self.peek(st, e)
        except Exception:
            return None

    def getitem(self, st, b, slnode, k, n):
        if self.mon.model is not None:
            r = self.mon.model.item(self, st, b, k, n)
            if r is not None:
                return r
        if b.kinds == frozenset(['None']) or ('None' in b.kinds and '?' not in b.kinds):
            self.mon.on_none_deref(self, st, b, n, '[]')
        if b.kinds & {'list', 'dict', 'tuple', 'defaultdict'}:
            if isinstance(slnode, ast.Slice):
                return b.with_(kinds=b.kinds - {'None'}, const=NOCONST)
            res = None
            if isinstance(k.const, str) and b.locs:
                self.mon.on_key(self, st, b, k.const, n)
            for l in b.locs:
                if k.const is not NOCONST:
                    key = f'[{k.const!r}]'
                    v = st.heap.get((l, key))
                    w = st.heap.get((l, '[*]'))
                    if v is None and w is None and l[0] != 'cont':
                        v = self.sym_elem(st, l, b, key)
                    x = v if v is not None else w
                else:
                    x = self.all_elems(st, l)
                    if x is None and l[0] != 'cont':
                        x = self.sym_elem(st, l, b, '[*]')
                if x is not None:
                    res = join(res, x) if res is not None else x
            if res is not None:
                return res
            return Val(sym=mk('item', b.sym, k.sym))
        if b.kinds == frozenset(['str']):
            return Val(kinds=frozenset(['str']))
        cls = [c for c in b.kinds if c in self.ix.classes]
        for c in cls:
            f = self.ix.find_method(c, '__getitem__')
            if f is not None:
                return self.call_function(st, f, [b, k], {}, n)
        if self.basic_index(st, slnode, k):
            return Val(b.locs, frozenset(b.kinds & {'ndarray'}) or EMPTY, mk('item', b.sym, k.sym if k is not None else UNK))
        if not b.locs and not b.kinds:
            return Val(sym=mk('item', b.sym, k.sym))
        # advanced (copying) indexing; the element may still be an object for
        # unknown containers
        if not b.kinds or '?' in b.kinds:
            if 'ndarray' not in b.kinds and any(root(l)[0] in ('param',) for l in b.locs):
                return Val(b.locs, EMPTY, mk('item', b.sym, k.sym))
        return self.fresh(n, EMPTY, mk('item', b.sym, k.sym))

    def sym_elem(self, st, l, b, key):
        # element of a symbolic container (constructor parameter, input list..)
        if root(l)[0] in ('in', 'param', 'orig'):
            return Val(frozenset([l]), self.elem_kinds(l), mk('item', b.sym, key))
        return None

    def all_elems(self, st, l):
        r = st.heap.get((l, '[*]'))
        for (ll, k), v in st.heap.items():
            if ll == l and isinstance(k, str) and k.startswith('[') and k != '[*]':
                r = join(r, v) if r is not None else v
        return r

    def element(self, st, it, node):
        """Value produced by iterating over `it`."""
        if it.fn and it.fn[0] == 'iter':
            return it.fn[1]
        if it.kinds & {'list', 'tuple', 'set'} or (it.kinds & {'dict', 'defaultdict'}):
            r = None
            for l in it.locs:
                if it.kinds & {'dict', 'defaultdict'} and not it.kinds & {'list'}:
                    x = Val(kinds=frozenset(['str', '?']))
                else:
                    x = self.all_elems(st, l)
                    if x is None and l[0] != 'cont':
                        x = self.sym_elem(st, l, it, '[*]')
                if x is not None:
                    r = join(r, x) if r is not None else x
            return r if r is not None else Val(sym=mk('elem', it.sym))
        if it.kinds & {'range'}:
            return Val(kinds=frozenset(['int']), sym=('rangevar',))
        return Val(it.locs, EMPTY, mk('elem', it.sym))

    def elem_kinds(self, l):
        """Class of the elements of a container parameter."""
        if l[0] != 'param' or not isinstance(l[1], str):
            return EMPTY
        one, el = self.ix.param_classes()
        n = l[1]
        c = el.get(n)
        if c is None:
            for suf in ('_list', '_dict', 's'):
                if n.endswith(suf) and n[:-len(suf)] in one:
                    c = one[n[:-len(suf)]]
                    break
        return frozenset([c]) if c else EMPTY

    def e_Tuple(self, st, n, kind='tuple'):
        l = ('cont', kind, self.site(n))
        consts = []
        items = {}
        for i, e in enumerate(n.elts):
            if isinstance(e, ast.Starred):
                v = self.eval(st, e.value)
                x = self.element(st, v, e)
                items['[*]'] = join(items['[*]'], x) if '[*]' in items else x
            else:
                v = self.eval(st, e)
                items[f'[{i}]'] = v
                consts.append(v.sym)
        for key in [k for k in st.heap if k[0] == l]:
            del st.heap[key]
        for k, v in items.items():
            st.heap[(l, k)] = v
        return Val(frozenset([l]), frozenset([kind]), mk(kind, *consts))

    def e_List(self, st, n):
        return self.e_Tuple(st, n, 'list')

    def e_Set(self, st, n):
        return self.e_Tuple(st, n, 'set')

    def e_Dict(self, st, n):
        l = ('cont', 'dict', self.site(n))
        for key in [k for k in st.heap if k[0] == l]:
            del st.heap[key]
        for k, v in zip(n.keys, n.values):
            vv = self.eval(st, v)
            if k is None:
                for ll in vv.locs:
                    for (hl, hk), hv in list(st.heap.items()):
                        if hl == ll and isinstance(hk, str) and hk.startswith('['):
                            st.heap[(l, hk)] = hv
                continue
            kv = self.eval(st, k)
            if kv.const is not NOCONST:
                st.heap[(l, f'[{kv.const!r}]')] = vv
            else:
                st.heap[(l, '[*]')] = join(st.heap.get((l, '[*]')), vv)
        return Val(frozenset([l]), frozenset(['dict']))

    def comp(self, st, n, elts, kind):
        saved = dict(st.env)
        for g in n.generators:
            it = self.eval(st, g.iter)
            self.assign(st, g.target, self.element(st, it, g.iter), n)
            for c in g.ifs:
                t, f = self.branch(st.copy(), c)
                if t is not None:
                    # keep narrowing of the true branch
                    st.frames, st.heap = t.frames, t.heap
        vals = [self.eval(st, e) for e in elts]
        l = ('cont', kind, self.site(n))
        st.heap[(l, '[*]')] = vals[-1]
        for k in list(st.env):
            if k not in saved:
                del st.env[k]
        st.env.update(saved)
        return Val(frozenset([l]), frozenset([kind]), mk(kind + 'comp', vals[-1].sym))

    def e_ListComp(self, st, n):
        return self.comp(st, n, [n.elt], 'list')

    def e_GeneratorExp(self, st, n):
        return self.comp(st, n, [n.elt], 'list')

    def e_SetComp(self, st, n):
        return self.comp(st, n, [n.elt], 'set')

    def e_DictComp(self, st, n):
        return self.comp(st, n, [n.key, n.value], 'dict')

    def e_IfExp(self, st, n):
        t, f = self.branch(st.copy(), n.test)
        res = None
        out = None
        if t is not None:
            res = self.eval(t, n.body)
            out = t
        if f is not None:
            v = self.eval(f, n.orelse)
            res = join(res, v) if res is not None else v
            out = join_states(out, f)
        if out is not None:
            st.frames, st.heap, st.alts = out.frames, out.heap, out.alts
        return res if res is not None else Val()

    def e_BoolOp(self, st, n):
        res = None
        consts = []
        for i, x in enumerate(n.values):
            v = self.eval(st, x)
            if v.const is not NOCONST:
                if isinstance(n.op, ast.Or) and v.const:
                    res = join(res, v) if res is not None else v
                    return res
                if isinstance(n.op, ast.And) and not v.const:
                    res = join(res, v) if res is not None else v
                    return res
                if i < len(n.values) - 1:
                    continue
            res = join(res, v) if res is not None else v
            if i < len(n.values) - 1:
                t = st.copy()
                tr, fa = self.branch(t, x)
                nx = tr if isinstance(n.op, ast.And) else fa
                if nx is None:
                    break
                # evaluate the remaining operands under the narrowed state
                rest = ast.BoolOp(op=n.op, values=n.values[i + 1:]) if len(n.values) - i > 2 else n.values[i + 1]
                v2 = self.eval(nx, rest)
                res = join(res, v2)
                return res
        return res if res is not None else Val()

    def e_UnaryOp(self, st, n):
        v = self.eval(st, n.operand)
        if v.const is not NOCONST:
            try:
                if isinstance(n.op, ast.USub):
                    return constval(-v.const)
                if isinstance(n.op, ast.Not):
                    return constval(not v.const)
            except Exception:
                pass
        if isinstance(n.op, ast.Not):
            return Val(kinds=frozenset(['bool']), sym=mk('not', v.sym))
        return self.binres(st, n, v, v, mk('un', type(n.op).__name__, v.sym))

    def e_BinOp(self, st, n):
        a = self.eval(st, n.left)
        b = self.eval(st, n.right)
        self.mon.on_binop(self, st, n.op, a, b, n)
        return self.binop(st, n, n.op, a, b)

    def binop(self, st, n, op, a, b):
        if a.const is not NOCONST and b.const is not NOCONST:
            try:
                import operator as o
                tbl = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv, ast.Mod: o.mod}
                if type(op) in tbl and not (isinstance(a.const, str) and len(a.const) > 200):
                    return constval(tbl[type(op)](a.const, b.const))
            except Exception:
                pass
        sym = mk('bin', type(op).__name__, a.sym, b.sym)
        if isinstance(op, ast.Add) and (a.kinds & {'list'} or b.kinds & {'list'}):
            l = ('cont', 'list', self.site(n))
            x = None
            for v in (a, b):
                if v.kinds & {'list', 'tuple'}:
                    for ll in v.locs:
                        e = self.all_elems(st, ll)
                        if e is None and ll[0] != 'cont':
                            e = self.sym_elem(st, ll, v, '[*]')
                            ek = self.elem_kinds(ll)
                            if e is not None and ek:
                                e = e.with_(kinds=ek)
                        if e is not None:
                            x = join(x, e) if x is not None else e
            if x is not None:
                st.heap[(l, '[*]')] = x
            return Val(frozenset([l]), frozenset(['list']), sym)
        if isinstance(op, ast.Mod) and a.kinds == frozenset(['str']):
            return Val(kinds=frozenset(['str']), sym=sym)
        return self.binres(st, n, a, b, sym)

    def binres(self, st, n, a, b, sym):
        sk = {'int', 'float', 'bool', 'complex'}
        if a.kinds and b.kinds and a.kinds <= sk and b.kinds <= sk:
            return Val(kinds=frozenset(['float'] if 'float' in (a.kinds | b.kinds) else a.kinds | b.kinds), sym=sym)
        if a.kinds == frozenset(['str']) or b.kinds == frozenset(['str']):
            return Val(kinds=frozenset(['str']), sym=sym)
        if 'ndarray' in a.kinds or 'ndarray' in b.kinds:
            return self.fresh(n, ARRAYK, sym)
        return self.fresh(n, EMPTY, sym)

    def e_Compare(self, st, n):
        a = self.eval(st, n.left)
        res = None
        if len(n.ops) == 1:
            b = self.eval(st, n.comparators[0])
            op = n.ops[0]
            self.mon.on_compare(self, st, op, a, b, n)
            if self.mon.model is not None:
                r = self.mon.model.compare(self, st, op, a, b, n)
                if r is not None:
                    return r
            if isinstance(op, (ast.Is, ast.IsNot)):
                r = None
                if b.const is None and b.const is not NOCONST:
                    if a.const is None and a.const is not NOCONST or a.kinds == frozenset(['None']):
                        r = True
                    elif a.const is not NOCONST or (a.kinds and 'None' not in a.kinds and '?' not in a.kinds
                                                    and a.sym[0] not in ('param',)):
                        r = False
                if r is not None:
                    return constval(r if isinstance(op, ast.Is) else not r)
            elif a.const is not NOCONST and b.const is not NOCONST:
                try:
                    import operator as o
                    tbl = {ast.Eq: o.eq, ast.NotEq: o.ne, ast.Lt: o.lt, ast.Gt: o.gt, ast.LtE: o.le, ast.GtE: o.ge}
                    if type(op) in tbl:
                        return constval(tbl[type(op)](a.const, b.const))
                except Exception:
                    pass
            return Val(kinds=frozenset(['bool']) if not (a.kinds & {'ndarray'} or b.kinds & {'ndarray'}) else EMPTY,
                       locs=frozenset([('arr', self.site(n))]) if (a.kinds & {'ndarray'} or b.kinds & {'ndarray'}) else EMPTY,
                       sym=mk('cmp', type(op).__name__, a.sym, b.sym))
        for op, c in zip(n.ops, n.comparators):
            b = self.eval(st, c)
            self.mon.on_compare(self, st, op, a, b, n)
            a = b
        return Val(kinds=frozenset(['bool']))

    def e_JoinedStr(self, st, n):
        syms = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                syms.append(self.eval(st, v.value).sym)
            else:
                syms.append(('const', repr(v.value)))
        return Val(kinds=frozenset(['str']), sym=mk('fstr', *syms))

    def e_Lambda(self, st, n):
        f = Function_nested(n, self.fn())
        return Val(kinds=frozenset(['func']), fn=('closure', f, st.env))

    def e_NamedExpr(self, st, n):
        v = self.eval(st, n.value)
        self.assign(st, n.target, v, n)
        return v

    def e_Starred(self, st, n):
        return self.eval(st, n.value)

    def e_Yield(self, st, n):
        v = self.eval(st, n.value) if n.value is not None else NONE
        y = st.env.get('$yield')
        st.env['$yield'] = v if y is None or (not y.locs and not y.kinds) else join(y, v)
        return Val()

    def e_YieldFrom(self, st, n):
        v = self.eval(st, n.value)
        e = self.element(st, v, n)
        y = st.env.get('$yield')
        st.env['$yield'] = e if y is None or (not y.locs and not y.kinds) else join(y, e)
        return Val()

    def e_Await(self, st, n):
        return self.eval(st, n.value)

    # ---------------------------------------------------------------- calls
    def e_Call(self, st, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in st.env:
            f = self.fn()
            if n.args:
                for a in n.args:
                    self.eval(st, a)
            me = st.env.get('self') or Val()
            if f is not None and f.cls is None and f.outer is not None:
                g = f.outer
                while g is not None and g.cls is None:
                    g = g.outer
                f = g or f
            cn = None
            for k in me.kinds:
                if k in self.ix.classes and f.cls is not None and self.ix.is_sub(k, f.cls.name):
                    cn = k
            if cn is None and f.cls is not None:
                cn = f.cls.name
            return Val(fn=('super', cn, f.cls.name if f.cls else None, me))
        fv = self.eval(st, n.func)
        args = []
        kwargs = {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(st, a.value)
                items = self.tuple_items(st, v)
                if items is not None:
                    args.extend(items)
                else:
                    args.append(None)
            else:
                args.append(self.eval(st, a))
        for k in n.keywords:
            v = self.eval(st, k.value)
            if k.arg is None:
                kwargs['**'] = v
                for l in v.locs:
                    for (hl, hk), hv in list(st.heap.items()):
                        if hl == l and hk.startswith("['"):
                            kwargs.setdefault(hk[2:-2], hv)
            else:
                kwargs[k.arg] = v
        return self.call_val(st, fv, args, kwargs, n)

    def call_val(self, st, fv, args, kwargs, n):
        fn = fv.fn
        if fn is None:
            cls = [k for k in fv.kinds if k in self.ix.classes]
            for c in cls:
                f = self.ix.find_method(c, '__call__')
                if f is not None:
                    return self.call_function(st, f, [fv] + args, kwargs, n)
            self.mon.on_call(self, st, '?', fv, args, kwargs, n)
            self.unknown_call_effects(st, args, kwargs, n)
            return self.fresh(n, EMPTY, mk('call', fv.sym, *[a.sym for a in args if a is not None]))
        k = fn[0]
        if k == 'bound':
            _, f, me, c = fn
            # several receiver classes: join over all of them
            self.mon.on_call(self, st, f.qual, me, args, kwargs, n)
            cls = [x for x in me.kinds if x in self.ix.classes]
            fs = []
            for x in cls or [c]:
                g = self.ix.find_method(x, f.name) if fv.sym != 'exact' else f
                if g is not None and g not in fs:
                    fs.append(g)
            if f not in fs or len(cls) <= 1:
                fs = [f]
            return self.call_many(st, fs, [me] + args, kwargs, n)
        if k == 'func':
            self.mon.on_call(self, st, fn[1].name, None, args, kwargs, n)
            return self.call_function(st, fn[1], args, kwargs, n)
        if k == 'closure':
            return self.call_function(st, fn[1], args, kwargs, n, env0={k2: v for k2, v in fn[2].items() if not k2.startswith('$')})
        if k == 'unbound':
            f = fn[1]
            self.mon.on_call(self, st, f.qual, None, args, kwargs, n)
            if f.is_static:
                return self.call_function(st, f, args, kwargs, n)
            if f.is_classmethod:
                return self.call_function(st, f, [fn[2]] + args, kwargs, n)
            return self.call_function(st, f, args, kwargs, n)
        if k == 'class':
            return self.new(st, fn[1], args, kwargs, n)
        if k == 'namedtuple':
            l = ('cont', 'tuple', self.site(n))
            for i, a in enumerate(args):
                if a is not None:
                    st.heap[(l, f'[{i}]')] = a
            for kk, a in kwargs.items():
                st.heap[(l, kk)] = a
            return Val(frozenset([l]), frozenset(['tuple']), mk(fn[1], *[a.sym for a in args if a is not None]))
        if k == 'builtin':
            return self.call_builtin(st, fn[1], args, kwargs, n)
        if k == 'ext':
            return self.call_ext(st, fn[1], args, kwargs, n)
        if k == 'method':
            return self.call_method(st, fn[1], fn[2], args, kwargs, n)
        if k == 'noop':
            return NONE
        if k in ('iter', 'cond', 'guard'):
            return Val()
        self.unknown_call_effects(st, args, kwargs, n)
        return self.fresh(n, EMPTY)

    def call_many(self, st, fs, args, kwargs, n):
        if len(fs) == 1:
            return self.call_function(st, fs[0], args, kwargs, n)
        base = st.copy()
        res, out = None, None
        for f in fs:
            s = base.copy()
            v = self.call_function(s, f, args, kwargs, n)
            if s.alts:
                res = join(res, v) if res is not None else v
                out = join_states(out, s)
        if out is None:
            st.alts = frozenset()
            return Val()
        st.frames, st.heap, st.alts = out.frames, out.heap, out.alts
        return res

    def unknown_call_effects(self, st, args, kwargs, n):
        o = self.out_arg(st, kwargs, args)
        if o is not None:
            self.write(st, o, n, 'out= argument')

    def out_arg(self, st, kwargs, args, d=None, method=False):
        """The array a call is told to put its result in, if any."""
        o = kwargs.get('out')
        if o is None and d is not None:
            parts = d.split('.')
            pos = OUT_POS.get(parts[-1])
            if pos is not None and (method or parts[0] in ('np', 'cp', 'xp', 'numpy', 'cupy')):
                pos -= bool(method)
                if len(args) > pos and args[pos] is not None:
                    o = args[pos]
        if o is None or o.const is None:
            return None
        if o.kinds & {'tuple', 'list'}:
            o = self.element(st, o, None)
        if not o.locs:
            return None
        return o

    def new(self, st, cname, args, kwargs, n):
        loc = ('new', cname, self.site(n))
        # a fresh instance: forget attributes of the previous one at this site
        for key in [k for k in st.heap if k[0] == loc]:
            del st.heap[key]
        me = Val(frozenset([loc]), frozenset([cname]), ('new', cname))
        f = self.ix.find_method(cname, '__init__')
        if f is None:
            self.mon.on_new(self, st, cname, loc, args, kwargs, {}, n)
            return me
        bound = {}
        a = f.node.args
        names = [p.arg for p in (a.posonlyargs + a.args)][1:]
        for nm, v in zip(names, [x for x in args if x is not None]):
            bound[nm] = v
        for kk, v in kwargs.items():
            bound[kk] = v
        self.mon.on_new(self, st, cname, loc, args, kwargs, bound, n)
        self.call_function(st, f, [me] + args, kwargs, n)
        return me

    def call_builtin(self, st, name, args, kwargs, n):
        self.mon.on_call(self, st, name, None, args, kwargs, n)
        if self.mon.model is not None:
            r = self.mon.model.builtin(self, st, name, args, kwargs, n)
            if r is not None:
                return r
        a = [x for x in args if x is not None]
        if name in ('list', 'tuple', 'sorted', 'reversed', 'set'):
            kind = {'sorted': 'list', 'reversed': 'list'}.get(name, name)
            l = ('cont', kind, self.site(n))
            for key in [k for k in st.heap if k[0] == l]:
                del st.heap[key]
            if a:
                if name in ('list', 'tuple') and a[0].kinds & {'list', 'tuple'} and len(a[0].locs) == 1:
                    (ll,) = a[0].locs
                    for (hl, hk), hv in list(st.heap.items()):
                        if hl == ll and hk.startswith('['):
                            st.heap[(l, hk)] = hv
                    if not any(hl == l for (hl, hk) in st.heap):
                        st.heap[(l, '[*]')] = self.element(st, a[0], n)
                else:
                    st.heap[(l, '[*]')] = self.element(st, a[0], n)
            return Val(frozenset([l]), frozenset([kind]), mk('call', name, *[x.sym for x in a]))
        if name == 'dict':
            l = ('cont', 'dict', self.site(n))
            for key in [k for k in st.heap if k[0] == l]:
                del st.heap[key]
            if a:
                for ll in a[0].locs:
                    for (hl, hk), hv in list(st.heap.items()):
                        if hl == ll and hk.startswith('['):
                            st.heap[(l, hk)] = hv
            for kk, v in kwargs.items():
                if kk != '**':
                    st.heap[(l, f'[{kk!r}]')] = v
            return Val(frozenset([l]), frozenset(['dict']))
        if name == 'zip':
            l = ('cont', 'tuple', self.site(n))
            for i, x in enumerate(a):
                st.heap[(l, f'[{i}]')] = self.element(st, x, n)
            return Val(kinds=frozenset(['iter']), fn=('iter', Val(frozenset([l]), frozenset(['tuple']))))
        if name == 'enumerate':
            l = ('cont', 'tuple', self.site(n))
            st.heap[(l, '[0]')] = Val(kinds=frozenset(['int']), sym=('rangevar',))
            st.heap[(l, '[1]')] = self.element(st, a[0], n) if a else Val()
            return Val(kinds=frozenset(['iter']), fn=('iter', Val(frozenset([l]), frozenset(['tuple']))))
        if name == 'slice':
            return Val(kinds=frozenset(['slice']))
        if name == 'range':
            return Val(kinds=frozenset(['range']), fn=('iter', Val(kinds=frozenset(['int']), sym=('rangevar',))))
        if name in ('int', 'float', 'str', 'bool', 'len', 'round', 'ord', 'hash', 'id', 'complex', 'repr', 'chr', 'format'):
            k = {'len': 'int', 'ord': 'int', 'hash': 'int', 'id': 'int', 'repr': 'str', 'chr': 'str', 'format': 'str'}.get(name, name)
            if name == 'round':
                return Val(kinds=frozenset(['int', 'float']), sym=mk('call', 'round', *[x.sym for x in a]))
            c = NOCONST
            if a and a[0].const is not NOCONST and name in ('int', 'float', 'str', 'bool') and len(a) == 1:
                try:
                    c = {'int': int, 'float': float, 'str': str, 'bool': bool}[name](a[0].const)
                except Exception:
                    c = NOCONST
            return Val(kinds=frozenset([k]), sym=mk('call', name, *[x.sym for x in a]), const=c)
        if name == 'isinstance' and len(a) == 2:
            r = self.decide_isinstance(a[0], n.args[1])
            if r is not None:
                return constval(r)
            return Val(kinds=frozenset(['bool']))
        if name in ('hasattr', 'callable', 'any', 'all', 'issubclass'):
            return Val(kinds=frozenset(['bool']), sym=mk('call', name, *[x.sym for x in a]))
        if name == 'getattr' and len(a) >= 2:
            if a[1].const is not NOCONST and isinstance(a[1].const, str):
                if len(a) == 3:
                    # the default makes a missing attribute legitimate
                    known = [c for c in a[0].kinds if c in self.ix.classes]
                    if not all(a[1].const in self.ix.class_attr_universe(c) for c in known):
                        return Val()
                    v = self.getattr(st, a[0].with_(kinds=a[0].kinds - {'None'}), a[1].const, n)
                    return join(v, a[2])
                return self.getattr(st, a[0], a[1].const, n)
            return Val(a[0].locs, EMPTY, mk('getattr', a[0].sym, a[1].sym))
        if name == 'setattr' and len(a) == 3:
            if isinstance(a[1].const, str):
                self.setattr(st, a[0], a[1].const, a[2], n)
            else:
                self.mon.on_write(self, st, a[0].locs, n, 'setattr', a[2])
            return NONE
        if name == 'delattr' and len(a) == 2 and isinstance(a[1].const, str):
            self.setattr(st, a[0], a[1].const, NONE, n)
            return NONE
        if name == 'type' and len(a) == 1:
            ks = [k for k in a[0].kinds if k in self.ix.classes]
            if len(ks) == 1 and len(a[0].kinds) == 1:
                return Val(kinds=frozenset(['type']), fn=('class', ks[0]), sym=('typeof', a[0].sym))
            return Val(kinds=frozenset(['type']), sym=('typeof', a[0].sym))
        if name in ('sum', 'min', 'max', 'abs', 'pow', 'divmod', 'iter', 'next', 'map', 'filter', 'vars', 'dir'):
            if name in ('iter', 'next'):
                if a:
                    return self.element(st, a[0], n)
                return Val()
            if name in ('map', 'filter') and len(a) >= 2:
                e = self.element(st, a[1], n)
                if name == 'map':
                    e = self.call_val(st, a[0], [e], {}, n)
                return Val(kinds=frozenset(['iter']), fn=('iter', e))
            ks = frozenset()
            if a and all(x.kinds and x.kinds <= {'int', 'float', 'bool'} for x in a):
                ks = frozenset(['float'] if any('float' in x.kinds for x in a) else ['int'])
                return Val(kinds=ks, sym=mk('call', name, *[x.sym for x in a]))
            return self.fresh(n, EMPTY, mk('call', name, *[x.sym for x in a]))
        return Val(sym=mk('call', name, *[x.sym for x in a]))

    def decide_isinstance(self, v, cnode):
        names = self.class_names(cnode)
        if names is None or not v.kinds or '?' in v.kinds:
            return None
        if v.sym and v.sym[0] == 'param':
            return None
        r = set()
        for k in v.kinds:
            if k in self.ix.classes:
                if any(self.ix.is_sub(k, x) for x in names if x in self.ix.classes):
                    r.add(True)
                elif any(self.ix.is_sub(x, k) for x in names if x in self.ix.classes):
                    r |= {True, False}
                else:
                    r.add(False)
            elif k in ('list', 'tuple', 'dict', 'str', 'int', 'float', 'bool', 'None', 'set'):
                r.add(k in names)
            else:
                return None
        return r.pop() if len(r) == 1 else None

    def call_ext(self, st, d, args, kwargs, n):
        name = d.split('.')[-1]
        self.mon.on_call(self, st, d, None, args, kwargs, n)
        if self.mon.model is not None:
            r = self.mon.model.call(self, st, d, args, kwargs, n)
            if r is not None:
                return r
        a = [x for x in args if x is not None]
        sym = mk('call', d.split('.', 1)[1] if d.split('.')[0] in ('np', 'cp', 'xp', 'numpy', 'cupy') and '.' in d else d,
                 *([x.sym for x in a] + [('kw', k, v.sym) for k, v in sorted(kwargs.items()) if k != '**']))
        o = self.out_arg(st, kwargs, args, d)
        if o is not None:
            again = name in ARITH and any(x.locs & o.locs for x in a[:2])
            self.write(st, o, n, 'in-place operator' if again else f'{name}(out=)')
            return o
        if d.startswith('operator.') and name in INPLACE_OPERATOR and a:
            self.write(st, a[0], n, d)
            return a[0] if name not in ('setitem', 'delitem') else NONE
        if d.endswith('.at') and a:
            self.write(st, a[0], n, d)
            return NONE
        if name in MUT_ARG0_FUNCS and a:
            self.write(st, a[0], n, name)
            return NONE
        if name == 'nan_to_num' and a:
            c = kwargs.get('copy') or (a[1] if len(a) > 1 else None)
            if c is not None and c.const is not True:
                self.write(st, a[0], n, 'nan_to_num(copy=False)')
                return a[0]
        if name == 'array' and a:
            c = kwargs.get('copy')
            if c is not None and c.const is not True and c.const is not NOCONST:
                return a[0].with_(kinds=ARRAYK, sym=sym, const=NOCONST, fn=None)
            return self.fresh(n, ARRAYK, sym)
        if name == 'copy' and d.startswith('copy.') and a:
            # shallow copy of an object: new identity, shared attributes
            return self.shallow_copy(st, a[0], n)
        if name == 'deepcopy' and a:
            l = ('new', 'deepcopy', self.site(n))
            ks = a[0].kinds - {'None'}
            return Val(frozenset([l]), ks, mk('deepcopy', a[0].sym))
        if name in VIEW_FUNCS and a:
            if name in ('asarray', 'ascontiguousarray', 'asanyarray', 'asfarray') and a[0].kinds & {'list', 'tuple', 'int', 'float'} and not (a[0].kinds & {'ndarray', '?'}):
                return self.fresh(n, ARRAYK, sym)
            return Val(a[0].locs, ARRAYK, sym)
        if name == 'partial' and a:
            return Val(kinds=frozenset(['func']), fn=a[0].fn)
        if name in ('defaultdict', 'OrderedDict', 'Counter', 'deque'):
            k = 'dict' if name != 'deque' else 'list'
            l = ('cont', k, self.site(n))
            if name == 'defaultdict' and n.args:
                fk = {'OrderedDict': 'dict', 'dict': 'dict', 'list': 'list', 'set': 'set', 'deque': 'list', 'defaultdict': 'dict'}.get(
                    (dotted(n.args[0]) or '').split('.')[-1])
                if fk and (l, '[*]') not in st.heap:
                    st.heap[(l, '[*]')] = Val(frozenset([('cont', fk, self.site(n) + ('default',))]), frozenset([fk]))
            return Val(frozenset([l]), frozenset([k]))
        if name == 'combinations' or name == 'product' or name == 'chain':
            return Val(kinds=EMPTY)
        root0 = d.split('.')[0]
        isnp = root0 in ('np', 'cp', 'xp', 'numpy', 'cupy', 'scipy', 'cupyx')
        if isnp:
            if name in ('sum', 'mean', 'max', 'min', 'std', 'var', 'median', 'ptp', 'dot', 'prod', 'float32', 'float64', 'int32', 'argmax', 'argmin'):
                return self.fresh(n, EMPTY, sym)
            if name in ('isscalar', 'array_equal', 'allclose', 'iscomplexobj', 'isrealobj', 'issubdtype'):
                return Val(kinds=frozenset(['bool']), sym=sym)
            if name in NP_ALLOC:
                return self.fresh(n, ARRAYK, sym)
        return self.fresh(n, EMPTY, sym)

    def shallow_copy(self, st, v, n):
        ks = v.kinds - {'None'}
        if ks & {'list', 'dict'}:
            l = ('cont', 'list' if 'list' in ks else 'dict', self.site(n))
        else:
            l = ('new', sorted(ks)[0] if ks else 'copy', self.site(n))
        for key in [k for k in st.heap if k[0] == l]:
            del st.heap[key]
        if len(v.locs) >= 1:
            for ll in v.locs:
                for (hl, hk), hv in list(st.heap.items()):
                    if hl == ll:
                        st.heap[(l, hk)] = hv
                # symbolic attributes not yet materialised keep aliasing
                for c in ks:
                    if c in self.ix.classes:
                        for at, kk in self.class_summary(c).items():
                            if (l, at) not in st.heap:
                                st.heap[(l, at)] = Val(frozenset([('path', ll, at)]) if not (kk and kk <= self.SCALARK) else EMPTY, kk, mk('attr', v.sym, at))
        return Val(frozenset([l]), ks, mk('copy', v.sym))

    def call_method(self, st, b, name, args, kwargs, n):
        """Method of a builtin container, array or unknown object."""
        self.mon.on_call(self, st, '.' + name, b, args, kwargs, n)
        if self.mon.model is not None:
            r = self.mon.model.method(self, st, b, name, args, kwargs, n)
            if r is not None:
                return r
        a = [x for x in args if x is not None]
        sym = mk('call', '.' + name, b.sym, *([x.sym for x in a] + [('kw', k, v.sym) for k, v in sorted(kwargs.items()) if k != '**']))
        if b.kinds & {'list', 'dict', 'set', 'tuple', 'defaultdict'}:
            r = self.container_method(st, b, name, a, kwargs, n)
            if r is not None:
                return r
        if b.kinds == frozenset(['str']):
            if name in ('split', 'splitlines', 'rsplit'):
                l = ('cont', 'list', self.site(n))
                st.heap[(l, '[*]')] = Val(kinds=frozenset(['str']))
                return Val(frozenset([l]), frozenset(['list']), sym)
            if name in ('endswith', 'startswith', 'isdigit'):
                return Val(kinds=frozenset(['bool']), sym=sym)
            return Val(kinds=frozenset(['str']), sym=sym)
        o = self.out_arg(st, kwargs, args, name, True)
        if o is not None:
            self.write(st, o, n, f'{name}(out=)')
            return o
        if name in INPLACE_DUNDER:
            self.write(st, b, n, f'.{name}()')
            return b if name not in ('__setitem__', '__delitem__') else NONE
        if name == 'byteswap' and (kwargs.get('inplace') or (a[0] if a else constval(False))).const is not False:
            self.write(st, b, n, f'.{name}()')
            return b
        if name in MUT_METHODS:
            if name in ('fill', 'sort', 'resize', 'put', 'partition', 'itemset', 'set', 'setfield'):
                self.write(st, b, n, f'.{name}()')
            return NONE
        if name == 'get' and b.kinds & {'ndarray'}:
            return self.fresh(n, ARRAYK, mk('same', b.sym))
        if name == 'get':
            # e.g. header.get(key[, default])
            return Val(EMPTY, EMPTY, mk('item', b.sym, a[0].sym if a else UNK))
        if name == 'astype':
            c = kwargs.get('copy')
            if c is not None and c.const is not True:
                return Val(b.locs | (frozenset([('arr', self.site(n))])), ARRAYK, sym) if c.const is NOCONST else Val(b.locs, ARRAYK, sym)
            return self.fresh(n, ARRAYK, sym)
        if name in VIEW_METHODS:
            return Val(b.locs, ARRAYK, sym)
        if name == 'copy':
            if b.kinds and not b.kinds <= {'ndarray', '?', 'None'}:
                return self.shallow_copy(st, b, n)
            return self.fresh(n, ARRAYK, mk('same', b.sym))
        if name in ('flatten', 'dot', 'round', 'conj', 'conjugate', 'repeat', 'take', 'cumsum', 'clip'):
            return self.fresh(n, ARRAYK, sym)
        if name in ('item', 'tolist', 'any', 'all'):
            return Val(sym=sym)
        if name in ('append', 'extend', 'update', 'setdefault', 'insert', 'clear', 'pop', 'popitem', 'remove', 'add', 'appendleft', 'popleft') :
            self.mon.on_write(self, st, b.locs, n, f'.{name}()', a[0] if a else None)
            if name == 'pop':
                return Val(b.locs, EMPTY)
        return self.fresh(n, EMPTY, sym)

    def container_method(self, st, b, name, a, kwargs, n):
        if name in ('append', 'add', 'appendleft', 'insert'):
            v = a[-1] if a else Val()
            for l in b.locs:
                st.heap[(l, '[*]')] = join(st.heap.get((l, '[*]')), v)
            self.mon.on_write(self, st, b.locs, n, f'.{name}()', v)
            return NONE
        if name == 'extend':
            e = self.element(st, a[0], n) if a else Val()
            for l in b.locs:
                st.heap[(l, '[*]')] = join(st.heap.get((l, '[*]')), e)
            self.mon.on_write(self, st, b.locs, n, '.extend()', e)
            return NONE
        if name in ('items', 'values', 'keys'):
            if not b.kinds & {'dict', 'defaultdict'}:
                return None
            pairs = []
            for l in b.locs:
                for (hl, hk), hv in sorted(((k, v) for k, v in st.heap.items() if k[0] == l and k[1].startswith('[')), key=lambda x: x[0][1]):
                    pairs.append((hk, hv))
            cl = ('cont', 'list', self.site(n))
            for key in [k for k in st.heap if k[0] == cl]:
                del st.heap[key]
            exact = bool(pairs) and all(hk != '[*]' for hk, _ in pairs) and len(b.locs) == 1 and all(l[0] in ('cont',) for l in b.locs)
            if exact:
                for i, (hk, hv) in enumerate(pairs):
                    kc = constval(ast.literal_eval(hk[1:-1]))
                    if name == 'values':
                        st.heap[(cl, f'[{i}]')] = hv
                    elif name == 'keys':
                        st.heap[(cl, f'[{i}]')] = kc
                    else:
                        tl = ('cont', 'tuple', self.site(n) + (hk,))
                        st.heap[(tl, '[0]')] = kc
                        st.heap[(tl, '[1]')] = hv
                        st.heap[(cl, f'[{i}]')] = Val(frozenset([tl]), frozenset(['tuple']))
                return Val(frozenset([cl]), frozenset(['list']))
            jv = None
            for hk, hv in pairs:
                jv = join(jv, hv) if jv is not None else hv
            if jv is None:
                sl = frozenset(l for l in b.locs if root(l)[0] in ('in', 'param'))
                ek = EMPTY
                for l in sl:
                    ek = ek | self.elem_kinds(l)
                jv = Val(sl, ek if len(sl) == 1 else EMPTY)
            kv = Val(kinds=frozenset(['str', '?']))
            if name == 'values':
                e = jv
            elif name == 'keys':
                e = kv
            else:
                tl = ('cont', 'tuple', self.site(n))
                st.heap[(tl, '[0]')] = kv
                st.heap[(tl, '[1]')] = jv
                e = Val(frozenset([tl]), frozenset(['tuple']))
            return Val(kinds=frozenset(['iter']), fn=('iter', e))
        if name in ('get', 'pop', 'setdefault'):
            r = None
            for l in b.locs:
                if a and a[0].const is not NOCONST and (b.kinds & {'dict', 'defaultdict'}):
                    v = st.heap.get((l, f'[{a[0].const!r}]'))
                    if v is None:
                        v = st.heap.get((l, '[*]'))
                else:
                    v = self.all_elems(st, l)
                if v is not None:
                    r = join(r, v) if r is not None else v
            if name == 'setdefault' and len(a) > 1:
                for l in b.locs:
                    key = f'[{a[0].const!r}]' if a[0].const is not NOCONST else '[*]'
                    st.heap[(l, key)] = join(st.heap.get((l, key)), a[1]) if (l, key) in st.heap else a[1]
                self.item_key = a[0]
                self.mon.on_item(self, st, b.locs, [a[0].const if a[0].const is not NOCONST else '*'], a[1], n)
            if name != 'get':
                if name == 'pop' and a and a[0].const is not NOCONST and len(b.locs) == 1 and b.kinds & {'dict', 'defaultdict'}:
                    (l,) = b.locs
                    st.heap.pop((l, f'[{a[0].const!r}]'), None)
                    self.mon.on_delitem(self, st, b.locs, a[0].const, n)
                self.mon.on_write(self, st, b.locs, n, f'.{name}()', None)
            if len(a) > 1:
                r = join(r, a[1]) if r is not None else a[1]
            elif name == 'get' and b.kinds & {'dict', 'defaultdict'} and r is None:
                return Val(sym=mk('item', b.sym, a[0].sym if a else UNK))
            return r if r is not None else Val(sym=mk('item', b.sym, a[0].sym if a else UNK))
        if name in ('update',):
            for kk, v in kwargs.items():
                for l in b.locs:
                    st.heap[(l, f'[{kk!r}]')] = v
                self.mon.on_item(self, st, b.locs, [kk], v, n)
            for l in b.locs:
                for v in a:
                    for ll in v.locs:
                        for (hl, hk), hv in list(st.heap.items()):
                            if hl == ll and isinstance(hk, str) and hk.startswith('['):
                                st.heap[(l, hk)] = join(st.heap[(l, hk)], hv) if hk == '[*]' and (l, hk) in st.heap else hv
                                try:
                                    kc = '*' if hk == '[*]' else ast.literal_eval(hk[1:-1])
                                except Exception:
                                    kc = '*'
                                self.mon.on_item(self, st, b.locs, [kc], hv, n)
            self.mon.on_write(self, st, b.locs, n, '.update()', None)
            return NONE
        if name in ('clear', 'remove', 'sort', 'reverse', 'popitem'):
            self.mon.on_write(self, st, b.locs, n, f'.{name}()', None)
            return NONE
        if name == 'copy':
            return self.shallow_copy(st, b, n)
        if name in ('index', 'count'):
            return Val(kinds=frozenset(['int']))
        return None


class Function_nested:
    """A nested function or lambda."""

    def __init__(self, node, outer):
        self.node = node
        self.module = outer.module
        self.cls = None
        self.outer = outer
        self.name = getattr(node, 'name', '<lambda>')
        self.decorators = set()
        self.is_static = False
        self.is_classmethod = False
        self.is_property = False

    @property
    def is_generator(self):
        return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(self.node))

    @property
    def qual(self):
        return self.outer.qual + '.' + self.name

    @property
    def where(self):
        return f'{self.module.rel}:{self.qual}'
