"""Control-flow paths of a function with helper inlining and value numbering.

A function is unfolded into its acyclic paths: a loop contributes one path that
skips it and paths through one arbitrary iteration (variables the body assigns
are opaque at the start of it).  Local names and attributes of `self` are
replaced by the value they were given (value numbering), so renaming, reordering
of independent statements, temporaries and extracted helpers give the same
paths.  Conditions are reduced to canonical atoms.  Nothing is solved: two
occurrences of the same atom on a path have the same truth value, and that is
all the reasoning there is.

Values (tuples):
  ('c', const) ('v', name) ('a', base, attr) ('i', base, index)
  ('call', f, args, kwargs) ('op', op, l, r) ('not', x) ('and', ...) ('or', ...)
  ('cmp', op, l, r) with op in < == is in   ('elem', iter, loopid)
  ('tup', kind, items) ('dict', items) ('ite', c, a, b) ('comp', kind, elt, iter, ifs)
  ('phi', loopid, name) ('fn', name) ('?', tag)
Trace items:
  ('cond', atom, truth) ('call', value, node) ('store', lvalue, value, node)
  ('loop', id, iter) ('skip', id, iter) ('endloop', id, how) ('except', types) ('yield', value)
"""
import ast

NEG = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}
BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
PURE = {'len', 'sorted', 'range', 'enumerate', 'zip', 'list', 'tuple', 'set', 'dict', 'int', 'float', 'str', 'bool', 'isinstance',
        'type', 'hasattr', 'getattr', 'min', 'max', 'sum', 'any', 'all', 'abs', 'round', 'reversed', 'iter', 'map', 'filter', 'repr',
        'issubclass', 'id', 'frozenset', 'callable', 'vars', 'dir', 'next'}


_FOLD = {}


def folded(body):
    """A list filled by a loop that does nothing else is a comprehension."""
    k = id(body)
    if k in _FOLD and _FOLD[k][0] is body:
        return _FOLD[k][1]
    new = list(body)
    i = 0
    while i < len(new):
        s = new[i]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and (
                isinstance(s.value, ast.List) and not s.value.elts
                or isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'list' and not s.value.args):
            n = s.targets[0].id
            for j in range(i + 1, len(new)):
                if any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(new[j])):
                    c = appends(new[j], n)
                    if c is not None and not {x.id for x in ast.walk(new[j].target) if isinstance(x, ast.Name)} & {
                            x.id for r in new[j + 1:] for x in ast.walk(r) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}:
                        a = ast.copy_location(ast.Assign([s.targets[0]], c), new[j])
                        new[j:j + 1] = [a]
                        del new[i]
                        i -= 1
                    break
        i += 1
    _FOLD[k] = (body, new)
    return new


def appends(loop, n):
    if not isinstance(loop, ast.For) or loop.orelse or not isinstance(loop.target, (ast.Name, ast.Tuple)):
        return None
    ifs, body = [], loop.body
    while True:
        s = body[0]
        if isinstance(s, ast.If) and not s.orelse and len(body) == 1:
            ifs.append(s.test)
            body = s.body
        elif isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and len(body) > 1:
            ifs.append(ast.copy_location(ast.UnaryOp(ast.Not(), s.test), s.test))
            body = body[1:]
        elif len(body) == 1 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                and s.value.func.attr == 'append' and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == n \
                and len(s.value.args) == 1 and not s.value.keywords:
            e = s.value.args[0]
            break
        else:
            return None
    for x in ifs + [e, loop.iter]:
        if any(isinstance(q, ast.Name) and q.id == n or isinstance(q, (ast.Yield, ast.Await, ast.NamedExpr)) for q in ast.walk(x)):
            return None
    return ast.copy_location(ast.ListComp(e, [ast.comprehension(loop.target, loop.iter, ifs, 0)]), loop)


class TooMany(Exception):
    pass


class St:
    __slots__ = ('env', 'conds', 'trace')

    def __init__(self, env=None, conds=None, trace=()):
        self.env = env if env is not None else {}
        self.conds = conds if conds is not None else {}
        self.trace = trace

    def copy(self):
        return St(dict(self.env), dict(self.conds), self.trace)

    def add(self, *item):
        self.trace = self.trace + (item,)


class Path:
    """trace, how it ends ('return'|'raise'), value"""
    def __init__(self, st, how, value, node=None):
        self.trace = st.trace
        self.conds = st.conds
        self.env = st.env
        self.how = how
        self.value = value
        self.node = node

    def calls(self, name=None):
        out = []
        for i, x in enumerate(self.trace):
            if x[0] == 'call' and (name is None or callee(x[1]) == name):
                out.append((i, x[1], x[2]))
        return out

    def stores(self, attr=None):
        return [(i, x[1], x[2], x[3]) for i, x in enumerate(self.trace)
                if x[0] == 'store' and (attr is None or (x[1][0] == 'a' and x[1][2] == attr))]

    def loops_at(self, i):
        """Loops open at trace position i: list of (id, iter)."""
        open_ = []
        for x in self.trace[:i]:
            if x[0] == 'loop':
                open_.append((x[1], x[2]))
            elif x[0] == 'endloop':
                open_ = [o for o in open_ if o[0] != x[1]]
        return open_

    def conds_before(self, i, loop=None):
        """Conditions decided before position i (after entry of `loop`)."""
        out = []
        for x in self.trace[:i]:
            if loop is not None and x[0] == 'loop' and x[1] == loop:
                out = []
            if x[0] == 'cond':
                out.append((x[1], x[2]))
        return out

    @property
    def exceptional(self):
        return any(x[0] == 'except' for x in self.trace)


def callee(v):
    f = v[1]
    if f[0] == 'a':
        return f[2]
    if f[0] in ('v', 'fn'):
        return f[1]
    return None


def recv(v):
    f = v[1]
    return f[1] if f[0] == 'a' else None


def arg(v, pos, name, default=None):
    kw = dict(v[3])
    if name in kw:
        return kw[name]
    if pos is not None and pos < len(v[2]):
        return v[2][pos]
    return default


def walk(v):
    yield v
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                yield from walk(x)


def mentions(v, pred):
    return any(isinstance(x, tuple) and x and pred(x) for x in walk(v))


def has_attr(v, attr):
    return mentions(v, lambda x: x[0] == 'a' and len(x) == 3 and x[2] == attr)


def show(v):
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    if k == 'c':
        return repr(v[1])
    if k in ('v', 'fn'):
        return str(v[1])
    if k == 'a':
        return show(v[1]) + '.' + v[2]
    if k == 'i':
        return f'{show(v[1])}[{show(v[2])}]'
    if k == 'call':
        a = [show(x) for x in v[2]] + [f'{n}={show(x)}' for n, x in v[3]]
        return f"{show(v[1])}({', '.join(a)})"
    if k == 'op':
        return f'({show(v[2])} {v[1]} {show(v[3])})'
    if k == 'cmp':
        return f'({show(v[2])} {v[1]} {show(v[3])})'
    if k == 'not':
        return f'not {show(v[1])}'
    if k in ('and', 'or'):
        return '(' + f' {k} '.join(show(x) for x in v[1:]) + ')'
    if k == 'elem':
        return f'each of {show(v[1])}'
    if k == 'ite':
        return f'({show(v[2])} if {show(v[1])} else {show(v[3])})'
    if k == 'comp':
        return f'{v[1]} of {show(v[2])} over {show(v[3])}'
    if k == 'tup':
        return '[' + ', '.join(show(x) for x in v[2]) + ']'
    return '<' + ':'.join(str(x) for x in v[:2] if not isinstance(x, tuple)) + '>'


def rebound(ix):
    """initial values of module variables that a function assigns again"""
    r = getattr(ix, '_rebound', None)
    if r is None:
        r = set()
        for m in ix.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    for g in n.names:
                        s = m.symbols.get(g)
                        if s and s[0] == 'const':
                            r.add(id(s[1]))
        ix._rebound = r
    return r


class Paths:
    def __init__(self, ix, cls=None, limit=6000, depth=5, inline=None, noinline=(), false=('MPI_DBG', 'MPI_SEND_DBG', 'verbose'), quiet=('print',), oracle=None, cut=None, ident=False, unroll=False, elements=None):
        self.ix = ix
        self.oracle = oracle    # value -> True/False/None
        self.cut = cut          # iterated value -> analyse one iteration, continue as one path
        self.ident = ident      # give empty displays an identity
        self.unroll = unroll    # unfold loops over literal sequences
        self.elements = elements    # iterated value -> its (symbolic) elements, or None
        self.iterations = []    # (loop id, state, how) of cut loops
        self.cls = cls
        self.limit = limit
        self.depth = depth
        self.frames = []        # (Function, frame id)
        self.count = 0
        self.noinline = set(noinline)
        self.inline = inline    # optional predicate(Function)->bool
        self.raised = []
        self.false = set(false)
        self.quiet = set(quiet)
        self.visited = set()

    # -- entry ---------------------------------------------------------
    def run(self, f, args=None):
        """All paths of Function f."""
        st = St()
        self.frames.append((f, 0))
        a = f.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            st.env[(0, p.arg)] = (args or {}).get(p.arg, ('v', p.arg))
        self.visited.add(f.where)
        out = []
        for s, how, val, node in self.block(st, f.node.body):
            if how == 'fall':
                how, val = 'return', ('c', None)
            out.append(Path(s, how, val, node))
        self.frames.pop()
        return out

    def fid(self):
        return self.frames[-1][1]

    def module(self):
        return self.frames[-1][0].module

    def guard(self, n):
        self.count += n
        if self.count > self.limit * 40:
            raise TooMany()

    # -- statements -----------------------------------------------------
    def block(self, st, body):
        live = [(st, 'fall', None, None)]
        for s in folded(body):
            nxt = []
            done = []
            for (x, how, v, n) in live:
                if how != 'fall':
                    done.append((x, how, v, n))
                else:
                    nxt.extend(self.merge(x, self.stmt(x, s)))
            live = done + nxt
            self.guard(len(live))
            if len(live) > self.limit:
                live = self.dedup(live)
                if len(live) > self.limit:
                    raise TooMany()
            if not any(h == 'fall' for _, h, _, _ in live):
                break
        return live

    def merge(self, x, res):
        """A branch that neither does nor changes anything is not a branch."""
        if len(res) < 2 or any(h != 'fall' for _, h, _, _ in res):
            return res
        k = len(x.trace)
        e0 = res[0][0].env
        for y, _, _, _ in res:
            if any(t[0] != 'cond' for t in y.trace[k:]) or y.env != e0:
                return res
        y = res[0][0].copy()
        y.trace = x.trace
        y.conds = dict(x.conds)
        return [(y, 'fall', None, None)]

    def dedup(self, live):
        seen = {}
        for x, how, v, n in live:
            k = (x.trace, how, v)
            try:
                seen.setdefault(k, (x, how, v, n))
            except TypeError:
                seen[id(x)] = (x, how, v, n)
        return list(seen.values())

    def stmt(self, st, s):
        saved, self.raised = self.raised, []
        res = self.stmt_(st, s)
        res = res + [(x, 'raise', v, n) for x, v, n in self.raised]
        self.raised = saved
        return res

    def stmt_(self, st, s):
        F = 'fall'
        if isinstance(s, ast.Expr):
            return [(x, F, None, None) for x, v in self.ev(st, s.value)]
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return [(st, F, None, None)]
        if isinstance(s, ast.Assign):
            out = []
            for x, v in self.ev(st, s.value):
                xs = [x]
                for t in s.targets:
                    xs = [z for y in xs for z in self.assign(y, t, v, s)]
                out += [(y, F, None, None) for y in xs]
            return out
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return [(st, F, None, None)]
            return [(y, F, None, None) for x, v in self.ev(st, s.value) for y in self.assign(x, s.target, v, s)]
        if isinstance(s, ast.AugAssign):
            out = []
            load = ast.copy_location(_load(s.target), s.target)
            for x, old in self.ev(st, load):
                for y, v in self.ev(x, s.value):
                    out += [(z, F, None, None) for z in self.assign(y, s.target, norm_op(BIN.get(type(s.op), '?'), old, v), s)]
            return out
        if isinstance(s, ast.Return):
            if s.value is None:
                return [(st, 'return', ('c', None), s)]
            return [(x, 'return', v, s) for x, v in self.ev(st, s.value)]
        if isinstance(s, ast.Raise):
            if s.exc is None:
                return [(st, 'raise', ('v', 'reraise'), s)]
            return [(x, 'raise', v, s) for x, v in self.ev(st, s.exc)]
        if isinstance(s, ast.Break):
            return [(st, 'break', None, s)]
        if isinstance(s, ast.Continue):
            return [(st, 'continue', None, s)]
        if isinstance(s, ast.If):
            out = []
            for x, t in self.cond(st, s.test):
                out += self.block(x, s.body if t else s.orelse)
            return out
        if isinstance(s, (ast.For, ast.AsyncFor)):
            return self.for_(st, s)
        if isinstance(s, ast.While):
            return self.while_(st, s)
        if isinstance(s, ast.Try):
            return self.try_(st, s)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            xs = [st]
            for it in s.items:
                ys = []
                for x in xs:
                    for y, v in self.ev(x, it.context_expr):
                        if it.optional_vars is not None:
                            ys += self.assign(y, it.optional_vars, v, s)
                        else:
                            ys.append(y)
                xs = ys
            return [r for x in xs for r in self.block(x, s.body)]
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            st = st.copy()
            st.env[(self.fid(), s.name)] = ('lfn', s.name, self.fid(), id(s))
            LOCALFN[id(s)] = s
            return [(st, F, None, None)]
        if isinstance(s, ast.Delete):
            st = st.copy()
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    rs = [(z, b, k) for y, b in self.ev(st, t.value) for z, k in self.ev(y, t.slice)]
                    st, b, k = rs[0]
                    st = st.copy()
                    st.add('del', ('i', b, k), s)
            return [(st, F, None, None)]
        if isinstance(s, ast.Assert):
            out = []
            for x, t in self.cond(st, s.test):
                out.append((x, F, None, None) if t else (x, 'raise', ('v', 'AssertionError'), s))
            return out
        return [(st, F, None, None)]

    def assign(self, st, t, v, node):
        if isinstance(t, ast.Name):
            st = st.copy()
            st.env[(self.fid(), t.id)] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            items = v[2] if v[0] == 'tup' and len(v[2]) == len(t.elts) else None
            xs = [st]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    e, w = e.value, ('?', 'star')
                else:
                    w = items[i] if items else self.index(v, ('c', i))
                xs = [z for x in xs for z in self.assign(x, e, w, node)]
            return xs
        if isinstance(t, ast.Attribute):
            out = []
            for x, b in self.ev(st, t.value):
                x = x.copy()
                lv = ('a', b, t.attr)
                x.env[('@', lv)] = v
                # conditions on the old value no longer hold
                for c in [c for c in x.conds if mentions(c, lambda q: q == lv)]:
                    del x.conds[c]
                x.add('store', lv, v, node)
                out.append(x)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, b in self.ev(st, t.value):
                for y, k in self.ev(x, t.slice):
                    y = y.copy()
                    y.env[('@', ('i', b, k))] = v
                    y.add('store', ('i', b, k), v, node)
                    out.append(y)
            return out
        return [st]

    def index(self, v, k):
        if v[0] == 'tup' and k[0] == 'c' and isinstance(k[1], int) and -len(v[2]) <= k[1] < len(v[2]):
            return v[2][k[1]]
        if v[0] == 'dict' and len(v) == 2 and k[0] == 'c' and all(x[0] == 'c' for x, y in v[1]):
            for x, y in reversed(v[1]):
                if x == k:
                    return y
        # element of .items()/enumerate/zip
        if v[0] == 'elem' and v[1][0] == 'call':
            f = callee(v[1])
            if f == 'zip' and k[0] == 'c' and isinstance(k[1], int) and k[1] < len(v[1][2]):
                return ('elem', v[1][2][k[1]], v[2])
            if f == 'enumerate' and k == ('c', 1) and v[1][2]:
                return ('elem', v[1][2][0], v[2])
            if f == 'items' and recv(v[1]) is not None and not v[1][2]:
                if k == ('c', 0):
                    return ('elem', recv(v[1]), v[2])
                if k == ('c', 1):
                    return ('i', recv(v[1]), ('elem', recv(v[1]), v[2]))
        return ('i', v, k)

    # -- loops -----------------------------------------------------------
    def forget(self, st, body, lid):
        """Variables assigned in the body are opaque at the start of an arbitrary iteration."""
        names = set()
        attrs = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    attrs.add(n.attr)
        st = st.copy()
        for k in list(st.env):
            if k[0] == self.fid() and k[1] in names:
                st.env[k] = ('phi', lid, k[1])
            elif k[0] == '@' and k[1][0] == 'a' and k[1][2] in attrs:
                st.env[k] = ('phi', lid, show(k[1]))
        return st

    def lid(self, node):
        return (node.lineno, node.col_offset, tuple(f[1] for f in self.frames))

    def itval(self, v):
        """Iterating d and d.keys() is the same; so is list(x)/tuple(x)."""
        while v[0] == 'call' and ((v[1][0] == 'v' and v[1][1] in ('list', 'tuple', 'iter') and len(v[2]) == 1)
                                  or (v[1][0] == 'a' and v[1][2] == 'keys' and not v[2])):
            v = v[2][0] if v[2] else v[1][1]
        return v

    def for_(self, st, s):
        out = []
        for x, it in self.ev(st, s.iter):
            it = self.itval(it)
            lid = self.lid(s)
            if self.unroll and it[0] == 'tup' and len(it) == 3 and len(it[2]) <= 6 and all(v[0] == 'c' for v in it[2]):
                out += self.unrolled(x, s, it[2], lid)
                continue
            es = self.items_of(it)
            if es is not None:
                out += self.unrolled(x, s, es, lid)
                continue
            if self.cut is not None and self.cut(it):
                out += self.cut_(x, s, it, lid)
                continue
            z = x.copy()
            z.add('skip', lid, it)
            out += self.block(z, s.orelse)
            y = self.forget(x, s.body, lid)
            y.add('loop', lid, it)
            for y2 in self.assign(y, s.target, self.elem(it, lid), s):
                for r, how, v, n in self.block(y2, s.body):
                    r = r.copy()
                    if how in ('fall', 'continue'):
                        r.add('endloop', lid, 'next')
                        out += self.block(r, s.orelse)
                    elif how == 'break':
                        r.add('endloop', lid, 'break')
                        out.append((r, 'fall', None, None))
                    else:
                        out.append((r, how, v, n))
        return out

    def items_of(self, it):
        """The elements of an iterated value, when they are given."""
        if self.elements is None:
            return None
        it = self.itval(it)
        if it[0] == 'tup':
            return it[2]
        if it[0] == 'dict' and len(it) == 2:
            return tuple(k for k, v in it[1])
        if it[0] == 'call':
            f = callee(it)
            if it[1][0] == 'a' and f in ('items', 'values') and not it[2]:
                b = recv(it)
                if b[0] == 'dict' and len(b) == 2:
                    return tuple(('tup', 'tuple', kv) if f == 'items' else kv[1] for kv in b[1])
                ks = self.items_of(b)
                if ks is None:
                    return None
                return tuple(('tup', 'tuple', (k, ('i', b, k))) if f == 'items' else ('i', b, k) for k in ks)
            if it[1][0] == 'v' and f in ('enumerate', 'zip', 'reversed', 'sorted', 'set') and it[2]:
                es = [self.items_of(x) for x in it[2][:1 if f != 'zip' else None]]
                if any(e is None for e in es):
                    return None
                if f == 'enumerate':
                    return tuple(('tup', 'tuple', (('c', i), e)) for i, e in enumerate(es[0]))
                if f == 'zip':
                    return tuple(('tup', 'tuple', e) for e in zip(*es))
                return tuple(reversed(es[0])) if f == 'reversed' else es[0]
        if it[0] == 'i' and it[2][0] == 'slice' and all(x[0] == 'c' for x in it[2][1:]):
            b = self.items_of(it[1])
            return None if b is None else b[slice(*[x[1] for x in it[2][1:]])]
        if it[0] == 'op' and it[1] == '+':
            a, b = self.items_of(it[2]), self.items_of(it[3])
            return None if a is None or b is None else a + b
        es = self.elements(it)
        return None if es is None else tuple(es)

    def comp_elements(self, st, n, elts, kind):
        g = n.generators
        def rec(x, i):
            if i == len(g):
                return [(y, ((vs[0] if len(vs) == 1 else ('tup', 'pair', vs)),)) for y, vs in self.evs(x, elts)]
            out = []
            for y, it in self.ev(x, g[i].iter):
                es = self.items_of(it)
                if es is None:
                    return None
                live = [(y, ())]
                for e in es:
                    nxt = []
                    for z, acc in live:
                        for z2 in self.assign(z, g[i].target, e, n):
                            ok = [(z2, True)]
                            for c in g[i].ifs:
                                ok = [q for w, t in ok for q in (self.cond(w, c) if t else [(w, False)])]
                            for w, t in ok:
                                if not t:
                                    nxt.append((w, acc))
                                    continue
                                r = rec(w, i + 1)
                                if r is None:
                                    return None
                                nxt += [(q, acc + its) for q, its in r]
                    live = nxt
                    self.guard(len(live))
                out += live
            return out
        res = rec(st, 0)
        if res is None:
            return None
        if kind == 'dict':
            return [(x, ('dict', tuple(v[2] for v in vs))) for x, vs in res]
        return [(x, ('tup', 'set' if kind == 'set' else 'list', vs)) for x, vs in res]

    def unrolled(self, x, s, it, lid):
        live, out = [x], []
        for v in it:
            nxt = []
            for y in live:
                for y2 in self.assign(y, s.target, v, s):
                    for r, how, val, n in self.block(y2, s.body):
                        if how in ('fall', 'continue'):
                            nxt.append(r)
                        elif how == 'break':
                            out.append((r, 'fall', None, None))
                        else:
                            out.append((r, how, val, n))
            live = nxt
            self.guard(len(live))
        for y in live:
            out += self.block(y, s.orelse)
        return out

    def cut_(self, x, s, it, lid):
        out = []
        y = self.forget(x, s.body, lid)
        end = y.copy()
        y.add('loop', lid, it)
        for y2 in self.assign(y, s.target, self.elem(it, lid), s):
            for r, how, v, n in self.block(y2, s.body):
                self.iterations.append((lid, r, how, n))
                if how in ('return', 'raise'):
                    out.append((r, how, v, n))
        end.add('cutloop', lid, it)
        return out + self.block(end, s.orelse)

    def elem(self, it, lid):
        # iterating over values() of a dictionary
        if it[0] == 'call' and it[1][0] == 'a' and it[1][2] == 'values' and not it[2]:
            return ('i', it[1][1], ('elem', it[1][1], lid))
        if it[0] == 'comp' and not it[4]:
            return it[2]
        return ('elem', it, lid)

    def while_(self, st, s):
        out = []
        lid = self.lid(s)
        for x, t in self.cond(st, s.test):
            if not t:
                z = x.copy()
                z.add('skip', lid, ('c', 'while'))
                out += self.block(z, s.orelse)
        y = self.forget(st, s.body, lid)
        y.conds = {}
        for x, t in self.cond(y, s.test):
            if not t:
                continue
            x = x.copy()
            # mark the loop before the conditions that admit the iteration
            k = len(y.trace)
            x.trace = y.trace[:k] + (('loop', lid, ('c', 'while')),) + x.trace[k:]
            for r, how, v, n in self.block(x, s.body):
                r = r.copy()
                if how in ('fall', 'continue'):
                    r.add('endloop', lid, 'next')
                    out += self.block(r, s.orelse)
                elif how == 'break':
                    r.add('endloop', lid, 'break')
                    out.append((r, 'fall', None, None))
                else:
                    out.append((r, how, v, n))
        return out

    def try_(self, st, s):
        out = []
        for x, how, v, n in self.block(st, s.body):
            if how == 'fall':
                out += self.block(x, s.orelse)
            else:
                out.append((x, how, v, n))
        for h in s.handlers:
            y = self.forget(st, s.body, self.lid(h))
            y.add('except', ast.unparse(h.type) if h.type else 'any', self.lid(s))
            out += self.block(y, h.body)
        if s.finalbody:
            res = []
            for x, how, v, n in out:
                for y, h2, v2, n2 in self.block(x, s.finalbody):
                    res.append((y, how, v, n) if h2 == 'fall' else (y, h2, v2, n2))
            out = res
        return out

    # -- conditions -------------------------------------------------------
    def cond(self, st, n):
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            live = [st]
            out = []
            for i, e in enumerate(n.values):
                nxt = []
                for x in live:
                    for y, t in self.cond(x, e):
                        if t == isand and i < len(n.values) - 1:
                            nxt.append(y)
                        else:
                            out.append((y, t))
                live = nxt
            return out
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(x, not t) for x, t in self.cond(st, n.operand)]
        out = []
        for x, v in self.ev(st, n):
            out += self.truth(x, v)
        return out

    def truth(self, st, v):
        k = v[0]
        if k == 'c':
            return [(st, bool(v[1]))]
        if k == 'not':
            return [(x, not t) for x, t in self.truth(st, v[1])]
        if k in ('and', 'or'):
            isand = k == 'and'
            live, out = [st], []
            for i, e in enumerate(v[1:]):
                nxt = []
                for x in live:
                    for y, t in self.truth(x, e):
                        if t == isand and i < len(v) - 2:
                            nxt.append(y)
                        else:
                            out.append((y, t))
                live = nxt
            return out
        if k == 'ite':
            out = []
            for x, t in self.truth(st, v[1]):
                out += self.truth(x, v[2] if t else v[3])
            return out
        if k == 'call' and v[1] == ('v', 'bool') and len(v[2]) == 1:
            return self.truth(st, v[2][0])
        if (k == 'v' and v[1].split('.')[-1] in self.false) or (k == 'a' and v[2] in self.false):
            return [(st, False)]
        if k == 'tup' and len(v) == 3:
            return [(st, len(v[2]) > 0)]
        if self.oracle is not None:
            d = self.oracle(v)
            if d is not None:
                return [(st, bool(d))]
        d = decide(st.conds, v)
        if d is not None:
            return [(st, d)]
        out = []
        for t in (True, False):
            x = st.copy()
            x.conds[v] = t
            x.add('cond', v, t)
            out.append((x, t))
        return out

    # -- expressions -------------------------------------------------------
    def evs(self, st, nodes):
        live = [(st, ())]
        for n in nodes:
            live = [(y, vs + (v,)) for x, vs in live for y, v in self.ev(x, n)]
        return live

    def ev(self, st, n):
        if n is None:
            return [(st, ('c', None))]
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            return [(st, ('?', type(n).__name__))]
        return m(st, n)

    def x_Constant(self, st, n):
        return [(st, ('c', n.value))]

    def x_Name(self, st, n):
        for f in reversed(range(len(self.frames))):
            k = (self.frames[f][1], n.id)
            if k in st.env:
                return [(st, st.env[k])]
            # only lexically enclosing functions are visible
            if getattr(self.frames[f][0], 'outer_fid', None) is None:
                break
        s = self.ix.resolve_symbol(self.module(), n.id)
        if s and s[0] == 'func':
            return [(st, ('fn', n.id, s[1].where))]
        if s and s[0] == 'const' and isinstance(s[1], ast.Constant) and id(s[1]) not in rebound(self.ix):
            return [(st, ('c', s[1].value))]
        if s and s[0] == 'ext':
            return [(st, ('v', s[1]))]
        return [(st, ('v', n.id))]

    def x_Attribute(self, st, n):
        out = []
        for x, b in self.ev(st, n.value):
            v = ('a', b, n.attr)
            if ('@', v) in x.env:
                out.append((x, x.env[('@', v)]))
                continue
            f = self.resolve_prop(b, n.attr)
            if f is not None:
                out += self.call_fn(x, f, (b,), (), n)
            else:
                out.append((x, v))
        return out

    def resolve_prop(self, b, attr):
        if b == ('v', 'self') and self.cls:
            f = self.ix.find_method(self.cls, attr)
            if f is not None and f.is_property:
                return f
        return None

    def x_Subscript(self, st, n):
        out = []
        for x, b in self.ev(st, n.value):
            for y, k in self.ev(x, n.slice):
                v = ('i', b, k)
                out.append((y, y.env[('@', v)] if ('@', v) in y.env else self.index(b, k)))
        return out

    def x_Slice(self, st, n):
        return [(x, ('slice',) + vs) for x, vs in self.evs(st, [n.lower, n.upper, n.step])]

    def x_Tuple(self, st, n):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return [(x, ('?', 'starred', vs)) for x, vs in self.evs(st, [e.value if isinstance(e, ast.Starred) else e for e in n.elts])]
        if self.ident and not n.elts and isinstance(n, ast.List):
            return [(st, ('tup', 'list', (), self.lid(n)))]
        return [(x, ('tup', type(n).__name__.lower(), vs)) for x, vs in self.evs(st, n.elts)]

    x_List = x_Tuple
    x_Set = x_Tuple

    def x_Dict(self, st, n):
        ks = [k for k in n.keys if k is not None]
        vs = [v for k, v in zip(n.keys, n.values) if k is not None]
        if self.ident and not n.keys:
            return [(st, ('dict', (), self.lid(n)))]
        if len(ks) < len(n.keys) and not ks:
            return [(x, ('call', ('v', 'dict_union'), us, ())) for x, us in self.evs(st, n.values)]
        out = []
        for x, kv in self.evs(st, ks):
            for y, vv in self.evs(x, vs):
                out.append((y, ('dict', tuple(zip(kv, vv)))))
        return out

    def x_BinOp(self, st, n):
        return [(y, norm_op(BIN.get(type(n.op), '?'), a, b)) for x, a in self.ev(st, n.left) for y, b in self.ev(x, n.right)]

    def x_UnaryOp(self, st, n):
        out = []
        for x, v in self.ev(st, n.operand):
            if isinstance(n.op, ast.Not):
                out.append((x, neg(v)))
            elif isinstance(n.op, ast.USub):
                out.append((x, ('c', -v[1]) if v[0] == 'c' and isinstance(v[1], (int, float)) else ('op', 'neg', v, ('c', 0))))
            else:
                out.append((x, v))
        return out

    def x_BoolOp(self, st, n):
        k = 'and' if isinstance(n.op, ast.And) else 'or'
        return [(x, (k,) + vs) for x, vs in self.evs(st, n.values)]

    def x_Compare(self, st, n):
        out = []
        for x, vs in self.evs(st, [n.left] + n.comparators):
            parts = [cmp_(op, vs[i], vs[i + 1]) for i, op in enumerate(n.ops)]
            out.append((x, parts[0] if len(parts) == 1 else ('and',) + tuple(parts)))
        return out

    def x_IfExp(self, st, n):
        out = []
        for x, t in self.cond(st, n.test):
            out += self.ev(x, n.body if t else n.orelse)
        return out

    def x_JoinedStr(self, st, n):
        vals = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        lits = tuple(v.value if isinstance(v, ast.Constant) else None for v in n.values)
        return [(x, ('fstr', lits, vs)) for x, vs in self.evs(st, vals)]

    def x_Starred(self, st, n):
        return [(x, ('star', v)) for x, v in self.ev(st, n.value)]

    def x_NamedExpr(self, st, n):
        return [(y, v) for x, v in self.ev(st, n.value) for y in self.assign(x, n.target, v, n)]

    def x_Lambda(self, st, n):
        LOCALFN[id(n)] = n
        return [(st, ('lfn', '<lambda>', self.fid(), id(n)))]

    def x_Yield(self, st, n):
        out = []
        for x, v in self.ev(st, n.value):
            x = x.copy()
            x.add('yield', v)
            out.append((x, ('c', None)))
        return out

    def x_YieldFrom(self, st, n):
        return self.x_Yield(st, n)

    def x_Await(self, st, n):
        return self.ev(st, n.value)

    def x_ListComp(self, st, n):
        return self.comp(st, n, [n.elt], 'list')

    def x_SetComp(self, st, n):
        return self.comp(st, n, [n.elt], 'set')

    def x_GeneratorExp(self, st, n):
        return self.comp(st, n, [n.elt], 'gen')

    def x_DictComp(self, st, n):
        return self.comp(st, n, [n.key, n.value], 'dict')

    def comp(self, st, n, elts, kind):
        if self.elements is not None:
            r = self.comp_elements(st, n, elts, kind)
            if r is not None:
                return r
        out = []
        g = n.generators
        def rec(x, i, its, ifs):
            if i == len(g):
                for y, vs in self.evs(x, elts):
                    v = vs[0] if len(vs) == 1 else ('tup', 'pair', vs)
                    it = its[0] if len(its) == 1 else ('tup', 'iters', tuple(its))
                    yield y, ('comp', kind, v, it, tuple(ifs))
                return
            for y, it in self.ev(x, g[i].iter):
                it = self.itval(it)
                lid = self.lid(n) + (i,)
                y = y.copy()
                y.add('loop', lid, it)
                for z in self.assign(y, g[i].target, self.elem(it, lid), n):
                    for w, cs in self.evs(z, g[i].ifs):
                        for r, v in rec(w, i + 1, its + [it], ifs + list(cs)):
                            yield r, v
        # a comprehension without events is a pure value
        res = list(rec(st, 0, [], []))
        for y, v in res:
            ev = [t for t in y.trace[len(st.trace):] if t[0] in ('call', 'store', 'yield')]
            if ev:
                y = y.copy()
                opened = [t for t in y.trace[len(st.trace):] if t[0] == 'loop']
                for t in reversed(opened):
                    y.add('endloop', t[1], 'next')
            else:
                y = st.copy()
            out.append((y, v))
        if all(y.trace == st.trace for y, v in out):
            return out[:1]
        return out

    # -- calls --------------------------------------------------------------
    def x_Call(self, st, n):
        out = []
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return [(st, ('super',))]
        for x, fv in self.ev_callee(st, n.func):
            for y, args in self.evs(x, n.args):
                for z, kws in self.evs(y, [k.value for k in n.keywords]):
                    kw = tuple(zip([k.arg for k in n.keywords], kws))
                    out += self.call(z, fv, args, kw, n)
        return out

    def ev_callee(self, st, f):
        if isinstance(f, ast.Attribute):
            return [(x, ('a', b, f.attr)) if ('@', ('a', b, f.attr)) not in x.env else (x, x.env[('@', ('a', b, f.attr))])
                    for x, b in self.ev(st, f.value)]
        return self.ev(st, f)

    def call(self, st, fv, args, kw, n):
        f = None
        pre = ()
        if fv[0] == 'a' and fv[1] == ('v', 'self') and self.cls:
            f = self.ix.find_method(self.cls, fv[2])
            if f is not None and not f.is_static:
                pre = (fv[1],)
        elif fv[0] == 'a' and fv[1] == ('super',) and self.frames[-1][0].cls is not None and self.cls:
            f = self.ix.find_method(self.cls, fv[2], after=self.frames[-1][0].cls.name)
            if f is not None and not f.is_static:
                pre = (('v', 'self'),)
        elif fv[0] == 'fn':
            s = self.ix.resolve_symbol(self.module(), fv[1])
            if s and s[0] == 'func':
                f = s[1]
        elif fv[0] == 'lfn':
            node = LOCALFN[fv[3]]
            if len(self.frames) < self.depth + 1 and not any(fr[0].node is node for fr in self.frames):
                lf = _Local(node, self.frames[-1][0], fv[2])
                return self.call_fn(st, lf, args, kw, n)
        elif fv[0] == 'v' and fv[1] in ('any', 'all') and len(args) == 1 and args[0][0] == 'comp' and args[0][1] in ('gen', 'list', 'set'):
            c = args[0]
            return [(st, (fv[1],) + c[2:])]
        elif fv[0] == 'v' and fv[1] in ('any', 'all') and len(args) == 1 and self.items_of(args[0]) is not None:
            es = self.items_of(args[0])
            return [(st, ('c', fv[1] == 'all') if not es else es[0] if len(es) == 1 else ('or' if fv[1] == 'any' else 'and',) + es)]
        elif self.elements is not None and fv[0] == 'a' and fv[2] in ('append', 'extend') and len(args) == 1 and isinstance(n.func, ast.Attribute) \
                and isinstance(n.func.value, ast.Name) and fv[1][0] == 'tup' and (self.fid(), n.func.value.id) in st.env:
            more = args if fv[2] == 'append' else self.items_of(args[0])
            if more is not None:
                st = st.copy()
                st.env[(self.fid(), n.func.value.id)] = ('tup', 'list', fv[1][2] + tuple(more))
                return [(st, ('c', None))]
        elif self.elements is not None and fv[0] == 'a' and fv[2] in ('append', 'extend') and len(args) == 1 and fv[1][0] == 'tup' and isinstance(n.func, ast.Attribute) \
                and isinstance(n.func.value, ast.Attribute) and isinstance(n.func.value.value, ast.Name) and n.func.value.value.id == 'self' \
                and st.env.get(('@', ('a', ('v', 'self'), n.func.value.attr))) == fv[1]:
            more = args if fv[2] == 'append' else self.items_of(args[0])
            if more is not None:
                lv = ('a', ('v', 'self'), n.func.value.attr)
                st = st.copy()
                st.env[('@', lv)] = ('tup', 'list', fv[1][2] + tuple(more))
                st.add('store', lv, st.env[('@', lv)], n)
                return [(st, ('c', None))]
        elif fv[0] == 'a' and fv[1][0] == 'v' and fv[1][1] in self.ix.classes:
            f = self.ix.find_method(fv[1][1], fv[2])
        if f is not None and f.is_generator and self.can_inline(f, True):
            g = self.generator(st, f, pre + args, kw, n)
            if g is not None:
                return [(st, g)]
        if f is not None and self.can_inline(f):
            if f.is_classmethod and pre == (('v', 'self'),):
                pre = (('a', ('v', 'self'), '__class__'),)
            if any(k is None for k, v in kw) or any(a[0] == 'star' for a in args):
                f = None
            else:
                return self.call_fn(st, f, pre + args, kw, n)
        v = ('call', fv, args, kw)
        if (fv[0] == 'v' and (fv[1] in PURE or fv[1] in self.quiet)) or (fv[0] == 'a' and fv[2] in ('keys', 'items', 'values') and not args):
            return [(st, v)]
        x = st.copy()
        x.add('call', v, n)
        return [(x, v)]

    def generator(self, st, f, args, kw, n):
        """A generator with one yield is a comprehension."""
        save = self.raised
        self.raised = []
        res = self.call_fn(st, f, args, kw, n)
        self.raised = save
        ys = {}
        k = len(st.trace)
        for x, v in res:
            tr = x.trace[k:]
            its, cs = [], []
            for t in tr:
                if t[0] == 'loop':
                    its.append(t[2])
                elif t[0] == 'endloop' and its:
                    its.pop()
                elif t[0] == 'cond':
                    cs.append(t[1] if t[2] else ('not', t[1]))
                elif t[0] == 'yield':
                    ys.setdefault(t[1], (tuple(its), tuple(cs)))
                elif t[0] in ('call', 'store'):
                    return None
        if len(ys) != 1:
            return None
        y, (its, cs) = list(ys.items())[0]
        return ('comp', 'gen', y, its[0] if len(its) == 1 else ('tup', 'iters', its), cs)

    def can_inline(self, f, gen=False):
        if (f.is_generator and not gen) or f.name in self.noinline or f.qual in self.noinline:
            return False
        if len(self.frames) > self.depth or any(fr[0] is f for fr in self.frames):
            return False
        if self.inline is not None and not self.inline(f):
            return False
        return True

    def call_fn(self, st, f, args, kw, n):
        if len(self.frames) > self.depth + 2:
            return [(st, ('?', 'depth'))]
        self.visited.add(f.where)
        fid = (n.lineno, n.col_offset, self.fid())
        a = f.node.args
        pos = a.posonlyargs + a.args
        names = [p.arg for p in pos]
        kwd = dict(kw)
        dfl = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dfl[p.arg] = d
        st = st.copy()
        for i, p in enumerate(names):
            if i < len(args):
                v = args[i]
            elif p in kwd:
                v = kwd[p]
            elif p in dfl:
                v = self.ev(st, dfl[p])[0][1]
            else:
                v = ('?', 'missing:' + p)
            st.env[(fid, p)] = v
        for p in a.kwonlyargs:
            st.env[(fid, p.arg)] = kwd[p.arg] if p.arg in kwd else (self.ev(st, dfl[p.arg])[0][1] if p.arg in dfl else ('?', p.arg))
        if a.vararg:
            st.env[(fid, a.vararg.arg)] = ('tup', 'tuple', tuple(args[len(names):]))
        if a.kwarg:
            st.env[(fid, a.kwarg.arg)] = ('?', 'kwargs')
        self.frames.append((f, fid))
        try:
            if isinstance(f.node, ast.Lambda):
                res = [(x, 'return', v, n) for x, v in self.ev(st, f.node.body)]
            else:
                res = self.block(st, f.node.body)
        finally:
            self.frames.pop()
        out = []
        for x, how, v, node in res:
            if how == 'raise':
                # an exception leaves every frame up to the caller's handlers
                self.raised.append((x, v, node))
                continue
            out.append((x, v if how == 'return' else ('c', None)))
        return out

    def class_of(self, v):
        return None


LOCALFN = {}


class _Local:
    """A nested function or lambda."""
    is_static = is_classmethod = is_property = False

    def __init__(self, node, outer, fid):
        self.node = node
        self.outer_fid = fid
        self.module = outer.module
        self.cls = outer.cls
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = outer.qual + '.' + self.name
        self.where = outer.where + '.' + self.name

    @property
    def is_generator(self):
        return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(self.node))


def _load(t):
    t2 = ast.parse(ast.unparse(t), mode='eval').body
    for x in ast.walk(t2):
        if hasattr(x, 'lineno'):
            x.lineno, x.col_offset = t.lineno, t.col_offset
    return t2


def neg(v):
    if v[0] == 'not':
        return v[1]
    if v[0] == 'c':
        return ('c', not v[1])
    return ('not', v)


def cmp_(op, a, b):
    t = type(op)
    if t in NEG:
        return neg(cmp_(NEG[t](), a, b))
    if t is ast.Lt:
        return cdec('<', a, b)
    if t is ast.Gt:
        return cdec('<', b, a)
    if t is ast.GtE:
        return neg(cdec('<', a, b))
    if t is ast.LtE:
        return neg(cdec('<', b, a))
    if t is ast.Eq:
        if a == b:
            return ('c', True)
        if a[0] == 'c' and b[0] == 'c':
            return ('c', a[1] == b[1])
        # len(x) == 0  <=>  not x
        for p, q in ((a, b), (b, a)):
            if q == ('c', 0) and p[0] == 'call' and p[1] == ('v', 'len') and len(p[2]) == 1:
                return ('not', ('nonempty', p[2][0]))
        return ('cmp', '==') + tuple(sorted((a, b), key=repr))
    if t is ast.Is:
        if a[0] == 'c' and b[0] == 'c':
            return ('c', a[1] is b[1])
        if b == ('c', True) or b == ('c', False):
            return a if b[1] else neg(a)
        return ('cmp', 'is', a, b)
    if t is ast.In:
        # x in d.keys() <=> x in d
        if b[0] == 'call' and b[1][0] == 'a' and b[1][2] == 'keys' and not b[2]:
            b = b[1][1]
        if b[0] == 'call' and b[1] in (('v', 'list'), ('v', 'tuple'), ('v', 'set')) and len(b[2]) == 1:
            b = b[2][0]
        if b[0] == 'tup':
            if len(b[2]) == 1:
                return cmp_(ast.Eq(), a, b[2][0])
            b = ('tup', 'tuple', tuple(sorted(b[2], key=repr)))
        return ('cmp', 'in', a, b)
    return ('?', 'cmp')


def cdec(op, a, b):
    if a[0] == 'c' and b[0] == 'c':
        try:
            return ('c', a[1] < b[1])
        except TypeError:
            pass
    if a == b:
        return ('c', False)
    # 0 < len(x)
    if a == ('c', 0) and b[0] == 'call' and b[1] == ('v', 'len') and len(b[2]) == 1:
        return ('nonempty', b[2][0])
    if b == ('c', 1) and a[0] == 'call' and a[1] == ('v', 'len') and len(a[2]) == 1:
        return ('not', ('nonempty', a[2][0]))
    return ('cmp', '<', a, b)


def norm_op(op, a, b):
    if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
        try:
            return ('c', {'+': lambda: a[1] + b[1], '-': lambda: a[1] - b[1], '*': lambda: a[1] * b[1], '//': lambda: a[1] // b[1],
                          '/': lambda: a[1] / b[1], '**': lambda: a[1] ** b[1]}[op]())
        except Exception:
            pass
    if op in ('+', '*') and not (op == '+' and (sequence(a) or sequence(b))) and repr(b) < repr(a):
        a, b = b, a
    return ('op', op, a, b)


def sequence(v):
    """Strings and lists: adding them is not commutative."""
    if v[0] == 'c':
        return isinstance(v[1], (str, bytes))
    if v[0] in ('fstr', '?fstr', 'tup', 'comp'):
        return True
    if v[0] == 'op':
        return v[1] == '+' and (sequence(v[2]) or sequence(v[3]))
    return v[0] == 'call' and callee(v) in ('str', 'list', 'tuple', 'join', 'format', 'repr', 'os.path.join', 'sorted')


def decide(conds, v):
    """Truth of atom v under the atoms already decided, or None."""
    if v in conds:
        return conds[v]
    if v[0] == 'cmp' and v[1] == '<':
        r = ('cmp', '<', v[3], v[2])
        if conds.get(r) is True:
            return False
        e = ('cmp', '==') + tuple(sorted((v[2], v[3]), key=repr))
        if conds.get(e) is True:
            return False
        if conds.get(e) is False and conds.get(r) is False:
            return True
    if v[0] == 'cmp' and v[1] == '==':
        l, r = ('cmp', '<', v[2], v[3]), ('cmp', '<', v[3], v[2])
        if conds.get(l) is True or conds.get(r) is True:
            return False
        if conds.get(l) is False and conds.get(r) is False:
            return True
        # x == 'a' decided true makes x == 'b' false
        for c, t in conds.items():
            if t and c[0] == 'cmp' and c[1] == '==' and c != v:
                for p, q in ((v[2], v[3]), (v[3], v[2])):
                    for p2, q2 in ((c[2], c[3]), (c[3], c[2])):
                        if p == p2 and q[0] == 'c' and q2[0] == 'c' and q[1] != q2[1]:
                            return False
    if v[0] == 'cmp' and v[1] == 'is' and v[3] == ('c', None) and conds.get(v[2]) is True:
        return False
    if v[0] == 'nonempty' and v[1] in conds and v[1][0] != 'cmp':
        return conds[v[1]]
    return None
