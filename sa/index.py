"""Index of the analysed package: modules, classes, MROs, functions, symbols.

Everything is computed from the source text of the repository's current
working tree with the standard library `ast` module; nothing is imported or
executed from the repository.
"""
import ast
import os


REPO = os.environ.get('SA_REPO', '/repo')
PKG = 'specula'


class AnalysisBroken(Exception):
    """An anchor the analysis depends on has vanished."""


class Module:
    def __init__(self, name, path, rel, tree, src):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.src = src
        self.symbols = {}       # name -> ('func', Function)|('class', cname)|('ext', dotted)|('const', node)|('mod', modname)
        self.functions = {}
        self.classes = {}


class Function:
    def __init__(self, node, module, cls=None, outer=None):
        self.node = node
        self.module = module
        self.cls = cls          # defining ClassInfo or None
        self.outer = outer
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.decorators = set()
        for d in getattr(node, 'decorator_list', []):
            t = d.func if isinstance(d, ast.Call) else d
            self.decorators.add(dotted(t).split('.')[-1] if dotted(t) else '?')
            if dotted(t) and dotted(t).endswith('.setter'):
                self.decorators.add('setter')

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    @property
    def where(self):
        return f'{self.module.rel}:{self.qual}'

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def is_property(self):
        return 'property' in self.decorators or 'cached_property' in self.decorators

    @property
    def is_generator(self):
        for n in ast.walk(self.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    def __repr__(self):
        return f'<F {self.where}>'


class ClassInfo:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.base_names = [dotted(b) or '?' for b in node.bases]
        self.methods = {}
        self.setters = {}
        self.class_attrs = {}   # name -> value node
        self._mro = None
        def stmts(body):
            for st in body:
                yield st
                for fld in ('body', 'orelse', 'finalbody'):
                    if isinstance(st, (ast.If, ast.Try, ast.With)):
                        yield from stmts(getattr(st, fld, ()))
        for st in stmts(node.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Function(st, module, self)
                if 'setter' in f.decorators:
                    self.setters[st.name] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.class_attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.class_attrs[st.target.id] = st.value

    @property
    def rel(self):
        return self.module.rel

    def __repr__(self):
        return f'<C {self.name}>'


def dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return '.'.join(reversed(parts))
    return None


class Index:
    def __init__(self, repo=None, overlay=None):
        self.repo = repo or REPO
        self.modules = {}
        self.classes = {}
        self.dups = []
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f'package directory {root} not found')
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d != '__pycache__')
            for f in sorted(fn):
                if f.endswith('.py'):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, self.repo)
                    mod = rel[:-3].replace(os.sep, '.')
                    if mod.endswith('.__init__'):
                        mod = mod[:-9]
                    if overlay and rel in overlay:
                        src = overlay[rel]
                    else:
                        with open(p, encoding='utf-8') as fh:
                            src = fh.read()
                    tree = ast.parse(src, filename=rel)
                    self.modules[mod] = Module(mod, p, rel, tree, src)
        for m in self.modules.values():
            self._scan_module(m)
        for c in list(self.classes.values()):
            self.mro(c.name)
        self._attrs_cache = {}
        self._assigned_outside = None

    # -- module scanning
    def _scan_module(self, m):
        def scan(body):
            for st in body:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Function(st, m)
                    m.functions[st.name] = f
                    m.symbols[st.name] = ('func', f)
                elif isinstance(st, ast.ClassDef):
                    c = ClassInfo(st, m)
                    m.classes[st.name] = c
                    if st.name in self.classes:
                        self.dups.append(st.name)
                        # the class of the module named after it wins
                        if self.classes[st.name].module.name.split('.')[-1] == snake(st.name):
                            m.symbols[st.name] = ('class', st.name)
                            continue
                    self.classes[st.name] = c
                    m.symbols[st.name] = ('class', st.name)
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        nm = a.asname or a.name.split('.')[0]
                        tgt = a.name if a.asname else a.name.split('.')[0]
                        if tgt == PKG or tgt.startswith(PKG + '.'):
                            m.symbols[nm] = ('mod', tgt)
                        else:
                            m.symbols[nm] = ('ext', tgt)
                elif isinstance(st, ast.ImportFrom):
                    base = st.module or ''
                    if st.level:
                        parts = m.name.split('.')
                        is_pkg = m.path.endswith('__init__.py')
                        up = st.level - (1 if is_pkg else 0)
                        parts = parts[:len(parts) - up] if up else parts
                        base = '.'.join(parts + ([st.module] if st.module else []))
                    for a in st.names:
                        nm = a.asname or a.name
                        if base == PKG or base.startswith(PKG + '.'):
                            m.symbols[nm] = ('from', base, a.name)
                        else:
                            m.symbols[nm] = ('ext', base + '.' + a.name)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name):
                                m.symbols.setdefault(n.id, ('const', st.value))
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    m.symbols.setdefault(st.target.id, ('const', st.value))
                elif isinstance(st, (ast.If, ast.Try, ast.With)):
                    scan(getattr(st, 'body', []))
                    for h in getattr(st, 'handlers', []):
                        scan(h.body)
                    scan(getattr(st, 'orelse', []))
        scan(m.tree.body)

    def resolve_symbol(self, module, name, depth=0):
        s = module.symbols.get(name)
        if s is None:
            return None
        if s[0] == 'from' and depth < 6:
            base, nm = s[1], s[2]
            sub = self.modules.get(base + '.' + nm)
            if sub is not None:
                return ('mod', sub.name)
            bm = self.modules.get(base)
            if bm is None:
                return None
            r = self.resolve_symbol(bm, nm, depth + 1)
            if r is None:
                return ('modattr', base, nm)
            if r[0] == 'const':
                return ('modattr', base, nm)
            return r
        return s

    # -- classes
    def mro(self, cname):
        c = self.classes.get(cname)
        if c is None:
            return []
        if c._mro is not None:
            return c._mro
        c._mro = [c]  # recursion guard
        seqs = []
        for b in c.base_names:
            bn = b.split('.')[-1]
            if bn in self.classes:
                seqs.append(list(self.mro(bn)))
        seqs.append([self.classes[b.split('.')[-1]] for b in c.base_names if b.split('.')[-1] in self.classes])
        res = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            res.append(cand)
            seqs = [[x for x in s if x is not cand] for s in seqs]
            seqs = [s for s in seqs if s]
        c._mro = res
        return res

    def is_sub(self, a, b):
        return any(x.name == b for x in self.mro(a))

    def find_method(self, cname, meth, after=None):
        mro = self.mro(cname)
        if after is not None:
            i = [k for k, x in enumerate(mro) if x.name == after]
            mro = mro[i[0] + 1:] if i else []
        for c in mro:
            if meth in c.methods:
                return c.methods[meth]
        return None

    def find_setter(self, cname, meth):
        for c in self.mro(cname):
            if meth in c.setters:
                return c.setters[meth]
            if meth in c.methods:
                return None
        return None

    def find_class_attr(self, cname, attr):
        for c in self.mro(cname):
            if attr in c.class_attrs:
                return c, c.class_attrs[attr]
        return None

    def has_external_base(self, cname):
        ok = {'object', 'ABC', 'abc.ABC', 'Enum', 'IntEnum', 'Exception'}
        for c in self.mro(cname):
            for b in c.base_names:
                if b.split('.')[-1] not in self.classes and b not in ok:
                    return True
        return False

    def class_attr_universe(self, cname):
        """All attribute names an instance may have: methods, class attributes,
        anything assigned through self in any method of the MRO."""
        if cname in self._attrs_cache:
            return self._attrs_cache[cname]
        names = set()
        for c in self.mro(cname):
            names |= set(c.methods) | set(c.class_attrs) | set(c.setters)
            for f in list(c.methods.values()) + list(c.setters.values()):
                a = f.node.args
                ps = a.posonlyargs + a.args
                sn = ps[0].arg if ps else None
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) \
                            and isinstance(n.value, ast.Name) and n.value.id == sn:
                        names.add(n.attr)
                    if isinstance(n, ast.Call) and dotted(n.func) == 'setattr' and n.args \
                            and isinstance(n.args[0], ast.Name) and n.args[0].id == sn:
                        names |= setattr_names(f.node, n.args[1])
        self._attrs_cache[cname] = names
        return names

    def param_classes(self):
        """Conventions of the package for parameter names: name -> class when
        every annotated parameter of that name (two at least, or named after
        the class) has that class.  -> (name -> class, name -> element class)"""
        if hasattr(self, '_param_classes'):
            return self._param_classes
        seen, elems, plain = {}, {}, {}

        def leaf(a):
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                try:
                    a = ast.parse(a.value, mode='eval').body
                except SyntaxError:
                    return None
            d = dotted(a) if a is not None else None
            return d.split('.')[-1] if d else None
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if not isinstance(n, ast.FunctionDef):
                    continue
                for p in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
                    if p.annotation is None:
                        continue
                    a = p.annotation
                    if isinstance(a, ast.Subscript):
                        c = (dotted(a.value) or '').split('.')[-1]
                        sl = a.slice
                        if c == 'Optional':
                            a = sl
                        elif c in ('List', 'list', 'Sequence'):
                            elems.setdefault(p.arg, []).append(leaf(sl))
                            continue
                        elif c in ('Dict', 'dict') and isinstance(sl, ast.Tuple) and len(sl.elts) == 2:
                            elems.setdefault(p.arg, []).append(leaf(sl.elts[1]))
                            continue
                    seen.setdefault(p.arg, []).append(leaf(a))
        one = {}
        for n, cs in seen.items():
            if len(set(cs)) == 1 and cs[0] in self.classes and (len(cs) > 1 or snake(cs[0]) == n):
                one[n] = cs[0]
        el = {n: cs[0] for n, cs in elems.items() if len(set(cs)) == 1 and cs[0] in self.classes}
        self._param_classes = one, el
        return self._param_classes

    def subclasses(self, base, strict=True):
        return [c for c in self.classes.values()
                if self.is_sub(c.name, base) and (not strict or c.name != base)]


def setattr_names(fn, arg):
    """Attribute names a setattr() can create: a constant, the elements of a
    literal sequence looped over, nothing when the loop runs over the names an
    object already has; '*' otherwise."""
    if isinstance(arg, ast.Constant):
        return {arg.value}
    if isinstance(arg, ast.Name):
        for n in ast.walk(fn):
            if isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(t, ast.Name) and t.id == arg.id for t in ast.walk(n.target)):
                it = n.iter
                if isinstance(it, (ast.List, ast.Tuple, ast.Set)) and all(isinstance(e, ast.Constant) for e in it.elts):
                    return {e.value for e in it.elts}
                if any(isinstance(x, ast.Attribute) and x.attr == '__dict__' or isinstance(x, ast.Call) and dotted(x.func) in ('dir', 'vars')
                       for x in ast.walk(it)):
                    return set()
    return {'*'}


def snake(name):
    out = ''
    for i, ch in enumerate(name):
        if ch.isupper() and i and (not name[i - 1].isupper() or (i + 1 < len(name) and name[i + 1].islower())):
            out += '_'
        out += ch.lower()
    return out


def _const_in_class_lists(self, varname, cname):
    """Does some function of the repository build a literal list of class names
    (the classes with configuration-defined inputs) containing cname?"""
    import ast
    if not hasattr(self, '_dynlists'):
        names = set()
        for m in self.modules.values():
            if not m.name.startswith('specula.simul'):
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
                    vals = [e.value for e in n.elts if isinstance(e, ast.Constant) and isinstance(e.value, str)]
                    if vals and len(vals) == len(n.elts) and all(v in self.classes for v in vals):
                        names.update(vals)
        self._dynlists = names
    return cname in self._dynlists


Index.const_in_class_lists = _const_in_class_lists
