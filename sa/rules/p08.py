"""Reference integrity.  Abstract execution of every processing class life
cycle, of every method of every other class and of every library function:
an attribute or method read on an object of known class exists in that class,
a name resolves, a repository function or constructor is called with a
signature it accepts."""
import ast
import multiprocessing as mp
import os
import sys
import traceback
from ..engine import Monitor, Engine, State, Val, EMPTY
from ..lifecycle import Lifecycle, processing_classes
from ..report import Result
from ..sweep import sweep, sweep_stats


class Refs(Monitor):
    init = ()

    def __init__(self, ix, cname):
        self.ix = ix
        self.cname = cname
        self.out = {'attr': {}, 'name': {}, 'call': {}, 'reads': 0, 'calls': 0, 'unset': {}}

    def q(self, eng):
        f = eng.fn()
        return f.qual if f else '?'

    def on_attr(self, eng, st, base, attr, node):
        self.out['reads'] += 1

    def on_call(self, eng, st, name, recv, args, kwargs, node):
        self.out['calls'] += 1

    def on_attr_missing(self, eng, st, base, attr, classes, node):
        self.out['attr'].setdefault((self.q(eng), '/'.join(sorted(classes)), attr), eng.where(node))

    def on_name_missing(self, eng, st, name, node):
        self.out['name'].setdefault((self.q(eng), name), eng.where(node))

    def on_unset(self, eng, st, base, attr, node):
        if eng.phase in ('method', 'fn') or attr.startswith('__'):
            return
        # provided from outside before the run through a setter (or what the setter calls)
        ms = {}
        for c in self.ix.mro(self.cname):
            for n, f in c.methods.items():
                ms.setdefault(n, []).append(f.node)
        todo = [n for n in ms if n.startswith('set') and n != 'setup']
        seen = set(todo)
        while todo:
            for d in ms[todo.pop()]:
                for x in ast.walk(d):
                    if isinstance(x, ast.Attribute):
                        if isinstance(x.ctx, ast.Store) and x.attr == attr:
                            return
                        if x.attr in ms and x.attr not in seen:
                            seen.add(x.attr)
                            todo.append(x.attr)
        self.out['unset'].setdefault((self.q(eng), attr), (eng.where(node), eng.phase))

    def on_badcall(self, eng, st, fn, msg, node):
        if node is None:
            return
        self.out['call'].setdefault((self.q(eng), fn.qual, msg), eng.where(node))


_CTX = {}


def _rest(cname):
    """Methods of one class (or functions of one module) analysed one by one."""
    ix, budget = _CTX['x']
    sys.setrecursionlimit(20000)
    mon = Refs(ix, cname)
    done = 0
    err = None
    fns = set()
    try:
        if cname.startswith('mod:'):
            m = ix.modules[cname[4:]]
            todo = [s[1] for n, s in sorted(m.symbols.items()) if s[0] == 'func']
            for f in todo:
                if f.module is not m:
                    continue
                eng = Engine(ix, mon, None)
                eng.budget = budget
                eng.phase = 'fn'
                st = State([{}], {}, frozenset([((), EMPTY)]))
                run_fn(eng, st, f, [])
                done += 1
                fns |= eng.stats['functions']
        else:
            k = ix.classes[cname]
            eng0 = Engine(ix, mon, cname)
            eng0.budget = budget
            eng0.phase = 'init'
            me = Val(frozenset([('self',)]), frozenset([cname]), ('self',))
            base = State([{}], {}, frozenset([((), EMPTY)]))
            eng0.run_method(base, me, cname, '__init__', symbolic=True)
            fns |= eng0.stats['functions']
            if not base.alts:
                base = State([{}], {}, frozenset([((), EMPTY)]))
            base.alts = frozenset([((), EMPTY)])
            for name in sorted(k.methods):
                f = k.methods[name]
                if name == '__init__':
                    continue
                eng = Engine(ix, mon, cname)
                eng.budget = budget
                eng.phase = 'method'
                st = base.copy()
                if f.is_static:
                    run_fn(eng, st, f, [])
                elif f.is_classmethod:
                    run_fn(eng, st, f, [Val(kinds=frozenset(['type']), fn=('class', cname), sym=('class', cname))])
                else:
                    run_fn(eng, st, f, [me])
                done += 1
                fns |= eng.stats['functions']
    except Exception:
        err = traceback.format_exc()
    return cname, mon.out, done, err, sorted(fns)


def run_fn(eng, st, f, args):
    a = f.node.args
    pos = a.posonlyargs + a.args
    dflt = dict(zip([p.arg for p in pos][len(pos) - len(a.defaults):], a.defaults))
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            dflt[p.arg] = d
    kw = {p.arg: eng.param_val(p.arg, p.annotation, dflt.get(p.arg)) for p in pos[len(args):] + a.kwonlyargs}
    eng.call_function(st, f, list(args), kw, None)


def rest(ix, tier):
    proc = set(processing_classes(ix))
    todo = [c for c in sorted(ix.classes)] + ['mod:' + m for m in sorted(ix.modules)]
    _CTX['x'] = (ix, 8000 if tier == 'quick' else 40000)
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as p:
        return p.map(_rest, todo, chunksize=1)


def global_names(ix, res):
    """Every name a scope takes from the module is defined there or builtin
    (decorators, annotations, default values, handlers included)."""
    import builtins
    import symtable
    n = 0
    for m in sorted(ix.modules.values(), key=lambda m: m.rel):
        stars = [x for x in ast.walk(m.tree) if isinstance(x, ast.ImportFrom) and any(a.name == '*' for a in x.names)]
        if stars:
            continue
        top = symtable.symtable(m.src, m.rel, 'exec')
        defined = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        defined |= {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__annotations__'}

        def collect(t):
            for s in t.get_symbols():
                if t is not top and s.is_declared_global() and s.is_assigned():
                    defined.add(s.get_name())
            for c in t.get_children():
                collect(c)
        collect(top)

        def scan(t, qual):
            nonlocal n
            for s in t.get_symbols():
                nm = s.get_name()
                if not s.is_referenced() or not (s.is_global() or t is top):
                    continue
                n += 1
                if nm not in defined and not hasattr(builtins, nm) and nm != '__class__':
                    res.add('unresolved-name', f'{qual or m.name}:{nm}', f'{m.rel}:{t.get_lineno()}',
                            f'{qual or m.name} uses the name {nm}, which neither the module nor Python defines')
            for c in t.get_children():
                scan(c, (qual + '.' if qual else '') + c.get_name())
        scan(top, '')
    res.stats['global_names_resolved'] = n
    res.floor('global_names_resolved', n, 2000)


def run(ix, tier):
    res = Result()
    global_names(ix, res)
    out = sweep(ix, Refs, tier)
    sweep_stats(res, out)
    allout = [(c, o) for c, (o, s) in sorted(out.items()) if o is not None]
    fns = set()
    for c, (o, s) in out.items():
        fns.update(s['functions'])
    errs = []
    nfun = 0
    for c, o, done, err, f2 in rest(ix, tier):
        allout.append((c, o))
        nfun += done
        fns.update(f2)
        if err:
            errs.append((c, err))
    if errs:
        res.stats['entry_errors'] = [c for c, e in errs]
        res.stats['entry_error_text'] = errs[0][1][-600:]
    reads = calls = 0
    for c, o in allout:
        reads += o['reads']
        calls += o['calls']
        for (fn, cls, attr), where in sorted(o['attr'].items()):
            res.add('missing-attribute', f'{fn}:{cls}.{attr}', where, f'{fn} uses {cls}.{attr}, which does not exist (analysed from {c})')
        for (fn, name), where in sorted(o['name'].items()):
            res.add('unresolved-name', f'{fn}:{name}', where, f'{fn} uses the undefined name {name}')
        for (fn, callee, msg), where in sorted(o['call'].items()):
            res.add('bad-call', f'{fn}:{callee}', where, f'{fn} calls {callee}, which {msg} (analysed from {c})')
        for (fn, attr), (where, ph) in sorted(o['unset'].items()):
            res.add('attribute-before-assignment', f'{fn}:{attr}', where, f'{fn} reads self.{attr} before anything assigned it ({c}, {ph})')
    res.floor('entries_analysed', nfun, 700)
    res.floor('functions_covered', len(fns), 1000)
    res.floor('attribute_reads', reads, 20000)
    res.floor('calls_checked', calls, 10000)
    return res
