"""Run a monitor over the life cycle of every processing class in parallel."""
import multiprocessing as mp
import os
import sys
import traceback

from .lifecycle import Lifecycle, processing_classes, ABSTRACT

_CTX = {}


def _one(args):
    cname, = args
    ix, factory, steps, budget, collect = _CTX['x']
    sys.setrecursionlimit(20000)
    mon = factory(ix, cname)
    lc = Lifecycle(ix, cname, mon, steps=steps, budget=budget)
    err = None
    try:
        lc.run()
    except Exception:
        err = traceback.format_exc()
    out = collect(mon, lc) if collect else getattr(mon, 'out', None)
    return cname, out, {'aborted': lc.aborted, 'error': err,
                        'functions': sorted(lc.eng.stats['functions']), 'calls': lc.eng.stats['calls'],
                        'writes': lc.eng.stats['writes'], 'truncated': lc.eng.stats['truncated'],
                        'exhausted': lc.eng.budget <= 0}


def sweep(ix, factory, tier='quick', classes=None, collect=None):
    classes = classes or processing_classes(ix)
    steps, budget = (2, 30000) if tier == 'quick' else (3, 120000)
    _CTX['x'] = (ix, factory, steps, budget, collect)
    ctx = mp.get_context('fork')
    n = min(8, os.cpu_count() or 1)
    # the largest classes first
    order = sorted(classes, key=lambda c: -len(ix.classes[c].module.src))
    with ctx.Pool(n) as p:
        res = p.map(_one, [(c,) for c in order], chunksize=1)
    return {c: (o, s) for c, o, s in res}


# classes whose step is abstract by design (trigger raises NotImplementedError
# or an abstract method is missing): analysed through their subclasses
EXPECTED_ABORT = {'BaseGenerator', 'Slopec'}


def sweep_stats(res, out):
    fns = set()
    for c, (o, s) in out.items():
        fns.update(s['functions'])
    res.floor('classes_analysed', sum(1 for c, (o, s) in out.items() if not s['error']), 95)
    res.floor('functions_inlined', len(fns), 600)
    res.stats['calls_resolved'] = sum(s['calls'] for o, s in out.values())
    res.stats['store_sites_visited'] = sum(s['writes'] for o, s in out.values())
    res.stats['classes_not_completing'] = sorted(c + ':' + s['aborted'] for c, (o, s) in out.items() if s['aborted'])
    res.stats['budget_exhausted'] = sorted(c for c, (o, s) in out.items() if s['exhausted'])
    errs = [c for c, (o, s) in out.items() if s['error']]
    if errs:
        res.stats['internal_errors'] = errs
        res.stats['internal_error_text'] = out[errs[0]][1]['error'][-800:]
    ab = [c for c, (o, s) in out.items() if s['aborted'] in ('init', 'setup', 'step') and c not in EXPECTED_ABORT]
    if len(ab) > 6:
        res.broken.append(f'{len(ab)} classes do not complete their abstract life cycle: {ab[:8]}')
