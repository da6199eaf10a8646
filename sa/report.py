"""Findings, known-findings filter, evidence files, exit protocol."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Finding:
    def __init__(self, rule, construct, where, msg):
        self.rule = rule            # rule name
        self.construct = construct  # file / class / symbol key, no line numbers
        self.where = where          # file:line for the reader
        self.msg = msg

    @property
    def key(self):
        return f'{self.rule}|{self.construct}'

    def __repr__(self):
        return f'[{self.rule}] {self.where}: {self.msg}'


class Result:
    def __init__(self):
        self.findings = {}
        self.broken = []
        self.stats = {}
        self.explanation = ''
        self.assumptions = []

    def add(self, rule, construct, where, msg):
        f = Finding(rule, construct, where, msg)
        self.findings.setdefault(f.key, f)

    def floor(self, name, value, minimum):
        self.stats[name] = value
        if value < minimum:
            self.broken.append(f'{name}: {value} instances, expected at least {minimum}')


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: '):
                body = line[len('known: '):]
                prop, rest = body.split(' ', 1)
                prop = prop.split('=', 1)[1]
                key, _, what = rest.partition(' :: ')
                key = key.split('=', 1)[1]
                out.setdefault(prop, {})[key] = what
    return out


def finish(prop, res, tier, seed, wall, level_expl):
    known = load_known().get(prop, {})
    new, old = [], []
    for k, f in sorted(res.findings.items()):
        (old if k in known else new).append(f)
    ev = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': 'other',
        'coverage': dict({'explanation': res.explanation or level_expl}, **res.stats),
        'wall_s': round(wall, 2),
        'violations': len(new),
        'assumptions': res.assumptions,
    }
    ev['coverage']['known_findings_seen'] = len(old)
    ev['coverage']['findings'] = [repr(f) for f in new][:50]
    evd = os.environ.get('SA_EVID') or os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    p = os.path.join(evd, prop + '.json')
    with open(p, 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True, default=str)
    for f in old:
        print(f'KNOWN-FINDING: property={prop} {known[f.key]}')
    print(f'{prop}: ' + ', '.join(f'{k}={v}' for k, v in sorted(res.stats.items()) if not isinstance(v, (list, dict))))
    if new:
        rp = os.path.join(evd, prop + '.report.txt')
        with open(rp, 'w') as fh:
            for f in new:
                fh.write(f'key={f.key}\n  {f!r}\n')
        for f in new:
            print('  ', f, f'(key={f.key})')
        print(f'VIOLATION property={prop} replay={rp}')
        return 1
    if res.broken:
        for b in res.broken:
            print(f'ANALYSIS-BROKEN property={prop} {b}')
        return 3
    return 0
