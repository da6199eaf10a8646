"""Shared effect monitor: which storage a life-cycle step writes, by owner."""
from ..engine import Monitor, root, locstr

ACTIVE = ('step', 'trigger', 'post')


def field_of(loc, attr=None):
    parts = []
    l = loc
    while l[0] == 'path':
        parts.append(str(l[2]))
        l = l[1]
    parts.reverse()
    if attr:
        parts.append(attr)
    return l, '.'.join(parts)


class Effects(Monitor):
    init = ()
    roots = ()

    def __init__(self, ix, cname):
        self.ix = ix
        self.cname = cname
        self.out = {'w': {}, 'alias': {}, 'stores': 0}
        self.ph = None

    def on_phase(self, eng, st, ph):
        self.ph = ph

    def rec(self, eng, node, loc, attr, how):
        r, fld = field_of(loc, attr)
        if r[0] not in self.roots:
            return
        key = (r, fld, how, self.ph)
        f = eng.fn()
        self.out['w'].setdefault(key, (eng.where(node), f.qual if f else '?'))

    def on_write(self, eng, st, locs, node, how, val=None):
        self.out['stores'] += 1
        for l in locs:
            self.rec(eng, node, l, None, how)

    def on_setattr(self, eng, st, base, attr, val, node):
        self.out['stores'] += 1
        for l in base.locs:
            self.rec(eng, node, l, attr, 'attribute assignment')
