"""Partial evaluation of path values (sa.paths) under a scenario.

A scenario fixes what the unknown leaves of an expression are (the kind of a
parameter name, the delay of an input...); conditions that become decided prune
the paths.  Collections stand for one arbitrary element."""
UNK = type('Unknown', (), {'__repr__': lambda s: 'UNK', '__bool__': lambda s: False})()
STR = {'endswith', 'startswith', 'removesuffix', 'removeprefix', 'rstrip', 'strip', 'lower', 'replace'}


class Conc:
    def leaf(self, v):
        return UNK

    def __call__(self, v):
        r = self.leaf(v)
        if r is not UNK:
            return r
        f = getattr(self, 'c_' + v[0].strip('?'), None) if isinstance(v[0], str) else None
        return f(v) if f is not None else UNK

    def oracle(self, v):
        r = self(v)
        return None if r is UNK else bool(r)

    def c_c(self, v):
        return v[1]

    def c_i(self, v):
        b = self(v[1])
        if b is UNK:
            return UNK
        if v[2][0] == 'slice':
            s = [self(x) for x in v[2][1:]]
            return b[slice(*s)] if isinstance(b, (str, list)) and UNK not in s else UNK
        k = self(v[2])
        try:
            return UNK if k is UNK else b[k]
        except (TypeError, KeyError, IndexError):
            return UNK

    def c_fstr(self, v):
        xs = [self(x) for x in v[2]]
        if any(x is UNK for x in xs):
            return UNK
        it = iter(xs)
        return ''.join(str(next(it)) if l is None else str(l) for l in v[1])

    def c_tup(self, v):
        xs = [self(x) for x in v[2]]
        return UNK if any(x is UNK for x in xs) else xs

    def c_nonempty(self, v):
        x = self(v[1])
        return UNK if x is UNK or not hasattr(x, '__len__') else len(x) > 0

    def c_not(self, v):
        x = self(v[1])
        return UNK if x is UNK else not x

    def c_and(self, v):
        xs = [self(x) for x in v[1:]]
        if any(x is not UNK and not x for x in xs):
            return False
        return UNK if any(x is UNK for x in xs) else xs[-1]

    def c_or(self, v):
        xs = [self(x) for x in v[1:]]
        for x in xs:
            if x is not UNK and x:
                return x
        return UNK if any(x is UNK for x in xs) else xs[-1]

    def c_ite(self, v):
        t = self(v[1])
        return UNK if t is UNK else self(v[2] if t else v[3])

    def c_op(self, v):
        a, b = self(v[2]), self(v[3])
        if v[1] == 'neg' and a is not UNK:
            return -a
        if a is UNK or b is UNK:
            return UNK
        try:
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '//': lambda: a // b, '%': lambda: a % b}.get(v[1], lambda: UNK)()
        except (TypeError, ZeroDivisionError):
            return UNK

    def c_cmp(self, v):
        x, y = self(v[2]), self(v[3])
        if x is UNK or y is UNK:
            return UNK
        try:
            return {'is': lambda: x is y, '==': lambda: x == y, '<': lambda: x < y, 'in': lambda: x in y}[v[1]]()
        except (TypeError, KeyError):
            return UNK

    def one(self, v):
        """elements of a comprehension over one arbitrary element"""
        it = self(v[-2])
        if not isinstance(it, list):
            return self.each(v, None, None)
        out = []
        for tok in it:
            r = self.each(v, v[-2], tok)
            if r is UNK:
                return UNK
            out += r
        return out

    def each(self, v, it, tok):
        bind = getattr(self, 'bind', {})
        if it is not None:
            self.bind = dict(bind)
            self.bind[it] = tok
        try:
            cs = [self(c) for c in v[-1]]
            if any(c is not UNK and not c for c in cs):
                return []
            if any(c is UNK for c in cs):
                return UNK
            e = self(v[-3])
            return UNK if e is UNK else [e]
        finally:
            self.bind = bind

    def c_elem(self, v):
        return getattr(self, 'bind', {}).get(v[1], UNK)

    def c_any(self, v):
        r = self.one(v)
        return UNK if r is UNK else any(r)

    def c_all(self, v):
        r = self.one(v)
        return UNK if r is UNK else all(r)

    def c_comp(self, v):
        return self.one(v) if v[1] != 'dict' else UNK

    def c_call(self, v):
        from .paths import callee, recv
        f = callee(v)
        r = recv(v) if v[1][0] == 'a' else None
        if f in STR and r is not None:
            b = self(r)
            xs = [self(x) for x in v[2]]
            if isinstance(b, str) and not any(x is UNK for x in xs):
                try:
                    return getattr(b, f)(*[tuple(x) if isinstance(x, list) else x for x in xs])
                except (TypeError, AttributeError):
                    return UNK
            return UNK
        if f in ('split', 'rsplit', 'partition', 'rpartition', 'find', 'index', 'count') and r is not None:
            b = self(r)
            xs = [self(x) for x in v[2]]
            if not isinstance(b, str) or any(x is UNK for x in xs) or v[3]:
                return UNK
            try:
                x = getattr(b, f)(*xs)
            except (TypeError, ValueError):
                return UNK
            return list(x) if isinstance(x, tuple) else x
        if f in ('any', 'all') and r is None and len(v[2]) == 1 and v[2][0][0] == 'tup':
            return self.c_or(('or',) + tuple(v[2][0][2]) + (('c', False),)) if f == 'any' else self.c_and(('and',) + tuple(v[2][0][2]) + (('c', True),))
        if f in ('len', 'max', 'min', 'sum', 'bool', 'int', 'abs', 'sorted', 'list', 'tuple', 'set') and len(v[2]) == 1:
            b = self(v[2][0])
            if b is UNK:
                return UNK
            if f in ('max', 'min') and isinstance(b, list) and not b:
                d = dict(v[3]).get('default')
                return self(d) if d is not None else UNK
            try:
                return {'len': len, 'max': max, 'min': min, 'sum': sum, 'bool': bool, 'int': int, 'abs': abs, 'sorted': list, 'list': list, 'tuple': list, 'set': list}[f](b)
            except (TypeError, ValueError):
                return UNK
        return UNK
