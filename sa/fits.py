"""Abstract model of the astropy.io.fits calls used to save and restore
objects: one abstract file, holding a tuple of HDUs; an HDU has data, a header
(a dictionary) and a name.  Plugged into the engine as Monitor.model."""
import ast
from .engine import Val, NONE, EMPTY, NOCONST, ARRAYK, constval, join

FILE = ('fits', 'file')
HDUS = ('PrimaryHDU', 'ImageHDU', 'CompImageHDU')
KIND_L = frozenset(['hdulist'])
KIND_H = frozenset(['hdu'])


def upper(k):
    return k.upper() if isinstance(k, str) else k


class FitsModel:
    def __init__(self):
        self.missing = []      # (kind, key, function, where)
        self.unknown = []      # constructs the model does not cover
        self.ops = 0
        self.headers = []      # (key, value, function, where) stored in a header

    def miss(self, eng, kind, key, n):
        f = eng.fn()
        self.missing.append((kind, str(key), f.qual if f else '?', eng.where(n)))

    # -- construction ----------------------------------------------------
    def new_header(self, eng, st, n, src=None, tag=''):
        l = ('cont', 'dict', ('fitshdr', tag) + eng.site(n))
        for k in [k for k in st.heap if k[0] == l]:
            del st.heap[k]
        if src is not None:
            for ll in src.locs:
                for (hl, hk), hv in list(st.heap.items()):
                    if hl == ll and hk.startswith('['):
                        st.heap[(l, hk)] = hv
        return Val(frozenset([l]), frozenset(['dict']))

    def new_hdu(self, eng, st, n, data, header, name, tag=''):
        l = ('fits', 'hdu', eng.site(n) + (tag,))
        for k in [k for k in st.heap if k[0] == l]:
            del st.heap[k]
        h = self.new_header(eng, st, n, header if header is not None and header.kinds & {'dict'} else None, tag)
        if name is not None and name.const is not NOCONST:
            (hl,) = h.locs
            st.heap[(hl, "['EXTNAME']")] = name
        elif header is not None and name is None:
            (hl,) = h.locs
            name = st.heap.get((hl, "['EXTNAME']"))
        st.heap[(l, 'data')] = data if data is not None else NONE
        st.heap[(l, 'header')] = h
        st.heap[(l, 'name')] = name if name is not None else constval('')
        return Val(frozenset([l]), KIND_H)

    def new_list(self, eng, st, n, hdus):
        l = ('fits', 'list', eng.site(n))
        st.heap[(l, '$hdus')] = Val(const=tuple(hdus)) if hdus is not None else Val()
        return Val(frozenset([l]), KIND_L)

    def hdus(self, st, l):
        v = st.heap.get((l, '$hdus'))
        if v is None or v.const is NOCONST:
            return None
        return v.const

    def set_hdus(self, st, l, hdus):
        st.heap[(l, '$hdus')] = Val(const=tuple(hdus)) if hdus is not None else Val()

    # -- module functions ------------------------------------------------
    def call(self, eng, st, d, args, kwargs, n):
        parts = d.split('.')
        if parts[-1] in ('array', 'asarray', 'ascontiguousarray', 'asanyarray', 'asnumpy', 'copy', 'deepcopy') and len(parts) > 1 and args and 'fits' not in parts:
            return self.same(args[0])
        if 'fits' not in parts and parts[-1] not in HDUS + ('HDUList',):
            return None
        if parts[-1] == 'fits':
            return None
        name = parts[-1]
        if 'Header' in parts[:-1] and name in ('fromkeys', 'fromstring'):
            self.unknown.append((name, eng.where(n)))
            return None
        self.ops += 1

        def arg(i, *names):
            for k in names:
                if k in kwargs:
                    return kwargs[k]
            return args[i] if len(args) > i else None
        if name == 'Header':
            return self.new_header(eng, st, n, arg(0, 'cards'))
        if name in HDUS:
            h = arg(1, 'header')
            return self.new_hdu(eng, st, n, arg(0, 'data'), h, arg(2, 'name'))
        if name == 'HDUList':
            a = arg(0, 'hdus')
            if a is None:
                return self.new_list(eng, st, n, ())
            items = eng.tuple_items(st, a)
            if items is None:
                one = [l for l in a.locs if l[:2] == ('fits', 'hdu')]
                if len(one) == 1 and a.kinds == KIND_H:
                    return self.new_list(eng, st, n, one)
                self.unknown.append(('HDUList of a list of unknown length', eng.where(n)))
                return self.new_list(eng, st, n, None)
            ls = []
            for it in items:
                hl = [l for l in it.locs if l[:2] == ('fits', 'hdu')]
                if len(hl) != 1:
                    self.unknown.append(('HDUList element', eng.where(n)))
                    return self.new_list(eng, st, n, None)
                ls.append(hl[0])
            return self.new_list(eng, st, n, ls)
        if name == 'writeto':
            h = self.new_hdu(eng, st, n, arg(1, 'data'), arg(2, 'header'), None)
            (l,) = h.locs
            self.set_hdus(st, FILE, (l,))
            return NONE
        if name == 'append':
            h = self.new_hdu(eng, st, n, arg(1, 'data'), arg(2, 'header'), None)
            (l,) = h.locs
            cur = self.hdus(st, FILE)
            self.set_hdus(st, FILE, cur + (l,) if cur is not None else None)
            return NONE
        if name == 'open':
            cur = self.hdus(st, FILE)
            return self.new_list(eng, st, n, cur)
        if name in ('getheader', 'getdata', 'getval'):
            off = 1 if name != 'getval' else 2
            ext = kwargs.get('ext')
            if ext is None:
                ext = kwargs.get('extname')
            if ext is None and len(args) > off:
                ext = args[off]
            cur = self.hdus(st, FILE)
            if cur is None:
                return Val()
            if ext is None or ext.const is None:
                i = 0
                if name == 'getdata':
                    d0 = st.heap.get((cur[0], 'data')) if cur else None
                    if d0 is not None and d0.const is None and d0.const is not NOCONST and len(cur) > 1:
                        i = 1
                h = self.pick(eng, st, cur, constval(i), n)
            else:
                h = self.pick(eng, st, cur, ext, n)
            if h is None:
                return Val()
            if name == 'getheader':
                return self.join_attr(st, h, 'header')
            if name == 'getdata':
                if any(k == 'header' and v.const is True for k, v in kwargs.items()):
                    l = ('cont', 'tuple', eng.site(n))
                    st.heap[(l, '[0]')] = self.join_attr(st, h, 'data')
                    st.heap[(l, '[1]')] = self.join_attr(st, h, 'header')
                    return Val(frozenset([l]), frozenset(['tuple']))
                return self.join_attr(st, h, 'data')
            key = arg(1, 'keyword')
            hd = self.join_attr(st, h, 'header')
            return eng.getitem(st, hd, ast.Constant(key.const), key, n) if key is not None else Val()
        self.unknown.append(('fits.' + name, eng.where(n)))
        return None

    def same(self, v):
        """a copy, conversion or device transfer keeps the content"""
        k = v.kinds & frozenset(['ndarray'])
        return Val(v.locs, k or ARRAYK, v.sym, v.const if v.const is not None else NOCONST)

    def join_attr(self, st, hs, attr):
        r = None
        for l in hs:
            v = st.heap.get((l, attr))
            if v is not None:
                r = join(r, v) if r is not None else v
        return r if r is not None else Val()

    def pick(self, eng, st, cur, k, n):
        """HDU locations selected by index or name; None when unknown."""
        if k.const is NOCONST:
            return list(cur)
        if isinstance(k.const, bool) or not isinstance(k.const, (int, str)):
            return list(cur)
        if isinstance(k.const, int):
            if -len(cur) <= k.const < len(cur):
                return [cur[k.const]]
            self.miss(eng, 'extension', k.const, n)
            return None
        if k.const.upper() == 'PRIMARY' and cur:
            return [cur[0]]
        got = []
        for l in cur:
            nm = st.heap.get((l, 'name'))
            if nm is None or nm.const is NOCONST:
                return list(cur)
            if isinstance(nm.const, str) and nm.const.upper() == k.const.upper():
                got.append(l)
        if not got:
            self.miss(eng, 'extension', k.const, n)
            return None
        return got[:1]

    # -- methods, items, builtins ---------------------------------------
    def method(self, eng, st, b, name, args, kwargs, n):
        ls = [l for l in b.locs if l[:2] == ('fits', 'list')]
        if ls and b.kinds & KIND_L:
            self.ops += 1
            for l in ls:
                cur = self.hdus(st, l)
                if name in ('append', 'insert'):
                    a = args[-1] if args else kwargs.get('hdu')
                    hl = [x for x in a.locs if x[:2] == ('fits', 'hdu')] if a is not None else []
                    if cur is None or len(hl) != 1:
                        self.set_hdus(st, l, None)
                    elif name == 'append':
                        self.set_hdus(st, l, cur + (hl[0],))
                    elif args and args[0].const is not NOCONST:
                        c = list(cur)
                        c.insert(args[0].const, hl[0])
                        self.set_hdus(st, l, c)
                    else:
                        self.set_hdus(st, l, None)
                elif name == 'writeto':
                    self.set_hdus(st, FILE, cur)
                elif name in ('pop', 'extend', 'remove'):
                    self.set_hdus(st, l, None)
            return NONE
        if b.locs and (name in ('astype', 'copy') or name == 'get' and not args and not kwargs) and not any(l[0] in ('cont', 'fits') for l in b.locs):
            return self.same(b)
        if b.kinds & KIND_H and name == 'writeto':
            self.ops += 1
            hl = [x for x in b.locs if x[:2] == ('fits', 'hdu')]
            self.set_hdus(st, FILE, hl if len(hl) == 1 else None)
            return NONE
        if any(l[:2] == ('cont', 'dict') and len(l) > 2 and l[2][:1] == ('fitshdr',) for l in b.locs):
            if name in ('set', 'append') and args:
                k = args[0]
                v = args[1] if len(args) > 1 else kwargs.get('value', NONE)
                if name == 'append':
                    it = eng.tuple_items(st, k)
                    if not it:
                        return NONE
                    k, v = it[0], it[1] if len(it) > 1 else NONE
                for l in b.locs:
                    st.heap[(l, f'[{upper(k.const)!r}]' if k.const is not NOCONST else '[*]')] = v
                return NONE
            if name in ('add_comment', 'add_history', 'add_blank'):
                return NONE
        return None

    def item(self, eng, st, b, k, n):
        ls = [l for l in b.locs if l[:2] == ('fits', 'list')]
        if ls and b.kinds & KIND_L:
            self.ops += 1
            got = []
            for l in ls:
                cur = self.hdus(st, l)
                if cur is None or k is None:
                    return Val()
                h = self.pick(eng, st, cur, k, n)
                if h is None:
                    return Val()
                got += h
            return Val(frozenset(got), KIND_H)
        if self.is_header(b):
            self.ops += 1
            if isinstance(k.const, str):
                r = None
                for l in b.locs:
                    v = self.key(st, l, k.const)
                    if v is not None:
                        r = join(r, v) if r is not None else v
                if r is None:
                    if not any((l, '[*]') in st.heap for l in b.locs) and k.const.upper() not in ('NAXIS', 'NAXIS1', 'NAXIS2', 'NAXIS3', 'BITPIX'):
                        self.miss(eng, 'key', k.const, n)
                    return Val()
                return self.first(eng, st, r)
        return None

    def is_header(self, b):
        return bool(b.locs) and all(l[:2] == ('cont', 'dict') and len(l) > 2 and l[2][:1] == ('fitshdr',) for l in b.locs)

    def key(self, st, l, k):
        for (hl, hk), v in st.heap.items():
            if hl == l and hk.upper() == f'[{k!r}]'.upper():
                return v
        return st.heap.get((l, '[*]'))

    def first(self, eng, st, v):
        if v.kinds == frozenset(['tuple']):
            it = eng.tuple_items(st, v)
            if it:
                return it[0]
        return v

    def builtin(self, eng, st, name, args, kwargs, n):
        if name == 'len' and args and args[0] is not None and args[0].kinds & KIND_L:
            lens = set()
            for l in args[0].locs:
                cur = self.hdus(st, l)
                lens.add(len(cur) if cur is not None else None)
            if len(lens) == 1 and None not in lens:
                return constval(lens.pop())
            return Val(kinds=frozenset(['int']))
        return None

    def compare(self, eng, st, op, a, b, n):
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(a.const, str):
            r = None
            if self.is_header(b):
                self.ops += 1
                r = any(self.key(st, l, a.const) is not None for l in b.locs)
            elif b.kinds == KIND_L and all(l[:2] == ('fits', 'list') for l in b.locs):
                names = set()
                for l in b.locs:
                    cur = self.hdus(st, l)
                    if cur is None:
                        return None
                    for h in cur:
                        nm = st.heap.get((h, 'name'))
                        if nm is None or nm.const is NOCONST:
                            return None
                        names.add(str(nm.const).upper())
                r = a.const.upper() in names
            if r is not None:
                return constval(r if isinstance(op, ast.In) else not r)
        return None
