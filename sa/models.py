"""Models of operators, builtins, strings, containers and library calls."""
import ast
import html as _html
import re as _re
import sys as _sys

from .values import *
from .charset import CharSet, ALL, EMPTY, ASCII, SURROGATES, NUL, category
from .state import Obj, Nar
from .loader import nid
from . import rx as RXM

PURE_STR = set('''replace strip lstrip rstrip lower upper casefold title
capitalize swapcase startswith endswith find rfind index rindex count split
rsplit splitlines partition rpartition isdigit isalpha isalnum isspace isupper
islower isnumeric isdecimal isidentifier isprintable isascii zfill ljust rjust
center expandtabs encode removeprefix removesuffix format join
translate'''.split())

WS = category('space') if callable(category) else None
STRIP_WS = CharSet.of(''.join(
    chr(i) for i in range(0x3001) if chr(i).isspace()))
SPLITLINES = CharSet.of('\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')

LIB = {
    're': set(['search', 'match', 'fullmatch', 'sub', 'subn', 'split',
               'findall', 'finditer', 'compile', 'escape', 'I', 'M', 'S',
               'X', 'A', 'U', 'IGNORECASE', 'MULTILINE', 'DOTALL',
               'VERBOSE', 'ASCII', 'UNICODE', 'error', 'Pattern', 'Match']),
    'html': set(['escape', 'unescape', 'entities']),
    'sys': set(['version_info', 'maxunicode', 'stdin', 'stdout', 'stderr',
                'argv', 'exit', 'maxsize', 'setrecursionlimit', 'path',
                'modules', 'getrecursionlimit', 'version', 'platform']),
    'builtins': None,
    'urllib.parse': set(['quote', 'unquote', 'quote_plus', 'urlparse',
                         'urlsplit', 'urljoin', 'urlunsplit',
                         'quote_from_bytes', 'unquote_plus', 'urlencode']),
    'urllib': set(['parse', 'request', 'error']),
}


def const(v):
    return isinstance(v, C)


def strconst(v):
    return isinstance(v, C) and isinstance(v.v, str)


def isstr(v):
    return isinstance(v, S) or strconst(v)


def isintv(v):
    return isinstance(v, I) or (isinstance(v, C) and isinstance(v.v, int))


class Models(object):

    # ------------------------------------------------------------ library
    def lib_exists(self, mod, name):
        k = LIB.get(mod, False)
        if k is False or k is None:
            return True
        return name in k or name.startswith('_')

    def lib_attr(self, full):
        mod, _, name = full.rpartition('.')
        if mod == 'sys':
            if name == 'version_info':
                return Tup([C(3), C(12), C(3), C('final'), C(0)])
            if name == 'maxunicode':
                return C(0x10ffff)
            if name == 'maxsize':
                return C(2 ** 63 - 1)
            if name == 'version':
                return C('3.12.3')
        if mod == 're':
            fl = {'I': 2, 'IGNORECASE': 2, 'M': 8, 'MULTILINE': 8, 'S': 16,
                  'DOTALL': 16, 'X': 64, 'VERBOSE': 64, 'A': 256,
                  'ASCII': 256, 'U': 32, 'UNICODE': 32}
            if name in fl:
                return C(fl[name])
        if mod == 'builtins':
            if name in ('True', 'False', 'None'):
                return C({'True': True, 'False': False,
                          'None': None}[name])
            return BI(name)
        if mod == 'string':
            import string
            v = getattr(string, name, None)
            if isinstance(v, str):
                return C(v)
        if mod == '' or full in ('urllib.parse', 'os.path',
                                 'collections.abc', 'html.entities'):
            return BI('mod:' + full)
        return BI(full)

    # ---------------------------------------------------------- integers
    def int_cmp(self, st, a, b, op):
        """[(st, bool)] for op in eq/lt/le"""
        a, b = toI(a), toI(b)
        if op == 'lt':
            # a < b  <=>  b - a - 1 >= 0
            d = iadd(isub(b, a), C(-1))
        elif op == 'le':
            d = isub(b, a)
        else:
            d = isub(a, b)
            if isinstance(d, C):
                return [(st, d.v == 0)]
            if st.prove_eq(a, b):
                return [(st, True)]
            lt = iadd(isub(b, a), C(-1))
            gt = iadd(isub(a, b), C(-1))
            if st.prove_ge0(lt) or st.prove_ge0(gt):
                return [(st, False)]
            t = st.copy()
            f = st.copy()
            out = []
            if t.assume_ge0(d) and t.assume_ge0(imulc(d, -1)):
                self.int_known(t, d)
                out.append((t, True))
            key = ('inteq', d)
            ok = True
            if f.prove_ge0(d):
                ok = f.assume_ge0(gt)
            elif f.prove_ge0(imulc(d, -1)):
                ok = f.assume_ge0(lt)
            else:
                r = f.facts.get(key)
                if r is True:
                    return out
                f.facts[key] = False
            if ok:
                out.append((f, False))
            return out
        if isinstance(d, C):
            return [(st, d.v >= 0)]
        if st.prove_ge0(d):
            return [(st, True)]
        neg = iadd(imulc(d, -1), C(-1))
        if st.prove_ge0(neg):
            return [(st, False)]
        t, f = st.copy(), st.copy()
        out = []
        if t.assume_ge0(d):
            out.append((t, True))
        if f.assume_ge0(neg):
            out.append((f, False))
        return out

    def int_known(self, st, d):
        pass

    def cmp_ints(self, st, op, a, b):
        if isinstance(op, ast.Eq):
            return self.int_cmp(st, a, b, 'eq')
        if isinstance(op, ast.NotEq):
            return [(s, not r) for s, r in self.int_cmp(st, a, b, 'eq')]
        if isinstance(op, ast.Lt):
            return self.int_cmp(st, a, b, 'lt')
        if isinstance(op, ast.LtE):
            return self.int_cmp(st, a, b, 'le')
        if isinstance(op, ast.Gt):
            return self.int_cmp(st, b, a, 'lt')
        return self.int_cmp(st, b, a, 'le')

    # -------------------------------------------------------- comparisons
    def compare(self, st, op, a, b, node):
        """[(st, V bool | exc)]"""
        a, b = self.nv(st, a), self.nv(st, b)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            out = []
            for s, r in self.equal(st, a, b, isinstance(
                    op, (ast.Is, ast.IsNot)), node):
                if isinstance(r, B):
                    out.append((s, B(r.k, r.neg != neg)))
                elif isexc(r):
                    out.append((s, r))
                else:
                    out.append((s, C(r != neg)))
            return out
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            return [(s, r if isexc(r) else C(r != neg))
                    for s, r in self.contains(st, b, a, node)]
        # orderings
        for x in (a, b):
            if isinstance(x, U) or (isinstance(x, Sy) and
                                    x.td.nkinds() > 1):
                return self.bind(
                    self.split(st, x),
                    lambda s, w: self.compare(
                        s, op, w if x is a else a, w if x is b else b,
                        node))
        if isintv(a) and isintv(b):
            return [(s, C(r)) for s, r in self.cmp_ints(st, op, a, b)]
        if const(a) and const(b):
            try:
                r = {ast.Lt: lambda: a.v < b.v, ast.LtE: lambda: a.v <= b.v,
                     ast.Gt: lambda: a.v > b.v,
                     ast.GtE: lambda: a.v >= b.v}[type(op)]()
                return [(st, C(r))]
            except TypeError:
                return [(st, Exc('TypeError', node, 'comparison',
                                 self.where(st, node)))]
        if isinstance(a, Tup) and isinstance(b, Tup):
            av = self.py(st, a)
            bv = self.py(st, b)
            if av is not None and bv is not None:
                r = {ast.Lt: lambda: av[0] < bv[0],
                     ast.LtE: lambda: av[0] <= bv[0],
                     ast.Gt: lambda: av[0] > bv[0],
                     ast.GtE: lambda: av[0] >= bv[0]}[type(op)]()
                return [(st, C(r))]
        # single characters compare as code points
        r = self.char_cmp(st, op, a, b)
        if r is not None:
            return r
        if isinstance(a, (T,)) or isinstance(b, (T,)):
            return [(s, C(r)) for s, r in self.truth(st, TOP)]
        return [(s, C(r)) for s, r in self.fork(
            st, ('cmp', type(op).__name__, a, b))]

    def char_cmp(self, st, op, a, b):
        flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt,
                ast.GtE: ast.LtE}
        if strconst(a) and isinstance(b, S):
            return self.char_cmp(st, flip[type(op)](), b, a)
        if not (isinstance(a, S) and strconst(b) and len(b.v) == 1 and
                len(a.p) == 1):
            return None
        p = a.p[0]
        if isinstance(p, str) or p.imgs or not (p.lo == 1 and p.hi == 1):
            return None
        k = ord(b.v)
        if isinstance(op, ast.Lt):
            r = CharSet.ranges([(0, k - 1)]) if k else EMPTY
        elif isinstance(op, ast.LtE):
            r = CharSet.ranges([(0, k)])
        elif isinstance(op, ast.Gt):
            r = CharSet.ranges([(k + 1, 0x10ffff)])
        else:
            r = CharSet.ranges([(k, 0x10ffff)])
        out = []
        t, f = st.copy(), st.copy()
        if self.narrow(t, p, cs=r):
            out.append((t, TRUE))
        if self.narrow(f, p, cs=~r):
            out.append((f, FALSE))
        return out

    def equal(self, st, a, b, ident, node):
        """[(st, bool | B)]"""
        a, b = self.nv(st, a), self.nv(st, b)
        if isinstance(a, T) or isinstance(b, T):
            return self.truth(st, TOP)
        if type(a) is type(b) and a == b and not isinstance(a, U):
            return [(st, True)]
        if const(a) and const(b):
            if ident and (a.v is None or b.v is None or
                          isinstance(a.v, bool) or isinstance(b.v, bool)):
                return [(st, a.v is b.v)]
            return [(st, a.v == b.v)]
        if const(b) and not const(a):
            a, b = b, a
        for x, y in ((a, b), (b, a)):
            if isinstance(x, U):
                return self.bind(self.split(st, x),
                                 lambda s, w: self.equal(s, w, y, ident,
                                                         node))
        # kinds that can never be equal
        if isinstance(a, C) and a.v is None:
            if isinstance(b, Sy):
                if not b.td.top and not b.td.none:
                    return [(st, False)]
                if b.td.nkinds() == 1 and b.td.top:
                    return self.fork(st, ('isnone', b.k))
                out = []
                nn = st.copy()
                ks = self.kinds(b.td)
                t = st.copy()
                t.kind[b.k] = ('none',)
                out.append((t, True))
                rest = [k for k in ks if k != ('none',)]
                if len(rest) == 1:
                    nn.kind[b.k] = rest[0]
                    out.append((nn, False))
                else:
                    for k in rest:
                        s = st.copy()
                        s.kind[b.k] = k
                        out.append((s, False))
                return out
            if isinstance(b, B):
                return [(st, False)]
            return [(st, False)]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sy) and x.td.nkinds() > 1:
                return self.bind(self.split(st, x),
                                 lambda s, w: self.equal(s, w, y, ident,
                                                         node))
        if isstr(a) and isstr(b):
            return self.str_eq(st, a, b)
        if isintv(a) and isintv(b):
            return self.int_cmp(st, a, b, 'eq')
        if isinstance(b, B) and const(a):
            if isinstance(a.v, bool) or a.v in (0, 1):
                return [(s, r == bool(a.v))
                        for s, r in self.truth(st, b)]
            return [(st, False)]
        if isinstance(a, B) and isinstance(b, B):
            if a.k == b.k:
                return [(st, a.neg == b.neg)]
            out = []
            for s, r in self.truth(st, a):
                for s2, q in self.truth(s, b):
                    out.append((s2, r == q))
            return out
        if not ident and 'objeq' in self.hooks and \
           isinstance(a, (R, Sy)) and isinstance(b, (R, Sy)):
            self.hook('objeq', st, a=a, b=b, node=node)
        if isinstance(a, R) and isinstance(b, R):
            oa, ob = st.obj(a.oid), st.obj(b.oid)
            if not ident and oa is not None and ob is not None and \
               oa.kind == ob.kind and oa.kind in ('list', 'dict'):
                if oa.kind == 'list' and oa.rest is None and \
                   ob.rest is None and len(oa.items) != len(ob.items):
                    return [(st, False)]
                return self.fork(st, ('eq', a, b, 0))
            return [(st, a.oid == b.oid)]
        if isinstance(a, (Sy, R)) and isinstance(b, (Sy, R)):
            ka = self.eq_kind(a, st)
            kb = self.eq_kind(b, st)
            if ka is not None and kb is not None and ka != kb:
                return [(st, False)]
            key = ('same', tuple(sorted([a, b], key=hash)))
            return self.fork(st, key)
        if isinstance(a, Sy) or isinstance(b, Sy):
            x, y = (a, b) if isinstance(a, Sy) else (b, a)
            if x.td.top:
                return self.fork(st, ('eq', x, y))
            return [(st, False)]
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return [(st, False)]
            res = [(st, True)]
            for x, y in zip(a.items, b.items):
                nxt = []
                for s, r in res:
                    if r is not True:
                        nxt.append((s, r))
                    else:
                        nxt.extend(self.equal(s, x, y, ident, node))
                res = nxt
            return res
        return [(st, False)]

    def eq_kind(self, v, st):
        if isinstance(v, R):
            o = st.obj(v.oid)
            if o is None:
                return None
            if o.kind == 'inst':
                return o.cls.qual
            if o.kind == 'dict':
                return self.dict_type(v.oid)
            return o.kind
        if v.td.objs:
            return next(iter(v.td.objs))
        return None

    def str_eq(self, st, a, b):
        if strconst(b) and not strconst(a):
            a, b = b, a
        if strconst(a) and isinstance(b, S):
            if len(b.p) == 1 and not isinstance(b.p[0], str):
                p = self.rp(st, b.p[0])
                if isinstance(p, str):
                    return [(st, p == a.v)]
                if p.imgs or 'opaque' in p.ops:
                    return self.fork(st, ('eqs', a, b))
                if p.consts is not None and a.v not in p.consts:
                    return [(st, False)]
                t, f = st.copy(), st.copy()
                out = []
                n = st.nar.get(p.uid)
                denied = n is not None and a.v in n.deny
                if not denied and all(c in p.cs for c in a.v) and \
                   self.narrow(t, p, allow=frozenset([a.v]), lo=len(a.v),
                               hi=len(a.v)):
                    out.append((t, True))
                ok = True
                if a.v == '':
                    ok = self.narrow(f, p, lo=1)
                else:
                    ok = self.narrow(f, p, deny=frozenset([a.v]))
                if ok:
                    out.append((f, False))
                return out
            lo = sum(len(x) if isinstance(x, str) else x.lo for x in b.p)
            if lo > len(a.v) and not any(
                    not isinstance(x, str) and x.imgs for x in b.p):
                return [(st, False)]
            if isinstance(b.p[0], str) and not a.v.startswith(b.p[0]):
                return [(st, False)]
            if isinstance(b.p[-1], str) and not a.v.endswith(b.p[-1]):
                return [(st, False)]
            return self.fork(st, ('eqs', a, b))
        # two symbolic strings
        la, lb = self.strlen(st, a), self.strlen(st, b)
        d = isub(la, lb)
        if (isinstance(d, C) and d.v != 0):
            return [(st, False)]
        if len(a.p) == 1 and len(b.p) == 1:
            p, q = self.rp(st, a.p[0]), self.rp(st, b.p[0])
            if not isinstance(p, str) and not isinstance(q, str) and \
               not p.imgs and not q.imgs:
                key = ('eqs',) + tuple(sorted([a, b], key=hash))
                out = []
                for s, r in self.fork(st, key):
                    if r:
                        cs = p.cs & q.cs
                        lo = max(p.lo, q.lo)
                        hi = p.hi if q.hi is None else (
                            q.hi if p.hi is None else min(p.hi, q.hi))
                        al = None
                        if p.consts is not None:
                            al = p.consts
                        if q.consts is not None:
                            al = q.consts if al is None else al & q.consts
                        if not (self.narrow(s, p, cs=cs, lo=lo, hi=hi,
                                            allow=al) and
                                self.narrow(s, q, cs=cs, lo=lo, hi=hi,
                                            allow=al)):
                            continue
                        if not isinstance(d, C):
                            if not (s.assume_ge0(d) and
                                    s.assume_ge0(imulc(d, -1))):
                                continue
                    out.append((s, r))
                return out
        return self.fork(st, ('eqs',) + tuple(sorted([a, b], key=hash)))

    def contains(self, st, cont, x, node):
        """x in cont -> [(st, bool|exc)]"""
        cont, x = self.nv(st, cont), self.nv(st, x)
        if isinstance(cont, U) or (isinstance(cont, Sy) and
                                   cont.td.nkinds() > 1):
            return self.bind(self.split(st, cont),
                             lambda s, w: self.contains(s, w, x, node))
        if isinstance(cont, C) and cont.v is None:
            return [(st, Exc('TypeError', node, 'None is not a container',
                             self.where(st, node)))]
        if isstr(cont):
            for w in (x,):
                if isinstance(w, U) or (isinstance(w, Sy) and
                                        w.td.nkinds() > 1):
                    return self.bind(self.split(st, w),
                                     lambda s, y: self.contains(
                                         s, cont, y, node))
            if isinstance(x, C) and x.v is None:
                return [(st, Exc('TypeError', node, 'None in str',
                                 self.where(st, node)))]
            if strconst(cont) and strconst(x):
                return [(st, x.v in cont.v)]
            if strconst(cont) and isinstance(x, S):
                subs = set([''])
                s_ = cont.v
                if len(s_) <= 40:
                    for i in range(len(s_)):
                        for j in range(i + 1, len(s_) + 1):
                            subs.add(s_[i:j])
                    if len(x.p) == 1 and not isinstance(x.p[0], str) and \
                       x.p[0].lo == 1 and x.p[0].hi == 1:
                        subs = set(s_)
                    return self.member(st, x, [C(k) for k in sorted(subs)],
                                       node)
                if len(x.p) == 1 and not isinstance(x.p[0], str):
                    p = self.rp(st, x.p[0])
                    if isinstance(p, str):
                        return [(st, p in s_)]
                    if p.lo == 1 and p.hi == 1 and not p.imgs:
                        t, f = st.copy(), st.copy()
                        k = CharSet.of(s_)
                        out = []
                        if self.narrow(t, p, cs=k):
                            out.append((t, True))
                        if self.narrow(f, p, cs=~k):
                            out.append((f, False))
                        return out
                return self.fork(st, ('in', x, cont))
            if strconst(x):
                if x.v == '':
                    return [(st, True)]
                res = self.regex(st, RX(_re.escape(x.v), 0), cont, 'search',
                                 node, quiet=True)
                return [(s, not (isinstance(m, C))) for s, m in res]
            return self.fork(st, ('in', x, cont))
        if isinstance(cont, R):
            o = st.obj(cont.oid)
            if o is not None and o.kind == 'dict':
                out = []
                for s, v in self.dict_lookup(st, cont, o, x, node):
                    out.append((s, v is not None))
                return out
        seq = self.sequence(st, cont, node)
        if len(seq) == 1 and seq[0][1] is not None and \
           not isexc(seq[0][1]):
            return self.member(st, x, seq[0][1], node)
        if isinstance(cont, Sy) and cont.td.objs:
            t = next(iter(cont.td.objs))
            if t.startswith('dict:'):
                out = []
                for s, v in self.sydict_lookup(st, cont, x, node):
                    out.append((s, v is not None))
                return out
        if isinstance(cont, T) or isinstance(x, T):
            return self.truth(st, TOP)
        return self.fork(st, ('in', x, cont))

    def member(self, st, x, items, node):
        res = [(st, False)]
        if isinstance(x, S) and len(x.p) == 1 and \
           not isinstance(x.p[0], str) and items and \
           all(strconst(i) for i in items):
            # one fork instead of a chain
            p = self.rp(st, x.p[0])
            if isinstance(p, str):
                return [(st, any(i.v == p for i in items))]
            if not p.imgs:
                vals = frozenset(i.v for i in items)
                t, f = st.copy(), st.copy()
                out = []
                n = st.nar.get(p.uid)
                deny = n.deny if n is not None else frozenset()
                ok = frozenset(v for v in vals if v not in deny and all(
                    c in p.cs for c in v) and len(v) >= p.lo and
                    (p.hi is None or len(v) <= p.hi) and
                    (p.consts is None or v in p.consts))
                if ok and self.narrow(t, p, allow=ok):
                    if p.lo == 1 and p.hi == 1:
                        self.narrow(t, p, cs=CharSet.of(''.join(ok)))
                    out.append((t, True))
                r = True
                if '' in vals:
                    r = self.narrow(f, p, lo=1)
                if r and self.narrow(f, p, deny=vals):
                    out.append((f, False))
                return out
        for i in items:
            nxt = []
            for s, r in res:
                if r is not False:
                    nxt.append((s, r))
                    continue
                for s2, e in self.equal(s, x, i, False, node):
                    if isexc(e):
                        nxt.append((s2, e))
                    elif isinstance(e, B):
                        nxt.extend(self.truth(s2, e))
                    else:
                        nxt.append((s2, e))
            res = nxt
        return res

    # --------------------------------------------------------- arithmetic
    def binop(self, st, op, a, b, node):
        a, b = self.nv(st, a), self.nv(st, b)
        for x, y, first in ((a, b, True), (b, a, False)):
            if isinstance(x, U) or (isinstance(x, Sy) and
                                    x.td.nkinds() > 1):
                return self.bind(
                    self.split(st, x),
                    lambda s, w: self.binop(s, op, w if first else a,
                                            b if first else w, node))
        if isinstance(a, B) or isinstance(b, B):
            if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
                x = a if isinstance(a, B) else b
                out = []
                for s, r in self.truth(st, x):
                    out.extend(self.binop(s, op, C(int(r)) if x is a else a,
                                          C(int(r)) if x is b else b, node))
                return out
        if const(a) and const(b) and not (
                isinstance(a.v, str) and isinstance(op, ast.Mod)):
            try:
                f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y,
                     ast.Mult: lambda x, y: x * y,
                     ast.FloorDiv: lambda x, y: x // y,
                     ast.Mod: lambda x, y: x % y,
                     ast.Div: lambda x, y: x / y,
                     ast.Pow: lambda x, y: x ** y,
                     ast.LShift: lambda x, y: x << y,
                     ast.RShift: lambda x, y: x >> y,
                     ast.BitOr: lambda x, y: x | y,
                     ast.BitAnd: lambda x, y: x & y,
                     ast.BitXor: lambda x, y: x ^ y}[type(op)]
                return [(st, C(f(a.v, b.v)))]
            except KeyError:
                return [(st, TOP)]
            except Exception as e:
                return [(st, Exc(type(e).__name__, node, str(e),
                                 self.where(st, node)))]
        if isinstance(op, ast.Add):
            if isstr(a) and isstr(b):
                return [(st, self.mkstr(st, parts(a) + parts(b)))]
            if isintv(a) and isintv(b):
                return [(st, iadd(a, b))]
            if isinstance(a, Tup) and isinstance(b, Tup):
                return [(st, Tup(a.items + b.items))]
            if isinstance(a, R) and isinstance(b, R):
                oa, ob = st.obj(a.oid), st.obj(b.oid)
                if oa is not None and ob is not None and \
                   oa.kind == ob.kind == 'list':
                    rest = oa.rest if ob.rest is None else (
                        ob.rest if oa.rest is None
                        else mkunion([oa.rest, ob.rest]))
                    return [(st, st.alloc(
                        ('list', self.site(st, node)),
                        Obj('list', items=tuple(oa.items or ()) +
                            tuple(ob.items or ()), rest=rest)))]
            if isstr(a) or isstr(b):
                x = b if isstr(a) else a
                if isinstance(x, (C, R, I, B, Tup, Fn, K)):
                    return [(st, Exc('TypeError', node,
                                     'str + %r' % (x,),
                                     self.where(st, node)))]
                ps = [list(parts(v)) if isstr(v) else
                      [self.opaque_piece(st, v, node)] for v in (a, b)]
                return [(st, self.mkstr(st, ps[0] + ps[1]))]
            if isinstance(a, C) and a.v is None or \
               isinstance(b, C) and b.v is None:
                return [(st, Exc('TypeError', node, 'None in addition',
                                 self.where(st, node)))]
        if isinstance(op, ast.Sub) and isintv(a) and isintv(b):
            return [(st, isub(a, b))]
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isintv(x) and isinstance(y, C) and \
                   isinstance(y.v, int) and not isstr(x):
                    return [(st, imulc(x, y.v))]
                if isstr(x) and isintv(y):
                    return self.repeat(st, x, y, node)
            if isinstance(a, R) and isintv(b):
                o = st.obj(a.oid)
                if o is not None and o.kind == 'list':
                    return [(st, st.alloc(
                        ('list', self.site(st, node)),
                        Obj('list', items=(), rest=mkunion(
                            list(o.items or ()) or [TOP]))))]
        if isinstance(op, (ast.Mod, ast.FloorDiv)) and isintv(a) and \
           isinstance(b, C) and isinstance(b.v, int) and b.v > 0:
            return [(st, self.divmod_(st, a, b.v,
                                      isinstance(op, ast.Mod)))]
        if isinstance(op, ast.Mod) and isstr(a):
            return self.percent(st, a, b, node)
        if isintv(a) and isintv(b):
            n = symint(('bin', type(op).__name__, a, b))
            return [(st, n)]
        if isinstance(a, T) or isinstance(b, T):
            return [(st, TOP)]
        return [(st, Sy(('bin', type(op).__name__, a, b), ANYTD))]

    def divmod_(self, st, a, m, mod):
        a = toI(a)
        # split off the part divisible by m
        q = {s: c for s, c in a.lin if c % m == 0}
        r = {s: c for s, c in a.lin if c % m != 0}
        kq, kr = divmod(a.k, m)
        if not r:
            if mod:
                return C(kr)
            return mkint({s: c // m for s, c in q.items()}, kq)
        rest = mkint(r, a.k)
        qs = symint(('nat' if st.prove_ge0(rest) else 'div', rest, m))
        # m*q <= rest <= m*q + m-1
        lo = isub(rest, imulc(qs, m))
        st.assume_ge0(lo)
        st.assume_ge0(isub(C(m - 1), lo))
        if mod:
            return lo
        return iadd(mkint({s: c // m for s, c in q.items()}, 0), qs)

    def repeat(self, st, s, n, node):
        if isinstance(n, C):
            return [(st, self.mkstr(st, list(parts(s)) * max(0, n.v)))]
        if strconst(s):
            p = P(('rep', s.v, n), cs=CharSet.of(s.v), labels=['rep'])
            ln = imulc(n, len(s.v))
            if st.prove_ge0(n):
                d = isub(symint(('len', p.uid)), ln)
                st.assume_ge0(d)
                st.assume_ge0(imulc(d, -1))
                if st.prove_ge0(iadd(n, C(-1))):
                    p = p.but(lo=len(s.v))
            return [(st, S([p]))]
        cs, labels = EMPTY, set()
        for x in parts(s):
            if isinstance(x, str):
                cs = cs | CharSet.of(x)
            else:
                cs = cs | self.outcs(x)
                labels |= x.labels
        return [(st, S([P(('rep', s, n), cs=cs, labels=labels,
                          ops=['repeat'])]))]

    def percent(self, st, a, b, node):
        """'...' % args"""
        if not strconst(a):
            return [(st, S([P(('pct', a, b), ops=['opaque'])]))]
        items = list(b.items) if isinstance(b, Tup) else [b]
        out, i, text = [], 0, a.v
        pos = 0
        if isinstance(b, R) and _re.search(r'%\(', text):
            o = st.obj(b.oid)
            res = [(st, [])]
            last = 0
            for m in _re.finditer(r'%\((\w+)\)s|%%', text):
                lit_ = text[last:m.start()]
                last = m.end()
                if m.group() == '%%':
                    res = [(s, ps + [lit_, '%']) for s, ps in res]
                    continue
                v = (o.items or {}).get(m.group(1), TOP)
                res = self.bind(res, lambda s, ps: self.bind(
                    self.to_str(s, v, node),
                    lambda s2, w: [(s2, ps + [lit_] + list(
                        parts(w) if parts(w) is not None else
                        [self.opaque_piece(s2, w, node)]))]))
            return self.bind(res, lambda s, ps: [
                (s, self.mkstr(s, ps + [text[last:]]))])
        res = [(st, [])]
        last = 0
        for m in _re.finditer(r'%(?:%|[-+ #0-9.]*[srdix])', text):
            lit_ = text[last:m.start()]
            last = m.end()
            if m.group() == '%%':
                res = [(s, ps + [lit_, '%']) for s, ps in res]
                continue
            if i >= len(items):
                return [(st, Exc('TypeError', node, 'format arguments',
                                 self.where(st, node)))]
            v = items[i]
            i += 1
            conv = m.group()[-1]
            plain = m.group() in ('%s', '%d')

            def go(s, ps, v=v, plain=plain, lit_=lit_, conv=conv):
                def add(s2, w):
                    pw = parts(w) if plain else None
                    if conv in 'di' and not (pw and all(
                            isinstance(x, str) or 'int' in x.labels
                            for x in pw)):
                        # a number, whatever it is
                        pw = [P(('str', v if not isinstance(v, T) else
                                 ('T', nid(node), i)),
                                cs=CharSet.of(' +-0123456789'), lo=1,
                                labels=['int'])]
                    if pw is None:
                        pw = [self.opaque_piece(s2, w, node)]
                    return [(s2, ps + [lit_] + list(pw))]
                return self.bind(self.to_str(s, v, node), add)
            res = self.bind(res, lambda s, ps: go(s, ps))
        return self.bind(res, lambda s, ps: [
            (s, self.mkstr(s, ps + [text[last:]]))])

    def to_str(self, st, v, node):
        v = self.nv(st, v)
        if isstr(v):
            return [(st, v)]
        if const(v):
            return [(st, C(str(v.v)))]
        if isinstance(v, I):
            neg = not st.prove_ge0(v)
            cs = CharSet.of('0123456789' + ('-' if neg else ''))
            return [(st, S([P(('str', v), cs=cs, lo=1, labels=['int'])]))]
        if isinstance(v, B):
            return [(s, C(str(r))) for s, r in self.truth(st, v)]
        if isinstance(v, U) or (isinstance(v, Sy) and v.td.nkinds() > 1):
            return self.bind(self.split(st, v),
                             lambda s, w: self.to_str(s, w, node))
        info = self.inst_class(st, v)
        if info is not None and not isinstance(v, K):
            for nm in ('__str__', '__repr__'):
                f = self.class_attr(st, info, nm)
                if f is not None:
                    return self.call(st, BM(f, v), [], {}, node)
        labels = set()
        if isinstance(v, Sy):
            labels.add(('str-of', v.k))
        return [(st, S([P(('str', v if not isinstance(v, T) else
                           ('T', nid(node))), ops=['opaque'],
                          labels=labels)]))]

    # ------------------------------------------------------- subscripting
    def getitem(self, st, v, i, node):
        v, i = self.nv(st, v), self.nv(st, i)
        for x, first in ((v, True), (i, False)):
            if isinstance(x, U) or (isinstance(x, Sy) and
                                    x.td.nkinds() > 1):
                return self.bind(
                    self.split(st, x),
                    lambda s, w: self.getitem(s, w if first else v,
                                              i if first else w, node))
        if isinstance(v, C) and v.v is None:
            return [(st, Exc('TypeError', node, 'None is not subscriptable',
                             self.where(st, node)))]
        if isinstance(i, B):
            out = []
            for s, r in self.truth(st, i):
                out.extend(self.getitem(s, v, C(int(r)), node))
            return out
        if isstr(v):
            return self.str_index(st, v, i, node)
        if isinstance(v, Tup):
            if isinstance(i, C) and isinstance(i.v, int):
                if -len(v.items) <= i.v < len(v.items):
                    return [(st, v.items[i.v])]
                return [(st, Exc('IndexError', node, '',
                                 self.where(st, node)))]
            if isintv(i):
                return self.index_items(st, list(v.items), i, node)
            return [(st, mkunion(v.items) if v.items else TOP)]
        if isinstance(v, R):
            o = st.obj(v.oid)
            if o is not None and o.kind == 'dict':
                out = []
                self.hook('dictget', st, obj=v, key=i, node=node)
                for s, r in self.dict_lookup(st, v, o, i, node):
                    if r is None:
                        self.hook('keyerror', s, obj=v, key=i, node=node)
                        out.append((s, Exc('KeyError', node, repr(i),
                                           self.where(s, node))))
                    else:
                        out.append((s, r))
                return out
            if o is not None and o.kind == 'list':
                if o.items is not None and o.rest is None and isintv(i):
                    return self.index_items(st, list(o.items), i, node)
                vs = list(o.items or ())
                if o.rest is not None:
                    vs.append(o.rest)
                self.hook('listindex', st, obj=v, index=i, node=node,
                          proven=False)
                if not vs:
                    return [(st, TOP)]
                return [(st, self.nv(st, mkunion(vs)))]
            if o is not None and o.kind == 'inst':
                m = self.class_attr(st, o.cls, '__getitem__')
                if m is not None:
                    return self.call(st, BM(m, v), [i], {}, node)
        if isinstance(v, Sy):
            if v.td.objs:
                t = next(iter(v.td.objs))
                if t.startswith('dict:'):
                    out = []
                    for s, r in self.sydict_lookup(st, v, i, node):
                        if r is None:
                            self.hook('keyerror', s, obj=v, key=i,
                                      node=node)
                            out.append((s, Exc('KeyError', node, repr(i),
                                               self.where(s, node))))
                        else:
                            out.append((s, r))
                    return out
                info = self.classes.get(t)
                if info is not None:
                    m = self.class_attr(st, info, '__getitem__')
                    if m is not None:
                        return self.call(st, BM(m, v), [i], {}, node)
                if isinstance(i, C):
                    return [(st, self.nv(st, self.getfield(
                        st, v, '[%s]' % (i.v,))))]
            if v.td.lst is not None:
                key = v.k + ('[', i, ']')
                return [(st, self.of_td(st, key, v.td.lst))]
            if isinstance(i, C):
                x = st.sy.get((v.k, '[%s]' % (i.v,)))
                if x is not None:
                    return [(st, self.nv(st, x))]
                return [(st, self.nv(st, Sy(v.k + ('[%s]' % (i.v,),),
                                            ANYTD)))]
            return [(st, Sy(v.k + ('[', i if not isinstance(i, T) else
                                   'T', ']'), ANYTD))]
        if isinstance(v, MT):
            return self.mt_group(st, v, i, node)
        if isinstance(v, C):
            if isinstance(v.v, bytes) and isinstance(i, C):
                try:
                    return [(st, C(v.v[i.v]))]
                except IndexError:
                    return [(st, Exc('IndexError', node, '',
                                     self.where(st, node)))]
            return [(st, Exc('TypeError', node, 'not subscriptable',
                             self.where(st, node)))]
        return [(st, TOP)]

    def index_items(self, st, items, i, node):
        if isinstance(i, C):
            if isinstance(i.v, int) and -len(items) <= i.v < len(items):
                return [(st, self.nv(st, items[i.v]))]
            self.hook('listindex', st, obj=None, index=i, node=node,
                      proven=False, definite=True)
            return [(st, Exc('IndexError', node, '', self.where(st, node)))]
        out = []
        n = len(items)
        # in range?
        ok = st.prove_ge0(i) and st.prove_lt(i, C(n))
        okneg = ok or (st.prove_ge0(iadd(i, C(n))) and
                       st.prove_lt(i, C(n)))
        self.hook('listindex', st, obj=None, index=i, node=node,
                  proven=okneg)
        if n <= 24:
            for k in range(n):
                s = st.copy()
                d = isub(i, C(k))
                if s.assume_ge0(d) and s.assume_ge0(imulc(d, -1)):
                    out.append((s, self.nv(s, items[k])))
            if not ok:
                for k in range(1, n + 1):
                    s = st.copy()
                    d = iadd(i, C(k))
                    if s.assume_ge0(d) and s.assume_ge0(imulc(d, -1)):
                        out.append((s, self.nv(s, items[-k])))
        else:
            out.append((st.copy(), mkunion(items)))
        if not okneg:
            hi = st.copy()
            if hi.assume_ge0(isub(i, C(n))):
                out.append((hi, Exc('IndexError', node, '',
                                    self.where(st, node))))
            lo = st.copy()
            if lo.assume_ge0(iadd(imulc(i, -1), C(-n - 1))):
                out.append((lo, Exc('IndexError', node, '',
                                    self.where(st, node))))
        return out

    def dict_lookup(self, st, v, o, k, node):
        """[(st, value or None when the key is absent)]"""
        items = o.items or {}
        if isinstance(k, C):
            try:
                if k.v in items:
                    return [(st, self.nv(st, items[k.v]))]
            except TypeError:
                pass
            if o.rest is None or k.v in o.fields.get('absent', ()):
                return [(st, None)]
            out = []
            for s, r in self.fork(st, ('has', v, k)):
                out.append((s, self.nv(s, o.rest) if r else None))
            return out
        for x in (k,):
            if isinstance(x, U) or (isinstance(x, Sy) and
                                    x.td.nkinds() > 1):
                out = []
                for s, w in self.split(st, x):
                    out.extend(self.dict_lookup(s, v, o, w, node))
                return out
        if isinstance(k, S) and len(k.p) == 1 and \
           not isinstance(k.p[0], str):
            p = self.rp(st, k.p[0])
            skeys = [x for x in items if isinstance(x, str)]
            if not isinstance(p, str) and not p.imgs and \
               len(skeys) <= 300:
                out = []
                cur = st
                for x in skeys:
                    if p.consts is not None and x not in p.consts:
                        continue
                    nxt = None
                    for s, r in self.str_eq(cur, C(x), k):
                        if r:
                            out.append((s, self.nv(s, items[x])))
                        else:
                            nxt = s
                    cur = nxt
                    if cur is None:
                        break
                if cur is not None:
                    if o.rest is not None:
                        for s, r in self.fork(cur, ('has', v, k)):
                            out.append((s, self.nv(s, o.rest)
                                        if r else None))
                    else:
                        out.append((cur, None))
                return out
        vs = list(items.values())
        if o.rest is not None:
            vs.append(o.rest)
        if not vs:
            return [(st, None)]
        out = []
        kk = k if not isinstance(k, T) else ('T', nid(node))
        for s, r in self.fork(st, ('has', v, kk)):
            if r:
                out.append((s, self.nv(s, mkunion(vs))))
            else:
                out.append((s, None))
        return out

    def sydict_lookup(self, st, v, k, node):
        """lookup in a symbolic dict of a known allocation site"""
        t = next(iter(v.td.objs))
        ent = self.type_entry(t)
        if isinstance(k, C):
            a = '[%s]' % (k.v,)
            if (v.k, a) in st.sy:
                return [(st, self.nv(st, st.sy[(v.k, a)]))]
            if a in ent:
                val = self.getfield(st, v, a)
                if self.always_key(t, a):
                    return [(st, val)]
                out = []
                for s, r in self.fork(st, ('has', v.k, a,
                                           st.epoch.get(a))):
                    out.append((s, self.nv(s, val) if r else None))
                return out
            if '[*]' in ent:
                out = []
                for s, r in self.fork(st, ('has', v.k, a,
                                           st.epoch.get('[*]'))):
                    out.append((s, self.of_td(
                        s, v.k + (a, st.epoch.get('[*]')), ent['[*]'])
                        if r else None))
                return out
            return [(st, None)]
        td = None
        for a, x in ent.items():
            if a.startswith('['):
                td = x if td is None else td.join(x)
        if td is None:
            return [(st, None)]
        kk = k if not isinstance(k, T) else ('T', nid(node))
        out = []
        if k is not None and isinstance(k, S) and '[*]' not in ent:
            # finite key set: follow each
            cur = [st]
            for a, x in sorted(ent.items()):
                if not a.startswith('['):
                    continue
                nxt = []
                for s in cur:
                    for s2, r in self.equal(s, C(a[1:-1]), k, False, node):
                        if r:
                            out.extend(self.sydict_lookup(
                                s2, v, C(a[1:-1]), node))
                        else:
                            nxt.append(s2)
                cur = nxt
            out.extend((s, None) for s in cur)
            return out
        for s, r in self.fork(st, ('has', v.k, kk, st.epoch.get('[*]'))):
            out.append((s, self.of_td(s, v.k + ('[', kk, ']',
                                                st.epoch.get('[*]')), td)
                        if r else None))
        return out

    def always_key(self, t, a):
        return a in getattr(self, 'dict_always', {}).get(t, ())

    def setitem(self, st, v, i, val, node):
        v, i = self.nv(st, v), self.nv(st, i)
        if isinstance(v, U) or (isinstance(v, Sy) and v.td.nkinds() > 1):
            return self.bind(self.split(st, v),
                             lambda s, w: self.setitem(s, w, i, val, node))
        if isinstance(v, C):
            return [(st, Exc('TypeError', node, 'item assignment',
                             self.where(st, node)))]
        self.hook('setitem', st, obj=v, key=i, value=val, node=node)
        if isinstance(v, R):
            o = st.obj(v.oid)
            if o is not None and o.kind == 'dict':
                items = dict(o.items or {})
                rest = o.rest
                if isinstance(i, C):
                    items[i.v] = val
                    self.learn(self.dict_type(v.oid), '[%s]' % (i.v,),
                               self.td_of(st, val))
                else:
                    rest = val if rest is None else mkunion([rest, val])
                    if isinstance(rest, T):
                        rest = Sy(('dictrest', v.oid), ANYTD)
                    self.learn(self.dict_type(v.oid), '[*]',
                               self.td_of(st, val))
                    # the key may equal a known one
                    for k, old in list(items.items()):
                        if self.may_equal(st, C(k), i):
                            items[k] = mkunion([old, val])
                st.put(v.oid, o.but(items=items, rest=rest))
            elif o is not None and o.kind == 'list':
                if isinstance(i, C) and o.items is not None and \
                   isinstance(i.v, int) and o.rest is None:
                    if not -len(o.items) <= i.v < len(o.items):
                        return [(st, Exc('IndexError', node, '',
                                         self.where(st, node)))]
                    it = list(o.items)
                    it[i.v] = val
                    st.put(v.oid, o.but(items=tuple(it)))
                else:
                    rest = val if o.rest is None else mkunion(
                        [o.rest, val])
                    st.put(v.oid, o.but(
                        items=(), rest=mkunion(list(o.items or ()) +
                                               [rest])))
            return [(st, None)]
        if isinstance(v, Sy):
            if isinstance(i, C):
                a = '[%s]' % (i.v,)
                if v.td.objs and next(iter(v.td.objs)).startswith('dict:'):
                    self.setfield(st, v, a, val, node)
                else:
                    st.sy[(v.k, a)] = val
            else:
                t = next(iter(v.td.objs)) if v.td.objs else None
                if t:
                    self.learn(t, '[*]', self.td_of(st, val))
                for (k, a) in list(st.sy):
                    if a.startswith('['):
                        del st.sy[(k, a)]
                n = st.visits.get('w', 0)
                st.visits['w'] = n + 1
                st.epoch['[*]'] = ('w', n)
            return [(st, None)]
        return [(st, None)]

    def may_equal(self, st, a, b):
        for s, r in self.equal(st.copy(), a, b, False, None):
            if r is not False:
                return True
        return False

    # ------------------------------------------------------ string pieces
    def sub_piece(self, st, base, start, end, labels, cs, lo=None, hi=None):
        """canonical piece base[start:end]"""
        d = isub(end, start)
        if isinstance(d, C):
            lo = hi = d.v
            if d.v == 1:
                uid = ('at', base, start)
            else:
                uid = ('sub', base, start, end)
        else:
            uid = ('sub', base, start, end)
            if lo is None:
                lo = 0
            if lo < 1 and st.prove_ge0(iadd(d, C(-1))):
                lo = 1
        return P(uid, labels=labels, cs=cs, lo=lo or 0, hi=hi,
                 span=(base, start, end))

    def base_span(self, st, p):
        """(base uid, start, end) of a raw piece"""
        if p.span is not None:
            return p.span
        return (p.uid, C(0), self.piece_len(st, p))

    def char_at(self, st, p, off):
        """one-character piece p[off] (raw p)"""
        b, s, e = self.base_span(st, p)
        q = self.sub_piece(st, b, iadd(s, off), iadd(iadd(s, off), C(1)),
                           p.labels, p.cs)
        return self.rp(st, q)

    def str_index(self, st, v, i, node):
        if not isintv(i):
            if isinstance(i, T):
                return [(st, S([P(('idx?', nid(node)), lo=1, hi=1)]))]
            return [(st, Exc('TypeError', node, 'string index',
                             self.where(st, node)))]
        if strconst(v):
            if isinstance(i, C):
                if -len(v.v) <= i.v < len(v.v):
                    return [(st, C(v.v[i.v]))]
                self.hook('strindex', st, value=v, index=i, node=node,
                          proven=False, definite=True)
                return [(st, Exc('IndexError', node, '',
                                 self.where(st, node)))]
            return self.index_items(st, [C(c) for c in v.v], i, node)
        ln = self.strlen(st, v)
        # literal prefix / suffix with a constant index
        if isinstance(i, C):
            if i.v >= 0:
                n = i.v
                for x in v.p:
                    if isinstance(x, str):
                        if n < len(x):
                            return [(st, C(x[n]))]
                        n -= len(x)
                    elif x.lo == x.hi and x.lo is not None and not x.imgs:
                        if n < x.lo:
                            c = self.char_at(st, x, C(n))
                            return [(st, mkstr([c]))]
                        n -= x.lo
                    else:
                        break
            else:
                n = -i.v
                for x in reversed(v.p):
                    if isinstance(x, str):
                        if n <= len(x):
                            return [(st, C(x[-n]))]
                        n -= len(x)
                    else:
                        break
        out = []
        neg = isinstance(i, C) and i.v < 0
        pos = iadd(i, ln) if neg else i
        if neg:
            ok = st.prove_ge0(pos)
        else:
            ok = st.prove_ge0(i) and st.prove_lt(i, ln)
            if not ok and not st.prove_ge0(i):
                # the index may be negative
                s2 = st.copy()
                if s2.assume_ge0(iadd(imulc(i, -1), C(-1))):
                    p2 = iadd(i, ln)
                    if s2.prove_ge0(p2):
                        out.append((s2, self.str_at(s2, v, p2)))
                    else:
                        g = s2.copy()
                        if g.assume_ge0(p2):
                            out.append((g, self.str_at(g, v, p2)))
                        if s2.assume_ge0(iadd(imulc(p2, -1), C(-1))):
                            out.append((s2, Exc('IndexError', node,
                                                'negative',
                                                self.where(st, node))))
                st = st.copy()
                if not st.assume_ge0(i):
                    self.hook('strindex', st, value=v, index=i, node=node,
                              proven=False)
                    return out
                ok = st.prove_lt(i, ln)
        self.hook('strindex', st, value=v, index=i, node=node, proven=ok)
        if ok:
            out.append((st, self.str_at(st, v, pos)))
            return out
        t, f = st.copy(), st.copy()
        if neg:
            good = t.assume_ge0(pos)
            bad = f.assume_ge0(iadd(imulc(pos, -1), C(-1)))
        else:
            good = t.assume_ge0(iadd(isub(ln, i), C(-1)))
            bad = f.assume_ge0(isub(i, ln))
        if good:
            if len(v.p) == 1 and not isinstance(v.p[0], str):
                self.narrow(t, v.p[0], lo=1)
            out.append((t, self.str_at(t, v, pos)))
        if bad:
            if neg and i.v == -1 and len(v.p) == 1 and \
               not isinstance(v.p[0], str) and not v.p[0].imgs:
                if not self.narrow(f, v.p[0], hi=0):
                    return out
            out.append((f, Exc('IndexError', node, '',
                               self.where(f, node))))
        return out

    def str_at(self, st, v, pos):
        if len(v.p) == 1 and not v.p[0].imgs:
            p = self.rp(st, v.p[0])
            if isinstance(p, str):
                p = v.p[0]
            if not p.ops or True:
                return mkstr([self.char_at(st, p, pos)])
        cs, labels, ops = EMPTY, set(), set()
        for x in v.p:
            if isinstance(x, str):
                cs = cs | CharSet.of(x)
            else:
                cs = cs | self.outcs(self.rp(st, x) if isinstance(
                    self.rp(st, x), P) else x)
                labels |= x.labels
                ops |= x.ops
        return S([P(('atS', v, pos), labels=labels, cs=cs, lo=1, hi=1,
                    ops=ops)])

    def getslice(self, st, v, lo, up, step, node):
        v = self.nv(st, v)
        lo, up, step = self.nv(st, lo), self.nv(st, up), self.nv(st, step)
        for i, x in enumerate((v, lo, up)):
            if isinstance(x, U) or (isinstance(x, Sy) and
                                    x.td.nkinds() > 1):
                def again(s, w, i=i):
                    a = [v, lo, up]
                    a[i] = w
                    return self.getslice(s, a[0], a[1], a[2], step, node)
                return self.bind(self.split(st, x), again)
        if isinstance(v, C) and v.v is None:
            return [(st, Exc('TypeError', node, 'None is not subscriptable',
                             self.where(st, node)))]
        if const(v) and const(lo) and const(up) and const(step):
            try:
                return [(st, C(v.v[lo.v:up.v:step.v]))]
            except TypeError:
                return [(st, Exc('TypeError', node, 'slice',
                                 self.where(st, node)))]
        if isstr(v):
            if not (isinstance(step, C) and step.v in (None, 1)):
                return [(st, self.derived(st, v, ('slice', lo, up, step),
                                          'slice'))]
            return self.str_slice(st, v, lo, up, node)
        if isinstance(v, Tup):
            if const(lo) and const(up) and const(step):
                return [(st, Tup(v.items[lo.v:up.v:step.v]))]
        if isinstance(v, R):
            o = st.obj(v.oid)
            if o is not None and o.kind == 'list':
                if o.rest is None and const(lo) and const(up) and \
                   const(step):
                    items = o.items[lo.v:up.v:step.v]
                    return [(st, st.alloc(
                        ('slice', self.site(st, node)),
                        Obj('list', items=tuple(items))))]
                vs = list(o.items or ()) + (
                    [o.rest] if o.rest is not None else [])
                return [(st, st.alloc(
                    ('slice', self.site(st, node)),
                    Obj('list', items=(),
                        rest=mkunion(vs) if vs else None)))]
        if isinstance(v, Sy) and v.td.lst is not None:
            return [(st, Sy(v.k + ('[', lo, ':', up, ']'), v.td))]
        return [(st, TOP)]

    def derived(self, st, v, uid, op, cs=None, lo=0, hi=None, drop=None):
        """opaque text computed from v"""
        c, labels, ops = EMPTY, set(), set([op] if op else [])
        for x in parts(v):
            if isinstance(x, str):
                c = c | CharSet.of(x)
            else:
                y = self.rp(st, x)
                if isinstance(y, str):
                    c = c | CharSet.of(y)
                    labels |= x.labels
                    continue
                c = c | self.outcs(y)
                labels |= y.labels
                ops |= y.ops
        if cs is not None:
            c = cs(c) if callable(cs) else cs
        if not c:
            return EMPTYSTR
        return S([P((uid, v), labels=labels, cs=c, lo=lo, hi=hi, ops=ops)])

    def str_slice(self, st, v, lo, up, node):
        ln = self.strlen(st, v)
        a = C(0) if isinstance(lo, C) and lo.v is None else lo
        if not isintv(a) or not (isintv(up) or
                                 (isinstance(up, C) and up.v is None)):
            return [(st, self.derived(
                st, v, ('slice', 'T', nid(node)), 'slice'))]

        def lower(s, a):
            """[(s, start)] with 0 <= start <= len"""
            if isinstance(a, C) and a.v < 0:
                p = iadd(ln, a)
                if s.prove_ge0(p):
                    return [(s, p)]
                t, f = s.copy(), s.copy()
                out = []
                if t.assume_ge0(p):
                    out.append((t, p))
                if f.assume_ge0(iadd(imulc(p, -1), C(-1))):
                    out.append((f, C(0)))
                return out
            if s.prove_ge0(a):
                if s.prove_le(a, ln):
                    return [(s, a)]
                t, f = s.copy(), s.copy()
                out = []
                if t.assume_ge0(isub(ln, a)):
                    out.append((t, a))
                if f.assume_ge0(iadd(isub(a, ln), C(-1))):
                    out.append((f, ln))
                return out
            return None
        ra = lower(st, a)
        if ra is None:
            # sign unknown: try the case split
            t, f = st.copy(), st.copy()
            ra = []
            if t.assume_ge0(a):
                ra.extend(lower(t, a) or [])
            if f.assume_ge0(iadd(imulc(a, -1), C(-1))):
                p = iadd(ln, a)
                g = f.copy()
                if g.assume_ge0(p):
                    ra.append((g, p))
                if f.assume_ge0(iadd(imulc(p, -1), C(-1))):
                    ra.append((f, C(0)))
        out = []
        for s, start in ra:
            if isinstance(up, C) and up.v is None:
                out.append((s, self.str_span(s, v, start, ln, ln)))
                continue
            rb = lower(s, up)
            if rb is None:
                t, f = s.copy(), s.copy()
                rb = []
                if t.assume_ge0(up):
                    rb.extend(lower(t, up) or [])
                if f.assume_ge0(iadd(imulc(up, -1), C(-1))):
                    p = iadd(ln, up)
                    g = f.copy()
                    if g.assume_ge0(p):
                        rb.append((g, p))
                    if f.assume_ge0(iadd(imulc(p, -1), C(-1))):
                        rb.append((f, C(0)))
            for s2, end in rb:
                if s2.prove_le(start, end):
                    out.append((s2, self.str_span(s2, v, start, end, ln)))
                    continue
                t, f = s2.copy(), s2.copy()
                if t.assume_ge0(isub(end, start)):
                    out.append((t, self.str_span(t, v, start, end, ln)))
                if f.assume_ge0(iadd(isub(start, end), C(-1))):
                    out.append((f, EMPTYSTR))
        return out

    def cut_pieces(self, st, ps, start, end):
        """ps[start:end] when both fall on borders of characters known to
        stand at fixed places from the beginning"""
        if not (isinstance(start, C) and isinstance(end, C)):
            return None
        pos, out = 0, []
        for p in ps:
            if pos == end.v:
                return self.mkstr(st, out)
            if isinstance(p, str):
                out.append(p[max(start.v - pos, 0):end.v - pos])
                pos += min(len(p), end.v - pos)
                continue
            if p.lo is None or p.hi is None or p.lo != p.hi or \
               p.imgs or pos + p.lo > end.v:
                return None
            if pos >= start.v:
                out.append(p)
            elif pos + p.lo > start.v:
                return None
            pos += p.lo
        return self.mkstr(st, out) if pos == end.v else None

    def str_span(self, st, v, start, end, ln):
        """v[start:end], 0 <= start <= end <= len known"""
        if st.prove_eq(start, end):
            return EMPTYSTR
        if st.prove_eq(start, C(0)) and st.prove_eq(end, ln):
            return v
        ps = list(parts(v))
        if len(ps) == 1 and isinstance(ps[0], P) and not ps[0].imgs:
            p = self.rp(st, ps[0])
            if isinstance(p, str):
                p = ps[0]
            b, s0, e0 = self.base_span(st, p)
            q = self.sub_piece(st, b, iadd(s0, start), iadd(s0, end),
                               p.labels, p.cs)
            if p.ops:
                q = q.but(ops=p.ops)
            return mkstr([self.rp(st, q)])
        if len(ps) > 1:
            w = self.cut_pieces(st, ps, start, end)
            if w is not None:
                return w
        # inside literal text at the end
        a, b = isub(ln, start), isub(ln, end)
        if isinstance(a, C) and isinstance(b, C):
            tail, i = '', len(ps)
            while i and isinstance(ps[i - 1], str):
                i -= 1
                tail = ps[i] + tail
            if len(tail) >= a.v:
                return C(tail[len(tail) - a.v:len(tail) - b.v])
        # cut literal text off both ends
        pre = 0
        while ps and isinstance(ps[0], str):
            k = len(ps[0])
            if st.prove_le(C(pre + k), start):
                pre += k
                ps.pop(0)
                continue
            if isinstance(start, C) and start.v >= pre:
                ps[0] = ps[0][start.v - pre:]
                pre = start.v
            break
        suf = 0
        while ps and isinstance(ps[-1], str):
            k = len(ps[-1])
            d = isub(ln, end)
            if isinstance(d, C):
                if d.v >= suf + k:
                    suf += k
                    ps.pop()
                    continue
                if d.v > suf:
                    ps[-1] = ps[-1][:k - (d.v - suf)]
                    suf = d.v
            break
        if not ps:
            return EMPTYSTR
        if st.prove_eq(start, C(pre)) and st.prove_eq(
                end, isub(ln, C(suf))):
            return self.mkstr(st, ps)
        # remaining cut inside a single raw piece
        if len(ps) == 1 and not isinstance(ps[0], str) and \
           not ps[0].imgs:
            p = ps[0]
            b, s0, e0 = self.base_span(st, p)
            q = self.sub_piece(st, b, iadd(s0, isub(start, C(pre))),
                               iadd(s0, isub(end, C(pre))), p.labels, p.cs)
            if p.ops:
                q = q.but(ops=p.ops)
            return mkstr([self.rp(st, q)])
        r = self.derived(st, v, ('slice', start, end), 'slice')
        if isinstance(r, S) and st.prove_le(end, ln) and \
           st.prove_ge0(start):
            d = isub(symint(('len', r.p[0].uid)), isub(end, start))
            st.assume_ge0(d)
            st.assume_ge0(imulc(d, -1))
        return r

    # ------------------------------------------------------------ regexes
    def text_lang(self, st, v):
        """regular over-approximation of the possible values of text v"""
        r = RXM.EPS
        ps = parts(v)
        out = []
        for x in ps:
            if not isinstance(x, str):
                x = self.rp(st, x)
            if isinstance(x, str):
                out.append(RXM.lit(x))
                continue
            if x.imgs:
                raw = x.cs
                for c, _ in x.imgs:
                    raw = raw - CharSet.of(c)
                alts = [RXM.chrs(raw)] + [RXM.lit(i) for c, i in x.imgs
                                          if c in x.cs]
                u = RXM.alt(*alts)
                k = RXM.star(u)
                if x.lo and not any(i == '' for _, i in x.imgs):
                    k = RXM.cat(u, k)
                out.append(k)
                continue
            if x.consts is not None:
                out.append(RXM.alt(*[RXM.lit(c) for c in
                                     sorted(x.consts)]))
                continue
            c = RXM.chrs(x.cs)
            pat = self.spanlang.get(x.uid)
            if x.span is not None and not x.ops:
                # first character(s) may be narrower
                lo = x.lo
                seq = []
                n = 0
                while n < 2 and n < max(lo, 1):
                    uid = ('at', x.span[0], iadd(x.span[1], C(n)))
                    nn = st.nar.get(uid)
                    if nn is None:
                        break
                    cc = nn.cs & x.cs
                    if nn.allow is not None:
                        cc = cc & CharSet.of(''.join(nn.allow))
                    seq.append(cc)
                    n += 1
                if seq:
                    t = RXM.rep(c, max(0, lo - len(seq)),
                                None if x.hi is None
                                else max(0, x.hi - len(seq)))
                    for cc in reversed(seq):
                        t = RXM.cat(RXM.chrs(cc), t)
                    if lo < len(seq) and not st.prove_ge0(
                            iadd(isub(x.span[2], x.span[1]),
                                 C(-len(seq)))):
                        t = RXM.alt(RXM.EPS, t)
                    out.append(t)
                else:
                    out.append(RXM.rep(c, min(lo, 4),
                                       x.hi if x.hi is not None and
                                       x.hi <= 8 else None))
            else:
                seq = []
                n = 0
                while n < 2:
                    uid = ('at', x.uid, C(n))
                    nn = st.nar.get(uid)
                    if nn is None:
                        break
                    cc = nn.cs & x.cs
                    if nn.allow is not None:
                        cc = cc & CharSet.of(''.join(nn.allow))
                    seq.append(cc)
                    n += 1
                t = RXM.rep(c, max(0, min(x.lo, 4) - len(seq)),
                            x.hi - len(seq) if x.hi is not None and
                            x.hi <= 8 and x.hi >= len(seq) else None)
                for cc in reversed(seq):
                    t = RXM.cat(RXM.chrs(cc), t)
                if seq and x.lo < len(seq):
                    ln = self.piece_len(st, x)
                    if not st.prove_ge0(iadd(ln, C(-len(seq)))):
                        t = RXM.alt(RXM.EPS, t)
                if pat is not None:
                    t = RXM.conj(t, pat)
                out.append(t)
                continue
            if pat is not None:
                out[-1] = RXM.conj(out[-1], pat)
        for x in reversed(out):
            r = RXM.cat(x, r)
        return r

    _feas = {}

    def rx_decide(self, lang, rx, mode):
        """True: always matches, False: never, None: unknown"""
        key = (lang.id, rx.pattern, rx.flags, mode)
        r = self._feas.get(key, 0)
        if r == 0:
            try:
                p = RXM.Pattern(rx.pattern, rx.flags)
                m = p.lang(mode)
                if RXM.empty(RXM.conj(lang, m)):
                    r = False
                elif RXM.subset(lang, m):
                    r = True
                else:
                    r = None
            except RXM.Unsupported:
                r = None
            self._feas[key] = r
        return r

    def rx_first(self, rx, mode):
        """(chars any match can start with | None, chars after which a
        match is certain)"""
        key = (rx.pattern, rx.flags, mode, 'first')
        r = self._feas.get(key)
        if r is None:
            try:
                p = RXM.Pattern(rx.pattern, rx.flags)
                m = p.lang(mode)
                can, must = EMPTY, EMPTY
                for cls in RXM.classes(m):
                    d = RXM.deriv(m, cls.sample())
                    if not RXM.empty(d):
                        can = can | cls
                        if RXM.subset(RXM.SIGMA, d):
                            must = must | cls
                r = (can, must, m.null)
            except RXM.Unsupported:
                r = (ALL, EMPTY, True)
            self._feas[key] = r
        return r

    def regex(self, st, rx, v, mode, node, quiet=False):
        """[(st, MT | NONE)]"""
        v = self.nv(st, v)
        if isinstance(v, U) or (isinstance(v, Sy) and v.td.nkinds() > 1):
            return self.bind(self.split(st, v),
                             lambda s, w: self.regex(s, rx, w, mode, node,
                                                     quiet))
        if isinstance(v, C) and not isinstance(v.v, str):
            return [(st, Exc('TypeError', node, 'regex subject %r' % (v.v,),
                             self.where(st, node)))]
        if not isstr(v):
            if isinstance(v, T):
                v = S([P(('T', nid(node)), ops=['opaque'])])
            else:
                v = S([P(('as-str', v), ops=['opaque'])])
        if not quiet:
            self.hook('regex', st, rx=rx, subject=v, mode=mode, node=node)
            self.regexes.setdefault((rx.pattern, rx.flags), set()).add(
                self.where(st, node)[0])
        if strconst(v):
            m = getattr(_re.compile(rx.pattern, rx.flags), mode)(v.v)
            if m is None:
                return [(st, NONE)]
            return [(st, MT(rx, v, mode, ('cmt', rx, v, mode),
                            C(m.start()), C(m.end())))]
        key = ('rx', rx, mode, v)
        known = st.facts.get(key)
        pat = RXM.Pattern(rx.pattern, rx.flags)
        if known is None:
            d = self.rx_decide(self.text_lang(st, v), rx, mode)
            known = d
        out = []
        if known is not False:
            t = st.copy() if known is None else st
            ok = True
            if known is not True or key not in t.facts:
                t.facts[key] = True
                t.order = t.order + (key,)
                ok = self.rx_narrow(t, rx, pat, v, mode, True)
            if ok:
                out.append((t, self.mk_match(t, rx, pat, v, mode)))
        if known is not True:
            f = st.copy() if known is None else st
            ok = True
            if key not in f.facts:
                f.facts[key] = False
                f.order = f.order + (key,)
                ok = self.rx_narrow(f, rx, pat, v, mode, False)
            if ok:
                out.append((f, NONE))
        return out

    def first_piece(self, st, v):
        """piece for v[0] when v surely starts with a raw piece"""
        p = parts(v)[0]
        if isinstance(p, str) or p.imgs:
            return None
        p = self.rp(st, p)
        if isinstance(p, str):
            return None
        return p

    def rx_narrow(self, st, rx, pat, v, mode, matched):
        single = pat.single_class() if mode == 'search' else None
        if single is not None and single[0] is not None:
            k = single[0]
            if not matched:
                for x in parts(v):
                    if not isinstance(x, str):
                        if not x.imgs:
                            if not self.narrow(st, x, cs=~k):
                                return False
                return True
        can, must, null = self.rx_first(rx, mode)
        p = self.first_piece(st, v)
        if p is None:
            return True
        if matched:
            if not null:
                if len(parts(v)) == 1 and not self.narrow(st, p, lo=1):
                    return False
                if p.lo >= 1 or len(parts(v)) == 1:
                    q = self.char_at(st, p, C(0))
                    if isinstance(q, P):
                        if not self.narrow(st, q, cs=can):
                            return False
                    elif q and q[0] not in can:
                        return False
        else:
            if null and len(parts(v)) == 1:
                # the empty text would have matched
                if not self.narrow(st, p, lo=1):
                    return False
            if must and (p.lo >= 1 or (null and len(parts(v)) == 1)):
                q = self.char_at(st, p, C(0))
                if isinstance(q, P):
                    if not self.narrow(st, q, cs=~must):
                        return False
                elif q and q[0] in must:
                    return False
            elif must and len(parts(v)) == 1:
                # possibly empty: remember on the character anyway, it only
                # constrains it when it exists
                b, s, e = self.base_span(st, p)
                uid = ('at', b, s)
                n = st.nar.get(uid)
                if n is None:
                    st.nar[uid] = Nar(~must, 0, None, None, frozenset())
                else:
                    st.nar[uid] = Nar(n.cs & ~must, n.lo, n.hi, n.allow,
                                      n.deny)
        if single is not None and matched and p.lo == 1 and p.hi == 1 and \
           len(parts(v)) == 1:
            if not self.narrow(st, p, cs=single[0]):
                return False
        return True

    def mk_match(self, st, rx, pat, v, mode):
        ln = self.strlen(st, v)
        uid = ('m', rx, mode, v)
        at0 = mode in ('match', 'fullmatch') or pat.anchored()
        if not at0 and mode == 'search':
            # certain to match at the start?
            try:
                lang = self.text_lang(st, v)
                if self.rx_decide(lang, rx, 'match') is True:
                    at0 = True
            except RXM.Unsupported:
                pass
        if at0:
            start = C(0)
        else:
            start = symint(('nat', 'ms', uid))
        mn, mx = pat.min_width(), pat.max_width()
        if mode == 'fullmatch':
            end = ln
        elif mx is not None and mn == mx:
            end = iadd(start, C(mn))
        else:
            end = symint(('nat', 'me', uid))
            st.assume_ge0(isub(isub(end, start), C(mn)))
            if mx is not None:
                st.assume_ge0(isub(iadd(start, C(mx)), end))
        st.assume_ge0(isub(ln, end))
        return MT(rx, v, mode, uid, start, end)

    def mt_native(self, m):
        if m.uid[0] == 'cmt':
            return getattr(_re.compile(m.rx.pattern, m.rx.flags),
                           m.mode)(m.subj.v)
        return None

    def mt_group(self, st, m, i, node):
        nat = self.mt_native(m)
        if nat is not None:
            if isinstance(i, C):
                try:
                    return [(st, C(nat.group(i.v)))]
                except (IndexError, error_type()):
                    return [(st, Exc('IndexError', node, 'no such group',
                                     self.where(st, node)))]
            return [(st, TOP)]
        pat = RXM.Pattern(m.rx.pattern, m.rx.flags)
        if not isinstance(i, C):
            return [(st, TOP)]
        g = i.v
        if isinstance(g, str):
            try:
                g = pat.tree.state.groupdict[g]
            except KeyError:
                return [(st, Exc('IndexError', node, 'no such group',
                                 self.where(st, node)))]
        if g == 0:
            v = m.subj
            ps = parts(v)
            w = self.str_span(st, v, m.start, m.end, self.strlen(st, v))
            mn, mx = pat.min_width(), pat.max_width()
            if isinstance(w, S):
                cs = pat.charset()
                out = []
                for x in w.p:
                    if isinstance(x, P) and not x.imgs:
                        if len(w.p) == 1:
                            if not self.narrow(st, x, cs=cs, lo=mn, hi=mx):
                                return []
                            x = x.but(cs=x.cs & cs, lo=max(x.lo, mn),
                                      hi=mx if x.hi is None else (
                                          x.hi if mx is None
                                          else min(x.hi, mx)))
                            try:
                                self.spanlang.setdefault(x.uid,
                                                         pat.lang_span())
                            except RXM.Unsupported:
                                pass
                        else:
                            x = x.but(cs=x.cs & cs)
                    out.append(x)
                w = self.nv(st, S(out))
            return [(st, w)]
        if g > pat.ngroups():
            return [(st, Exc('IndexError', node, 'no such group',
                             self.where(st, node)))]
        tree, flags, optional = self.group_info(pat, g)
        labels = set()
        ops = set()
        for x in parts(m.subj):
            if isinstance(x, P):
                labels |= x.labels
                ops |= x.ops
        cs = RXM.tree_charset(tree, flags) if tree is not None else ALL
        scs = EMPTY
        for x in parts(m.subj):
            scs = scs | (CharSet.of(x) if isinstance(x, str)
                         else self.outcs(x))
        w0, w1 = tree.getwidth() if tree is not None else (0, None)
        if w1 is not None and w1 > 1000000:
            w1 = None
        td = S([P(('grp', g, m.uid), labels=labels, cs=cs & scs, lo=w0,
                  hi=w1, ops=ops)])
        uid = ('grp', g, m.uid)
        if not optional:
            return [(st, self.nv(st, td))]
        out = []
        for s, r in self.fork(st, ('grpset', g, m.uid)):
            out.append((s, self.nv(s, td) if r else NONE))
        return out

    def group_info(self, pat, g):
        """(subtree, flags, may be unset)"""
        def find(tree, opt):
            for op, av in tree:
                name = str(op)
                if name == 'SUBPATTERN':
                    gid, _, _, sub = av
                    if gid == g:
                        return sub, opt
                    r = find(sub, opt)
                    if r:
                        return r
                elif name in ('MAX_REPEAT', 'MIN_REPEAT',
                              'POSSESSIVE_REPEAT'):
                    r = find(av[2], opt or av[0] == 0)
                    if r:
                        return r
                elif name == 'BRANCH':
                    for b in av[1]:
                        r = find(b, True)
                        if r:
                            return r
                elif name in ('ASSERT', 'ASSERT_NOT'):
                    r = find(av[1], True)
                    if r:
                        return r
                elif name == 'ATOMIC_GROUP':
                    r = find(av, opt)
                    if r:
                        return r
            return None
        r = find(pat.tree, False)
        if r is None:
            return None, pat.flags, True
        return r[0], pat.flags, r[1]

    def mt_method(self, st, m, name, args, node):
        nat = self.mt_native(m)
        g = args[0] if args else C(0)
        if name == 'group' or name == '__getitem__':
            if len(args) > 1:
                res = [(st, [])]
                for a in args:
                    res = self.bind(res, lambda s, vs: self.bind(
                        self.mt_group(s, m, a, node),
                        lambda s2, v: [(s2, vs + [v])]))
                return self.bind(res, lambda s, vs: [(s, Tup(vs))])
            return self.mt_group(st, m, g, node)
        if nat is not None:
            try:
                if name in ('start', 'end'):
                    return [(st, C(getattr(nat, name)(
                        *[a.v for a in args])))]
                if name == 'span':
                    a, b = nat.span(*[x.v for x in args])
                    return [(st, Tup([C(a), C(b)]))]
                if name == 'groups':
                    return [(st, Tup([C(x) for x in nat.groups()]))]
            except Exception:
                return [(st, TOP)]
        if not args or g == C(0):
            if name == 'start':
                return [(st, m.start)]
            if name == 'end':
                return [(st, m.end)]
            if name == 'span':
                return [(st, Tup([m.start, m.end]))]
        if name == 'groups':
            pat = RXM.Pattern(m.rx.pattern, m.rx.flags)
            res = [(st, [])]
            for i in range(1, pat.ngroups() + 1):
                res = self.bind(res, lambda s, vs: self.bind(
                    self.mt_group(s, m, C(i), node),
                    lambda s2, v: [(s2, vs + [v])]))
            return self.bind(res, lambda s, vs: [(s, Tup(vs))])
        if name in ('start', 'end'):
            n = symint(('nat', 'g' + name, g, m.uid))
            # inside the match when the group took part
            pat = RXM.Pattern(m.rx.pattern, m.rx.flags)
            gi = g.v if isinstance(g, C) and isinstance(g.v, int) else None
            if gi is not None and gi <= pat.ngroups() and \
               not self.group_info(pat, gi)[2]:
                st.assume_ge0(isub(n, m.start))
                st.assume_ge0(isub(m.end, n))
                return [(st, n)]
            return [(st, symint(('g' + name, g, m.uid)))]
        return [(st, TOP)]

    def re_sub(self, st, rx, repl, v, count, node):
        v = self.nv(st, v)
        if isinstance(v, U) or (isinstance(v, Sy) and v.td.nkinds() > 1):
            return self.bind(self.split(st, v),
                             lambda s, w: self.re_sub(s, rx, repl, w, count,
                                                      node))
        if isinstance(v, C) and not isinstance(v.v, str):
            return [(st, Exc('TypeError', node, 'regex subject',
                             self.where(st, node)))]
        if not isstr(v):
            v = S([P(('as-str', v if not isinstance(v, T) else nid(node)),
                     ops=['opaque'])])
        self.hook('regex', st, rx=rx, subject=v, mode='sub', node=node)
        self.hook('resub', st, rx=rx, repl=repl, subject=v, node=node)
        self.regexes.setdefault((rx.pattern, rx.flags), set()).add(
            self.where(st, node)[0])
        cr = _re.compile(rx.pattern, rx.flags)
        allc = count is None or (isinstance(count, C) and count.v == 0)
        if strconst(v) and strconst(repl) and (
                count is None or isinstance(count, C)):
            try:
                return [(st, C(cr.sub(repl.v, v.v,
                                      count.v if count else 0)))]
            except Exception:
                return [(st, Exc('error', node, 're', self.where(st,
                                                                 node)))]
        pat = RXM.Pattern(rx.pattern, rx.flags)
        single = pat.single_class()
        if strconst(v) and isinstance(repl, (Fn, BM)) and allc:
            res = [(st, [])]
            last = 0
            for mm in cr.finditer(v.v):
                m = MT(rx, C(mm.group()), 'match', (
                    'cmt', rx, C(mm.group()), 'match'), C(0),
                    C(len(mm.group())))
                lit_ = v.v[last:mm.start()]
                last = mm.end()
                res = self.bind(res, lambda s, ps: self.bind(
                    self.call(s, repl, [m], {}, node),
                    lambda s2, w: [(s2, ps + [lit_] + list(
                        parts(self.nv(s2, w)) if parts(self.nv(s2, w))
                        is not None else
                        [self.opaque_piece(s2, w, node)]))]))
            return self.bind(res, lambda s, ps: [
                (s, self.mkstr(s, ps + [v.v[last:]]))])
        # does the pattern ever match?
        if self.rx_decide(self.text_lang(st, v), rx, 'search') is False:
            return [(st, v)]
        if single is not None and single[0] is not None and allc:
            k = single[0]
            runs = single[1]
            cs = EMPTY
            for x in parts(v):
                cs = cs | (CharSet.of(x) if isinstance(x, str)
                           else self.outcs(x))
            hit = k & cs
            if not runs and hit.size() <= 64:
                hom = {}
                exc = []
                ok = True
                for c in hit.chars():
                    if strconst(repl):
                        try:
                            hom[c] = cr.sub(repl.v, c)
                        except Exception:
                            ok = False
                        continue
                    m = MT(rx, C(c), 'match', ('cmt', rx, C(c), 'match'),
                           C(0), C(1))
                    rs = self.call(st.copy(), repl, [m], {}, node)
                    vals = []
                    for s2, w in rs:
                        if isexc(w):
                            exc.append((s2, w))
                        else:
                            vals.append(self.nv(s2, w))
                    if vals and all(strconst(w) and w == vals[0]
                                    for w in vals):
                        hom[c] = vals[0].v
                    else:
                        ok = False
                if ok:
                    ps = [self.hom_piece(st, x, hom) for x in parts(v)]
                    return [(st, self.mkstr(st, ps))] + exc
            if strconst(repl) and '\\' not in repl.v and hit.size() > 64 \
               and not runs:
                op = ('sub', rx.pattern, repl.v)
                return [(st, self.derived(
                    st, v, ('resub', rx, repl), op,
                    cs=lambda c: (c - k) | CharSet.of(repl.v)))]
        # general case
        op = ('sub', rx.pattern, repl.v if strconst(repl) else 'fn')
        exc = []
        extra = EMPTY
        labels = set()
        ops = set()
        if strconst(repl):
            try:
                t = _re.sub(r'\\(\d|g<\w+>)', '', repl.v)
                extra = CharSet.of(t.encode().decode('unicode_escape')
                                   if '\\' in t else t)
            except Exception:
                extra = ALL
        elif isinstance(repl, (Fn, BM, BI, U)):
            t = st.copy()
            key = ('rx', rx, 'search', v)
            uid = ('subm', rx, v)
            ln = self.strlen(t, v)
            a = symint(('nat', 'ss', uid))
            mn, mx = pat.min_width(), pat.max_width()
            b = symint(('nat', 'se', uid)) if mn != mx else \
                iadd(a, C(mn))
            t.assume_ge0(isub(isub(b, a), C(mn)))
            if mx is not None:
                t.assume_ge0(isub(iadd(a, C(mx)), b))
            t.assume_ge0(isub(ln, b))
            m = MT(rx, v, 'search', uid, a, b)
            for s2, w in self.call(t, repl, [m], {}, node):
                if isexc(w):
                    exc.append((s2, w))
                    continue
                td = self.td_of(s2, w)
                if td.str is None:
                    extra = ALL
                else:
                    extra = extra | td.str[0]
                    labels |= td.str[3]
                w = self.nv(s2, w)
                if isinstance(w, S):
                    for x in w.p:
                        if isinstance(x, P):
                            ops |= x.ops
        else:
            extra = ALL
        removed = EMPTY
        if single is not None and single[0] is not None and allc and \
           strconst(repl) and '\\' not in repl.v:
            removed = single[0]
        r = self.derived(st, v, ('resub', rx, repl if not isinstance(
            repl, (Fn, BM)) else 'fn'), op,
            cs=lambda c: (c - removed) | extra)
        if isinstance(r, S):
            p = r.p[0]
            if isinstance(repl, (Fn, BM)) and self.unescapes(pat):
                labels = labels | set(
                    ['esc', 'esc2'] if any(isinstance(x, P) and 'esc' in
                                           x.labels for x in parts(v))
                    else ['esc'])
            r = S([p.but(labels=p.labels | labels, ops=p.ops | ops)])
        return [(st, r)] + exc

    @staticmethod
    def unescapes(pat):
        try:
            return RXM.accepts(pat.lang_full(), '\\!')
        except RXM.Unsupported:
            return False

    # -------------------------------------------------------------- calls
    def call_builtin(self, st, f, args, kw, node):
        name = f.name
        if f.self is not None:
            cls, _, meth = name.partition('.')
            if cls == 'str':
                return self.str_method(st, f.self, meth, args, kw, node)
            if cls == 'dict':
                return self.dict_method(st, f.self, meth, args, kw, node)
            if cls in ('list', 'set'):
                return self.list_method(st, f.self, meth, args, kw, node)
            if cls == 'tuple':
                return self.tuple_method(st, f.self, meth, args, kw, node)
            if cls == 'rx':
                return self.rx_method(st, f.self, meth, args, kw, node)
            if cls == 'mt':
                return self.mt_method(st, f.self, meth, args, node)
            if cls == 'cls' and meth == '__subclasses__':
                subs = [K(c) for c in sorted(self.classes.values(),
                                             key=lambda c: c.index)
                        if any(getattr(b, 'info', None) is f.self.info
                               for b in c.bases)]
                return [(st, st.alloc(('subs', f.self.info.qual),
                                      Obj('list', items=tuple(subs))))]
            if cls == 'object':
                return [(st, NONE if meth == '__init__' else TOP)]
            if cls == 'int':
                return [(st, TOP)]
            if cls == 'bytes':
                if meth == 'decode':
                    return [(st, S([P(('decode', nid(node)),
                                      ops=['opaque'])]))]
                return [(st, TOP)]
            if cls == 'fn' and meth in ('cache_clear', 'cache_info'):
                return [(st, NONE)]
            self.unknown(node, 'call of ' + name)
            return [(st, TOP)]
        if name.startswith('unbound:'):
            cls, _, meth = name[8:].partition('.')
            if cls == 'str' and args:
                if meth == 'join' or meth in PURE_STR:
                    return self.str_method(st, args[0], meth, args[1:], kw,
                                           node)
            if cls == 'str' and meth == 'maketrans':
                return self.call_builtin(st, BI('str.maketrans'), args, kw,
                                         node)
            if cls == 'dict' and meth == 'fromkeys':
                return [(st, st.alloc(('dict', self.site(st, node)),
                                      Obj('dict', items={},
                                          rest=args[1] if len(args) > 1
                                          else NONE)))]
            if cls == 'object' and meth == '__init__':
                return [(st, NONE)]
            if cls in ('dict', 'list') and args:
                m = self.dict_method if cls == 'dict' else self.list_method
                return m(st, args[0], meth, args[1:], kw, node)
            return [(st, TOP)]
        m = getattr(self, 'bi_' + name.replace('.', '_'), None)
        if m is not None:
            self.hook('modelled', st, name=name, args=args, node=node)
            return m(st, args, kw, node)
        if name in EXCS or name.split('.')[-1].endswith('Error'):
            return [(st, BI('exc:' + name))]
        if name.startswith('exc:'):
            return [(st, TOP)]
        self.hook('library', st, name=name, args=args, node=node)
        return [(st, Sy(('lib', name, nid(node),
                         st.visits.get('lib', 0)), ANYTD))]

    def no(self, st, node, name):
        self.unknown(node, 'builtin ' + name)
        return [(st, TOP)]

    # ---- builtins
    def bi_len(self, st, args, kw, node):
        v = self.nv(st, args[0])
        if isinstance(v, U) or (isinstance(v, Sy) and v.td.nkinds() > 1):
            return self.bind(self.split(st, v),
                             lambda s, w: self.bi_len(s, [w], kw, node))
        if isstr(v):
            return [(st, self.strlen(st, v))]
        if isinstance(v, C) and isinstance(v.v, bytes):
            return [(st, C(len(v.v)))]
        if isinstance(v, Tup):
            return [(st, C(len(v.items)))]
        if isinstance(v, R):
            o = st.obj(v.oid)
            if o is not None and o.kind in ('list', 'dict', 'set', 'iter'):
                if o.rest is None and o.items is not None:
                    return [(st, C(len(o.items)))]
                return [(st, symint(('len', v, o.rest)))]
            if o is not None and o.kind == 'inst':
                m = self.class_attr(st, o.cls, '__len__')
                if m is not None:
                    return self.call(st, BM(m, v), [], {}, node)
        if isinstance(v, Sy):
            return [(st, symint(('len', v.k)))]
        if isinstance(v, C):
            return [(st, Exc('TypeError', node, 'len(%r)' % (v.v,),
                             self.where(st, node)))]
        return [(st, symint(('len', 'T', nid(node))))]

    def bi_str(self, st, args, kw, node):
        if not args:
            return [(st, EMPTYSTR)]
        return self.to_str(st, args[0], node)

    bi_unicode = bi_str

    def bi_repr(self, st, args, kw, node):
        v = self.nv(st, args[0])
        if const(v):
            return [(st, C(repr(v.v)))]
        return [(st, S([P(('repr', v if not isinstance(v, T) else
                           nid(node)), ops=['opaque'])]))]

    def bi_int(self, st, args, kw, node):
        if not args:
            return [(st, C(0))]
        v = self.nv(st, args[0])
        if const(v) and all(const(a) for a in args):
            try:
                return [(st, C(int(*[a.v for a in args])))]
            except (ValueError, TypeError) as e:
                return [(st, Exc(type(e).__name__, node, '',
                                 self.where(st, node)))]
        if isintv(v):
            return [(st, v)]
        if isinstance(v, B):
            return [(s, C(int(r))) for s, r in self.truth(st, v)]
        if isinstance(v, U) or (isinstance(v, Sy) and v.td.nkinds() > 1):
            return self.bind(self.split(st, v), lambda s, w: self.bi_int(
                s, [w] + args[1:], kw, node))
        if isinstance(v, S):
            digits = category('digit')
            ok = len(v.p) == 1 and v.p[0].lo > 0 and v.p[0].cs <= digits
            n = symint(('nat' if ok else 'int', 'int', v))
            self.hook('intconv', st, value=v, node=node, proven=ok)
            if ok and v.p[0].hi is not None and v.p[0].hi < 30:
                st.assume_ge0(isub(C(10 ** v.p[0].hi - 1), n))
            if ok and v.p[0].hi is not None and v.p[0].hi <= 4300:
                return [(st, n)]
            e = st.copy()
            return [(st, n), (e, Exc('ValueError', node, 'int()',
                                     self.where(st, node)))]
        return [(st, symint(('int', v if not isinstance(v, T) else
                             nid(node))))]

    def bi_bool(self, st, args, kw, node):
        if not args:
            return [(st, FALSE)]
        return [(s, r if isexc(r) else C(r))
                for s, r in self.truth(st, args[0], node)]

    def bi_isinstance(self, st, args, kw, node):
        v = self.nv(st, args[0])
        if isinstance(v, U) or (isinstance(v, Sy) and v.td.nkinds() > 1):
            return self.bind(self.split(st, v),
                             lambda s, w: self.bi_isinstance(
                                 s, [w] + args[1:], kw, node))
        k = self.nv(st, args[1])
        ks = k.items if isinstance(k, Tup) else [k]
        res = []
        for c in ks:
            res.append(self.isinst(st, v, c))
        if any(r is True for r in res):
            return [(st, TRUE)]
        if all(r is False for r in res):
            return [(st, FALSE)]
        kk = v if not isinstance(v, T) else nid(node)
        return [(s, C(r)) for s, r in self.fork(st, ('isinst', kk, k))]

    def isinst(self, st, v, c):
        if isinstance(c, BI):
            n = c.name
            if isstr(v):
                return n in ('str', 'object')
            if isinstance(v, C):
                t = type(v.v)
                return n in [x.__name__ for x in t.__mro__]
            if isinstance(v, I):
                return n in ('int', 'object')
            if isinstance(v, B):
                return n in ('bool', 'int', 'object')
            if isinstance(v, Tup):
                return n in ('tuple', 'object')
            if isinstance(v, R):
                o = st.obj(v.oid)
                if o is not None:
                    if o.kind == 'inst':
                        return n == 'object'
                    return n in (o.kind, 'object')
            if isinstance(v, Sy) and v.td.objs:
                t = next(iter(v.td.objs))
                if t.startswith('dict:'):
                    return n in ('dict', 'object')
                return n == 'object'
            return None
        if isinstance(c, K):
            info = self.inst_class(st, v)
            if info is not None and not isinstance(v, K):
                if c.info in info.mro():
                    return True
                if isinstance(v, R):
                    return False
                return None
            if isinstance(v, (C, S, I, B, Tup, Fn, BM)):
                return False
        return None

    def bi_issubclass(self, st, args, kw, node):
        a, b = args
        if isinstance(a, K) and isinstance(b, K):
            return [(st, C(b.info in a.info.mro()))]
        return [(s, C(r)) for s, r in self.truth(st, TOP)]

    def bi_type(self, st, args, kw, node):
        v = self.nv(st, args[0])
        info = self.inst_class(st, v)
        if info is not None:
            return [(st, K(info))]
        if isstr(v):
            return [(st, BI('str'))]
        if isintv(v):
            return [(st, BI('int'))]
        return [(st, TOP)]

    def attr_names(self, st, v):
        """every attribute name of an object, None when unknown"""
        v = self.nv(st, v)
        out = set()
        info = None
        if isinstance(v, R):
            o = st.obj(v.oid)
            if o is None:
                return None
            out |= set(o.fields)
            info = o.cls if o.kind == 'inst' else None
        elif isinstance(v, K):
            info = v.info
        elif isinstance(v, Sy) and v.td.objs:
            t = next(iter(v.td.objs))
            info = self.classes.get(t)
            out |= set(self.type_entry(t))
        if info is not None:
            for c in info.mro():
                o = st.obj(c.oid)
                out |= set(o.fields)
        out |= set(dir(object))
        return out

    def bi_hasattr(self, st, args, kw, node):
        v, n = self.nv(st, args[0]), self.nv(st, args[1])
        if isinstance(n, C):
            if isinstance(v, (R, K)) or (isinstance(v, Sy) and v.td.objs):
                names = self.attr_names(st, v)
                if names is not None:
                    self.hook('hasattr', st, obj=v, name=n.v, node=node)
                    return [(st, C(n.v in names))]
            return [(s, C(r)) for s, r in self.fork(
                st, ('hasattr', v if not isinstance(v, T) else nid(node),
                     n))]
        return self.by_const(st, n, lambda s, c: self.bi_hasattr(
            s, [v, c], kw, node), node)

    def by_const(self, st, n, f, node):
        """fork a text value over the constants it may be"""
        if isinstance(n, S) and len(n.p) == 1 and isinstance(n.p[0], P):
            p = self.rp(st, n.p[0])
            if isinstance(p, P) and p.consts is not None:
                out = []
                for c in sorted(p.consts):
                    s = st.copy()
                    if self.narrow(s, p, allow=frozenset([c]), lo=len(c),
                                   hi=len(c)):
                        out.extend(f(s, C(c)))
                return out
        if isinstance(n, U) or (isinstance(n, Sy) and n.td.nkinds() > 1):
            return self.bind(self.split(st, n), lambda s, c: self.by_const(
                s, c, f, node) if not isinstance(c, C) else f(s, c))
        return [(st, TOP)]

    def bi_getattr(self, st, args, kw, node):
        v, n = self.nv(st, args[0]), self.nv(st, args[1])
        if isinstance(v, U) or (isinstance(v, Sy) and v.td.nkinds() > 1):
            return self.bind(self.split(st, v),
                             lambda s, w: self.bi_getattr(
                                 s, [w] + args[1:], kw, node))
        if isinstance(n, C):
            out = []
            for s, r in self.getattr(st, v, n.v, node):
                if isexc(r) and r.name == 'AttributeError' and \
                   len(args) > 2:
                    out.append((s, args[2]))
                else:
                    out.append((s, r))
            return out
        return self.by_const(st, n, lambda s, c: self.bi_getattr(
            s, [v, c] + args[2:], kw, node), node)

    def bi_setattr(self, st, args, kw, node):
        n = self.nv(st, args[1])
        if isinstance(n, C):
            return [(s, r if isexc(r) else NONE) for s, r in self.setattr(
                st, args[0], n.v, args[2], node)]
        self.hook('setattr', st, obj=self.nv(st, args[0]), attr=None,
                  value=args[2], node=node, o=None)
        return [(st, NONE)]

    def bi_print(self, st, args, kw, node):
        res = [(st, None)]
        for a in args:
            res = self.bind(res, lambda s, _: self.to_str(s, a, node))
        return self.bind(res, lambda s, _: [(s, NONE)])

    def bi_range(self, st, args, kw, node):
        a = [self.nv(st, x) for x in args]
        for i, x in enumerate(a):
            if isinstance(x, U) or (isinstance(x, Sy) and
                                    x.td.nkinds() > 1):
                def again(s, w, i=i):
                    b = list(a)
                    b[i] = w
                    return self.bi_range(s, b, kw, node)
                return self.bind(self.split(st, x), again)
        if all(isinstance(x, C) for x in a):
            try:
                r = range(*[x.v for x in a])
            except TypeError:
                return [(st, Exc('TypeError', node, 'range',
                                 self.where(st, node)))]
            if len(r) <= 64:
                return [(st, st.alloc(('range', self.site(st, node)),
                                      Obj('list', items=tuple(
                                          C(i) for i in r))))]
        start, step = C(0), C(1)
        if len(a) == 1:
            stop = a[0]
        elif len(a) == 2:
            start, stop = a
        else:
            start, stop, step = a
        if not all(isintv(x) for x in (start, stop, step)):
            return [(st, TOP)]
        return [(st, st.alloc(('range', self.site(st, node)), Obj(
            'iter', 'range', {'start': start, 'stop': stop,
                              'step': step}, rest=TOP)))]

    bi_xrange = bi_range

    def bi_list(self, st, args, kw, node):
        return self.to_coll(st, args, 'list', node)

    def bi_set(self, st, args, kw, node):
        return self.to_coll(st, args, 'set', node)

    bi_frozenset = bi_set

    def bi_sorted(self, st, args, kw, node):
        out = []
        for s, r in self.to_coll(st, args[:1], 'list', node):
            o = s.obj(r.oid) if isinstance(r, R) else None
            if o is not None and o.rest is None:
                vals = [x.v for x in o.items if isinstance(x, C)]
                if len(vals) == len(o.items) and not kw:
                    try:
                        s.put(r.oid, o.but(items=tuple(
                            C(x) for x in sorted(vals))))
                    except TypeError:
                        pass
                elif o.items:
                    s.put(r.oid, o.but(items=(),
                                       rest=mkunion(list(o.items))))
            out.append((s, r))
        return out

    def bi_reversed(self, st, args, kw, node):
        out = []
        for s, r in self.to_coll(st, args[:1], 'list', node):
            o = s.obj(r.oid) if isinstance(r, R) else None
            if o is not None and o.rest is None:
                s.put(r.oid, o.but(items=tuple(reversed(o.items))))
            out.append((s, r))
        return out

    def bi_tuple(self, st, args, kw, node):
        if not args:
            return [(st, Tup([]))]
        out = []
        for s, items in self.sequence(st, args[0], node):
            if items is None:
                out.append((s, TOP))
            else:
                out.append((s, items if isexc(items) else Tup(items)))
        return out

    def to_coll(self, st, args, kind, node):
        if not args:
            return [(st, st.alloc((kind, self.site(st, node)),
                                  Obj(kind, items=())))]
        out = []
        for s, items in self.sequence(st, args[0], node):
            if isexc(items):
                out.append((s, items))
            elif items is not None:
                out.append((s, s.alloc((kind, self.site(s, node)), Obj(
                    kind, items=tuple(items)))))
            else:
                el = self.element(s, args[0], ('coll', nid(node)))
                out.append((s, s.alloc((kind, self.site(s, node)), Obj(
                    kind, items=(), rest=el))))
        return out

    def expand_map(self, st, v, node):
        """contents of a symbolic mapping now: [(state, known items, keys
        known to be absent, other values or None)]"""
        t = next(iter(v.td.objs)) if v.td.objs else None
        ent = self.type_entry(t)
        cur = [(st, {}, frozenset())]
        names = sorted(set(a for a in ent if a.startswith('[') and
                           a != '[*]') |
                       set(a for (k, a) in st.sy if k == v.k and
                           a.startswith('[')))
        for a in names:
            nxt = []
            for s, it, ab in cur:
                for s2, x in self.sydict_lookup(s, v, C(a[1:-1]), node):
                    if x is None:
                        nxt.append((s2, dict(it), ab | {a[1:-1]}))
                    else:
                        d = dict(it)
                        d[a[1:-1]] = x
                        nxt.append((s2, d, ab))
            cur = nxt
            if len(cur) > 64:
                break
        rest = None
        if not ent or '[*]' in ent:
            rest = Sy(v.k + ('[copy]',), ent.get('[*]', ANYTD))
        return [(s, it, ab, rest) for s, it, ab in cur]

    def bi_dict(self, st, args, kw, node):
        items, rest = {}, None
        if not args and kw:
            # dict(a=1) is {'a': 1}
            return [(st, self.new_dict(st, node, dict(kw), None))]
        if args:
            v = self.nv(st, args[0])
            if isinstance(v, U) or (isinstance(v, Sy) and
                                    v.td.nkinds() > 1):
                return self.bind(self.split(st, v),
                                 lambda s, w: self.bi_dict(
                                     s, [w], kw, node))
            if isinstance(v, R):
                o = st.obj(v.oid)
                if o is not None and o.kind == 'dict':
                    items.update(o.items or {})
                    rest = o.rest
                elif o is not None and o.kind in ('list', 'set'):
                    for x in (o.items or ()):
                        if isinstance(x, Tup) and len(x.items) == 2 and \
                           isinstance(x.items[0], C):
                            items[x.items[0].v] = x.items[1]
                        else:
                            rest = TOP
                    if o.rest is not None:
                        rest = TOP
            elif isinstance(v, C) and v.v is None:
                return [(st, Exc('TypeError', node, 'dict(None)',
                                 self.where(st, node)))]
            elif isinstance(v, Sy):
                out = []
                for s, it, ab, rs in self.expand_map(st, v, node):
                    it.update(kw)
                    out.append((s, s.alloc(
                        ('dict', self.site(s, node)),
                        Obj('dict', items=it, rest=rs,
                            fields={'absent': ab - set(kw)}))))
                    self.learn_dict(s, out[-1][1], it, rs)
                return out
            else:
                rest = TOP
        for k, v in kw.items():
            items[k] = v
        r = st.alloc(('dict', self.site(st, node)),
                     Obj('dict', items=items, rest=rest))
        self.learn_dict(st, r, items, rest)
        return [(st, r)]

    def learn_dict(self, st, r, items, rest):
        t = self.dict_type(r.oid)
        if items or rest is not None:
            self.copied.add(t)
        for k, x in items.items():
            self.learn(t, '[%s]' % (k,), self.td_of(st, x))
        if rest is not None:
            self.learn(t, '[*]', self.td_of(st, rest))

    def bi_enumerate(self, st, args, kw, node):
        start = args[1] if len(args) > 1 else kw.get('start', C(0))
        out = []
        for s, items in self.sequence(st, args[0], node):
            if isexc(items):
                out.append((s, items))
            elif items is not None and isinstance(start, C):
                out.append((s, s.alloc(('enum', self.site(s, node)), Obj(
                    'list', items=tuple(Tup([C(i + start.v), x])
                                        for i, x in enumerate(items))))))
            else:
                el = self.element(s, args[0], ('enum', nid(node)))
                n = symint(('nat', 'enum', nid(node)))
                if isstr(self.nv(s, args[0])):
                    s.assume_ge0(iadd(isub(self.strlen(
                        s, self.nv(s, args[0])), n), C(-1)))
                out.append((s, s.alloc(('enum', self.site(s, node)), Obj(
                    'list', items=(), rest=Tup([n, el])))))
        return out

    def bi_zip(self, st, args, kw, node):
        seqs = []
        for a in args:
            r = self.sequence(st, a, node)
            seqs.append(r[0][1] if len(r) == 1 else None)
        if all(x is not None and not isexc(x) for x in seqs):
            return [(st, st.alloc(('zip', self.site(st, node)), Obj(
                'list', items=tuple(Tup(list(x)) for x in zip(*seqs)))))]
        els = [self.element(st, a, ('zip', nid(node), i))
               for i, a in enumerate(args)]
        return [(st, st.alloc(('zip', self.site(st, node)), Obj(
            'list', items=(), rest=Tup(els))))]

    def bi_map(self, st, args, kw, node):
        f = args[0]
        it = self.nv(st, args[1])
        if isinstance(it, S):
            hom = self.char_hom(st, lambda s, ch: self.call(
                s, f, [ch], {}, node))
            if hom is not None:
                ps = [self.hom_piece(st, x, hom) for x in it.p]
                return [(st, st.alloc(('map', self.site(st, node)), Obj(
                    'list', items=(self.mkstr(st, ps),))))]
        out = []
        for s, items in self.sequence(st, it, node):
            if isexc(items):
                out.append((s, items))
                continue
            if items is not None and len(items) <= 64:
                res = [(s, [])]
                for x in items:
                    res = self.bind(res, lambda s2, vs: self.bind(
                        self.call(s2, f, [x], {}, node),
                        lambda s3, w: [(s3, vs + [w])]))
                for s2, vs in res:
                    out.append((s2, vs if isexc(vs) else s2.alloc(
                        ('map', self.site(s2, node)),
                        Obj('list', items=tuple(vs)))))
            else:
                el = self.element(s, it, ('map', nid(node)))
                vals = []
                for s2, w in self.call(s.copy(), f, [el], {}, node):
                    if isexc(w):
                        out.append((s2, w))
                    else:
                        vals.append(w)
                out.append((s, s.alloc(('map', self.site(s, node)), Obj(
                    'list', items=(), rest=mkunion(vs_or_top(vals))))))
        return out

    def bi_filter(self, st, args, kw, node):
        el = self.element(st, args[1], ('filter', nid(node)))
        return [(st, st.alloc(('filter', self.site(st, node)), Obj(
            'list', items=(), rest=el)))]

    def bi_min(self, st, args, kw, node):
        return self.minmax(st, args, node, True)

    def bi_max(self, st, args, kw, node):
        return self.minmax(st, args, node, False)

    def minmax(self, st, args, node, ismin):
        if len(args) < 2:
            return [(st, TOP)]
        res = [(st, args[0])]
        for b in args[1:]:
            def go(s, a):
                a, bb = self.nv(s, a), self.nv(s, b)
                for x, first in ((a, True), (bb, False)):
                    if isinstance(x, U) or (isinstance(x, Sy) and
                                            x.td.nkinds() > 1):
                        return self.bind(
                            self.split(s, x), lambda s2, w: self.minmax(
                                s2, [w, bb] if first else [a, w], node,
                                ismin))
                if not (isintv(a) and isintv(bb)):
                    return [(s, TOP)]
                return [(s2, (a if r else bb) if ismin else
                         (bb if r else a))
                        for s2, r in self.int_cmp(s, a, bb, 'le')]
            res = self.bind(res, go)
        return res

    def bi_sum(self, st, args, kw, node):
        for s, items in self.sequence(st, args[0], node):
            if items is not None and not isexc(items) and \
               all(isintv(x) for x in items):
                t = C(0)
                for x in items:
                    t = iadd(t, x)
                return [(s, t)]
        return [(st, symint(('sum', nid(node))))]

    def bi_any(self, st, args, kw, node):
        return self.anyall(st, args, node, True)

    def bi_all(self, st, args, kw, node):
        return self.anyall(st, args, node, False)

    def anyall(self, st, args, node, isany):
        out = []
        for s, items in self.sequence(st, args[0], node):
            if isexc(items):
                out.append((s, items))
                continue
            if items is None:
                out.extend((s2, C(r)) for s2, r in self.truth(s, TOP))
                continue
            res = [(s, None)]
            for x in items:
                nxt = []
                for s2, r in res:
                    if r is not None:
                        nxt.append((s2, r))
                        continue
                    for s3, t in self.truth(s2, x):
                        nxt.append((s3, C(isany) if t == isany else None))
                res = nxt
            out.extend((s2, C(not isany) if r is None else r)
                       for s2, r in res)
        return out

    def bi_abs(self, st, args, kw, node):
        v = self.nv(st, args[0])
        if isintv(v):
            out = []
            for s, r in self.int_cmp(st, C(0), v, 'le'):
                out.append((s, v if r else imulc(v, -1)))
            return out
        return [(st, TOP)]

    def bi_divmod(self, st, args, kw, node):
        a, b = self.nv(st, args[0]), self.nv(st, args[1])
        if isintv(a) and isinstance(b, C) and isinstance(b.v, int) and \
           b.v > 0:
            return [(st, Tup([self.divmod_(st, a, b.v, False),
                              self.divmod_(st, a, b.v, True)]))]
        return [(st, Tup([TOP, TOP]))]

    def bi_ord(self, st, args, kw, node):
        v = self.nv(st, args[0])
        if strconst(v) and len(v.v) == 1:
            return [(st, C(ord(v.v)))]
        return [(st, symint(('nat', 'ord', v if not isinstance(v, T)
                             else nid(node))))]

    def bi_chr(self, st, args, kw, node):
        v = self.nv(st, args[0])
        if isinstance(v, C) and isinstance(v.v, int):
            try:
                return [(st, C(chr(v.v)))]
            except ValueError:
                return [(st, Exc('ValueError', node, 'chr',
                                 self.where(st, node)))]
        if isinstance(v, U) or isinstance(v, Sy) and v.td.nkinds() > 1:
            return self.bind(self.split(st, v),
                             lambda s, w: self.bi_chr(s, [w], kw, node))
        cs = ALL
        ops = ['chr']
        if isintv(v):
            # what is known about the code number
            zero = self.int_cmp(st.copy(), v, C(0), 'eq')
            if not any(r for _, r in zero):
                cs = cs - NUL
            if st.prove_ge0(iadd(v, C(-0xe000))) or \
               st.prove_ge0(isub(C(0xd7ff), v)):
                cs = cs - SURROGATES
            for lo in (32, 128):
                if st.prove_ge0(iadd(v, C(-lo))):
                    cs = cs - CharSet.ranges([(0, lo - 1)])
            if st.prove_ge0(isub(C(127), v)):
                cs = cs & CharSet.ranges([(0, 127)])
        else:
            ops.append('opaque')
        return [(st, S([P(('chr', v if not isinstance(v, T) else
                           nid(node)), cs=cs, lo=1, hi=1, ops=ops)]))]

    bi_unichr = bi_chr

    def bi_iter(self, st, args, kw, node):
        v = self.nv(st, args[0])
        info = self.inst_class(st, v)
        if info is not None:
            f = self.class_attr(st, info, '__iter__')
            if f is not None:
                return self.call(st, BM(f, v), [], {}, node)
        return [(st, v)]

    def bi_next(self, st, args, kw, node):
        v = self.nv(st, args[0])
        info = self.inst_class(st, v)
        if info is not None:
            f = self.class_attr(st, info, '__next__')
            if f is not None:
                out = []
                for s, r in self.call(st, BM(f, v), [], {}, node):
                    if isexc(r) and r.name == 'StopIteration' and \
                       len(args) > 1:
                        out.append((s, args[1]))
                    else:
                        out.append((s, r))
                return out
        el = self.element(st, v, ('next', nid(node)))
        a, b = st.copy(), st.copy()
        out = [(a, el)]
        if len(args) > 1:
            out.append((b, args[1]))
        else:
            out.append((b, Exc('StopIteration', node, '',
                               self.where(st, node))))
        return out

    def bi_super(self, st, args, kw, node):
        if len(args) == 2 and isinstance(args[0], K):
            return [(st, SuperV(args[0].info, args[1]))]
        return [(st, TOP)]

    def bi_object(self, st, args, kw, node):
        return [(st, Sy(('object', nid(node)), ANYTD))]

    def bi_callable(self, st, args, kw, node):
        v = self.nv(st, args[0])
        if isinstance(v, (Fn, BM, K, BI)):
            return [(st, TRUE)]
        if isinstance(v, (C, S, I, B)):
            return [(st, FALSE)]
        return [(s, C(r)) for s, r in self.truth(st, TOP)]

    def bi_exit(self, st, args, kw, node):
        return [(st, Exc('SystemExit', node, '', self.where(st, node)))]

    bi_quit = bi_exit
    bi_sys_exit = bi_exit

    def bi_id(self, st, args, kw, node):
        return [(st, symint(('id', args[0])))]

    def bi_hash(self, st, args, kw, node):
        return [(st, symint(('hash', args[0] if not isinstance(
            args[0], T) else nid(node))))]

    def bi_vars(self, st, args, kw, node):
        return [(st, TOP)]

    def bi_open(self, st, args, kw, node):
        return [(st, Sy(('open', nid(node)), ANYTD))]

    def bi_format(self, st, args, kw, node):
        if len(args) == 1:
            return self.to_str(st, args[0], node)
        return [(st, S([self.opaque_piece(st, args[0], node)]))]

    # ---- library
    def rx_of(self, st, v, flags=None):
        v = self.nv(st, v)
        if isinstance(v, RX):
            return v
        if strconst(v):
            f = 0
            if flags is not None and isinstance(flags, C):
                f = int(flags.v)
            return RX(v.v, f)
        return None

    def bi_re_compile(self, st, args, kw, node):
        fl = args[1] if len(args) > 1 else kw.get('flags')
        v = self.nv(st, args[0])
        if isinstance(v, U):
            return self.bind(self.split(st, v),
                             lambda s, w: self.bi_re_compile(
                                 s, [w] + args[1:], kw, node))
        r = self.rx_of(st, args[0], fl)
        if r is None:
            self.hook('dynamic_regex', st, value=args[0], node=node)
            return [(st, TOP)]
        self.hook('regex', st, rx=r, subject=None, mode='compile',
                  node=node)
        self.regexes.setdefault((r.pattern, r.flags), set()).add(
            self.where(st, node)[0])
        return [(st, r)]

    def rx_call(self, st, mode, args, kw, node):
        """re.search(pattern, string, flags) / pattern.search(string)"""
        fl = args[2] if len(args) > 2 else kw.get('flags')
        p = self.nv(st, args[0])
        if isinstance(p, U):
            return self.bind(self.split(st, p), lambda s, w: self.rx_call(
                s, mode, [w] + args[1:], kw, node))
        r = self.rx_of(st, p, fl)
        subj = args[1] if len(args) > 1 else kw.get('string', TOP)
        if r is None:
            self.hook('dynamic_regex', st, value=p, node=node)
            out = []
            for s, b in self.fork(st, ('rx?', p if not isinstance(p, T)
                                       else nid(node), subj if not
                                       isinstance(subj, T) else 0)):
                out.append((s, TOP if b else NONE))
            return out
        return self.regex(st, r, subj, mode, node)

    def bi_re_search(self, st, args, kw, node):
        return self.rx_call(st, 'search', args, kw, node)

    def bi_re_match(self, st, args, kw, node):
        return self.rx_call(st, 'match', args, kw, node)

    def bi_re_fullmatch(self, st, args, kw, node):
        return self.rx_call(st, 'fullmatch', args, kw, node)

    def bi_re_sub(self, st, args, kw, node):
        fl = args[4] if len(args) > 4 else kw.get('flags')
        r = self.rx_of(st, args[0], fl)
        p = self.nv(st, args[0])
        if isinstance(p, U):
            return self.bind(self.split(st, p), lambda s, w: self.bi_re_sub(
                s, [w] + args[1:], kw, node))
        count = args[3] if len(args) > 3 else kw.get('count')
        if r is None:
            return [(st, S([P(('sub?', nid(node)), ops=['opaque'])]))]
        return self.re_sub(st, r, self.nv(st, args[1]),
                           args[2] if len(args) > 2 else kw['string'],
                           count, node)

    def bi_re_subn(self, st, args, kw, node):
        return self.bind(self.bi_re_sub(st, args, kw, node), lambda s, v: [
            (s, Tup([v, symint(('nat', 'subn', nid(node)))]))])

    def bi_re_split(self, st, args, kw, node):
        r = self.rx_of(st, args[0])
        return self.re_split(st, r, args[1], node)

    def re_split(self, st, r, v, node):
        v = self.nv(st, v)
        if isinstance(v, U) or (isinstance(v, Sy) and v.td.nkinds() > 1):
            return self.bind(self.split(st, v), lambda s, w: self.re_split(
                s, r, w, node))
        if r is None:
            return [(st, TOP)]
        self.hook('regex', st, rx=r, subject=v, mode='split', node=node)
        self.hook('resplit', st, rx=r, subject=v, node=node)
        self.regexes.setdefault((r.pattern, r.flags), set()).add(
            self.where(st, node)[0])
        if strconst(v):
            xs = _re.compile(r.pattern, r.flags).split(v.v)
            return [(st, st.alloc(('split', self.site(st, node)), Obj(
                'list', items=tuple(C(x) for x in xs))))]
        if not isstr(v):
            return [(st, TOP)]
        # characters the pattern always consumes cannot remain
        gone = EMPTY
        try:
            p = RXM.Pattern(r.pattern, r.flags)
            for cls in RXM.classes(p.lang_full()):
                if cls.size() <= 64:
                    for c in cls.chars():
                        if RXM.accepts(p.lang_match(), c) and \
                           p.ngroups() == 0 and p.min_width() > 0:
                            # every occurrence of c is a match or part of
                            # one
                            if RXM.subset(
                                    RXM.cat(RXM.lit(c), RXM.SIGMA),
                                    p.lang_match()):
                                gone = gone | CharSet.of(c)
        except RXM.Unsupported:
            pass
        el = self.derived(st, v, ('split', r), ('split', r.pattern),
                          cs=lambda c: c - gone)
        return [(st, st.alloc(('split', self.site(st, node)), Obj(
            'list', items=(), rest=el,
            fields={'split': Tup([r, v])})))]

    def bi_re_findall(self, st, args, kw, node):
        r = self.rx_of(st, args[0])
        v = self.nv(st, args[1])
        if r is not None:
            self.hook('regex', st, rx=r, subject=v, mode='findall',
                      node=node)
            self.regexes.setdefault((r.pattern, r.flags), set()).add(
                self.where(st, node)[0])
            if isstr(v):
                pat = RXM.Pattern(r.pattern, r.flags)
                el = self.derived(st, v, ('findall', r), 'findall',
                                  cs=lambda c: c & pat.charset(),
                                  lo=0 if pat.ngroups() else
                                  pat.min_width())
                return [(st, st.alloc(('findall', self.site(st, node)),
                                      Obj('list', items=(), rest=el)))]
        return [(st, TOP)]

    def bi_re_finditer(self, st, args, kw, node):
        r = self.rx_of(st, args[0])
        v = self.nv(st, args[1])
        if r is not None and isstr(v):
            self.hook('regex', st, rx=r, subject=v, mode='finditer',
                      node=node)
            pat = RXM.Pattern(r.pattern, r.flags)
            m = self.mk_match(st, r, pat, v, 'search')
            m = MT(r, v, 'search', ('iter', r, v, nid(node)), symint(
                ('nat', 'fs', nid(node))), symint(('nat', 'fe', nid(node))))
            return [(st, st.alloc(('finditer', self.site(st, node)),
                                  Obj('list', items=(), rest=m)))]
        return [(st, TOP)]

    def bi_re_escape(self, st, args, kw, node):
        v = self.nv(st, args[0])
        if strconst(v):
            return [(st, C(_re.escape(v.v)))]
        return [(st, TOP)]

    def rx_method(self, st, rx, meth, args, kw, node):
        if meth in ('search', 'match', 'fullmatch'):
            if len(args) > 1:
                # pos argument: analysed as a slice (anchors aside)
                return self.bind(
                    self.getslice(st, args[0], args[1],
                                  args[2] if len(args) > 2 else NONE, NONE,
                                  node),
                    lambda s, v: self.bind(
                        self.regex(s, rx, v, meth, node),
                        lambda s2, m: [(s2, self.shift_match(
                            s2, m, args[0], args[1], meth, rx))]))
            return self.regex(st, rx, args[0] if args else
                              kw.get('string', TOP), meth, node)
        if meth == 'sub':
            return self.re_sub(st, rx, self.nv(st, args[0]), args[1],
                               args[2] if len(args) > 2 else
                               kw.get('count'), node)
        if meth == 'subn':
            return self.bind(
                self.re_sub(st, rx, self.nv(st, args[0]), args[1], None,
                            node),
                lambda s, v: [(s, Tup([v, symint(('nat', 'subn',
                                                  nid(node)))]))])
        if meth == 'split':
            return self.re_split(st, rx, args[0], node)
        if meth == 'findall':
            return self.bi_re_findall(st, [rx] + args, kw, node)
        if meth == 'finditer':
            return self.bi_re_finditer(st, [rx] + args, kw, node)
        return [(st, TOP)]

    def shift_match(self, st, m, subj, pos, meth, rx):
        if not isinstance(m, MT):
            return m
        pos = self.nv(st, pos)
        if not isintv(pos):
            return TOP
        subj = self.nv(st, subj)
        if rx.pattern.startswith('^') and meth == 'search' and \
           pos != C(0):
            # '^' does not match at pos: different meaning, give up
            return Sy(('rxpos', m.uid), ANYTD)
        return MT(m.rx, subj, m.mode, ('sh',) + (m.uid, pos),
                  iadd(m.start, pos), iadd(m.end, pos))

    def bi_html_unescape(self, st, args, kw, node):
        v = self.nv(st, args[0])
        if strconst(v):
            return [(st, C(_html.unescape(v.v)))]
        if isinstance(v, U) or (isinstance(v, Sy) and v.td.nkinds() > 1):
            return self.bind(self.split(st, v),
                             lambda s, w: self.bi_html_unescape(
                                 s, [w], kw, node))
        if not isstr(v):
            return [(st, TOP)]
        self.hook('unescape', st, value=v, node=node)
        # never yields NUL or surrogates that were not there already
        return [(st, self.derived(
            st, v, 'unescape', 'unescape',
            cs=lambda c: ((ALL - NUL - SURROGATES) | c)))]

    def bi_html_escape(self, st, args, kw, node):
        v = self.nv(st, args[0])
        if isinstance(v, U) or (isinstance(v, Sy) and v.td.nkinds() > 1):
            return self.bind(self.split(st, v),
                             lambda s, w: self.bi_html_escape(
                                 s, [w] + args[1:], kw, node))
        q = args[1] if len(args) > 1 else kw.get('quote', TRUE)
        if not isstr(v):
            return [(st, Exc('AttributeError', node, 'html.escape',
                             self.where(st, node)))]
        out = []
        for s, r in self.truth(st, q):
            hom = {'&': '&amp;', '<': '&lt;', '>': '&gt;'}
            if r:
                hom['"'] = '&quot;'
                hom["'"] = '&#x27;'
            out.append((s, self.mkstr(s, [self.hom_piece(s, x, hom)
                                          for x in parts(v)])))
        return out

    def bi_xml_sax_saxutils_escape(self, st, args, kw, node):
        v = self.nv(st, args[0])
        if isstr(v) and len(args) == 1:
            hom = {'&': '&amp;', '<': '&lt;', '>': '&gt;'}
            return [(st, self.mkstr(st, [self.hom_piece(st, x, hom)
                                         for x in parts(v)]))]
        return [(st, TOP)]

    def bi_urllib_parse_quote(self, st, args, kw, node):
        v = self.nv(st, args[0])
        safe = args[1] if len(args) > 1 else kw.get('safe', C('/'))
        safe = self.nv(st, safe)
        if isinstance(v, U) or (isinstance(v, Sy) and v.td.nkinds() > 1):
            return self.bind(self.split(st, v),
                             lambda s, w: self.bi_urllib_parse_quote(
                                 s, [w] + args[1:], kw, node))
        self.hook('quote', st, value=v, safe=safe, node=node)
        if strconst(v) and strconst(safe):
            from urllib.parse import quote
            try:
                return [(st, C(quote(v.v, safe=safe.v)))]
            except UnicodeEncodeError:
                return [(st, Exc('UnicodeEncodeError', node, '',
                                 self.where(st, node)))]
        cs = CharSet.of('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
                        '0123456789_.-~%')
        if strconst(safe):
            cs = cs | CharSet.of(''.join(c for c in safe.v if ord(c) < 128))
        else:
            cs = ASCII
        labels, ops = set(), set(['quote'])
        src = v
        outs = []
        if isinstance(v, Sy) and v.k and v.k[0] == 'encoded':
            src = v.k[1]
        elif isstr(v):
            errs = args[3] if len(args) > 3 else kw.get('errors')
            r = self.encode_check(st, v, errs, node)
            if r is not None:
                outs.append(r)
        if isstr(src):
            for x in parts(src):
                if isinstance(x, P):
                    labels |= x.labels
                    ops |= x.ops
            lo = 1 if any(isinstance(x, str) or x.lo for x in
                          parts(src)) else 0
        else:
            lo = 0
        uid = ('quote', safe, src if not isinstance(src, T) else nid(node))
        # when only safe characters occur the text is unchanged
        return outs + [(st, S([P(uid, labels=labels, cs=cs, lo=lo,
                                 ops=ops)]))]

    bi_urllib_quote = bi_urllib_parse_quote

    def encode_check(self, st, v, errors, node):
        """outcome of encoding to UTF-8 when lone surrogates are possible"""
        cs = EMPTY
        for x in parts(v):
            cs = cs | (CharSet.of(x) if isinstance(x, str)
                       else self.outcs(self.rp(st, x))
                       if isinstance(self.rp(st, x), P) else EMPTY)
        ok = not (cs & SURROGATES) or (
            strconst(errors) and errors.v not in ('strict',))
        self.hook('encode', st, value=v, node=node, proven=ok)
        if ok:
            return None
        return (st.copy(), Exc('UnicodeEncodeError', node, 'surrogates',
                               self.where(st, node)))

    def bi_json_dumps(self, st, args, kw, node):
        self.hook('dumps', st, value=args[0], node=node)
        return [(st, S([P(('json', nid(node)), ops=['json'],
                          labels=['json'])]))]

    def bi_copy_copy(self, st, args, kw, node):
        v = self.nv(st, args[0])
        if isinstance(v, R):
            o = st.obj(v.oid)
            if o is not None and o.kind in ('dict', 'list', 'inst', 'set'):
                return [(st, st.alloc(('copy', self.site(st, node)), Obj(
                    o.kind, o.cls, dict(o.fields), o.items if not
                    isinstance(o.items, dict) else dict(o.items),
                    o.rest)))]
        if isinstance(v, Sy):
            return self.bi_dict(st, [v], {}, node)
        return [(st, v)]

    bi_copy_deepcopy = bi_copy_copy

    def bi_pprint_pprint(self, st, args, kw, node):
        return [(st, NONE)]

    def bi_functools_lru_cache(self, st, args, kw, node):
        if args and isinstance(args[0], Fn):
            return [(st, args[0])]
        return [(st, BI('functools.lru_cache()'))]

    def bi_functools_partial(self, st, args, kw, node):
        return [(st, TOP)]

    def bi_operator_itemgetter(self, st, args, kw, node):
        return [(st, TOP)]

    # ---- string methods
    def str_method(self, st, v, meth, args, kw, node):
        v = self.nv(st, v)
        args = [self.nv(st, a) for a in args]
        if isinstance(v, U) or (isinstance(v, Sy) and v.td.nkinds() > 1):
            return self.bind(self.split(st, v),
                             lambda s, w: self.str_method(s, w, meth, args,
                                                          kw, node))
        if not isstr(v):
            return [(st, TOP)]
        for i, a in enumerate(args):
            if isinstance(a, U) or (isinstance(a, Sy) and
                                    a.td.nkinds() > 1):
                def again(s, w, i=i):
                    b = list(args)
                    b[i] = w
                    return self.str_method(s, v, meth, b, kw, node)
                return self.bind(self.split(st, a), again)
        if strconst(v) and all(isinstance(a, C) for a in args) and \
           all(isinstance(a, C) for a in kw.values()) and \
           meth in PURE_STR and meth not in ('join', 'format'):
            try:
                r = getattr(v.v, meth)(*[a.v for a in args],
                                       **{k: a.v for k, a in kw.items()})
            except Exception as e:
                return [(st, Exc(type(e).__name__, node, str(e),
                                 self.where(st, node)))]
            return [(st, self.from_py(st, r, node))]
        m = getattr(self, 'sm_' + meth, None)
        if m is None:
            self.unknown(node, 'str.' + meth)
            return [(st, TOP)]
        return m(st, v, args, kw, node)

    def from_py(self, st, r, node):
        if isinstance(r, list):
            return st.alloc(('list', self.site(st, node)), Obj(
                'list', items=tuple(self.from_py(st, x, node) for x in r)))
        if isinstance(r, tuple):
            return Tup([self.from_py(st, x, node) for x in r])
        return C(r)

    def py(self, st, v):
        """(python value,) of a fully constant abstract value"""
        v = self.nv(st, v)
        if isinstance(v, C):
            return (v.v,)
        if isinstance(v, Tup):
            xs = [self.py(st, x) for x in v.items]
            if all(x is not None for x in xs):
                return (tuple(x[0] for x in xs),)
        if isinstance(v, R):
            o = st.obj(v.oid)
            if o is not None and o.kind == 'list' and o.rest is None:
                xs = [self.py(st, x) for x in o.items]
                if all(x is not None for x in xs):
                    return ([x[0] for x in xs],)
            if o is not None and o.kind == 'dict' and o.rest is None:
                d = {}
                for k, x in (o.items or {}).items():
                    y = self.py(st, x)
                    if y is None:
                        return None
                    d[k] = y[0]
                return (d,)
        return None

    def sm_replace(self, st, v, args, kw, node):
        a, b = args[0], args[1]
        self.hook('replace', st, value=v, old=a, new=b, node=node)
        full = len(args) == 2
        if strconst(a) and strconst(b) and full:
            if a.v == b.v:
                return [(st, v)]
            if len(a.v) == 1:
                return [(st, self.mkstr(st, [self.hom_piece(
                    st, x, {a.v: b.v}) for x in parts(v)]))]
            # absent?
            if self.rx_decide(self.text_lang(st, v), RX(
                    _re.escape(a.v), 0), 'search') is False:
                return [(st, v)]
            return [(st, self.derived(
                st, v, ('replace', a, b), ('replace', a.v, b.v),
                cs=lambda c: c | CharSet.of(b.v)))]
        extra = ALL
        if isstr(b):
            td = self.td_of(st, b)
            extra = td.str[0]
        return [(st, self.derived(st, v, ('replace', a, b), 'replace',
                                  cs=lambda c: c | extra))]

    def sm_translate(self, st, v, args, kw, node):
        t = args[0]
        o = st.obj(t.oid) if isinstance(t, R) else None
        if o is not None and o.kind == 'dict' and o.rest is None:
            hom = {}
            for k, x in (o.items or {}).items():
                c = chr(k) if isinstance(k, int) else k
                if isinstance(x, C):
                    hom[c] = '' if x.v is None else (
                        chr(x.v) if isinstance(x.v, int) else x.v)
                else:
                    hom = None
                    break
            if hom is not None:
                return [(st, self.mkstr(st, [self.hom_piece(st, x, hom)
                                             for x in parts(v)]))]
        return [(st, self.derived(st, v, ('translate', t if not isinstance(
            t, T) else 'T'), 'translate', cs=ALL))]

    def bi_str_maketrans(self, st, args, kw, node):
        if len(args) == 1:
            v = self.nv(st, args[0])
            if isinstance(v, R):
                o = st.obj(v.oid)
                items = {}
                for k, x in (o.items or {}).items():
                    items[ord(k) if isinstance(k, str) else k] = x
                return [(st, st.alloc(('dict', self.site(st, node)), Obj(
                    'dict', items=items, rest=o.rest)))]
        return [(st, TOP)]

    def trim_cs(self, args):
        if not args or (isinstance(args[0], C) and args[0].v is None):
            return STRIP_WS
        if strconst(args[0]):
            return CharSet.of(args[0].v)
        return None

    def do_strip(self, st, v, args, node, left, right, name):
        k = self.trim_cs(args)
        if k is None:
            return [(st, self.derived(st, v, (name, args[0] if args else
                                              None), name))]
        ps = list(parts(v))
        # nothing to strip?
        cs = EMPTY
        for x in ps:
            cs = cs | (CharSet.of(x) if isinstance(x, str)
                       else self.outcs(self.rp(st, x)) if isinstance(
                           self.rp(st, x), P) else EMPTY)
        if not (cs & k):
            return [(st, v)]
        ks = ''.join(k.chars()) if k.size() < 200 else None
        if left:
            while ps and isinstance(ps[0], str):
                t = ps[0].lstrip(ks)
                if t:
                    ps[0] = t
                    break
                ps.pop(0)
        if right:
            while ps and isinstance(ps[-1], str):
                t = ps[-1].rstrip(ks)
                if t:
                    ps[-1] = t
                    break
                ps.pop()
        if not ps:
            return [(st, EMPTYSTR)]
        lfix = not left or isinstance(ps[0], str)
        rfix = not right or isinstance(ps[-1], str)
        if lfix and rfix:
            return [(st, self.mkstr(st, ps))]
        w = self.mkstr(st, ps)
        if len(ps) == 1 and not isinstance(ps[0], str) and \
           not ps[0].imgs:
            # a substring; empty iff everything was strippable
            p = self.rp(st, ps[0])
            if isinstance(p, P):
                b, s0, e0 = self.base_span(st, p)
                a = symint(('nat', name + '<', k, p.uid)) if left else C(0)
                e = symint(('nat', name + '>', k, p.uid)) if right else \
                    self.piece_len(st, p)
                ln = self.piece_len(st, p)
                st.assume_ge0(isub(e, a))
                st.assume_ge0(isub(ln, e))
                q = self.sub_piece(st, b, iadd(s0, a), iadd(s0, e),
                                   p.labels, p.cs)
                q = q.but(ops=p.ops | frozenset([
                    (name, ks if ks is not None else 'ws')]))
                out = []
                # the result is empty or starts/ends outside k
                t, f = st.copy(), st.copy()
                if self.narrow(f, q, lo=1):
                    if left:
                        c = self.char_at(f, q, C(0))
                        ok = True
                        if isinstance(c, P):
                            ok = self.narrow(f, c, cs=~k)
                    else:
                        ok = True
                    if ok and right:
                        c = self.char_at(f, q, iadd(isub(e, a), C(-1)))
                        if isinstance(c, P):
                            ok = self.narrow(f, c, cs=~k)
                    if ok:
                        out.append((f, S([q.but(lo=1)])))
                if self.narrow(t, q, hi=0) and self.narrow(t, p, cs=k):
                    out.append((t, EMPTYSTR))
                return out
        r = self.derived(st, w, (name, ks), (name, ks if ks is not None else
                                             'ws'))
        if isstr(r):
            # no longer than what was stripped
            st.assume_ge0(isub(self.strlen(st, w), self.strlen(st, r)))
        return [(st, r)]

    def sm_strip(self, st, v, args, kw, node):
        return self.do_strip(st, v, args, node, True, True, 'strip')

    def sm_lstrip(self, st, v, args, kw, node):
        return self.do_strip(st, v, args, node, True, False, 'lstrip')

    def sm_rstrip(self, st, v, args, kw, node):
        return self.do_strip(st, v, args, node, False, True, 'rstrip')

    def case_op(self, st, v, name, args):
        def conv(c):
            r = c
            from .charset import casefold_close
            return casefold_close(c, False) | (c if c <= ASCII else ALL)
        ps = parts(v)
        if all(isinstance(x, str) for x in ps):
            return [(st, C(getattr(v.v, name)()))]
        return [(st, self.derived(
            st, v, name, name, cs=conv,
            lo=1 if any(isinstance(x, str) or x.lo for x in ps) else 0))]

    def sm_lower(self, st, v, args, kw, node):
        return self.case_op(st, v, 'lower', args)

    def sm_upper(self, st, v, args, kw, node):
        return self.case_op(st, v, 'upper', args)

    def sm_casefold(self, st, v, args, kw, node):
        return self.case_op(st, v, 'casefold', args)

    def sm_title(self, st, v, args, kw, node):
        return self.case_op(st, v, 'title', args)

    def sm_capitalize(self, st, v, args, kw, node):
        return self.case_op(st, v, 'capitalize', args)

    def sm_startswith(self, st, v, args, kw, node):
        return self.affix(st, v, args, node, True)

    def sm_endswith(self, st, v, args, kw, node):
        return self.affix(st, v, args, node, False)

    def affix(self, st, v, args, node, start):
        a = args[0]
        opts = None
        if isinstance(a, Tup):
            if all(strconst(x) for x in a.items):
                opts = [x.v for x in a.items]
        elif strconst(a):
            opts = [a.v]
        if opts is None or len(args) > 1 and not (
                start and isintv(args[1])):
            return [(s, C(r)) for s, r in self.fork(
                st, ('affix', v, a, start))]
        if len(args) > 1:
            return self.bind(self.getslice(st, v, args[1], NONE, NONE,
                                           node),
                             lambda s, w: self.str_method(
                                 s, w, 'startswith', args[:1], {}, node))
        body = '|'.join(_re.escape(x) for x in opts)
        rx = RX('^(?:%s)' % body if start else '(?:%s)\\Z' % body, 0)
        if isinstance(v, S) and len(opts) == 1 and len(opts[0]) == 1 and (
                not start or v.p and isinstance(v.p[0], P) and v.p[0].imgs):
            # first or last character
            ln = self.strlen(st, v)
            out = []
            for s, nonempty in self.truth(st, v):
                if not nonempty:
                    out.append((s, FALSE))
                    continue
                for s2, c in self.str_index(
                        s, self.nv(s, v), C(0 if start else -1), node) \
                        if isinstance(self.nv(s, v), S) else \
                        [(s, C(self.nv(s, v).v[0 if start else -1]))]:
                    if isexc(c):
                        continue
                    for s3, r in self.equal(s2, C(opts[0]), c, False,
                                            node):
                        out.append((s3, C(r)))
            return out
        return [(s, C(isinstance(m, MT)) if not isexc(m) else m)
                for s, m in self.regex(st, rx, v, 'search', node,
                                       quiet=True)]

    def sm_find(self, st, v, args, kw, node):
        return self.find(st, v, args, node, False)

    def sm_index(self, st, v, args, kw, node):
        return self.find(st, v, args, node, True)

    def sm_rfind(self, st, v, args, kw, node):
        return self.find(st, v, args, node, False, 'rfind')

    def sm_rindex(self, st, v, args, kw, node):
        return self.find(st, v, args, node, True, 'rfind')

    def find(self, st, v, args, node, raises, tag='find'):
        a = args[0]
        ln = self.strlen(st, v)
        n = symint(('nat', tag, v, tuple(args)))
        out = []
        if strconst(a) and len(args) == 1:
            rs = self.regex(st, RX(_re.escape(a.v), 0), v, 'search', node,
                            quiet=True)
            rs = [(s, isinstance(m, MT)) for s, m in rs]
            w = len(a.v)
        else:
            rs = self.fork(st, ('find', v, tuple(args)))
            w = 0
        for s, r in rs:
            if r:
                s.assume_ge0(isub(isub(ln, n), C(w)))
                if len(args) > 1 and isintv(args[1]):
                    s.assume_ge0(isub(n, args[1]))
                out.append((s, n))
            elif raises:
                out.append((s, Exc('ValueError', node, 'substring',
                                   self.where(s, node))))
            else:
                out.append((s, C(-1)))
        return out

    def sm_count(self, st, v, args, kw, node):
        n = symint(('nat', 'count', v, tuple(args)))
        return [(st, n)]

    def sm_split(self, st, v, args, kw, node):
        sep = args[0] if args else kw.get('sep', NONE)
        ws = isinstance(sep, C) and sep.v is None
        drop = EMPTY
        if ws:
            drop = STRIP_WS
        elif strconst(sep) and len(sep.v) == 1:
            drop = CharSet.of(sep.v)
        if len(args) > 1 or 'maxsplit' in kw:
            drop = EMPTY
        self.hook('strsplit', st, value=v, sep=sep, node=node)
        el = self.derived(st, v, ('split', sep), 'split',
                          cs=lambda c: c - drop, lo=1 if ws else 0)
        return [(st, st.alloc(('split', self.site(st, node)), Obj(
            'list', items=(), rest=el,
            fields={'nonempty': C(not ws)})))]

    sm_rsplit = sm_split

    def sm_splitlines(self, st, v, args, kw, node):
        keep = args[0] if args else kw.get('keepends', FALSE)
        drop = SPLITLINES
        if not (isinstance(keep, C) and not keep.v):
            drop = EMPTY
        self.hook('splitlines', st, value=v, node=node)
        el = self.derived(st, v, ('splitlines', keep), 'splitlines',
                          cs=lambda c: c - drop)
        return [(st, st.alloc(('split', self.site(st, node)), Obj(
            'list', items=(), rest=el)))]

    def sm_partition(self, st, v, args, kw, node):
        sep = args[0]
        out = []
        for s, n in self.find(st, v, [sep], node, False):
            if isinstance(n, C) and n.v == -1:
                out.append((s, Tup([v, EMPTYSTR, EMPTYSTR])))
                continue
            ln = self.strlen(s, v)
            k = self.strlen(s, sep) if isstr(sep) else C(1)
            out.append((s, Tup([
                self.str_span(s, v, C(0), n, ln), sep,
                self.str_span(s, v, iadd(n, k), ln, ln)])))
        return out

    sm_rpartition = sm_partition

    def sm_join(self, st, v, args, kw, node):
        it = args[0]
        out = []
        for s, items in self.sequence(st, it, node):
            if isexc(items):
                out.append((s, items))
                continue
            if items is not None:
                ps = []
                bad = None
                res = [(s, [])]
                for x in items:
                    res = self.bind(res, lambda s2, vs: self.bind(
                        self.split(s2, x),
                        lambda s3, w: [(s3, vs + [w])]))
                for s2, vs in res:
                    ps, bad = [], None
                    for i, x in enumerate(vs):
                        if i:
                            ps.extend(parts(v))
                        if isstr(x):
                            ps.extend(parts(x))
                        elif isinstance(x, (C, I, R, B)):
                            bad = x
                        else:
                            ps.append(self.opaque_piece(s2, x, node))
                    if bad is not None:
                        out.append((s2, Exc('TypeError', node, 'join',
                                            self.where(s2, node))))
                    else:
                        out.append((s2, self.mkstr(s2, ps)))
                continue
            # unknown number of elements
            o = s.obj(it.oid) if isinstance(it, R) else None
            rest = None
            if o is not None and o.kind in ('list', 'set', 'iter'):
                rest = self.element(s, it, ('join', nid(node)))
            elif isinstance(it, Sy) and it.td.lst is not None:
                rest = self.of_td(s, it.k + ('join',), it.td.lst)
            elif isstr(it):
                rest = it
            td = self.td_of(s, rest) if rest is not None else ANYTD
            if td.str is None:
                out.append((s, S([P(('join', nid(node), s.visits.get(
                    'lib', 0)), ops=['opaque'])])))
                continue
            cs, _, _, labels = td.str
            sep = EMPTY
            for x in parts(v):
                sep = sep | (CharSet.of(x) if isinstance(x, str)
                             else self.outcs(x))
                if isinstance(x, P):
                    labels = labels | x.labels
            ops = set(['join'])
            rv = self.nv(s, rest)
            for a in (rv.alts if isinstance(rv, U) else [rv]):
                if isinstance(a, S):
                    for x in a.p:
                        if isinstance(x, P):
                            ops |= x.ops
            out.append((s, S([P(('join', v, it if not isinstance(
                it, T) else nid(node)), labels=labels, cs=cs | sep,
                ops=ops)])))
        return out

    def sm_format(self, st, v, args, kw, node):
        if not strconst(v):
            return [(st, S([P(('format', v, nid(node)), ops=['opaque'])]))]
        import string
        res = [(st, [])]
        auto = 0
        try:
            fields = list(string.Formatter().parse(v.v))
        except ValueError:
            return [(st, Exc('ValueError', node, 'format',
                             self.where(st, node)))]
        for text, name, spec, conv in fields:
            res = [(s, ps + [text] if not isexc(ps) else ps)
                   for s, ps in res]
            if name is None:
                continue
            base = _re.match(r'[^.\[]*', name).group()
            if base == '':
                idx = auto
                auto += 1
                val = args[idx] if idx < len(args) else None
            elif base.isdigit():
                val = args[int(base)] if int(base) < len(args) else None
            else:
                val = kw.get(base)
            if val is None:
                return [(st, Exc('IndexError', node, 'format',
                                 self.where(st, node)))]
            rest = name[len(base):]

            def go(s, ps, val=val, rest=rest, spec=spec, conv=conv):
                cur = [(s, val)]
                for m in _re.finditer(r'\.(\w+)|\[(\w+)\]', rest):
                    if m.group(1):
                        cur = self.bind(cur, lambda s2, x: self.getattr(
                            s2, x, m.group(1), node))
                    else:
                        k = m.group(2)
                        cur = self.bind(cur, lambda s2, x: self.getitem(
                            s2, x, C(int(k) if k.isdigit() else k), node))

                def add(s2, x):
                    if spec or conv not in (None, 's'):
                        return [(s2, ps + [self.opaque_piece(s2, x,
                                                             node)])]
                    return self.bind(
                        self.to_str(s2, x, node),
                        lambda s3, w: [(s3, ps + list(
                            parts(w) if parts(w) is not None else
                            [self.opaque_piece(s3, w, node)]))])
                return self.bind(cur, add)
            res = self.bind(res, lambda s, ps: go(s, ps))
        return self.bind(res, lambda s, ps: [(s, self.mkstr(s, ps))])

    def sm_encode(self, st, v, args, kw, node):
        enc = args[0] if args else kw.get('encoding', C('utf-8'))
        err = args[1] if len(args) > 1 else kw.get('errors', C('strict'))
        out = [(st, Sy(('encoded', v, err), ANYTD))]
        r = self.encode_check(st, v, err, node)
        if r is not None:
            out.append(r)
        return out

    def is_pred(self, st, v, name, cs, node):
        if len(v.p) == 1 and not isinstance(v.p[0], str) and \
           not v.p[0].imgs:
            p = self.rp(st, v.p[0])
            if isinstance(p, P) and p.lo == 1 and p.hi == 1 and \
               cs is not None:
                t, f = st.copy(), st.copy()
                out = []
                if self.narrow(t, p, cs=cs):
                    out.append((t, TRUE))
                if self.narrow(f, p, cs=~cs):
                    out.append((f, FALSE))
                return out
            if isinstance(p, P) and cs is not None:
                t, f = st.copy(), st.copy()
                out = []
                if self.narrow(t, p, cs=cs, lo=1):
                    out.append((t, TRUE))
                for s, r in self.fork(f, ('pred', name, v)):
                    if not r:
                        out.append((s, FALSE))
                return out
        return [(s, C(r)) for s, r in self.fork(st, ('pred', name, v))]

    def sm_isspace(self, st, v, args, kw, node):
        return self.is_pred(st, v, 'isspace', STRIP_WS, node)

    def sm_isdigit(self, st, v, args, kw, node):
        return self.is_pred(st, v, 'isdigit', None, node)

    def sm_isalpha(self, st, v, args, kw, node):
        return self.is_pred(st, v, 'isalpha', None, node)

    def sm_isalnum(self, st, v, args, kw, node):
        return self.is_pred(st, v, 'isalnum', None, node)

    def sm_isdecimal(self, st, v, args, kw, node):
        return self.is_pred(st, v, 'isdecimal', category('digit'), node)

    def sm_isupper(self, st, v, args, kw, node):
        return self.is_pred(st, v, 'isupper', None, node)

    def sm_islower(self, st, v, args, kw, node):
        return self.is_pred(st, v, 'islower', None, node)

    def sm_isascii(self, st, v, args, kw, node):
        if all(isinstance(x, str) or not x.imgs for x in v.p):
            t, f = st.copy(), st.copy()
            ok = all(isinstance(x, str) and x.isascii() or
                     not isinstance(x, str) and self.narrow(t, x, cs=ASCII)
                     for x in v.p)
            out = []
            if ok:
                out.append((t, TRUE))
            out.append((f, FALSE))
            return out
        return [(s, C(r)) for s, r in self.fork(st, ('isascii', v))]

    def sm_expandtabs(self, st, v, args, kw, node):
        return [(st, self.derived(
            st, v, 'expandtabs', 'expandtabs',
            cs=lambda c: (c - CharSet.of('\t')) | CharSet.of(' ')))]

    def sm_removeprefix(self, st, v, args, kw, node):
        out = []
        for s, r in self.affix(st, v, args, node, True):
            if isinstance(r, C) and r.v and strconst(args[0]):
                out.extend(self.str_slice(s, v, C(len(args[0].v)), NONE,
                                          node))
            else:
                out.append((s, v))
        return out

    def sm_removesuffix(self, st, v, args, kw, node):
        out = []
        for s, r in self.affix(st, v, args, node, False):
            if isinstance(r, C) and r.v and strconst(args[0]) and \
               args[0].v:
                out.extend(self.str_slice(s, v, NONE, C(-len(args[0].v)),
                                          node))
            else:
                out.append((s, v))
        return out

    def pad(self, st, v, args, node, name):
        fill = args[1].v if len(args) > 1 and strconst(args[1]) else ' '
        return [(st, self.derived(st, v, (name,) + tuple(args), name,
                                  cs=lambda c: c | CharSet.of(fill)))]

    def sm_ljust(self, st, v, args, kw, node):
        return self.pad(st, v, args, node, 'ljust')

    def sm_rjust(self, st, v, args, kw, node):
        return self.pad(st, v, args, node, 'rjust')

    def sm_zfill(self, st, v, args, kw, node):
        return self.pad(st, v, args, node, 'zfill')

    # ---- dict methods
    def dict_method(self, st, v, meth, args, kw, node):
        v = self.nv(st, v)
        o = st.obj(v.oid) if isinstance(v, R) else None
        sy = isinstance(v, Sy)
        if meth in ('get', 'setdefault', 'pop', '__getitem__',
                    '__contains__', 'has_key'):
            k = args[0]
            dflt = args[1] if len(args) > 1 else NONE
            self.hook('dictget', st, obj=v, key=k, node=node)
            if sy:
                rs = self.sydict_lookup(st, v, self.nv(st, k), node)
            elif o is not None:
                rs = self.dict_lookup(st, v, o, self.nv(st, k), node)
            else:
                return [(st, TOP)]
            out = []
            for s, r in rs:
                if meth in ('__contains__', 'has_key'):
                    out.append((s, C(r is not None)))
                elif r is not None:
                    if meth == 'pop':
                        out.extend(self.bind(
                            self.mutate(s, v, 'pop', [k], node),
                            lambda s2, _: [(s2, r)]))
                    else:
                        out.append((s, r))
                elif meth == 'get':
                    out.append((s, dflt))
                elif meth == 'setdefault':
                    out.extend(self.bind(
                        self.setitem(s, v, k, dflt, node),
                        lambda s2, _: [(s2, dflt)]))
                elif len(args) > 1:
                    out.append((s, dflt))
                else:
                    out.append((s, Exc('KeyError', node, repr(k),
                                       self.where(s, node))))
            return out
        if meth == '__setitem__':
            return [(s, r if isexc(r) else NONE) for s, r in
                    self.setitem(st, v, args[0], args[1], node)]
        if meth == 'copy':
            if o is not None:
                return [(st, st.alloc(('dict', self.site(st, node)), Obj(
                    'dict', items=dict(o.items or {}), rest=o.rest)))]
            return self.bi_dict(st, [v], {}, node)
        if meth in ('keys', 'values', 'items'):
            if o is not None and o.rest is None:
                its = []
                for k, x in (o.items or {}).items():
                    its.append(C(k) if meth == 'keys' else x
                               if meth == 'values' else Tup([C(k), x]))
                return [(st, st.alloc((meth, self.site(st, node)), Obj(
                    'list', items=tuple(its))))]
            return [(st, st.alloc((meth, self.site(st, node)), Obj(
                'list', items=(), rest=Sy(('dict' + meth, nid(node)),
                                          ANYTD))))]
        if meth in ('update', 'clear', 'popitem', '__delitem__'):
            return [(s, r if isexc(r) else NONE) for s, r in
                    self.mutate(st, v, meth, args, node, kw)]
        self.unknown(node, 'dict.' + meth)
        return [(st, TOP)]

    def list_method(self, st, v, meth, args, kw, node):
        v = self.nv(st, v)
        o = st.obj(v.oid) if isinstance(v, R) else None
        if meth in ('append', 'extend', 'insert', 'pop', 'remove', 'clear',
                    'reverse', 'sort', 'add', 'discard', 'update'):
            return [(s, r if isexc(r) else (NONE if r is None else r))
                    for s, r in self.mutate(st, v, meth, args, node, kw)]
        if meth in ('index', 'count'):
            return [(st, symint(('nat', meth, v, nid(node))))]
        if meth == 'copy' and o is not None:
            return [(st, st.alloc((o.kind, self.site(st, node)), Obj(
                o.kind, items=o.items, rest=o.rest)))]
        if meth == '__contains__':
            return [(s, C(r) if not isexc(r) else r)
                    for s, r in self.contains(st, v, args[0], node)]
        if meth == '__len__':
            return self.bi_len(st, [v], {}, node)
        return [(st, TOP)]

    def tuple_method(self, st, v, meth, args, kw, node):
        if meth == 'index' or meth == 'count':
            return [(st, symint(('nat', meth, nid(node))))]
        return [(st, TOP)]

    def mutate(self, st, v, meth, args, node, kw=None):
        """in-place change of a container -> [(st, result|None|exc)]"""
        v = self.nv(st, v)
        if isinstance(v, U) or (isinstance(v, Sy) and v.td.nkinds() > 1):
            return self.bind(self.split(st, v),
                             lambda s, w: self.mutate(s, w, meth, args,
                                                      node, kw))
        self.hook('mutate', st, obj=v, meth=meth, args=args, node=node)
        if not isinstance(v, R):
            if isinstance(v, Sy) and v.td.lst is not None and \
               meth == 'pop':
                return [(st, self.of_td(st, v.k + ('pop', nid(node)),
                                        v.td.lst))]
            if isinstance(v, Sy) and v.td.objs and meth in (
                    'pop', '__delitem__', 'clear', 'update'):
                t = next(iter(v.td.objs))
                for (k, a) in list(st.sy):
                    if a.startswith('['):
                        del st.sy[(k, a)]
            if isinstance(v, Sy) and meth == 'update':
                src = dict(kw or {})
                o2 = st.obj(args[0].oid) if args and isinstance(
                    args[0], R) else None
                if o2 is not None:
                    src.update(o2.items or {})
                for k, x in src.items():
                    st.sy[(v.k, '[%s]' % (k,))] = x
            return [(st, None if meth != 'pop' else TOP)]
        o = st.obj(v.oid)
        if o is None:
            return [(st, None)]
        if o.kind == 'dict':
            items = dict(o.items or {})
            rest = o.rest
            if meth == 'update':
                srcs = list(args)
                for a in srcs:
                    a = self.nv(st, a)
                    o2 = st.obj(a.oid) if isinstance(a, R) else None
                    if o2 is not None and o2.kind == 'dict':
                        items.update(o2.items or {})
                        if o2.rest is not None:
                            rest = o2.rest if rest is None else mkunion(
                                [rest, o2.rest])
                    elif isinstance(a, Sy) and a.td.objs:
                        out = []
                        for s2, it, ab, rs in self.expand_map(st, a, node):
                            r2 = s2.alloc(('upd', self.site(s2, node)), Obj(
                                'dict', items=it, rest=rs))
                            out.extend(self.mutate(
                                s2, v, meth, [r2], node, kw))
                        return out
                    else:
                        rest = Sy(('upd', nid(node)), ANYTD)
                for k, x in (kw or {}).items():
                    items[k] = x
            elif meth == 'clear':
                items, rest = {}, None
            elif meth in ('pop', '__delitem__'):
                k = self.nv(st, args[0])
                if isinstance(k, C):
                    if k.v not in items and rest is None and \
                       meth == '__delitem__':
                        return [(st, Exc('KeyError', node, repr(k),
                                         self.where(st, node)))]
                    items.pop(k.v, None)
                else:
                    rest = mkunion(list(items.values()) + (
                        [rest] if rest is not None else [])) if items or \
                        rest is not None else None
                    items = {}
            elif meth == 'popitem':
                rest = mkunion(list(items.values()) or [TOP])
                items = {}
            st.put(v.oid, o.but(items=items, rest=rest))
            return [(st, None)]
        if o.kind in ('list', 'set'):
            items, rest = list(o.items or ()), o.rest
            r = None
            if meth in ('append', 'add'):
                if rest is None:
                    if meth == 'add' and args[0] in items:
                        pass
                    else:
                        items.append(args[0])
                else:
                    rest = self.widen_rest(st, v, rest, args[0])
            elif meth in ('extend', 'update'):
                for s, its in self.sequence(st, args[0], node):
                    if its is not None and not isexc(its) and rest is None:
                        items.extend(its)
                    else:
                        el = self.element(st, args[0], ('ext', nid(node)))
                        rest = el if rest is None else self.widen_rest(
                            st, v, rest, el)
                    break
            elif meth == 'insert':
                i = self.nv(st, args[0])
                if rest is None and isinstance(i, C):
                    items.insert(i.v, args[1])
                else:
                    rest = args[1] if rest is None else self.widen_rest(
                        st, v, rest, args[1])
            elif meth == 'pop':
                i = self.nv(st, args[0]) if args else C(-1)
                if rest is None:
                    if not items:
                        return [(st, Exc('IndexError', node, 'pop',
                                         self.where(st, node)))]
                    if isinstance(i, C) and -len(items) <= i.v < \
                       len(items):
                        r = items.pop(i.v)
                    else:
                        r = mkunion(items)
                else:
                    r = mkunion(items + [rest])
            elif meth == 'clear':
                items, rest = [], None
            elif meth == 'reverse':
                items.reverse()
            elif meth in ('del', 'slice-assign', 'sort', 'remove',
                          '__delitem__', 'discard'):
                i = self.nv(st, args[0]) if args else None
                if meth == '__delitem__' and rest is None and \
                   isinstance(i, C) and -len(items) <= i.v < len(items):
                    del items[i.v]
                elif items:
                    rest = mkunion(items + ([rest] if rest is not None
                                            else []))
                    items = []
            st.put(v.oid, o.but(items=tuple(items), rest=rest))
            return [(st, r)]
        return [(st, None)]

    def widen_rest(self, st, v, rest, x):
        r = mkunion([rest, x])
        if isinstance(r, (U, T)):
            td = self.td_of(st, rest).join(self.td_of(st, x))
            return Sy(('rest', v.oid), td) if td.nkinds() else TOP
        return r


def vs_or_top(vals):
    return vals if vals else [TOP]


def error_type():
    return _re.error


EXCS = set(['IndexError', 'KeyError', 'ValueError', 'TypeError',
            'StopIteration', 'AttributeError', 'Exception', 'RuntimeError',
            'NotImplementedError', 'AssertionError', 'LookupError',
            'UnicodeError', 'UnicodeDecodeError', 'UnicodeEncodeError',
            'NameError', 'OSError', 'SystemExit', 'RecursionError'])
