"""Abstract values.

A string is a constant or a concatenation of literal text and opaque pieces
P; an integer is a constant or a linear form over symbols; an object is a
reference to an abstract heap cell (R) or an opaque symbolic object named by
an access path (Sy) whose possible kinds are described by a TD.
"""
from .charset import CharSet, ALL, EMPTY


class Kt(tuple):
    """interned tuple with a cached hash: deep names stay cheap"""

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = tuple.__hash__(self)
            return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is Kt and self.__hash__() != o.__hash__():
            return False
        return tuple.__eq__(self, o)

    def __ne__(self, o):
        return not self == o


_interned = {}


def kt(t):
    if type(t) is not tuple:
        return t
    r = _interned.get(t)
    if r is None:
        r = Kt([kt(x) if type(x) is tuple else x for x in t])
        r = _interned.setdefault(r, r)
    return r


class V(object):
    __slots__ = ('_hh',)
    fields = ()

    def key(self):
        return tuple(getattr(self, f) for f in self.fields)

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and
                             hash(self) == hash(o) and
                             self.key() == o.key())

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        try:
            return self._hh
        except AttributeError:
            self._hh = hash((type(self).__name__,) + self.key())
            return self._hh

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join(
            repr(getattr(self, f)) for f in self.fields))


class C(V):
    """a Python constant (None, bool, int, float, str, bytes, Ellipsis)"""
    __slots__ = ('v',)
    fields = ('v',)

    def __init__(self, v):
        self.v = v

    def key(self):
        return (type(self.v).__name__, self.v)

    def __repr__(self):
        return 'C(%r)' % (self.v,)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
EMPTYSTR = C('')


class P(V):
    """one opaque piece of a string.

    uid    identity: two pieces with the same uid and imgs are the same text
    labels where the text came from
    cs     characters the underlying text may contain
    imgs   character homomorphism applied to it: {(char, image)}
    lo, hi length bounds of the underlying text (hi None: unbounded)
    ops    other operations applied on the way
    span   (base uid, start, end) when it is a known substring of another text
    consts when the value is one of a few constants, those constants
    """
    __slots__ = ('uid', 'labels', 'cs', 'imgs', 'lo', 'hi', 'ops', 'span',
                 'consts')
    fields = ('uid', 'labels', 'cs', 'imgs', 'lo', 'hi', 'ops', 'span',
              'consts')

    def __init__(self, uid, labels=frozenset(), cs=ALL, imgs=frozenset(),
                 lo=0, hi=None, ops=frozenset(), span=None, consts=None):
        self.uid = kt(uid)
        self.labels = frozenset(labels)
        self.cs = cs
        self.imgs = frozenset(imgs)
        self.lo = lo
        self.hi = hi
        self.ops = frozenset(ops)
        self.span = span
        self.consts = consts

    def but(self, **kw):
        d = dict((f, getattr(self, f)) for f in self.fields)
        d.update(kw)
        return P(**d)

    def key(self):
        return (self.uid, self.imgs, self.ops, self.labels, self.cs, self.lo,
                self.hi, self.span, self.consts)

    def __repr__(self):
        return 'P<%s%s%s%s>' % (
            show_key(self.uid),
            ' lo=%d' % self.lo if self.lo else '',
            ' ops=%s' % sorted(map(str, self.ops)) if self.ops else '',
            ' imgs=%s' % sorted(self.imgs) if self.imgs else '')


class S(V):
    """a string: concatenation of literal text and pieces (at least one)"""
    __slots__ = ('p',)
    fields = ('p',)

    def __init__(self, p):
        self.p = tuple(p)


def mkstr(parts):
    out = []
    for x in parts:
        if isinstance(x, str):
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        else:
            out.append(x)
    if not out:
        return EMPTYSTR
    if len(out) == 1 and isinstance(out[0], str):
        return C(out[0])
    return S(out)


def parts(v):
    """pieces of a string value, None when it is not a string"""
    if isinstance(v, C) and isinstance(v.v, str):
        return (v.v,) if v.v else ()
    if isinstance(v, S):
        return v.p
    return None


class I(V):
    """integer: k + sum of coefficient*symbol"""
    __slots__ = ('lin', 'k')
    fields = ('lin', 'k')

    def __init__(self, lin, k):
        self.lin = lin
        self.k = k

    def __repr__(self):
        s = '+'.join('%s%s' % ('' if c == 1 else '%d*' % c, show_key(x))
                     for x, c in self.lin)
        return 'I<%s%+d>' % (s, self.k)


def toI(v):
    if isinstance(v, I):
        return v
    if isinstance(v, C) and isinstance(v.v, int):
        return I((), int(v.v))
    return None


_order = {}


def _ord(s):
    r = _order.get(s)
    if r is None:
        r = _order[s] = len(_order)
    return r


def mkint(d, k):
    lin = tuple(sorted(((s, c) for s, c in d.items() if c),
                       key=lambda x: _ord(x[0])))
    if not lin:
        return C(k)
    return I(lin, k)


def symint(name):
    return I(((kt(name), 1),), 0)


def iadd(a, b, sign=1):
    if type(b) is C and type(a) is I:
        return I(a.lin, a.k + sign * int(b.v))
    if type(a) is C and type(b) is C:
        return C(int(a.v) + sign * int(b.v))
    a, b = toI(a), toI(b)
    d = dict(a.lin)
    for s, c in b.lin:
        d[s] = d.get(s, 0) + sign * c
    return mkint(d, a.k + sign * b.k)


def isub(a, b):
    return iadd(a, b, -1)


def imulc(a, k):
    a = toI(a)
    return mkint(dict((s, c * k) for s, c in a.lin), a.k * k)


class B(V):
    """symbolic boolean"""
    __slots__ = ('k', 'neg')
    fields = ('k', 'neg')

    def __init__(self, k, neg=False):
        self.k = k
        self.neg = neg


class R(V):
    """reference to a heap object"""
    __slots__ = ('oid',)
    fields = ('oid',)

    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return 'R(%s)' % (show_key(self.oid),)


class TD(V):
    """kinds a symbolic value may have"""
    __slots__ = ('none', 'objs', 'str', 'int', 'bool', 'lst', 'top', 'nk')
    fields = ('none', 'objs', 'str', 'int', 'bool', 'lst', 'top')

    def __init__(self, none=False, objs=frozenset(), str=None, int=None,
                 bool=False, lst=None, top=False):
        self.none = none
        self.objs = frozenset(objs)
        self.str = str      # (cs, lo, consts or None, labels)
        self.int = int      # (lo, hi)
        self.bool = bool
        self.lst = lst      # element TD
        self.top = top
        self.nk = ((1 if none else 0) + len(self.objs) + (str is not None) +
                   (int is not None) + (1 if bool else 0) +
                   (lst is not None) + (1 if top else 0))

    def but(self, **kw):
        d = dict((f, getattr(self, f)) for f in self.fields)
        d.update(kw)
        return TD(**d)

    def nkinds(self):
        return self.nk

    def join(self, o):
        s = self.str
        if s is None:
            s = o.str
        elif o.str is not None:
            c = None
            if s[2] is not None and o.str[2] is not None:
                c = s[2] | o.str[2]
                if len(c) > 60:
                    c = None
            s = (s[0] | o.str[0], min(s[1], o.str[1]), c, s[3] | o.str[3])
        i = self.int
        if i is None:
            i = o.int
        elif o.int is not None:
            i = (None if i[0] is None or o.int[0] is None
                 else min(i[0], o.int[0]),
                 None if i[1] is None or o.int[1] is None
                 else max(i[1], o.int[1]))
        l = self.lst
        if l is None:
            l = o.lst
        elif o.lst is not None:
            l = l.join(o.lst)
        return TD(self.none or o.none, self.objs | o.objs, s, i,
                  self.bool or o.bool, l, self.top or o.top)

    def __repr__(self):
        out = []
        if self.top:
            out.append('?')
        if self.none:
            out.append('None')
        if self.bool:
            out.append('bool')
        if self.int is not None:
            out.append('int%r' % (self.int,))
        if self.str is not None:
            out.append('str(%s%s)' % (
                self.str[0], '' if self.str[2] is None else
                ' in %s' % sorted(self.str[2])))
        out.extend(sorted(map(str, self.objs)))
        if self.lst is not None:
            out.append('[%r]' % self.lst)
        return '|'.join(out) or 'bottom'


BOTTOM = TD()
ANYTD = TD(top=True)


def strtd(cs=ALL, lo=0, consts=None, labels=frozenset()):
    return TD(str=(cs, lo, consts, frozenset(labels)))


def objtd(*names):
    return TD(objs=names)


class Sy(V):
    """opaque symbolic value named by an access path"""
    __slots__ = ('k', 'td')
    fields = ('k', 'td')

    def __init__(self, k, td=ANYTD):
        self.k = kt(k) if isinstance(k, tuple) else kt((k,))
        self.td = td

    def key(self):
        return (self.k,)

    def __repr__(self):
        return 'Sy(%s:%r)' % (show_key(self.k), self.td)


_depth = [0]


def show_key(k):
    """readable form of a key, cut off below some nesting"""
    if not _depth[0] and type(k) is Kt:
        try:
            return k._s
        except AttributeError:
            k._s = show_part(k)
            return k._s
    return show_part(k)


def show_part(k):
    if _depth[0] > 7:
        return '..'
    _depth[0] += 1
    try:
        if isinstance(k, tuple):
            return ''.join('(' + show_key(x) + ')' if isinstance(x, tuple)
                           else show_key(x) + (
                               ' ' if isinstance(x, int) else '')
                           for x in k)
        return str(k)
    finally:
        _depth[0] -= 1


class Fn(V):
    """function: FuncInfo + captured frame oid + evaluated defaults"""
    __slots__ = ('info', 'env', 'defaults', 'kind')
    fields = ('info', 'env')

    def __init__(self, info, env=None, defaults=None, kind=None):
        self.info = info
        self.env = env
        self.defaults = defaults or {}
        self.kind = kind        # None / 'static' / 'class' / 'property'

    def key(self):
        return (id(self.info), self.env, self.kind)

    def __repr__(self):
        return 'Fn(%s)' % self.info.qual


class BM(V):
    __slots__ = ('fn', 'self')
    fields = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn = fn
        self.self = self_


class K(V):
    """class"""
    __slots__ = ('info',)
    fields = ('info',)

    def __init__(self, info):
        self.info = info

    def key(self):
        return (id(self.info),)

    def __repr__(self):
        return 'K(%s)' % self.info.name


class BI(V):
    """builtin / modelled library callable or object"""
    __slots__ = ('name', 'self')
    fields = ('name', 'self')

    def __init__(self, name, self_=None):
        self.name = name
        self.self = self_


class RX(V):
    __slots__ = ('pattern', 'flags')
    fields = ('pattern', 'flags')

    def __init__(self, pattern, flags):
        self.pattern = pattern
        self.flags = int(flags)


class MT(V):
    """successful match of rx on subject (mode search/match/fullmatch)"""
    __slots__ = ('rx', 'subj', 'mode', 'uid', 'start', 'end')
    fields = ('uid',)

    def __init__(self, rx, subj, mode, uid, start, end):
        self.rx = rx
        self.subj = subj
        self.mode = mode
        self.uid = uid
        self.start = start
        self.end = end


class Tup(V):
    __slots__ = ('items',)
    fields = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class U(V):
    """one of several values"""
    __slots__ = ('alts',)
    fields = ('alts',)

    def __init__(self, alts):
        self.alts = frozenset(alts)


def mkunion(vs):
    out = set()
    for v in vs:
        if isinstance(v, T):
            return v
        if isinstance(v, U):
            out |= v.alts
        else:
            out.add(v)
    if len(out) == 1:
        return next(iter(out))
    if len(out) > 24:
        return TOP
    return U(out)


class T(V):
    """anything"""
    __slots__ = ('why',)
    fields = ()

    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'T(%s)' % self.why


TOP = T()


class SuperV(V):
    __slots__ = ('cls', 'obj')
    fields = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Exc(object):
    """an exception outcome"""
    __slots__ = ('name', 'node', 'detail', 'where', 'value')

    def __init__(self, name, node=None, detail='', where=None, value=None):
        self.name = name
        self.node = node
        self.detail = detail
        self.where = where
        self.value = value

    def __repr__(self):
        return 'Exc(%s %s @%s)' % (self.name, self.detail, self.where)


def isexc(v):
    return isinstance(v, Exc)
