"""Abstract program state."""
from .values import *
from . import lin


class Obj(object):
    """abstract heap object (immutable; replaced on write)"""
    __slots__ = ('kind', 'cls', 'fields', 'items', 'rest', 'site')

    def __init__(self, kind, cls=None, fields=None, items=None, rest=None,
                 site=None):
        self.kind = kind        # inst/dict/list/set/frame/module/class/iter
        self.cls = cls          # ClassInfo / function for frames
        self.fields = fields if fields is not None else {}
        self.items = items      # list: tuple or None; dict: {const key: V}
        self.rest = rest        # summary of unknown elements
        self.site = site

    def but(self, **kw):
        d = dict((f, getattr(self, f)) for f in self.__slots__)
        d.update(kw)
        return Obj(**d)

    def __eq__(self, o):
        return self is o or (
            isinstance(o, Obj) and self.kind == o.kind and
            self.cls is o.cls and self.fields == o.fields and
            self.items == o.items and self.rest == o.rest)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return 'Obj(%s %s %r %r %r)' % (
            self.kind, getattr(self.cls, 'name', self.cls), self.fields,
            self.items, self.rest)


class Nar(object):
    """narrowing of a piece: charset, length bounds, allowed/denied values"""
    __slots__ = ('cs', 'lo', 'hi', 'allow', 'deny')

    def __init__(self, cs, lo, hi, allow, deny):
        self.cs = cs
        self.lo = lo
        self.hi = hi
        self.allow = allow
        self.deny = deny

    def tup(self):
        return (self.cs, self.lo, self.hi, self.allow, self.deny)

    def __eq__(self, o):
        return self is o or self.tup() == o.tup()

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class St(object):
    __slots__ = ('eng', 'heap', 'nar', 'facts', 'kind', 'ge', 'sy', 'epoch',
                 'ev', 'fr', 'stack', 'visits', 'order')

    def __init__(self, eng):
        self.eng = eng
        self.heap = {}
        self.nar = {}
        self.facts = {}
        self.kind = {}
        self.ge = frozenset()
        self.sy = {}
        self.epoch = {}
        self.ev = None
        self.fr = None
        self.stack = ()
        self.visits = {}
        self.order = ()

    def copy(self):
        s = St.__new__(St)
        s.eng = self.eng
        s.heap = dict(self.heap)
        s.nar = dict(self.nar)
        s.facts = dict(self.facts)
        s.kind = dict(self.kind)
        s.ge = self.ge
        s.sy = dict(self.sy)
        s.epoch = dict(self.epoch)
        s.ev = self.ev
        s.fr = self.fr
        s.stack = self.stack
        s.visits = dict(self.visits)
        s.order = self.order
        return s

    # -- heap ------------------------------------------------------------
    def obj(self, oid):
        o = self.heap.get(oid)
        if o is None:
            o = self.eng.base.get(oid)
        return o

    def put(self, oid, o):
        self.heap[oid] = o

    def alloc(self, site, o):
        n = 0
        while self.obj((site, n)) is not None:
            n += 1
        oid = (site, n)
        o.site = site
        self.heap[oid] = o
        return R(oid)

    # -- events ----------------------------------------------------------
    def event(self, e):
        self.ev = (self.ev, e)

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    # -- linear facts ----------------------------------------------------
    def assume_ge0(self, v):
        """v >= 0; False when contradictory"""
        i = toI(v)
        if not i.lin:
            return i.k >= 0
        f = (i.lin, i.k)
        if f in self.ge:
            return True
        if not lin.consistent(self.ge, f):
            return False
        if not lin.prove(self.ge, f):
            self.ge = self.ge | {f}
        return True

    def prove_ge0(self, v):
        i = toI(v)
        if i is None:
            return False
        if not i.lin:
            return i.k >= 0
        return lin.prove(self.ge, (i.lin, i.k))

    def prove_le(self, a, b):
        return self.prove_ge0(isub(b, a))

    def prove_lt(self, a, b):
        return self.prove_ge0(iadd(isub(b, a), C(-1)))

    def prove_eq(self, a, b):
        d = isub(a, b)
        if isinstance(d, C):
            return d.v == 0
        return self.prove_ge0(d) and self.prove_ge0(imulc(d, -1))

    # -- merging ---------------------------------------------------------
    def same_store(self, o):
        return (self.fr == o.fr and self.stack == o.stack and
                self.sy == o.sy and self.epoch == o.epoch and
                self.ev is o.ev and self.heap == o.heap)


def join_nar(a, b):
    al = None
    if a.allow is not None and b.allow is not None:
        al = a.allow | b.allow
    return Nar(a.cs | b.cs, min(a.lo, b.lo),
               None if a.hi is None or b.hi is None else max(a.hi, b.hi),
               al, a.deny & b.deny)


def weaken(a, b):
    """common facts of two states with the same store"""
    s = a.copy()
    s.facts = {k: v for k, v in a.facts.items()
               if k in b.facts and b.facts[k] == v}
    s.order = tuple(x for x in a.order if x in s.facts)
    s.kind = {k: v for k, v in a.kind.items()
              if k in b.kind and b.kind[k] == v}
    s.nar = {}
    for k, v in a.nar.items():
        w = b.nar.get(k)
        if w is not None:
            s.nar[k] = join_nar(v, w)
    ge = set(a.ge & b.ge)
    for f in a.ge - b.ge:
        if lin.prove(b.ge, f):
            ge.add(f)
    for f in b.ge - a.ge:
        if lin.prove(a.ge, f):
            ge.add(f)
    s.ge = frozenset(ge)
    for k, v in b.visits.items():
        s.visits[k] = max(v, s.visits.get(k, 0))
    return s


def merge(pairs):
    """merge (state, value) results that differ only in facts"""
    out = []
    for st, v in pairs:
        for i, (s2, v2) in enumerate(out):
            if (v is v2 or (not isexc(v) and not isexc(v2) and v == v2) or
                    (isexc(v) and isexc(v2) and v.name == v2.name and
                     v.node is v2.node and v.detail == v2.detail)) and \
                    st.same_store(s2):
                out[i] = (weaken(s2, st), v2)
                break
        else:
            out.append((st, v))
    return out
