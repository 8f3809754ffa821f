"""Path-partitioned abstract interpreter over the repository's syntax trees.

Nothing of the analysed package is imported or executed: modules are parsed
and their top level is evaluated over abstract values.
"""
import ast
import sys

from .values import *
from .charset import CharSet, ALL, EMPTY
from .state import St, Obj, Nar, merge, weaken
from . import lin, loader
from .loader import FuncInfo, ClassInfo, nid
from .models import Models

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """the analysis cannot be carried out (anchor missing, budget)"""


class Budget(Exception):
    pass


EXC_BASES = {
    'IndexError': ('LookupError', 'Exception', 'BaseException'),
    'KeyError': ('LookupError', 'Exception', 'BaseException'),
    'LookupError': ('Exception', 'BaseException'),
    'StopIteration': ('Exception', 'BaseException'),
    'AttributeError': ('Exception', 'BaseException'),
    'TypeError': ('Exception', 'BaseException'),
    'NameError': ('Exception', 'BaseException'),
    'UnboundLocalError': ('NameError', 'Exception', 'BaseException'),
    'ValueError': ('Exception', 'BaseException'),
    'UnicodeError': ('ValueError', 'Exception', 'BaseException'),
    'UnicodeEncodeError': ('UnicodeError', 'ValueError', 'Exception',
                           'BaseException'),
    'UnicodeDecodeError': ('UnicodeError', 'ValueError', 'Exception',
                           'BaseException'),
    'AssertionError': ('Exception', 'BaseException'),
    'RuntimeError': ('Exception', 'BaseException'),
    'RecursionError': ('RuntimeError', 'Exception', 'BaseException'),
    'NotImplementedError': ('RuntimeError', 'Exception', 'BaseException'),
    'ImportError': ('Exception', 'BaseException'),
    'ZeroDivisionError': ('ArithmeticError', 'Exception', 'BaseException'),
    'OverflowError': ('ArithmeticError', 'Exception', 'BaseException'),
    'SystemExit': ('BaseException',),
    'OSError': ('Exception', 'BaseException'),
    'Exception': ('BaseException',),
    'BaseException': (),
}

BUILTIN_NAMES = set('''len str int bool float dict list tuple set frozenset
isinstance issubclass hasattr getattr setattr delattr print range repr sorted
reversed enumerate zip map filter min max sum any all abs chr ord iter next
super type object property staticmethod classmethod id hash callable open
exit quit vars dir format divmod round pow input bytes bytearray memoryview
slice globals locals hex oct bin ascii __import__ reload unicode unichr
NotImplemented Ellipsis'''.split()) | set(EXC_BASES)


_dict_names = {}


def same_text(a, b):
    """the same pieces, of which the two sides know different bounds"""
    if len(a.p) != len(b.p):
        return None
    out = []
    for x, y in zip(a.p, b.p):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return None
            out.append(x)
            continue
        if (x.uid, x.imgs, x.ops, x.span, x.labels) != (
                y.uid, y.imgs, y.ops, y.span, y.labels):
            return None
        out.append(x.but(
            cs=x.cs | y.cs, lo=min(x.lo, y.lo),
            hi=None if x.hi is None or y.hi is None else max(x.hi, y.hi),
            consts=x.consts if x.consts == y.consts else None))
    return S(out)


class Interp(Models):

    CAP = None
    MERGE_AT = None          # merge states when a block yields more than this
    BUDGET = 700000
    UNROLL = 24
    INLINE_DEPTH = 40

    def __init__(self, repo=None):
        self.repo = repo or loader.REPO
        self.files = loader.module_files(self.repo)
        self.base = {}
        self.classes = {}        # qual -> ClassInfo
        self.funcs = {}          # qual -> FuncInfo
        self.trees = {}
        self.hooks = {}
        self.intercepts = {}     # qual -> f(eng, st, fn, args, kw, node)
        self.cut = None          # f(FuncInfo) -> bool : use summary
        self.types = {}          # type name -> {attr: TD}
        self.copied = set()     # dict types that are copies of others
        self.types_dirty = False
        self.version = 0
        self.stamp = {}
        self.infer = False
        self.fills = None
        self.dict_always = {}    # dict type -> keys present from birth on
        self.keep_keys = False   # no code removes dictionary keys
        self.singletons = set()
        self.contract = None     # f(typename, attr) -> TD or None
        self.steps = 0
        self.unknowns = {}
        self.loading = None
        self.spanlang = {}
        self.regexes = {}
        self.modstate = St(self)
        self._ncls = 0
        self._modsets = {}
        self._choice = 0
        self.called = set()
        self.mt_groups = {}
        self.key_type = {}       # key of a symbolic object -> its type
        self.reads = None        # set of type table entries consulted

    # ------------------------------------------------------------ loading
    def load_all(self):
        for name in sorted(self.files):
            if name.endswith('entitytrans') or name.endswith('.cmark'):
                continue
            self.import_module(name)
        self.finish_load()
        return self

    def finish_load(self):
        self.base.update(self.modstate.heap)
        self.modstate.heap = {}

    def import_module(self, name):
        oid = ('mod', name)
        if self.modstate.obj(oid) is not None:
            return R(oid)
        path = self.files.get(name)
        if path is None:
            return BI('mod:' + name)
        if '.' in name:
            self.import_module(name.rsplit('.', 1)[0])
            if self.modstate.obj(oid) is not None:
                return R(oid)
        tree, src = loader.parse(path)
        self.trees[name] = (tree, src, path)
        st = self.modstate
        st.put(oid, Obj('module', name, {'__name__': C(name),
                                         '__doc__': NONE}, site=oid))
        saved = (st.fr, st.stack, self.loading)
        st.fr, st.stack, self.loading = oid, ('<module %s>' % name,), name
        try:
            self.exec_module(tree.body, oid)
        finally:
            st = self.modstate
            st.fr, st.stack, self.loading = saved
        if '.' in name:
            pk, short = name.rsplit('.', 1)
            po = st.obj(('mod', pk))
            if po is not None:
                f = dict(po.fields)
                f.setdefault(short, R(oid))
                st.put(('mod', pk), po.but(fields=f))
        return R(oid)

    def exec_module(self, body, oid):
        for s in body:
            st = self.modstate
            res = self.ex(s, st)
            live = [a for a, c in res if not isexc(c)]
            if not live:
                # every outcome raises: the module cannot be loaded
                self.unknown(s, 'module statement always raises')
                continue
            self.modstate = self.join_modules(live)
            self.modstate.ev = None

    def join_modules(self, sts):
        if len(sts) == 1:
            return sts[0]
        out = sts[0].copy()
        self._choice += 1
        cid = ('choice', self._choice)
        keys = set()
        for s in sts:
            keys |= set(s.heap)
        for k in keys:
            os_ = [s.obj(k) for s in sts]
            if any(o is None for o in os_):
                out.heap[k] = next(o for o in os_ if o is not None)
                continue
            if all(o == os_[0] for o in os_):
                out.heap[k] = os_[0]
                continue
            o = os_[0]
            f = {}
            for name in set().union(*[set(x.fields) for x in os_]):
                vs = [x.fields.get(name) for x in os_]
                vs = [v for v in vs if v is not None]
                f[name] = vs[0] if all(v == vs[0] for v in vs) \
                    else mkunion(vs)
            out.heap[k] = o.but(fields=f)
        out.facts, out.nar, out.kind, out.ge = {}, {}, {}, frozenset()
        out.order = ()
        return out

    # ------------------------------------------------------------ helpers
    def hook(self, name, st, /, **kw):
        for f in self.hooks.get(name, ()):
            f(st, **kw)

    def unknown(self, node, why):
        key = (why, getattr(node, 'lineno', 0), self.loading)
        self.unknowns[key] = self.unknowns.get(key, 0) + 1

    def new_state(self):
        return St(self)

    def where(self, st, node):
        return (st.stack[-1] if st.stack else '?',
                getattr(node, 'lineno', 0))

    def module_attr(self, mod, name):
        o = self.base.get(('mod', mod)) or self.modstate.obj(('mod', mod))
        if o is None or name not in o.fields:
            raise AnalysisError('no %s in module %s' % (name, mod))
        return o.fields[name]

    def public(self, name):
        """object exported by the package under its documented name"""
        return self.module_attr(loader.PKG, name)

    def tick(self):
        self.steps += 1
        if self.steps > self.BUDGET:
            raise Budget('step budget exhausted')

    def seq(self, exprs, st):
        """evaluate expressions left to right -> [(st, [values]) | exc]"""
        res = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vs in res:
                if isexc(vs):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s):
                    nxt.append((s2, v) if isexc(v) else (s2, vs + [v]))
            res = nxt
        return res

    def bind(self, results, f):
        out = []
        for s, v in results:
            if isexc(v):
                out.append((s, v))
            else:
                out.extend(f(s, v))
        return out

    # ------------------------------------------------------------- values
    def rp(self, st, p):
        """piece with the state's narrowing applied (or literal text)"""
        n = st.nar.get(p.uid)
        if n is None:
            if p.consts is not None and len(p.consts) == 1 and not p.ops:
                return self.apply_imgs(next(iter(p.consts)), p.imgs)
            if p.hi == 0 and not p.ops:
                return ''
            return p
        cs = p.cs & n.cs
        lo = max(p.lo, n.lo)
        hi = p.hi if n.hi is None else (
            n.hi if p.hi is None else min(p.hi, n.hi))
        allow = p.consts
        if n.allow is not None:
            allow = n.allow if allow is None else allow & n.allow
        if allow is not None and n.deny:
            allow = allow - n.deny
        if allow is not None and len(allow) == 1:
            return self.apply_imgs(next(iter(allow)), p.imgs)
        if hi == 0:
            return ''
        if cs == p.cs and lo == p.lo and hi == p.hi and allow == p.consts:
            return p
        return p.but(cs=cs, lo=lo, hi=hi, consts=allow)

    @staticmethod
    def apply_imgs(text, imgs):
        if not imgs:
            return text
        m = dict(imgs)
        return ''.join(m.get(c, c) for c in text)

    def nv(self, st, v):
        """normalise a value under the state's knowledge"""
        if isinstance(v, S):
            out = [x if isinstance(x, str) else self.rp(st, x) for x in v.p]
            return self.mkstr(st, out)
        if isinstance(v, Sy):
            k = st.kind.get(v.k)
            if k is not None:
                return self.kind_value(st, v, k)
            if v.td.nkinds() == 1 and not v.td.top:
                return self.kind_value(st, v, self.kinds(v.td)[0])
            return v
        if isinstance(v, B):
            f = st.facts.get(v.k)
            if f is not None:
                return TRUE if f != v.neg else FALSE
        if isinstance(v, U):
            k = st.kind.get(('U', v))
            if k is not None:
                return k
        return v

    def mkstr(self, st, ps):
        """concatenate, fusing adjacent known substrings of one text"""
        out = []
        for x in ps:
            if out and isinstance(x, P) and isinstance(out[-1], P) and \
               x.span and out[-1].span and not x.imgs and \
               not out[-1].imgs and not x.ops and not out[-1].ops:
                a, b = out[-1], x
                if a.span[0] == b.span[0] and \
                   st.prove_eq(a.span[2], b.span[1]):
                    out[-1] = self.sub_piece(
                        st, a.span[0], a.span[1], b.span[2],
                        a.labels | b.labels, a.cs | b.cs,
                        a.lo + b.lo, None if a.hi is None or b.hi is None
                        else a.hi + b.hi)
                    continue
            out.append(x)
        return mkstr(out)

    @staticmethod
    def kinds(td):
        out = []
        if td.none:
            out.append(('none',))
        for o in sorted(td.objs):
            out.append(('obj', o))
        if td.str is not None:
            out.append(('str',))
        if td.int is not None:
            out.append(('int',))
        if td.bool:
            out.append(('bool',))
        if td.lst is not None:
            out.append(('lst',))
        if td.top:
            out.append(('top',))
        return out

    def kind_value(self, st, v, k):
        td = v.td
        if k[0] == 'none':
            return NONE
        if k[0] == 'obj':
            return Sy(v.k, TD(objs=(k[1],)))
        if k[0] == 'str':
            if td.str is None:
                return S([P(v.k)])
            cs, lo, consts, labels = td.str
            if consts is not None and len(consts) == 1:
                return C(next(iter(consts)))
            p = P(v.k, labels=labels, cs=cs, lo=lo, consts=consts)
            r = self.rp(st, p)
            return mkstr([r])
        if k[0] == 'int':
            n = symint(v.k)
            lo, hi = td.int if td.int is not None else (None, None)
            if lo is not None and lo == hi:
                return C(lo)
            if lo is not None:
                st.ge = st.ge | {(n.lin, -lo)}
            if hi is not None:
                st.ge = st.ge | {(((v.k, -1),), hi)}
            return n
        if k[0] == 'bool':
            b = B(('b', v.k))
            f = st.facts.get(b.k)
            return b if f is None else (TRUE if f else FALSE)
        if k[0] == 'lst':
            return Sy(v.k, TD(lst=td.lst))
        return Sy(v.k, ANYTD)

    def split(self, st, v):
        """fork on the kinds a value may have -> [(st, concrete-kind value)]"""
        v = self.nv(st, v)
        if isinstance(v, Sy):
            ks = self.kinds(v.td)
            if len(ks) == 1:
                return [(st, self.kind_value(st, v, ks[0]))]
            if not ks:
                return []
            out = []
            for k in ks:
                s = st.copy()
                s.kind[v.k] = k
                out.append((s, self.kind_value(s, v, k)))
            return out
        if isinstance(v, U):
            out = []
            for a in sorted(v.alts, key=show_key):
                s = st.copy()
                s.kind[('U', v)] = a
                out.extend(self.split(s, a))
            return out
        return [(st, v)]

    def fork(self, st, key):
        """[(st, True), (st, False)] on an opaque boolean"""
        f = st.facts.get(key)
        if f is not None:
            return [(st, f)]
        a = st.copy()
        a.facts[key] = True
        a.order = a.order + (key,)
        b = st.copy()
        b.facts[key] = False
        b.order = b.order + (key,)
        return [(a, True), (b, False)]

    def truth(self, st, v, node=None):
        """[(st, bool)]"""
        v = self.nv(st, v)
        if isinstance(v, C):
            return [(st, bool(v.v))]
        if isinstance(v, S):
            if any(isinstance(x, str) or x.lo > 0 for x in v.p):
                return [(st, True)]
            if len(v.p) == 1 and not any(i == '' for _, i in v.p[0].imgs):
                p = v.p[0]
                a, b = st.copy(), st.copy()
                out = []
                if self.narrow(a, p, lo=1):
                    out.append((a, True))
                if self.narrow(b, p, hi=0):
                    out.append((b, False))
                return out
            return self.fork(st, ('nonempty', v))
        if isinstance(v, I):
            out = []
            for s, r in self.int_cmp(st, v, C(0), 'eq'):
                out.append((s, not r))
            return out
        if isinstance(v, B):
            return [(s, r != v.neg) for s, r in self.fork(st, v.k)]
        if isinstance(v, R):
            o = st.obj(v.oid)
            if o is None:
                return self.fork(st, ('truth', v))
            if o.kind == 'list' or o.kind == 'set':
                if o.items is not None and o.rest is None:
                    return [(st, len(o.items) > 0)]
                if o.items:
                    return [(st, True)]
                return self.fork(st, ('truth', v, o.rest))
            if o.kind == 'dict':
                if o.items:
                    return [(st, True)]
                if o.rest is None:
                    return [(st, False)]
                return self.fork(st, ('truth', v, o.rest))
            if o.kind == 'inst':
                for nm in ('__bool__', '__len__'):
                    f = self.class_attr(st, o.cls, nm)
                    if f is not None:
                        out = []
                        for s, r in self.call(st, BM(f, v), [], {}, node):
                            if isexc(r):
                                continue
                            out.extend(self.truth(s, r, node))
                        return out
                return [(st, True)]
            return [(st, True)]
        if isinstance(v, Sy):
            td = v.td
            if td.top or td.lst is not None:
                if td.nkinds() == 1:
                    return self.fork(st, ('truth', v.k))
            elif td.nkinds() == 1 and td.objs:
                o = next(iter(td.objs))
                if o.startswith('dict:'):
                    ent = self.type_entry(o)
                    if ent and any(x.startswith('[') and x != '[*]'
                                   for x in ent):
                        return [(st, True)]
                    return self.fork(st, ('truth', v.k))
                info = self.classes.get(o)
                if info is not None:
                    for nm in ('__bool__', '__len__'):
                        f = self.class_attr(st, info, nm)
                        if f is not None:
                            out = []
                            for s, r in self.call(st, BM(f, v), [], {},
                                                  node):
                                if not isexc(r):
                                    out.extend(self.truth(s, r, node))
                            return out
                return [(st, True)]
            out = []
            for s, w in self.split(st, v):
                out.extend(self.truth(s, w, node))
            return out
        if isinstance(v, U):
            out = []
            for s, w in self.split(st, v):
                out.extend(self.truth(s, w, node))
            return out
        if isinstance(v, Tup):
            return [(st, len(v.items) > 0)]
        if isinstance(v, T):
            a, b = st.copy(), st.copy()
            return [(a, True), (b, False)]
        return [(st, True)]

    def narrow(self, st, p, cs=None, lo=None, hi=None, allow=None,
               deny=None):
        """record knowledge about a piece; False when contradictory"""
        n = st.nar.get(p.uid)
        ncs, nlo, nhi, nal, nde = (ALL, 0, None, None, frozenset()) \
            if n is None else n.tup()
        if cs is not None:
            ncs = ncs & cs
        if lo is not None:
            nlo = max(nlo, lo)
        if hi is not None:
            nhi = hi if nhi is None else min(nhi, hi)
        if allow is not None:
            nal = frozenset(allow) if nal is None else nal & allow
        if deny is not None:
            nde = nde | deny
        # consistency with the piece itself
        rcs = ncs & p.cs
        rlo = max(nlo, p.lo)
        rhi = nhi if p.hi is None else (p.hi if nhi is None
                                        else min(nhi, p.hi))
        if rhi is not None and rlo > rhi:
            return False
        if not rcs and rlo > 0:
            return False
        ral = p.consts
        if nal is not None:
            ral = nal if ral is None else ral & nal
        if ral is not None:
            ral = frozenset(x for x in ral if x not in nde and
                            len(x) >= rlo and
                            (rhi is None or len(x) <= rhi) and
                            all(c in rcs for c in x))
            if not ral:
                return False
            if nal is not None or len(ral) < len(p.consts):
                nal = ral
        if rhi == 1 and rlo == 1:
            drop = [x for x in nde if len(x) == 1]
            if drop:
                ncs = ncs - CharSet.of(''.join(drop))
                if not (ncs & p.cs):
                    return False
            if (ncs & p.cs).size() == 1 and nal is None:
                nal = frozenset([(ncs & p.cs).sample()])
        st.nar[p.uid] = Nar(ncs, nlo, nhi, nal, nde)
        # length facts
        ln = self.piece_len(st, p)
        if ln is not None and not isinstance(ln, C):
            if not st.assume_ge0(iadd(ln, C(-rlo))):
                return False
            if rhi is not None and not st.assume_ge0(isub(C(rhi), ln)):
                return False
            if ral is not None and len(ral) == 1:
                k = len(next(iter(ral)))
                if not (st.assume_ge0(iadd(ln, C(-k))) and
                        st.assume_ge0(isub(C(k), ln))):
                    return False
        elif isinstance(ln, C):
            if ln.v < rlo or (rhi is not None and ln.v > rhi):
                return False
        # single characters of known texts inherit knowledge
        return True

    def piece_len(self, st, p):
        """length of the (raw) piece as an integer value"""
        if p.span is not None and not p.imgs:
            return isub(p.span[2], p.span[1])
        if p.lo == p.hi and p.lo is not None:
            return C(p.lo)
        n = st.nar.get(p.uid)
        if n is not None and n.hi is not None and max(n.lo, p.lo) == n.hi:
            return C(n.hi)
        return symint(('len', p.uid))

    def strlen(self, st, v):
        ps = parts(v)
        tot = C(0)
        for x in ps:
            if isinstance(x, str):
                tot = iadd(tot, C(len(x)))
                continue
            x = self.rp(st, x)
            if isinstance(x, str):
                tot = iadd(tot, C(len(x)))
                continue
            if x.imgs and any(len(i) != 1 for _, i in x.imgs):
                tot = iadd(tot, symint(('len', (x.uid, x.imgs))))
                continue
            ln = self.piece_len(st, x)
            if not isinstance(ln, C):
                if x.lo:
                    st.assume_ge0(iadd(ln, C(-x.lo)))
                elif x.span is not None:
                    st.assume_ge0(ln)
                if x.hi is not None:
                    st.assume_ge0(isub(C(x.hi), ln))
            tot = iadd(tot, ln)
        return tot

    # ------------------------------------------------------- type summary
    def td_of(self, st, v, depth=0):
        v = self.nv(st, v)
        if isinstance(v, C):
            if v.v is None:
                return TD(none=True)
            if isinstance(v.v, bool):
                return TD(bool=True)
            if isinstance(v.v, int):
                return TD(int=(v.v, v.v))
            if isinstance(v.v, str):
                return strtd(CharSet.of(v.v), len(v.v),
                             frozenset([v.v]))
            return ANYTD
        if isinstance(v, S):
            cs = EMPTY
            lo = 0
            labels = set()
            consts = None
            for x in v.p:
                if isinstance(x, str):
                    cs = cs | CharSet.of(x)
                    lo += len(x)
                else:
                    x = self.rp(st, x)
                    if isinstance(x, str):
                        cs = cs | CharSet.of(x)
                        lo += len(x)
                        continue
                    cs = cs | self.outcs(x)
                    if not any(i == '' for _, i in x.imgs):
                        lo += x.lo
                    labels |= x.labels
                    if 'opaque' in x.ops:
                        labels.add('opaque')
                    if len(v.p) == 1 and x.consts is not None and \
                       not x.imgs and not x.ops:
                        consts = x.consts
            return strtd(cs, min(lo, 1), consts, labels)
        if isinstance(v, I):
            lo = 0 if st.prove_ge0(v) else None
            if lo == 0 and st.prove_ge0(iadd(v, C(-1))):
                lo = 1
            return TD(int=(lo, None))
        if isinstance(v, B):
            return TD(bool=True)
        if isinstance(v, R):
            o = st.obj(v.oid)
            if o is None:
                return ANYTD
            if o.kind == 'inst':
                return objtd(o.cls.qual)
            if o.kind == 'dict':
                return objtd(self.dict_type(v.oid))
            if o.kind == 'list':
                td = BOTTOM
                if depth < 3:
                    for x in (o.items or ()):
                        td = td.join(self.td_of(st, x, depth + 1))
                    if o.rest is not None:
                        td = td.join(self.td_of(st, o.rest, depth + 1))
                else:
                    td = ANYTD
                return TD(lst=td)
            return ANYTD
        if isinstance(v, Sy):
            return v.td
        if isinstance(v, U):
            td = BOTTOM
            for a in v.alts:
                td = td.join(self.td_of(st, a, depth))
            return td
        if isinstance(v, MT):
            return objtd('@match')
        return ANYTD

    @staticmethod
    def outcs(p):
        cs = p.cs
        for c, img in p.imgs:
            if c in p.cs:
                cs = (cs - CharSet.of(c)) if c not in img else cs
        for c, img in p.imgs:
            if c in p.cs:
                cs = cs | CharSet.of(img)
        return cs

    @staticmethod
    def dict_type(oid):
        site = oid[0] if isinstance(oid, tuple) and len(oid) == 2 and \
            isinstance(oid[1], int) else oid
        try:
            return _dict_names[site]
        except KeyError:
            r = _dict_names[site] = 'dict:' + show_key(site)
            return r

    def type_entry(self, t):
        if self.reads is not None:
            self.reads.add((t, '*'))
        return self.types.get(t) or {}

    def learn(self, tname, attr, td):
        """join td into the type table"""
        if not self.infer:
            return
        ent = self.types.setdefault(tname, {})
        old = ent.get(attr)
        new = td if old is None else old.join(td)
        if new.int is not None and old is not None and old.int is not None \
           and new.int != old.int:
            lo, hi = new.int
            if old.int[0] is not None and (lo is None or lo < old.int[0]):
                lo = None if lo is None or lo < 0 else 0
            if old.int[1] is None or hi is None or hi > old.int[1]:
                hi = None
            new = new.but(int=(lo, hi))
        if old is None or new != old:
            ent[attr] = new
            self.types_dirty = True
            self.version += 1
            self.stamp[(tname, attr)] = self.version
            self.stamp[(tname, '*')] = self.version

    def field_td(self, tname, attr):
        if self.contract is not None:
            td = self.contract(tname, attr)
            if td is not None:
                return td
        ent = self.types.get(tname)
        if self.reads is not None:
            self.reads.add((tname, attr))
        if ent is None:
            return None
        return ent.get(attr)

    def of_td(self, st, key, td):
        if td is None:
            return Sy(key, ANYTD)
        return self.nv(st, Sy(key, td))

    # ------------------------------------------------------------- fields
    def class_attr(self, st, info, name):
        for c in info.mro():
            o = st.obj(c.oid)
            if o is not None and name in o.fields:
                return o.fields[name]
        return None

    def getfield(self, st, sy, attr):
        """field of a symbolic object (typed, one kind)"""
        v = st.sy.get((sy.k, attr))
        if v is not None:
            return self.nv(st, v)
        tname = next(iter(sy.td.objs)) if sy.td.objs else None
        if tname:
            self.key_type[sy.k] = tname
        td = self.field_td(tname, attr) if tname else None
        e = st.epoch.get(attr)
        key = sy.k + (('.' + attr) if e is None else ('.' + attr, e),)
        return self.of_td(st, key, td)

    def setfield(self, st, sy, attr, v, node=None):
        tname = next(iter(sy.td.objs)) if sy.td.objs else None
        if tname:
            self.key_type[sy.k] = tname
            self.learn(tname, attr, self.td_of(st, v))
        if tname not in self.singletons:
            for (k, a) in list(st.sy):
                if a == attr and k != sy.k:
                    del st.sy[(k, a)]
            st.epoch[attr] = ('w', st.visits.get('w', 0))
            st.visits['w'] = st.visits.get('w', 0) + 1
        st.sy[(sy.k, attr)] = v

    def has_field(self, sy, attr):
        tname = next(iter(sy.td.objs)) if sy.td.objs else None
        return tname is not None and self.field_td(tname, attr) is not None

    def getattr(self, st, v, attr, node):
        """[(st, value)]"""
        v = self.nv(st, v)
        if isinstance(v, (R, Sy)) and 'access' in self.hooks:
            self.hook('access', st, obj=v, attr=attr, node=node)
        if isinstance(v, R):
            o = st.obj(v.oid)
            if o is None:
                return [(st, TOP)]
            if o.kind == 'module':
                if attr in o.fields:
                    return [(st, self.nv(st, o.fields[attr]))]
                sub = '%s.%s' % (v.oid[1], attr)
                if sub in self.files:
                    r = st.obj(('mod', sub))
                    if r is not None:
                        return [(st, R(('mod', sub)))]
                return [(st, Exc('AttributeError', node, attr,
                                 self.where(st, node)))]
            if o.kind == 'inst':
                if attr in o.fields:
                    x = self.nv(st, o.fields[attr])
                    return [(st, x)]
                return self.class_lookup(st, o.cls, v, attr, node)
            if o.kind == 'dict':
                return [(st, BI('dict.' + attr, v))]
            if o.kind == 'list':
                return [(st, BI('list.' + attr, v))]
            if o.kind == 'set':
                return [(st, BI('set.' + attr, v))]
            return [(st, TOP)]
        if isinstance(v, K):
            if attr == '__name__':
                return [(st, C(v.info.name))]
            if attr == '__subclasses__':
                return [(st, BI('cls.__subclasses__', v))]
            if attr == '__mro__':
                return [(st, Tup([K(x) for x in v.info.mro()]))]
            x = self.class_attr(st, v.info, attr)
            if x is None:
                if attr in ('__init__', '__new__', '__dict__', '__doc__',
                            '__module__'):
                    return [(st, BI('object.' + attr, v))]
                return [(st, Exc('AttributeError', node, attr,
                                 self.where(st, node)))]
            if isinstance(x, Fn) and x.kind == 'class':
                return [(st, BM(x, v))]
            return [(st, self.nv(st, x))]
        if isinstance(v, Sy):
            if v.td.nkinds() > 1:
                return self.bind(self.split(st, v),
                                 lambda s, w: self.getattr(s, w, attr, node))
            if v.td.objs:
                tname = next(iter(v.td.objs))
                if tname.startswith('dict:'):
                    return [(st, BI('dict.' + attr, v))]
                if (v.k, attr) in st.sy:
                    return [(st, self.nv(st, st.sy[(v.k, attr)]))]
                info = self.classes.get(tname)
                if info is not None:
                    if self.field_td(tname, attr) is None:
                        x = self.class_attr(st, info, attr)
                        if x is not None:
                            return self.class_lookup(st, info, v, attr,
                                                     node)
                        if attr == '__class__':
                            return [(st, K(info))]
                        if attr == '__dict__':
                            return [(st, TOP)]
                        self.hook('noattr', st, obj=v, attr=attr, node=node)
                val = self.getfield(st, v, attr)
                self.hook('getattr', st, obj=v, attr=attr, node=node,
                          value=val)
                return [(st, val)]
            if v.td.lst is not None:
                return [(st, BI('list.' + attr, v))]
            return [(st, self.nv(st, st.sy.get(
                (v.k, attr), Sy(v.k + ('.' + attr,), ANYTD))))]
        if isinstance(v, (S,)) or (isinstance(v, C) and
                                   isinstance(v.v, str)):
            return [(st, BI('str.' + attr, v))]
        if isinstance(v, C) and isinstance(v.v, bytes):
            return [(st, BI('bytes.' + attr, v))]
        if isinstance(v, C):
            if v.v is None:
                self.hook('noneattr', st, attr=attr, node=node)
            return [(st, Exc('AttributeError', node,
                             '%r has no attribute %s' % (v.v, attr),
                             self.where(st, node)))]
        if isinstance(v, RX):
            if attr == 'pattern':
                return [(st, C(v.pattern))]
            if attr == 'flags':
                return [(st, C(v.flags))]
            return [(st, BI('rx.' + attr, v))]
        if isinstance(v, MT):
            if attr == 'string':
                return [(st, v.subj)]
            if attr == 're':
                return [(st, v.rx)]
            return [(st, BI('mt.' + attr, v))]
        if isinstance(v, BI):
            if v.self is None and v.name.startswith('mod:'):
                return [(st, self.lib_attr(v.name[4:] + '.' + attr))]
            if v.self is None and not v.name.startswith('mod:') and \
               v.name in ('str', 'dict', 'list', 'object', 'bytes'):
                return [(st, BI('unbound:%s.%s' % (v.name, attr)))]
            return [(st, BI(v.name + '.' + attr, v.self))]
        if isinstance(v, SuperV):
            mro = v.obj_mro if hasattr(v, 'obj_mro') else None
            info = self.inst_class(st, v.obj)
            mro = info.mro() if info is not None else v.cls.mro()
            seen = False
            for c in mro:
                if seen:
                    o = st.obj(c.oid)
                    if o is not None and attr in o.fields:
                        f = o.fields[attr]
                        if isinstance(f, Fn) and f.kind == 'static':
                            return [(st, f)]
                        return [(st, BM(f, v.obj)
                                 if isinstance(f, Fn) else f)]
                if c is v.cls:
                    seen = True
            return [(st, BI('object.' + attr, v.obj))]
        if isinstance(v, (U,)):
            return self.bind(self.split(st, v),
                             lambda s, w: self.getattr(s, w, attr, node))
        if isinstance(v, Tup):
            return [(st, BI('tuple.' + attr, v))]
        if isinstance(v, (Fn, BM)):
            if attr == '__name__':
                f = v if isinstance(v, Fn) else v.fn
                return [(st, C(getattr(f, 'info', f).name))]
            return [(st, BI('fn.' + attr, v))]
        if isinstance(v, (I, B)):
            return [(st, BI('int.' + attr, v))]
        return [(st, TOP)]

    def inst_class(self, st, v):
        if isinstance(v, R):
            o = st.obj(v.oid)
            if o is not None and o.kind == 'inst':
                return o.cls
        if isinstance(v, Sy) and v.td.objs:
            return self.classes.get(next(iter(v.td.objs)))
        if isinstance(v, K):
            return v.info
        return None

    def class_lookup(self, st, info, self_, attr, node):
        x = self.class_attr(st, info, attr)
        if x is None:
            if attr == '__class__':
                return [(st, K(info))]
            if attr == '__dict__':
                return [(st, BI('inst.__dict__', self_))]
            ga = self.class_attr(st, info, '__getattr__')
            if ga is not None:
                return self.call(st, BM(ga, self_), [C(attr)], {}, node)
            if attr == '__init__':
                return [(st, BI('object.__init__', self_))]
            return [(st, Exc('AttributeError', node, attr,
                             self.where(st, node)))]
        if isinstance(x, Fn):
            if x.kind == 'static':
                return [(st, x)]
            if x.kind == 'class':
                return [(st, BM(x, K(info)))]
            if x.kind == 'property':
                return self.call(st, BM(x, self_), [], {}, node)
            return [(st, BM(x, self_))]
        return [(st, self.nv(st, x))]

    def setattr(self, st, v, attr, val, node):
        """[(st, None | exc)]"""
        v = self.nv(st, v)
        if isinstance(v, Sy) and v.td.nkinds() > 1 or isinstance(v, U):
            return self.bind(self.split(st, v),
                             lambda s, w: self.setattr(s, w, attr, val,
                                                       node))
        if isinstance(v, R):
            o = st.obj(v.oid)
            self.hook('setattr', st, obj=v, attr=attr, value=val, node=node,
                      o=o)
            if o is not None and o.kind in ('inst', 'module'):
                if o.kind == 'inst':
                    x = self.class_attr(st, o.cls, attr)
                    if isinstance(x, Fn) and x.kind == 'property':
                        return [(st, None)]
                    self.learn(o.cls.qual, attr, self.td_of(st, val))
                f = dict(o.fields)
                f[attr] = val
                st.put(v.oid, o.but(fields=f))
            return [(st, None)]
        if isinstance(v, K):
            self.hook('setattr', st, obj=v, attr=attr, value=val, node=node,
                      o=None)
            o = st.obj(v.info.oid)
            f = dict(o.fields)
            f[attr] = val
            st.put(v.info.oid, o.but(fields=f))
            return [(st, None)]
        if isinstance(v, Sy):
            self.hook('setattr', st, obj=v, attr=attr, value=val, node=node,
                      o=None)
            self.setfield(st, v, attr, val, node)
            return [(st, None)]
        if isinstance(v, C) and v.v is None:
            return [(st, Exc('AttributeError', node,
                             'assignment to attribute of None',
                             self.where(st, node)))]
        self.hook('setattr', st, obj=v, attr=attr, value=val, node=node,
                  o=None)
        return [(st, None)]

    # -------------------------------------------------------------- names
    def lookup(self, st, name, node):
        oid = st.fr
        while oid is not None:
            o = st.obj(oid)
            if o is None:
                break
            if o.kind == 'frame':
                if name in o.fields:
                    return [(st, self.nv(st, o.fields[name]))]
                info = o.cls
                if info is not None and name in info.locals:
                    return [(st, Exc('UnboundLocalError', node, name,
                                     self.where(st, node)))]
                oid = o.site
                continue
            if o.kind == 'clsframe':
                if name in o.fields:
                    return [(st, self.nv(st, o.fields[name]))]
                oid = o.site
                continue
            if o.kind == 'module':
                if name in o.fields:
                    return [(st, self.nv(st, o.fields[name]))]
                break
            break
        if name in ('True', 'False', 'None'):
            return [(st, C({'True': True, 'False': False,
                            'None': None}[name]))]
        if name in BUILTIN_NAMES:
            return [(st, BI(name))]
        if name in ('__name__',):
            return [(st, C('?'))]
        if name in ('__file__',):
            return [(st, TOP)]
        return [(st, Exc('NameError', node, name, self.where(st, node)))]

    def assign_name(self, st, name, val):
        oid = st.fr
        o = st.obj(oid)
        if o.kind == 'frame' and o.cls is not None:
            info = o.cls
            if name in info.globals:
                oid = ('mod', info.mod)
                o = st.obj(oid)
                self.hook('setattr', st, obj=R(oid), attr=name, value=val,
                          node=None, o=o)
            elif name in info.nonlocals:
                oid = o.site
                while True:
                    o = st.obj(oid)
                    if o is None or o.kind != 'frame' or \
                       name in o.fields or name in o.cls.locals:
                        break
                    oid = o.site
                if o is None:
                    return
        f = dict(o.fields)
        f[name] = val
        st.put(oid, o.but(fields=f))

    def assign(self, st, target, val, node=None):
        """[(st, None|exc)]"""
        if isinstance(target, ast.Name):
            self.assign_name(st, target.id, val)
            return [(st, None)]
        if isinstance(target, ast.Attribute):
            return self.bind(self.ev(target.value, st),
                             lambda s, o: self.setattr(s, o, target.attr,
                                                       val, target))
        if isinstance(target, ast.Subscript):
            def go(s, vs):
                return self.setitem(s, vs[0], vs[1], val, target)
            if isinstance(target.slice, ast.Slice):
                return self.bind(
                    self.ev(target.value, st),
                    lambda s, o: self.mutate(s, o, 'slice-assign', [val],
                                             target))
            return self.bind(self.seq([target.value, target.slice], st), go)
        if isinstance(target, (ast.Tuple, ast.List)):
            return self.bind(self.unpack(st, val, target),
                             lambda s, _: [(s, None)])
        if isinstance(target, ast.Starred):
            return self.assign(st, target.value, val)
        self.unknown(target, 'assignment target')
        return [(st, None)]

    def unpack(self, st, val, target):
        n = len(target.elts)
        star = [i for i, e in enumerate(target.elts)
                if isinstance(e, ast.Starred)]
        out = []
        for s, items in self.sequence(st, val, target):
            if isexc(items):
                out.append((s, items))
                continue
            if items is None or star:
                vals = [TOP] * n
                w = self.nv(s, val)
                if not star and isinstance(w, Sy) and w.td.lst is not None:
                    vals = [self.of_td(s, w.k + ('[', C(i), ']'), w.td.lst)
                            for i in range(n)]
                if items is not None and star and len(items) >= n - 1:
                    i = star[0]
                    tail = n - 1 - i
                    mid = items[i:len(items) - tail]
                    r = s.alloc(('unpack', nid(target)),
                                Obj('list', items=tuple(mid)))
                    vals = list(items[:i]) + [r] + list(
                        items[len(items) - tail:] if tail else [])
            elif len(items) != n:
                out.append((s, Exc('ValueError', target, 'unpack',
                                   self.where(s, target))))
                continue
            else:
                vals = items
            res = [(s, None)]
            for e, v in zip(target.elts, vals):
                res = self.bind(res, lambda s2, _: self.assign(s2, e, v))
            out.extend(res)
        return out

    def sequence(self, st, v, node):
        """[(st, list of values | None when not enumerable | exc)]"""
        v = self.nv(st, v)
        if isinstance(v, Tup):
            return [(st, list(v.items))]
        if isinstance(v, C) and isinstance(v.v, str):
            return [(st, [C(c) for c in v.v])]
        if isinstance(v, C) and isinstance(v.v, bytes):
            return [(st, [C(c) for c in v.v])]
        if isinstance(v, R):
            o = st.obj(v.oid)
            if o is not None and o.kind in ('list', 'set', 'iter') and \
               o.items is not None and o.rest is None:
                return [(st, list(o.items))]
            if o is not None and o.kind == 'dict' and o.rest is None:
                return [(st, [C(k) for k in o.items])]
        if isinstance(v, U):
            return self.bind(self.split(st, v),
                             lambda s, w: self.sequence(s, w, node))
        return [(st, None)]

    # --------------------------------------------------------- statements
    def exec_block(self, body, st):
        res = [(st, None)]
        for s in body:
            nxt = []
            for a, ctl in res:
                if ctl is not None:
                    nxt.append((a, ctl))
                else:
                    nxt.extend(self.ex(s, a))
            res = nxt
            if self.MERGE_AT is not None and len(res) > self.MERGE_AT:
                res = merge(res)
                if self.CAP is not None and len(res) > self.CAP:
                    res = self.squeeze(res, s)
        return res

    # states that differ in this are not joined
    PART = None

    def squeeze(self, res, node):
        """join states (losing relations) until at most CAP are left"""
        groups = {}
        for s, c in res:
            if c is None:
                key = None
            elif isexc(c):
                key = ('exc', c.name, c.where, c.detail == 'negative')
            elif c[0] == 'ret':
                v = self.nv(s, c[1])
                key = ('ret', v.key() if isinstance(v, C) else
                       type(v).__name__)
            else:
                key = c
            part = self.PART(s) if self.PART is not None else None
            groups.setdefault((key, s.fr, s.stack, part), []).append((s, c))
        quota = max(1, self.CAP // 2 // len(groups))
        out = []
        for key in groups:
            g = groups[key]
            if len(g) <= quota:
                out.extend(g)
                continue
            while len(g) > quota:
                a, b = g[-2], g[-1]
                g[-2:] = [self.join_pair(a, b, node)]
            out.extend(g)
        return out

    def join_pair(self, x, y, node):
        (a, ca), (b, cb) = x, y
        out = weaken(a, b)
        self._choice += 1
        tag = ('jn', getattr(node, 'lineno', 0), self._choice)
        self._joined = {}
        self.join_store(out, a, b, tag)
        if ca is not None and not isexc(ca) and ca[0] == 'ret' and \
           ca[1] != cb[1]:
            va, vb = self.nv(a, ca[1]), self.nv(b, cb[1])
            ca = ('ret', self.join_values(out, a, va, b, vb,
                                          tag + ('ret',)))
        return out, ca

    def join_values(self, out, a, va, b, vb, name):
        if va is vb or va == vb:
            return va
        if isinstance(va, S) and isinstance(vb, S):
            w = same_text(va, vb)
            if w is not None:
                return w
        if self.PART is not None:
            # keep result codes apart
            cs = [x for v in (va, vb) for x in (
                v.alts if isinstance(v, U) else [v])]
            if all(isinstance(x, C) and isinstance(x.v, int) and
                   not isinstance(x.v, bool) for x in cs):
                u = mkunion(cs)
                if not isinstance(u, U) or len(u.alts) <= 3:
                    return u
        ta, tb = self.td_of(a, va), self.td_of(b, vb)
        t = ta.join(tb)
        if t.top or not t.nkinds():
            u = mkunion([va, vb])
            return u if isinstance(u, U) and len(u.alts) <= 6 else \
                Sy(name, ANYTD)
        # places that hold the same in both states keep doing so
        return self._joined.setdefault((va, vb), Sy(name, t))

    _joined = {}

    def join_store(self, out, a, b, tag):
        for oid in set(a.heap) | set(b.heap):
            oa, ob = a.heap.get(oid), b.heap.get(oid)
            if oa is ob:
                continue
            if oa is None or ob is None:
                if oid in self.base:
                    oa = oa or self.base[oid]
                    ob = ob or self.base[oid]
                else:
                    out.heap[oid] = oa or ob
                    continue
            if oa == ob:
                continue
            if oa.kind != ob.kind:
                continue
            name = tag + (oid,)
            fs = dict(oa.fields)
            for k, v in ob.fields.items():
                if k not in fs:
                    fs[k] = v
                elif fs[k] is not v and isinstance(v, V) and \
                        isinstance(fs[k], V):
                    fs[k] = self.join_values(
                        out, a, self.nv(a, fs[k]), b, self.nv(b, v),
                        name + (k,))
            items, rest = oa.items, oa.rest
            if oa.kind == 'dict':
                ia, ib = dict(oa.items or {}), ob.items or {}
                for k, v in ib.items():
                    if k not in ia:
                        ia[k] = v
                    elif ia[k] is not v and isinstance(v, V) and \
                            isinstance(ia[k], V):
                        ia[k] = self.join_values(
                            out, a, self.nv(a, ia[k]), b, self.nv(b, v),
                            name + ('i', k))
                    elif ia[k] != v:
                        ia[k] = Sy(name + ('i', k), ANYTD)
                items = ia
                if oa.rest != ob.rest:
                    rest = Sy(name + ('r',), ANYTD)
            elif oa.items != ob.items or oa.rest != ob.rest:
                td = BOTTOM
                for s, o in ((a, oa), (b, ob)):
                    for x in (o.items or ()):
                        td = td.join(self.td_of(s, x))
                    if o.rest is not None:
                        td = td.join(self.td_of(s, o.rest))
                items = () if oa.kind != 'iter' else None
                rest = Sy(name + ('L',), td) if td.nkinds() else TOP
            out.heap[oid] = oa.but(fields=fs, items=items, rest=rest)
        sy = {}
        for k in set(a.sy) | set(b.sy):
            va, vb = a.sy.get(k), b.sy.get(k)
            if va is None or vb is None:
                # initial value on one side
                if a.epoch.get(k[1]) == b.epoch.get(k[1]):
                    td = self.slot_td(k[0], k[1])
                    if td is not None and td.nkinds():
                        sy[k] = Sy(tag + ('s',) + k, td)
                        continue
                sy[k] = Sy(tag + ('s',) + k,
                           self.slot_td(k[0], k[1]) or ANYTD)
                continue
            if isinstance(va, V) and isinstance(vb, V):
                sy[k] = self.join_values(out, a, self.nv(a, va), b,
                                         self.nv(b, vb), tag + ('s',) + k)
            else:
                sy[k] = va
        out.sy = sy
        for k in set(a.epoch) | set(b.epoch):
            if a.epoch.get(k) != b.epoch.get(k):
                out.epoch[k] = tag

    def ex(self, n, st):
        self.tick()
        f = getattr(self, 'ex_' + type(n).__name__, None)
        if f is None:
            self.unknown(n, 'statement ' + type(n).__name__)
            return [(st, None)]
        return f(n, st)

    def lift(self, results):
        """value results -> statement results"""
        return [(s, v if isexc(v) else None) for s, v in results]

    def ex_Expr(self, n, st):
        return self.lift(self.ev(n.value, st))

    def ex_Pass(self, n, st):
        return [(st, None)]

    def ex_Assign(self, n, st):
        def go(s, v):
            res = [(s, None)]
            for t in n.targets:
                res = self.bind(res, lambda a, _: self.assign(a, t, v))
            return res
        return self.lift(self.bind(self.ev(n.value, st), go))

    def ex_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, None)]
        return self.lift(self.bind(
            self.ev(n.value, st), lambda s, v: self.assign(s, n.target, v)))

    def ex_AugAssign(self, n, st):
        t = n.target
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(t.id, ast.Load()), t)
            return self.lift(self.bind(
                self.seq([load, n.value], st),
                lambda s, vs: self.bind(
                    self.augop(s, n.op, vs[0], vs[1], n),
                    lambda s2, r: self.assign(s2, t, r))))
        if isinstance(t, ast.Attribute):
            return self.lift(self.bind(
                self.ev(t.value, st),
                lambda s, o: self.bind(
                    self.getattr(s, o, t.attr, t),
                    lambda s2, old: self.bind(
                        self.ev(n.value, s2),
                        lambda s3, v: self.bind(
                            self.augop(s3, n.op, old, v, n),
                            lambda s4, r: self.setattr(s4, o, t.attr, r,
                                                       t))))))
        if isinstance(t, ast.Subscript) and \
           not isinstance(t.slice, ast.Slice):
            return self.lift(self.bind(
                self.seq([t.value, t.slice], st),
                lambda s, vs: self.bind(
                    self.getitem(s, vs[0], vs[1], t),
                    lambda s2, old: self.bind(
                        self.ev(n.value, s2),
                        lambda s3, v: self.bind(
                            self.augop(s3, n.op, old, v, n),
                            lambda s4, r: self.setitem(s4, vs[0], vs[1], r,
                                                       t))))))
        self.unknown(n, 'augmented assignment')
        return [(st, None)]

    def augop(self, st, op, a, b, n):
        a = self.nv(st, a)
        if isinstance(op, ast.Add) and isinstance(a, R):
            o = st.obj(a.oid)
            if o is not None and o.kind == 'list':
                return self.bind(self.mutate(st, a, 'extend', [b], n),
                                 lambda s, _: [(s, a)])
        return self.binop(st, op, a, b, n)

    def ex_Return(self, n, st):
        if n.value is None:
            return [(st, ('ret', NONE))]
        return [(s, v if isexc(v) else ('ret', v))
                for s, v in self.ev(n.value, st)]

    def ex_Break(self, n, st):
        return [(st, ('brk',))]

    def ex_Continue(self, n, st):
        return [(st, ('cont',))]

    def ex_If(self, n, st):
        out = []
        for s, r in self.cond(n.test, st):
            if isexc(r):
                out.append((s, r))
            elif r:
                out.extend(self.exec_block(n.body, s))
            else:
                out.extend(self.exec_block(n.orelse, s))
        if self.MERGE_AT is not None and len(out) > self.MERGE_AT:
            out = merge(out)
        return out

    def ex_Raise(self, n, st):
        if n.exc is None:
            return [(st, Exc('reraise', n, '', self.where(st, n)))]
        out = []
        for s, v in self.ev(n.exc, st):
            if isexc(v):
                out.append((s, v))
                continue
            name = None
            if isinstance(v, BI):
                name = v.name
                if name.startswith('exc:'):
                    name = name[4:]
            elif isinstance(v, K):
                name = v.info.name
            elif isinstance(v, R):
                o = s.obj(v.oid)
                name = o.cls.name if o.cls is not None else 'Exception'
            out.append((s, Exc(name or 'Exception', n, 'raise',
                               self.where(s, n), v)))
        return out

    def ex_Assert(self, n, st):
        out = []
        for s, r in self.cond(n.test, st):
            if isexc(r):
                out.append((s, r))
            elif r:
                out.append((s, None))
            else:
                out.append((s, Exc('AssertionError', n, '',
                                   self.where(s, n))))
        return out

    def ex_Global(self, n, st):
        return [(st, None)]

    ex_Nonlocal = ex_Global

    def ex_Delete(self, n, st):
        res = [(st, None)]
        for t in n.targets:
            if isinstance(t, ast.Name):
                def delname(s, _):
                    o = s.obj(s.fr)
                    f = dict(o.fields)
                    f.pop(t.id, None)
                    s.put(s.fr, o.but(fields=f))
                    return [(s, None)]
                res = self.bind(res, delname)
            elif isinstance(t, ast.Subscript):
                def delitem(s, _):
                    if isinstance(t.slice, ast.Slice):
                        return self.bind(
                            self.ev(t.value, s),
                            lambda s2, v: self.mutate(s2, v, 'del', [], t))
                    return self.bind(
                        self.seq([t.value, t.slice], s),
                        lambda s2, vs: self.mutate(s2, vs[0], '__delitem__',
                                                   [vs[1]], t))
                res = self.bind(res, delitem)
            elif isinstance(t, ast.Attribute):
                res = self.bind(res, lambda s, _: self.bind(
                    self.ev(t.value, s),
                    lambda s2, v: self.setattr(s2, v, t.attr, TOP, t)))
        return self.lift(res)

    def ex_Import(self, n, st):
        for al in n.names:
            m = self.import_from_state(st, al.name)
            if al.asname:
                self.assign_name(st, al.asname, m)
            else:
                top = al.name.split('.')[0]
                self.assign_name(st, top,
                                 self.import_from_state(st, top))
        return [(st, None)]

    def import_from_state(self, st, name):
        if name not in self.files:
            return BI('mod:' + name)
        if self.loading is not None:
            # module level: the nested import runs on this very state
            saved = self.modstate
            self.modstate = st
            r = self.import_module(name)
            new = self.modstate
            if new is not st:
                for f in St.__slots__:
                    setattr(st, f, getattr(new, f))
            self.modstate = saved
            return r
        if st.obj(('mod', name)) is None:
            return TOP
        return R(('mod', name))

    def ex_ImportFrom(self, n, st):
        mod = n.module or ''
        if n.level:
            o = st.fr
            cur = st.obj(o)
            while cur is not None and cur.kind != 'module':
                o = cur.site
                cur = st.obj(o)
            base = o[1] if o else loader.PKG
            parts_ = base.split('.')
            ispkg = self.files.get(base, '').endswith('__init__.py')
            drop = n.level - (1 if ispkg else 0)
            if drop:
                parts_ = parts_[:-drop]
            mod = '.'.join(parts_ + ([mod] if mod else []))
        if mod == '__future__':
            return [(st, None)]
        m = self.import_from_state(st, mod)
        outs = [(st, None)]
        for al in n.names:
            if al.name == '*':
                if isinstance(m, R):
                    o = st.obj(m.oid)
                    names = o.fields.get('__all__')
                    seq_ = None
                    if names is not None:
                        seq_ = self.sequence(st, names, n)[0][1]
                    ks = [x.v for x in seq_] if seq_ else \
                        [k for k in o.fields if not k.startswith('_')]
                    for k in ks:
                        if k in o.fields:
                            self.assign_name(st, k, o.fields[k])
                continue
            if isinstance(m, R):
                sub = '%s.%s' % (mod, al.name)
                o = st.obj(m.oid)
                if al.name in o.fields:
                    v = o.fields[al.name]
                elif sub in self.files:
                    v = self.import_from_state(st, sub)
                else:
                    return [(st, Exc('ImportError', n, al.name,
                                     self.where(st, n)))]
            elif isinstance(m, BI):
                if not self.lib_exists(mod, al.name):
                    return [(st, Exc('ImportError', n, al.name,
                                     self.where(st, n)))]
                v = self.lib_attr(mod + '.' + al.name)
            else:
                v = TOP
            self.assign_name(st, al.asname or al.name, v)
        return outs

    def ex_FunctionDef(self, n, st):
        return self.lift(self.make_fn(n, st, n.name))

    def qual_prefix(self, st):
        o = st.obj(st.fr)
        if o.kind == 'module':
            return o.cls
        if o.kind == 'clsframe':
            return o.cls.qual
        return o.cls.qual

    def make_fn(self, n, st, name):
        o = st.obj(st.fr)
        cls = o.cls if o.kind == 'clsframe' else None
        env = st.fr
        if o.kind == 'clsframe':
            env = o.site
        if o.kind == 'module':
            mod = o.cls
        elif o.kind == 'clsframe':
            mod = o.cls.mod
        else:
            mod = o.cls.mod
        key = nid(n)
        info = self.fninfo(n, self.qual_prefix(st) + '.' + (
            name or '<lambda>'), mod, cls,
            o.cls if o.kind == 'frame' else None)
        a = n.args
        pos = a.posonlyargs + a.args
        exprs = list(a.defaults) + [d for d in a.kw_defaults
                                    if d is not None]
        names = [x.arg for x in pos[len(pos) - len(a.defaults):]] + \
            [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults)
             if d is not None]

        def mk(s, vs):
            f = Fn(info, env, dict(zip(names, vs)))
            if isinstance(n, ast.Lambda):
                return [(s, f)]
            res = [(s, f)]
            for d in reversed(n.decorator_list):
                res = self.bind(res, lambda s2, fv: self.bind(
                    self.ev(d, s2),
                    lambda s3, dv: self.decorate(s3, dv, fv, d)))
            return self.bind(res, lambda s2, fv: self.bind(
                [(s2, fv)], lambda s3, w: (
                    self.assign_name(s3, n.name, w), [(s3, w)])[1]))
        return self.bind(self.seq(exprs, st), mk)

    def fninfo(self, n, qual, mod, cls, parent):
        info = getattr(n, '_info', None)
        if info is None:
            info = n._info = FuncInfo(qual, n, mod, cls, parent)
            q = qual
            i = 2
            while q in self.funcs:
                q = '%s#%d' % (qual, i)
                i += 1
            info.qual = q
            self.funcs[q] = info
        return info

    def decorate(self, st, dv, fv, node):
        if isinstance(dv, BI):
            if dv.name in ('staticmethod', 'classmethod', 'property'):
                if isinstance(fv, Fn):
                    kind = {'staticmethod': 'static', 'classmethod': 'class',
                            'property': 'property'}[dv.name]
                    return [(st, Fn(fv.info, fv.env, fv.defaults, kind))]
            if dv.name in ('functools.lru_cache', 'functools.wraps',
                           'functools.cache', 'functools.lru_cache()',
                           'contextlib.contextmanager'):
                return [(st, fv)]
            self.unknown(node, 'decorator ' + dv.name)
            return [(st, fv)]
        return self.call(st, dv, [fv], {}, node)

    def ex_ClassDef(self, n, st):
        def go(s, vs):
            bases = [v for v in vs if isinstance(v, K)]
            info = getattr(n, '_cinfo', None)
            if info is None:
                self._ncls += 1
                o = s.obj(s.fr)
                mod = o.cls if o.kind == 'module' else o.cls.mod
                info = ClassInfo(self.qual_prefix(s) + '.' + n.name, n, mod,
                                 bases, self._ncls)
                n._cinfo = info
                self.classes[info.qual] = info
            foid = ('clsframe', info.qual)
            saved = s.fr
            s.put(foid, Obj('clsframe', info, {}, site=saved))
            s.fr = foid
            out = []
            for s2, ctl in self.exec_block(n.body, s):
                f = s2.obj(foid).fields
                s2.fr = saved
                s2.heap.pop(foid, None)
                if isexc(ctl):
                    out.append((s2, ctl))
                    continue
                s2.put(info.oid, Obj('class', info, dict(f),
                                     site=info.oid))
                res = [(s2, K(info))]
                for d in reversed(n.decorator_list):
                    res = self.bind(res, lambda s3, kv: self.bind(
                        self.ev(d, s3),
                        lambda s4, dv: self.call(s4, dv, [kv], {}, d)))
                for s3, kv in res:
                    if not isexc(kv):
                        self.assign_name(s3, n.name, kv)
                    out.append((s3, kv if isexc(kv) else None))
            return out
        return self.lift(self.bind(self.seq(n.bases, st), go))

    def ex_Try(self, n, st):
        out = []
        for s, ctl in self.exec_block(n.body, st):
            if isexc(ctl):
                out.extend(self.handle(n, s, ctl))
            elif ctl is None and n.orelse:
                out.extend(self.exec_block(n.orelse, s))
            else:
                out.append((s, ctl))
        if n.finalbody:
            res = []
            for s, ctl in out:
                for s2, c2 in self.exec_block(n.finalbody, s):
                    res.append((s2, ctl if c2 is None else c2))
            out = res
        return out

    def handle(self, n, st, exc):
        for h in n.handlers:
            if h.type is None:
                ok = True
            else:
                vals = self.ev(h.type, st)
                ok = False
                for _, v in vals:
                    vs = v.items if isinstance(v, Tup) else [v]
                    for x in vs:
                        nm = None
                        if isinstance(x, BI):
                            nm = x.name.split('.')[-1]
                        elif isinstance(x, K):
                            nm = x.info.name
                        if nm == exc.name or nm in EXC_BASES.get(
                                exc.name, ('Exception', 'BaseException')):
                            ok = True
            if ok:
                if h.name:
                    self.assign_name(st, h.name, TOP)
                out = []
                for s, ctl in self.exec_block(h.body, st):
                    if isexc(ctl) and ctl.name == 'reraise':
                        ctl = exc
                    out.append((s, ctl))
                return out
        return [(st, exc)]

    def ex_With(self, n, st):
        res = [(st, None)]
        for it in n.items:
            def go(s, _):
                def enter(s2, v):
                    if it.optional_vars is not None:
                        return self.assign(s2, it.optional_vars, TOP)
                    return [(s2, None)]
                return self.bind(self.ev(it.context_expr, s), enter)
            res = self.bind(res, go)
        out = []
        for s, v in res:
            if isexc(v):
                out.append((s, v))
            else:
                out.extend(self.exec_block(n.body, s))
        return out

    # -------------------------------------------------------------- loops
    def ex_While(self, n, st):
        test = n.test
        const = isinstance(test, ast.Constant)

        def head(s):
            return self.cond(test, s)
        return self.loop(n, st, head, n.body, n.orelse, not const)

    def ex_For(self, n, st):
        out = []
        for s, v in self.ev(n.iter, st):
            if isexc(v):
                out.append((s, v))
            else:
                out.extend(self.for_over(n, s, v))
        return out

    def for_over(self, n, st, v):
        v = self.nv(st, v)
        if isinstance(v, U) or (isinstance(v, Sy) and v.td.nkinds() > 1):
            out = []
            for s, w in self.split(st, v):
                out.extend(self.for_over(n, s, w))
            return out
        if isinstance(v, C) and v.v is None:
            return [(st, Exc('TypeError', n, 'None is not iterable',
                             self.where(st, n)))]
        seqs = self.sequence(st, v, n)
        if len(seqs) == 1 and seqs[0][1] is not None and \
           not isexc(seqs[0][1]) and len(seqs[0][1]) <= self.UNROLL:
            states = [(st, None)]
            done = []
            for item in seqs[0][1]:
                nxt = []
                for s, _ in states:
                    for s2, c in self.bind(
                            [(s, item)],
                            lambda a, x: self.assign(a, n.target, x)):
                        if isexc(c):
                            done.append((s2, c))
                            continue
                        for s3, c3 in self.exec_block(n.body, s2):
                            if c3 is None or c3 == ('cont',):
                                nxt.append((s3, None))
                            elif c3 == ('brk',):
                                done.append((s3, None))
                            else:
                                done.append((s3, c3))
                states = nxt
            for s, _ in states:
                done.extend(self.exec_block(n.orelse, s))
            return done
        return self.for_abstract(n, st, v, n.target, n.body, n.orelse)

    def for_abstract(self, n, st, v, target, body, orelse):
        site = ('for', nid(n))
        cnt = {'i': 0}
        # iterator protocol over instances
        info = self.inst_class(st, v)
        if info is not None and not isinstance(v, K) and (
                self.class_attr(st, info, '__iter__') is not None):
            f = self.class_attr(st, info, '__iter__')
            out = []
            for s, it in self.call(st, BM(f, v), [], {}, n):
                if isexc(it):
                    out.append((s, it))
                    continue
                out.extend(self.for_iter(n, s, it, target, body, orelse))
            return out
        rng = None
        if isinstance(v, R):
            o = st.obj(v.oid)
            if o is not None and o.kind == 'iter' and o.cls == 'range':
                rng = o.fields
        vis = st.visits.get(site, 0)
        ix = ('idx', nid(n), vis)

        elem_site = ('elem', nid(n), vis)

        if rng is not None:
            # hidden counter variable kept in the frame
            cname = '.i%s' % show_key(nid(n))
            step = rng['step']
            if isinstance(step, C) and isinstance(step.v, int) and step.v:
                self.assign_name(st, cname, rng['start'])
                self.hook('iterrange', st, value=v, node=n)

                def head(s):
                    o = s.obj(s.fr)
                    cur = o.fields[cname]
                    if step.v > 0:
                        rs = self.int_cmp(s, cur, rng['stop'], 'lt')
                    else:
                        rs = self.int_cmp(s, rng['stop'], cur, 'lt')
                    out = []
                    for s2, r in rs:
                        if r:
                            self.assign_name(s2, cname,
                                             iadd(cur, step))
                            for s3, e in self.assign(s2, target, cur):
                                out.append((s3, e if isexc(e) else True))
                        else:
                            out.append((s2, False))
                    return out
                return self.loop(n, st, head, body, orelse, True)

        def head(s):
            a, b = s.copy(), s.copy()
            out = []
            for s2, ok in self.may_iterate(a, v):
                el = self.element(s2, v, elem_site)
                for s3, e in self.assign(s2, target, el):
                    out.append((s3, e if isexc(e) else True))
            out.append((b, False))
            return out
        self.hook('iterate', st, value=v, node=n)
        return self.loop(n, st, head, body, orelse, False)

    def may_iterate(self, st, v):
        if isinstance(v, S) and len(v.p) == 1:
            self.narrow(st, v.p[0], lo=1)
        return [(st, True)]

    def for_iter(self, n, st, it, target, body, orelse):
        info = self.inst_class(st, it)
        f = None
        if info is not None:
            f = self.class_attr(st, info, '__next__')
        if f is None:
            if isinstance(it, R):
                o = st.obj(it.oid)
                if o is not None and o.kind in ('iter', 'list'):
                    return self.for_over(
                        n, st, it) if target is n.target else []
            self.unknown(n, 'iterator')
            return self.loop(n, st, lambda s: [(s.copy(), True),
                                               (s.copy(), False)],
                             body, orelse, False)

        def head(s):
            out = []
            for s2, v in self.call(s, BM(f, it), [], {}, n):
                if isexc(v):
                    if v.name == 'StopIteration':
                        out.append((s2, False))
                    else:
                        out.append((s2, v))
                    continue
                for s3, e in self.assign(s2, target, v):
                    out.append((s3, e if isexc(e) else True))
            return out
        return self.loop(n, st, head, body, orelse, True)

    def element(self, st, v, site):
        """an arbitrary element of an iterable"""
        v = self.nv(st, v)
        key = ('el', site)
        if isinstance(v, R):
            o = st.obj(v.oid)
            if o is not None and o.kind in ('list', 'set', 'iter'):
                vs = list(o.items or ())
                if o.rest is not None:
                    vs.append(o.rest)
                if vs:
                    return mkunion(vs)
                return TOP
            if o is not None and o.kind == 'dict':
                vs = [C(k) for k in (o.items or ())]
                if o.rest is not None:
                    vs.append(TOP)
                return mkunion(vs) if vs else TOP
        if isinstance(v, S):
            cs = EMPTY
            labels = set()
            for x in v.p:
                if isinstance(x, str):
                    cs = cs | CharSet.of(x)
                else:
                    x = self.rp(st, x)
                    if isinstance(x, str):
                        cs = cs | CharSet.of(x)
                    else:
                        cs = cs | self.outcs(x)
                        labels |= x.labels
            return S([P(key, labels=labels, cs=cs, lo=1, hi=1)])
        if isinstance(v, C) and isinstance(v.v, str):
            return S([P(key, cs=CharSet.of(v.v), lo=1, hi=1)])
        if isinstance(v, Sy) and v.td.lst is not None:
            return self.of_td(st, v.k + (key,), v.td.lst)
        if isinstance(v, Tup):
            return mkunion(v.items) if v.items else TOP
        return TOP

    def loop(self, n, st, head, body, orelse, may_unroll):
        """head(s) -> [(s, True|False|exc)]"""
        self.hook('loop', st, node=n)
        if may_unroll:
            r = self.try_unroll(n, st, head, body, orelse)
            if r is not None:
                return r
        h = self.hooks.get('loop_override')
        if h:
            for f in h:
                r = f(self, n, st, head, body, orelse)
                if r is not None:
                    return r
        return self.loop_abstract(n, st, head, body, orelse)

    def try_unroll(self, n, st, head, body, orelse):
        states = [st]
        done = []
        for it in range(self.UNROLL + 1):
            nxt = []
            for s in states:
                hs = head(s.copy())
                kinds = set('e' if isexc(r) else r for _, r in hs)
                if len(kinds) > 1 and 'e' not in kinds:
                    return None
                for s2, r in hs:
                    if isexc(r):
                        done.append((s2, r))
                    elif r:
                        brk = False
                        for s3, c in self.exec_block(body, s2):
                            if c is None or c == ('cont',):
                                nxt.append(s3)
                            elif c == ('brk',):
                                brk = True
                                done.append((s3, None))
                            else:
                                done.append((s3, c))
                        if brk and nxt and self.CAP is not None and \
                           isinstance(n, ast.While) and isinstance(
                               n.test, ast.Constant):
                            return None
                    else:
                        done.extend(self.exec_block(orelse, s2))
            if self.MERGE_AT is not None and len(nxt) > self.MERGE_AT:
                nxt = [s for s, _ in merge([(s, None) for s in nxt])]
            states = nxt
            if not states:
                return done
            if len(states) > 400:
                return None
        return None

    def run_body(self, head, body, hst):
        """one arbitrary iteration -> (back states, exits)"""
        backs, exits = [], []
        for s, r in head(hst.copy()):
            if isexc(r):
                exits.append((s, r))
            elif not r:
                exits.append((s, 'end'))
            else:
                for s2, c in self.exec_block(body, s):
                    if c is None or c == ('cont',):
                        backs.append(s2)
                    elif c == ('brk',):
                        exits.append((s2, None))
                    else:
                        exits.append((s2, c))
        if self.MERGE_AT is not None and len(backs) > 1:
            backs = [s for s, _ in merge([(s, None) for s in backs])]
        return backs, exits

    def loop_abstract(self, n, st, head, body, orelse):
        site = ('loop', nid(n))
        vis = st.visits.get(site, 0)
        base = st.copy()
        base.visits[site] = vis + 1
        tag = ('lp', nid(n), vis)
        saved = self.hooks
        quiet = {k: v for k, v in saved.items()
                 if k in ('loop_override', 'always')}
        self.hooks = quiet
        try:
            hst = base.copy()
            gens = {}
            for it in range(10):
                backs, exits = self.run_body(head, body, hst)
                new = self.generalise(base, hst, backs, gens, tag, it)
                if new is None:
                    break
                hst = new
            else:
                self.unknown(n, 'loop did not stabilise')
            hst = self.refine(base, hst, backs, gens, tag, head, body)
        finally:
            self.hooks = saved
        backs, exits = self.run_body(head, body, hst)
        self.hook('loop_done', base, node=n, head=hst, backs=backs,
                  exits=exits, entry=base, gens=gens)
        out = []
        for s, c in exits:
            if c == 'end':
                out.extend(self.exec_block(orelse, s))
            else:
                out.append((s, c))
        if self.MERGE_AT is not None and len(out) > 1:
            out = merge(out)
        return out

    # state slots: ('f', oid, name) object field, ('i', oid, key) item,
    # ('s', key, attr) symbolic field
    def slots(self, st, base):
        out = {}
        for oid, o in st.heap.items():
            for k, v in o.fields.items():
                out[('f', oid, k)] = v
            if o.kind == 'dict':
                for k, v in (o.items or {}).items():
                    out[('i', oid, k)] = v
                out[('r', oid)] = o.rest
            elif o.kind in ('list', 'set', 'iter'):
                out[('L', oid)] = (o.items, o.rest)
        for k, v in st.sy.items():
            out[('s',) + k] = v
        return out

    def generalise(self, base, hst, backs, gens, tag, it):
        """new head state, or None when hst already covers the back edges"""
        if not backs:
            return None
        hs = self.slots(hst, base)
        changed = False
        new = hst.copy()
        live = set(hst.heap) | set(base.heap)
        bslots = [self.slots(b, base) for b in backs]
        keys = set(hs)
        for b in bslots:
            keys |= set(b)
        # epochs of fields overwritten through symbolic objects
        for b in backs:
            for a, e in b.epoch.items():
                if hst.epoch.get(a) != e and a not in gens.get('ep', ()):
                    gens.setdefault('ep', set()).add(a)
                    changed = True
        for a in gens.get('ep', ()):
            new.epoch[a] = tag
        for k in sorted(keys, key=show_key):
            oid = k[1]
            if k[0] in ('f', 'i', 'r', 'L'):
                o = hst.heap.get(oid)
                if o is None:
                    o = self.base.get(oid)
                    if o is None:
                        continue      # object born in the loop body
            if k[0] == 'f' and isinstance(oid, tuple) and oid and \
               oid[0] == 'fr' and oid != hst.fr and \
               oid not in base.heap:
                continue
            hv = hs.get(k)
            if hv is None and k[0] == 's':
                # not known at the head: initial symbolic value
                hv = 'absent'
            if k[0] in ('f', 'i', 'r', 'L') and hv is None and \
               oid in self.base and oid not in hst.heap:
                o = self.base[oid]
                hv = self.slots_of(o, k)
            for b, bs in zip(backs, bslots):
                bv = bs.get(k, 'absent' if k[0] != 's' else 'absent')
                if bv == 'absent':
                    if k[0] in ('f', 'i', 'r', 'L') and oid not in b.heap \
                       and oid in self.base:
                        bv = self.slots_of(self.base[oid], k)
                    elif k[0] == 's':
                        if hv == 'absent':
                            continue
                        # overlay dropped: value unknown in the back state
                        bv = None
                if bv is hv or bv == hv:
                    continue
                if k in gens and self.covers(gens[k], hst, hv, b, bv):
                    continue
                changed = True
                self.gen_slot(new, k, hst, hv, b, bv, gens, tag)
                hv = self.slots(new, base).get(k, hv)
        if not changed:
            return None
        # facts: only what the entry state knew
        new.nar, new.facts = dict(base.nar), dict(base.facts)
        new.kind, new.ge = dict(base.kind), base.ge
        new.order = base.order
        new.ev = base.ev
        for k, g in gens.items():
            if isinstance(g, tuple) and g[0] == 'int' and g[2] is not None:
                lo = g[2]
                new.ge = new.ge | {(symint(g[1]).lin, -lo)}
        return new

    def slots_of(self, o, k):
        if k[0] == 'f':
            return o.fields.get(k[2])
        if k[0] == 'i':
            return (o.items or {}).get(k[2])
        if k[0] == 'r':
            return o.rest
        if k[0] == 'L':
            return (o.items, o.rest)

    def covers(self, g, hst, hv, b, bv):
        if bv is None or hv is None or bv == 'absent':
            return g[0] == 'any'
        bv = self.nv(b, bv) if not isinstance(bv, tuple) else bv
        if g[0] == 'any':
            return True
        if g[0] == 'int':
            return toI(bv) is not None and not (
                isinstance(bv, C) and isinstance(bv.v, bool)) and (
                g[2] is None or b.prove_ge0(iadd(bv, C(-g[2]))))
        if g[0] == 'td':
            td = self.td_of(b, bv)
            j = g[2].join(td)
            return self.widen_td(g[2], j) == g[2]
        if g[0] == 'list':
            items, rest = bv
            td = BOTTOM
            for x in (items or ()):
                td = td.join(self.td_of(b, x))
            if rest is not None:
                td = td.join(self.td_of(b, rest))
            j = g[2].join(td)
            return self.widen_td(g[2], j) == g[2]
        return False

    @staticmethod
    def widen_td(old, new):
        if old.int is not None and new.int is not None and \
           old.int != new.int:
            lo = old.int[0]
            if new.int[0] is None or (lo is not None and new.int[0] < lo):
                lo = 0 if new.int[0] is not None and new.int[0] >= 0 \
                    else None
            hi = old.int[1]
            if new.int[1] is None or (hi is not None and new.int[1] > hi):
                hi = None
            new = new.but(int=(lo, hi))
        return new

    def gen_slot(self, new, k, hst, hv, b, bv, gens, tag):
        """generalise slot k of the new head so that hv and bv are covered"""
        g = gens.get(k)
        name = tag + (k,)

        def put(v):
            self.put_slot(new, k, v)
        if k[0] == 'L':
            td = g[2] if g else BOTTOM
            for (items, rest), s in ((hv, hst), (bv, b)):
                for x in (items or ()):
                    td = td.join(self.td_of(s, x))
                if rest is not None and not (g and s is hst):
                    td = td.join(self.td_of(s, rest))
            td = self.widen_td(g[2], td) if g else td
            gens[k] = ('list', name, td)
            o = new.obj(k[1])
            new.put(k[1], o.but(items=() if o.kind != 'iter' else None,
                                rest=Sy(name, td) if td.nkinds() else TOP))
            return
        if hv is None or bv is None or hv == 'absent' or bv == 'absent' or \
           isinstance(hv, tuple) or isinstance(bv, tuple):
            if k[0] == 's' and hv == 'absent' and bv not in (None,
                                                             'absent'):
                # written in the body only: before that the initial value
                sy = Sy(k[1], ANYTD)
                gens[k] = ('any', name)
                put(self.sym_slot(new, k, name))
                return
            gens[k] = ('any', name)
            if k[0] == 's':
                put(self.sym_slot(new, k, name))
            elif k[0] == 'f' and isinstance(k[1], tuple) and \
                    new.obj(k[1]) is not None and \
                    new.obj(k[1]).kind == 'frame':
                # local possibly unbound at the head: keep it unbound there
                gens[k] = ('any', name)
                if hv is not None and hv != 'absent':
                    put(self.any_value(new, name, [(hst, hv), (b, bv)]))
            else:
                put(self.any_value(new, name, [(hst, hv), (b, bv)]))
            return
        h2 = self.nv(hst, hv)
        b2 = self.nv(b, bv)

        def intlike(v):
            return toI(v) is not None and not (
                isinstance(v, C) and isinstance(v.v, bool))
        if intlike(h2) and intlike(b2) and (g is None or g[0] == 'int'):
            lo = None
            if g is None:
                lo = 0 if hst.prove_ge0(h2) and b.prove_ge0(b2) else None
            elif g[2] is not None and b.prove_ge0(iadd(b2, C(-g[2]))):
                lo = g[2]
            gens[k] = ('int', name, lo)
            put(symint(name))
            return
        if isinstance(h2, (R, K, Fn, BM, RX, MT, BI, Tup)) or \
           isinstance(b2, (K, Fn, BM, RX, MT, BI, Tup)):
            tdh, tdb = self.td_of(hst, h2), self.td_of(b, b2)
            j = tdh.join(tdb)
            if j.top:
                gens[k] = ('any', name)
                put(self.any_value(new, name, [(hst, h2), (b, b2)]))
                return
        td = self.td_of(hst, h2).join(self.td_of(b, b2))
        if g is not None and g[0] == 'td':
            td = self.widen_td(g[2], g[2].join(td))
        if g is not None and g[0] == 'any':
            put(Sy(name, ANYTD))
            return
        gens[k] = ('td', name, td)
        put(Sy(name, td))

    def any_value(self, st, name, pairs):
        vs = []
        for s, v in pairs:
            if v is None or v == 'absent' or isinstance(v, tuple):
                return Sy(name, ANYTD)
            vs.append(v)
        # values of unanalysable kinds: keep the union when it is small
        u = mkunion([v for v in vs])
        return u if isinstance(u, U) and len(u.alts) <= 6 else \
            Sy(name, ANYTD)

    def sym_slot(self, st, k, name):
        """fresh symbolic value for a field of a symbolic object"""
        key, attr = k[1], k[2]
        td = self.slot_td(key, attr)
        return Sy(name, td if td is not None else ANYTD)

    def slot_td(self, key, attr):
        t = self.key_type.get(key)
        if t is None:
            return None
        td = self.field_td(t, attr)
        if td is None and self.infer:
            return BOTTOM
        return td

    def put_slot(self, st, k, v):
        if k[0] == 's':
            st.sy[(k[1], k[2])] = v
            return
        o = st.obj(k[1])
        if k[0] == 'f':
            f = dict(o.fields)
            f[k[2]] = v
            st.put(k[1], o.but(fields=f))
        elif k[0] == 'i':
            f = dict(o.items or {})
            f[k[2]] = v
            st.put(k[1], o.but(items=f))
        elif k[0] == 'r':
            st.put(k[1], o.but(rest=v))

    def get_slot(self, st, k):
        if k[0] == 's':
            return st.sy.get((k[1], k[2]))
        o = st.obj(k[1])
        if o is None:
            return None
        return self.slots_of(o, k)

    def refine(self, base, hst, backs, gens, tag, head, body):
        """induction variables and bounds for generalised integers"""
        ints = [(k, g) for k, g in gens.items()
                if isinstance(g, tuple) and g[0] == 'int']
        if not ints or not backs:
            return hst
        new = hst.copy()
        cands = []
        for k, g in ints:
            e = self.get_slot(base, k)
            n = symint(g[1])
            if e is None:
                continue
            e = self.nv(base, e)
            if toI(e) is None:
                continue
            ds = []
            for b in backs:
                v = self.get_slot(b, k)
                v = None if v is None else self.nv(b, v)
                ds.append(None if v is None or toI(v) is None
                          else isub(v, n))
            if any(d is None for d in ds):
                continue
            if all(isinstance(d, C) for d in ds) and \
               len(set(d.v for d in ds)) == 1:
                d = ds[0].v
                kk = symint(('nat', tag))
                # n = e + d*k
                form = iadd(e, imulc(kk, d))
                self.put_slot(new, k, form)
                # keep symbol equal to the form as well
                diff = isub(n, form)
                new.ge = new.ge | {(diff.lin, diff.k),
                                   (imulc(diff, -1).lin,
                                    imulc(diff, -1).k)}
                n = form
            else:
                if all(b.prove_ge0(d) for b, d in zip(backs, ds)):
                    f = isub(n, e)
                    new.ge = new.ge | {(toI(f).lin, toI(f).k)}
                elif all(b.prove_ge0(imulc(d, -1))
                         for b, d in zip(backs, ds)):
                    f = isub(e, n)
                    new.ge = new.ge | {(toI(f).lin, toI(f).k)}
            # candidate bounds against string lengths in scope
            for ln in self.lengths(base, k):
                if base.prove_le(e, ln):
                    cands.append((k, ln))
        # Houdini over the candidates n <= len
        tries = 0
        while cands and tries < 6:
            tries += 1
            h = new.copy()
            for k, ln in cands:
                d = isub(ln, self.get_slot(h, k))
                if not isinstance(d, C):
                    h.ge = h.ge | {(d.lin, d.k)}
            bs, _ = self.run_body(head, body, h)
            keep = []
            for k, ln in cands:
                ok = True
                for b in bs:
                    v = self.get_slot(b, k)
                    v = None if v is None else self.nv(b, v)
                    if v is None or toI(v) is None or \
                       not b.prove_le(v, ln):
                        ok = False
                        break
                if ok:
                    keep.append((k, ln))
            if len(keep) == len(cands):
                new = h
                break
            cands = keep
        return new

    def lengths(self, st, k):
        """length expressions of texts the analysed state knows about"""
        out = []
        o = st.obj(st.fr)
        vals = list(o.fields.values()) if o is not None else []
        for (key, attr), v in st.sy.items():
            vals.append(v)
        for oid, ob in st.heap.items():
            if ob.kind == 'inst':
                vals.extend(ob.fields.values())
        for v in self.scope_values(st):
            vals.append(v)
        for v in vals:
            v = self.nv(st, v) if not isinstance(v, tuple) else v
            if isinstance(v, S):
                ln = self.strlen(st, v)
                if not isinstance(ln, C) and ln not in out:
                    out.append(ln)
        return out[:8]

    def scope_values(self, st):
        """symbolic string fields of the analysed objects (hookable)"""
        return []

    # -------------------------------------------------------- expressions
    def ev(self, n, st):
        self.tick()
        f = getattr(self, 'ev_' + type(n).__name__, None)
        if f is None:
            self.unknown(n, 'expression ' + type(n).__name__)
            return [(st, TOP)]
        return f(n, st)

    def ev_Constant(self, n, st):
        return [(st, C(n.value))]

    def ev_Name(self, n, st):
        return self.lookup(st, n.id, n)

    def ev_Attribute(self, n, st):
        return self.bind(self.ev(n.value, st),
                         lambda s, v: self.getattr(s, v, n.attr, n))

    def ev_Tuple(self, n, st):
        return self.bind(self.elts(n.elts, st),
                         lambda s, vs: [(s, Tup(vs))])

    def elts(self, elts, st):
        res = [(st, [])]
        for e in elts:
            if isinstance(e, ast.Starred):
                def go(s, vs):
                    return self.bind(
                        self.ev(e.value, s),
                        lambda s2, v: [
                            (s3, (vs + items) if items is not None
                             and not isexc(items)
                             else vs + [T('star')])
                            for s3, items in self.sequence(s2, v, e)])
            else:
                def go(s, vs):
                    return self.bind(self.ev(e, s),
                                     lambda s2, v: [(s2, vs + [v])])
            res = self.bind(res, go)
        return res

    def ev_List(self, n, st):
        return self.bind(self.elts(n.elts, st), lambda s, vs: [
            (s, s.alloc(('list', self.site(s, n)),
                        Obj('list', items=tuple(vs))))])

    def ev_Set(self, n, st):
        return self.bind(self.elts(n.elts, st), lambda s, vs: [
            (s, s.alloc(('set', self.site(s, n)),
                        Obj('set', items=tuple(vs))))])

    def site(self, st, n):
        """allocation site: function plus ordinal, stable under edits"""
        q = st.stack[-1] if st.stack else '?'
        return (q, getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0))

    def ev_Dict(self, n, st):
        exprs = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)

        def go(s, vs):
            # copies of symbolic mappings are made first
            j = 0
            for k in n.keys:
                d = self.nv(s, vs[j])
                if k is None and isinstance(d, Sy) and d.td.objs:
                    return self.bind(
                        self.bi_dict(s, [d], {}, n),
                        lambda s2, r: go(s2, vs[:j] + [r] + vs[j + 1:]))
                j += 1 if k is None else 2
            items, rest = {}, None
            i = 0
            for k in n.keys:
                if k is None:
                    d = vs[i]
                    i += 1
                    o = s.obj(d.oid) if isinstance(d, R) else None
                    if o is not None and o.kind == 'dict':
                        items.update(o.items or {})
                        rest = o.rest if rest is None else rest
                    else:
                        rest = TOP
                    continue
                kv, vv = vs[i], vs[i + 1]
                i += 2
                if isinstance(kv, C):
                    items[kv.v] = vv
                else:
                    rest = vv if rest is None else mkunion([rest, vv])
            return [(s, self.new_dict(s, n, items, rest))]
        return self.bind(self.seq(exprs, st), go)

    def new_dict(self, s, n, items, rest):
        """a dictionary made with these items at this place"""
        r = s.alloc(('dict', self.site(s, n)),
                    Obj('dict', items=items, rest=rest))
        if self.infer:
            t = self.dict_type(r.oid)
            for k, v in items.items():
                self.learn(t, '[%s]' % (k,), self.td_of(s, v))
            self.types.setdefault(t, {})
            if self.keep_keys:
                always = set('[%s]' % (k,) for k in items)
                always |= self.filled_in(n)
                old = self.dict_always.get(t)
                self.dict_always[t] = always if old is None \
                    else old & always
        return r

    def filled_in(self, n):
        """keys the statements right after the one that makes a dictionary
        give it: it has them before anything else can see it"""
        if self.fills is None:
            self.fills = {}
            for tree, src, path in self.trees.values():
                for x in ast.walk(tree):
                    for f in ('body', 'orelse', 'finalbody'):
                        b = getattr(x, f, None)
                        if isinstance(b, list):
                            self.find_fills(b)
        return self.fills.get(id(n), frozenset())

    def find_fills(self, block):
        for i, x in enumerate(block):
            if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and
                    isinstance(x.targets[0], ast.Name) and
                    isinstance(x.value, (ast.Dict, ast.Call))):
                continue
            name, keys = x.targets[0].id, set()
            for y in block[i + 1:]:
                ts = y.targets if isinstance(y, ast.Assign) else []
                if ts and all(isinstance(t, ast.Subscript) and
                              isinstance(t.value, ast.Name) and
                              t.value.id == name and
                              isinstance(t.slice, ast.Constant)
                              for t in ts):
                    keys.update('[%s]' % (t.slice.value,) for t in ts)
                elif any(isinstance(z, ast.Name) and z.id == name or
                         isinstance(z, (ast.Return, ast.Raise, ast.Break,
                                        ast.Continue))
                         for z in ast.walk(y)):
                    break
            if keys:
                self.fills[id(x.value)] = frozenset(keys)


    def ev_Lambda(self, n, st):
        return self.make_fn(n, st, None)

    def ev_IfExp(self, n, st):
        out = []
        for s, r in self.cond(n.test, st):
            if isexc(r):
                out.append((s, r))
            else:
                out.extend(self.ev(n.body if r else n.orelse, s))
        return out

    def ev_NamedExpr(self, n, st):
        def go(s, v):
            self.assign_name(s, n.target.id, v)
            return [(s, v)]
        return self.bind(self.ev(n.value, st), go)

    def ev_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)

        def go(i, s):
            out = []
            for s2, v in self.ev(n.values[i], s):
                if isexc(v) or i == len(n.values) - 1:
                    out.append((s2, v))
                    continue
                for s3, r in self.truth(s2, v, n.values[i]):
                    if isexc(r):
                        out.append((s3, r))
                    elif r == isand:
                        out.extend(go(i + 1, s3))
                    else:
                        out.append((s3, self.nv(s3, v)))
            return out
        return go(0, st)

    def cond(self, n, st):
        """[(st, bool | exc)] -- keeps short-circuit structure"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)

            def go(i, s):
                out = []
                for s2, r in self.cond(n.values[i], s):
                    if isexc(r) or i == len(n.values) - 1:
                        out.append((s2, r))
                    elif r == isand:
                        out.extend(go(i + 1, s2))
                    else:
                        out.append((s2, r))
                return out
            return go(0, st)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, r if isexc(r) else not r)
                    for s, r in self.cond(n.operand, st)]
        out = []
        for s, v in self.ev(n, st):
            if isexc(v):
                out.append((s, v))
            else:
                out.extend(self.truth(s, v, n))
        return out

    def ev_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            out = []
            for s, v in self.ev(n.operand, st):
                if isexc(v):
                    out.append((s, v))
                    continue
                v = self.nv(s, v)
                if isinstance(v, B):
                    out.append((s, B(v.k, not v.neg)))
                    continue
                for s2, r in self.truth(s, v, n):
                    out.append((s2, r if isexc(r) else C(not r)))
            return out

        def go(s, v):
            v = self.nv(s, v)
            if isinstance(v, C) and isinstance(v.v, (int, float)):
                if isinstance(n.op, ast.USub):
                    return [(s, C(-v.v))]
                if isinstance(n.op, ast.UAdd):
                    return [(s, C(+v.v))]
                if isinstance(v.v, int):
                    return [(s, C(~v.v))]
            if isinstance(v, I) and isinstance(n.op, ast.USub):
                return [(s, imulc(v, -1))]
            if isinstance(v, I) and isinstance(n.op, ast.UAdd):
                return [(s, v)]
            if isinstance(v, U) or (isinstance(v, Sy) and
                                    v.td.nkinds() > 1):
                return self.bind(self.split(s, v), go)
            return [(s, TOP)]
        return self.bind(self.ev(n.operand, st), go)

    def ev_BinOp(self, n, st):
        return self.bind(self.seq([n.left, n.right], st),
                         lambda s, vs: self.binop(s, n.op, vs[0], vs[1], n))

    def ev_Compare(self, n, st):
        def go(i, s, left):
            out = []
            for s2, right in self.ev(n.comparators[i], s):
                if isexc(right):
                    out.append((s2, right))
                    continue
                last = i == len(n.ops) - 1
                for s3, r in self.compare(s2, n.ops[i], left, right, n):
                    if isexc(r) or last:
                        out.append((s3, r))
                        continue
                    for s4, b in self.truth(s3, r, n):
                        if isexc(b):
                            out.append((s4, b))
                        elif b:
                            out.extend(go(i + 1, s4, right))
                        else:
                            out.append((s4, FALSE))
            return out
        return self.bind(self.ev(n.left, st), lambda s, v: go(0, s, v))

    def ev_Subscript(self, n, st):
        if isinstance(n.slice, ast.Slice):
            sl = n.slice
            exprs = [x for x in (sl.lower, sl.upper, sl.step)
                     if x is not None]

            def go(s, vs):
                it = iter(vs[1:])
                lo = next(it) if sl.lower is not None else NONE
                up = next(it) if sl.upper is not None else NONE
                stp = next(it) if sl.step is not None else NONE
                return self.getslice(s, vs[0], lo, up, stp, n)
            return self.bind(self.seq([n.value] + exprs, st), go)
        return self.bind(self.seq([n.value, n.slice], st),
                         lambda s, vs: self.getitem(s, vs[0], vs[1], n))

    def ev_JoinedStr(self, n, st):
        res = [(st, [])]
        for x in n.values:
            def go(s, ps):
                if isinstance(x, ast.Constant):
                    return [(s, ps + [x.value])]

                def fmt(s2, v):
                    spec = x.format_spec
                    if x.conversion in (-1, 115) and spec is None:
                        return self.bind(
                            self.to_str(s2, v, x),
                            lambda s3, w: [(s3, ps + list(
                                parts(w) if parts(w) is not None
                                else [self.opaque_piece(s3, w, x)]))])
                    return [(s2, ps + [self.opaque_piece(s2, v, x)])]
                return self.bind(self.ev(x.value, s), fmt)
            res = self.bind(res, go)
        return self.bind(res, lambda s, ps: [(s, self.mkstr(s, ps))])

    def opaque_piece(self, st, v, node):
        td = self.td_of(st, v)
        labels = td.str[3] if td.str is not None else frozenset()
        return P(('fmt', nid(node), v if not isinstance(v, T) else 'T'),
                 labels=labels, ops=['opaque'])

    def ev_Starred(self, n, st):
        return self.ev(n.value, st)

    def ev_Yield(self, n, st):
        def go(s, v):
            o = s.obj(s.fr)
            cur = o.fields.get('.yield')
            items = cur.items if isinstance(cur, Tup) else ()
            self.assign_name(s, '.yield', Tup(items + (v,)))
            return [(s, NONE)]
        if n.value is None:
            return go(st, NONE)
        return self.bind(self.ev(n.value, st), go)

    def ev_YieldFrom(self, n, st):
        return self.bind(self.ev(n.value, st), lambda s, v: [(s, NONE)])

    # comprehensions
    def ev_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    def ev_SetComp(self, n, st):
        return self.comp(n, st, 'set')

    def ev_GeneratorExp(self, n, st):
        return self.comp(n, st, 'list')

    def ev_DictComp(self, n, st):
        return self.comp(n, st, 'dict')

    def comp(self, n, st, kind):
        """comprehension evaluated in a private frame"""
        foid = ('fr', 'comp', nid(n), len(st.stack))
        saved = st.fr
        st.put(foid, Obj('frame', _CompInfo(n), {}, site=saved))
        st.fr = foid
        first = n.generators[0]
        out = []
        for s, it in self.ev(first.iter, st):
            if isexc(it):
                s.fr = saved
                out.append((s, it))
                continue
            it = self.nv(s, it)
            for s2, w in (self.split(s, it) if isinstance(it, (U, Sy))
                          else [(s, it)]):
                out.extend(self.comp_over(n, s2, w, kind))
        for s, v in out:
            s.fr = saved
            if not self.escapes(s, foid):
                s.heap.pop(foid, None)
        return out

    def escapes(self, st, foid):
        return False

    def comp_over(self, n, st, it, kind):
        g = n.generators[0]
        simple = len(n.generators) == 1
        # iterating over the characters of a symbolic text
        if simple and isinstance(it, S) and kind == 'list':
            r = self.comp_string(n, st, it)
            if r is not None:
                return r
        acc = [(st, [])]
        seqs = self.sequence(st, it, n)
        exact = len(seqs) == 1 and seqs[0][1] is not None and \
            not isexc(seqs[0][1]) and len(seqs[0][1]) <= 64

        def elem_value(s):
            if kind == 'dict':
                return self.bind(self.seq([n.key, n.value], s),
                                 lambda s2, vs: [(s2, Tup(vs))])
            return self.ev(n.elt, s)

        def inner(s, gi):
            """-> [(st, list of values | exc, exact)]"""
            if gi == len(n.generators):
                return [(s2, v if isexc(v) else [v])
                        for s2, v in elem_value(s)]
            gg = n.generators[gi]
            res = []
            for s2, it2 in self.ev(gg.iter, s):
                if isexc(it2):
                    res.append((s2, it2))
                    continue
                res.extend(run(s2, it2, gi))
            return res

        def filt(s, gg):
            conds = [(s, True)]
            for i in gg.ifs:
                nxt = []
                for a, r in conds:
                    if r is True:
                        nxt.extend(self.cond(i, a))
                    else:
                        nxt.append((a, r))
                conds = nxt
            return conds

        flags = {'exact': True}

        def run(s, it2, gi):
            gg = n.generators[gi]
            sq = self.sequence(s, it2, n)
            if len(sq) == 1 and sq[0][1] is not None and \
               not isexc(sq[0][1]) and len(sq[0][1]) <= 64:
                cur = [(s, [])]
                for item in sq[0][1]:
                    nxt = []
                    for a, vs in cur:
                        if isexc(vs):
                            nxt.append((a, vs))
                            continue
                        for a2, e in self.assign(a, gg.target, item):
                            if isexc(e):
                                nxt.append((a2, e))
                                continue
                            for a3, r in filt(a2, gg):
                                if isexc(r):
                                    nxt.append((a3, r))
                                elif r:
                                    for a4, ws in inner(a3, gi + 1):
                                        nxt.append((a4, ws if isexc(ws)
                                                    else vs + ws))
                                else:
                                    nxt.append((a3, vs))
                    cur = nxt
                    if len(cur) > 64:
                        flags['exact'] = False
                        break
                return cur
            flags['exact'] = False
            el = self.element(s, it2, ('comp', nid(n), gi))
            res = []
            for a2, e in self.assign(s, gg.target, el):
                if isexc(e):
                    res.append((a2, e))
                    continue
                for a3, r in filt(a2, gg):
                    if isexc(r):
                        res.append((a3, r))
                    elif r:
                        res.extend(inner(a3, gi + 1))
                    else:
                        res.append((a3, []))
            return res
        base = st.copy()
        results = run(st, it, 0)
        out = []
        if flags['exact']:
            for s, vs in results:
                if isexc(vs):
                    out.append((s, vs))
                    continue
                out.append((s, self.mk_coll(s, n, kind, vs, None)))
            return out
        # summary: any number of elements among those seen
        vals = []
        for s, vs in results:
            if isexc(vs):
                out.append((s, vs))
                continue
            for v in vs:
                vals.append((s, self.nv(s, v)))
        for s, v in vals:
            for nm in ('nar',):
                pass
        s = base
        rest = None
        td = BOTTOM
        for s2, v in vals:
            if kind == 'dict':
                v = v.items[1] if isinstance(v, Tup) else TOP
            td = td.join(self.td_of(s2, v))
            rest = v if rest is None else mkunion([rest, v])
        if rest is not None and (isinstance(rest, (T, U)) or True):
            if isinstance(rest, (U, S)):
                rest = Sy(('comp', nid(n), s.visits.get(('c', nid(n)), 0)),
                          td) if not td.top else rest
        s.visits[('c', nid(n))] = s.visits.get(('c', nid(n)), 0) + 1
        out.append((s, self.mk_coll(s, n, kind, [], rest)))
        return out

    def mk_coll(self, s, n, kind, vs, rest):
        if kind == 'dict':
            items = {}
            for v in vs:
                kk, vv = v.items
                if isinstance(kk, C):
                    items[kk.v] = vv
                else:
                    rest = vv if rest is None else mkunion([rest, vv])
            return s.alloc(('dict', self.site(s, n)),
                           Obj('dict', items=items, rest=rest))
        return s.alloc((kind, self.site(s, n)),
                       Obj(kind, items=tuple(vs), rest=rest))

    def comp_string(self, n, st, it):
        """[f(c) for c in text] as a character homomorphism, if it is one"""
        g = n.generators[0]
        if not isinstance(g.target, ast.Name):
            return None
        hom = self.char_hom(st, lambda s, ch: self.comp_char(n, g, s, ch))
        if hom is None:
            return None
        ps = []
        for x in it.p:
            ps.append(self.hom_piece(st, x, hom))
        return [(st, self.mk_coll(st, n, 'list', [self.mkstr(st, ps)],
                                  None))]

    def comp_char(self, n, g, s, ch):
        self.assign_name(s, g.target.id, ch)
        res = [(s, True)]
        for i in g.ifs:
            nxt = []
            for a, r in res:
                if r is True:
                    nxt.extend(self.cond(i, a))
                else:
                    nxt.append((a, r))
            res = nxt
        out = []
        for a, r in res:
            if isexc(r):
                out.append((a, r))
            elif r:
                out.extend(self.ev(n.elt, a))
            else:
                out.append((a, EMPTYSTR))
        return out

    def char_hom(self, st, f):
        """{char: image} when f maps a generic character to itself except
        for finitely many characters; else None"""
        uid = ('homc', st.visits.get('hom', 0))
        ch = P(uid, lo=1, hi=1)
        imgs = {}
        for s, v in f(st.copy(), S([ch])):
            if isexc(v):
                return None
            v = self.nv(s, v)
            cur = self.rp(s, ch)
            if isinstance(cur, str):
                if not (isinstance(v, C) and isinstance(v.v, str)):
                    return None
                imgs[cur] = v.v
            elif isinstance(v, S) and len(v.p) == 1 and \
                    v.p[0].uid == uid and not v.p[0].imgs:
                continue
            elif isinstance(v, C) and isinstance(v.v, str) and \
                    cur.cs.size() <= 64:
                for c in cur.cs.chars():
                    imgs[c] = v.v
            else:
                return None
        return {c: i for c, i in imgs.items() if c != i}

    def hom_piece(self, st, x, hom):
        if isinstance(x, str):
            return ''.join(hom.get(c, c) for c in x)
        x2 = self.rp(st, x)
        if isinstance(x2, str):
            return ''.join(hom.get(c, c) for c in x2)
        if x.ops and any(o == 'opaque' for o in x.ops) and False:
            return x
        imgs = dict(x.imgs)
        new = {}
        for c, i in imgs.items():
            new[c] = ''.join(hom.get(d, d) for d in i)
        for c, i in hom.items():
            if c not in imgs:
                new[c] = i
        return x.but(imgs=frozenset((c, i) for c, i in new.items()
                                    if c != i))

    # -------------------------------------------------------------- calls
    def ev_Call(self, n, st):
        def with_fn(s, f):
            f = self.nv(s, f)
            if isinstance(f, BI) and f.name == 'super' and not n.args:
                o = s.obj(s.fr)
                fo = s.fr
                while o is not None and o.kind == 'frame' and \
                        isinstance(o.cls, _CompInfo):
                    fo = o.site
                    o = s.obj(fo)
                info = o.cls
                if info is not None and info.cls is not None and \
                   info.params:
                    return [(s, SuperV(info.cls,
                                       o.fields[info.params[0]]))]
            return self.bind(self.args(n, s), lambda s2, a: self.call(
                s2, f, a[0], a[1], n))
        return self.bind(self.ev(n.func, st), with_fn)

    def args(self, n, st):
        def kws(s, vs):
            res = [(s, {})]
            for kw in n.keywords:
                def go(s2, d):
                    def add(s3, v):
                        d2 = dict(d)
                        if kw.arg is None:
                            o = s3.obj(v.oid) if isinstance(v, R) else None
                            if o is not None and o.kind == 'dict':
                                for k, x in (o.items or {}).items():
                                    d2[k] = x
                            return [(s3, d2)]
                        d2[kw.arg] = v
                        return [(s3, d2)]
                    return self.bind(self.ev(kw.value, s2), add)
                res = self.bind(res, go)
            return self.bind(res, lambda s2, d: [(s2, (vs, d))])
        return self.bind(self.elts(n.args, st), kws)

    def call(self, st, f, args, kw, node):
        """[(st, value|exc)]"""
        self.tick()
        f = self.nv(st, f)
        if isinstance(f, BM):
            if isinstance(f.fn, Fn):
                return self.call_fn(st, f.fn, [f.self] + list(args), kw,
                                    node)
            return self.call(st, f.fn, [f.self] + list(args), kw, node)
        if isinstance(f, Fn):
            return self.call_fn(st, f, list(args), kw, node)
        if isinstance(f, K):
            return self.instantiate(st, f, args, kw, node)
        if isinstance(f, BI):
            return self.call_builtin(st, f, list(args), kw, node)
        if isinstance(f, U):
            return self.bind(self.split(st, f),
                             lambda s, g: self.call(s, g, args, kw, node))
        if isinstance(f, Sy):
            if f.td.nkinds() > 1:
                return self.bind(
                    self.split(st, f),
                    lambda s, g: self.call(s, g, args, kw, node))
            self.hook('opaque_call', st, fn=f, args=args, node=node)
            return [(st, Sy(('ret', f.k, tuple(
                a if not isinstance(a, T) else 'T' for a in args)),
                ANYTD))]
        if isinstance(f, R):
            o = st.obj(f.oid)
            if o is not None and o.kind == 'inst':
                m = self.class_attr(st, o.cls, '__call__')
                if m is not None:
                    return self.call(st, BM(m, f), args, kw, node)
        if isinstance(f, C):
            return [(st, Exc('TypeError', node, '%r is not callable' %
                             (f.v,), self.where(st, node)))]
        if isinstance(f, T):
            self.hook('opaque_call', st, fn=f, args=args, node=node)
        else:
            self.unknown(node, 'call of %r' % (f,))
        return [(st, TOP)]

    def instantiate(self, st, k, args, kw, node):
        info = k.info
        self.hook('new', st, cls=info, args=args, kw=kw, node=node)
        ic = self.intercepts.get(info.qual)
        if ic is not None:
            return ic(self, st, k, args, kw, node)
        if self.is_exception(info):
            return [(st, BI('exc:' + info.name))]
        r = st.alloc(('inst', info.qual, self.site(st, node)),
                     Obj('inst', info, {}))
        f = self.class_attr(st, info, '__init__')
        if f is None:
            return [(st, r)]
        return self.bind(self.call(st, BM(f, r), args, kw, node),
                         lambda s, _: [(s, r)])

    def is_exception(self, info):
        return False

    def call_fn(self, st, f, args, kw, node):
        info = f.info
        self.called.add(info.qual)
        self.hook('call', st, fn=f, args=args, kw=kw, node=node)
        ic = self.intercepts.get(info.qual)
        if ic is not None:
            r = ic(self, st, f, args, kw, node)
            if r is not None:
                return r
        if info.qual in st.stack:
            self.hook('recursion', st, fn=f, args=args, node=node)
            if st.stack.count(info.qual) > self.max_recursion(info):
                return self.summary(st, f, args, kw, node)
        if len(st.stack) > self.INLINE_DEPTH:
            return self.summary(st, f, args, kw, node)
        if self.cut is not None and self.cut(info):
            return self.summary(st, f, args, kw, node)
        bound = self.bind_args(st, f, args, kw, node)
        if isexc(bound):
            return [(st, bound)]
        depth = len(st.stack)
        foid = ('fr', info.qual, depth)
        while info.has_nested and st.obj(foid) is not None:
            foid = foid + (0,)
        saved, saved_stack = st.fr, st.stack
        st.put(foid, Obj('frame', info, bound, site=f.env))
        st.fr = foid
        st.stack = st.stack + (info.qual,)
        out = []
        if isinstance(info.node, ast.Lambda):
            res = [(s, v if isexc(v) else ('ret', v))
                   for s, v in self.ev(info.node.body, st)]
        else:
            res = self.exec_block(info.node.body, st)
        for s, ctl in res:
            if info.is_gen and not isexc(ctl):
                fo = s.obj(foid)
                y = fo.fields.get('.yield')
                val = s.alloc(('gen', info.qual),
                              Obj('iter', 'gen', items=None,
                                  rest=TOP) if not isinstance(y, Tup)
                              else Obj('list', items=y.items))
            elif isexc(ctl):
                val = ctl
            elif ctl is None:
                val = NONE
            elif ctl[0] == 'ret':
                val = self.nv(s, ctl[1])
            else:
                val = NONE
            s.fr = saved
            s.stack = saved_stack
            if not info.has_nested:
                s.heap.pop(foid, None)
            if isexc(val):
                self.hook('fn_raise', s, fn=f, exc=val, node=node)
            self.hook('return', s, fn=f, args=args, value=val, node=node)
            out.append((s, val))
        if self.MERGE_AT is not None and len(out) > 1:
            out = merge(out)
            if self.CAP is not None and len(out) > self.CAP:
                out = [(s, v if isexc(v) else v[1]) for s, v in self.squeeze(
                    [(s, v if isexc(v) else ('ret', v)) for s, v in out],
                    node)]
        return out

    def max_recursion(self, info):
        return 0

    def bind_args(self, st, f, args, kw, node):
        info = f.info
        bound = {}
        kw = dict(kw)
        pos = list(args)
        for p in info.params:
            if pos:
                bound[p] = pos.pop(0)
            elif p in kw:
                bound[p] = kw.pop(p)
            elif p in f.defaults:
                bound[p] = f.defaults[p]
            else:
                return Exc('TypeError', node, 'missing argument %s of %s' %
                           (p, info.qual), self.where(st, node))
        if info.vararg:
            bound[info.vararg] = Tup(pos)
        elif pos:
            return Exc('TypeError', node, 'too many arguments for %s' %
                       info.qual, self.where(st, node))
        for p in info.kwonly:
            if p in kw:
                bound[p] = kw.pop(p)
            elif p in f.defaults:
                bound[p] = f.defaults[p]
            else:
                return Exc('TypeError', node, 'missing argument %s' % p,
                           self.where(st, node))
        if info.kwarg:
            r = st.alloc(('kwargs', info.qual),
                         Obj('dict', items=dict(kw)))
            bound[info.kwarg] = r
        elif kw:
            return Exc('TypeError', node, 'unexpected argument %s of %s' % (
                sorted(kw), info.qual), self.where(st, node))
        return bound

    # summaries of calls that are not followed
    def summary(self, st, f, args, kw, node):
        info = f.info
        bound = self.bind_args(st, f, args, kw, node)
        if isexc(bound):
            return [(st, bound)]
        t = 'call:' + info.qual
        for p, v in bound.items():
            self.learn(t, p, self.td_of(st, v))
        self.hook('summary', st, fn=f, args=args, bound=bound, node=node)
        self.havoc(st, self.modset(info))
        if self.reads is not None:
            self.reads.add((t, 'return'))
        td = (self.types.get(t) or {}).get('return')
        n = st.visits.get(('sum', info.qual), 0)
        st.visits[('sum', info.qual)] = n + 1
        if td is None:
            if self.infer:
                return []        # not yet known to return
            return [(st, Sy(('ret', info.qual, n), ANYTD))]
        return [(st, self.of_td(st, ('ret', info.qual, n), td))]

    def havoc(self, st, attrs):
        for a in attrs:
            for (k, x) in list(st.sy):
                if x == a:
                    del st.sy[(k, x)]
            n = st.visits.get('h', 0)
            st.visits['h'] = n + 1
            st.epoch[a] = ('h', n)
        for oid, o in list(st.heap.items()):
            if o.kind == 'inst':
                f = dict(o.fields)
                ch = False
                for a in attrs:
                    if a in f:
                        td = self.field_td(o.cls.qual, a)
                        f[a] = self.of_td(
                            st, ('hv', oid, a, st.visits.get('h', 0)), td)
                        ch = True
                if ch:
                    st.put(oid, o.but(fields=f))
            elif o.kind == 'dict':
                f = dict(o.items or {})
                ch = False
                for a in attrs:
                    if a.startswith('[') and a != '[*]':
                        k = a[1:-1]
                        if k in f:
                            td = self.field_td(self.dict_type(oid), a)
                            f[k] = self.of_td(
                                st, ('hv', oid, a, st.visits.get('h', 0)),
                                td)
                            ch = True
                if ch:
                    st.put(oid, o.but(items=f))

    def modset(self, info):
        """attribute / constant-key names possibly written by a function
        or anything it may call (by name)"""
        r = self._modsets.get(info.qual)
        if r is not None:
            return r
        seen, todo, out = set(), [info.node], set()
        byname = {}
        for q, fi in self.funcs.items():
            byname.setdefault(fi.name, []).append(fi)
        while todo:
            nd = todo.pop()
            if id(nd) in seen:
                continue
            seen.add(id(nd))
            for x in ast.walk(nd):
                if isinstance(x, ast.Attribute) and isinstance(
                        x.ctx, (ast.Store, ast.Del)):
                    out.add(x.attr)
                elif isinstance(x, ast.Subscript) and isinstance(
                        x.ctx, (ast.Store, ast.Del)):
                    if isinstance(x.slice, ast.Constant):
                        out.add('[%s]' % (x.slice.value,))
                    else:
                        out.add('[*]')
                elif isinstance(x, ast.Call):
                    nm = None
                    if isinstance(x.func, ast.Name):
                        nm = x.func.id
                    elif isinstance(x.func, ast.Attribute):
                        nm = x.func.attr
                    for fi in byname.get(nm, ()):
                        todo.append(fi.node)
                    if isinstance(x.func, ast.Name):
                        for ci in self.classes.values():
                            if ci.name == nm:
                                for y in ci.node.body:
                                    if isinstance(y, ast.FunctionDef) and \
                                       y.name == '__init__':
                                        pass
                    if nm == 'getattr' or (isinstance(x.func, ast.Call)):
                        # dynamic dispatch: every method with self
                        for fi in self.funcs.values():
                            if fi.cls is not None:
                                todo.append(fi.node)
                elif isinstance(x, ast.Attribute) and \
                        x.attr in byname:
                    for fi in byname[x.attr]:
                        todo.append(fi.node)
        self._modsets[info.qual] = out
        return out


class _CompInfo(object):
    """pseudo function info for comprehension frames"""
    has_nested = False
    cls = None
    params = ()

    def __init__(self, n):
        self.node = n
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        self.qual = '<comp>'
        self.mod = None
