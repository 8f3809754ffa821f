"""Whole-parser properties decided from inferred value sets of the tree.

ParserDriver infers, by a fixed point over all functions reachable from
Parser.parse, which characters every text field of the tree may contain; the
checks look at every assignment to a node field (and to the fields of link
definitions) met on the way.
"""
from ..values import *
from ..charset import CharSet, ALL
from ..interp import AnalysisError, Budget
from ..pdriver import ParserDriver
from . import history

NUL = CharSet.of('\0')
# unreserved and reserved URL characters and '%', without quotes and brackets
URLSAFE = CharSet.of(
    'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
    '-._~' ':/?#@' '!$&()*+,;=' '%')


class Stores(object):
    """every store of a text into a node field or a definition's entry"""

    def __init__(self, d):
        self.d = d
        self.sites = {}      # (function, line, attr) -> TD
        d.eng.hooks.setdefault('setattr', []).append(self.on_set)

    def where(self, st, node):
        q = st.stack[-1] if st.stack else '?'
        return q, getattr(node, 'lineno', 0)

    def on_set(self, st, obj, attr, value, node, o):
        if o is not None and o.kind == 'inst':
            name = o.cls.qual
        elif isinstance(obj, Sy) and obj.td.nkinds() == 1 and obj.td.objs:
            name = next(iter(obj.td.objs))
        else:
            return
        if name != self.d.nodecls:
            return
        self.put(st, node, attr, value)

    def put(self, st, node, attr, value):
        k = self.where(st, node) + (attr,)
        td = self.d.eng.td_of(st, value)
        old = self.sites.get(k)
        self.sites[k] = td if old is None else old.join(td)


class Touched(object):
    """which analysed functions (roots) meet which kind of operation"""

    def __init__(self, eng):
        self.by = {}
        for h in ('setitem', 'dictget', 'resub', 'quote', 'unescape',
                  'summary', 'replace', 'strsplit', 'resplit', 'splitlines',
                  'mutate'):
            eng.hooks.setdefault(h, []).append(self.on(h))
        eng.hooks.setdefault('setattr', []).append(self.on_set)

    def on(self, h):
        def f(st, **kw):
            key = h
            if h == 'summary':
                key = ('summary', kw['fn'].info.qual)
            elif h in ('setitem', 'dictget'):
                key = (h, isinstance(kw['key'], C))
            if st.stack:
                self.by.setdefault(key, set()).add(st.stack[0])
        return f

    def on_set(self, st, obj, attr, value, node, o):
        if st.stack:
            self.by.setdefault(('setattr', attr), set()).add(st.stack[0])

    def roots(self, *keys):
        out = set()
        for k in keys:
            out |= self.by.get(k, set())
        return sorted(out)


_shared = {}


def solved(rep):
    """the solved driver with all observers (one per process)"""
    d = _shared.get('d')
    if d is None:
        d = ParserDriver()
        d.stores = Stores(d)
        d.record = history.Record(d.eng, d.eng.singletons)
        d.edges = history.Edges(d.eng)
        d.touched = Touched(d.eng)
        d.shared = history.shared(d.eng)
        d.solve()
        _shared['d'] = d
    for q in sorted(d.fns):
        rep.ok('function', q)
    for q, why in sorted(d.problems.items()):
        rep.undecided('function', q, why)
    return d


def show(td):
    return repr(td)[:160]


def check_c12(rep, tier):
    d = solved(rep)
    for (q, line, attr), td in sorted(d.stores.sites.items(), key=str):
        what = '%s:%d .%s' % (q, line, attr)
        if td.str is None:
            if td.top:
                rep.undecided('store', what, 'value not modelled')
            continue
        if NUL & td.str[0]:
            if 'opaque' in td.str[3]:
                rep.undecided('store', what, 'text not modelled')
            else:
                rep.violation('nul', '%s .%s' % (q, attr),
                              'line %d: the text stored may contain U+0000 '
                              '(%s)' % (line, show(td)))
        else:
            rep.ok('store', what)
    rep.require('store', 6)
    rep.assumptions.append('html.unescape never yields U+0000')


def check_c13(rep, tier):
    d = solved(rep)
    n = 0
    for (q, line, attr), td in sorted(d.stores.sites.items(), key=str):
        if attr != 'destination':
            continue
        what = '%s:%d' % (q, line)
        if td.str is None:
            if td.top:
                rep.undecided('destination', what, 'value not modelled')
            continue
        n += 1
        bad = td.str[0] - URLSAFE
        if bad:
            if 'opaque' in td.str[3]:
                rep.undecided('destination', what, 'text not modelled')
            else:
                rep.violation('destination', q,
                              'line %d: the destination may contain '
                              'characters %r' % (line, bad))
        else:
            rep.ok('destination', what)
    rep.require('destination', 1)
    rep.assumptions.append('urllib.parse.quote leaves only letters, digits, '
                           '"_.-~%" and its safe argument')
