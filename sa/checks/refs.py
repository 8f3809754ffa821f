"""Link reference definitions: first one wins, one normalisation, all
definitions before any reference, the stored title is consumed text.
"""
from ..values import *
from ..models import strconst, isstr
from ..interp import AnalysisError, Budget
from .. import rx as RXM
from . import parser as PA
from ..charset import CharSet
from .text import Observed, method, inline_class


TITLE = CharSet.of('"\'(')


def dictsites(eng, st, v):
    if isinstance(v, Sy):
        return frozenset(o for o in v.td.objs if o.startswith('dict:'))
    return frozenset()


def chain(v, n=0):
    """operations a text went through, outermost first, ending in its
    source"""
    if n > 40:
        return ('...',)
    if isinstance(v, C):
        return ('const',)
    if isinstance(v, S):
        if len(v.p) != 1 or isinstance(v.p[0], str):
            return ('mix', tuple(sorted(set(
                'const' if isinstance(x, str) else repr(chain(S([x]), n + 1))
                for x in v.p))))
        p = v.p[0]
        im = tuple('image %r' % (x,) for x in sorted(p.imgs))
        return im + piece_chain(p.uid, p, n)
    return ('?',)


def piece_chain(uid, p, n):
    if isinstance(uid, tuple):
        if uid[:1] in (('sub',), ('at',)):
            return ('text',)
        if uid[:1] == ('ret',):
            return ('result of %s' % uid[1],)
        if len(uid) == 2 and isinstance(uid[1], (S, C)):
            op = uid[0]
            if isinstance(op, tuple):
                op = ' '.join(x if isinstance(x, str) else
                              'fn' if not isinstance(x, (RX, C)) else repr(x)
                              for x in op)
            return (str(op),) + chain(uid[1], n + 1)
    return ('?',)


def is_title(rx, cache={}):
    k = (rx.pattern, rx.flags)
    if k not in cache:
        try:
            p = RXM.Pattern(rx.pattern, rx.flags)
            cache[k] = all(RXM.accepts(p.lang_full(), x)
                           for x in ('"t"', "'t'", '(t)')) and \
                not RXM.accepts(p.lang_full(), 't')
        except RXM.Unsupported:
            cache[k] = False
    return cache[k]


def span_of(e, st, v):
    """(base, start, end) of the text a value was computed from"""
    for _ in range(20):
        if not isinstance(v, S) or len(v.p) != 1 or \
           isinstance(v.p[0], str):
            return None
        p = v.p[0]
        if p.span is not None:
            return p.span
        u = p.uid
        if isinstance(u, tuple) and len(u) == 2 and isinstance(u[1], S):
            v = u[1]
            continue
        return None
    return None


def base_of(e, st, v):
    ps = parts(v)
    if ps is None or len(ps) != 1 or isinstance(ps[0], str):
        return None
    return e.base_span(st, ps[0])


class Uncut(object):
    """follow into the given functions too"""

    def __init__(self, e, names=()):
        self.cut, self.names = e.cut, names

    def __call__(self, info):
        return info.qual not in self.names and self.cut(info)


def closure(edges):
    out = {}

    def go(q):
        seen, todo = set([q]), [q]
        while todo:
            for x in edges.get(todo.pop(), ()):
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return seen
    for q in edges:
        out[q] = go(q)
    return out


def check_c14(rep, tier):
    d = PA.solved(rep)
    e = d.eng
    saved = e.MERGE_AT, e.CAP
    try:
        run(rep, d, e)
    finally:
        e.MERGE_AT, e.CAP = saved


def run(rep, d, e):
    stores, looks = [], []

    def onset(st, obj, key, value, node):
        if isinstance(key, C) or not isinstance(obj, Sy):
            return
        s = dictsites(e, st, obj)
        if s:
            stores.append((st.stack[-1], obj, key, value,
                           getattr(node, 'lineno', 0), st.copy()))

    def onget(st, obj, key, node):
        if isinstance(key, C) or not isinstance(obj, Sy):
            return
        if dictsites(e, st, obj):
            looks.append((st.stack[-1], obj, key,
                          getattr(node, 'lineno', 0), st.copy()))
    # which functions store or look up definitions, by the summaries
    with Observed(e, {'setitem': [onset], 'dictget': [onget]}):
        for q in d.touched.roots(('setitem', False), ('dictget', False)):
            try:
                d.run(q)
            except Budget:
                rep.undecided('scan', q, 'budget')
    if not stores:
        rep.undecided('store', 'definitions', 'no definition is stored')
        return
    sites = frozenset()
    for q, obj, key, value, line, st in stores:
        sites |= dictsites(e, st, obj)
    others = [x for x in looks if not dictsites(e, x[4], x[1]) & sites]
    looks = [x for x in looks if dictsites(e, x[4], x[1]) & sites]
    other(rep, e, stores, [x for x in others if not any(
        y[0] == x[0] and y[3] == x[3] for y in looks)])
    storers = sorted(set(x[0] for x in stores))
    lookers = sorted(set(x[0] for x in looks) - set(storers))
    # helpers that compute keys are followed
    follow = set()
    for q, obj, key, *_ in stores + looks:
        for c in chain(key):
            if c.startswith('result of '):
                follow.add(c[10:].split('(')[0])
    runs = sorted(q for q in d.fns if any(
        s == q or s in closure_of(d, q, 1) for s in storers + lookers))
    del stores[:], looks[:]
    saved, e.MERGE_AT = e.MERGE_AT, None
    outcomes = {}
    cut = Uncut(e, follow)
    for q in sorted(set(storers + lookers)):
        if q not in d.fns:
            # a helper that is always followed into
            rq = [x for x in d.fns if q in closure_of(d, x, 3)]
        else:
            rq = [q]
        for x in rq:
            if x in outcomes:
                continue
            try:
                with Observed(e, {'setitem': [onset], 'dictget': [onget],
                                  'regex': [onregex]}, cut):
                    outcomes[x] = d.run(x)
            except Budget:
                rep.undecided('paths', x, 'budget')
    stores = [x for x in stores if dictsites(e, x[5], x[1]) & sites]
    looks = [x for x in looks if dictsites(e, x[4], x[1]) & sites]
    first(rep, e, stores)
    normalised(rep, e, stores, looks, set(storers))
    for x, (args, res) in sorted(outcomes.items()):
        if x in storers or any(s in closure_of(d, x, 3) for s in storers):
            titles(rep, e, x, res)
    e.MERGE_AT = saved
    order(rep, d, e, set(storers), set(lookers), sites)
    rep.require('first', 1)


def closure_of(d, q, depth):
    seen, cur = set([q]), set([q])
    for _ in range(depth):
        cur = set(y for x in cur for y in d.edges.edges.get(x, ())) - seen
        seen |= cur
    return seen


def onregex(st, rx, subject, mode, node):
    st.event(('regex', rx, subject, mode))


def has_fact(st, obj, key):
    """True/False/None: is the key known to be in the map?"""
    r = None
    for k, v in st.facts.items():
        if isinstance(k, tuple) and k[:1] == ('has',) and len(k) > 2 and \
           (k[1] == obj.k or k[1] == obj) and k[2] == key:
            r = v
    return r


def other(rep, e, stores, others):
    """lookups by a label in a map in which nothing is ever stored"""
    keys = set(chain(x[2]) for x in stores)
    copies = set((q, line) for q, obj, key, line, st in others
                 if dictsites(e, st, obj) & e.copied)
    for q, obj, key, line, st in others:
        ts = dictsites(e, st, obj)
        ents = [e.types.get(t) or {} for t in ts]
        if ts & e.copied or (q, line) in copies:
            rep.undecided('map', q, 'references are looked up in a copy')
            continue
        if chain(key) in keys and not any(
                a.startswith('[') for x in ents for a in x):
            rep.violation('map', q, 'line %d: references are looked up in a '
                          'map in which no definition is stored' % line)


def first(rep, e, stores):
    bad = {}
    for q, obj, key, value, line, st in stores:
        r = has_fact(st, obj, key)
        if r is False:
            rep.ok('first', '%s line %d' % (q, line))
        elif r is True:
            bad[(q, line)] = 'an earlier definition is replaced'
        else:
            bad[(q, line)] = 'a definition is stored without looking for ' \
                'an earlier one under the same key'
    for (q, line), why in sorted(bad.items()):
        rep.violation('first', q, 'line %d: %s' % (line, why))


def normalised(rep, e, stores, looks, storers):
    a = {}
    for q, obj, key, value, line, st in stores:
        a.setdefault(chain(key), (q, line))
    b = {}
    for q, obj, key, line, st in looks:
        if q not in storers:
            b.setdefault(chain(key), (q, line))
    ends = lambda s: frozenset(x for x in s if x[-1] != 'const')
    x, y = ends(a), ends(b)
    if not y:
        rep.undecided('normalised', 'references', 'no lookup found')
        return
    if x == y:
        for c in sorted(x):
            rep.ok('normalised', ' of '.join(c)[:150])
        return
    for c in sorted(y - x):
        vague = any('?' in z or z.startswith('mix') or z == '...'
                    for z in c) or any(
            z.startswith('result of') for z in c)
        what = '%s line %d' % b[c]
        if vague and not any(len(c) > len(o) and c[-len(o):] == o
                             for o in x):
            rep.undecided('normalised', what, ' of '.join(c)[:150])
            continue
        rep.violation('normalised', b[c][0], 'line %d: a reference is looked '
                      'up under %s; definitions are stored under %s' % (
                          b[c][1], ' of '.join(c)[:200],
                          '; '.join(' of '.join(o)[:200]
                                    for o in sorted(x))))
    if not (y - x):
        for c in sorted(x - y):
            rep.violation('normalised', a[c][0], 'line %d: a definition is '
                          'stored under %s, no reference is looked up so' % (
                              a[c][1], ' of '.join(c)[:200]))


def title_matches(e, st):
    """[(base, start, end, index of event)] of matched titles on the path"""
    out = []
    for i, ev in enumerate(st.events()):
        if ev[0] != 'regex' or not is_title(ev[1]):
            continue
        k = ('rx', ev[1], ev[3], ev[2])
        if st.facts.get(k) is not True:
            continue
        b = base_of(e, st, ev[2])
        if b is None:
            continue
        w = symint(('nat', 'me', ('m', ev[1], ev[3], ev[2])))
        out.append((b[0], b[1], iadd(b[1], w), i, w))
    return out


def blank_match(e, rx, cache={}):
    """the pattern matches neither quotes nor parentheses"""
    k = (rx.pattern, rx.flags)
    if k not in cache:
        try:
            lang = RXM.Pattern(rx.pattern, rx.flags).lang_full()
            q = RXM.cat(RXM.cat(RXM.star(RXM.SIGMA), RXM.chrs(TITLE)),
                        RXM.star(RXM.SIGMA))
            cache[k] = RXM.witness(RXM.conj(lang, q)) is None
        except RXM.Unsupported:
            cache[k] = False
    return cache[k]


def stops_before(e, st, pos, a):
    """the position is not beyond the start a of a title"""
    if st.prove_le(pos, a):
        return True
    for ev in st.events():
        if ev[0] != 'regex' or st.facts.get(
                ('rx', ev[1], ev[3], ev[2])) is not True:
            continue
        b = base_of(e, st, ev[2])
        if b is None:
            continue
        w = symint(('nat', 'me', ('m', ev[1], ev[3], ev[2])))
        if st.prove_eq(iadd(b[1], w), pos) and st.prove_le(b[1], a) and \
           blank_match(e, ev[1]):
            return True
    return False


def titles(rep, e, q, res):
    for st, v in res:
        if isexc(v):
            continue
        got = None
        for oid, o in st.heap.items():
            if o.kind == 'dict' and isinstance(o.items, dict) and \
               'title' in o.items and 'destination' in o.items:
                got = o.items['title']
        tm = title_matches(e, st)
        if got is not None and isinstance(v, (C, I)):
            pos = v
            if isinstance(got, C):
                what = '%s: definition without title' % q
                if not tm:
                    rep.ok('title', what)
                for base, a, b, i, w in tm:
                    if stops_before(e, st, pos, a):
                        rep.ok('title', what + ' (rejected)')
                    elif st.prove_le(b, pos) and not st.prove_le(w, C(2)):
                        rep.violation('title', q, 'a title is consumed but '
                                      'not stored')
                    else:
                        rep.ok('title', what + ' (empty)')
                continue
            sp = span_of(e, st, got)
            if sp is None:
                rep.undecided('title', q, repr(got)[:100])
            elif st.prove_le(sp[2], pos):
                rep.ok('title', '%s: title consumed' % q)
            elif stops_before(e, st, pos, sp[1]):
                rep.violation('title', q, 'the text of a title that is not '
                              'consumed is stored')
            else:
                rep.undecided('title', q, 'consumed %r, title ends at %r' % (
                    pos, sp[2]))
        elif got is None and isinstance(v, C) and v.v == 0 and tm:
            base, a, b, i, w = tm[-1]
            retry, last = False, None
            for ev in st.events()[i + 1:]:
                if ev[0] != 'regex':
                    continue
                sp = base_of(e, st, ev[2])
                if sp is None or sp[0] != base:
                    continue
                hit = st.facts.get(('rx', ev[1], ev[3], ev[2]))
                if st.prove_le(sp[1], a):
                    retry = True
                last = hit
            if last is False and not retry:
                rep.violation('title', q, 'text after a title rejects the '
                              'whole definition: it is not tried without '
                              'the title')
            else:
                rep.ok('title', '%s: rejected with a title' % q)


def order(rep, d, e, storers, lookers, sites):
    """no definition is stored once references are being resolved"""
    edges = d.edges.edges
    reach = closure(edges)
    droppers = set()

    def kinds(q):
        r = reach.get(q, set([q])) | set([q])
        return bool(r & storers), bool(r & lookers)
    bad = {}
    n = [0]

    def note(st, fn, node, o=None):
        s, l = kinds(fn.info.qual)
        if fn.info.qual in droppers or reach.get(
                fn.info.qual, set()) & droppers:
            if s and not l or any(ev[0] in ('stored', 'looked')
                                  for ev in st.events()):
                st.event(('dropper', fn.info.qual, s and not l))
        if not (s or l):
            return
        n[0] += 1
        before = any(ev[0] == 'looked' for ev in st.events())
        if s and before:
            bad[(st.stack[-1] if st.stack else '?', fn.info.qual)] = \
                getattr(node, 'lineno', 0)
        if l:
            st.event(('looked', fn.info.qual))
        if s:
            st.event(('stored', fn.info.qual))

    def summary(st, fn, args, bound, node):
        note(st, fn, node)

    def loop_done(st, node, head, backs, exits, entry, gens):
        for b in backs:
            evs = b.events()[len(head.events()):]
            if any(x[0] == 'looked' for x in evs):
                for b2 in backs:
                    w = [x for x in b2.events()[len(head.events()):]
                         if x[0] == 'stored']
                    if w:
                        bad[(st.stack[-1] if st.stack else '?', w[0][1])] = \
                            node.lineno
        evs = [x for b in backs for x in b.events()[len(head.events()):]]
        if any(x[0] == 'looked' for x in evs):
            return
        for x in evs:
            if x[0] == 'dropper' and (
                    x[2] or any(y[0] == 'stored' for y in evs)):
                resets[(x[1], 'the map of definitions')] = node.lineno
    resets = {}
    attrs = set()
    for t, ent in e.types.items():
        if isinstance(ent, dict):
            for a, td in ent.items():
                if isinstance(td, TD) and td.objs & sites and \
                   not a.startswith('[') and t in e.classes:
                    attrs.add(a)

    def onset(st, obj, attr, value, node, o):
        if attr not in attrs:
            return
        if isinstance(value, R):
            x = st.obj(value.oid)
            if x is not None and x.kind == 'dict' and any(
                    ev[0] in ('stored', 'looked') for ev in st.events()):
                resets[(st.stack[-1], attr)] = node.lineno
    droppers.update(fresh_sets(d, e, attrs))
    for q in sorted(d.fns):
        if not all(kinds(q)) or q in storers or q in lookers:
            continue
        try:
            with Observed(e, {'summary': [summary], 'loop_done': [loop_done],
                              'setattr': [onset]}):
                d.run(q)
            rep.ok('order', q)
        except Budget:
            rep.undecided('order', q, 'budget')

    for (q, w), line in sorted(bad.items()):
        rep.violation('order', q, 'line %d: %s may store a definition after '
                      'references were resolved' % (line, w))
    for (q, a), line in sorted(resets.items()):
        rep.violation('order', q, 'line %d: the definitions in %s are '
                      'dropped after some were stored' % (line, a))
    if not n[0]:
        rep.undecided('order', 'parse', 'no calls found')
    same_map(rep, d, e, storers, lookers, sites, attrs)


def fresh_sets(d, e, attrs):
    """functions, not constructors, that put a new map in one of attrs"""
    out = set()

    def onset(st, obj, attr, value, node, o):
        if attr in attrs and isinstance(value, R) and \
           not st.stack[-1].endswith('__init__'):
            x = st.obj(value.oid)
            if x is not None and x.kind == 'dict':
                out.add(st.stack[-1])
    with Observed(e, {'setattr': [onset]}):
        for q in d.touched.roots(*[('setattr', a) for a in attrs]):
            try:
                d.run(q)
            except Budget:
                pass
    return out


def same_map(rep, d, e, storers, lookers, sites, attrs):
    """references are looked up in the map definitions are stored in"""
    icls = inline_class(d)
    keys = set()

    def norm(v):
        return v.k if isinstance(v, Sy) else None
    found = {}

    def summary(st, fn, args, bound, node):
        q = fn.info.qual
        if q in storers:
            for a in args:
                if isinstance(a, Sy) and a.td.objs & sites:
                    keys.add(norm(a))

    def before(st, fn, args, bound, node):
        r = reach.get(fn.info.qual, set()) | set([fn.info.qual])
        if r & lookers and fn.info.cls is icls and args and isinstance(
                args[0], Sy) and (not st.stack or d.fns.get(
                    st.stack[-1]) is None or d.fns[
                        st.stack[-1]].info.cls is not icls):
            for a in attrs:
                for s, v in e.getattr(st.copy(), args[0], a, None):
                    if not isexc(v):
                        found.setdefault((st.stack[-1], a), []).append(
                            (v, (args[0].k, a) in s.sy))
    reach = closure(d.edges.edges)
    callers = d.touched.roots(*[k for k in d.touched.by if k[:1] == (
        'summary',) and (k[1] in storers or k[1] in d.fns and
                         d.fns[k[1]].info.cls is icls)])
    with Observed(e, {'summary': [summary, before]}):
        for q in callers:
            if d.fns[q].info.cls is icls:
                continue
            try:
                d.run(q)
            except Budget:
                pass
    tails = set(last_field(k) for k in keys if k)
    for (q, a), vs in sorted(found.items()):
        for v, written in vs:
            if isinstance(v, R):
                if v.oid in e.copied or e.dict_type(v.oid) in e.copied:
                    rep.undecided('map', q, 'a copy of the definitions')
                else:
                    rep.violation('map', q, 'references are looked up in a '
                                  'map of their own')
            elif isinstance(v, Sy) and v.k in keys:
                rep.ok('map', '%s .%s' % (q, a))
            elif isinstance(v, Sy) and last_field(v.k) in tails:
                rep.ok('map', '%s .%s' % (q, a))
            else:
                rep.undecided('map', q, '%s is %s' % (a, repr(v)[:100]))


def last_field(k):
    return tuple(k[-2:]) if isinstance(k, tuple) else k
