"""Rendering and dumping as functions: they change nothing, are repeatable,
raise nothing, and the top-level function is made of them.

The public `render` of each renderer and the dump functions are interpreted
over one symbolic event at a time, in every renderer context; every store is
observed.
"""
import ast

from ..values import *
from ..charset import CharSet, ALL
from ..interp import AnalysisError, Budget, Interp
from ..state import Obj
from ..rdriver import RendererDriver, CONTAINERS, LEAVES, CUSTOM, lab
from . import html as H

INLINE = ('text', 'softbreak', 'linebreak', 'code', 'emph', 'strong',
          'link', 'image', 'html_inline')


class Plain(object):
    """stands for the lexed output where nothing is lexed"""

    def __init__(self):
        self.child = 'text'
        self.end = 'text'
        self.errors = []
        self.events = []


def rst_driver(repo=None):
    d = RendererDriver('ReStructuredTextRenderer', None, repo)
    d.ctor_args = lambda: []
    d.discover(CONTAINERS + LEAVES)
    return d


def rooted(k):
    """is the access path inside the rendered tree?"""
    while isinstance(k, tuple) and k:
        if k[0] in ('root', 'node', 'child'):
            return True
        k = k[0]
    return False


class Changes(object):
    """observes every change of an object that existed before the call"""

    def __init__(self, eng, tree=rooted):
        self.eng = eng
        self.tree = tree
        self.hits = {}       # (function, line, what) -> description
        self.seen = 0
        h = eng.hooks
        h.setdefault('setattr', []).append(self.on_set)
        h.setdefault('setitem', []).append(self.on_item)
        h.setdefault('mutate', []).append(self.on_mut)

    def where(self, st, node):
        return st.stack[-1] if st.stack else '?', getattr(node, 'lineno', 0)

    def hit(self, st, node, kind, what):
        self.hits.setdefault(self.where(st, node) + (kind,), what)

    def owner(self, obj):
        if isinstance(obj, Sy):
            if self.tree(obj.k):
                return 'tree'
            return None
        if isinstance(obj, K):
            return 'class %s' % obj.info.name
        if isinstance(obj, R) and obj.oid in self.eng.base:
            o = self.eng.base[obj.oid]
            if o.kind == 'frame':
                return None
            return 'module-level %s' % o.kind
        return None

    def on_set(self, st, obj, attr, value, node, o):
        self.seen += 1
        w = self.owner(obj)
        if w is not None:
            self.hit(st, node, w, 'attribute %s is set' % attr)

    def on_item(self, st, obj, key, value, node):
        self.seen += 1
        w = self.owner(obj)
        if w is not None and not self.memo(obj, key, value):
            self.hit(st, node, w, 'entry %r is set' % (key,))

    allow_memo = False

    def memo(self, obj, key, value):
        """a table entry that depends on its key alone"""
        if not self.allow_memo or not isinstance(obj, R):
            return False
        kp, vp = parts(key), parts(value)
        if not kp or vp is None:
            return False
        known = set(x.uid for x in kp if isinstance(x, P))
        return bool(known) and all(
            isinstance(x, str) or x.uid in known or
            mentions_all(x.uid, known) for x in vp)

    def on_mut(self, st, obj, meth, args, node):
        self.seen += 1
        w = self.owner(obj)
        if w is not None:
            self.hit(st, node, w, '%s() changes it' % meth)


def mentions_all(uid, known):
    """is a piece computed from known pieces only?"""
    found = []

    def walk(x):
        if isinstance(x, P):
            found.append(x.uid in known)
        elif isinstance(x, V):
            for f in x.fields:
                walk(getattr(x, f))
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                walk(y)
    walk(uid)
    return bool(found) and all(found)


# --------------------------------------------------------------------- C07
class StaleDriver(object):
    """renderer fields at the first event of a second rendering"""

    def __init__(self, d):
        self.d = d

    def at_first_event(self, stale):
        """[{field: value}] before the first event is handled"""
        d = self.d
        out = []
        prep, inst = d.prepare, d.instance

        def prepare(st, n):
            if n == 0:
                out.append((st.copy(), d.fields(st)))
            prep(st, n)

        def instance(st, args=None):
            res = []
            for s, r in inst(st, args):
                if isinstance(r, R) and stale:
                    o = s.obj(r.oid)
                    fs = dict(o.fields)
                    for (name, sub), istext in d.changed.items():
                        v = fs.get(name)
                        if sub == 'items':
                            if isinstance(v, R):
                                lo = s.obj(v.oid)
                                s.put(v.oid, lo.but(
                                    items=(), rest=S([P(
                                        ('stale', name))])))
                            continue
                        if istext or parts(v) is not None:
                            fs[name] = S([P(('stale', name))])
                        elif isinstance(v, C) and isinstance(v.v, bool):
                            fs[name] = Sy(('stale', name), TD(bool=True))
                        elif toI(v) is not None:
                            fs[name] = symint(('stale', name))
                        else:
                            fs[name] = Sy(('stale', name), ANYTD)
                    s.put(r.oid, s.obj(r.oid).but(fields=fs))
                res.append((s, r))
            return res
        d.prepare, d.instance = prepare, instance
        try:
            for t in ('document', 'paragraph'):
                d.run(t, ['in'])
        finally:
            d.prepare, d.instance = prep, inst
        return out


def field_reads(d, names):
    """handlers that read each field"""
    out = {n: set() for n in names}

    def on_get(st, obj, attr, node, **kw):
        if attr in out and isinstance(obj, R) and obj.oid == d.rid and \
           getattr(d, 'in_event', False):
            out[attr].add(st.stack[-1] if st.stack else '?')
    h = d.eng.hooks.setdefault('access', [])
    h.append(on_get)
    d.on_event = lambda st, n: setattr(d, 'in_event', True)
    for t in CONTAINERS + LEAVES:
        d.in_event = False
        d.run(t, ['in', 'child', 'out'] if t in CONTAINERS else ['in'])
    d.in_event = False
    d.on_event = None
    del d.eng.hooks['access']
    return out


def leftovers(rep, cname, d, results):
    """fields that carry information from one rendering to the next"""
    sd = StaleDriver(d)
    fresh = sd.at_first_event(False)
    stale = sd.at_first_event(True)
    if not fresh or not stale:
        rep.undecided('repeatable', cname, 'no event was rendered')
        return
    bad = []
    for key in sorted(d.changed, key=show_key):
        vals = set()
        for st, f in fresh:
            vals.add(repr(f.get(key)))
        reset = all(repr(f.get(key)) in vals for st, f in stale)
        if reset:
            rep.ok('repeatable', '%s.%s is reset before the first event' % (
                cname, key[0]))
        else:
            bad.append(key)
    if not bad:
        return
    reads = field_reads(d, set(k[0] for k in bad))
    for key in bad:
        name = key[0]
        what = '%s.%s' % (cname, name)
        if not reads[name]:
            rep.ok('repeatable', what + ' is never read while rendering')
            continue
        broken, unknown, n = None, None, 0
        for ctx, t, oc in results:
            if isexc(oc.value) or len(oc.ctxs) < 2 and not oc.fields:
                continue
            if key[1] == 'items':
                unknown = 'list field'
                continue
            if key in d.textual:
                broken = broken or (t, 'the text is not reset')
                continue
            if len(oc.ctxs) < 2:
                continue
            a, b = dict(oc.ctxs[0]).get(name), dict(oc.ctxs[-1]).get(name)
            n += 1
            if a == b or (toI(a) is not None and toI(b) is not None and
                          oc.st.prove_eq(a, b)):
                continue
            broken = broken or (t, 'a %s node leaves it at %r instead of %r'
                                % (t, b, a))
        if key[1] == 'items' and broken is None:
            r = list_restored(d, name)
            if r is True:
                rep.ok('repeatable', what + ' is restored by every node')
            elif r is None:
                rep.undecided('repeatable', what, unknown)
            else:
                rep.violation('repeatable', what, '%s: not reset by render; '
                              'read by %s; %s' % (
                                  what, sorted(reads[name]), r))
        elif broken is None:
            rep.ok('repeatable', what + ' is restored by every node', n)
        else:
            rep.violation('repeatable', what, 'render does not reset it, %s, '
                          'and %s read it in the next rendering' % (
                              broken[1], ', '.join(sorted(reads[name]))))


def list_restored(d, name):
    """is a list field as long after each node as before? True, None or a
    description"""
    old = d.textual
    d.textual = frozenset(k for k in old if k[0] != name)
    try:
        for t in CONTAINERS + LEAVES:
            for oc in d.run(t, ['in', 'child', 'out']
                            if t in CONTAINERS else ['in']):
                if isexc(oc.value) or oc.fields is None:
                    continue
                a = d.init_fields.get((name, 'items'))
                b = oc.fields.get((name, 'items'))
                if b is None or b[1] is not None or a is None:
                    return None
                if len(a[0]) != len(b[0]):
                    return 'a %s node leaves %d entries more than before' % (
                        t, len(b[0]) - len(a[0]))
    finally:
        d.textual = old
    return True


def explore_any(d, lexer):
    seen, results = H.explore(d, lexer=lexer)
    return results


def walker_paths(rep, eng, d, ch):
    """NodeWalker.__next__ itself, on a symbolic position"""
    ic = eng.intercepts.pop(d.next_qual)
    try:
        for t in CONTAINERS + LEAVES + CUSTOM:
            d.cur = None
            st = eng.new_state()
            root, node = d.node('root'), d.node('node')
            st.sy[(node.k, 't')] = C(t)
            for s, w in eng.call(st, BM(eng.class_attr(
                    st, d.node_info, 'walker'), root), [], {}, None):
                if isexc(w):
                    continue
                for s1, m in eng.getattr(s, w, 'resume_at', None):
                    if isexc(m):
                        continue
                    for ent in (TRUE, FALSE):
                        for s2, _ in eng.call(s1.copy(), m, [node, ent], {},
                                              None):
                            for s3, nx in eng.getattr(s2, w, 'nxt', None):
                                if isexc(nx):
                                    continue
                                for s4, v in eng.call(s3, nx, [], {}, None):
                                    rep.ok('walk', t)
    finally:
        eng.intercepts[d.next_qual] = ic


class DumpDriver(RendererDriver):
    """calls a dump function on a symbolic tree; the walker yields events
    about an arbitrary node of one type any number of times"""

    def __init__(self, repo=None):
        RendererDriver.__init__(self, 'HtmlRenderer', None, repo)
        self.eng.MERGE_AT = 4
        self.eng.CAP = 12

    def step(self, eng, st, f, args, kw, node):
        n = st.visits.get(('dump', 'step'), 0)
        st.visits[('dump', 'step')] = n + 1
        a, b = st.copy(), st
        nd = self.node('node')
        return [(a, Exc('StopIteration', node, '', eng.where(st, node))),
                (b, Tup([nd, Sy(('entering', n), TD(bool=True))]))]

    def call(self, fn, t):
        e = self.eng
        self.cur = t
        e.steps = 0
        st = e.new_state()
        st.sy[(self.node('node').k, 't')] = C(t)
        f = e.public(fn)
        if not isinstance(f, Fn):
            raise AnalysisError('%s is not a function' % fn)
        return e.call(st, f, [self.node('root')], {}, None)


def report_changes(rep, ch, what, classes=True):
    for (q, line, owner), why in sorted(ch.hits.items(), key=str):
        if owner == 'tree':
            rep.violation('tree-changed', q, '%s: line %d of %s: %s of a '
                          'node or its data' % (what, line, q, why))
        else:
            rep.violation('global-changed', q, '%s: line %d of %s: %s of '
                          'a %s, so a later call can differ' % (
                              what, line, q, why, owner))


def check_c07(rep, tier):
    for cname, mk, lexer in (
            ('HtmlRenderer', H.driver, H.lex),
            ('ReStructuredTextRenderer', rst_driver,
             lambda em, ls, t: Plain())):
        d = mk()
        ch = Changes(d.eng)
        ch.allow_memo = True
        results = []
        try:
            for ctx, t, oc, L in explore_any(d, lexer):
                results.append((ctx, t, oc))
                rep.ok('path', '%s: %s %s' % (cname, t, ctx.name))
            # nodes made by programs may be of the custom types
            for t in CUSTOM:
                for oc in d.run(t, ['in', 'child', 'out']):
                    rep.ok('path', '%s: %s' % (cname, t))
        except Budget:
            rep.undecided('path', cname, 'budget')
        leftovers(rep, cname, d, results)
        walker_paths(rep, d.eng, d, ch)
        report_changes(rep, ch, cname + '.render')
    for fn in ('dumpAST', 'dumpJSON'):
        d = DumpDriver()
        ch = Changes(d.eng)
        ch.allow_memo = True
        for t in CONTAINERS + LEAVES + CUSTOM:
            try:
                for s, v in d.call(fn, t):
                    rep.ok('path', '%s: %s' % (fn, t))
            except Budget:
                rep.undecided('path', fn, 'budget')
        report_changes(rep, ch, fn)
    rep.require('path', 60)
    rep.require('repeatable', 2)
    rep.assumptions.append('values passed to the renderer are those of trees '
                           'with the field types the parser gives them')


# --------------------------------------------------------------------- C22
def whole(p, uid):
    """the piece is the text itself, or one of its lines"""
    return p.uid == uid and not p.ops and not p.imgs


LINE_OPS = frozenset(['splitlines', 'split', 'join', 'element'])


def line_values(oc, p):
    """texts a joined list is made of"""
    u = p.uid
    if isinstance(u, tuple) and len(u) > 2 and u[0] == 'join' and \
       isinstance(u[2], R):
        o = oc.st.obj(u[2].oid)
        if o is not None:
            out = list(o.items or ())
            if o.rest is not None:
                out.append(o.rest)
            return out
    return None


class Appends(object):
    """texts appended to lists while a node is rendered, and the loops over
    the lines of a literal"""

    def __init__(self, eng):
        self.got = []
        self.skips = set()
        self.slices = set()
        self.over = {}
        h = eng.hooks
        h.setdefault('mutate', []).append(self.on_mut)
        h.setdefault('loop_done', []).append(self.on_loop)
        h.setdefault('iterate', []).append(self.on_iter)

    def on_mut(self, st, obj, meth, args, node):
        if meth == 'append' and args:
            self.got.append((st, args[0], node))
            if parts(args[0]) is not None:
                st.event(('append',))

    def on_iter(self, st, value, node):
        o = st.obj(value.oid) if isinstance(value, R) else None
        ps = parts(o.rest) if o is not None and o.rest is not None else None
        lit = any(isinstance(p, P) and 'literal' in p.labels
                  for p in ps or ())
        self.over[id(node)] = lit
        if lit and value.oid[0][0] == 'slice':
            self.slices.add((st.stack[-1], node.lineno))

    def on_loop(self, st, node, head, backs, **kw):
        if not self.over.get(id(node)):
            return
        n0 = len(head.events())
        ns = set(sum(1 for e in b.events()[n0:] if e == ('append',))
                 for b in backs)
        if len(ns) > 1 and 0 in ns:
            self.skips.add((st.stack[-1], node.lineno))


def check_c22(rep, tier):
    d = rst_driver()
    app = Appends(d.eng)
    results = H.explore(d, lexer=lambda em, ls, t: Plain())[1]
    shown = [(ctx.name, t, oc.st.facts) for ctx, t, oc, L in results
             if oc.ok and any(isinstance(p, P) and 'literal' in p.labels
                              for p in oc.emitted)]
    for ctx, t, oc, L in results:
        site = '%s %s' % (H.handler_of(d, t).split(' line')[0], ctx.name)
        cond = H.cond_str(oc)
        if isexc(oc.value):
            rep.violation('raises', site, 'rendering a %s node %s: %s (%s) '
                          'raised at %s; path [%s]' % (
                              t, ctx.name, oc.value.name, oc.value.detail,
                              oc.value.where, cond))
            continue
        if oc.emitted is None:
            if parts(oc.value) is None:
                rep.undecided('output', site, repr(oc.value)[:200])
            else:
                rep.violation('lost-output', site, 'what was rendered '
                              'before a %s node is not in the result' % t)
            continue
        rep.ok('renders', site)
        if len(oc.ctxs) >= 2:
            if H.same_ctx(oc):
                rep.ok('indentation', site)
            else:
                rep.violation('indentation', site, 'a %s node %s changes '
                              'the state %s to %s; path [%s]' % (
                                  t, ctx.name, oc.ctxs[0], oc.ctxs[-1],
                                  cond))
        if t in CONTAINERS:
            n = sum(1 for p in oc.emitted if isinstance(p, P) and
                    'child' in p.labels)
            if n == 1:
                rep.ok('children', site)
            else:
                rep.violation('children', site, 'the text inside a %s node '
                              'appears %d times in %s' % (
                                  t, n, H.show_emit(oc.emitted)))
        if t in ('text', 'code', 'code_block'):
            literal(rep, d, oc, t, site, cond, app,
                    (ctx.name, t, oc.st.facts) in shown)
    rep.require('renders', 40)
    rep.require('indentation', 30)
    rep.require('literal', 3)


def literal(rep, d, oc, t, site, cond, app, lines):
    uid = ('node', '.literal')
    ps = [p for p in oc.emitted if isinstance(p, P) and
          'literal' in p.labels]
    if not ps:
        if H.is_empty(oc, uid) or H.has_const(oc.emitted,
                                              H.only_value(oc, uid)):
            rep.ok('literal', site)
        elif t == 'code_block' and lines:
            # a loop over its lines that does not run: no lines
            rep.ok('literal', site)
        else:
            rep.violation('literal', site, 'the literal of a %s node is '
                          'not emitted; path [%s]; emitted %s' % (
                              t, cond, H.show_emit(oc.emitted)))
        return
    if len(ps) == 1 and whole(ps[0], uid):
        rep.ok('literal', site)
        return
    if t in ('text', 'code'):
        rep.violation('literal', site, 'a %s node emits %s instead of its '
                      'literal' % (t, H.show_emit(oc.emitted)))
        return
    # indented line by line
    bad = None
    for q, line in sorted(app.skips):
        bad = 'the loop at line %d of %s leaves lines out' % (line, q)
    for q, line in sorted(app.slices):
        bad = 'the loop at line %d of %s takes only some of its lines' % (
            line, q)
    unknown = True
    vals = []
    for p in ps:
        vs = line_values(oc, p)
        if vs is not None:
            vals += [v for v in vs if parts(v) is not None]
    for st, v, node in app.got:
        if parts(v) is not None:
            vals.append(v)
    for v in vals:
        lp = [p for p in parts(v) if isinstance(p, P) and
              'literal' in p.labels]
        for p in lp:
            unknown = False
            if p.uid[0] == 'sub' and not p.imgs:
                bad = 'its lines are cut'
            elif p.imgs:
                bad = 'its lines are changed'
            elif not p.ops <= LINE_OPS:
                bad = 'its lines are cut by %s' % sorted(p.ops - LINE_OPS)
    if bad is not None:
        rep.violation('literal', site, 'code block literal: %s' % bad)
    elif unknown:
        rep.undecided('literal', site, H.show_emit(oc.emitted))
    else:
        rep.ok('literal', site)


# --------------------------------------------------------------------- C21
FORMATS = {'html': 'HtmlRenderer', 'rst': 'ReStructuredTextRenderer',
           'json': 'dumpJSON', 'ast': 'dumpAST'}


class TopLevel(object):
    """interprets commonmark() with the parts it is made of replaced"""

    def __init__(self, repo=None):
        self.eng = e = Interp(repo)
        e.load_all()
        self.fn = e.public('commonmark')
        if not isinstance(self.fn, Fn):
            self.fn = None
            for name, (tree, _, _) in sorted(e.trees.items()):
                if name.endswith('.main'):
                    x = e.module_attr(name, 'commonmark')
                    if isinstance(x, Fn):
                        self.fn = x
        if self.fn is None:
            raise AnalysisError('function commonmark not found')
        self.kinds = {}
        for cname in ('Parser', 'HtmlRenderer', 'ReStructuredTextRenderer'):
            k = e.public(cname)
            if not isinstance(k, K):
                raise AnalysisError('%s not found' % cname)
            e.intercepts[k.info.qual] = self.make(cname, k)
            for m in ('parse', 'render'):
                f = e.class_attr(e.new_state(), k.info, m)
                if isinstance(f, Fn):
                    e.intercepts[f.info.qual] = self.method(m)
        for fn in ('dumpJSON', 'dumpAST'):
            f = e.public(fn)
            if not isinstance(f, Fn):
                raise AnalysisError('%s not found' % fn)
            e.intercepts[f.info.qual] = self.dump(fn)

    def make(self, cname, k):
        def go(eng, st, kk, args, kw, node):
            dflt = all(self.default(st, a) for a in
                       list(args) + list(kw.values()))
            r = st.alloc(('tl', cname), Obj('inst', k.info, {}))
            st.event(('new', cname, dflt, r))
            return [(st, r)]
        return go

    def default(self, st, v):
        if isinstance(v, C) and v.v in (None, ' '):
            return True
        o = st.obj(v.oid) if isinstance(v, R) else None
        return o is not None and o.kind == 'dict' and not o.items and \
            o.rest is None

    def method(self, m):
        def go(eng, st, f, args, kw, node):
            a = list(args[1:]) + list(kw.values())
            if m == 'parse':
                v = Sy(('tree', tuple(a)), ANYTD)
            else:
                v = S([P(('rendered', args[0], tuple(a)), lo=0)])
            st.event((m, args[0], tuple(a), v))
            return [(st, v)]
        return go

    def dump(self, fn):
        def go(eng, st, f, args, kw, node):
            a = tuple(args) + tuple(kw.values())
            v = S([P(('dumped', fn, a))])
            st.event((fn, None, a, v))
            return [(st, v)]
        return go

    def run(self, fmt):
        e = self.eng
        st = e.new_state()
        text = S([P(('text',))])
        args = [text] + ([fmt] if fmt is not None else [])
        return text, e.call(st, self.fn, args, {}, None)


def check_c21(rep, tier):
    tl = TopLevel()
    site = tl.fn.info.qual
    cases = [(None, 'html')] + [(C(f), f) for f in sorted(FORMATS)]
    for fmt, f in cases:
        text, res = tl.run(fmt)
        what = 'format %s' % (f if fmt is not None else 'default')
        if not res:
            rep.undecided('format', what, 'no path')
        for st, v in res:
            judge_format(rep, tl, st, v, text, f, what, site)
    # any other text, and other values
    other = S([P(('format',))])
    for fmt in (other, NONE, C(3), C(''), C('HTML'), C('htm'), C('xml')):
        text, res = tl.run(fmt)
        for st, v in res:
            what = 'format %r' % (fmt.v if isinstance(fmt, C) else 'other')
            if fmt is other:
                n = st.nar.get(('format',))
                if n is not None and n.allow is not None:
                    if len(n.allow) == 1 and next(iter(n.allow)) in FORMATS:
                        f = next(iter(n.allow))
                        judge_format(rep, tl, st, v, text, f,
                                     'format %s' % f, site)
                        continue
                elif not isexc(v) and any(
                        k[0] not in ('eq',) for k in st.facts):
                    rep.undecided('other-format', what,
                                  'test of the format not understood')
                    continue
            if isexc(v) and v.name == 'ValueError':
                rep.ok('other-format', what)
            elif isexc(v):
                rep.violation('other-format', site, '%s raises %s instead '
                              'of ValueError' % (what, v.name))
            else:
                rep.violation('other-format', site, '%s does not raise '
                              'ValueError but returns %r' % (what, v))
    rep.require('format', 5)
    rep.require('other-format', 4)


def judge_format(rep, tl, st, v, text, f, what, site):
    ev = st.events()
    if isexc(v):
        rep.violation('format', site, '%s raises %s (%s)' % (
            what, v.name, v.detail))
        return
    ps = parts(v)
    part = FORMATS[f]
    ok = [x for x in ev if x[0] in ('render', 'dumpJSON', 'dumpAST') and
          x[3] == v]
    if not ok:
        if ps is None and not isinstance(v, C):
            rep.undecided('format', what, 'result %r' % (v,))
            return
        rep.violation('format', site, '%s returns %r, not the result of %s'
                      % (what, v, part))
        return
    x = ok[-1]
    made = {e[3]: e for e in ev if e[0] == 'new'}
    if x[0] == 'render':
        m = made.get(x[1])
        if m is None or m[1] != part or not m[2]:
            rep.violation('format', site, '%s is rendered by %s' % (
                what, 'another renderer' if m is None or m[2] else
                'a %s with options' % m[1]))
            return
    elif x[0] != part:
        rep.violation('format', site, '%s is made by %s' % (what, x[0]))
        return
    trees = [e for e in ev if e[0] == 'parse' and x[2][:1] == (e[3],)]
    if not trees:
        rep.violation('format', site, '%s: what is rendered is not the '
                      'parsed tree but %r' % (what, x[2][:1]))
        return
    p = trees[-1]
    m = made.get(p[1])
    if p[2] != (text,):
        rep.violation('format', site, '%s: %r is parsed instead of the text'
                      % (what, p[2]))
    elif m is None or not m[2] or m[1] != 'Parser':
        rep.violation('format', site, '%s: the parser has options' % what)
    elif any(not (isinstance(a, C) and not a.v) for a in x[2][1:]):
        rep.violation('format', site, '%s: arguments %r' % (what, x[2][1:]))
    else:
        rep.ok('format', what)
