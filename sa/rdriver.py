"""Runs the public `render` of a renderer class over one symbolic tree event.

The walker's step function is replaced by a source of one event about a
symbolic node of a given type; renderer fields that handlers change are set
to arbitrary values first (texts: an opaque prefix, so that what an event
emits is what follows the prefix in the returned text).
"""
from .values import *
from .charset import CharSet, ALL
from .state import Obj, St
from .interp import Interp, AnalysisError, Budget
from . import loader

CONTAINERS = ('document', 'block_quote', 'list', 'item', 'paragraph',
              'heading', 'emph', 'strong', 'link', 'image')
LEAVES = ('text', 'softbreak', 'linebreak', 'code', 'code_block',
          'thematic_break', 'html_inline', 'html_block')
CUSTOM = ('custom_inline', 'custom_block')

# what each node type carries (established for parser trees by C04/C12)
TEXTUAL = ('text', 'code', 'code_block', 'html_inline', 'html_block')


def lab(name):
    return frozenset([name])


def node_field(t, attr, nodecls):
    if attr == 't':
        return strtd(consts=frozenset([t]))
    if attr == 'literal':
        return strtd(labels=lab('literal')) if t in TEXTUAL \
            else TD(none=True)
    if attr == 'destination':
        return strtd(labels=lab('destination')) if t in ('link', 'image') \
            else TD(none=True)
    if attr == 'title':
        return TD(none=True, str=(ALL, 0, None, lab('title'))) \
            if t in ('link', 'image') else TD(none=True)
    if attr == 'info':
        return TD(none=True, str=(ALL, 0, None, lab('info'))) \
            if t == 'code_block' else TD(none=True)
    if attr == 'level':
        return TD(int=(1, 6)) if t == 'heading' else TD(none=True)
    if attr in ('on_enter', 'on_exit'):
        return TD(none=True, str=(ALL, 0, None, lab(attr)))
    if attr in ('first_child', 'last_child', 'nxt', 'prv'):
        return TD(none=True, objs=[nodecls])
    if attr == 'parent':
        return TD(none=True, objs=[nodecls]) if t == 'document' or \
            t is None else objtd(nodecls)
    if attr == 'sourcepos':
        return TD(none=True, lst=TD(lst=TD(int=(0, None))))
    if attr == 'list_data':
        return objtd('dict:list_data')
    if attr in ('is_open', 'is_fenced', 'last_line_blank',
                'last_line_checked'):
        return TD(bool=True)
    if attr in ('string_content',):
        return TD(none=True, str=(ALL, 0, None, lab('string_content')))
    if attr == 'fence_char':
        return TD(none=True, str=(CharSet.of('`~'), 1, None, lab(attr)))
    if attr in ('fence_length', 'html_block_type'):
        return TD(int=(0, None))
    if attr == 'fence_offset':
        return TD(none=True, int=(0, None))
    return None


class Outcome(object):
    """one path through render()"""

    def __init__(self, st, value, emitted, fields, ctxs):
        self.st = st
        self.value = value
        self.emitted = emitted      # parts of the returned text, or None
        self.fields = fields
        self.ctxs = ctxs            # tracked state at each event, and at end
        self.ok = emitted is not None


class RendererDriver(object):

    def __init__(self, clsname, options=None, repo=None):
        self.eng = e = Interp(repo)
        e.load_all()
        k = e.public(clsname)
        if not isinstance(k, K):
            raise AnalysisError('%s is not a class' % clsname)
        self.k = k
        nm = [c for q, c in e.classes.items() if c.name == 'Node']
        if len(nm) != 1:
            raise AnalysisError('class Node not found')
        self.node_info = nm[0]
        self.nodecls = nm[0].qual
        e.contract = self.contract
        e.types['dict:options'] = dict(options or {})
        e.types['dict:list_data'] = {
            '[type]': strtd(consts=frozenset(['bullet', 'ordered'])),
            '[start]': TD(none=True, int=(0, None)),
            '[tight]': TD(bool=True),
            '[delimiter]': TD(none=True, str=(CharSet.of('.)'), 1, None,
                                              frozenset())),
            '[bullet_char]': TD(none=True, str=(CharSet.of('*+-'), 1, None,
                                                frozenset())),
            '[padding]': TD(int=(2, None)),
            '[marker_offset]': TD(int=(0, None)),
        }
        e.dict_always['dict:list_data'] = set(e.types['dict:list_data'])
        self.cur = None
        self.find_walker()
        self.problems = []

    # ------------------------------------------------------------ set-up
    def contract(self, tname, attr):
        if tname == self.nodecls:
            return node_field(self.cur, attr, self.nodecls)
        return None

    def node(self, key):
        return Sy((key,), objtd(self.nodecls))

    def find_walker(self):
        e = self.eng
        st = e.new_state()
        f = e.class_attr(st, self.node_info, 'walker')
        if f is None:
            raise AnalysisError('Node.walker not found')
        for s, v in e.call(st, BM(f, self.node('root')), [], {}, None):
            info = e.inst_class(s, v) if not isexc(v) else None
            if info is None:
                continue
            nx = e.class_attr(s, info, '__next__')
            if isinstance(nx, Fn):
                self.walker_info = info
                self.next_qual = nx.info.qual
                e.intercepts[self.next_qual] = self.step
                return
        raise AnalysisError('the walker of a node has no __next__')

    def step(self, eng, st, f, args, kw, node):
        w = args[0]
        o = st.obj(w.oid) if isinstance(w, R) else None
        if o is None:
            return [(st, TOP)]
        n = o.fields.get('.n', 0)
        fs = dict(o.fields)
        fs['.n'] = n + 1
        st.put(w.oid, o.but(fields=fs))
        if n >= len(self.events):
            st.event(('ctx', self.tracked(st)))
            return [(st, Exc('StopIteration', node, '',
                             eng.where(st, node)))]
        self.prepare(st, n)
        nd, entering = self.events[n]
        if self.on_event is not None:
            self.on_event(st, n)
        return [(st, Tup([nd, C(entering)]))]

    def instance(self, st, args=None):
        """[(st, renderer)]"""
        e = self.eng
        if args is None:
            args = self.ctor_args()
        return e.call(st, self.k, args, {}, None)

    def ctor_args(self):
        return [Sy(('options',), objtd('dict:options'))]

    # -------------------------------------------------------------- events
    textual = frozenset()
    buffer = None
    ctx = {}
    ctx_facts = ()
    on_event = None
    first_texts = None

    def prepare(self, st, n):
        """renderer fields at the start of the n-th event: texts arbitrary,
        the buffer a fresh prefix at the first one"""
        o = st.obj(self.rid)
        fs = dict(o.fields)
        for name, sub in sorted(self.textual, key=show_key):
            if n > 0 and (name, sub) == self.buffer:
                continue
            v = S([P(('fld', name, n), labels=['state'])])
            if n == 0 and self.first_texts is not None and \
               (name, sub) in self.first_texts:
                v = self.first_texts[(name, sub)]
            if sub is None:
                fs[name] = v
            elif isinstance(fs.get(name), R):
                lo = st.obj(fs[name].oid)
                st.put(fs[name].oid, lo.but(items=(v,), rest=None))
        if n == 0:
            for name, v in self.ctx.items():
                fs[name] = v
            for f in self.ctx_facts:
                st.assume_ge0(f)
        st.put(self.rid, o.but(fields=fs))
        st.event(('ctx', self.tracked(st)))

    def tracked(self, st):
        """values of the non-textual state fields"""
        o = st.obj(self.rid)
        return tuple((n, self.eng.nv(st, o.fields[n]))
                     for n in self.state_names if n in o.fields)

    state_names = ()

    def fields(self, st):
        """tracked state: {(name, None|'items'): value}"""
        out = {}
        o = st.obj(self.rid)
        for name, v in o.fields.items():
            v = self.eng.nv(st, v)
            if isinstance(v, R):
                lo = st.obj(v.oid)
                if lo is not None and lo.kind == 'list':
                    out[(name, 'items')] = (tuple(lo.items or ()), lo.rest)
                    continue
            out[(name, None)] = v
        return out

    def run(self, t, events, ctx=None, facts=(), args=None):
        """outcomes of render() over a sequence of events.

        events: 'in'/'out' are about the node of type t, 'child' is an
        ordinary text node inside it."""
        e = self.eng
        self.cur = t
        e.steps = 0
        self.ctx = ctx or {}
        self.ctx_facts = facts
        nd, ch = self.node('node'), self.node('child')
        self.events = [(ch, True) if x == 'child' else (nd, x == 'in')
                       for x in events]
        out = []
        st = e.new_state()
        for s, r in self.instance(st, args):
            if isexc(r) or not isinstance(r, R):
                out.append(Outcome(s, r, None, None, ()))
                continue
            self.rid = r.oid
            self.init_fields = self.fields(s)
            self.init_tracked = self.tracked(s)
            for s2, m in e.getattr(s, r, 'render', None):
                if isexc(m):
                    out.append(Outcome(s2, m, None, None, ()))
                    continue
                s2.sy[(nd.k, 't')] = C(t)
                s2.sy[(ch.k, 't')] = C('text')
                s2.sy[(ch.k, 'literal')] = S([P(
                    ('CHILD',), labels=['child'],
                    cs=CharSet.of('abcdefgh'), lo=1)])
                s2.ev = None
                for s3, v in e.call(s2, m, [self.node('root')], {}, None):
                    out.append(self.outcome(s3, v))
        return out

    def outcome(self, st, v):
        ctxs = [x[1] for x in st.events() if x[0] == 'ctx']
        if isexc(v):
            return Outcome(st, v, None, self.fields(st), ctxs)
        v = self.eng.nv(st, v)
        ps = parts(v)
        em = None
        if ps is not None:
            em = [x if isinstance(x, str) else self.eng.rp(st, x)
                  for x in ps]
            if self.buffer is not None:
                if em and isinstance(em[0], P) and \
                   em[0].uid == ('fld', self.buffer[0], 0) and \
                   not em[0].imgs and not em[0].ops:
                    em = em[1:]
                else:
                    em = None
        return Outcome(st, v, em, self.fields(st), ctxs)

    def discover(self, types):
        """classify the renderer fields that events change: texts, the
        output buffer among them, and other state"""
        changed = {}
        for rnd in range(3):
            new = False
            for t in types:
                evs = [['in', 'out'], ['in']] if t in CONTAINERS \
                    else [['in']]
                for ev in evs:
                    for oc in self.run(t, ev):
                        if oc.fields is None or isexc(oc.value):
                            continue
                        for k, v in oc.fields.items():
                            base = self.init_fields.get(k)
                            if base == v:
                                continue
                            istext = False
                            if k[1] == 'items':
                                its = list(v[0]) + (
                                    [v[1]] if v[1] is not None else [])
                                istext = bool(its) and all(
                                    parts(x) is not None for x in its)
                            elif parts(v) is not None:
                                istext = True
                            if istext and k not in self.textual:
                                self.textual = self.textual | {k}
                                new = True
                            changed[k] = changed.get(k, False) or istext
            if not new:
                break
        self.changed = changed
        self.state_names = tuple(sorted(
            k[0] for k, istext in changed.items()
            if not istext and k[1] is None))
        # the buffer is the text field the result starts with
        self.buffer = None
        for oc in self.run(types[0], ['in']):
            ps = parts(oc.value) if not isexc(oc.value) else None
            if ps and isinstance(ps[0], P) and ps[0].uid[0] == 'fld':
                for k in self.textual:
                    if k[0] == ps[0].uid[1]:
                        self.buffer = k
        return changed
