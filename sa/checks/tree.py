"""Tree editing and walking, decided per operation on a symbolic place in an
arbitrary tree.

An operation only looks at the neighbourhood of the nodes it is given. Every
shape of that neighbourhood is built with symbolic nodes beyond its edge, the
operation is interpreted on it, and the links it leaves are compared with
those of the edited sibling sequences.
"""
import itertools

from ..values import *
from ..interp import AnalysisError, Budget, Interp
from ..state import Obj
from ..rdriver import CONTAINERS, LEAVES, CUSTOM

LINKS = ('parent', 'prv', 'nxt', 'first_child', 'last_child')


class NodeDriver(object):

    def __init__(self, repo=None):
        self.eng = e = Interp(repo)
        e.load_all()
        nm = [c for q, c in e.classes.items() if c.name == 'Node']
        if len(nm) != 1:
            raise AnalysisError('class Node not found')
        self.info = nm[0]
        self.cls = nm[0].qual
        e.contract = self.contract
        self.read = set()
        e.hooks['access'] = [self.on_access]
        e.hooks['setattr'] = [self.on_set]
        self.outside = []

    def contract(self, tname, attr):
        if tname != self.cls:
            return None
        if attr in LINKS:
            return TD(none=True, objs=[self.cls])
        if attr == 't':
            return strtd()
        return None

    def on_access(self, st, obj, attr, node):
        if isinstance(obj, Sy) and obj.td.objs == frozenset([self.cls]):
            self.outside.append('%s.%s is read' % (show_key(obj.k), attr))

    def on_set(self, st, obj, attr, value, node, o):
        if isinstance(obj, Sy) and obj.td.objs == frozenset([self.cls]):
            self.outside.append('%s.%s is set' % (show_key(obj.k), attr))

    def method(self, name):
        f = self.eng.class_attr(self.eng.new_state(), self.info, name)
        if not isinstance(f, Fn):
            raise AnalysisError('Node.%s not found' % name)
        return f

    def new_node(self, st, name, t='text'):
        """an object with the fields a constructed node has"""
        res = self.eng.call(st, K(self.info), [C(t), NONE], {}, None)
        if len(res) != 1 or isexc(res[0][1]):
            raise AnalysisError('Node() has several outcomes')
        s, r = res[0]
        o = s.obj(r.oid)
        oid = ('node', name)
        s.put(oid, o)
        s.heap.pop(r.oid, None)
        return s, R(oid)


GAP = '~'


def far(name, side):
    return Sy(('beyond', name, side))


def build(d, lists, owners):
    """heap with the sibling lists: {owner name or None: [names or GAP]}"""
    st = d.eng.new_state()
    names = []
    for own, l in lists:
        if own is not None and own not in names:
            names.append(own)
        for x in l:
            if x != GAP and x not in names:
                names.append(x)
    refs = {}
    for n in names:
        st, refs[n] = d.new_node(st, n)
    for n, v in expect(lists, names, refs, d.cls).items():
        o = st.obj(refs[n].oid)
        f = dict(o.fields)
        f.update(v)
        st.put(refs[n].oid, o.but(fields=f))
    return st, refs


def expect(lists, names, refs, cls):
    """link fields the sibling lists stand for"""
    td = objtd(cls)

    def sy(*k):
        return Sy(('beyond',) + k, td)
    out = {n: {'parent': sy(n, 'parent') if n.startswith('^') else NONE,
               'prv': NONE, 'nxt': NONE, 'first_child': NONE,
               'last_child': NONE} for n in names}
    kids = {}
    for own, l in lists:
        if own is not None:
            kids[own] = l
    for n in names:
        if n not in kids:
            # contents of other nodes are arbitrary
            out[n]['first_child'] = Sy(('inside', n, 'first'),
                                       TD(none=True, objs=[cls]))
            out[n]['last_child'] = Sy(('inside', n, 'last'),
                                      TD(none=True, objs=[cls]))
    for own, l in lists:
        for i, n in enumerate(l):
            if n == GAP:
                continue
            if own is not None:
                out[n]['parent'] = refs[own]
            for f, j in (('prv', i - 1), ('nxt', i + 1)):
                if not 0 <= j < len(l):
                    continue
                out[n][f] = sy(n, f) if l[j] == GAP else refs[l[j]]
        if own is not None:
            if l:
                out[own]['first_child'] = refs[l[0]] if l[0] != GAP \
                    else sy(own, 'first')
                out[own]['last_child'] = refs[l[-1]] if l[-1] != GAP \
                    else sy(own, 'last')
    return out


def around(core):
    """sequences with the core inside and any neighbours around it"""
    for left in ([], ['l1'], [GAP, 'l2', 'l1']):
        for right in ([], ['r1'], ['r1', 'r2', GAP]):
            yield left + core + right


def shapes(op):
    """sibling lists around self ('S') and argument ('A')"""
    if op == 'unlink':
        yield [(None, ['S'])]
        for l in around(['S']):
            yield [('P', l)]
        return
    if op in ('append_child', 'prepend_child'):
        kids = [[], ['c'], ['c', 'd'], ['c', 'e', GAP, 'f', 'd']]
        # the argument elsewhere
        for k in kids:
            yield [(None, ['A']), ('S', k)]
            for l in around(['A']):
                yield [('Q', l), ('S', k)]
        # already a child
        for k in (['A'], ['A', 'c'], ['c', 'A'], ['c', 'A', 'd'],
                  ['A', 'c', GAP, 'd'], ['c', GAP, 'd', 'A'],
                  ['c', GAP, 'e', 'A', 'f', GAP, 'd'], ['c', 'e', 'A'],
                  ['A', 'c', 'e'], ['c', 'A', 'd', 'e'],
                  ['c', 'e', 'A', 'd']):
            yield [('S', k)]
        # a sibling of the new parent, or its grandchild
        for l in (['S', 'A'], ['A', 'S'], ['l', 'A', 'S', 'r'],
                  ['S', 'm', 'A']):
            for k in kids[:3]:
                yield [('P', l), ('S', k)]
        yield [('S', ['c']), ('c', ['A'])]
        yield [('S', ['c', 'd']), ('d', ['x', 'A'])]
        yield [('S', ['c', 'd']), ('c', ['A', 'x'])]
        return
    # insert_before, insert_after: self has a parent
    for l in around(['S']):
        yield [('P', l), (None, ['A'])]
        for m in around(['A']):
            yield [('P', l), ('Q', ['q' + x if x not in ('A', GAP) else x
                                    for x in m])]
        yield [('P', l), ('S', ['A'])]
        yield [('P', l), ('S', ['x', 'A', 'y'])]
    for core in (['A', 'S'], ['S', 'A'], ['A', 'm', 'S'], ['S', 'm', 'A'],
                 ['A', 'm', 'k', 'S'], ['S', 'm', 'k', 'A'],
                 ['A', 'm', GAP, 'k', 'S'], ['S', 'm', GAP, 'k', 'A']):
        for l in around(core):
            yield [('P', l)]


def edited(op, lists):
    """the sibling lists after the operation"""
    out = [[own, list(l)] for own, l in lists]
    who = 'S' if op == 'unlink' else 'A'
    for x in out:
        if who in x[1]:
            x[1].remove(who)
    if op == 'unlink':
        out.append([None, ['S']])
    elif op in ('append_child', 'prepend_child'):
        tgt = [x for x in out if x[0] == 'S']
        if tgt[0][1] and op == 'prepend_child':
            tgt[0][1].insert(0, 'A')
        else:
            tgt[0][1].append('A')
    else:
        for x in out:
            if 'S' in x[1]:
                i = x[1].index('S')
                x[1].insert(i if op == 'insert_before' else i + 1, 'A')
                break
    return [(own, l) for own, l in out if l or own is not None]


def draw(lists):
    return '; '.join('%s: [%s]' % (own or 'no parent', ' '.join(l))
                     for own, l in lists)


OPS = ('append_child', 'prepend_child', 'insert_before', 'insert_after',
       'unlink')


def check_c17(rep, tier):
    d = NodeDriver()
    for op in OPS:
        f = d.method(op)
        for lists in shapes(op):
            one_shape(rep, d, f, op, lists)
    rep.require('edit', 100)
    rep.assumptions += [
        'the node given is not an ancestor of, or the same as, the node it '
        'is moved next to or into',
        'insert_before and insert_after are called on a node with a parent']


def one_shape(rep, d, f, op, lists):
    st, refs = build(d, lists, None)
    names = sorted(refs)
    args = [refs['S']] if op == 'unlink' else [refs['S'], refs['A']]
    d.eng.steps = 0
    d.outside = []
    site = f.info.qual
    before = draw(lists)
    try:
        res = d.eng.call_fn(st, f, args, {}, None)
    except Budget:
        rep.undecided('edit', op, 'budget on ' + before)
        return
    after = edited(op, lists)
    want = expect(after, names, refs, d.cls)
    outside = [x for x in d.outside if 'inside' not in x]
    for s, v in res:
        if isexc(v):
            if v.name in ('AttributeError', 'TypeError', 'KeyError',
                          'NameError', 'UnboundLocalError') or \
               v.name not in ('ValueError', 'AssertionError'):
                rep.violation('edit', site, '%s raises %s (%s) on %s' % (
                    op, v.name, v.detail, before))
            else:
                rep.violation('edit', site, '%s refuses %s' % (op, before))
            continue
        wrong = []
        for n in names:
            o = s.obj(refs[n].oid)
            for a in LINKS:
                got = d.eng.nv(s, o.fields.get(a, NONE))
                if got != want[n][a] and not (
                        isinstance(want[n][a], Sy) and got == d.eng.nv(
                            s, want[n][a])):
                    wrong.append('%s.%s is %s instead of %s' % (
                        n, a, name_of(got), name_of(want[n][a])))
        if any(isinstance(k, tuple) and k and k[0] in ('same', 'eq', 'is')
               for k in s.facts):
            if wrong:
                rep.undecided('edit', op, 'comparison with a node outside '
                              'the neighbourhood: ' + before)
                continue
        if wrong and outside:
            rep.undecided('edit', op, 'looks beyond the neighbourhood (%s): '
                          '%s' % (outside[0], before))
        elif wrong:
            rep.violation('edit', site, '%s on %s: %s' % (
                op, before, '; '.join(wrong[:4])))
        else:
            rep.ok('edit', '%s on %s' % (op, before))


def name_of(v):
    if isinstance(v, R):
        return show_key(v.oid[1:])
    if isinstance(v, C):
        return repr(v.v)
    return show_key(getattr(v, 'k', v))


# --------------------------------------------------------------------- C18
def check_c18(rep, tier):
    d = NodeDriver()
    e = d.eng
    td = objtd(d.cls)
    conts = {}
    types = CONTAINERS + LEAVES + CUSTOM
    # the container test depends on the type alone and agrees everywhere
    mod = e.module_attr(d.info.mod, 'is_container')
    meth = e.class_attr(e.new_state(), d.info, 'is_container')
    for t in types:
        want = t in CONTAINERS + CUSTOM
        for fn, what in ((mod, 'is_container()'),
                         (meth, 'Node.is_container()')):
            if not isinstance(fn, Fn):
                rep.undecided('container', what, 'not found')
                continue
            st = e.new_state()
            n = Sy(('n',), td)
            st.sy[(n.k, 't')] = C(t)
            e.steps = 0
            for s, v in e.call_fn(st, fn, [n], {}, None):
                if isexc(v):
                    rep.violation('container', fn.info.qual,
                                  '%s of a %s raises %s' % (
                                      what, t, v.name))
                    continue
                got = [r for _, r in e.truth(s, v)]
                if got == [want]:
                    rep.ok('container', '%s: %s' % (what, t))
                elif want in got:
                    rep.violation('container', fn.info.qual,
                                  '%s of a %s node depends on more than '
                                  'its type' % (what, t))
                else:
                    rep.violation('container', fn.info.qual,
                                  '%s says a %s is %sa container' % (
                                      what, t, 'not ' if want else ''))
    # first step
    for t in types:
        w0 = start_state(d, t)
        for s, w in w0:
            if isexc(w):
                rep.violation('start', 'walker', 'walker() of a %s raises %s'
                              % (t, w.name))
                continue
            for how in ('__next__', 'nxt', 'next'):
                for s2, v in step(d, s.copy(), w, how):
                    got = event(d, s2, v)
                    if got == (('root',), True):
                        rep.ok('start', '%s of %s' % (how, t))
                    else:
                        rep.violation('start', site(d, how), 'the first '
                                      'event about a %s is %r' % (t, got))
    # from any position: the event, then the following one
    for t in types:
        for isroot in (False, True):
            for entering in (True, False):
                if not entering and t not in CONTAINERS + CUSTOM:
                    continue
                for shape in positions(t, isroot):
                    one_step(rep, d, t, isroot, entering, shape)
    # iteration protocol
    for s, w in start_state(d, 'document'):
        if isexc(w):
            continue
        f = e.getattr(s, w, '__iter__', None)
        for s2, m in f:
            if isexc(m):
                rep.violation('start', 'walker', 'a walker is not iterable')
                continue
            for s3, it in e.call(s2, m, [], {}, None):
                if it == w:
                    rep.ok('start', '__iter__')
                else:
                    rep.undecided('start', '__iter__', repr(it))
    rep.require('container', 20)
    rep.require('start', 20)
    rep.require('step', 60)
    rep.assumptions.append('the walked subtree has consistent links (C17)')


def site(d, how):
    e = d.eng
    for q, c in sorted(e.classes.items()):
        if c.name == 'NodeWalker':
            return '%s.%s' % (q, how)
    return 'walker.%s' % how


def start_state(d, t):
    e = d.eng
    e.steps = 0
    st = e.new_state()
    root = Sy(('root',), objtd(d.cls))
    st.sy[(root.k, 't')] = C(t)
    f = d.method('walker')
    return e.call_fn(st, f, [root], {}, None)


def step(d, st, w, how):
    out = []
    for s, m in d.eng.getattr(st, w, how, None):
        if isexc(m):
            out.append((s, m))
        else:
            out.extend(d.eng.call(s, m, [], {}, None))
    return out


def event(d, st, v):
    """(node, entering) | 'end' | ('raises', name) | None"""
    e = d.eng
    if isexc(v):
        return 'end' if v.name == 'StopIteration' else ('raises', v.name)
    if isinstance(v, C) and v.v is None:
        return 'end'
    node = ent = None
    if isinstance(v, Tup) and len(v.items) == 2:
        node, ent = v.items
    elif isinstance(v, R):
        o = st.obj(v.oid)
        if o is not None and o.kind == 'dict':
            node = (o.items or {}).get('node')
            ent = (o.items or {}).get('entering')
        elif o is not None and o.kind == 'list' and o.items and \
                len(o.items) == 2:
            node, ent = o.items
    if node is None:
        return None
    node = e.nv(st, node)
    ent = e.nv(st, ent)
    if isinstance(node, Sy) and isinstance(ent, C):
        return tuple(node.k), bool(ent.v)
    if isinstance(node, C) and node.v is None:
        return ('None', ent)
    return None


def positions(t, isroot):
    """link fields of the current node: has a first child, a next sibling"""
    for fc in ((True, False) if t in CONTAINERS + CUSTOM else (False,)):
        for nx in (True, False):
            yield fc, nx


def one_step(rep, d, t, isroot, entering, shape):
    e = d.eng
    fc, nx = shape
    td = objtd(d.cls)
    what = '%s a %s%s%s%s' % (
        'entering' if entering else 'leaving', t,
        ' (the root)' if isroot else '', ' with children' if fc else '',
        ' with a next sibling' if nx else '')
    for s0, w in start_state(d, t if isroot else 'document'):
        if isexc(w):
            return
        st = s0.copy()
        n = Sy(('root',) if isroot else ('n',), td)
        root = Sy(('root',), td)
        st.sy[(n.k, 't')] = C(t)
        kid, nxt, par = Sy(('kid',), td), Sy(('next',), td), \
            Sy(('par',), td)
        st.sy[(n.k, 'first_child')] = kid if fc else NONE
        st.sy[(n.k, 'last_child')] = Sy(('lastkid',), td) if fc else NONE
        st.sy[(n.k, 'nxt')] = nxt if nx else NONE
        st.sy[(n.k, 'parent')] = par
        for x in (kid, nxt, par):
            st.sy[(x.k, 't')] = Sy(('t', x.k), strtd())
        # the neighbours agree with the links of the node
        for x, a, v in ((kid, 'parent', n), (kid, 'prv', NONE),
                        (nxt, 'parent', par), (nxt, 'prv', n)):
            st.sy[(x.k, a)] = v
        if not nx:
            st.sy[(par.k, 'last_child')] = n
        else:
            st.sy[(par.k, 'last_child')] = Sy(('parlast',), td)
            st.facts[('same', tuple(sorted([n, Sy(('parlast',), td)],
                                           key=hash)))] = False
        distinct(e, st, [n, root, kid, nxt, par] if not isroot else
                 [n, kid, nxt, par])
        cont = t in CONTAINERS + CUSTOM
        if entering and cont:
            want = (('kid',), True) if fc else (tuple(n.k), False)
        elif isroot:
            want = 'end'
        elif nx:
            want = (('next',), True)
        else:
            want = (('par',), False)
        res = []
        for s, m in e.getattr(st, w, 'resume_at', None):
            if isexc(m):
                rep.undecided('step', what, 'no resume_at')
                return
            res += e.call(s, m, [n, C(entering)], {}, None)
        for s, _ in res:
            if isexc(_):
                rep.violation('step', site(d, 'resume_at'),
                              'raises %s' % _.name)
                continue
            for s1, v1 in step(d, s, w, 'nxt'):
                g1 = event(d, s1, v1)
                if g1 is None:
                    rep.undecided('step', what, 'result %r' % (v1,))
                    continue
                if g1 != (tuple(n.k), entering):
                    rep.violation('step', site(d, '__next__'),
                                  '%s: yields %r' % (what, g1))
                    continue
                for s2, v2 in step(d, s1, w, 'nxt'):
                    g2 = event(d, s2, v2)
                    if g2 == want:
                        rep.ok('step', what)
                    elif g2 is None or g2[0] == 'raises':
                        # (a step that raises is met as a first step)
                        rep.undecided('step', what, 'result %r' % (v2,))
                    else:
                        rep.violation(
                            'step', site(d, '__next__'), '%s is followed '
                            'by %r instead of %r' % (what, g2, want))


def distinct(eng, st, nodes):
    """different nodes of a tree are different objects"""
    for a, b in itertools.combinations(nodes, 2):
        st.facts[('same', tuple(sorted([a, b], key=hash)))] = False
