"""What outlives a call: parser state between parses, shared data, the call
stack.

The whole-parser interpretation (pdriver) resolves every call and the class
of every attribute's receiver; on these resolved syntax trees

  * a live-variable analysis tells which fields of the long-lived parser
    objects a parse may read before writing them (C05),
  * every store is classified by what it changes (C06),
  * the call graph is searched for cycles (C11).
"""
import ast

from ..values import *
from ..interp import AnalysisError, Budget
from ..loader import nid

ALLF = object()


class Record(object):
    """observer: calls, receivers, changes of long-lived objects"""

    def __init__(self, eng, longlived=()):
        self.eng = eng
        self.longlived = longlived
        self.calls = {}      # call node -> set of callees
        self.edges = {}      # caller -> {callee: call node line}
        self.nodes = {}      # (caller, callee) -> {node id: (fn, args)}
        self.reads = {}      # node -> set of (class, attr)
        self.writes = {}     # target node -> set of (class, attr)
        self.clears = {}     # call node -> set of (class, attr)
        self.changed = {}    # (class, attr) -> (function, line)
        self.maybe = {}
        h = eng.hooks
        for name in ('call', 'access', 'setattr', 'setitem', 'mutate'):
            h.setdefault(name, []).append(getattr(self, 'on_' + name))

    def where(self, st, node):
        return st.stack[-1] if st.stack else '?', getattr(node, 'lineno', 0)

    def cls(self, st, obj):
        if isinstance(obj, R):
            o = st.obj(obj.oid)
            if o is not None and o.kind == 'inst':
                return o.cls.qual
        elif isinstance(obj, Sy) and obj.td.nkinds() == 1 and obj.td.objs:
            return next(iter(obj.td.objs))
        return None

    def on_call(self, st, fn, args, kw, node):
        q = fn.info.qual
        if node is not None:
            self.calls.setdefault(nid(node), set()).add(q)
        if st.stack:
            self.edges.setdefault(st.stack[-1], {}).setdefault(
                q, getattr(node, 'lineno', 0))

    def on_access(self, st, obj, attr, node):
        if isinstance(obj, Sy) and obj.td.nkinds() > 1:
            return
        c = self.cls(st, obj)
        if c in self.longlived and node is not None:
            self.reads.setdefault(nid(node), set()).add((c, attr))

    def on_setattr(self, st, obj, attr, value, node, o):
        c = self.cls(st, obj)
        if c in self.longlived and node is not None:
            self.writes.setdefault(nid(node), set()).add((c, attr))
            if not self.booting():
                self.changed.setdefault((c, attr), self.where(st, node))

    booting = staticmethod(lambda: False)

    def fields_of(self, st, obj):
        """long-lived fields an object may be the contents of"""
        out, maybe = set(), set()
        if isinstance(obj, R):
            for oid, o in list(st.heap.items()):
                if o.kind == 'inst' and o.cls.qual in self.longlived:
                    for a, v in o.fields.items():
                        if v == obj:
                            out.add((o.cls.qual, a))
            for (k, a), v in st.sy.items():
                c = self.eng.key_type.get(k)
                if v == obj and c in self.longlived:
                    out.add((c, a))
        elif isinstance(obj, Sy):
            k = obj.k
            if len(k) > 1:
                last = k[-1]
                a = last[0] if isinstance(last, tuple) else last
                c = self.eng.key_type.get(k[:-1])
                if isinstance(a, str) and a.startswith('.') and \
                   c in self.longlived:
                    out.add((c, a[1:]))
                    return out, maybe
            for c in self.longlived:
                for a, td in (self.eng.types.get(c) or {}).items():
                    if td.objs & obj.td.objs:
                        out.add((c, a))
                    elif td.lst is not None and obj.td.lst is not None:
                        maybe.add((c, a))
        return out, maybe

    def touch(self, st, obj, node):
        out, maybe = self.fields_of(st, obj)
        for f in out:
            self.changed.setdefault(f, self.where(st, node))
        for f in maybe:
            self.maybe.setdefault(f, self.where(st, node))
        return out

    def on_setitem(self, st, obj, key, value, node):
        self.touch(st, obj, node)

    def on_mutate(self, st, obj, meth, args, node):
        out = self.touch(st, obj, node)
        if meth == 'clear' and node is not None and len(out) == 1:
            self.clears.setdefault(nid(node), set()).update(out)


# ------------------------------------------------------------ live fields
class Live(object):
    """fields read before they are certainly written, per function"""

    def __init__(self, rec, infos, once):
        self.rec = rec
        self.infos = infos            # qual -> FuncInfo
        self.once = once              # take loops to run at least once
        self.sum = {}                 # qual -> (reads {f: (q, line)}, musts)

    def solve(self):
        """greatest fixed point for writes, least for reads"""
        for q in self.infos:
            self.sum[q] = ({}, ALLF)
        for rnd in range(60):
            new = False
            for q in sorted(self.infos):
                r = self.function(q)
                old = self.sum[q]
                if set(r[0]) != set(old[0]) or r[1] != old[1]:
                    self.sum[q] = r
                    new = True
            if not new:
                return
        raise AnalysisError('live fields do not stabilise')

    def function(self, q):
        self.q = q
        self.reads = {}
        self.exits = []
        self.loops = []
        m = self.block(self.infos[q].body, frozenset()) \
            if not isinstance(self.infos[q].node, ast.Lambda) else \
            self.expr(self.infos[q].node.body, frozenset())
        if m is not ALLF:
            self.exits.append(m)
        return self.reads, self.meet(self.exits)

    @staticmethod
    def meet(ms):
        out = ALLF
        for m in ms:
            if m is ALLF:
                continue
            out = m if out is ALLF else out & m
        return out

    def block(self, body, m):
        for s in body:
            if m is ALLF:
                return m
            m = self.stmt(s, m)
        return m

    # m: fields certainly written so far, or ALLF where control never is
    def stmt(self, s, m):
        t = type(s).__name__
        f = getattr(self, 's_' + t, None)
        if f is not None:
            return f(s, m)
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                m = self.expr(c, m)
        return m

    def s_FunctionDef(self, s, m):
        return m

    s_ClassDef = s_FunctionDef

    def s_Assign(self, s, m):
        m = self.expr(s.value, m)
        for t in s.targets:
            m = self.target(t, m)
        return m

    def s_AnnAssign(self, s, m):
        if s.value is None:
            return m
        return self.target(s.target, self.expr(s.value, m))

    def s_AugAssign(self, s, m):
        m = self.expr(s.target, m)
        m = self.expr(s.value, m)
        return self.target(s.target, m)

    def s_Delete(self, s, m):
        for t in s.targets:
            if isinstance(t, ast.Subscript) and whole(t.slice):
                m = self.cleared(t.value, m)
            else:
                m = self.expr(t, m)
        return m

    def cleared(self, e, m):
        """the contents of a field are dropped"""
        k = self.rec.reads.get(nid(e))
        if isinstance(e, ast.Attribute):
            m = self.expr(e.value, m)
            if k and len(k) == 1 and m is not ALLF:
                m = m | k
            return m
        return self.expr(e, m)

    def target(self, t, m):
        if m is ALLF:
            return m
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                m = self.target(x, m)
            return m
        if isinstance(t, ast.Starred):
            return self.target(t.value, m)
        if isinstance(t, ast.Attribute):
            m = self.expr(t.value, m)
            k = self.rec.writes.get(nid(t))
            if k and len(k) == 1 and m is not ALLF:
                m = m | k
            return m
        if isinstance(t, ast.Subscript):
            if whole(t.slice):
                return self.cleared(t.value, m)
            m = self.expr(t.value, m)
            return self.expr(t.slice, m)
        return m

    def s_Return(self, s, m):
        if s.value is not None:
            m = self.expr(s.value, m)
        self.exits.append(m)
        return ALLF

    def s_Raise(self, s, m):
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                m = self.expr(c, m)
        return ALLF

    def s_If(self, s, m):
        k = const_test(s.test)
        m = self.expr(s.test, m)
        if m is ALLF:
            return m
        a = self.block(s.body, m) if k is not False else ALLF
        b = self.block(s.orelse, m) if k is not True else ALLF
        return self.meet([a, b])

    def s_While(self, s, m):
        k = const_test(s.test)
        m = self.expr(s.test, m)
        if m is ALLF:
            return m
        end, br = self.turns(s, m)
        out = [] if k is True else [self.block(s.orelse, end)]
        return self.meet(out + br)

    def turns(self, s, m):
        """(fields written when the loop ends by itself, at each break)"""
        self.loops.append(([], []))
        end = self.block(s.body, m)
        br, cont = self.loops.pop()
        if not self.once:
            return m, br
        return self.meet([end] + cont), br

    def s_For(self, s, m):
        m = self.expr(s.iter, m)
        if m is ALLF:
            return m
        end, br = self.turns(s, self.target(s.target, m))
        return self.meet([self.block(s.orelse, end)] + br)

    def s_Break(self, s, m):
        if self.loops:
            self.loops[-1][0].append(m)
        return ALLF

    def s_Continue(self, s, m):
        if self.loops:
            self.loops[-1][1].append(m)
        return ALLF

    def s_With(self, s, m):
        for i in s.items:
            m = self.expr(i.context_expr, m)
            if i.optional_vars is not None:
                m = self.target(i.optional_vars, m)
        return self.block(s.body, m)

    def s_Try(self, s, m):
        a = self.block(s.body, m)
        if a is not ALLF:
            a = self.block(s.orelse, a)
        outs = [a] + [self.block(h.body, m) for h in s.handlers]
        r = self.meet(outs)
        if s.finalbody:
            r2 = self.block(s.finalbody, m if r is ALLF else r)
            return ALLF if r is ALLF else r2
        return r

    # ------------------------------------------------------- expressions
    def read(self, key, node, m):
        if m is not ALLF and key not in m:
            self.reads.setdefault(key, (self.q, getattr(node, 'lineno', 0)))

    def called(self, n, m):
        cs = self.rec.calls.get(nid(n))
        if not cs or m is ALLF:
            return m
        outs = []
        for c in sorted(cs):
            r, w = self.sum.get(c, ({}, frozenset()))
            for key, where in r.items():
                if key not in m:
                    self.reads.setdefault(key, where)
            outs.append(ALLF if w is ALLF else m | w)
        return self.meet(outs)

    def expr(self, n, m):
        if m is ALLF:
            return m
        if isinstance(n, ast.BoolOp):
            first = self.expr(n.values[0], m)
            cur = first
            for v in n.values[1:]:
                cur = self.expr(v, cur)
            return first
        if isinstance(n, ast.IfExp):
            m = self.expr(n.test, m)
            return self.meet([self.expr(n.body, m),
                              self.expr(n.orelse, m)])
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            cur = m
            first = None
            for g in n.generators:
                cur = self.expr(g.iter, cur)
                if first is None:
                    first = cur
                for i in g.ifs:
                    cur = self.expr(i, cur)
            for x in ('elt', 'key', 'value'):
                if getattr(n, x, None) is not None:
                    cur = self.expr(getattr(n, x), cur)
            return first if first is not None else m
        if isinstance(n, ast.Lambda):
            return m
        if isinstance(n, ast.Call):
            clr = self.rec.clears.get(nid(n))
            if clr and isinstance(n.func, ast.Attribute) and \
               n.func.attr == 'clear':
                return self.cleared(n.func.value, m)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                m = self.expr(c, m)
            elif isinstance(c, ast.keyword):
                m = self.expr(c.value, m)
        for key in self.rec.reads.get(nid(n), ()):
            self.read(key, n, m)
        return self.called(n, m)


def whole(s):
    return isinstance(s, ast.Slice) and s.lower is None and \
        s.upper is None and s.step is None


def const_test(t):
    return bool(t.value) if isinstance(t, ast.Constant) else None


def reachable(edges, start):
    seen, todo = set(), [start]
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        todo.extend(edges.get(q, ()))
    return seen


def check_c05(rep, tier):
    from . import parser as PA
    d = PA.solved(rep)
    rec = d.record
    entry = d.entry().info.qual
    funcs = reachable(rec.edges, entry)
    infos = {q: d.eng.funcs[q] for q in funcs if q in d.eng.funcs}
    live = Live(rec, infos, False)
    live.solve()
    reads, _ = live.sum[entry]
    sure = Live(rec, infos, True)
    sure.solve()
    certain, _ = sure.sum[entry]
    fields = set()
    for q in infos:
        for n in ast.walk(infos[q].node):
            fields |= rec.reads.get(nid(n), set())
            fields |= rec.writes.get(nid(n), set())
    for key in sorted(fields):
        what = '%s.%s' % key
        if key not in reads:
            rep.ok('written before read', what)
        elif key in rec.changed and key not in certain:
            rep.undecided('left over', what, 'read at %s line %d before it '
                          'is set if the loops before do not run' %
                          reads[key])
        elif key in rec.changed:
            q, line = certain[key]
            wq, wl = rec.changed[key]
            rep.violation(
                'left over', what, 'read at %s line %d before this parse '
                'has set it; an earlier parse may have changed it at %s '
                'line %d' % (q, line, wq, wl))
        elif key in rec.maybe:
            rep.undecided('left over', what, 'a list of this kind is '
                          'changed at %s line %d' % rec.maybe[key])
        else:
            rep.ok('constant', what)
    rep.require('written before read', 3)
    rep.note('functions reachable from %s: %d' % (entry, len(infos)))


# --------------------------------------------------------------------- C11
def cycles(edges):
    """strongly connected parts with an edge inside"""
    index, low, onst, stack, out = {}, {}, set(), [], []
    n = [0]

    def go(v):
        index[v] = low[v] = n[0]
        n[0] += 1
        stack.append(v)
        onst.add(v)
        for w in sorted(edges.get(v, ())):
            if w not in index:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in onst:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = set()
            while True:
                w = stack.pop()
                onst.discard(w)
                c.add(w)
                if w == v:
                    break
            if len(c) > 1 or v in edges.get(v, ()):
                out.append(c)
    for v in sorted(edges):
        if v not in index:
            go(v)
    return out


class Edges(object):
    """observer: call graph only"""

    def __init__(self, eng):
        self.edges = {}
        self.lib = {}
        eng.hooks.setdefault('call', []).append(self.on_call)
        eng.hooks.setdefault('library', []).append(self.on_lib)
        eng.hooks.setdefault('modelled', []).append(self.on_lib)
        eng.hooks.setdefault('objeq', []).append(self.on_eq)
        self.eng = eng
        self.eqs = {}        # type -> (function, line) where compared

    def on_call(self, st, fn, args, kw, node):
        if st.stack:
            self.edges.setdefault(st.stack[-1], {}).setdefault(
                fn.info.qual, getattr(node, 'lineno', 0))

    def on_lib(self, st, name, args, node):
        if name in DEEP:
            self.lib.setdefault((st.stack[-1] if st.stack else '?', name),
                                getattr(node, 'lineno', 0))


    def on_eq(self, st, a, b, node):
        ta, tb = self.eng.td_of(st, a), self.eng.td_of(st, b)
        for t in ta.objs & tb.objs:
            if t.startswith('dict:'):
                self.eqs.setdefault(t, (st.stack[-1] if st.stack else '?',
                                        getattr(node, 'lineno', 0)))

    def deep_equal(self):
        """comparisons of dictionaries that contain such dictionaries, with
        nothing before them that tells two of them apart"""
        for t, where in sorted(self.eqs.items()):
            for key, td in (self.eng.types.get(t) or {}).items():
                if t in td.objs:
                    yield t, key, where
                    break
                if td.nkinds() == 1 and td.objs and not td.top and all(
                        o in self.eng.classes and not any(
                            self.has_eq(c) for c in
                            self.eng.classes[o].mro()) for o in td.objs):
                    break

    @staticmethod
    def has_eq(c):
        return any(isinstance(x, ast.FunctionDef) and x.name == '__eq__'
                   for x in c.node.body)


# library functions that call themselves for what their argument contains
DEEP = frozenset(['copy.deepcopy', 'pickle.dumps', 'marshal.dumps',
                  'json.dumps', 'pprint.pformat', 'pprint.pprint'])


def again(eng, comp, rerun):
    """calls inside a cycle that are made a second time when the first is
    followed with the arguments and facts it is made with; None when no call
    is met again"""
    saved = {}

    def keep(st, fn, args, kw, node):
        if st.stack and st.stack[-1] in comp and fn.info.qual in comp:
            ks = saved.setdefault((st.stack[-1], fn.info.qual), [])
            if len(ks) < 40:
                ks.append((st.copy(), fn, list(args), dict(kw), node))
    hooks = eng.hooks
    eng.hooks = {'call': [keep]}
    cut = eng.cut
    try:
        try:
            rerun()
        except Budget:
            return 'the calls are too many to follow'
        if not saved:
            return None
        for (a, b), ks in sorted(saved.items()):
            for st, fn, args, kw, node in ks:
                seen = []

                def watch(st, fn, args, kw, node, seen=seen):
                    if st.stack and fn.info.qual in comp:
                        seen.append((st.stack[-1], fn.info.qual,
                                     getattr(node, 'lineno', 0)))
                eng.hooks = {'call': [watch]}
                st.stack = ()
                eng.steps = 0
                me = fn.info.qual
                eng.cut = (lambda info: info.qual != me and cut(info)) \
                    if cut is not None else None
                try:
                    eng.call_fn(st, fn, args, kw, node)
                except Budget:
                    return 'the calls are too many to follow'
                finally:
                    eng.cut = cut
                if seen:
                    return '%s calls %s again at line %d' % seen[0]
    finally:
        eng.hooks = hooks
    return None


def enclosing(comp, fns):
    """the functions of the cycle, and those their definitions are inside of
    (a local function is made when they run)"""
    out = list(comp)
    for q in comp:
        while '.' in q:
            q = q.rsplit('.', 1)[0]
            if q in fns and q not in out:
                out.append(q)
    return out


def check_c11(rep, tier):
    from . import parser as PA
    from . import html as H
    from . import render as RE
    d = PA.solved(rep)
    entry = d.entry().info.qual
    rec = d.record
    funcs = reachable(rec.edges, entry)
    edges = {q: {c: l for c, l in rec.edges.get(q, {}).items()}
             for q in funcs}
    judge(rep, 'parsing', d.eng, edges, d.edges.lib,
          lambda comp: lambda: [d.run(q) for q in enclosing(comp, d.fns)
                                if q in d.fns])
    for t, key, (q, line) in d.edges.deep_equal():
        rep.violation('recursion', '%s ==' % q, 'line %d of %s compares '
                      'dictionaries (%s) whose entry %s is such a dictionary '
                      'again, before any entry that tells them apart' % (
                          line, q, t, key))
    for t, where in sorted(d.edges.eqs.items()):
        rep.ok('equality', '%s at %s line %d' % ((t,) + where))
    for q in sorted(funcs):
        for c, l in sorted(edges.get(q, {}).items()):
            rep.ok('call', '%s -> %s' % (q, c))
    for cname, mk, lexer in (
            ('HtmlRenderer', H.driver, H.lex),
            ('ReStructuredTextRenderer', RE.rst_driver,
             lambda em, ls, t: RE.Plain())):
        r = mk()
        eo = Edges(r.eng)

        def go(comp=None, r=r, lexer=lexer):
            try:
                RE.explore_any(r, lexer)
            except Budget:
                rep.undecided('call', cname, 'budget')
        go()
        RE.walker_paths(rep, r.eng, r, None)
        for q in sorted(eo.edges):
            for c in sorted(eo.edges[q]):
                rep.ok('call', '%s -> %s' % (q, c))
        judge(rep, 'rendering with %s' % cname, r.eng, eo.edges, eo.lib,
              lambda comp: go)
    rep.require('call', 60)


def judge(rep, what, eng, edges, lib, rerun):
    for comp in cycles(edges):
        cs = sorted(comp)
        path = ' -> '.join('%s (line %d)' % (q, edges[q][w]) for q in cs
                           for w in sorted(edges[q]) if w in comp)
        why = again(eng, comp, rerun(cs))
        if why is None:
            rep.ok('bounded recursion', path)
        else:
            rep.violation('recursion', ' '.join(cs), '%s: the call graph has '
                          'a cycle, %s; %s' % (what, path, why))
    for (q, name), line in sorted(lib.items()):
        rep.violation('recursion', '%s %s' % (q, name), '%s: line %d of %s '
                      'calls %s, which calls itself for every level of the '
                      'structure' % (what, line, q, name))


# --------------------------------------------------------------------- C06
def check_c06(rep, tier):
    from . import parser as PA
    from . import html as H
    from . import render as RE
    d = PA.solved(rep)
    report_shared(rep, d.shared, 'parsing', d)
    for q in sorted(d.fns):
        rep.ok('function', q)
    construct(rep)
    for cname, mk, lexer in (
            ('HtmlRenderer', H.driver, H.lex),
            ('ReStructuredTextRenderer', RE.rst_driver,
             lambda em, ls, t: RE.Plain())):
        r = mk()
        ch = shared(r.eng)
        try:
            for ctx, t, oc, L in RE.explore_any(r, lexer):
                rep.ok('path', '%s: %s %s' % (cname, t, ctx.name))
        except Budget:
            rep.undecided('path', cname, 'budget')
        report_shared(rep, ch, cname + '.render')
    for fn in ('dumpAST', 'dumpJSON'):
        x = RE.DumpDriver()
        ch = shared(x.eng)
        for t in RE.CONTAINERS + RE.LEAVES:
            try:
                for s, v in x.call(fn, t):
                    rep.ok('path', '%s: %s' % (fn, t))
            except Budget:
                rep.undecided('path', fn, 'budget')
        report_shared(rep, ch, fn)
    tl = RE.TopLevel()
    ch = shared(tl.eng)
    for f in sorted(RE.FORMATS):
        for st, v in tl.run(C(f))[1]:
            rep.ok('path', 'commonmark(%s)' % f)
    report_shared(rep, ch, 'commonmark')
    rep.require('path', 60)
    rep.require('construct', 3)


class Shared(object):
    """observer of changes to what exists before any call: module and class
    data, default arguments, an options mapping of the caller"""

    def __init__(self, eng):
        from .render import Changes
        self.eng = eng
        self.types = {}
        self.ch = Changes(eng, self.tree)
        self.ch.owner = self.owner
        self.old = Changes.owner.__get__(self.ch)
        self.alias = {}      # (class, attr) -> [shared?, other?]
        self.inplace = {}    # (class, attr) -> (function, line)
        self.ch.outer = self
        h = eng.hooks
        h['setattr'].append(self.on_set)
        h['setitem'].append(lambda st, obj, key, value, node:
                            self.touch(st, obj, node))
        h['mutate'].append(lambda st, obj, meth, args, node:
                           self.touch(st, obj, node))

    def on_set(self, st, obj, attr, value, node, o):
        if o is not None and o.kind == 'inst':
            c = o.cls.qual
        elif isinstance(obj, Sy) and obj.td.nkinds() == 1 and obj.td.objs:
            c = next(iter(obj.td.objs))
        else:
            return
        v = self.eng.nv(st, value)
        a = self.alias.setdefault((c, attr), [None, None])
        if isinstance(v, R) and v.oid in self.eng.base and \
           self.eng.base[v.oid].kind in ('list', 'dict', 'set'):
            a[0] = (self.ch.where(st, node), self.eng.base[v.oid].kind)
        elif not (isinstance(v, C) and v.v is None):
            a[1] = True

    def touch(self, st, obj, node):
        if not isinstance(obj, Sy) or len(obj.k) < 2:
            return
        last = obj.k[-1]
        a = last[0] if isinstance(last, tuple) else last
        c = self.eng.key_type.get(obj.k[:-1])
        if isinstance(a, str) and a.startswith('.') and c:
            self.inplace.setdefault((c, a[1:]), self.ch.where(st, node))

    def aliased(self):
        for key in sorted(self.inplace):
            a = self.alias.get(key)
            if a is not None and a[0] is not None:
                yield key, a[0], self.inplace[key], bool(a[1])

    @staticmethod
    def tree(k):
        return False

    def base_types(self):
        if not self.types:
            for oid, o in self.eng.base.items():
                if o.kind == 'dict':
                    self.types[self.eng.dict_type(oid)] = o
        return self.types

    def owner(self, obj):
        w = self.old(obj)
        if w is not None:
            return w
        if isinstance(obj, Sy) and obj.td.objs and not obj.td.top:
            if 'dict:options' in obj.td.objs:
                return 'options mapping of the caller'
            b = self.base_types()
            if all(t in b for t in obj.td.objs):
                return 'module-level dict'
        return None


def shared(eng):
    return Shared(eng).ch


def report_shared(rep, ch, what, d=None):
    rep.ok('store', '%s: %d stores observed' % (what, ch.seen), ch.seen)
    for (q, line, owner), why in sorted(ch.hits.items(), key=str):
        rep.violation('shared', '%s %s' % (q, owner), '%s: line %d of %s: '
                      '%s of a %s' % (what, line, q, why, owner))
    for key, ((q, line), kind), (mq, ml), both in ch.outer.aliased():
        f = '%s.%s' % key
        if both:
            rep.undecided('shared', f, 'may be a shared %s where line %d of '
                          '%s changes it' % (kind, ml, mq))
        else:
            rep.violation('shared', f, '%s: line %d of %s stores a %s that '
                          'all calls share, line %d of %s changes it' % (
                              what, line, q, kind, ml, mq))


def construct(rep):
    """constructors with and without options; containers that outlive the
    call must not become fields that are changed"""
    from ..interp import Interp
    e = Interp()
    e.load_all()
    ch = shared(e)
    pub = e.base.get(('mod', 'commonmark'))
    for cname, v in sorted(pub.fields.items()):
        if not isinstance(v, K):
            continue
        for args in ([], [Sy(('options',), objtd('dict:options'))]):
            try:
                for st, r in e.call(e.new_state(), v, list(args), {}, None):
                    rep.ok('construct', '%s(%s)' % (
                        cname, 'options' if args else ''))
            except Budget:
                rep.undecided('construct', cname, 'budget')
    report_shared(rep, ch, 'construction')
