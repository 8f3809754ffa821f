"""Termination: no turn of a loop may leave everything it depends on as it
was.

Each loop is interpreted to its fixed point; then one more turn is followed
path by path. What the loop's tests depend on (locals, fields and keys read in
a test, directly, through other locals or in a called function) is compared
before and after the turn. A path on which all of it is the same, or can be the
same (a position moved on by a length that may be zero), is taken again and
again: the loop never ends.
"""
import ast

from ..values import *
from ..interp import Budget
from ..models import isintv, isstr
from . import parser as PA
from .text import Observed

TURNS = 3
# built-in functions that change nothing
PURE = ('hasattr', 'getattr', 'isinstance', 'len', 'str', 'int', 'bool',
        'repr', 'min', 'max', 'abs', 'print', 'ord', 'chr', 'callable',
        'type', 'range', 'sorted', 'any', 'all', 'sum')
STEPS = 20000


def check_c09(rep, tier):
    d = PA.solved(rep)
    Loops(rep, d).check()
    rep.require('loop', 1)


class Loops(object):
    def __init__(self, rep, d):
        self.rep, self.d, self.e = rep, d, d.eng
        self.byname = {}
        self.alias = []
        for m, (tree, src, path) in self.e.trees.items():
            for x in ast.walk(tree):
                if isinstance(x, ast.FunctionDef):
                    self.byname.setdefault(x.name, []).append(x)
                    # called through the built-in of that name
                    if x.name.startswith('__') and x.name.endswith('__'):
                        self.byname.setdefault(x.name[2:-2], []).append(x)
                elif isinstance(x, ast.ClassDef):
                    for b in x.body:
                        if isinstance(b, ast.Assign) and \
                                isinstance(b.value, ast.Name):
                            for t in b.targets:
                                if isinstance(t, ast.Name):
                                    self.alias.append((t.id, b.value.id))
        for a, b in self.alias:
            self.byname.setdefault(a, []).extend(self.byname.get(b, []))
        self.reads = {}
        self.found = {}     # id(loop) -> (node, function, verdict)

    # -- what a loop depends on ------------------------------------------
    def fn_reads(self, name, seen):
        """attribute names and keys a function of that name may read"""
        if name in seen:
            return set()
        seen.add(name)
        out = set()
        for f in self.byname.get(name, []):
            for x in ast.walk(f):
                out |= self.loads(x, seen)
        return out

    def loads(self, x, seen):
        if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
            return set([x.attr]) | self.fn_reads(x.attr, seen)
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            return self.fn_reads(x.id, seen)
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            return set(['[%s]' % x.value])
        return set()

    def fn_tests(self, name, seen):
        """what the tests of a function of that name may depend on"""
        if name in seen:
            return set()
        seen.add(name)
        out = set()
        for f in self.byname.get(name, []):
            out |= self.relevant(f, seen)[1]
        return out

    def relevant(self, loop, seen=None):
        """-> names of the locals, of the fields and keys its tests depend
        on; the locals that depend on their own value of the turn before"""
        exprs = []
        for x in ast.walk(loop):
            if isinstance(x, (ast.If, ast.While, ast.IfExp)):
                exprs.append(x.test)
            elif isinstance(x, ast.For):
                exprs.append(x.iter)
            elif isinstance(x, ast.Try):
                exprs.extend(y for y in x.body)
        assigns = {}
        for x in ast.walk(loop):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name):
                            assigns.setdefault(y.id, []).append(x.value)
            elif isinstance(x, ast.AugAssign) and \
                    isinstance(x.target, ast.Name):
                assigns.setdefault(x.target.id, []).extend(
                    [x.target, x.value])
            elif isinstance(x, ast.For):
                for y in ast.walk(x.target):
                    if isinstance(y, ast.Name):
                        assigns.setdefault(y.id, []).append(x.iter)
            elif isinstance(x, ast.NamedExpr):
                assigns.setdefault(x.target.id, []).append(x.value)
        names, attrs = set(), set()
        todo = list(exprs)
        while todo:
            ex = todo.pop()
            for y in ast.walk(ex):
                attrs |= self.loads(y, set())
                if isinstance(y, ast.Name) and y.id not in names:
                    names.add(y.id)
                    todo.extend(assigns.get(y.id, []))
        seen = set() if seen is None else seen
        for x in ast.walk(loop):
            if isinstance(x, ast.Call):
                f = x.func
                n = f.attr if isinstance(f, ast.Attribute) else \
                    f.id if isinstance(f, ast.Name) else None
                attrs |= self.fn_tests(n, seen)
        # locals reached from themselves
        dep = {}
        for n, vs in assigns.items():
            dep[n] = set(y.id for v in vs for y in ast.walk(v)
                         if isinstance(y, ast.Name))
        own = set()
        for n in assigns:
            seen, todo = set(), list(dep[n])
            while todo:
                m = todo.pop()
                if m not in seen:
                    seen.add(m)
                    todo.extend(dep.get(m, ()))
            if n in seen:
                own.add(n)
        return names, attrs, own

    # -- interpretation ---------------------------------------------------
    def check(self):
        rep, d, e = self.rep, self.d, self.e
        for q in sorted(d.fns):
            f = d.fns[q].info.node
            loops = [x for x in ast.walk(f) if isinstance(x, ast.While)]
            if not loops:
                continue
            self.function(q, loops)
            for x in loops:
                bad, why = self.found.get(id(x), (None, 'not reached'))
                where = '%s: loop at line %s' % (q, x.lineno)
                if bad:
                    rep.violation('loop', q, 'loop at line %s: %s' % (
                        x.lineno, bad))
                elif why:
                    rep.undecided('loop', where, why)
                else:
                    rep.ok('loop', where)
        self.others()

    # -- loops of other functions ------------------------------------------
    def others(self):
        done = set(id(x) for q in self.d.fns
                   for x in ast.walk(self.d.fns[q].info.node))
        for m, (tree, src, path) in sorted(self.e.trees.items()):
            for f in ast.walk(tree):
                if not isinstance(f, ast.FunctionDef):
                    continue
                for x in ast.walk(f):
                    if isinstance(x, ast.While) and id(x) not in done:
                        done.add(id(x))
                        self.path(m, f, x)

    def path(self, m, f, loop):
        names, attrs, own = self.relevant(loop)
        where = '%s.%s' % (m, f.name)
        self.carried, self.attrs = own, attrs
        ends = self.block(loop.body, set([self.touches(loop.test)]))
        if False in ends['next'] | ends['cont']:
            self.rep.violation('loop', where, 'loop at line %s: a path round '
                               'it changes nothing its tests depend on' %
                               loop.lineno)
        else:
            self.rep.ok('loop', '%s: loop at line %s' % (where, loop.lineno))

    def block(self, body, now):
        out = dict(next=set(now), cont=set(), brk=set())
        for x in body:
            if not out['next']:
                break
            r = self.stmt(x, out['next'])
            out['next'] = r['next']
            out['cont'] |= r['cont']
            out['brk'] |= r['brk']
        return out

    def stmt(self, x, now):
        no = dict(next=set(), cont=set(), brk=set())
        if isinstance(x, ast.Continue):
            return dict(no, cont=now)
        if isinstance(x, ast.Break):
            return dict(no, brk=now)
        if isinstance(x, (ast.Return, ast.Raise)):
            return no
        if isinstance(x, ast.If):
            now = set(t or self.touches(x.test) for t in now)
            a, b = self.block(x.body, now), self.block(x.orelse, now)
            return dict((k, a[k] | b[k]) for k in a)
        if isinstance(x, (ast.While, ast.For)):
            test = x.test if isinstance(x, ast.While) else x
            t = isinstance(x, ast.For) or self.touches(test)
            a = self.block(x.body, now)
            return dict(no, next=set(t or y for y in now | a['next'] |
                                     a['cont'] | a['brk']))
        if isinstance(x, ast.Try):
            a = self.block(x.body, now)
            for h in x.handlers:
                b = self.block(h.body, now | a['next'])
                a = dict((k, a[k] | b[k]) for k in a)
            b = self.block(x.orelse + x.finalbody, a['next'])
            return dict(next=b['next'], cont=a['cont'] | b['cont'],
                        brk=a['brk'] | b['brk'])
        if isinstance(x, ast.With):
            return self.block(x.body, now)
        return dict(no, next=set(t or self.touches(x) for t in now))

    def touches(self, x):
        """may this change something the loop depends on"""
        for y in ast.walk(x):
            if isinstance(y, (ast.Attribute, ast.Subscript)) and \
                    not isinstance(y.ctx, ast.Load):
                if isinstance(y, ast.Subscript) or y.attr in self.attrs:
                    return True
            elif isinstance(y, ast.Name) and not isinstance(y.ctx, ast.Load):
                if y.id in self.carried:
                    return True
            elif isinstance(y, (ast.Yield, ast.YieldFrom, ast.Await)):
                return True
            elif isinstance(y, ast.Call):
                f = y.func
                if isinstance(f, ast.Attribute):
                    # its effect is known where all functions of that name
                    # are
                    if f.attr not in self.byname or \
                            self.writes(f.attr, set()) & self.attrs:
                        return True
                elif isinstance(f, ast.Name):
                    if f.id in self.byname:
                        if self.writes(f.id, set()) & self.attrs:
                            return True
                    elif f.id not in PURE:
                        return True
                else:
                    return True
        return False

    def writes(self, name, seen):
        if name in seen:
            return set()
        seen.add(name)
        out = set()
        for f in self.byname.get(name, []):
            for y in ast.walk(f):
                if isinstance(y, ast.Attribute):
                    if not isinstance(y.ctx, ast.Load):
                        out.add(y.attr)
                    else:
                        out |= self.writes(y.attr, seen)
                elif isinstance(y, ast.Name):
                    out |= self.writes(y.id, seen)
        return out

    def onset(self, st, obj, attr, value, node, o):
        self.stores.setdefault(attr, set()).add(
            value if isinstance(value, C) else None)
        self.objs.setdefault(attr, set()).add(getattr(obj, 'k', None))

    def function(self, q, loops):
        d, e = self.d, self.e
        mine = dict((id(x), x) for x in loops)
        rel = dict((id(x), self.relevant(x)) for x in loops)
        heads = {}
        busy = [False]

        def onover(eng, n, st, head, body, orelse):
            if id(n) in mine and not busy[0]:
                heads[id(n)] = (head, body)
            return None

        def ondone(st, node, head, backs, exits, entry, gens):
            k = id(node)
            if k not in mine or busy[0] or k not in heads:
                return
            busy[0] = True
            saved = (e.MERGE_AT, e.hooks, e.CAP, e.cut, e.steps,
                     e.BUDGET)
            try:
                e.MERGE_AT, e.hooks = None, {}
                for size in (80, 30, 0):
                    e.cut = cut(size)
                    e.CAP, e.steps, e.BUDGET = None, 0, STEPS
                    e.hooks = {'setattr': [self.onset]}
                    try:
                        self.turn(k, node, head, heads[k], rel[k])
                        break
                    except Budget:
                        if not size:
                            self.note(k, None, 'budget')
            finally:
                (e.MERGE_AT, e.hooks, e.CAP, e.cut, e.steps,
                 e.BUDGET) = saved
                busy[0] = False
        old = e.cut

        def cut(size):
            return lambda info: old(info) and info.nstmts > size
        with Observed(e, {'loop_override': [onover],
                          'loop_done': [ondone]}):
            try:
                d.run(q)
            except Budget:
                for x in loops:
                    self.found.setdefault(id(x), (None, 'budget'))

    def note(self, k, bad, why):
        b, w = self.found.get(k, (None, None))
        self.found[k] = (b or bad, w or why)

    def turn(self, k, node, hst, hb, rel):
        head, body = hb
        front = [(hst.copy(), True)]
        self.note(k, None, None)
        for i in range(TURNS):
            nxt = []
            for st, _ in front:
                before = st.copy()
                self.stores, self.objs = {}, {}
                backs, exits = self.e.run_body(head, body, st)
                for b in backs:
                    got = self.same(before, b, rel)
                    if got is not None:
                        nxt.append((got[0], got[1]))
            # nothing at all has changed
            if any(full for s, full in nxt):
                self.note(k, 'a turn may leave all it depends on unchanged',
                          None)
                return
            front = nxt[:20]
            if not front:
                return
        self.note(k, 'turns may leave all it depends on unchanged', None)

    def same(self, a, b, rel):
        """None when something the loop depends on has changed; otherwise
        (state, whether what is computed anew is the same as well)"""
        e = self.e
        names, attrs, own = rel
        full = True
        sa, sb = e.slots(a, a), e.slots(b, a)
        for at, ep in b.epoch.items():
            if a.epoch.get(at) != ep and at in attrs:
                # the same constant put there on every turn
                got = self.stores.get(at, ())
                if len(got) == 1 and None not in got:
                    full = False
                    continue
                # one object, whose field is looked at below
                o = self.objs.get(at, ())
                if len(o) != 1 or ('s',) + (list(o)[0], at) not in sb:
                    return None
        b = b.copy()
        for s in set(sa) | set(sb):
            va, vb = sa.get(s), sb.get(s)
            if va is vb or va == vb:
                continue
            oid = s[1]
            if s[0] in ('f', 'i', 'r', 'L'):
                if oid not in a.heap and oid not in e.base:
                    continue        # born in this turn
                if isinstance(oid, tuple) and oid and oid[0] == 'fr':
                    if oid != a.fr or s[2] not in names:
                        continue
                    # not carried over from the turn before
                    if s[2] not in own or va is None:
                        full = False
                        continue
                elif s[0] == 'f':
                    if s[2] not in attrs:
                        continue
                elif s[0] == 'i':
                    if '[%s]' % (s[2],) not in attrs and \
                            isinstance(s[2], str):
                        continue
                if va is None and oid not in a.heap and oid in e.base:
                    va = e.slots_of(e.base[oid], s)
                if vb is None and oid not in b.heap and oid in e.base:
                    vb = e.slots_of(e.base[oid], s)
                if va is vb or va == vb:
                    continue
            else:
                if s[2] not in attrs and not str(s[2]).startswith('['):
                    continue
                if str(s[2]).startswith('[') and s[2] not in attrs:
                    continue
            if s[0] == 's':
                got = self.stores.get(s[2], ())
                if len(got) == 1 and None not in got:
                    full = False
                    continue
            if va is None or vb is None:
                return None
            if vb == e.nv(b, va) or e.nv(b, vb) == e.nv(b, va):
                continue
            if s[0] != 'f' or not (isinstance(oid, tuple) and oid and
                                   oid[0] == 'fr'):
                got = self.stores.get(s[2] if s[0] in 'fs' else None, ())
                if isinstance(vb, C) and len(got) == 1 and None not in got:
                    full = False
                    continue
            if self.tail(b, va, vb):
                continue
            if isintv(va) and isintv(vb):
                # moved by an amount that may be zero
                if b.assume_ge0(isub(va, vb)) and b.assume_ge0(isub(vb, va)):
                    if self.known(a, b, va, vb):
                        continue
                return None
            return None
        return b, full

    def known(self, a, b, va, vb):
        """the difference is a length the path bounds below by zero, not a
        number nothing is known of"""
        dv = isub(vb, va)
        if isinstance(dv, C):
            return dv.v == 0
        return len(dv.lin) == 1 and dv.lin[0][1] == 1 and not dv.k and \
            b.prove_ge0(dv) and self.zero(dv.lin[0][0])

    def zero(self, sym):
        """may a number be zero: a length may, a result where a zero is
        returned"""
        text = repr(sym)
        if "'ret'" not in text:
            return True
        for q, f in self.d.fns.items():
            if repr(q) in text:
                return any(isinstance(x, ast.Return) and
                           isinstance(x.value, ast.Constant) and
                           x.value.value == 0 for x in ast.walk(f.info.node))
        return False

    def tail(self, b, va, vb):
        """vb is va without a beginning that may be empty"""
        va, vb = self.e.nv(b, va), self.e.nv(b, vb)
        if isinstance(va, Sy):
            va = [v for s, v in self.e.split(b.copy(), va) if isinstance(v, S)]
            if len(va) != 1:
                return False
            va = va[0]
        if not (isinstance(va, S) and isinstance(vb, S) and
                len(va.p) == len(vb.p) == 1):
            return False
        p, q = va.p[0], vb.p[0]
        if isinstance(p, str) or isinstance(q, str) or not q.span:
            return False
        base, start, end = q.span
        n = self.e.strlen(b, va)
        if base != p.uid or not isintv(start) or not b.prove_eq(end, n):
            return False
        return b.assume_ge0(start) and b.assume_ge0(isub(C(0), start)) and \
            self.known(b, b, C(0), start)
