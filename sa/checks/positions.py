"""The end line and end column recorded for a closed block belong together.

The column is the length of the last line that was finished
(`last_line_length`). On every path to a call that closes a block, the line
number given is compared with the line that length belongs to: the current
line where the path has stored its length already, the one before otherwise.
"""
import ast

from ..values import *
from ..interp import AnalysisError, Budget
from ..models import strconst, isstr, isintv
from . import parser as PA
from .text import Observed

# is the length of the current line stored: kept as a field of the path
GHOST = (('ghost',), '.stored')
TURNS = (('ghost',), '.turns')
LEN, NUM = 'last_line_length', 'line_number'


def check_c19(rep, tier):
    d = PA.solved(rep)
    Positions(rep, d).check()
    rep.require('end', 0)


class Positions(object):

    def __init__(self, rep, d):
        self.rep, self.d, self.e = rep, d, d.eng
        self.pk = d.parser.k

    def field(self, st, name):
        got = self.e.getattr(st.copy(), self.d.parser, name, None)
        return got[0][1] if got and not isexc(got[0][1]) else None

    def value(self, v):
        if v is None:
            return None
        v = self.e.nv(self.e.new_state(), v)
        return toI(v) if isinstance(v, C) and isintv(v) else v

    def check(self):
        rep, d, e = self.rep, self.d, self.e
        closers = self.closers()
        if not closers:
            rep.undecided('end', 'blocks', 'no function found that closes a '
                          'block with a line number')
            return
        setters = set()
        counters = set()

        def onset(st, obj, attr, value, node, o):
            if getattr(obj, 'k', None) == self.pk:
                if attr == LEN:
                    setters.add(st.stack[-1])
                if attr == NUM:
                    counters.add(st.stack[0])
        for q in sorted(d.touched.roots(('setattr', LEN),
                                        ('setattr', NUM))):
            with Observed(e, {'setattr': [onset]}):
                try:
                    d.run(q)
                except Budget:
                    pass
        entry = d.entry().info.qual
        lines = counters - set([entry])
        if not setters or len(lines) != 1:
            rep.undecided('end', 'lines', 'where lines are counted is not '
                          'recognised')
            return
        self.line_fn = lines.pop()
        self.entry = entry
        cut = e.cut
        follow = set(q for q in setters if q not in (
            entry, self.line_fn))
        # methods reached by the same call
        names = set(d.fns[q].info.name for q in follow if q in d.fns)
        follow |= set(q for q in d.fns if d.fns[q].info.name in names and
                      q not in (entry, self.line_fn))
        self.cut = lambda info: cut(info) and info.qual not in follow
        self.closers_ = closers
        self.params = {}
        # where is each function called: with the length stored or not
        ctx = {self.line_fn: {'before'}}
        sites = {}
        for q in sorted(d.fns):
            if q == entry or q in closers:
                continue
            sites[q] = self.run(q)
        todo = [self.line_fn]
        while todo:
            q = todo.pop()
            for callee, own, _ in sites.get(q, ((), ()))[0]:
                new = set([own]) if own is not None else set(ctx[q])
                if not new <= ctx.setdefault(callee, set()):
                    ctx[callee] |= new
                    todo.append(callee)
        for q in sorted(sites):
            for args in sites[q][1]:
                self.judge(q, ctx.get(q, set()), *args)
        self.last()

    def closers(self):
        """functions that store the end of a block -> position of the line
        number among the arguments"""
        e, d = self.e, self.d
        out = {}
        for q in d.touched.roots(('setitem', True),
                                 ('setattr', 'sourcepos')):
            if q not in d.fns:
                continue
            hits = []

            def onitem(st, obj, key, value, node):
                if isinstance(key, C) and key.v == 1 and isinstance(
                        value, R):
                    end(st, value)

            def end(st, value):
                o = st.obj(value.oid) if isinstance(value, R) else None
                if o is not None and o.items and len(o.items) == 2:
                    hits.append(tuple(e.nv(st, x) for x in o.items))

            def onattr(st, obj, attr, value, node, o):
                o = st.obj(value.oid) if isinstance(value, R) else None
                if attr == 'sourcepos' and o is not None and \
                        o.items and len(o.items) == 2:
                    end(st, o.items[1])
            with Observed(e, {'setitem': [onitem], 'setattr': [onattr]}):
                try:
                    args, _ = d.run(q)
                except Budget:
                    continue
            for a, b in hits:
                for n, x in enumerate(args):
                    if same(e.nv(e.new_state(), x), a):
                        out[q] = n
                        self.end_column(q, b)
        return out

    def end_column(self, q, b):
        rep = self.rep
        v = self.value(b)
        want = self.value(self.field(self.e.new_state(), LEN))
        if v == want:
            rep.ok('column', '%s: length of the last line' % q)
        elif isintv(v) and isinstance(isub(v, want), C):
            rep.violation('column', q, 'the end column is the length of the '
                          'last line %+d' % isub(v, want).v)
        else:
            rep.undecided('column', q, 'end column %r' % (b,))

    def current(self, st, own):
        """length of the line being parsed?"""
        v = self.value(own)
        if not isintv(v):
            return None
        ln = self.field(st, 'current_line')
        cands = []
        if ln is not None and isstr(ln):
            cands.append(self.e.strlen(st, ln))
        cands.append(symint(('len', ('arg', 'line', 'text'))))
        for c in cands:
            if st.prove_eq(v, c):
                return True
            k = isub(v, c)
            if isinstance(k, C) and k.v:
                return k.v
            have, want = dict(toI(v).lin), dict(toI(c).lin)
            if want and isinstance(k, I) and all(
                    have.get(x) == n for x, n in want.items()):
                return 'a variable amount'
            if any(isinstance(x, tuple) and x[0] == 'nat' and
                   'strip' in str(x[1:])[:12] for x in have):
                return 'white space'
        return None

    def stored(self, st, obj, attr, value, node, o):
        """note on the path that the length of this line was stored"""
        if getattr(obj, 'k', None) != self.pk:
            return
        if attr == LEN:
            c = self.current(st, value)
            st.sy[GHOST] = C('after' if c is True else 'other'
                             if c is None else c)
        elif attr in (NUM, 'current_line'):
            st.sy[GHOST] = C('before')

    def own(self, st, q):
        """what is known about the stored length on this path"""
        v = st.sy.get(GHOST)
        if not isinstance(v, C):
            return '?'
        if v.v == 'before':
            return 'before' if q == self.line_fn else None
        return v.v if v.v in ('after', 'other') else ('off', v.v)

    def run(self, q):
        e, d = self.e, self.d
        calls, ends = [], []

        def onsum(st, fn, args, bound, node):
            c = fn.info.qual
            own = self.own(st, q)
            if c in self.closers_:
                n = self.closers_[c]
                if n < len(args):
                    ends.append((st.copy(), args[n], own, st.stack[-1],
                                 getattr(node, 'lineno', 0)))
                return
            if own in ('?', 'other'):
                own = 'maybe'
            calls.append((c, own, getattr(node, 'lineno', 0)))

        def prep(st, args):
            st.sy[GHOST] = C('before')
            self.number = self.value(self.field(st, NUM))
        self.news = []
        e.PART = lambda st: getattr(st.sy.get(GHOST), 'v', None)
        with Observed(e, {'summary': [onsum], 'setattr': [self.stored],
                          'new': [self.onnew]}, self.cut):
            try:
                args, res = d.run(q, prep)
            except Budget:
                self.rep.undecided('end', q, 'budget')
                res = []
        e.PART = None
        if d.fns[q].info.cls is d.k.info:
            self.opened(q, self.news)
        if q == self.line_fn:
            self.finished(res)
        return calls, ends

    def judge(self, q, ctx, st, n, own, f, line):
        rep = self.rep
        what = '%s line %d' % (f, line)
        num = self.value(self.field(self.e.new_state(), NUM))
        if q == self.line_fn:
            num = iadd(num, C(1))
        n = self.value(n)
        delta = isub(n, num) if isintv(n) and isintv(num) else None
        if not isinstance(delta, C):
            rep.undecided('end', what, 'line number %r' % (n,))
            return
        delta = delta.v
        if isinstance(own, tuple):
            rep.violation('end', f, 'line %d: the length stored for the line '
                          'is off by %s' % (line, own[1]))
            return
        cases = set([own]) if own == 'after' else (
            set(ctx) if own is None else set(
                ['maybe'] if own in ('?', 'other') else [own]))
        if not cases:
            rep.undecided('end', what, 'when it is called is not known')
            return
        if delta == 0:
            if cases <= set(['after']):
                rep.ok('end', what + ': the line whose length is stored')
            elif 'before' not in cases:
                rep.undecided('end', what, 'length %r' % cases)
            else:
                rep.violation('end', f, 'line %d: a block is closed with the '
                              'number of the current line and the length of '
                              'the one before' % line)
        elif delta == -1:
            if 'after' in cases:
                rep.violation('end', f, 'line %d: a block is closed with the '
                              'number of the line before and the length of '
                              'the current one' % line)
            elif cases <= set(['before']) or cases <= set(
                    ['before', 'maybe']):
                rep.ok('end', what + ': the line before')
            else:
                rep.undecided('end', what, 'length %r' % cases)
        else:
            rep.violation('end', f, 'line %d: a block is closed with the '
                          'number of the current line %+d' % (line, delta))

    def finished(self, res):
        """after each line its length is stored, and it is counted"""
        rep, q = self.rep, self.line_fn
        for st, v in res:
            if isexc(v):
                continue
            own = self.own(st, q)
            if own == 'after':
                rep.ok('line', 'its length is stored')
            elif own == 'before':
                rep.violation('line', q, 'ends without storing the length of '
                              'the line')
            elif isinstance(own, tuple):
                rep.violation('line', q, 'the length stored for the line is '
                              'off by %s' % own[1])
            else:
                rep.undecided('line', q, 'length %r' % (
                    self.field(st, LEN),))
            n = self.value(self.field(st, NUM))
            if isintv(n) and isinstance(isub(n, self.number), C):
                k = isub(n, self.number).v
                if k == 1:
                    rep.ok('line', 'it is counted')
                else:
                    rep.violation('line', q, 'a line is counted %d times' % k)
            else:
                rep.undecided('line', q, 'line number %r' % (n,))

    def onnew(self, st, cls, args, kw, node):
        """blocks are opened on the current line"""
        e = self.e
        if cls is not self.d.node_info or len(args) < 2:
            return
        v = e.nv(st, args[1])
        o = st.obj(v.oid) if isinstance(v, R) else None
        if o is None or not o.items:
            return
        f = e.nv(st, o.items[0])
        o = st.obj(f.oid) if isinstance(f, R) else None
        if o is not None and o.items and len(o.items) == 2:
            self.news.append((self.value(o.items[0]), st.stack[-1],
                              getattr(node, 'lineno', 0)))

    def opened(self, q, news):
        rep = self.rep
        num = self.value(self.field(self.e.new_state(), NUM))
        if q == self.line_fn:
            num = iadd(num, C(1))
        for n, f, line in news:
            k = isub(n, num) if isintv(n) else None
            if not isinstance(k, C):
                rep.undecided('start', '%s line %d' % (f, line),
                              'line %r' % (n,))
            elif k.v:
                rep.violation('start', f, 'line %d: a block is opened '
                              'with the number of the current line %+d' %
                              (line, k.v))
            else:
                rep.ok('start', '%s line %d' % (f, line))

    def last(self):
        """blocks open at the end are closed with the number of lines"""
        e, d, rep = self.e, self.d, self.rep
        inside, ends, starts = set(), [], []

        def inner(st, fn, args, bound, node):
            if fn.info.qual == self.line_fn:
                inside.add(node)

        def oniter(st, value, node):
            if any(x in inside for x in ast.walk(node)):
                c = self.count(st, value)
                st.sy[TURNS] = c if c is not None else TOP
                starts.append(self.value(self.field(st, NUM)))

        def onsum(st, fn, args, bound, node):
            c = fn.info.qual
            if c in self.closers_ and self.closers_[c] < len(args):
                ends.append((st.copy(), args[self.closers_[c]],
                             getattr(node, 'lineno', 0)))
        for hooks in ({'summary': [inner]},
                      {'iterate': [oniter], 'iterrange': [oniter],
                       'summary': [onsum]}):
            with Observed(e, hooks):
                try:
                    d.run(self.entry)
                except Budget:
                    rep.undecided('last', self.entry, 'budget')
                    return
        for n in starts:
            if not isinstance(n, (C, I)) or isinstance(n, I) and n.lin:
                rep.undecided('first', self.entry, 'line number %r' % (n,))
            elif toI(n).k:
                rep.violation('first', self.entry, 'lines are counted from '
                              '%d' % (toI(n).k + 1))
            else:
                rep.ok('first', 'lines are counted from one')
        for st, n, line in ends:
            what = '%s line %d' % (self.entry, line)
            n = self.value(n)
            num = self.value(self.field(st, NUM))
            if n == num:
                rep.ok('last', what + ': the line counter')
                continue
            c = st.sy.get(TURNS)
            if not isintv(c) or not isintv(n):
                rep.undecided('last', what, 'number of lines')
                continue
            if st.prove_eq(n, c):
                rep.ok('last', what + ': the number of lines parsed')
            elif isinstance(isub(n, c), C):
                rep.violation('last', self.entry, 'line %d: blocks are '
                              'closed with the number of lines %+d' % (
                                  line, isub(n, c).v))
            else:
                rep.undecided('last', what, '%r' % (n,))

    def count(self, st, v):
        """number of turns of a loop over this"""
        return turns(self.e, st, self.e.nv(st, v))


def turns(e, st, v):
    o = st.obj(v.oid) if isinstance(v, R) else None
    if o is not None and o.kind == 'iter':
        f = dict(o.fields or {})
        if o.cls == 'range' and f.get('step') == C(1):
            return isub(toI(f['stop']), toI(f['start']))
        if f.get('src') is not None:
            return turns(e, st, e.nv(st, f['src']))
        return None
    for s, n in e.bi_len(st.copy(), [v], {}, None):
        if not isexc(n) and isintv(n):
            return n
    return None


def same(x, a):
    if x is a or x == a:
        return True
    try:
        return isintv(x) and toI(x) == toI(a)
    except Exception:
        return False
