"""Whole-parser analysis: infers the kinds and character sets of every field
and parameter by analysing each function once per round from the joined
types of its call sites, until nothing changes."""
import ast
import time

from .values import *
from .charset import CharSet, ALL
from .state import Obj, St
from .interp import Interp, AnalysisError, Budget
from . import loader


class ParserDriver(object):

    LONG, LONG_CAP = 50, 4    # long functions: fewer states are kept

    def __init__(self, repo=None, verbose=False, inline=None):
        self.eng = e = Interp(repo)
        e.load_all()
        self.verbose = verbose
        k = e.public('Parser')
        if not isinstance(k, K):
            raise AnalysisError('Parser is not a class')
        self.k = k
        nm = [c for q, c in e.classes.items() if c.name == 'Node']
        if len(nm) != 1:
            raise AnalysisError('class Node not found')
        self.node_info = nm[0]
        self.nodecls = nm[0].qual
        self.parser_mods = set()
        e.types['dict:options'] = {'[smart]': TD(bool=True)}
        e.infer = True
        e.keep_keys = not self.removes_keys()
        e.MERGE_AT = 4
        e.CAP = 16
        e.cut = self.cut
        self.parser = Sy(('parser',), objtd(k.info.qual))
        self.small = {}
        self.raises = {}     # (qual, exc name, line) -> Exc
        self.times = {}
        self.problems = {}
        self.caps = {}
        self.boot()

    # a function is followed into when it is short and does not loop
    def cut(self, info):
        r = self.small.get(info.qual)
        if r is None:
            if isinstance(info.node, ast.Lambda):
                r = False
            elif info.mod == self.node_info.mod and not any(
                    isinstance(x, (ast.While, ast.For))
                    for x in ast.walk(info.node)):
                r = info.cls is self.node_info and info.nstmts > 3 and \
                    info.name != '__init__'
            else:
                loops = any(isinstance(x, (ast.While, ast.For, ast.Try))
                            for x in ast.walk(info.node))
                dyn = any(isinstance(x, ast.Call) and
                          isinstance(x.func, ast.Attribute) and
                          isinstance(x.func.value, ast.Subscript)
                          for x in ast.walk(info.node))
                r = loops or dyn or info.nstmts > 10
            self.small[info.qual] = r
        return r

    def removes_keys(self):
        for name, (tree, _, _) in self.eng.trees.items():
            if '.render' in name:
                continue
            for x in ast.walk(tree):
                if isinstance(x, ast.Delete) and any(
                        isinstance(t, ast.Subscript) for t in x.targets):
                    return True
                if isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Attribute) and x.func.attr in (
                            'pop', 'popitem', 'clear', '__delitem__'):
                    return True
        return False

    def boot(self):
        e = self.eng
        st = e.new_state()
        e.cut = None
        opts = Sy(('options',), objtd('dict:options'))
        self.inst_classes = {}
        for s, r in e.call(st, self.k, [opts], {}, None):
            if isexc(r) or not isinstance(r, R):
                raise AnalysisError('Parser() cannot be constructed: %r' % r)
            e.singletons.add(self.k.info.qual)
            for oid, o in s.heap.items():
                if o.kind == 'inst' and o.cls is not self.node_info:
                    e.singletons.add(o.cls.qual)
            self.fresh = (s, r)
        e.cut = self.cut

    def entry(self):
        e = self.eng
        for s, m in e.getattr(e.new_state(), self.parser, 'parse', None):
            if isinstance(m, BM) and isinstance(m.fn, Fn):
                return m.fn
        raise AnalysisError('Parser.parse not found')

    def solve(self, inputs=None):
        e = self.eng
        f = self.entry()
        p0 = f.info.params
        e.types['call:' + f.info.qual] = {
            p0[0]: self.parser.td,
            p0[1]: inputs or strtd(ALL, 0)}
        self.fns = {f.info.qual: f}

        def note(st, fn, args, bound, node):
            self.fns.setdefault(fn.info.qual, fn)
        e.hooks.setdefault('summary', []).append(note)
        self.sigs = {}
        self.deps = {}       # function -> type table entries it consulted
        self.at = {}         # function -> table version it was analysed at
        n = 0
        while True:
            todo = [q for q in self.fns if self.stale(q)]
            if not todo:
                break
            # cheap functions first: the others then see settled types
            q = min(todo, key=lambda f: (self.times.get(
                f, (self.fns[f].info.nstmts / 20.0,))[0], f))
            n += 1
            if n > 1500:
                raise AnalysisError('types do not stabilise')
            e.reads = set()
            self.at[q] = e.version
            self.analyse(q)
            self.deps[q] = e.reads
            e.reads = None
        self.rounds = n
        return self

    def stale(self, q):
        if q not in self.at:
            return True
        st, at = self.eng.stamp, self.at[q]
        return any(st.get(d, 0) > at for d in self.deps.get(q, ()))

    def params(self, st, f):
        e = self.eng
        ent = e.types.get('call:' + f.info.qual) or {}
        if e.reads is not None:
            for p in f.info.params:
                e.reads.add(('call:' + f.info.qual, p))
        args = []
        for p in f.info.params:
            td = ent.get(p)
            if td is None:
                if p in f.defaults:
                    args.append(f.defaults[p])
                    continue
                td = ANYTD
            if td.objs and len(td.objs) == 1 and td.nkinds() == 1 and \
               next(iter(td.objs)) in e.singletons:
                # one object of this class
                key = ('the', next(iter(td.objs)))
                if td.objs == self.parser.td.objs:
                    key = self.parser.k
                args.append(Sy(key, td))
            else:
                args.append(Sy(('arg', f.info.name, p), td))
        return args

    def run(self, q, prepare=None):
        """outcomes of one function from its inferred parameters"""
        e = self.eng
        f = self.fns[q]
        e.steps = 0
        st = e.new_state()
        args = self.params(st, f)
        if prepare is not None:
            prepare(st, args)
        old, cap = e.cut, e.CAP
        e.cut = lambda info: info.qual != q and old(info)
        if cap is not None:
            e.CAP = min(cap, self.caps.get(q, cap),
                        self.LONG_CAP if f.info.nstmts > self.LONG else cap)
        try:
            return args, e.call_fn(st, f, args, {}, None)
        finally:
            e.cut, e.CAP = old, cap

    def analyse(self, q):
        e = self.eng
        t0 = time.time()
        self.now = q
        if self.verbose > 1:
            print('     start', q, flush=True)
        while True:
            try:
                args, res = self.run(q)
                break
            except Budget:
                cap = self.caps.get(q, e.CAP)
                if cap <= 2:
                    self.problems[q] = 'budget'
                    return
                self.caps[q] = cap // 3
        self.problems.pop(q, None)
        ret = BOTTOM
        for key in [k for k in self.raises if k[0] == q]:
            del self.raises[key]
        for s, v in res:
            if isexc(v):
                self.raises[(q, v.name, v.where)] = (v, s)
                continue
            ret = ret.join(e.td_of(s, v))
        if ret.nkinds():
            e.learn('call:' + q, 'return', ret)
        self.times[q] = (round(time.time() - t0, 2), len(res))
        if self.verbose and time.time() - t0 > 1:
            print("  ", q, self.times[q], e.steps, flush=True)
