"""Parsing never raises: exceptions found on the paths through the parser.

Abstract interpretation reports every exception a function may end with. It
knows texts, positions and the results of matches well, but not the shape of
the tree under construction, so an exception is reported as a violation only
where the offending value comes from what it knows: a text and a position, a
match or own function that may return None, a variable that was never set, a
key nothing guarantees, or a conversion.
"""
import ast

from ..values import *
from ..interp import Budget
from ..models import isstr, isintv
from . import parser as PA
from .text import Observed

ALWAYS = ('UnboundLocalError', 'NameError', 'UnicodeEncodeError',
          'UnicodeDecodeError', 'ZeroDivisionError', 'OverflowError',
          'error')
# fields of a node which are None at the ends of a chain of nodes
LINKS = ('first_child', 'last_child', 'nxt', 'prv')


def check_c16(rep, tier):
    d = PA.solved(rep)
    NoRaise(rep, d).check()
    rep.require('function', 1)


class NoRaise(object):

    def __init__(self, rep, d):
        self.rep, self.d, self.e = rep, d, d.eng
        self.defs = []
        for name, (tree, _, _) in self.e.trees.items():
            for x in ast.walk(tree):
                if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    self.defs.append(x)

    def check(self):
        rep, d, e = self.rep, self.d, self.e
        suspects = {}
        for (q, name, where), (v, s) in d.raises.items():
            suspects.setdefault(q, []).append(v)
        for q in sorted(d.fns):
            if q not in suspects:
                rep.ok('function', q + ': no exception')
                continue
            for v in self.again(q):
                where = v.where or ('?', 0)
                what = '%s line %s: %s %s' % (where[0], where[1], v.name,
                                              v.detail)
                why = self.judge(v)
                if why is None:
                    rep.undecided('raise', what,
                                  'depends on the shape of the tree')
                else:
                    rep.violation('raise', where[0], '%s (%s)' % (what, why))
            rep.ok('function', q)

    # -- a second run that knows more about positions --------------------
    def again(self, q):
        e, d = self.e, self.d
        out = []

        def onget(st, obj, attr, value, node):
            # a position as a function finds it lies within the text
            if attr != 'pos' or not isinstance(value, I) or \
                    len(value.lin) != 1 or value.k:
                return
            for s, text in e.getattr(st.copy(), obj, 'subject', None):
                text = e.nv(st, text)
                if isstr(text):
                    st.assume_ge0(isub(e.strlen(st, text), value))
                    st.assume_ge0(value)
        hooks = {'getattr': [onget]}
        with Observed(e, hooks):
            try:
                args, res = d.run(q)
            except Budget:
                self.rep.undecided('raise', q, 'budget')
                return out
        seen = set()
        for s, v in res:
            if isexc(v):
                k = (v.name, v.where, v.detail)
                if k not in seen:
                    seen.add(k)
                    out.append(v)
        return out

    # -- is the value one the analysis knows -----------------------------
    def judge(self, v):
        n = v.node
        if n is None or isinstance(n, (ast.Raise, ast.Assert)):
            return None
        if v.name in ALWAYS:
            return 'on a path through the function'
        if v.name == 'IndexError':
            if v.detail == 'negative':
                return None
            return 'the index may be past the end'
        if v.name == 'KeyError':
            return self.key(v, n)
        if v.name == 'ValueError':
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                    and n.func.id in ('int', 'chr', 'float'):
                return 'conversion of text not known to be valid'
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                o = self.origin(n.func.value)
                if o == 'call':
                    return 'the text may not hold what is looked for'
            return None
        if v.name == 'AttributeError' and (
                v.detail.startswith('None has') or
                v.detail == 'assignment to attribute of None'):
            if isinstance(n, ast.Call):
                n = n.func
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                n = n.targets[0]
            if not isinstance(n, ast.Attribute):
                return None
            o = self.origin(n.value)
        elif v.name == 'TypeError' and \
                v.detail.startswith('regex subject'):
            o = self.subject(n)
        elif v.name == 'TypeError' and ('None' in v.detail or
                                        v.detail == 'not subscriptable'):
            kids = [x for x in ast.iter_child_nodes(n)
                    if isinstance(x, ast.expr)]
            if isinstance(n, ast.Call):
                kids = list(n.args)
            if isinstance(n, ast.Subscript):
                kids = [n.value]
            os_ = set(self.origin(x) for x in kids) - set(['const'])
            o = os_.pop() if len(os_) == 1 else None
        else:
            return None
        if o == 'call':
            return 'the result used may be None'
        if o == 'link':
            return 'there may be no such node'
        if o == 'chain':
            return 'the chain may be at its end'
        return None

    def key(self, v, n):
        if not isinstance(n, ast.Subscript):
            return None
        o = n.value
        if isinstance(o, ast.Attribute) and o.attr in self.nodefields():
            return None
        sl = n.slice
        if isinstance(sl, ast.Index):
            sl = sl.value
        if not isinstance(sl, ast.Constant):
            # a constant table has the keys it has been given
            if self.table(o):
                return None
            return 'nothing guarantees the key'
        return 'nothing guarantees the key'

    def subject(self, n):
        if not isinstance(n, ast.Call):
            return None
        f = n.func
        i = 0
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) \
                and f.value.id == 're':
            i = 2 if f.attr in ('sub', 'subn') else 1
        elif isinstance(f, ast.Attribute) and f.attr in ('sub', 'subn'):
            i = 1
        for k in n.keywords:
            if k.arg == 'string':
                return self.origin(k.value)
        return self.origin(n.args[i]) if len(n.args) > i else None

    def chain(self, key, attr):
        """nothing but None or a dict is ever kept there"""
        found = False
        for c, fields in self.e.types.items():
            if not str(c).startswith(('commonmark.', 'dict:')) or \
                    not hasattr(fields, 'items'):
                continue
            t = fields.get(attr or key)
            if t is None:
                continue
            if not (t.none and t.objs and t.nk == 1 + len(t.objs) and all(
                    str(q).startswith('dict:') for q in t.objs)):
                return False
            found = True
        return found

    def nodefields(self):
        return set(self.e.types.get(self.d.nodecls) or {})

    def table(self, o):
        """filled in at class or module level"""
        name = o.attr if isinstance(o, ast.Attribute) else \
            o.id if isinstance(o, ast.Name) else None
        for m, (tree, _, _) in self.e.trees.items():
            for x in ast.walk(tree):
                if isinstance(x, (ast.Module, ast.ClassDef)):
                    for b in x.body:
                        if isinstance(b, ast.Assign) and any(
                                isinstance(t, ast.Name) and t.id == name or
                                isinstance(t, ast.Attribute) and
                                t.attr == name for t in b.targets):
                            return True
        return False

    def origin(self, x, deep=0):
        """'call' when every value this can have is the result of a call"""
        if isinstance(x, ast.Constant):
            return 'const'
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Attribute) and f.attr == 'get' and \
                    len(x.args) == 1 and \
                    isinstance(x.args[0], ast.Constant) and \
                    self.chain('[%s]' % (x.args[0].value,), None):
                return 'chain'
            if isinstance(f, ast.Attribute) and f.attr == 'get' and \
                    self.origin(f.value, deep + 1) not in (
                        'call', 'name'):
                return None
            return 'call'
        if isinstance(x, ast.Attribute):
            if x.attr in LINKS:
                return 'link'
            return 'chain' if self.chain('', x.attr) else None
        if isinstance(x, ast.IfExp):
            a = self.origin(x.body, deep), self.origin(x.orelse, deep)
            a = set(a) - set(['const'])
            return a.pop() if len(a) == 1 else None
        if isinstance(x, (ast.BinOp, ast.JoinedStr)):
            return 'const'
        if isinstance(x, ast.Subscript):
            sl = x.slice
            sl = sl.value if isinstance(sl, ast.Index) else sl
            if isinstance(sl, ast.Constant) and \
                    self.chain('[%s]' % (sl.value,), None):
                return 'chain'
            return None
        if isinstance(x, ast.BoolOp):
            a = set(self.origin(y, deep) for y in x.values) - set(['const'])
            return a.pop() if len(a) == 1 else None
        if isinstance(x, ast.Name) and deep < 4:
            f = self.function(x)
            if f is None:
                return None
            args = f.args
            if any(a.arg == x.id for a in args.args + args.kwonlyargs):
                return None
            vals = []
            for y in ast.walk(f):
                if isinstance(y, ast.Assign):
                    for t in y.targets:
                        if isinstance(t, ast.Name) and t.id == x.id:
                            vals.append(y.value)
                        elif isinstance(t, (ast.Tuple, ast.List)) and any(
                                isinstance(z, ast.Name) and z.id == x.id
                                for z in t.elts):
                            return None
                elif isinstance(y, ast.NamedExpr) and y.target.id == x.id:
                    vals.append(y.value)
                elif isinstance(y, ast.For) and any(
                        isinstance(z, ast.Name) and z.id == x.id
                        for z in ast.walk(y.target)):
                    return None
            if not vals:
                return None
            a = set(self.origin(y, deep + 1) for y in vals
                    if not (isinstance(y, ast.Name) and y.id == x.id))
            a -= set(['const'])
            return a.pop() if len(a) == 1 else None
        return None

    def function(self, x):
        best = None
        for f in self.defs:
            if isinstance(f, ast.FunctionDef) and any(
                    y is x for y in ast.walk(f)):
                if best is None or any(y is f for y in ast.walk(best)):
                    best = f
        return best
