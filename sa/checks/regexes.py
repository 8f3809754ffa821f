"""Every regular expression the package compiles: no repetition can match
one text in exponentially many ways."""
import ast

from ..values import *
from ..interp import Interp, isexc
from .. import rx as RXM, loader

RE_FUNCS = ('compile', 'search', 'match', 'fullmatch', 'sub', 'subn',
            'split', 'findall', 'finditer', 'template')


def scopes(tree):
    """(function name, call node) of every call in a module"""
    out = []

    def walk(n, name):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                walk(c, name + '.' + c.name if name else c.name)
                continue
            if isinstance(c, ast.Call):
                out.append((name, c))
            walk(c, name)
    walk(tree, '')
    return out


class Locals(ast.NodeVisitor):
    """names a function binds, with the constant when it binds one once"""

    def __init__(self, fn):
        self.one = {}
        self.many = set()
        for a in ast.walk(fn):
            if isinstance(a, ast.arg):
                self.many.add(a.arg)
            elif isinstance(a, ast.Assign) and len(a.targets) == 1 and \
                    isinstance(a.targets[0], ast.Name):
                n = a.targets[0].id
                if n in self.one:
                    self.many.add(n)
                self.one[n] = a.value
            elif isinstance(a, ast.Name) and isinstance(
                    a.ctx, ast.Store):
                if a.id in self.one:
                    continue
                self.many.add(a.id)


class Subst(ast.NodeTransformer):
    def __init__(self, one):
        self.one = one
        self.depth = 0

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.one and \
           self.depth < 8:
            self.depth += 1
            import copy
            r = self.visit(copy.deepcopy(self.one[n.id]))
            self.depth -= 1
            return r
        return n


def patterns(eng):
    """[(module, function, line, pattern, flags)], [(where, reason)]"""
    out, unk = [], []
    for mod in sorted(eng.trees):
        tree = eng.trees[mod][0]
        oid = ('mod', mod)
        fns = {}

        def collect(n, name):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    nm = name + '.' + c.name if name else c.name
                    if isinstance(c, ast.FunctionDef):
                        fns[nm] = c
                    collect(c, nm)
                else:
                    collect(c, name)
        collect(tree, '')

        def value(e, name):
            if name in fns:
                lo = Locals(fns[name])
                one = dict((k, v) for k, v in lo.one.items()
                           if k not in lo.many)
                import copy
                e = Subst(one).visit(copy.deepcopy(e))
                names = set(n.id for n in ast.walk(e)
                            if isinstance(n, ast.Name))
                if names & lo.many:
                    return None
            st = eng.new_state()
            st.fr, st.stack = oid, ('<%s>' % mod,)
            try:
                res = [(s, v) for s, v in eng.ev(e, st) if not isexc(v)]
            except Exception:
                return None
            if len(res) != 1:
                return None
            return eng.nv(res[0][0], res[0][1])

        for name, call in scopes(tree):
            f = call.func
            if isinstance(f, (ast.Name, ast.Attribute)):
                leaf = f.id if isinstance(f, ast.Name) else f.attr
            else:
                continue
            v = None
            if isinstance(f, ast.Attribute) and not isinstance(
                    f.value, ast.Name):
                continue
            v = value(f, name)
            if not (isinstance(v, BI) and v.self is None and
                    str(v.name).startswith('re.') and
                    v.name[3:] in RE_FUNCS):
                continue
            where = '%s:%s' % (mod, name or '<module>')
            args = list(call.args)
            kw = dict((k.arg, k.value) for k in call.keywords)
            pe = args[0] if args else kw.get('pattern')
            if pe is None or isinstance(pe, ast.Starred):
                unk.append((where, call.lineno, 'no pattern argument'))
                continue
            p = value(pe, name)
            if isinstance(p, RX):
                continue            # compiled elsewhere, judged there
            pos = {'compile': 1, 'search': 2, 'match': 2, 'fullmatch': 2,
                   'sub': 4, 'subn': 4, 'split': 3, 'findall': 2,
                   'finditer': 2, 'template': 1}[v.name[3:]]
            fe = kw.get('flags') or (args[pos] if len(args) > pos else None)
            fl = 0
            if fe is not None:
                fv = value(fe, name)
                if not (isinstance(fv, C) and isinstance(fv.v, int)):
                    unk.append((where, call.lineno, 'flags not constant'))
                    continue
                fl = fv.v
            if isinstance(p, C) and isinstance(p.v, str):
                out.append((mod, name or '<module>', call.lineno, p.v, fl))
            elif isinstance(p, U) and all(
                    isinstance(a, C) and isinstance(a.v, str)
                    for a in p.alts):
                for a in p.alts:
                    out.append((mod, name or '<module>', call.lineno, a.v,
                                fl))
            else:
                unk.append((where, call.lineno,
                            'pattern not a constant: ' +
                            ast.unparse(pe)[:60]))
    return out, unk


def check_c10(rep, tier):
    eng = Interp().load_all()
    pats, unk = patterns(eng)
    for mod, fn, line, p, fl in pats:
        where = '%s:%s' % (mod, fn)
        try:
            r = RXM.exponential(p, fl)
        except Exception as ex:
            rep.undecided('no-exponential-repetition',
                          '%s line %d' % (where, line), repr(ex)[:100])
            continue
        what = '%s line %d: %r' % (where, line, p[:60])
        if r:
            rep.violation('no-exponential-repetition',
                          '%s:%s' % (where, p[:60]),
                          '%s line %d: %s (example character %r) in '
                          'pattern %r' % (where, line, r['loop'],
                                          r.get('char'), p[:200]))
        else:
            rep.ok('no-exponential-repetition', what)
    for w in unk:
        rep.note('pattern not resolved: %s line %d: %s' % w)
    rep.require('no-exponential-repetition', 10)
