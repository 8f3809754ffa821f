"""Source files -> functions, classes, modules."""
import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'commonmark'


class FuncInfo(object):
    def __init__(self, qual, node, mod, cls=None, parent=None):
        self.qual = qual
        self.name = getattr(node, 'name', '<lambda>')
        self.node = node
        self.mod = mod
        self.cls = cls
        self.parent = parent
        self.site = ('fn', qual)
        body = node.body if isinstance(node.body, list) else [node.body]
        self.body = body
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        self.has_nested = False
        self.is_gen = False
        self.nstmts = 0
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.locals.update(self.params, self.kwonly)
        if self.vararg:
            self.locals.add(self.vararg)
        if self.kwarg:
            self.locals.add(self.kwarg)
        for b in body:
            self._scan(b)
        self.locals -= self.globals
        self.locals -= self.nonlocals

    def _scan(self, n):
        if isinstance(n, ast.stmt):
            self.nstmts += 1
        if isinstance(n, (ast.FunctionDef, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            self.locals.add(n.name)
            self.has_nested = True
            for d in n.decorator_list:
                self._scan(d)
            return
        if isinstance(n, ast.Lambda):
            self.has_nested = True
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            # targets of comprehensions get private names at evaluation
            for c in ast.iter_child_nodes(n):
                self._scan(c)
            return
        if isinstance(n, ast.comprehension):
            self._scan(n.iter)
            for i in n.ifs:
                self._scan(i)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,
                                                          ast.Del)):
            self.locals.add(n.id)
        elif isinstance(n, ast.Global):
            self.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            self.nonlocals.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                self.locals.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        for c in ast.iter_child_nodes(n):
            self._scan(c)

    def __repr__(self):
        return 'FuncInfo(%s)' % self.qual


class ClassInfo(object):
    def __init__(self, qual, node, mod, bases, index):
        self.qual = qual
        self.name = node.name
        self.node = node
        self.mod = mod
        self.bases = bases
        self.index = index
        self.oid = ('cls', qual)

    def mro(self):
        """linearised bases (left to right depth first is enough here)"""
        out = [self]
        for b in self.bases:
            info = getattr(b, 'info', None)
            if info is not None:
                for x in info.mro():
                    if x in out:
                        out.remove(x)
                    out.append(x)
        return out

    def __repr__(self):
        return 'ClassInfo(%s)' % self.qual


def module_files(repo=None):
    """{module name: path} of the analysed package"""
    repo = repo or REPO
    out = {}
    root = os.path.join(repo, PKG)
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__'))
        for f in sorted(files):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, repo)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                out[rel] = p
    return out


def parse(path):
    with open(path, encoding='utf-8') as fh:
        src = fh.read()
    tree = ast.parse(src, path)
    tag = os.path.basename(os.path.dirname(path)) + '/' + \
        os.path.basename(path)
    for i, n in enumerate(ast.walk(tree)):
        n._uid = (tag, i)
    return tree, src


def nid(n):
    """stable identity of a syntax node"""
    return getattr(n, '_uid', None) or id(n)


def all_functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            yield n
