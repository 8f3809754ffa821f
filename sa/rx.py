"""Regular-expression toolkit: Python patterns -> extended regexes with
derivatives (exact language questions) and position automata (ambiguity)."""
import re
import sys
try:
    import re._parser as sre_parse
    import re._constants as sre_c
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre_c
from .charset import CharSet, ALL, EMPTY, category, casefold_close

NL = CharSet.of('\n')


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- terms
_tab = {}


class Rx(object):
    __slots__ = ('k', 'a', 'null', 'id', '_cls')

    def __repr__(self):
        return show(self)


def _mk(k, a, null):
    key = (k, a)
    r = _tab.get(key)
    if r is None:
        r = Rx()
        r.k = k
        r.a = a
        r.null = null
        r.id = len(_tab)
        r._cls = None
        _tab[key] = r
    return r


NONE = _mk('none', (), False)
EPS = _mk('eps', (), True)


def chrs(cs):
    if not cs:
        return NONE
    return _mk('chr', cs, False)


ANYC = chrs(ALL)


def lit(s):
    r = EPS
    for c in reversed(s):
        r = cat(chrs(CharSet.of(c)), r)
    return r


def cat(a, b):
    if a is NONE or b is NONE:
        return NONE
    if a is EPS:
        return b
    if b is EPS:
        return a
    if a.k == 'cat':
        return cat(a.a[0], cat(a.a[1], b))
    return _mk('cat', (a, b), a.null and b.null)


def alt(*rs):
    out = set()
    for r in rs:
        if r.k == 'alt':
            out |= r.a
        elif r is not NONE:
            out.add(r)
    if SIGMA in out:
        return SIGMA
    cs = None
    for r in list(out):
        if r.k == 'chr':
            cs = r.a if cs is None else cs | r.a
            out.discard(r)
    if cs is not None:
        out.add(chrs(cs))
    if not out:
        return NONE
    if len(out) == 1:
        return next(iter(out))
    return _mk('alt', frozenset(out), any(r.null for r in out))


def conj(*rs):
    out = set()
    for r in rs:
        if r.k == 'and':
            out |= r.a
        else:
            out.add(r)
    if NONE in out:
        return NONE
    out.discard(SIGMA)
    if not out:
        return SIGMA
    if len(out) == 1:
        return next(iter(out))
    for r in out:
        if neg(r) in out:
            return NONE
    return _mk('and', frozenset(out), all(r.null for r in out))


def neg(r):
    if r.k == 'not':
        return r.a
    if r is NONE:
        return SIGMA
    return _mk('not', r, not r.null)


def star(r):
    if r is NONE or r is EPS:
        return EPS
    if r.k == 'star':
        return r
    return _mk('star', r, True)


def rep(r, m, n):
    """n None = unbounded"""
    if n is None:
        out = star(r)
        for _ in range(m):
            out = cat(r, out)
        return out
    if n == 0:
        return EPS
    if r is EPS or r is NONE:
        return EPS if (m == 0 or r is EPS) else NONE
    if m == 1 and n == 1:
        return r
    if n <= 4:
        out = EPS
        for i in range(n):
            out = cat(r, out)
            if n - i - 1 < n - m or i < n - m:
                out = alt(EPS, out)
        return out if m == 0 else _exact(r, m, n)
    return _mk('rep', (r, m, n), m == 0 or r.null)


def _exact(r, m, n):
    out = EPS
    for i in range(n - m):
        out = alt(EPS, cat(r, out))
    for i in range(m):
        out = cat(r, out)
    return out


SIGMA = _mk('star', chrs(ALL), True)

_dcache = {}


def deriv(r, c):
    """derivative by code point c"""
    key = (r.id, c)
    d = _dcache.get(key)
    if d is not None:
        return d
    k = r.k
    if k in ('none', 'eps'):
        d = NONE
    elif k == 'chr':
        d = EPS if c in r.a else NONE
    elif k == 'cat':
        a, b = r.a
        d = cat(deriv(a, c), b)
        if a.null:
            d = alt(d, deriv(b, c))
    elif k == 'alt':
        d = alt(*[deriv(x, c) for x in r.a])
    elif k == 'and':
        d = conj(*[deriv(x, c) for x in r.a])
    elif k == 'not':
        d = neg(deriv(r.a, c))
    elif k == 'star':
        d = cat(deriv(r.a, c), r)
    elif k == 'rep':
        x, m, n = r.a
        d = cat(deriv(x, c), rep(x, max(0, m - 1), n - 1))
    else:
        raise AssertionError(k)
    _dcache[key] = d
    return d


def classes(r):
    """partition of the alphabet on which derivatives of r agree"""
    if r._cls is None:
        sets = set()
        _collect(r, sets, set())
        parts = [ALL]
        for s in sets:
            new = []
            for p in parts:
                a = p & s
                if a:
                    new.append(a)
                    b = p - s
                    if b:
                        new.append(b)
                else:
                    new.append(p)
            parts = new
        r._cls = parts
    return r._cls


def _collect(r, out, seen):
    if r.id in seen:
        return
    seen.add(r.id)
    k = r.k
    if k == 'chr':
        out.add(r.a)
    elif k == 'cat':
        _collect(r.a[0], out, seen)
        if r.a[0].null:
            _collect(r.a[1], out, seen)
    elif k in ('alt', 'and'):
        for x in r.a:
            _collect(x, out, seen)
    elif k in ('not', 'star'):
        _collect(r.a, out, seen)
    elif k == 'rep':
        _collect(r.a[0], out, seen)


def witness(r, limit=20000):
    """a shortest-ish member of L(r) or None when empty"""
    if r.null:
        return ''
    seen = {r.id: ''}
    todo = [(r, '')]
    n = 0
    while todo:
        nxt = []
        for x, w in todo:
            for cs in classes(x):
                c = cs.sample()
                d = deriv(x, ord(c))
                if d is NONE or d.id in seen:
                    continue
                seen[d.id] = 1
                n += 1
                if n > limit:
                    raise Unsupported('language too large')
                if d.null:
                    return w + c
                nxt.append((d, w + c))
        todo = nxt
    return None


def empty(r):
    return witness(r) is None


def subset(a, b):
    return empty(conj(a, neg(b)))


def equal(a, b):
    return subset(a, b) and subset(b, a)


def counterexample(a, b):
    """a member of L(a) that is not in L(b), or None"""
    return witness(conj(a, neg(b)))


def first(r):
    """set of first characters of members of L(r)"""
    out = EMPTY
    for cs in classes(r):
        d = deriv(r, ord(cs.sample()))
        if d is not NONE and not empty(d):
            out = out | cs
    return out


def accepts(r, s):
    for c in s:
        r = deriv(r, ord(c))
    return r.null


def alphabet(r, _seen=None):
    """over-approximation of the characters occurring in members of L(r)"""
    seen = {r.id}
    todo = [r]
    out = EMPTY
    while todo:
        x = todo.pop()
        for cs in classes(x):
            d = deriv(x, ord(cs.sample()))
            if d is NONE:
                continue
            if d.id not in seen:
                seen.add(d.id)
                todo.append(d)
            out = out | cs
    return out


def show(r):
    k = r.k
    if k == 'none':
        return '{}'
    if k == 'eps':
        return '()'
    if k == 'chr':
        return repr(r.a)
    if k == 'cat':
        return show(r.a[0]) + show(r.a[1])
    if k == 'alt':
        return '(' + '|'.join(sorted(show(x) for x in r.a)) + ')'
    if k == 'and':
        return '(' + '&'.join(sorted(show(x) for x in r.a)) + ')'
    if k == 'not':
        return '~(' + show(r.a) + ')'
    if k == 'star':
        return '.*' if r is SIGMA else '(' + show(r.a) + ')*'
    return '(%s){%s,%s}' % (show(r.a[0]), r.a[1], r.a[2])


# ---------------------------------------------------- Python patterns
class Pattern(object):
    """a parsed Python pattern"""
    cache = {}

    def __new__(cls, pattern, flags=0):
        key = (pattern, int(flags))
        p = cls.cache.get(key)
        if p is None:
            p = object.__new__(cls)
            p.pattern = pattern
            p.tree = sre_parse.parse(pattern, int(flags))
            p.flags = p.tree.state.flags
            p._memo = {}
            cls.cache[key] = p
        return p

    # -- languages ------------------------------------------------------
    def lang_match(self):
        """strings on which re.match succeeds"""
        if 'match' not in self._memo:
            self._memo['match'] = self._conv(True, SIGMA)
        return self._memo['match']

    def lang_search(self):
        if 'search' not in self._memo:
            r = self._conv(True, SIGMA)
            r2 = self._conv(False, SIGMA)
            if self.flags & re.MULTILINE:
                r3 = self._conv('ml', SIGMA)
                r = alt(r, cat(SIGMA, cat(chrs(NL), r3)))
            self._memo['search'] = alt(r, cat(chrs(ALL), cat(SIGMA, r2)))
        return self._memo['search']

    def lang_full(self):
        if 'full' not in self._memo:
            self._memo['full'] = self._conv(True, EPS)
        return self._memo['full']

    def lang_span(self):
        """over-approximation of the strings group(0) can be"""
        if 'span' not in self._memo:
            self._memo['span'] = Conv(self.flags, relax=True).seq(
                list(self.tree), EPS, True)
        return self._memo['span']

    def lang(self, mode):
        return {'match': self.lang_match, 'search': self.lang_search,
                'fullmatch': self.lang_full}[mode]()

    def _conv(self, start, k):
        return Conv(self.flags).seq(list(self.tree), k, start)

    # -- facts -----------------------------------------------------------
    def min_width(self):
        return self.tree.getwidth()[0]

    def max_width(self):
        w = self.tree.getwidth()[1]
        return None if w >= 4294967295 else int(w)

    def anchored(self):
        """every match begins at the start of the subject"""
        if 'anch' not in self._memo:
            self._memo['anch'] = self._conv(False, SIGMA) is NONE and not (
                self.flags & re.MULTILINE)
        return self._memo['anch']

    def anchored_any(self):
        """as anchored(), also for MULTILINE patterns"""
        return self._conv(False, SIGMA) is NONE

    def charset(self):
        """characters that can occur in group(0)"""
        if 'cs' not in self._memo:
            self._memo['cs'] = tree_charset(self.tree, self.flags)
        return self._memo['cs']

    def single_class(self):
        """if the pattern matches exactly the one-character strings over a
        class K and nothing else, wherever they occur: K; also K+ ; else
        None.  Second item: True when runs are matched at once."""
        t = list(self.tree)
        return _single(t, self.flags)

    def group_tree(self, n):
        return _find_group(self.tree, n)

    def ngroups(self):
        return self.tree.state.groups - 1


def _single(t, flags):
    if len(t) != 1:
        return None
    op, av = t[0]
    op = str(op)
    if op in ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY'):
        return (item_charset(op, av, flags), False)
    if op == 'SUBPATTERN':
        return _single(list(av[-1]), flags)
    if op == 'BRANCH':
        cs = EMPTY
        for b in av[1]:
            s = _single(list(b), flags)
            if s is None or s[1]:
                return None
            cs = cs | s[0]
        return (cs, False)
    if op in ('MAX_REPEAT', 'POSSESSIVE_REPEAT'):
        lo, hi, sub = av
        if lo == 1 and int(hi) >= 4294967295:
            s = _single(list(sub), flags)
            if s:
                return (s[0], True)
    return None


def _find_group(tree, n):
    for op, av in tree:
        name = str(op)
        if name == 'SUBPATTERN':
            if av[0] == n:
                return av[-1]
            r = _find_group(av[-1], n)
            if r is not None:
                return r
        elif name == 'BRANCH':
            for b in av[1]:
                r = _find_group(b, n)
                if r is not None:
                    return r
        elif name in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            r = _find_group(av[2], n)
            if r is not None:
                return r
        elif name in ('ASSERT', 'ASSERT_NOT'):
            r = _find_group(av[1], n)
            if r is not None:
                return r
        elif name == 'ATOMIC_GROUP':
            r = _find_group(av, n)
            if r is not None:
                return r
    return None


def tree_charset(tree, flags):
    cs = EMPTY
    for op, av in tree:
        name = str(op)
        if name in ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY'):
            cs = cs | item_charset(name, av, flags)
        elif name == 'SUBPATTERN':
            cs = cs | tree_charset(av[-1], _subflags(flags, av))
        elif name == 'BRANCH':
            for b in av[1]:
                cs = cs | tree_charset(b, flags)
        elif name in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            if int(av[1]) > 0:
                cs = cs | tree_charset(av[2], flags)
        elif name == 'ATOMIC_GROUP':
            cs = cs | tree_charset(av, flags)
        elif name in ('ASSERT', 'ASSERT_NOT', 'AT'):
            pass
        else:
            return ALL
    return cs


def _subflags(flags, av):
    if len(av) == 4:
        return (flags | av[1]) & ~av[2]
    return flags


def item_charset(op, av, flags):
    ic = bool(flags & re.IGNORECASE)
    asc = bool(flags & re.ASCII)
    if op == 'ANY':
        return ALL if flags & re.DOTALL else ~NL
    if op == 'LITERAL':
        cs = CharSet([(av, av)])
        return casefold_close(cs, asc) if ic else cs
    if op == 'NOT_LITERAL':
        cs = CharSet([(av, av)])
        return ~(casefold_close(cs, asc) if ic else cs)
    if op == 'IN':
        cs = EMPTY
        negate = False
        rng = []
        for o, a in av:
            o = str(o)
            if o == 'NEGATE':
                negate = True
            elif o == 'LITERAL':
                rng.append((a, a))
            elif o == 'RANGE':
                rng.append(a)
            elif o == 'CATEGORY':
                cs = cs | _category(str(a), asc)
            else:
                raise Unsupported(o)
        cs = cs | CharSet.ranges(rng)
        if ic:
            cs = casefold_close(cs, asc)
        return ~cs if negate else cs
    raise Unsupported(op)


def _category(name, asc):
    from .charset import ASCII
    base = {'SPACE': 'space', 'DIGIT': 'digit', 'WORD': 'word'}
    neg_ = '_NOT_' in name
    kind = name.split('_')[-1]
    cs = category(base[kind])
    if asc:
        cs = cs & ASCII
        if kind == 'SPACE':
            cs = CharSet.of(' \t\n\r\f\v')
    return ~cs if neg_ else cs


class Conv(object):
    """pattern tree + continuation -> extended regex.

    start: True (position 0), 'ml' (just after a newline), False."""

    def __init__(self, flags, relax=False):
        self.flags = flags
        self.relax = relax

    def seq(self, items, k, start):
        if not items:
            return k
        op, av = items[0]
        name = str(op)
        rest = items[1:]
        if name in ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY'):
            cs = item_charset(name, av, self.flags)
            ml = False
            if self.flags & re.MULTILINE and '\n' in cs:
                ml = 'ml'
                r = cat(chrs(cs - NL), self.seq(rest, k, False))
                return alt(r, cat(chrs(NL), self.seq(rest, k, ml)))
            return cat(chrs(cs), self.seq(rest, k, False))
        if name == 'SUBPATTERN':
            old = self.flags
            self.flags = _subflags(self.flags, av)
            try:
                if self.flags == old:
                    return self.seq(list(av[-1]) + rest, k, start)
                kk = Conv(old, self.relax).seq(rest, k, False)
                return self.seq(list(av[-1]), kk, start)
            finally:
                self.flags = old
        if name == 'BRANCH':
            return alt(*[self.seq(list(b) + rest, k, start) for b in av[1]])
        if name in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            lo, hi, sub = av
            lo = int(lo)
            hi = None if int(hi) >= 4294967295 else int(hi)
            pure = self.pure(list(sub))
            if pure is not None:
                # zero repetitions keep `start`
                body = rep(pure, lo, hi)
                tail = self.seq(rest, k, False)
                out = cat(body, tail)
                if lo == 0 and start and self.has_start(rest):
                    out = alt(out, self.seq(rest, k, start))
                return out
            if hi is not None and hi <= 8:
                out = self.seq(rest, k, False)
                base = out
                for _ in range(hi - lo):
                    out = alt(base, self.seq(list(sub), out, False))
                for _ in range(lo):
                    out = self.seq(list(sub), out, start)
                return out
            raise Unsupported('assertion inside a repeat')
        if name == 'ATOMIC_GROUP':
            return self.seq(list(av) + rest, k, start)
        if name == 'AT':
            at = str(av)
            if at == 'AT_BEGINNING':
                ok = start is True or (start == 'ml' and
                                       self.flags & re.MULTILINE)
                return self.seq(rest, k, start) if ok else NONE
            if at == 'AT_BEGINNING_STRING':
                return self.seq(rest, k, start) if start is True else NONE
            tail = self.seq(rest, k, start)
            if self.relax:
                return tail
            if at == 'AT_END':
                if self.flags & re.MULTILINE:
                    return conj(tail, alt(EPS, cat(chrs(NL), SIGMA)))
                return conj(tail, alt(EPS, chrs(NL)))
            if at == 'AT_END_STRING':
                return conj(tail, EPS)
            raise Unsupported(at)
        if name in ('ASSERT', 'ASSERT_NOT'):
            d, sub = av
            tail = self.seq(rest, k, start)
            if self.relax:
                return tail
            if d < 0:
                raise Unsupported('lookbehind')
            la = self.seq(list(sub), SIGMA, start)
            return conj(tail, la if name == 'ASSERT' else neg(la))
        raise Unsupported(name)

    def has_start(self, items):
        for op, av in items:
            name = str(op)
            if name == 'AT' and 'BEGINNING' in str(av):
                return True
            if name == 'SUBPATTERN' and self.has_start(list(av[-1])):
                return True
            if name == 'BRANCH' and any(
                    self.has_start(list(b)) for b in av[1]):
                return True
        return False

    def pure(self, items):
        """regex of items alone if they contain no assertions"""
        out = EPS
        for op, av in items:
            name = str(op)
            if name in ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY'):
                x = chrs(item_charset(name, av, self.flags))
            elif name == 'SUBPATTERN':
                old = self.flags
                self.flags = _subflags(self.flags, av)
                x = self.pure(list(av[-1]))
                self.flags = old
            elif name == 'BRANCH':
                xs = [self.pure(list(b)) for b in av[1]]
                x = None if any(y is None for y in xs) else alt(*xs)
            elif name in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                lo, hi, sub = av
                x = self.pure(list(sub))
                if x is not None:
                    x = rep(x, int(lo), None if int(hi) >= 4294967295
                            else int(hi))
            elif name == 'ATOMIC_GROUP':
                x = self.pure(list(av))
            else:
                return None
            if x is None:
                return None
            out = cat(out, x)
        return out


# --------------------------------------------- exponential ambiguity
class Glushkov(object):
    """position automaton with edge multiplicities"""
    BIG = 8

    def __init__(self, tree, flags):
        self.cs = []            # charset per position; None = assertion
        self.follow = {}        # (p, q) -> multiplicity
        self.flags = flags
        n, f, l = self.seq(list(tree))
        self.first, self.last, self.nullable = f, l, n

    def pos(self, cs):
        self.cs.append(cs)
        return len(self.cs) - 1

    def link(self, ls, fs):
        for p, a in ls.items():
            for q, b in fs.items():
                self.follow[(p, q)] = min(
                    4, self.follow.get((p, q), 0) + a * b)

    # returns nullable-count, first {pos: mult}, last {pos: mult}
    def seq(self, items):
        n, f, l = 1, {}, {}
        for it in items:
            n2, f2, l2 = self.item(it)
            self.link(l, f2)
            nf = dict(f)
            if n:
                for q, b in f2.items():
                    nf[q] = min(4, nf.get(q, 0) + n * b)
            nl = dict(l2)
            if n2:
                for p, a in l.items():
                    nl[p] = min(4, nl.get(p, 0) + n2 * a)
            f, l, n = nf, nl, min(4, n * n2)
        return n, f, l

    def alts(self, parts):
        n, f, l = 0, {}, {}
        for n2, f2, l2 in parts:
            n = min(4, n + n2)
            for q, b in f2.items():
                f[q] = min(4, f.get(q, 0) + b)
            for p, a in l2.items():
                l[p] = min(4, l.get(p, 0) + a)
        return n, f, l

    def item(self, it):
        op, av = it
        name = str(op)
        if name in ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY'):
            p = self.pos(item_charset(name, av, self.flags))
            return 0, {p: 1}, {p: 1}
        if name == 'SUBPATTERN':
            old = self.flags
            self.flags = _subflags(old, av)
            r = self.seq(list(av[-1]))
            self.flags = old
            return r
        if name == 'BRANCH':
            return self.alts([self.seq(list(b)) for b in av[1]])
        if name in ('AT', 'ASSERT', 'ASSERT_NOT', 'GROUPREF'):
            if name == 'AT' and 'BEGINNING' in str(av):
                return 1, {}, {}
            p = self.pos(None)
            return 0, {p: 1}, {p: 1}
        if name == 'ATOMIC_GROUP':
            return self.seq(list(av))
        if name in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            lo, hi, sub = av
            lo, hi = int(lo), int(hi)
            if hi == 0:
                return 1, {}, {}
            if hi >= self.BIG:
                reps = min(lo, 3)
                parts = [lambda: self.seq(list(sub)) for _ in range(reps)]
                out = (1, {}, {})
                for fn in parts:
                    out = self.join(out, fn())
                out = self.join(out, self.star(self.seq(list(sub))))
                return out
            out = (1, {}, {})
            for _ in range(lo):
                out = self.join(out, self.seq(list(sub)))
            for _ in range(hi - lo):
                n2, f2, l2 = self.seq(list(sub))
                out = self.join(out, (1, f2, l2))
            return out
        raise Unsupported(name)

    def join(self, x, y):
        n, f, l = x
        n2, f2, l2 = y
        self.link(l, f2)
        nf = dict(f)
        if n:
            for q, b in f2.items():
                nf[q] = min(4, nf.get(q, 0) + n * b)
        nl = dict(l2)
        if n2:
            for p, a in l.items():
                nl[p] = min(4, nl.get(p, 0) + n2 * a)
        return min(4, n * n2), nf, nl

    def star(self, x):
        n, f, l = x
        self.link(l, f)
        return 1, f, l


def _subtrees(tree):
    """the pattern itself and bodies analysed on their own (lookaround)"""
    yield tree
    stack = [tree]
    while stack:
        t = stack.pop()
        for op, av in t:
            name = str(op)
            if name == 'SUBPATTERN':
                stack.append(av[-1])
            elif name == 'BRANCH':
                stack.extend(av[1])
            elif name in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                stack.append(av[2])
            elif name == 'ATOMIC_GROUP':
                stack.append(av)
            elif name in ('ASSERT', 'ASSERT_NOT'):
                stack.append(av[1])
                yield av[1]


def _contains(tree, names):
    for op, av in tree:
        name = str(op)
        if name in names:
            return True
        subs = []
        if name == 'SUBPATTERN':
            subs = [av[-1]]
        elif name == 'BRANCH':
            subs = av[1]
        elif name in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            subs = [av[2]]
        elif name == 'ATOMIC_GROUP':
            subs = [av]
        elif name in ('ASSERT', 'ASSERT_NOT'):
            subs = [av[1]]
        for s in subs:
            if _contains(s, names):
                return True
    return False


def exponential(pattern, flags=0):
    """None, or a dict describing an exponentially ambiguous loop"""
    p = Pattern(pattern, flags)
    for tree in _subtrees(p.tree):
        r = _exp_tree(tree, p.flags)
        if r:
            return r
    return None


def _exp_tree(tree, flags):
    g = Glushkov(tree, flags)
    n = len(g.cs)
    succ = {}
    for (a, b), m in g.follow.items():
        succ.setdefault(a, []).append((b, m))
    reach = set(g.first)
    todo = list(reach)
    while todo:
        a = todo.pop()
        for b, _ in succ.get(a, ()):
            if b not in reach:
                reach.add(b)
                todo.append(b)
    scc = _sccs(range(n), lambda a: [b for b, _ in succ.get(a, ())])
    comp = {}
    for i, c in enumerate(scc):
        for a in c:
            comp[a] = i

    def cyclic(a):
        c = scc[comp[a]]
        return len(c) > 1 or any(b == a for b, _ in succ.get(a, ()))

    def overlap(a, b):
        if g.cs[a] is None or g.cs[b] is None:
            return EMPTY if a != b else ALL
        return g.cs[a] & g.cs[b]

    # 1. a doubled edge inside a cycle
    for (a, b), m in sorted(g.follow.items()):
        if m >= 2 and comp[a] == comp[b] and cyclic(a) and a in reach:
            if g.cs[b] is None:
                continue
            if all(x in g.last for x in scc[comp[a]]):
                continue
            return {'loop': 'the same repetition can be entered two ways',
                    'char': (g.cs[b].sample() or '')}
    # 2. two different paths q -w-> q : product automaton
    for comp_id, c in enumerate(scc):
        if len(c) < 2:
            continue
        cset = set(c)
        if not (cset & reach):
            continue
        psucc = {}
        for a in c:
            for b in c:
                outs = []
                for x, _ in succ.get(a, ()):
                    if x not in cset:
                        continue
                    for y, _ in succ.get(b, ()):
                        if y in cset and overlap(x, y):
                            outs.append((x, y))
                psucc[(a, b)] = outs
        pscc = _sccs(list(psucc), lambda s: psucc[s])
        for pc in pscc:
            if len(pc) < 2:
                continue
            diag = [s for s in pc if s[0] == s[1]]
            off = [s for s in pc if s[0] != s[1]]
            if diag and off:
                q = diag[0][0]
                if all(x in g.last for x in c):
                    continue
                w = off[0]
                return {'loop': 'a repetition matches one text in two ways',
                        'char': overlap(*w).sample() or '',
                        'paths': len(pc)}
    return None


def _sccs(nodes, succ):
    index = {}
    low = {}
    onst = set()
    st = []
    out = []
    cnt = [0]
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(succ(root)))]
        index[root] = low[root] = cnt[0]
        cnt[0] += 1
        st.append(root)
        onst.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    st.append(w)
                    onst.add(w)
                    work.append((w, iter(succ(w))))
                    adv = True
                    break
                elif w in onst:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == index[v]:
                comp = []
                while True:
                    w = st.pop()
                    onst.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                out.append(comp)
    return out


sys.setrecursionlimit(20000)
