"""Line endings: which texts end a line, how the last one counts, and what
of them reaches the tree.

The parse entry is interpreted on an arbitrary input (and on an arbitrary
text followed by each line ending). The operation that cuts the input into
lines is found by the origin of its subject; the language of what it cuts at
must be exactly the three line endings.
"""
import re

from ..values import *
from ..charset import CharSet, ALL, EMPTY
from ..interp import AnalysisError, Budget
from ..models import strconst, isstr
from .. import rx as RXM
from . import parser as PA
from .text import Observed, char_of
from .smart import ops_of, language

ENDINGS = ['\n', '\r\n', '\r']
SHOW = {'\n': 'LF', '\r\n': 'CRLF', '\r': 'CR'}
EOL = CharSet.of('\r\n')
INIT = ('init',)
ANYEND = RXM.alt(*[RXM.lit(x) for x in ENDINGS])
ANYCR = RXM.alt(RXM.lit('\r'), RXM.lit('\r\n'))
HASEND = RXM.cat(RXM.SIGMA, RXM.cat(RXM.chrs(EOL), RXM.SIGMA))


class Unknown(Exception):
    pass


def from_input(v):
    """does the text come from the input?"""
    ps = parts(v)
    return ps is not None and any(
        isinstance(x, P) and mentions(x.uid) for x in ps)


def mentions(u, depth=0):
    if u == INIT:
        return True
    if depth > 30:
        return False
    if isinstance(u, (S, U)):
        ps = parts(u)
        return ps is not None and any(
            isinstance(x, P) and mentions(x.uid, depth + 1) for x in ps)
    if isinstance(u, tuple):
        return any(mentions(x, depth + 1) for x in u)
    return False


def run_entry(d, shape, hooks, extra=None):
    """interpret the parse entry; functions that are given the whole input
    are followed"""
    e = d.eng
    f = d.entry()
    q = f.info.qual
    follow = set()
    cut = e.cut
    for _ in range(4):
        more = set()

        def onsum(st, fn, args, bound, node):
            # does something else than store the text?
            for a in args:
                if isinstance(a, S) and len(a.p) == len(shape.p) and any(
                        isinstance(x, P) and x.uid == INIT for x in a.p):
                    more.add(fn.info.qual)
        hk = {k: list(v) for k, v in hooks.items()}
        hk.setdefault('summary', []).append(onsum)

        def prep(st, args):
            args[1] = shape
            if extra is not None:
                extra(st, args)
        for k in hooks:
            del hooks[k][0].seen[:]
        with Observed(e, hk, lambda info: cut(info) and
                      info.qual not in follow):
            args, res = d.run(q, prep)
        if not more - follow:
            break
        follow |= more
    return q, args, res


def watch(names):
    out = {}

    def mk(n):
        seen = []

        def h(st, **kw):
            seen.append((n, st.copy(), kw))
        h.seen = seen
        return h
    for n in names:
        out[n] = [mk(n)]
    return out


def apply(text, op):
    """what an operation of the input makes of one line ending"""
    name = op[0]
    if name == 'image':
        return text.replace(op[1], op[2])
    if name == 'replace' and len(op) == 3:
        a, b = op[1], op[2]
        if isinstance(a, C):
            a, b = a.v, b.v
        if isinstance(a, str) and isinstance(b, str):
            return text.replace(a, b)
    if name == 'resub' and len(op) == 3 and strconst(op[2]) and \
       '\\' not in op[2].v:
        lang = language(op[1])
        if lang is not None:
            if RXM.subset(lang, ANYEND):
                return re.compile(op[1].pattern, op[1].flags).sub(
                    op[2].v, text)
            if RXM.empty(RXM.conj(lang, HASEND)) and not any(
                    c in op[2].v for c in '\r\n'):
                return text
    raise Unknown(repr(op)[:60])


def forms(ops, allowed):
    """(line ending, what the operations before the cut make of it)"""
    out = []
    for t in ENDINGS:
        if not all(c in allowed for c in t):
            continue
        x = t
        for op in reversed(ops):
            x = apply(x, op)
        out.append((t, x))
    return out


def check_c24(rep, tier):
    d = PA.solved(rep)
    ok = split(rep, d)
    final(rep, d)
    tree(rep, d, ok)
    rep.require('split', 0)


def has(allowed, c):
    return bool(allowed & CharSet.of(c))


def split(rep, d):
    hk = watch(['resplit', 'strsplit', 'splitlines'])
    try:
        q, args, res = run_entry(d, S([P(INIT)]), hk)
    except Budget:
        rep.undecided('split', 'parse', 'budget')
        return False
    seen = [x for k in hk for x in hk[k][0].seen]
    n, good = 0, True
    done = set()
    for kind, st, kw in seen:
        v = kw['subject'] if kind == 'resplit' else kw['value']
        if not from_input(v):
            continue
        ops, src = ops_of(v)
        if any(isinstance(o, tuple) and o and o[0] == 'split' for o in ops):
            continue
        allowed = char_of(st, INIT)
        line = getattr(kw['node'], 'lineno', 0)
        if kind == 'resplit':
            sep = (kw['rx'].pattern, kw['rx'].flags)
        elif kind == 'strsplit':
            sep = kw['sep'].v if strconst(kw['sep']) else repr(kw['sep'])
        else:
            sep = 'splitlines'
        key = (line, kind, sep, tuple(ops), allowed)
        if key in done:
            continue
        done.add(key)
        n += 1
        where = st.stack[-1] if st.stack else q
        what = '%s line %d' % (where, line)
        if not (isinstance(src, S) and len(src.p) == 1 and
                isinstance(src.p[0], P) and src.p[0].uid == INIT):
            rep.undecided('split', what, 'of %r' % (v,))
            good = False
            continue
        bad = judge_split(kind, kw, ops, allowed)
        if bad is None:
            rep.ok('split', what)
        elif bad[0] == '?':
            rep.undecided('split', what, bad[1])
            good = False
        else:
            rep.violation('split', where, 'line %d: %s' % (line, bad[1]))
            good = False
    if not n:
        rep.undecided('split', q, 'how the input is cut into lines is not '
                      'recognised')
        good = False
    return good


def judge_split(kind, kw, ops, allowed):
    try:
        fs = forms(ops, allowed)
    except Unknown as ex:
        return '?', 'operation %s before the cut' % ex
    if kind == 'resplit':
        rx = kw['rx']
        cr = re.compile(rx.pattern, rx.flags)

        def cutat(t):
            return cr.split(t)
        lang = language(rx)
    elif kind == 'strsplit':
        if not strconst(kw['sep']) or not kw['sep'].v:
            return '!', 'lines are cut at %r' % (kw['sep'],)
        s = kw['sep'].v

        def cutat(t):
            return t.split(s)
        lang = RXM.lit(s)
    else:
        extra = (CharSet.of('\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029') &
                 allowed)
        for op in ops:
            if op[0] == 'image':
                extra = extra - CharSet.of(op[1])
        if extra:
            return '!', 'lines are cut by splitlines, which also cuts at ' \
                '%r' % extra
        return None
    # every ending is one cut and nothing of it remains
    for t, x in fs:
        got = cutat(x)
        if any(isinstance(g, str) and g for g in got):
            return '!', '%s is not cut off completely: %r remains' % (
                SHOW[t], [g for g in got if g])
        if len(got) != 2:
            return '!', '%s counts as %d line endings' % (
                SHOW[t], len(got) - 1)
    if lang is None:
        return '?', 'pattern %r' % kw['rx'].pattern
    # and nothing else is cut at
    want = RXM.alt(*[RXM.lit(x) for t, x in fs]) if fs else RXM.NONE
    removed = EMPTY
    for op in ops:
        if op[0] == 'image' and not has(CharSet.of(op[2] or 'x'), op[1]):
            removed = removed | CharSet.of(op[1])
        if op[0] == 'resub' and language(op[1]) is not None and '\r' not in \
           op[2].v and RXM.subset(ANYCR, language(op[1])):
            removed = removed | CharSet.of('\r')
    alpha = RXM.star(RXM.chrs(allowed - removed))
    # a '\r' before '\n' always belongs to it
    w = RXM.counterexample(RXM.conj(lang, alpha), want)
    if w is not None:
        # the ending may stand in a text in which it cannot occur
        gone = [op[1] if isinstance(op[1], str) else getattr(
            op[1], 'v', None) for op in ops if op[0] == 'replace']
        if any(g and g in w for g in gone):
            return '?', 'cut at %r after replacement' % w
        return '!', '%r counts as one line ending' % w
    return None


# -------------------------------------------------------------------- final
def final(rep, d):
    """the empty piece after a final line ending is dropped alike"""
    q = d.entry().info.qual
    for pre, what in (([], 'any text'), (['x'], 'a line'),
                      (['x\n'], 'a line and LF')):
        seen = {}
        for E in ENDINGS:
            hk = watch(['summary'])
            try:
                run_entry(d, S([P(INIT)] + pre + [E]), hk)
            except Budget:
                rep.undecided('final', SHOW[E], 'budget')
                return
            got = set()
            for _, st, kw in hk['summary'][0].seen:
                fn = kw['fn']
                if fn.info.name == 'finalize' and fn.info.cls is d.k.info:
                    got.add(offset(kw['args'][-1]))
            seen[E] = got
        if any(not g or None in g for g in seen.values()):
            rep.undecided('final', q, 'number of lines %r' % seen)
            continue
        ref = seen['\n']
        bad = False
        for E in ENDINGS:
            if not seen[E] & ref:
                bad = True
                rep.violation('final', q, 'after %s and a final %s %r lines '
                              'are parsed relative to the pieces, after a '
                              'final LF %r' % (what, SHOW[E], sorted(
                                  seen[E]), sorted(ref)))
        if not bad and all(x == ref for x in seen.values()) and \
           len(ref) == 1:
            rep.ok('final', '%s: number of lines relative to the pieces: %s'
                   % (what, sorted(ref)), 3)
        elif not bad:
            rep.undecided('final', q, 'number of lines %r' % seen)


def offset(v):
    """the number as an offset from the length of a list"""
    if isinstance(v, I):
        terms = [t for t in v.lin] if hasattr(v, 'lin') else None
        if terms is not None and len(terms) == 1:
            return v.k
    return None


# --------------------------------------------------------------------- tree
def tree(rep, d, ok):
    e = d.eng
    CR = CharSet.of('\r')
    for cls, attr in (('Parser', 'current_line'), ('Node', 'string_content')):
        for t in sorted(x for x in e.types if isinstance(x, str) and
                        x.endswith('.' + cls)):
            td = e.types[t].get(attr)
            if td is None or td.str is None:
                continue
            what = '%s.%s' % (t, attr)
            bad = td.str[0] & (CR if cls == 'Node' else EOL)
            if not bad:
                rep.ok('tree', what)
            else:
                rep.undecided('tree', what, 'may contain %r' % bad)
    put = []

    def onset(st, obj, attr, value, node, o):
        ps = parts(value)
        if ps is None:
            return
        for x in ps:
            if isinstance(x, str) and '\r' in x:
                put.append((st.stack[-1] if st.stack else '?', attr,
                            getattr(node, 'lineno', 0)))
            elif isinstance(x, P):
                for i in x.imgs:
                    if '\r' in i[1]:
                        put.append((st.stack[-1] if st.stack else '?', attr,
                                    getattr(node, 'lineno', 0)))
    for q in d.touched.roots(('setattr', 'string_content'),
                             ('setattr', 'literal')):
        with Observed(e, {'setattr': [onset]}):
            try:
                d.run(q)
            except Budget:
                rep.undecided('tree', q, 'budget')
    for q, attr, line in sorted(set(put)):
        rep.violation('tree', q, 'line %d: a text with CR is stored as %s' % (
            line, attr))
    if not put:
        rep.ok('tree', 'no constant with CR')
