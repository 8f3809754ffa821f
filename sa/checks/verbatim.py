"""Contents of code and raw HTML are taken from the input unchanged.

Every store of a literal into a code, code block, HTML block or inline HTML
node is judged by how the value derives from the subject (or from the block's
collected lines): a contiguous part of it, and only the allowed operations on
the way. The collection of lines is judged in the same manner.
"""
import ast

from ..values import *
from ..charset import CharSet, ALL, EMPTY
from ..interp import AnalysisError, Budget
from ..models import strconst, isstr, isintv
from .. import rx as RXM
from . import parser as PA
from .text import Observed, run_on, inline_class
from .smart import ops_of, language
from .text import pattern_tree

SUBJ = ('subj',)
THELINE = ('theline',)
VERBATIM = ('code', 'code_block', 'html_block', 'html_inline')
BLANKLINES = RXM.star(RXM.cat(RXM.lit('\n'), RXM.star(RXM.chrs(
    CharSet.of(' \t')))))
TICK = CharSet.of('`')
SPACE = CharSet.of(' ')
NLC = CharSet.of('\n')


def check_c23(rep, tier):
    d = PA.solved(rep)
    e = d.eng
    saved = e.MERGE_AT
    try:
        e.MERGE_AT = None
        inline(rep, d)
    finally:
        e.MERGE_AT = saved
    blocks(rep, d)
    collect(rep, d)
    line(rep, d)
    later(rep, d)
    indent(rep, d)
    rep.require('span', 0)


# ------------------------------------------------------------------ inlines
def inline(rep, d):
    e = d.eng
    icls = inline_class(d)
    roots = {}

    def onset(st, obj, attr, value, node, o):
        if attr != 'literal' or o is None or not o.kind == 'inst':
            return
        t = o.fields.get('t')
        if t is not None and strconst(t) and t.v in VERBATIM and not (
                isinstance(value, C) and value.v is None):
            own = [f for f in st.stack if f in e.funcs and
                   e.funcs[f].cls is icls and
                   e.funcs[f].name != 'parseInline']
            roots.setdefault((own or [st.stack[0]])[0], set()).add(t.v)
    with Observed(e, {'setattr': [onset]}):
        for q in d.touched.roots(('setattr', 'literal')):
            if d.fns[q].info.cls is not icls:
                continue
            try:
                d.run(q)
            except Budget:
                pass
    for q, kinds in sorted(roots.items()):
        if q not in d.fns and not adopt(d, q):
            rep.undecided('span', q, 'not a method of subject and node')
            continue
        try:
            me, args, res = run_on(d, q, S([P(SUBJ, lo=1)]))
        except Budget:
            rep.undecided('span', q, 'budget')
            continue
        for st, v in res:
            if isexc(v):
                continue
            pos = st.sy.get((me, 'pos'))
            last = {}
            for ev in st.events():
                if ev[0] == 'set' and ev[1] == 'literal' and isinstance(
                        ev[3], R) and not (isinstance(ev[2], C) and
                                           ev[2].v is None):
                    o = st.obj(ev[3].oid)
                    t = o.fields.get('t') if o is not None else None
                    if t is not None and strconst(t) and t.v in VERBATIM:
                        last[ev[3].oid] = (t.v, ev[2])
            for t, val in last.values():
                judge_span(rep, e, st, q, t, val, pos)


def adopt(d, q):
    """make a method that is normally followed a function of its own"""
    e = d.eng
    i = e.funcs[q]
    if len(i.params) > 2:
        return False
    icls = inline_class(d)
    me = Sy(('the', icls.qual), objtd(icls.qual))
    for s, m in e.getattr(e.new_state(), me, i.name, None):
        if isinstance(m, BM) and isinstance(m.fn, Fn):
            d.fns[q] = m.fn
            e.types.setdefault('call:' + q, {}).setdefault(
                i.params[0], me.td)
            if len(i.params) == 2:
                e.types['call:' + q].setdefault(
                    i.params[1], objtd(d.nodecls))
            return True
    return False


def stripped(v):
    """(text, characters cut at the start, at the end) of a slice of it"""
    if isinstance(v, S) and len(v.p) == 1 and isinstance(v.p[0], P) and \
       not v.p[0].imgs:
        u = v.p[0].uid
        if isinstance(u, tuple) and len(u) == 2 and isinstance(
                u[0], tuple) and u[0][:1] == ('slice',) and isinstance(
                    u[1], S) and len(u[0]) == 3:
            return u[1], u[0][1], u[0][2]
    return None


def judge_ops(ops, newline):
    """None when all are allowed; ('!'|'?', what)"""
    for op in ops:
        name = op[0]
        if name == 'image' and newline and op[1:] == ('\n', ' '):
            continue
        if name == 'image':
            return '!', '%r is changed into %r' % op[1:3]
        if name == 'replace' and len(op) == 3 and strconst(op[1]) and \
           strconst(op[2]):
            if newline and op[1].v == '\n' and op[2].v == ' ':
                continue
            return '!', '%r is replaced by %r' % (op[1].v, op[2].v)
        if name == 'resub':
            lang = language(op[1])
            if newline and lang is not None and strconst(op[2]) and \
               op[2].v == ' ' and RXM.subset(lang, RXM.lit('\n')):
                continue
            return '!', 'matches of %r are replaced' % op[1].pattern
        if name in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'casefold',
                    'expandtabs', 'translate', 'unescape', 'title',
                    'swapcase', 'capitalize'):
            return '!', '%s is applied' % name
        if 'unescape' in str(name):
            return '!', 'character references are decoded'
        return '?', 'operation %s' % (str(op)[:60],)
    return None


def judge_span(rep, e, st, q, t, val, pos):
    if strconst(val) or isinstance(val, C):
        if isinstance(val.v, str) and val.v:
            rep.undecided('span', q, '%s: constant %r' % (t, val.v[:40]))
        else:
            rep.ok('span', '%s: nothing' % t)
        return
    cut = stripped(val)
    if cut is not None and t == 'code' and all(
            isinstance(p, P) for p in cut[0].p):
        val = cut[0]
    elif cut is not None:
        cut = None
    ops, src = ops_of(val)
    bad = judge_ops(ops, t == 'code')
    if bad is not None and bad[0] == '!':
        rep.violation('span', '%s %s' % (q, t), 'in the contents of a %s '
                      'node %s' % (t, bad[1]))
        return
    if bad is not None:
        rep.undecided('span', q, '%s: %s' % (t, bad[1]))
        return
    if cut is not None and not ends(rep, e, st, q, val, cut):
        return
    if not (isinstance(src, S) and len(src.p) == 1 and isinstance(
            src.p[0], P)):
        rep.undecided('span', q, '%s: %r' % (t, src))
        return
    b = e.base_span(st, src.p[0])
    if b[0] != SUBJ:
        rep.undecided('span', q, '%s: of %r' % (t, b[0]))
        return
    if not isintv(pos):
        rep.undecided('span', q, '%s: position %r' % (t, pos))
        return
    left, right = b[1], isub(pos, b[2])
    if t != 'code':
        if st.prove_eq(left, C(0)) and st.prove_eq(right, C(0)):
            rep.ok('span', '%s: all that is consumed' % t)
        elif st.prove_le(C(1), left) or st.prove_le(C(1), right) or \
                st.prove_le(right, C(-1)):
            rep.violation('span', '%s %s' % (q, t), 'the literal of a %s '
                          'node is not what is consumed' % t)
        else:
            rep.undecided('span', q, '%s: from %r to %r, position %r' % (
                t, b[1], b[2], pos))
        return
    if st.prove_eq(left, right):
        rep.ok('span', 'code: equal runs on both sides')
    elif st.prove_le(iadd(left, C(1)), right) or \
            st.prove_le(iadd(right, C(1)), left):
        rep.violation('span', q, 'the runs removed on the two sides of a '
                      'code span differ')
    elif isinstance(right, C) != isinstance(left, C) and unbounded(
            st, right if isinstance(left, C) else left):
        rep.violation('span', q, 'a fixed number of characters is removed on '
                      'one side of a code span, a run of any length on the '
                      'other')
    else:
        rep.undecided('span', q, 'code: left %r right %r' % (left, right))
    # only backticks are removed
    piece = e.str_slice(st, S([P(SUBJ, lo=1)]), C(0), left, None)
    for s, w in piece:
        ps = parts(w)
        if ps is None:
            continue
        cs = EMPTY
        for p in ps:
            cs = cs | (CharSet.of(p) if isinstance(p, str) else
                       e.outcs(e.rp(s, p)) if not isinstance(
                           e.rp(s, p), str) else CharSet.of(e.rp(s, p)))
        if not (cs - TICK):
            rep.ok('span', 'code: only backticks are cut off')
        else:
            rep.undecided('span', q, 'code: %r is cut off' % cs)


def unbounded(st, v):
    return isinstance(v, I) and len(v.lin) == 1 and v.lin[0][1] == 1 and \
        isinstance(v.lin[0][0], tuple) and v.lin[0][0][:1] == ('nat',) and \
        not st.prove_le(v, C(64))


def ends(rep, e, st, q, val, cut):
    """a space is cut off both ends, and only spaces"""
    a, b = cut[1], cut[2]
    ln = e.strlen(st, val)
    if not (st.prove_eq(a, C(1)) and st.prove_eq(b, iadd(ln, C(-1)))):
        if isinstance(a, C) and isinstance(isub(ln, b), C):
            rep.violation('span', q, 'from the contents of a code span %d '
                          'and %d characters are cut off at the ends' % (
                              a.v, isub(ln, b).v))
        else:
            rep.undecided('span', q, 'code: slice %r %r' % (a, b))
        return False
    known = []
    for i in (C(0), iadd(ln, C(-1))):
        ok = False
        for k, n in st.nar.items():
            if same_char(k, val, i, st) and (
                    n.allow is not None and set(n.allow) <= set(' ') or
                    not (n.cs - SPACE)):
                ok = True
        known.append(ok)
    if any(known) and not all(known):
        # the two are known to be the same character
        for k, r in st.facts.items():
            if r and isinstance(k, tuple) and k[:1] == ('eqs',) and all(
                    any(isinstance(x, S) and len(x.p) == 1 and isinstance(
                        x.p[0], P) and same_char(x.p[0].uid, val, i, st)
                        for x in k[1:]) for i in (C(0), iadd(ln, C(-1)))):
                known = [True, True]
    if all(known):
        rep.ok('span', 'code: a space is cut off at both ends')
    elif any(known):
        rep.violation('span', q, 'a character that need not be a space is '
                      'cut off the contents of a code span')
        return False
    else:
        rep.undecided('span', q, 'code: characters cut off the ends')
    return True


def same_char(k, val, i, st):
    """does the key name the character of the text at i?"""
    if not (isinstance(k, tuple) and len(k) == 3):
        return False
    if k[0] == 'atS':
        return isinstance(k[1], S) and [
            getattr(p, 'uid', p) for p in k[1].p] == [
                getattr(p, 'uid', p) for p in val.p] and isintv(
                    k[2]) and st.prove_eq(k[2], i)
    if k[0] == 'at' and len(val.p) == 1:
        p = val.p[0]
        if p.span is not None:
            return k[1] == p.span[0] and isintv(k[2]) and st.prove_eq(
                k[2], iadd(p.span[1], i))
        return k[1] == p.uid and isintv(k[2]) and st.prove_eq(k[2], i)
    return False


# ------------------------------------------------------------------- blocks
def block_classes(d):
    """block type -> class"""
    e = d.eng
    out = {}
    for s, m in e.getattr(e.new_state(), d.parser, 'blocks', None):
        if isinstance(m, R):
            for k, v in (s.obj(m.oid).items or {}).items():
                if isinstance(v, K):
                    out[k.v if isinstance(k, C) else k] = v.info
    return out


def anchored(rx):
    """does every match end at the end of the text?"""
    import re
    try:
        t, fl = pattern_tree(rx.pattern, rx.flags)
    except Exception:
        return None
    if fl & re.M:
        return False
    return ends_at_end(list(t))


def ends_at_end(items):
    if not items:
        return False
    op, av = items[-1]
    name = str(op)
    if name == 'AT':
        return str(av) in ('AT_END', 'AT_END_STRING')
    if name == 'SUBPATTERN':
        return ends_at_end(list(av[-1]))
    if name == 'BRANCH':
        return all(ends_at_end(list(b)) for b in av[1])
    return False


def blocks(rep, d):
    e = d.eng
    classes = block_classes(d)
    names = {}
    for k in ('code_block', 'html_block'):
        if k in classes:
            names[classes[k].qual] = k
    seen = []

    def onset(st, obj, attr, value, node, o):
        if attr != 'literal' or isinstance(value, C) and value.v is None:
            return
        for f in reversed(st.stack):
            i = e.funcs.get(f)
            if i is not None and i.cls is not None and i.cls.qual in names:
                seen.append((names[i.cls.qual], f, st.copy(), obj, value,
                             getattr(node, 'lineno', 0)))
                return
    with Observed(e, {'setattr': [onset]}):
        for q in d.touched.roots(('setattr', 'literal')):
            try:
                d.run(q)
            except Budget:
                rep.undecided('block', q, 'budget')
    kinds = set()
    for k, f, st, obj, value, line in seen:
        kinds.add(k)
        judge_block(rep, e, st, k, f, obj, value, line)
    for k in sorted(names.values()):
        if k not in kinds:
            rep.undecided('block', k, 'no store of its literal found')


def judge_block(rep, e, st, k, f, obj, value, line):
    what = '%s: line %d' % (k, line)
    ops, src = ops_of(value)
    for op in ops:
        if op[0] == 'resub':
            lang = language(op[1])
            if lang is None:
                rep.undecided('block', f, '%s: %r' % (what, op[1].pattern))
                return
            if not strconst(op[2]):
                w = RXM.counterexample(lang, BLANKLINES)
                if w is not None:
                    rep.violation('block', '%s %s' % (f, k), 'line %d: in '
                                  'the contents %r is replaced' % (line, w))
                else:
                    rep.undecided('block', f, '%s: %r' % (
                        what, op[1].pattern))
                return
            if op[2].v not in ('', '\n'):
                rep.violation('block', '%s %s' % (f, k), 'line %d: matches '
                              'of %r are replaced by %r' % (
                                  line, op[1].pattern, op[2].v))
                return
            w = RXM.counterexample(lang, BLANKLINES)
            if w is not None:
                rep.violation('block', '%s %s' % (f, k), 'line %d: %r is '
                              'removed, which is no blank line' % (line, w))
                return
            if not anchored(op[1]):
                rep.violation('block', '%s %s' % (f, k), 'line %d: blank '
                              'lines are removed inside the contents by %r' %
                              (line, op[1].pattern))
                return
            continue
        if op[0] in ('rstrip', 'strip', 'lstrip'):
            arg = op[1] if len(op) > 1 else None
            chars = arg.v if strconst(arg) else arg if isinstance(
                arg, str) else None
            if op[0] == 'rstrip' and chars == '\n':
                continue
            if len(op) > 1 and chars is None and arg is not None and \
               not isinstance(arg, C):
                rep.undecided('block', f, '%s: %s' % (what, str(op)[:60]))
                return
            rep.violation('block', '%s %s' % (f, k), 'line %d: %s removes '
                          'more than blank lines at the end' % (line, op[0]))
            return
        bad = judge_ops([op], False)
        if bad[0] == '!':
            rep.violation('block', '%s %s' % (f, k), 'line %d: in the '
                          'contents %s' % (line, bad[1]))
        else:
            rep.undecided('block', f, '%s: %s' % (what, bad[1]))
        return
    if strconst(src):
        rep.ok('block', what)
        return
    ps = list(src.p) if isinstance(src, S) else None
    # a line ending put back at the end
    while ps and isinstance(ps[-1], str) and not ps[-1].strip('\n'):
        ps.pop()
    if not ps or len(ps) != 1 or not isinstance(ps[0], P):
        rep.undecided('block', f, '%s: %r' % (what, src))
        return
    uid, a, b = e.base_span(st, ps[0])
    if not of_content(uid, obj):
        rep.undecided('block', f, '%s: of %r' % (what, uid))
        return
    ln = e.piece_len(st, ps[0].but(uid=uid, span=None, lo=0, hi=None)) if \
        ps[0].span is not None else b
    if st.prove_le(iadd(b, C(1)), ln):
        rep.violation('block', '%s %s' % (f, k), 'line %d: the end of the '
                      'contents is dropped' % line)
        return
    for side, v in (('<', a), ('>', b)):
        cs = trimmed(v, side)
        # an HTML block starts with text
        if cs is not None and (cs - NLC or side == '<' and
                               k == 'code_block'):
            rep.violation('block', '%s %s' % (f, k), 'line %d: characters '
                          'of the contents are stripped at the %s' % (
                              line, 'start' if side == '<' else 'end'))
            return
    if trimmed(b, '>') is not None:
        rep.ok('block', what + ': without blank lines at the end')
    elif not st.prove_eq(b, ln):
        rep.undecided('block', f, '%s: ends at %r' % (what, b))
        return
    if st.prove_eq(a, C(0)) or trimmed(a, '<') is not None:
        rep.ok('block', what + ': all collected lines')
        return
    sym = first_newline(a, uid)
    if k == 'code_block' and sym == 1:
        rep.ok('block', what + ': all after the first line')
    elif sym is not None:
        rep.violation('block', '%s %s' % (f, k), 'line %d: the contents '
                      'start %d characters after the first line ending' % (
                          line, sym - 1))
    else:
        rep.undecided('block', f, '%s: starts at %r' % (what, a))


def trimmed(v, side):
    """characters stripped at this end of a span ('<' or '>'), or None"""
    if isinstance(v, I):
        for sym, n in v.lin:
            if n == 1 and isinstance(sym, tuple) and len(sym) == 4 and \
               sym[0] == 'nat' and isinstance(sym[1], str) and \
               sym[1].endswith('strip' + side) and isinstance(
                   sym[2], CharSet):
                return sym[2]
    return None


def of_content(uid, obj):
    k = getattr(obj, 'k', None)
    return isinstance(uid, tuple) and 'string_content' in str(uid)


def first_newline(a, uid):
    """offset from the first line ending of the text"""
    if isinstance(a, I) and len(a.lin) == 1 and a.lin[0][1] == 1:
        s = a.lin[0][0]
        if isinstance(s, tuple) and s[:1] == ('nat',) and 'find' in str(
                s)[:40] and "'\\n'" in str(s):
            return a.k
    return None


# ------------------------------------------------------------------ collect
def collect(rep, d):
    """lines are appended to a block as they are"""
    e = d.eng
    seen = []

    def onset(st, obj, attr, value, node, o):
        if attr == 'string_content' and isinstance(obj, Sy):
            seen.append((st.copy(), obj, value, st.stack[-1],
                         getattr(node, 'lineno', 0)))
    n = 0
    done = set()

    def judge():
        k = 0
        for st, obj, value, f, line in seen:
            ps = parts(value)
            if not ps or len(ps) < 2 or not isinstance(ps[0], P) or \
               'string_content' not in str(ps[0].uid) or ps[0].imgs or \
               ps[0].ops:
                continue
            k += 1
            key = (value, f, line)
            if key not in done:
                done.add(key)
                judge_line(rep, e, d, st, obj, ps[1:], f, line)
        return k
    # methods of the parser that only append, by themselves
    alone = set()
    for q in d.touched.roots(('setattr', 'string_content')):
        del seen[:]
        with Observed(e, {'setattr': [onset]}):
            try:
                d.run(q)
            except Budget:
                rep.undecided('collect', q, 'budget')
                continue
        fs = set(x[3] for x in seen) - set([q])
        for f in sorted(fs):
            if f in alone:
                continue
            i = e.funcs.get(f)
            if i is None or i.cls is not d.k.info or len(i.params) != 1:
                continue
            keep = list(seen)
            del seen[:]
            if by_itself(d, i, onset) and judge():
                alone.add(f)
                n += 1
            seen[:] = keep
        seen[:] = [x for x in seen if x[3] not in alone]
        n += judge()
    if not n:
        rep.undecided('collect', 'lines', 'no place found where lines are '
                      'collected')


def by_itself(d, info, onset):
    """interpret a method of the parser from a position inside the line"""
    e = d.eng
    try:
        for s, m in e.getattr(e.new_state(), d.parser, info.name, None):
            if not isinstance(m, BM):
                return False
            off = symint(('nat', 'offset'))
            s.sy[(d.parser.k, 'offset')] = off
            s.sy[(d.parser.k, 'column')] = symint(('nat', 'column'))
            for s2, ln in e.getattr(s, d.parser, 'current_line', None):
                if not isstr(ln) or not s2.assume_ge0(
                        isub(e.strlen(s2, ln), off)):
                    continue
                with Observed(e, {'setattr': [onset]}):
                    e.call(s2, m, [], {}, None)
        return True
    except Budget:
        return False


def of_line(uid):
    return 'current_line' in str(uid) or "'ln'" in str(uid)


def not_verbatim(e, st, obj):
    """does the path know the block to be of another type?"""
    for s, v in e.getattr(st.copy(), obj, 't', None):
        if not isstr(v):
            return False
        for t in ('code_block', 'html_block'):
            for s2, r in e.compare(s.copy(), ast.Eq(), v, C(t), None):
                if not isexc(r) and not (isinstance(r, C) and not r.v):
                    return False
    return True


def judge_line(rep, e, d, st, obj, ps, f, line):
    what = '%s line %d' % (f, line)
    tail = ''
    while ps and isinstance(ps[-1], str):
        tail = ps[-1] + tail
        ps = ps[:-1]
    head = ''
    while ps and isinstance(ps[0], str):
        head += ps[0]
        ps = ps[1:]
    spaces = 0
    if ps and isinstance(ps[0], P) and not (ps[0].cs - SPACE) and not \
       ps[0].imgs:
        spaces = ps[0]
        ps = ps[1:]

    def bad(why):
        if not_verbatim(e, st, obj):
            rep.ok('collect', what + ': other block')
        else:
            rep.violation('collect', f, 'line %d: %s' % (line, why))
    if head.strip(' ') or tail.strip('\n') or len(tail) > 1:
        bad('%r is added to a line' % (head.strip(' ') or tail))
        return
    if spaces:
        tab(rep, e, d, st, spaces, f, line, bad)
    if not ps:
        rep.ok('collect', what)
        return
    if len(ps) > 1 or not isinstance(ps[0], P):
        rep.undecided('collect', what, '%r' % (ps,))
        return
    ops, src = ops_of(S(ps))
    if ops:
        b = judge_ops(ops, False)
        if b is None or b[0] == '?':
            rep.undecided('collect', what, str(ops)[:80])
        else:
            bad('to a line %s' % b[1])
        return
    p = ps[0]
    uid, a, b = e.base_span(st, p)
    if not of_line(uid):
        rep.undecided('collect', what, 'of %r' % (uid,))
        return
    ln = e.piece_len(st, p.but(uid=uid, span=None, lo=0, hi=None)) if \
        p.span is not None else b
    if st.prove_le(iadd(b, C(1)), ln):
        bad('the end of a line is dropped')
        return
    if trimmed(b, '>') is not None:
        bad('characters at the end of a line are stripped')
        return
    if not st.prove_eq(b, ln):
        rep.undecided('collect', what, 'ends at %r' % (b,))
        return
    off = st.sy.get((d.parser.k, 'offset'))
    if off is None or not isintv(off):
        rep.undecided('collect', what, 'offset %r' % (off,))
        return
    if st.prove_eq(a, off):
        rep.ok('collect', what)
    elif st.prove_le(iadd(off, C(1)), a) and not spaces:
        bad('the first characters of a line are dropped')
    elif st.prove_le(iadd(a, C(1)), off):
        bad('a line is taken from before the current position')
    else:
        rep.undecided('collect', what, 'starts at %r, position %r' % (a, off))


def line(rep, d):
    """the current line is a line of the input"""
    e = d.eng
    seen = []

    def onset(st, obj, attr, value, node, o):
        if attr == 'current_line' and getattr(obj, 'k', None) == \
           d.parser.k and len(st.stack) and not (
               isinstance(value, C) and value.v in ('', None)):
            seen.append((st.copy(), value, st.stack[-1],
                         getattr(node, 'lineno', 0)))
    def prep(st, args):
        if len(args) == 2:
            args[1] = S([P(THELINE)])
    for q in d.touched.roots(('setattr', 'current_line')):
        with Observed(e, {'setattr': [onset]}):
            try:
                d.run(q, prep)
            except Budget:
                pass
    done = set()
    for st, value, f, ln in seen:
        ops, src = ops_of(value)
        key = (f, ln, str(ops), str(src))
        if key in done:
            continue
        done.add(key)
        what = '%s line %d' % (f, ln)
        if not (isinstance(src, S) and src.p and all(
                isinstance(p, str) and not p.strip('\ufffd') or
                isinstance(p, P) for p in src.p)):
            rep.undecided('line', what, '%r' % (src,))
            continue
        ok = True
        for op in ops:
            if op[0] == 'image' and op[1] == '\0':
                continue
            if op[0] == 'replace' and strconst(op[1]) and op[1].v == '\0':
                continue
            if op[0] == 'resub':
                lang = language(op[1])
                if lang is not None and RXM.subset(lang, RXM.lit('\0')):
                    continue
            ok = False
            bad = judge_ops([op], False)
            if bad is not None and bad[0] == '!':
                rep.violation('line', f, 'line %d: in a line of the input '
                              '%s' % (ln, bad[1]))
            else:
                rep.undecided('line', what, str(op)[:80])
        if not ok:
            continue
        p = src.p[0]
        if len(src.p) != 1 or isinstance(p, str):
            rep.undecided('line', what, '%r' % (src,))
            continue
        uid, a, b = e.base_span(st, p)
        n = e.strlen(st, S([P(THELINE)]))
        if uid != THELINE:
            rep.undecided('line', what, 'of %r' % (uid,))
        elif trimmed(a, '<') is not None or trimmed(b, '>') is not None or \
                st.prove_le(C(1), a) or st.prove_le(iadd(b, C(1)), n):
            rep.violation('line', f, 'line %d: a line of the input is taken '
                          'in part only' % ln)
        elif st.prove_eq(a, C(0)) and st.prove_eq(b, n):
            rep.ok('line', what)
        else:
            rep.undecided('line', what, 'from %r to %r' % (a, b))


def tab(rep, e, d, st, spaces, f, line, bad):
    """as many spaces as the rest of the tab is wide"""
    col = st.sy.get((d.parser.k, 'column'))
    if col is None:
        for s, v in e.getattr(st.copy(), d.parser, 'column', None):
            col = v
    if col is None or not isintv(col):
        rep.undecided('collect', f, 'column %r' % (col,))
        return
    n = e.piece_len(st, spaces)
    u = spaces.uid
    if isinstance(u, tuple) and len(u) == 3 and u[0] == 'rep' and isintv(
            u[2]):
        n = u[2]
    for s, r in e.binop(st.copy(), ast.Mod(), col, C(4), None):
        if isexc(r) or not isintv(r):
            continue
        want = isub(C(4), r)
        if s.prove_eq(n, want):
            rep.ok('collect', '%s line %d: width of the tab' % (f, line))
        elif isinstance(isub(n, want), C):
            bad('a tab is replaced by %+d spaces too many' % isub(n, want).v)
        elif not mentions(n, col):
            bad('the number of spaces a tab is replaced by does not depend '
                'on the column')
        else:
            rep.undecided('collect', f, 'line %d: %r spaces for %r' % (
                line, n, want))


def mentions(n, col):
    """does the number depend on this symbol?"""
    if not isinstance(col, I):
        return True
    syms = [sym for sym, _ in col.lin]

    def inside(x):
        if x in syms:
            return True
        if isinstance(x, I):
            return any(inside(y) for y, _ in x.lin)
        if isinstance(x, (tuple, list)):
            return any(inside(y) for y in x)
        if isinstance(x, (S, P)):
            return any(inside(y) for y in (
                x.p if isinstance(x, S) else (x.uid, x.span or ())))
        return False
    return inside(n)


# -------------------------------------------------------------------- later
def later(rep, d):
    """no other assignment changes the literal of such a node"""
    e = d.eng
    classes = block_classes(d)
    own = set(classes[k].qual for k in ('code_block', 'html_block')
              if k in classes)
    seen = []

    def onset(st, obj, attr, value, node, o):
        if attr == 'literal' and isinstance(obj, Sy) and not (
                isinstance(value, C) and value.v is None):
            seen.append((st.copy(), obj, value, list(st.stack),
                         getattr(node, 'lineno', 0)))
    for q in d.touched.roots(('setattr', 'literal')):
        del seen[:]
        with Observed(e, {'setattr': [onset]}):
            try:
                d.run(q)
            except Budget:
                rep.undecided('later', q, 'budget')
                continue
        done = set()
        for st, obj, value, stack, line in seen:
            if any(f in e.funcs and e.funcs[f].cls is not None and
                   e.funcs[f].cls.qual in own for f in stack):
                continue
            types = possible(e, st, obj)
            key = (line, tuple(types))
            if key in done:
                continue
            done.add(key)
            f = stack[-1]
            what = '%s line %d' % (f, line)
            if not types:
                rep.ok('later', what)
                continue
            ops, src = ops_of(value)
            bad = judge_ops(ops, False)
            if bad is not None and bad[0] == '!' and known_type(e, st, obj):
                rep.violation('later', f, 'line %d: in the literal of a %s '
                              'node %s' % (line, '/'.join(types), bad[1]))
            else:
                rep.undecided('later', what, 'node may be %s' % (
                    '/'.join(types)))


def possible(e, st, obj):
    out = []
    for s, v in e.getattr(st.copy(), obj, 't', None):
        for t in VERBATIM:
            for s2, r in e.compare(s.copy(), ast.Eq(), v, C(t), None):
                if not isexc(r) and not (isinstance(r, C) and not r.v):
                    out.append(t)
    return sorted(set(out))


def known_type(e, st, obj):
    """the path has compared the type with constants"""
    for s, v in e.getattr(st.copy(), obj, 't', None):
        v = e.nv(s, v)
        if strconst(v):
            return True
        ps = parts(v)
        if ps and len(ps) == 1 and isinstance(ps[0], P):
            p = e.rp(s, ps[0])
            if isinstance(p, str) or p.consts is not None:
                return True
            for k, n in s.nar.items():
                if k == p.uid and n.allow is not None:
                    return True
    return False


# ------------------------------------------------------------------- indent
def indent(rep, d):
    """a code block loses no more indentation than there is"""
    e = d.eng
    classes = block_classes(d)
    if 'code_block' not in classes:
        return
    own = classes['code_block'].qual
    seen = []

    def oncall(st, fn, args, bound, node):
        if fn.info.cls is d.k.info and fn.info.name == 'advance_offset':
            seen.append((st.copy(), args, st.stack[-1],
                         getattr(node, 'lineno', 0)))
    for q in sorted(d.fns):
        i = d.fns[q].info
        if not (i.cls is not None and (i.cls.qual == own) or
                'indented_code' in i.name):
            continue
        del seen[:]
        merge_at = e.MERGE_AT
        # what the branches of a test have found out stays apart
        e.MERGE_AT = 64
        with Observed(e, {'summary': [oncall]}):
            try:
                d.run(q)
            except Budget:
                rep.undecided('indent', q, 'budget')
                continue
            finally:
                e.MERGE_AT = merge_at
        for st, args, f, line in seen:
            what = '%s line %d' % (f, line)
            if len(args) < 3 or not isintv(args[1]):
                rep.undecided('indent', what, 'arguments')
                continue
            n = args[1]
            ind = st.sy.get((d.parser.k, 'indent'))
            if ind is None:
                for s, v in e.getattr(st.copy(), d.parser, 'indent', None):
                    ind = v
            if ind is not None and isintv(toI(ind) or ind) and st.prove_le(
                    n, ind):
                rep.ok('indent', what)
                continue
            at = here(e, d, st)
            if st.prove_eq(n, C(1)) and at is not None and not (
                    at - CharSet.of(' \t')):
                rep.ok('indent', what + ': a space or tab')
                continue
            if st.prove_eq(n, C(1)) and at is not None and \
               CharSet.of('aZ09') <= at and unindented(e, d, st):
                rep.violation('indent', f, 'line %d: characters other than '
                              'spaces and tabs are removed' % line)
                continue
            if isinstance(n, C) and ind is not None and any(
                    st.prove_le(C(j), ind) and not st.prove_le(C(n.v), ind)
                    for j in range(1, n.v)):
                rep.violation('indent', f, 'line %d: %d columns are removed '
                              'where the line may be indented by less' % (
                                  line, n.v))
            else:
                rep.undecided('indent', what, '%r of %r' % (n, ind))


def unindented(e, d, st):
    """may the text of the line start here, for all the path knows?"""
    for s, ind in e.getattr(st.copy(), d.parser, 'indent', None):
        for s2, off in e.getattr(s, d.parser, 'offset', None):
            for s3, nn in e.getattr(s2, d.parser, 'next_nonspace', None):
                if isintv(ind) and isintv(off) and isintv(nn) and \
                   s3.assume_ge0(isub(C(0), ind)) and \
                   s3.assume_ge0(isub(off, nn)):
                    return True
    return False


def here(e, d, st):
    """characters the current position may hold"""
    out = EMPTY
    st = st.copy()
    for s, ln in e.getattr(st, d.parser, 'current_line', None):
        for s2, off in e.getattr(s, d.parser, 'offset', None):
            if not isstr(ln) or not isintv(off):
                return None
            for s3, c in e.str_index(s2, ln, off, None):
                if isexc(c):
                    continue
                ps = parts(c)
                if ps is None:
                    return None
                for p in ps:
                    p = e.rp(s3, p) if isinstance(p, P) else p
                    out = out | (CharSet.of(p) if isinstance(p, str)
                                 else e.outcs(p))
    return out
