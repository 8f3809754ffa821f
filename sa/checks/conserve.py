"""Inline parsing advances, and text that is no construct stays text.

The step function of the inline parser is interpreted on every kind of first
character followed by any text; on every path the position has advanced, and
where no construct was recognised the texts put in the tree are the consumed
text.
"""
from ..values import *
from ..charset import CharSet, ALL, EMPTY
from ..interp import Budget
from ..models import strconst, isstr
from .. import rx as RXM
from . import parser as PA
from .text import run_on, method, inline_class, Observed, char_of, is_char, \
    ESC
from .smart import OPEN, CLOSE, ops_of, language, is_dash, is_dots, SPECIAL, QUOTES

BLANKS = RXM.star(RXM.chrs(CharSet.of(' \t')))
SPACES = RXM.star(RXM.chrs(CharSet.of(' ')))


def check_c08(rep, tier):
    d = PA.solved(rep)
    e = d.eng
    saved = e.MERGE_AT, e.CAP
    try:
        e.MERGE_AT = None
        steps(rep, d)
        close_bracket(rep, d)
        parts_advance(rep, d)
        e.MERGE_AT, e.CAP = saved
        delimiters(rep, d)
        paragraph(rep, d)
    finally:
        e.MERGE_AT, e.CAP = saved
    rep.require('advance', 1)


def steps(rep, d):
    q = method(d, 'parseInline')
    icls = inline_class(d)
    # methods that look for the end of a link are followed separately
    deep = set(['processEmphasis'])
    for c in '\n\\`*_\'"[!<&':
        step(rep, d, q, [c, P(('rest',))], c, lambda info: True if
             info.cls is icls and info.name not in deep else None)
    step(rep, d, q, [P(('first',), cs=ALL - SPECIAL, lo=1, hi=1),
                     P(('rest',))], None,
         lambda info: True if info.cls is icls and
         info.name not in deep else None)


def step(rep, d, q, shape, c, nocut):
    what = 'text starting with %s' % (
        repr(c) if c else 'an ordinary character')

    def onregex(st, rx, subject, mode, node):
        st.event(('regex', rx, subject, mode))
    try:
        me, args, res = run_on(d, q, S(shape), nocut=nocut,
                               hooks={'regex': [onregex]})
    except Budget:
        rep.undecided('advance', what, 'budget')
        return
    for st, v in res:
        if not isexc(v):
            judge(rep, d, q, me, st, v, shape, c, what)


def new_nodes(st):
    return [o for oid, o in st.heap.items()
            if o.kind == 'inst' and 't' in o.fields]


def judge(rep, d, q, me, st, v, shape, c, what):
    e = d.eng
    pos = st.sy.get((me, 'pos'))
    if isinstance(v, C) and not v.v:
        rep.violation('advance', q, '%s: parsing stops, the rest of the text '
                      'is dropped' % what)
        return
    if not isinstance(pos, (C, I)):
        rep.undecided('advance', q, '%s: position %r' % (what, pos))
        return
    if st.prove_le(C(1), pos):
        rep.ok('advance', what)
    elif st.prove_le(pos, C(0)):
        rep.violation('advance', q, '%s: the position does not move' % what)
        return
    else:
        rep.undecided('advance', q, '%s: position %r' % (what, pos))
    kinds = [o.fields['t'] for o in new_nodes(st)]
    if not all(strconst(t) for t in kinds):
        rep.undecided('text', q, '%s: nodes %r' % (what, kinds))
        return
    other = sorted(set(t.v for t in kinds) - set(['text']))
    lits = []
    for ev in st.events():
        if ev[0] != 'set' or ev[1] != 'literal':
            continue
        val, obj = ev[2], ev[3]
        if isinstance(val, C) and val.v is None:
            continue
        if not isinstance(obj, R):
            trimmed(rep, e, q, what, val, obj, st)
            continue
        o = st.obj(obj.oid)
        t = o.fields.get('t') if o is not None else None
        lits.append((t.v if t is not None and strconst(t) else None, val))
    if other:
        construct(rep, e, q, st, what, other, lits, pos, shape, c)
        return
    if not lits:
        rep.violation('text', q, '%s: text is consumed, nothing is put in '
                      'the tree' % what)
        return
    conserved(rep, e, q, st, what, [x for t, x in lits], pos, shape, c)


def trimmed(rep, e, q, what, val, obj, st):
    """the literal of an earlier node loses spaces at its end only"""
    ops, src = ops_of(val)
    for op in ops:
        if op[:1] == ('resub',) and isinstance(op[1], RX):
            lang = language(op[1])
            ok = lang is not None and op[2] == C('') and \
                RXM.counterexample(lang, SPACES) is None
            if not ok:
                rep.violation('trim', q, '%s: the text before loses %r' % (
                    what, op[1].pattern))
                return
        elif op[:1] not in (('rstrip',), ('strip',)):
            rep.undecided('trim', q, '%s: %r' % (what, op))
            return
    rep.ok('trim', what)


def extent(e, st, v, shape, off, c):
    """how much of the subject a text stands for, from offset off: the new
    offset, or (None, reason)"""
    ops, src = ops_of(v)
    for op in ops:
        if op[:1] == ('resub',) and isinstance(op[1], RX) and (
                is_dash(op[1]) or is_dots(op[1])):
            continue
        if op[:1] in (('unescape',),) or 'unescape' in str(op[:1]):
            continue
        if op[:1] == ('image',) and op[1] == '...':
            continue
        if op[:1] == ('replace',):
            continue
        return None, 'unknown operation %s' % (str(op)[:60],)
    if isinstance(src, C) and isinstance(src.v, str):
        if not isinstance(off, C):
            return None, 'constant %r at %r' % (src.v, off)
        i = off.v
        for x in src.v:
            if not matches(e, st, shape, i, x) and not (
                    c in ('"', "'") and x in (OPEN[c], CLOSE[c])):
                return False, 'the text %r is put in the tree' % src.v
            i += 1
        return C(i), None
    if not isinstance(src, S):
        return None, repr(src)[:80]
    if src == S(shape):
        return e.strlen(st, src), None
    if len(src.p) == 1 and isinstance(src.p[0], P):
        p = src.p[0]
        u = p.uid
        if isinstance(u, tuple) and len(u) == 2 and isinstance(
                u[0], tuple) and u[0][:1] == ('slice',) and \
                u[1] == S(shape):
            a, b = u[0][1], u[0][2]
            if st.prove_eq(a, off):
                return b, None
            return None, 'slice from %r at %r' % (a, off)
        if isinstance(u, tuple) and len(u) == 4 and u[0] == 'sub' and \
                not p.imgs and isinstance(u[1], tuple) and \
                len(u[1]) == 2 and isinstance(u[1][0], tuple) and \
                u[1][0][:1] == ('slice',) and u[1][1] == S(shape):
            # part of a part
            a = u[1][0][1]
            if st.prove_eq(iadd(a, u[2]), off):
                return iadd(a, u[3]), None
            return None, 'part from %r at %r' % (iadd(a, u[2]), off)
        k = char_at(src, shape)
        if k is not None:
            if st.prove_eq(C(k), off):
                return C(k + 1), None
            if st.prove_le(C(k + 1), off):
                return False, 'a character already put in the tree is put ' \
                    'there again'
        b = e.base_span(st, p)
        if b is not None and b[0] == ('rest',) and len(shape) == 2:
            a, z = iadd(b[1], C(1)), iadd(b[2], C(1))
            if st.prove_eq(a, off):
                return z, None
            return None, 'span from %r at %r' % (a, off)
    # a concatenation of consumed pieces
    tot = off
    for p in src.p:
        if len(src.p) == 1:
            return None, repr(src)[:80]
        tot, why = extent(e, st, S([p]) if not isinstance(p, str) else C(p),
                          shape, tot, c)
        if tot is None or tot is False:
            return tot, why
    return tot, None


def char_at(v, shape):
    """the value is the character of the subject at this index"""
    if not isinstance(v, S) or len(v.p) != 1 or not isinstance(v.p[0], P) \
       or v.p[0].imgs:
        return None
    u = v.p[0].uid
    if u == ('first',):
        return 0
    if not isinstance(u, tuple) or not u[:1] or u[0] not in ('at', 'atS') or \
       not isinstance(u[-1], C):
        return None
    if u[1] == ('rest',) and len(shape) == 2:
        return u[-1].v + 1
    if u[1] == ('first',):
        return u[-1].v
    if u[1] == S(shape):
        return u[-1].v
    return None


def matches(e, st, shape, i, x):
    """may the subject have the character x at i? (False only if known)"""
    for p in shape:
        if isinstance(p, str):
            if i < len(p):
                return p[i] == x
            i -= len(p)
            continue
        if p.hi == 1 and p.lo == 1:
            if i == 0:
                return x in char_of(st, p.uid) & p.cs
            i -= 1
            continue
        for k, n in st.nar.items():
            if isinstance(k, tuple) and len(k) > 2 and k[0] == 'at' and \
               k[2] == C(i) and k[1] == p.uid:
                if x not in n.cs or n.allow is not None and \
                   x not in n.allow:
                    return False
        return True
    return True


def conserved(rep, e, q, st, what, lits, pos, shape, c):
    if c == '\\' and len(lits) == 1 and st.prove_eq(pos, C(2)):
        ops, src = ops_of(lits[0])
        if not ops and char_at(src, shape) == 1:
            rep.ok('text', what + ': escape')
            return
    off = C(0)
    for x in lits:
        off, why = extent(e, st, x, shape, off, c)
        if off is False:
            rep.violation('text', q, '%s: %s' % (what, why))
            return
        if off is None:
            rep.undecided('text', q, '%s: %s' % (what, why))
            return
    if st.prove_eq(off, pos):
        rep.ok('text', what)
    elif st.prove_le(iadd(off, C(1)), pos):
        rep.violation('text', q, '%s: more is consumed than is put in the '
                      'tree (%s)' % (what, difference(off, pos)))
    elif st.prove_le(iadd(pos, C(1)), off):
        rep.violation('text', q, '%s: more is put in the tree than is '
                      'consumed (%s)' % (what, difference(pos, off)))
    elif maybe(st, iadd(off, C(1)), pos):
        rep.violation('text', q, '%s: what is consumed and what is put in '
                      'the tree can differ: %s' % (
                          what, difference(off, pos)))
    else:
        rep.undecided('text', q, '%s: consumed %r, put %r' % (
            what, pos, off))


def maybe(st, a, b):
    """b - a is a length a failed match has left"""
    v = isub(b, a)
    if not isinstance(v, I):
        return False
    if all(isinstance(s, tuple) and s[:2] == ('nat', 'me') and c > 0
           for s, c in v.lin):
        return True
    # a constant number of characters for a run of any length
    if isinstance(toI(a), I) and not toI(a).lin:
        names = [s for s, c in v.lin if c > 0]
        return len(names) == len(v.lin) == 1 and isinstance(
            names[0], tuple) and names[0][:1] == ('nat',) and not \
            st.prove_le(v, C(64))
    return False


def difference(a, b):
    v = isub(b, a)
    if isinstance(v, C):
        return '%d characters' % v.v
    names = []
    for s, c in v.lin:
        if isinstance(s, tuple) and s[:2] == ('nat', 'me') and isinstance(
                s[2], tuple) and len(s[2]) > 1 and isinstance(s[2][1], RX):
            names.append('the match of %s' % s[2][1].pattern[:60])
        else:
            names.append('a length')
    return ' and '.join(names)


def construct(rep, e, q, st, what, kinds, lits, pos, shape, c):
    name = ', '.join(kinds)
    if kinds == ['html_inline'] and len(lits) == 1:
        conserved(rep, e, q, st, what + ' (raw HTML)', [lits[0][1]], pos,
                  shape, c)
        return
    if set(kinds) <= set(['softbreak', 'linebreak']) and len(kinds) == 1:
        if c == '\\':
            if isinstance(pos, C) and pos.v == 2 and matches(
                    e, st, shape, 1, '\n'):
                rep.ok('text', what + ': line break')
            else:
                rep.violation('text', q, '%s: a line break takes %r' % (
                    what, pos))
            return
        if c == '\n':
            taken(rep, e, q, st, what, pos)
            return
        rep.violation('text', q, '%s becomes a line break' % what)
        return
    if kinds == ['link'] and c == '<':
        # autolink: the text without the angle brackets
        tx = [x for t, x in lits if t == 'text']
        if len(tx) == 1:
            ops, src = ops_of(tx[0])
            if ops:
                rep.undecided('text', q, '%s: %r' % (what, ops))
                return
            n = e.strlen(st, tx[0])
            d = isub(pos, n)
            if st.prove_eq(d, C(2)):
                rep.ok('text', what + ': autolink')
            elif isinstance(d, C):
                rep.violation('text', q, '%s: an autolink consumes %d '
                              'characters besides its text' % (what, d.v))
            else:
                rep.undecided('text', q, '%s: autolink %r' % (what, d))
            return
    if kinds == ['code'] and c == '`':
        rep.ok('text', what + ': code span')
        return
    rep.undecided('text', q, '%s: %s' % (what, name))


def taken(rep, e, q, st, what, pos):
    """after a newline only spaces are consumed"""
    total = C(1)
    for ev in st.events():
        if ev[0] != 'regex':
            continue
        k = ('rx', ev[1], ev[3], ev[2])
        if st.facts.get(k) is False:
            continue
        w = symint(('nat', 'me', ('m', ev[1], ev[3], ev[2])))
        if not isinstance(isub(pos, w), (C, I)):
            continue
        if not (isinstance(pos, I) and any(
                s == ('nat', 'me', ('m', ev[1], ev[3], ev[2]))
                for s, cc in pos.lin)):
            continue
        lang = language(ev[1])
        if lang is None:
            rep.undecided('text', q, '%s: %s' % (what, ev[1].pattern))
            return
        cx = RXM.counterexample(lang, BLANKS)
        if cx is not None:
            rep.violation('text', q, '%s: the newline takes %r with it' % (
                what, cx))
            return
        total = iadd(total, w)
    if st.prove_eq(total, pos):
        rep.ok('text', what + ': line break')
    else:
        rep.undecided('text', q, '%s: position %r' % (what, pos))


# ----------------------------------------------------------- close bracket
def close_bracket(rep, d):
    """a closing bracket that makes no link is one character of text"""
    q = method(d, 'parseCloseBracket')
    if q is None:
        rep.undecided('text', 'closing bracket', 'not found')
        return
    e = d.eng
    shape = [']', P(('rest',))]
    try:
        me, args, res = run_on(d, q, S(shape))
    except Budget:
        rep.undecided('text', q, 'budget')
        return
    what = 'closing bracket'
    for st, v in res:
        if isexc(v):
            continue
        kinds = [o.fields['t'] for o in new_nodes(st)]
        link = any(not (strconst(t) and t.v == 'text') for t in kinds)
        pos = st.sy.get((me, 'pos'))
        if link:
            if isinstance(pos, (C, I)) and st.prove_le(pos, C(0)):
                rep.violation('advance', q, 'a link is made and the '
                              'position does not move')
            else:
                rep.ok('advance', 'link')
            continue
        if isinstance(v, C) and not v.v:
            # the caller takes one character
            if isinstance(pos, C) and pos.v == 0:
                rep.ok('text', what + ': left to the caller')
            else:
                rep.violation('text', q, '%s: declined at position %r' % (
                    what, pos))
            continue
        lits = [ev[2] for ev in st.events() if ev[0] == 'set' and
                ev[1] == 'literal' and isinstance(ev[3], R) and not (
                    isinstance(ev[2], C) and ev[2].v is None)]
        if not all(strconst(x) for x in lits):
            rep.undecided('text', q, '%s: %r' % (what, lits))
        elif ''.join(x.v for x in lits) != ']':
            rep.violation('text', q, '%s becomes %r' % (
                what, ''.join(x.v for x in lits)))
        elif isinstance(pos, (C, I)) and st.prove_eq(pos, C(1)):
            rep.ok('text', what)
        elif isinstance(pos, (C, I)):
            rep.violation('text', q, '%s: text tried as a link and rejected '
                          'is consumed (position %s)' % (what, str(pos)[:80]))
        else:
            rep.undecided('text', q, '%s: position %r' % (what, pos))


def parts_advance(rep, d):
    """the parts of a link never move the position back"""
    icls = inline_class(d)
    e = d.eng
    mine = [q for q in sorted(d.fns) if d.fns[q].info.cls is icls]
    target = method(d, 'parseCloseBracket')
    used = d.edges.edges.get(target, set()) if target else set()
    for q in mine:
        if q not in used or len(d.fns[q].info.params) > 1 or \
           d.fns[q].info.name in ('processEmphasis', 'removeBracket'):
            continue
        e.MERGE_AT = 8
        try:
            me, args, res = run_on(
                d, q, S([P(('rest',))]))
        except Budget:
            rep.undecided('advance', q, 'budget')
            continue
        finally:
            e.MERGE_AT = None
        for st, v in res:
            if isexc(v):
                continue
            pos = st.sy.get((me, 'pos'), C(0))
            if isinstance(pos, (C, I)) and st.prove_ge0(pos):
                rep.ok('advance', q)
            elif isinstance(pos, (C, I)) and st.prove_le(pos, C(-1)):
                rep.violation('advance', q, 'the position moves back')
            else:
                rep.undecided('advance', q, 'position %r' % (pos,))


# -------------------------------------------------------------- delimiters
def delimiters(rep, d):
    """delimiter text and delimiter count shrink by the same number"""
    e = d.eng
    q = method(d, 'processEmphasis')
    if q is None:
        return
    bad = {}
    n = [0]

    def put(st, ev, node):
        for o in reversed(st.events()):
            if o[:2] == ('shrink', ev[1]) and o[2] != ev[2]:
                n[0] += 1
                a, b = o[3], ev[3]
                if isinstance(a, C) and isinstance(b, C) and a != b:
                    bad[getattr(node, 'lineno', 0)] = (a.v, b.v)
                break
        st.event(ev)

    def onset(st, obj, attr, value, node, o):
        if attr != 'literal' or not isinstance(obj, Sy) or not obj.k or \
           obj.k[-1] not in ('.[node]', '[node]') or \
           not isinstance(value, S) or len(value.p) != 1 or \
           not isinstance(value.p[0], P):
            return
        sp = value.p[0].span
        if sp is None:
            u = value.p[0].uid
            if isinstance(u, tuple) and u[:1] == ('sub',):
                sp = (u[1], u[2], u[3])
        if sp is None:
            return
        ln = [s for s, c in sp[2].lin if c == 1] if isinstance(
            sp[2], I) else []
        for s in ln:
            k = isub(symint(s), sp[2])
            if isinstance(k, C):
                put(st, ('shrink', obj.k[:-1], 'text', k), node)

    def onitem(st, obj, key, value, node):
        if strconst(key) and key.v == 'numdelims' and isinstance(obj, Sy) \
           and isinstance(value, I) and len(value.lin) == 1:
            put(st, ('shrink', obj.k, 'count', C(-value.k)), node)
    with Observed(e, {'setattr': [onset], 'setitem': [onitem]}):
        try:
            d.run(q)
        except Budget:
            rep.undecided('delimiters', q, 'budget')
            return
    for line, (a, b) in sorted(bad.items()):
        rep.violation('delimiters', q, 'line %d: the count of delimiters '
                      'shrinks by %d, their text by %d' % (
                          line, min(a, b), max(a, b)))
    if not bad and n[0]:
        rep.ok('delimiters', q)
    elif not n[0]:
        rep.undecided('delimiters', q, 'no update found')


# --------------------------------------------------------------- paragraph
def stripped(names):
    """characters besides white space taken off"""
    def sets(v):
        if isinstance(v, CharSet):
            return [v]
        if isinstance(v, tuple):
            return [c for x in v for c in sets(x)]
        return []
    out = EMPTY
    for s in names:
        if isinstance(s, tuple) and s[:1] == ('nat',) and 'strip' in \
           repr(s[:3]):
            for cs in sets(s):
                out = out | (cs - CharSet.of(' \t\n\r\x0b\x0c'))
    return out


def paragraph(rep, d):
    """a paragraph loses exactly the text of the definitions at its start"""
    e = d.eng
    q = None
    for x, f in sorted(d.fns.items()):
        if f.info.name == 'parseReference':
            q = x
    if q is None:
        rep.undecided('definitions', 'parseReference', 'not found')
        return
    found = {}

    def onset(st, obj, attr, value, node, o):
        if attr != 'string_content' or not isinstance(value, S) or \
           len(value.p) != 1 or not isinstance(value.p[0], P):
            return
        p = value.p[0]
        u = p.uid
        found.setdefault((st.stack[-1], node.lineno), []).append(
            (st.copy(), value, obj))
    roots = d.touched.roots(('summary', q))
    with Observed(e, {'setattr': [onset]}):
        for r in roots:
            try:
                d.run(r)
            except Budget:
                rep.undecided('definitions', r, 'budget')
    for (fn, line), vals in sorted(found.items()):
        for st, value, obj in vals:
            u = value.p[0].uid
            b = e.base_span(st, value.p[0])
            start = None
            if isinstance(u, tuple) and len(u) == 2 and isinstance(
                    u[0], tuple) and u[0][:1] == ('slice',):
                start, end = u[0][1], u[0][2]
            elif b is not None:
                start = b[1]
            if start is None:
                rep.undecided('definitions', fn, 'line %d: %r' % (
                    line, value))
                continue
            names = [s for s, c in start.lin] if isinstance(start, I) else []
            if start == C(0):
                rep.ok('definitions', '%s line %d' % (fn, line))
                continue
            if isinstance(start, I) and len(names) == 1 and \
               'ret' in repr(names[0]) and start.k == 0:
                rep.ok('definitions', '%s line %d' % (fn, line))
            elif stripped(names):
                rep.violation('definitions', fn, 'line %d: %r is dropped '
                              'after a definition' % (line, stripped(names)))
            elif isinstance(start, I) and start.k != 0 and len(names) == 1 \
                    and 'ret' in repr(names[0]):
                rep.violation('definitions', fn, 'line %d: %d characters '
                              'besides the definition are dropped' % (
                                  line, start.k))
            else:
                rep.undecided('definitions', fn, 'line %d: from %r' % (
                    line, start))
