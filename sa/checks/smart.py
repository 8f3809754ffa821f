"""Smart punctuation: what dashes, quotes and other text become."""
from ..values import *
from ..charset import CharSet, ALL, EMPTY
from ..interp import Budget
from ..models import strconst, isstr
from .. import rx as RXM
from . import parser as PA
from .text import run_on, method, inline_class, literals, Observed

OPEN = {"'": '\u2018', '"': '\u201c'}
CLOSE = {"'": '\u2019', '"': '\u201d'}
QUOTES = CharSet.of('\'"')
CURLY = '\u2018\u2019\u201c\u201d'
EM, EN = '\u2014', '\u2013'
DOTS = '\u2026'
SPECIAL = CharSet.of('\n`[]\\!<&*_\'"')
DASHES = RXM.cat(RXM.lit('--'), RXM.star(RXM.chrs(CharSet.of('-'))))
DASH1 = RXM.cat(RXM.lit('-'), RXM.star(RXM.chrs(CharSet.of('-'))))


def language(rx, cache={}):
    k = (rx.pattern, rx.flags)
    if k not in cache:
        try:
            cache[k] = RXM.Pattern(rx.pattern, rx.flags).lang_full()
        except RXM.Unsupported:
            cache[k] = None
    return cache[k]


def is_dash(rx):
    lang = language(rx)
    return lang is not None and RXM.witness(RXM.conj(lang, DASHES)) \
        is not None and not RXM.accepts(lang, 'a--')


def is_dots(rx):
    lang = language(rx)
    return lang is not None and RXM.accepts(lang, '...') and \
        not RXM.accepts(lang, 'abc')


def smart_on(st):
    """True / False: the option is known to be set / not to be set; None:
    it was not looked at"""
    r = None
    for k, v in st.facts.items():
        if isinstance(k, tuple) and len(k) > 1 and \
           k[0] in ('b', 'has') and "[smart]" in repr(k):
            if v is False:
                return False
            if k[0] == 'b':
                r = True
    return r


def ops_of(v):
    """operations applied to a text, outermost first, and its source"""
    ops = []
    for _ in range(30):
        if isinstance(v, C):
            return ops, v
        if not isinstance(v, S) or len(v.p) != 1:
            return ops, v
        p = v.p[0]
        if isinstance(p, str):
            return ops, C(p)
        for x in sorted(p.imgs):
            ops.append(('image',) + tuple(x))
        u = p.uid
        if isinstance(u, tuple) and len(u) == 2 and isinstance(
                u[1], (S, C)) and isinstance(u[0], (tuple, str)):
            if u[0][:1] == ('slice',):
                return ops, v
            ops.append(u[0] if isinstance(u[0], tuple) else (u[0],))
            v = u[1]
            continue
        return ops, v
    return ops, v


def check_c20(rep, tier):
    d = PA.solved(rep)
    rules = substitutions(rep, d)
    running(rep, d, rules)
    quotes(rep, d)
    emphasis(rep, d)
    rep.require('dashes', 1)


# ------------------------------------------------------------------ dashes
def substitutions(rep, d):
    """replacements of hyphens: found by the pattern"""
    e = d.eng
    subs = {}

    def onsub(st, rx, repl, subject, node):
        if is_dash(rx):
            k = repl if not isinstance(repl, Fn) else (
                repl.info.qual, getattr(repl.info.node, 'lineno', 0))
            subs.setdefault((rx, k), (st.copy(), rx, repl, st.stack[-1],
                                      getattr(node, 'lineno', 0)))
    with Observed(e, {'resub': [onsub]}):
        for q in d.touched.roots('resub'):
            if d.fns[q].info.cls is not inline_class(d) and \
               d.fns[q].info.cls is not None:
                continue
            try:
                d.run(q)
            except Budget:
                rep.undecided('dashes', q, 'budget')
    if not subs:
        rep.undecided('dashes', 'replacement', 'none found')
    for st, rx, repl, q, line in subs.values():
        one_rule(rep, e, st, rx, repl, q, line)
    return set(rx for st, rx, repl, q, line in subs.values())


def lazy(rx):
    from .text import pattern_tree

    def walk(t):
        for op, av in t:
            n = str(op)
            if n == 'MIN_REPEAT':
                return True
            if n in ('MAX_REPEAT', 'POSSESSIVE_REPEAT') and walk(av[2]):
                return True
            if n == 'SUBPATTERN' and walk(av[-1]):
                return True
            if n == 'BRANCH' and any(walk(b) for b in av[1]):
                return True
        return False
    return walk(pattern_tree(rx.pattern, rx.flags)[0])


def one_rule(rep, e, st, rx, repl, q, line):
    lang = language(rx)
    w = RXM.counterexample(DASHES, lang)
    if w is not None:
        rep.violation('dashes', q, 'line %d: %r is not replaced as a whole' %
                      (line, w))
        return
    w = RXM.counterexample(lang, DASH1)
    if w is not None:
        rep.violation('dashes', q, 'line %d: %r is replaced as if it were '
                      'hyphens' % (line, w))
        return
    if lazy(rx):
        rep.violation('dashes', q, 'line %d: the pattern %r does not take '
                      'the whole run of hyphens' % (line, rx.pattern))
        return
    rep.ok('dashes', '%s line %d: pattern %s' % (q, line, rx.pattern))
    if strconst(repl):
        rep.violation('dashes', q, 'line %d: runs of any length are replaced '
                      'by %r' % (line, repl.v))
        return
    lo = 1 if RXM.accepts(lang, '-') else 2
    period = 12
    k = symint(('nat', 'k', 'dashes'))
    for r in range(lo, lo + period):
        n = iadd(imulc(k, period), C(r))
        base = ('run', r)
        run = P(('sub', base, C(0), n), cs=CharSet.of('-'), lo=r,
                span=(base, C(0), n))
        s0 = st.copy()
        m = MT(rx, S([run]), 'search', ('c20', r), C(0), n)
        try:
            with Observed(e, {}, lambda info: False):
                outs = e.call(s0, repl, [m], {}, None)
        except Budget:
            rep.undecided('dashes', q, 'budget')
            return
        for s, v in outs:
            if not s.prove_ge0(C(0)) or not consistent(s):
                continue
            if isexc(v):
                rep.violation('dashes', q, 'line %d: replacing %dk+%d '
                              'hyphens raises %s' % (line, period, r, v.name))
                continue
            worth(rep, e, s, e.nv(s, v), n, q, line, period, r)


def consistent(st):
    # a path whose facts exclude every run length
    return not st.prove_ge0(C(-1))


def worth(rep, e, st, v, n, q, line, period, r):
    what = 'a run of %dk+%d hyphens' % (period, r)
    ps = parts(v)
    if ps is None:
        rep.undecided('dashes', q, '%s becomes %r' % (what, v))
        return
    total = C(0)
    for p in ps:
        if isinstance(p, str):
            for c in p:
                if c not in (EM, EN) and not (c == '-' and r == 1 and
                                              len(ps) == 1):
                    rep.violation('dashes', q, 'line %d: %s becomes text '
                                  'with %r' % (line, what, c))
                    return
                total = iadd(total, C({EM: 3, EN: 2, '-': 1}[c]))
            continue
        u = p.uid
        if p.imgs or not (isinstance(u, tuple) and u[:1] == ('rep',) and
                          isinstance(u[1], str) and isinstance(
                              u[2], (C, I))):
            if isinstance(u, tuple) and u[:1] == ('sub',) and not p.ops \
               and not p.imgs:
                rep.violation('dashes', q, 'line %d: %s stays' % (line, what))
                return
            rep.undecided('dashes', q, '%s becomes %r' % (what, v))
            return
        t, cnt = u[1], u[2]
        if any(c not in (EM, EN) for c in t):
            rep.violation('dashes', q, 'line %d: %s becomes text with %r' % (
                line, what, t))
            return
        if not st.prove_ge0(cnt):
            if st.prove_ge0(imulc(iadd(cnt, C(0)), -1)):
                continue        # a count that is not positive repeats nothing
            rep.undecided('dashes', q, '%s: count %r' % (what, cnt))
            return
        total = iadd(total, imulc(cnt, sum({EM: 3, EN: 2}[c] for c in t)))
    if st.prove_eq(total, n):
        rep.ok('dashes', '%s: worth as many' % what)
    else:
        rep.violation('dashes', q, 'line %d: %s becomes dashes worth %s '
                      'hyphens' % (line, what, show(total)))


def show(v):
    if isinstance(v, C):
        return str(v.v)
    return ' + '.join(['%d%s' % (c, 'k' if s == ('nat', 'k', 'dashes') else
                                 'x') for s, c in v.lin] + [str(v.k)])


# ------------------------------------------------------------ running text
def parse_inline(d, shape):
    icls = inline_class(d)
    q = method(d, 'parseInline')
    return (q,) + run_on(
        d, q, S(shape), nocut=lambda info: True if info.cls is icls and
        info.name != 'processEmphasis' else None)


def running(rep, d, rules):
    """text that is no construct: only the replacements above, only with
    the option"""
    e = d.eng
    plain = ALL - SPECIAL
    # the pattern that takes a run of ordinary characters
    for shape, what in (
            ([P(('first',), cs=plain, lo=1, hi=1), P(('rest',))],
             'ordinary text'),
            (['--', P(('rest',))], 'hyphens'),
            (['...', P(('rest',))], 'periods')):
        try:
            q, me, args, res = parse_inline(d, shape)
        except Budget:
            rep.undecided('text', what, 'budget')
            continue
        subj = S(shape)
        for st, v in res:
            if isexc(v):
                continue
            on = smart_on(st)
            lits = literals(st)
            if len(lits) != 1:
                rep.undecided('text', what, 'puts %r' % (lits,))
                continue
            ops, src = ops_of(lits[0])
            extra = []
            dash = False
            for op in ops:
                if op[:1] == ('resub',) and len(op) > 2 and isinstance(
                        op[1], RX):
                    if is_dash(op[1]):
                        dash = True
                        continue
                    if is_dots(op[1]) and op[2] == C(DOTS):
                        dash = dash
                        if only_dots(op[1]):
                            continue
                    extra.append('re.sub(%r, %r)' % (op[1].pattern, op[2]))
                elif op[:1] in (('image',), ('replace',)) and [
                        x.v if isinstance(x, C) else x
                        for x in op[1:3]] == ['...', DOTS]:
                    continue
                else:
                    extra.append(' '.join(str(x) for x in op)[:80])
            changed = list(extra)
            if dash or len(ops) > len(extra):
                if on is not True:
                    changed.append('smart punctuation without the option')
            if changed:
                if not ops_known(ops):
                    rep.undecided('text', what, '; '.join(changed)[:150])
                else:
                    rep.violation('text', q, '%s: %s' % (
                        what, '; '.join(changed)[:200]))
                continue
            if on is True and what == 'hyphens' and not dash:
                if isinstance(src, C) and not (set(src.v) - set(EM + EN)):
                    rep.undecided('text', what, repr(src))
                elif isinstance(src, C) or source_span(src) is not None:
                    rep.violation('text', q, 'hyphens stay with smart '
                                  'punctuation')
                else:
                    rep.undecided('text', what, repr(src)[:100])
                continue
            sp = source_span(src)
            if sp is None and not isinstance(src, C):
                rep.undecided('text', what, repr(src)[:100])
            else:
                rep.ok('text', '%s (%s)' % (what, {
                    True: 'smart', False: 'not smart', None: 'any'}[on]))
    runs(rep, d)


def only_dots(rx):
    lang = language(rx)
    return RXM.counterexample(lang, RXM.lit('...')) is None


def ops_known(ops):
    return all(op[:1] in (('resub',), ('image',)) or op[:1] == (
        'replace',) and all(isinstance(x, (C, str)) for x in op[1:3])
        for op in ops)


def source_span(v):
    if isinstance(v, S) and len(v.p) == 1 and isinstance(v.p[0], P):
        p = v.p[0]
        u = p.uid
        if isinstance(u, tuple) and len(u) == 2 and isinstance(
                u[0], tuple) and u[0][:1] == ('slice',):
            return u
        if p.span is not None:
            return p.span
    if isinstance(v, S) and all(isinstance(p, str) or not p.imgs and
                                not p.ops for p in v.p):
        return v
    return None


def runs(rep, d):
    """a run of ordinary characters does not end within hyphens and does
    not contain quotes"""
    e = d.eng
    q = method(d, 'parseInline')
    seen = {}

    def onregex(st, rx, subject, mode, node):
        if st.stack:
            seen.setdefault(rx, (st.stack[-1], getattr(node, 'lineno', 0)))
    icls = inline_class(d)
    plain = ALL - SPECIAL
    try:
        run_on(d, q, S([P(('first',), cs=plain, lo=1, hi=1), P(('rest',))]),
               hooks={'regex': [onregex]},
               nocut=lambda info: True if info.cls is icls and
               info.name != 'processEmphasis' else None)
    except Budget:
        rep.undecided('run', q, 'budget')
        return
    for rx, (fn, line) in sorted(seen.items(), key=str):
        if is_dash(rx):
            continue
        try:
            lang = prefix_language(rx)
        except RXM.Unsupported:
            rep.undecided('run', fn, rx.pattern[:60])
            continue
        if not RXM.accepts(lang, 'a-b') or not RXM.accepts(lang, 'ab'):
            continue
        ends = RXM.conj(lang, RXM.cat(RXM.star(RXM.SIGMA), RXM.lit('-')))
        w = RXM.counterexample(RXM.cat(ends, RXM.lit('-')), lang)
        if w is not None:
            rep.violation('run', fn, 'line %d: a run of hyphens is cut in '
                          'two after %r' % (line, w[:-1][-30:]))
            continue
        w = RXM.witness(RXM.conj(lang, RXM.cat(RXM.cat(
            RXM.star(RXM.SIGMA), RXM.chrs(QUOTES)), RXM.star(RXM.SIGMA))))
        if w is not None:
            rep.violation('run', fn, 'line %d: a quote is taken for ordinary '
                          'text in %r' % (line, w))
            continue
        rep.ok('run', '%s line %d: %s' % (fn, line, rx.pattern[:60]))


def prefix_language(rx):
    p = RXM.Pattern(rx.pattern, rx.flags)
    return p.lang_full()


# ------------------------------------------------------------------ quotes
def quotes(rep, d):
    """a quote is put in the tree as one quote, whether or not it is paired
    later"""
    for c in '\'"':
        try:
            q, me, args, res = parse_inline(d, [c, P(('rest',))])
        except Budget:
            rep.undecided('quotes', c, 'budget')
            continue
        for st, v in res:
            if isexc(v):
                continue
            on = smart_on(st)
            lits = literals(st)
            pos = st.sy.get((me, 'pos'))
            if not all(strconst(x) for x in lits):
                rep.undecided('quotes', q, '%s becomes %r' % (c, lits))
                continue
            got = ''.join(x.v for x in lits)
            if not isinstance(pos, (C, I)):
                rep.undecided('quotes', q, '%s: position %r' % (c, pos))
                continue
            if not st.prove_eq(pos, C(1)):
                if st.prove_le(C(2), pos) or isinstance(pos, C):
                    rep.violation('quotes', q, '%s: %s characters are '
                                  'consumed for %r' % (c, show(pos), got))
                else:
                    rep.undecided('quotes', q, '%s: position %r' % (c, pos))
                continue
            if on is True:
                if got not in (OPEN[c], CLOSE[c]):
                    rep.violation('quotes', q, '%s becomes %r with smart '
                                  'punctuation' % (c, got))
                    continue
            elif got != c:
                rep.violation('quotes', q, '%s becomes %r without smart '
                              'punctuation' % (c, got))
                continue
            bad = False
            for oid, o in st.heap.items():
                if o.kind == 'dict' and isinstance(o.items, dict) and \
                   'cc' in o.items and 'node' in o.items:
                    cc = o.items['cc']
                    if strconst(cc) and cc.v != c:
                        bad = True
                        rep.violation('quotes', q, '%s is recorded as %r' % (
                            c, cc.v))
                    if on is not True:
                        bad = True
                        rep.violation('quotes', q, '%s is recorded for '
                                      'pairing without smart punctuation' % c)
            if not bad:
                rep.ok('quotes', '%s %s' % (c, {
                    True: 'smart', False: 'not smart', None: 'any'}[on]))


def emphasis(rep, d):
    """pairing of quotes: each becomes a curly quote of its own kind"""
    e = d.eng
    q = method(d, 'processEmphasis')
    if q is None:
        rep.undecided('pairs', 'processEmphasis', 'not found')
        return
    seen = {}

    def onset(st, obj, attr, value, node, o):
        if attr != 'literal' or not isinstance(obj, Sy) or not obj.k or \
           obj.k[-1] not in ('.[node]', '[node]'):
            return
        base = tuple(obj.k[:-1])
        cc, partner = None, None
        for k, n in st.nar.items():
            if isinstance(k, tuple) and k[-1:] in (('.[cc]',), ('[cc]',)):
                cs = n.cs
                if n.allow is not None:
                    cs = cs & CharSet.of(''.join(
                        x for x in n.allow if len(x) == 1))
                if k[:-1] == base:
                    cc = cs if cc is None else cc & cs
                elif cs.size() <= 3:
                    partner = cs if partner is None else partner | cs
        if (cc is None or cc.size() > 3) and partner is not None:
            # the other delimiter of the pair is of the same kind
            cc = partner
        can, pcan = {}, False
        for k, v in st.facts.items():
            if isinstance(k, tuple) and k[:1] == ('b',) and \
               isinstance(k[1], tuple) and isinstance(k[1][-1], str):
                if k[1][:-1] == base:
                    can[k[1][-1].strip('.[]')] = v
                elif k[1][-1].strip('.[]') == 'can_close' and v:
                    pcan = True
        if pcan and not can and partner is not None:
            can['can_open'] = True      # the other one closes the pair
        key = (node.lineno, repr(value), str(cc), tuple(sorted(
            can.items(), key=str)))
        seen.setdefault(key, (node.lineno, value, cc, can, st.stack[-1]))
    with Observed(e, {'setattr': [onset]}):
        try:
            d.run(q)
        except Budget:
            rep.undecided('pairs', q, 'budget')
            return
    n = 0
    for key in sorted(seen):
        line, value, cc, can, fn = seen[key]
        curly = strconst(value) and value.v in CURLY and len(value.v) == 1
        if not curly:
            if cc is None or cc.size() > 1000:
                rep.undecided('pairs', fn, 'line %d: a text is set, kind of '
                              'delimiter not known' % line)
            elif cc & QUOTES:
                rep.violation('pairs', fn, 'line %d: a quote becomes %r' % (
                    line, value))
            else:
                rep.ok('pairs', 'line %d: no quote' % line)
            continue
        n += 1
        if cc is None or cc.size() > 1000:
            rep.undecided('pairs', fn, 'line %d: %s for a delimiter of '
                          'unknown kind' % (line, value.v))
            continue
        wrong = [c for c in '\'"*_' if c in cc and value.v not in (
            OPEN.get(c), CLOSE.get(c))]
        if wrong:
            rep.violation('pairs', fn, 'line %d: %s becomes %s' % (
                line, wrong[0], value.v))
            continue
        opening = value.v in OPEN.values()
        if opening and can.get('can_open') is not True and \
           can.get('can_close') is True or not opening and can.get(
               'can_close') is not True and can.get('can_open') is True:
            rep.violation('pairs', fn, 'line %d: the %s quote of a pair '
                          'becomes %s' % (
                              line, 'closing' if opening else 'opening',
                              value.v))
            continue
        rep.ok('pairs', 'line %d: %s' % (line, value.v))
    if not n:
        rep.undecided('pairs', q, 'no quotes found')
