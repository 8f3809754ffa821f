"""Quick tests that skip work accept every text in which the work could find
something.

`start`: the first characters with which some block start succeeds, against
those with which the block starts are tried at all.
`run`: the characters that have a parser of their own, against those a run of
ordinary characters may hold.
`guard`: where a text is returned or stored as it is because a quick test
failed, no match of the substitution applied otherwise fits in what the test
leaves over.
"""
import ast

from ..values import *
from ..charset import CharSet, ALL, EMPTY
from ..interp import AnalysisError, Budget
from ..models import strconst, isstr, isintv
from .. import rx as RXM
from . import parser as PA
from .text import Observed, run_on, inline_class, method, char_of, literals
from .smart import ops_of, language

WS = CharSet.of(' \t')
LINE = ALL - CharSet.of('\n\r')


def check_c15(rep, tier):
    d = PA.solved(rep)
    start(rep, d)
    run(rep, d)
    guard(rep, d)
    rep.require('start', 0)


# -------------------------------------------------------------------- start
def line_root(d):
    """the functions that store the current line"""
    return sorted(d.touched.roots(('setattr', 'current_line')))


def is_node(e, d, v):
    td = getattr(v, 'td', None)
    return isinstance(v, R) or td is not None and td.objs and \
        d.nodecls in td.objs


def block_values(d):
    from .verbatim import block_classes
    return set(c.qual for c in block_classes(d).values())


def start(rep, d):
    e = d.eng
    own = block_values(d)
    fns, lost = {}, []

    loops = {}

    def onloop(st, node):
        if len(st.stack) <= 2:
            loops.setdefault(id(node), (node, []))[1].append(st.copy())

    def oncall(st, fn, args, kw, node):
        i = fn.info
        if len(args) != 2 or kw or getattr(args[0], 'k', None) != \
           d.parser.k or not is_node(e, d, args[1]) or (
               i.cls is not None and (i.cls.qual in own or
                                      i.cls is d.k.info)):
            return
        if len(st.stack) > 2:
            return
        fns[i.qual] = fn
        # tried one after the other: what holds before the first
        around = [x for x in loops.values() if node is not None and any(
            y is node for y in ast.walk(x[0]))]
        around.sort(key=lambda x: sum(1 for _ in ast.walk(x[0])))
        inner = around[0] if around else None
        if inner is None:
            if ('tried',) in st.events():
                return
            st.event(('tried',))
        for s in inner[1] if inner is not None else [st]:
            k = id(s) if inner is not None else None
            if k in done:
                continue
            done.add(k)
            done.discard(None)
            keep.append(s)
            c, blank = first_char(e, d, s)
            tried[0] |= c
            tried[1] |= blank
            tried[2].append(line_lang(e, d, s))
    done, keep = set(), []
    tried = [EMPTY, False, []]
    heads = {}

    def onover(eng, n, st, head, body, orelse):
        if not heads.get('probe'):
            heads[id(n)] = (head, body)
        return None

    def ondone(st, node, head, backs, exits, entry, gens):
        if heads.get('probe') or len(st.stack) > 2 or \
           id(node) not in heads:
            return
        heads['probe'] = True
        merge, hooks = e.MERGE_AT, e.hooks
        loops.clear()
        try:
            e.MERGE_AT = None
            e.hooks = {'call': [oncall], 'loop': [onloop]}
            e.run_body(heads[id(node)][0], heads[id(node)][1], head.copy())
        finally:
            e.MERGE_AT, e.hooks = merge, hooks
            heads['probe'] = False
    for q in line_root(d):
        with Observed(e, {'loop_override': [onover],
                          'loop_done': [ondone]}):
            try:
                d.run(q)
            except Budget:
                lost.append(q)
    for q in lost:
        rep.undecided('start', q, 'budget')
        return
    if not fns:
        rep.undecided('start', 'block starts', 'no block start found')
        return
    for q, fn in sorted(fns.items()):
        try:
            ok = succeeds(e, d, fn)
        except Budget:
            rep.undecided('start', q, 'budget')
            continue
        got, blank, langs = tried
        for what, cs in ok:
            if cs is None:
                rep.undecided('start', q, 'first character not known')
                continue
            miss = cs - got
            if what == 'blank':
                if blank:
                    rep.ok('start', '%s: blank lines' % q)
                else:
                    rep.undecided('start', q, 'blank lines')
                continue
            if miss:
                rep.violation('start', q, 'succeeds on a line that starts '
                              'with %r, for which it is never tried' %
                              miss.sample())
            else:
                rep.ok('start', '%s: tried for %s' % (q, cs))
                longer(rep, e, d, q, fn, cs, RXM.alt(*langs))


def unindented(e, d, st):
    """[(state, line, position of its text)] where it is not indented"""
    out = []
    for s, ind in e.getattr(st.copy(), d.parser, 'indented', None):
        for s1, r in e.truth(s, ind):
            if r:
                continue
            for s2, ln in e.getattr(s1, d.parser, 'current_line', None):
                for s3, nn in e.getattr(s2, d.parser, 'next_nonspace',
                                        None):
                    if not isintv(nn) or s3.assume_ge0(nn):
                        out.append((s3, ln, nn))
    return out


def line_lang(e, d, st):
    """the lines, from their text on, on which the path may be taken"""
    out = RXM.chrs(EMPTY)
    for s, ln, nn in unindented(e, d, st):
        if not isstr(ln) or not isintv(nn):
            return RXM.SIGMA
        for s2, v in e.getslice(s, ln, nn, NONE, NONE, None):
            if not isstr(v):
                return RXM.SIGMA
            out = RXM.alt(out, leftover(e, s2, v, None)[0])
    return out


def chars(e, d):
    """the characters lines are made of"""
    td = (e.types.get(d.k.info.qual) or {}).get('current_line')
    if td is not None and td.str:
        return LINE & td.str[0]
    return LINE


def longer(rep, e, d, q, fn, cs, tried):
    """the same for short lines as a whole"""
    if RXM.subset(RXM.SIGMA, tried):
        return
    if cs.size() > 40:
        rep.undecided('start', q, 'short lines')
        return
    for c in cs.chars():
        for ps in ([c], [c, P(('second',), cs=chars(e, d), lo=1, hi=1),
                         P(('rest',), cs=chars(e, d))]):
            for s, v in attempt(e, d, fn, S(ps) if len(ps) > 1 else C(c)):
                if isexc(v):
                    continue
                for s2, r in e.truth(s, v):
                    if not r:
                        continue
                    lang = RXM.lit(c)
                    if len(ps) > 1:
                        if opaque(s2, (('second',), ('rest',))):
                            continue
                        sec = ps[1]
                        k = e.rp(s2, sec)
                        k = CharSet.of(k) if isinstance(k, str) else \
                            e.outcs(k) & char_of(s2, sec.uid)
                        rest = leftover(e, s2, S([ps[2]]), ps[2].uid)
                        lang = RXM.cat(lang, RXM.cat(RXM.chrs(k), rest[0]))
                        lang, _, op = facts_on(e, s2, S(ps), lang, ())
                    w = RXM.counterexample(lang, tried)
                    if w is not None:
                        rep.violation('start', q, 'succeeds on the line %r, '
                                      'for which it is never tried' % w)
                        return
    rep.ok('start', '%s: tried for short lines' % q)


def opaque(st, uids):
    """does the path know more of these than the language tells?"""
    for u in uids:
        for k in st.facts:
            if isinstance(k, tuple) and k[0] != 'rx' and mentions(k, u):
                return True
        for k in st.nar:
            if k != u and k != ('at', u, C(0)) and mentions(k, u):
                return True
    return False


def facts_on(e, st, v, lang, uids):
    """narrow the language by the patterns the path matched against it"""
    tested = op = False
    for k, r in st.facts.items():
        if not isinstance(k, tuple):
            continue
        if k[0] == 'rx' and len(k) == 4 and ident(k[3]) == ident(v):
            tested = True
            try:
                m = RXM.Pattern(k[1].pattern, k[1].flags).lang(k[2])
                lang = RXM.conj(lang, m if r else RXM.neg(m))
                continue
            except RXM.Unsupported:
                pass
        elif not any(mentions(k, u) for u in uids):
            continue
        op = True
    return lang, tested, op


def first_char(e, d, st):
    """(characters that may start the text of the line, may it be blank)
    where the line may be unindented"""
    out, blank = EMPTY, False
    for s, ln, nn in unindented(e, d, st):
        if not isstr(ln) or not isintv(nn):
            return ALL, True
        for s2, c in e.str_index(s, ln, nn, None):
            if isexc(c):
                blank = True
                continue
            if not isstr(c):
                return ALL, True
            for p in parts(c):
                p = e.rp(s2, p) if isinstance(p, P) else p
                out = out | (CharSet.of(p) if isinstance(p, str)
                             else e.outcs(p))
    return out, blank


def attempt(e, d, fn, line):
    """outcomes of a block start on an unindented line"""
    st = e.new_state()
    e.steps = 0
    k = d.parser.k
    # (a line without spaces in front is enough)
    for a, v in (('current_line', line), ('next_nonspace', C(0)),
                 ('column', C(0)), ('next_nonspace_column', C(0)),
                 ('indent', C(0)), ('indented', FALSE), ('offset', C(0)),
                 ('blank', C(strconst(line) and not line.v.strip()))):
        st.sy[(k, a)] = v
    block = Sy(('block',), objtd(d.nodecls))
    with Observed(e, {}, lambda info: info.cls is not fn.info.cls and
                  info.cls is not None):
        old = e.MERGE_AT
        try:
            e.MERGE_AT = None
            return e.call_fn(st, fn, [d.parser, block], {}, None)
        finally:
            e.MERGE_AT = old


def succeeds(e, d, fn):
    """how the unindented lines on which a block start succeeds begin"""
    out = []
    c = P(('first',), cs=LINE - WS, lo=1, hi=1)
    for what, line in (('text', S([c, P(('rest',), cs=LINE)])),
                       ('blank', C(''))):
        cs, n = EMPTY, 0
        for s, v in attempt(e, d, fn, line):
            if isexc(v):
                continue
            for s2, r in e.truth(s, v):
                if not r:
                    continue
                n += 1
                if what == 'text':
                    p = e.rp(s2, c)
                    cs = cs | (CharSet.of(p) if isinstance(p, str)
                               else e.outcs(p) & char_of(s2, c.uid))
        if n:
            wide = what == 'text' and CharSet.of('aZ \u4e00') - WS <= cs
            out.append((what, None if wide else cs))
    return out


# ---------------------------------------------------------------------- run
def run(rep, d):
    e = d.eng
    icls = inline_class(d)
    q = method(d, 'parseInline')
    first = P(('first',), cs=ALL, lo=1, hi=1)
    shape = S([first, P(('rest',))])
    calls = {}

    def oncall(st, fn, args, kw, node):
        i = fn.info
        if i.cls is not icls or st.stack[:1] != (q,) or any(
                f in calls for f in st.stack) or not any(
                    is_node(e, d, a) for a in args):
            return
        p = e.rp(st, first)
        cs = CharSet.of(p) if isinstance(p, str) else \
            e.outcs(p) & char_of(st, first.uid)
        from .smart import smart_on
        on = smart_on(st)
        for o in (True, False):
            if on in (o, None):
                calls.setdefault(i.qual, {})
                calls[i.qual][o] = calls[i.qual].get(o, EMPTY) | cs
    try:
        run_on(d, q, shape, hooks={'call': [oncall]})
    except Budget:
        rep.undecided('run', q, 'budget')
        return
    plain = CharSet.of('Zz\u4e00')
    text = [f for f in calls if any(plain <= c for c in calls[f].values())]
    own = {True: EMPTY, False: EMPTY}
    for f in calls:
        if f not in text:
            for o, c in calls[f].items():
                own[o] = own[o] | c
    if not text or not own[False] or plain <= own[False]:
        rep.undecided('run', q, 'characters with a parser of their own')
        return
    for f in sorted(text):
        cs = EMPTY
        for c in calls[f].values():
            cs = cs | c
        cs = cs - own[True] - own[False]
        sh = S([P(('first',), cs=cs, lo=1, hi=1), P(('rest',))])
        try:
            if f not in d.fns:
                from .verbatim import adopt
                if not adopt(d, f):
                    rep.undecided('run', f, 'not a method of subject and '
                                  'node')
                    continue
            me, args, res = run_on(d, f, sh)
        except Budget:
            rep.undecided('run', f, 'budget')
            continue
        from .smart import smart_on
        for st, v in res:
            pos = st.sy.get((me, 'pos'))
            if isexc(v) or not isintv(pos):
                continue
            on = smart_on(st)
            hidden = own[True] & own[False] if on is None else own[on]
            taken = EMPTY
            for w in literals(st):
                w = ops_of(w)[1]
                for p in parts(w) if isstr(w) else ():
                    p = e.rp(st, p) if isinstance(p, P) else p
                    taken = taken | (CharSet.of(p) if isinstance(p, str)
                                     else e.outcs(p))
            if not taken & hidden:
                rep.ok('run', '%s: a run of %s' % (f, taken))
            elif plain <= hidden:
                rep.undecided('run', f, 'characters with their own parser')
            elif ALL - taken:
                rep.violation('run', f, 'a run of ordinary text may hold %r, '
                              'which has a parser of its own' % (
                                  taken & hidden).sample())
            else:
                rep.undecided('run', f, 'any text is taken')


# -------------------------------------------------------------------- guard
def patterns_of(op):
    """language of the texts in which the operation finds something"""
    try:
        if op[0] == 'resub' and isinstance(op[1], RX):
            return RXM.Pattern(op[1].pattern, op[1].flags).lang('search')
        if op[0] == 'replace' and strconst(op[1]) and op[1].v:
            return RXM.cat(RXM.SIGMA, RXM.cat(RXM.lit(op[1].v), RXM.SIGMA))
        if op[0] == 'image' and op[1]:
            return RXM.cat(RXM.SIGMA, RXM.cat(RXM.lit(op[1]), RXM.SIGMA))
    except RXM.Unsupported:
        pass
    return None


def mentions(x, uid, n=0):
    if x == uid:
        return True
    if n > 12:
        return False
    if isinstance(x, (tuple, list, frozenset)):
        return any(mentions(y, uid, n + 1) for y in x)
    if isinstance(x, S):
        return any(mentions(p, uid, n + 1) for p in x.p)
    if isinstance(x, P):
        return mentions(x.uid, uid, n + 1) or x.span is not None and \
            mentions(x.span[0], uid, n + 1)
    if isinstance(x, Sy):
        return mentions(x.k, uid, n + 1)
    if isinstance(x, I):
        return any(mentions(y, uid, n + 1) for y, _ in x.lin)
    return False


def leftover(e, st, v, uid):
    """(texts the path may see, was it tested, other tests)"""
    lang = e.text_lang(st, v)
    tested = not RXM.subset(RXM.SIGMA, lang)
    lang, t, op = facts_on(e, st, v, lang, () if uid is None else (uid,))
    return lang, tested or t, op


def ident(v):
    """the text, without what the path knows of it"""
    if isinstance(v, S):
        return str([p if isinstance(p, str) else p.uid for p in v.p])
    return str(v)


def compare(rep, e, f, outs, uid):
    """outs: [(state, value)] of one place"""
    seen = []
    for st, v in outs:
        if isstr(v):
            seen.append((st, v) + tuple(ops_of(v)))
    subs = {}
    for st, v, ops, src in seen:
        for i, op in enumerate(ops):
            if op[0] in ('resub', 'replace', 'image'):
                subs.setdefault((str(ops[i + 1:]), ident(src)), {})[
                    str(op)] = op
            if op[0] == 'image' and all(o[0] == 'image' for o in ops):
                subs.setdefault(('[]', ident(src)), {})[str(op)] = op
    for st, v, ops, src in seen:
        todo = subs.get((str(ops), ident(src)), {})
        for _, op in sorted(todo.items()):
            want = patterns_of(op)
            what = '%s: %s' % (f, getattr(op[1], 'pattern', op[1]))
            if want is None:
                rep.undecided('guard', what, 'pattern')
                continue
            lang, tested, opaque = leftover(e, st, v, uid)
            if not tested:
                continue
            w = RXM.witness(RXM.conj(lang, want))
            if w is None:
                rep.ok('guard', what)
            elif opaque:
                rep.undecided('guard', what, 'other tests')
            else:
                rep.violation('guard', f, 'the quick test lets %r pass, in '
                              'which %r would be found' % (
                                  w, getattr(op[1], 'pattern', op[1])))


def guard(rep, d):
    e = d.eng
    for q, i in sorted(e.funcs.items()):
        if i.cls is not None or isinstance(i.node, ast.Lambda) or \
           q != '%s.%s' % (i.mod, i.name) or not i.params or \
           not any(isinstance(x, ast.Attribute) for x in ast.walk(i.node)):
            continue
        f = e.module_attr(i.mod, i.name)
        if not isinstance(f, Fn):
            continue
        for n, p in enumerate(i.params):
            if len(i.params) > 3:
                break
            st = e.new_state()
            e.steps = 0
            text = ('text', p)
            args = [S([P(text)]) if m == n else TOP
                    for m in range(len(i.params))]
            old, e.BUDGET = e.BUDGET, 3000
            try:
                with Observed(e, {}, lambda info: False):
                    res = e.call_fn(st, f, args, {}, None)
            except (Budget, AnalysisError):
                continue
            finally:
                e.BUDGET = old
            compare(rep, e, q, [(s, v) for s, v in res if not isexc(v)],
                    text)
    # the characters replaced in each line
    stores = {}
    line = ('line',)

    def onset(st, obj, attr, value, node, o):
        if attr == 'current_line' and getattr(obj, 'k', None) == \
           d.parser.k:
            stores.setdefault(st.stack[-1], []).append((st.copy(), value))

    def prep(st, args):
        if len(args) == 2:
            args[1] = S([P(line)])
    for q in line_root(d):
        with Observed(e, {'setattr': [onset]}):
            try:
                d.run(q, prep)
            except Budget:
                pass
    for f, outs in sorted(stores.items()):
        compare(rep, e, f, outs, line)
