"""What the parser does to text: escapes, smart punctuation, verbatim
contents.

Functions are interpreted on subjects of a known shape with symbolic
characters (a backslash, any one character, any rest); what is put in the
tree is compared with what was consumed on every path.
"""
import ast

from ..values import *
from ..charset import CharSet, ALL, EMPTY
from ..interp import AnalysisError, Budget
from ..models import strconst, isstr
from .. import rx as RXM
from . import parser as PA

ESC = CharSet.of('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~')
NL = CharSet.of('\n')
STOP = CharSet.of(' \t\n\x0b\x0c\r')


class Observed(object):
    """temporarily other hooks / cut on the shared engine"""

    def __init__(self, eng, hooks=None, cut=None):
        self.eng, self.hooks, self.cut = eng, hooks or {}, cut

    def __enter__(self):
        e = self.eng
        self.saved = (e.hooks, e.cut, e.infer)
        e.hooks = self.hooks
        if self.cut is not None:
            e.cut = self.cut
        e.infer = False
        return self

    def __exit__(self, *a):
        e = self.eng
        e.hooks, e.cut, e.infer = self.saved


def inline_class(d):
    """the class whose object holds the subject while inlines are parsed"""
    for q in sorted(d.fns):
        if q.endswith('.parseInline'):
            return d.fns[q].info.cls
    raise AnalysisError('parseInline not found')


def method(d, name):
    c = inline_class(d)
    for q, f in sorted(d.fns.items()):
        if f.info.cls is c and f.info.name == name:
            return q
    return None


def run_on(d, q, subject, pos=0, extra=None, hooks=None, nocut=None,
           fields=None):
    """interpret an inline method on a given subject -> (self key, args,
    outcomes); events ('literal'|'pos'|..., value) are recorded in order"""
    e = d.eng
    cut = e.cut
    icls = inline_class(d)

    def keep(info):
        if nocut is not None:
            r = nocut(info)
            if r is not None:
                return not r
        return cut(info)

    def onset(st, obj, attr, value, node, o):
        st.event(('set', attr, value, obj))
    hk = dict(hooks or {})
    hk.setdefault('setattr', []).append(onset)
    key = []

    def prep(st, args):
        me = args[0]
        key.append(me.k)
        st.sy[(me.k, 'subject')] = subject
        st.sy[(me.k, 'pos')] = C(pos)
        for a, v in (fields or {}).items():
            st.sy[(me.k, a)] = v
        if extra is not None:
            extra(st, args)
    with Observed(e, hk, keep):
        args, res = d.run(q, prep)
    return key[0], args, res


def char_of(st, uid):
    """what the path knows of a single-character piece"""
    cs = ALL
    for k, n in st.nar.items():
        if k == uid or k == ('at', uid, C(0)) or (
                isinstance(k, tuple) and len(k) > 1 and k[0] == 'at' and
                k[1] == uid):
            cs = cs & n.cs
            if n.allow is not None:
                cs = cs & CharSet.of(''.join(
                    x for x in n.allow if len(x) == 1))
    return cs


def is_char(v, uid):
    """is the value exactly that character?"""
    ps = parts(v)
    return ps is not None and len(ps) == 1 and isinstance(ps[0], P) and \
        not ps[0].imgs and not ps[0].ops and (
            ps[0].uid == uid or ps[0].uid == ('at', uid, C(0)))


def known(v):
    """made of constant text and single characters of the subject"""
    ps = parts(v)
    return ps is not None and all(
        isinstance(x, str) or is_char(S([x]), ('next',)) for x in ps)


def literals(st):
    """texts put in new text nodes on the path, in order"""
    out = []
    for ev in st.events():
        if ev[0] == 'set' and ev[1] == 'literal':
            v = ev[2]
            if not (isinstance(v, C) and v.v is None):
                out.append(v)
    return out


# --------------------------------------------------------------------- C25
def escapes_in(tree, flags):
    """character sets that patterns allow after a literal backslash"""
    out = []
    items = list(tree)
    for i, (op, av) in enumerate(items):
        name = str(op)
        if name == 'LITERAL' and av == 92 and i + 1 < len(items):
            o2, a2 = items[i + 1]
            n2 = str(o2)
            if n2 == 'SUBPATTERN' and len(a2[-1]) == 1:
                o2, a2 = a2[-1][0]
                n2 = str(o2)
            if n2 in ('IN', 'ANY', 'NOT_LITERAL'):
                out.append(RXM.item_charset(n2, a2, flags))
        if name == 'SUBPATTERN':
            out += escapes_in(av[-1], RXM._subflags(flags, av))
        elif name == 'BRANCH':
            for b in av[1]:
                out += escapes_in(b, flags)
        elif name in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            out += escapes_in(av[2], flags)
        elif name in ('ASSERT', 'ASSERT_NOT'):
            out += escapes_in(av[1], flags)
        elif name == 'ATOMIC_GROUP':
            out += escapes_in(av, flags)
    return out


def pattern_tree(p, fl):
    import re
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp
    t = sp.parse(p, fl)
    return t, t.state.flags if hasattr(t, 'state') else fl


def check_c25(rep, tier):
    from .regexes import patterns
    d = PA.solved(rep)
    e = d.eng
    for mod, fn, line, p, fl in patterns(e)[0]:
        if '.render' in mod:
            continue
        try:
            t, fl2 = pattern_tree(p, fl)
            sets = escapes_in(t, fl2)
        except Exception as ex:
            rep.undecided('pattern', '%s:%s line %d' % (mod, fn, line),
                          repr(ex)[:100])
            continue
        for cs in sets:
            what = '%s:%s line %d' % (mod, fn, line)
            asc = cs & CharSet([(0, 127)])
            if cs == ESC:
                rep.ok('pattern', what)
            elif not (ESC - cs) and cs.size() > 1000:
                rep.ok('pattern', what + ' (any character)')
            else:
                rep.violation('pattern', '%s:%s %s' % (mod, fn, p[:40]),
                              'line %d: a backslash escapes %r here, '
                              'missing %r, too many %r' % (
                                  line, asc, ESC - cs, cs - ESC))
    text_escape(rep, d)
    replaced(rep, d)
    scan(rep, d)
    once(rep, d)
    rep.require('pattern', 1)


def text_escape(rep, d):
    """a backslash and any character in running text"""
    q = method(d, 'parseInline')
    icls = inline_class(d)
    nxt = P(('next',), lo=1, hi=1)
    try:
        me, args, res = run_on(
            d, q, S(['\\', nxt, P(('rest',))]),
            nocut=lambda info: True if info.cls is icls and
            info.name != 'processEmphasis' else None)
    except Budget:
        rep.undecided('text', q, 'budget')
        return
    covered = EMPTY
    for st, v in res:
        if isexc(v):
            rep.undecided('text', q, 'raises %s' % v.name)
            continue
        cs = char_of(st, ('next',))
        covered = covered | cs
        lits = literals(st)
        pos = st.sy.get((me, 'pos'))
        if not (isinstance(pos, C) and isinstance(pos.v, int)):
            rep.undecided('text', q, 'position %r' % (pos,))
            continue
        if len(lits) == 1 and is_char(lits[0], ('next',)):
            if cs - ESC:
                rep.violation('text', q, 'a backslash before %r disappears'
                              % (cs - ESC))
            else:
                rep.ok('text', 'escape of %r' % cs)
        elif len(lits) == 1 and strconst(lits[0]) and lits[0].v == '\\':
            if cs & ESC:
                rep.violation('text', q, 'a backslash before %r stays' % (
                    cs & ESC))
            elif pos.v != 1:
                rep.violation('text', q, 'a literal backslash consumes %d '
                              'characters' % pos.v)
            else:
                rep.ok('text', 'literal backslash before %r' % cs)
        elif not lits and not (cs - NL):
            rep.ok('text', 'hard line break')
        elif lits and all(strconst(x) for x in lits) and not (
                cs & ESC) and ''.join(x.v for x in lits) == '\\':
            rep.ok('text', 'literal backslash before %r' % cs)
        elif lits and all(strconst(x) or is_char(x, ('next',)) or
                          known(x) for x in lits):
            rep.violation('text', q, 'a backslash before %r becomes %r' % (
                cs, lits))
        else:
            rep.undecided('text', q, 'puts %r for %r' % (lits, cs))
    if ESC - covered and not any(isexc(v) for s, v in res):
        rep.undecided('text', q, 'no path for %r' % (ESC - covered))


BSANY = RXM.cat(RXM.lit('\\'), RXM.SIGMA)
BSESC = RXM.cat(RXM.lit('\\'), RXM.chrs(ESC))


def is_escape_rx(rx):
    try:
        return RXM.accepts(RXM.Pattern(rx.pattern, rx.flags).lang_full(),
                           '\\!')
    except RXM.Unsupported:
        return False


def replaced(rep, d):
    """replacement of escapes by a regular expression"""
    e = d.eng
    subs = {}

    def onsub(st, rx, repl, subject, node):
        if is_escape_rx(rx):
            subs.setdefault((rx, repl if not isinstance(repl, Fn) else
                             repl.info.qual), (
                st.copy(), rx, repl, st.stack[-1] if st.stack else '?',
                getattr(node, 'lineno', 0)))
    with Observed(e, {'resub': [onsub]}):
        for q in d.touched.roots('resub'):
            try:
                d.run(q)
            except Budget:
                pass
    if not subs:
        rep.undecided('replacement', 'escapes', 'no replacement found')
    for st, rx, repl, q, line in subs.values():
        what = '%s line %d' % (q, line)
        lang = RXM.conj(RXM.Pattern(rx.pattern, rx.flags).lang_full(),
                        BSANY)
        w = RXM.counterexample(lang, BSESC)
        w2 = RXM.counterexample(BSESC, lang)
        if w is not None:
            rep.violation('replacement', q, 'line %d: %r is treated as an '
                          'escape' % (line, w))
            continue
        if w2 is not None:
            rep.violation('replacement', q, 'line %d: the escape %r is not '
                          'replaced' % (line, w2))
            continue
        rep.ok('replacement', what + ': language')
        if strconst(repl):
            if repl.v not in ('\\1', '\\g<1>'):
                rep.undecided('replacement', what, 'template %r' % repl.v)
            continue
        if not isinstance(repl, (Fn, BM)):
            rep.undecided('replacement', what, repr(repl)[:80])
            continue
        subj = S(['\\', P(('next',), cs=ESC, lo=1, hi=1)])
        m = MT(rx, subj, 'search', ('c25',), C(0), C(2))
        with Observed(e):
            outs = e.call(st.copy(), repl, [m], {}, None)
        for s, v in outs:
            cs = char_of(s, ('next',)) & ESC
            if not cs:
                continue
            if isexc(v):
                rep.violation('replacement', q, 'line %d: replacing the '
                              'escape of %r raises %s' % (line, cs, v.name))
            elif is_char(e.nv(s, v), ('next',)):
                rep.ok('replacement', what + ': result')
            elif parts(v) is None:
                rep.undecided('replacement', what, repr(v)[:80])
            elif any(isinstance(x, P) and x.ops for x in parts(v)):
                rep.violation('replacement', q, 'line %d: the escape of %r '
                              'is replaced by %r' % (line, cs, v))
            else:
                rep.violation('replacement', q, 'line %d: the escape of %r '
                              'is replaced by %r' % (line, cs, v))


def scan(rep, d):
    """loops over the characters of a destination: an escaped character is
    passed together with its backslash"""
    e = d.eng
    icls = inline_class(d)
    for q in sorted(d.fns):
        f = d.fns[q]
        if f.info.cls is not icls or len(f.info.params) != 1 or not any(
                isinstance(x, ast.Constant) and x.value == '\\'
                for x in ast.walk(f.info.node)):
            continue
        found = []

        def once(eng, n, st, head, body, orelse):
            if found or st.stack[-1] != q:
                return None
            p = st.sy.get((key[0], 'pos'))
            if not (isinstance(p, C) and p.v == 0):
                return None
            found.append(n)
            backs, exits = eng.run_body(head, body, st.copy())
            for s in backs:
                judge(s, n, head, body)
            return None
        key = []

        def judge(s, n, head, body):
            pos = s.sy.get((key[0], 'pos'))
            cs = char_of(s, ('next',))
            if not isinstance(pos, C):
                rep.undecided('scan', q, 'position %r' % (pos,))
            elif pos.v == 2 and (cs - ESC) & STOP:
                rep.violation('scan', q, 'line %d: passes %r with the '
                              'backslash before it' % (
                                  n.lineno, (cs - ESC) & STOP))
            elif pos.v == 1 and ')' in cs:
                # does the next turn take the escaped ) for an end?
                backs, exits = e.run_body(head, body, s.copy())
                stop = [t for t, v in exits if not isexc(v) and
                        ')' in char_of(t, ('next',)) and
                        t.sy.get((key[0], 'pos')) == C(1)]
                if stop and not [t for t in backs if ')' in char_of(
                        t, ('next',))]:
                    rep.violation('scan', q, 'line %d: a backslash does '
                                  'not escape ) here' % n.lineno)
                else:
                    rep.undecided('scan', q, 'escapes in two turns')
            elif pos.v in (1, 2):
                rep.ok('scan', '%s: %r' % (q, cs))
            else:
                rep.undecided('scan', q, 'position %r' % (pos,))
        try:
            run_on(d, q, S(['\\', P(('next',), lo=1, hi=1), P(('rest',))]),
                   extra=lambda st, args: key.append(args[0].k),
                   hooks={'loop_override': [once]})
        except Budget:
            rep.undecided('scan', q, 'budget')


def esc_count(v):
    """how often an escape replacement was applied (nesting depth)"""
    if isinstance(v, P):
        return esc_count(v.uid)
    if isinstance(v, RX):
        return 0
    if isinstance(v, V):
        return max([esc_count(getattr(v, f)) for f in v.fields] or [0])
    if isinstance(v, (tuple, frozenset)):
        n = 0
        if isinstance(v, tuple) and len(v) >= 2 and v[0] == 'resub' and \
           isinstance(v[1], RX) and is_escape_rx(v[1]):
            n = -1
        r = max([esc_count(x) for x in v] or [0])
        # derived pieces are (('resub', rx, repl), subject)
        if isinstance(v, tuple) and len(v) == 2 and isinstance(
                v[0], tuple) and v[0][:1] == ('resub',) and isinstance(
                    v[0][1], RX) and is_escape_rx(v[0][1]):
            return 1 + esc_count(v[1])
        return max(r, 0)
    return 0


def has(v, name):
    if isinstance(v, P):
        return has(v.uid, name)
    if isinstance(v, V):
        return any(has(getattr(v, f), name) for f in v.fields)
    if isinstance(v, (tuple, frozenset)):
        return v[:1] == (name,) if isinstance(v, tuple) and v[:1] == (
            name,) else any(has(x, name) for x in v)
    return False


def classify(e, st, v):
    """'const' | 'plain' (no backslash) | 'quoted' | 'once' | 'twice' |
    'raw' | None"""
    v = e.nv(st, v)
    if strconst(v) or isinstance(v, C):
        return 'const'
    ps = parts(v)
    if ps is None:
        if isinstance(v, Sy) and v.td.str is not None:
            return 'twice' if 'esc2' in v.td.str[3] else 'once' if \
                'esc' in v.td.str[3] else 'raw' if v.td.str[3] else None
        return None
    worst = 'const'
    order = ('const', 'plain', 'quoted', 'once', 'raw', 'twice')
    for p in ps:
        if isinstance(p, str):
            continue
        p = e.rp(st, p)
        if isinstance(p, str):
            continue
        n = esc_count(p)
        if n >= 2 or 'esc2' in p.labels:
            k = 'twice'
        elif n == 1 or 'esc' in p.labels:
            k = 'once'
        elif has(p, 'quote'):
            k = 'quoted'
        elif '\\' not in e.outcs(p):
            k = 'plain'
        elif p.labels:
            k = 'raw'
        else:
            # where the text comes from is not known
            return None
        if order.index(k) > order.index(worst):
            worst = k
    return worst


def once(rep, d):
    """titles, destinations and info strings are unescaped exactly once"""
    e = d.eng
    cut = e.cut
    common = set()

    def subs(st, rx, repl, subject, node):
        if is_escape_rx(rx):
            for q in st.stack:
                common.add(q)
    with Observed(e, {'resub': [subs]}):
        for q in d.touched.roots('resub'):
            try:
                d.run(q)
            except Budget:
                pass
    mods = set(e.funcs[q].mod for q in common if q in e.funcs)
    helper = set(q for q, f in e.funcs.items() if f.cls is None and
                 f.mod in mods and not any(
                     isinstance(x, (ast.While, ast.For))
                     for x in ast.walk(f.node)))

    roots = set(d.touched.roots('quote', *[('setattr', a) for a in (
        'title', 'info', 'destination')]))
    roots |= set(d.touched.roots('resub'))
    for q in sorted(roots & set(d.fns)):
        if q in helper:
            continue
        seen = {}
        autos = []

        def put(kind, st, v, node):
            k = classify(e, st, v)
            if k:
                seen.setdefault((kind, k), (
                    getattr(node, 'lineno', 0), v))

        def onset(st, obj, attr, value, node, o):
            if attr in ('title', 'info', 'destination'):
                put(attr, st, value, node)
            if attr == 'literal' and isinstance(value, S):
                autos.append(value)

        def onquote(st, value, safe, node):
            src = value.k[1] if isinstance(value, Sy) and value.k and \
                value.k[0] == 'encoded' else value
            put('quote', st, src, node)
        with Observed(e, {'setattr': [onset], 'quote': [onquote]},
                      lambda info: info.qual not in helper and cut(info)):
            try:
                args, res = d.run(q)
            except Budget:
                rep.undecided('once', q, 'budget')
                continue
        for s, v in res:
            if not isexc(v) and (isstr(v) or isinstance(v, Sy)):
                put('return', s, v, d.fns[q].info.node)
        kinds = set(seen)
        for (kind, k), (line, v) in sorted(seen.items(), key=str):
            what = '%s: %s %s' % (q, kind, k)
            if k == 'twice':
                rep.violation('once', '%s %s' % (q, kind), 'line %d: %s is '
                              'unescaped more than once' % (line, kind))
            elif k == 'raw' and kind in ('title', 'info'):
                rep.violation('once', '%s %s' % (q, kind), 'line %d: the %s '
                              'is stored without unescaping' % (line, kind))
            elif k == 'raw' and kind in ('quote', 'return') and (
                    (kind, 'once') in kinds):
                rep.violation('once', '%s %s' % (q, kind), 'line %d: a path '
                              'leaves the text escaped' % line)
            elif k in ('raw', 'quoted') and kind == 'destination' and \
                    not autos:
                rep.violation('once', '%s %s' % (q, kind), 'line %d: the '
                              'destination is stored without unescaping' %
                              line)
            else:
                rep.ok('once', what)
