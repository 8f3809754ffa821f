"""HTML renderer: escaping, safe mode, nesting, completeness.

Every node type is rendered (enter, a text child, leave) by abstract
interpretation of HtmlRenderer.render in every reachable renderer context;
the emitted text is a concatenation of literal markup and labelled pieces,
which is lexed as HTML.
"""
import html as _html

from ..values import *
from ..charset import CharSet, ALL
from ..interp import AnalysisError, Budget
from .. import rx as RXM
from ..rdriver import RendererDriver, CONTAINERS, LEAVES, lab, node_field

SPECIAL = CharSet.of('&<>"')
VOID = ('br', 'hr', 'img')
RAW = {'html_inline': 'literal', 'html_block': 'literal'}

OPTIONS = {
    '[safe]': TD(bool=True),
    '[sourcepos]': TD(bool=True),
    '[softbreak]': TD(none=True, str=(ALL, 0, None, lab('softbreak'))),
}


def driver(repo=None):
    d = RendererDriver('HtmlRenderer', OPTIONS, repo)
    d.eng.dict_always['dict:options'] = set(['[safe]', '[sourcepos]'])
    d.discover(CONTAINERS + LEAVES)
    return d


class Lexed(object):
    def __init__(self):
        self.events = []    # ('open', name) ('close', name) ('void', name)
        #                     ('text', P) ('raw', P) ('attr', tag, attr, [..])
        self.errors = []    # (kind, detail)
        self.child = None   # lexical state at the child text
        self.end = None


def faithful(p):
    """images that are references to the character they stand for"""
    for c, img in p.imgs:
        if c not in p.cs:
            continue
        if img != c and not (img.startswith('&') and img.endswith(';') and
                             _html.unescape(img) == c):
            return False
    return True


def escaped(p):
    """special characters cannot occur in the piece except as references"""
    m = dict(p.imgs)
    for c in '&<>"':
        if c in p.cs and m.get(c, c) == c:
            return False
    return True


def numeric(p):
    return p.cs <= CharSet.of('-0123456789')


def lex(emitted, state, t, child_uid=('CHILD',)):
    """state: 'text' or 'attr' (inside a double-quoted value of img alt)"""
    L = Lexed()
    st = state
    tag = []            # parts of the current tag
    quote = None
    attrs = []
    cur = []
    if state == 'attr':
        st, tag, quote = 'value', ['img'], 'alt'

    def err(kind, detail):
        L.errors.append((kind, detail))

    pos = 0
    items = []
    for x in emitted:
        if isinstance(x, str):
            items.extend(x)
        else:
            items.append(x)
    i = 0
    comment = None
    while i < len(items):
        x = items[i]
        i += 1
        if comment is not None:
            if isinstance(x, str):
                comment += x
                if comment.endswith('-->'):
                    comment = None
            else:
                err('comment', 'text inside a comment: %r' % (x,))
            continue
        if not isinstance(x, str):
            p = x
            if p.uid == child_uid:
                L.child = 'text' if st == 'text' else (
                    'attr' if st == 'value' else st)
            rawlab = 'softbreak' in p.labels
            if st == 'text':
                if RAW.get(t) in p.labels and not p.imgs:
                    L.events.append(('raw', p))
                elif rawlab:
                    L.events.append(('opt', p))
                else:
                    if not escaped(p):
                        err('unescaped', '%r in text content' % (p,))
                    elif not faithful(p):
                        err('altered', '%r in text content' % (p,))
                    L.events.append(('text', p))
            elif st == 'value':
                if rawlab and quote == 'alt':
                    L.events.append(('opt', p))
                    continue
                if not escaped(p):
                    err('unescaped', '%r in attribute %s' % (p, quote))
                elif not faithful(p):
                    err('altered', '%r in attribute %s' % (p, quote))
                cur.append(p)
                if state == 'attr' or quote == 'alt':
                    L.events.append(('text', p))
            elif st == 'name' and numeric(p) and tag:
                tag.append(p)
            else:
                err('markup', '%r at %s inside a tag' % (p, st))
            continue
        c = x
        if st == 'text':
            if c == '<':
                rest = ''.join(y for y in items[i:i + 3]
                               if isinstance(y, str))
                if rest.startswith('!--'):
                    comment = '<'
                    L.events.append(('comment',))
                    continue
                st, tag, attrs = 'name', [], []
            elif c == '>':
                err('markup', 'stray > in text content')
            elif c == '&':
                pass
            elif c == '"':
                pass
        elif st == 'name':
            if c == '>':
                st = finish(L, tag, attrs)
            elif c.isspace():
                st = 'attrs'
            elif c == '/' and tag:
                st = 'slash'
            elif c in '<"=':
                err('markup', 'character %r in a tag name' % c)
            else:
                tag.append(c)
        elif st == 'slash':
            if c == '>':
                st = finish(L, ['/', 'void'] + tag, attrs)
            else:
                err('markup', 'character %r after /' % c)
        elif st == 'attrs':
            if c == '>':
                st = finish(L, tag, attrs)
            elif c == '/':
                st = 'slash'
            elif c.isspace():
                pass
            elif c in '<"=':
                err('markup', 'character %r where an attribute name is '
                    'expected' % c)
            else:
                st, quote = 'attr', c
        elif st == 'attr':
            if c == '=':
                st = 'eq'
            elif c in '<>" ':
                err('markup', 'character %r in attribute name %s' % (
                    c, quote))
                st = 'attrs'
            else:
                quote += c
        elif st == 'eq':
            if c == '"':
                st, cur = 'value', []
            else:
                err('markup', 'unquoted value of %s' % quote)
                st = 'attrs'
        elif st == 'value':
            if c == '"':
                attrs.append((quote, tuple(cur)))
                L.events.append(('attr', name_of(tag), quote, tuple(cur)))
                st = 'attrs'
            else:
                if c in '<>':
                    err('markup', 'markup character %r inside attribute %s'
                        % (c, quote))
                cur.append(c)
    L.end = 'text' if st == 'text' else (
        'attr' if st == 'value' and quote == 'alt' else st)
    if comment is not None:
        err('markup', 'unterminated comment')
    return L


def name_of(tag):
    return tuple(x if isinstance(x, str) else x.uid for x in tag)


def finish(L, tag, attrs):
    if tag[:2] == ['/', 'void']:
        L.events.append(('void', name_of(tag[2:])))
    elif tag and tag[0] == '/':
        L.events.append(('close', name_of(tag[1:])))
    elif ''.join(x if isinstance(x, str) else '#' for x in tag) in VOID:
        L.events.append(('void', name_of(tag)))
    else:
        L.events.append(('open', name_of(tag)))
    return 'text'


def cond_str(oc):
    out = []
    for k in oc.st.order:
        v = oc.st.facts.get(k)
        if v is None:
            continue
        out.append('%s%s' % ('' if v else 'not ', describe(k)))
    return '; '.join(out[-8:])


def describe(k):
    if k[0] == 'rx':
        return '%s(%r, %s)' % (k[2], k[1].pattern[:40], k[3])
    return show_key(k)[:80]


def handler_of(d, t):
    """source position of the code that renders a node type"""
    f = d.eng.class_attr(d.eng.new_state(), d.k.info, t)
    if isinstance(f, Fn):
        return '%s line %d' % (f.info.qual, f.info.node.lineno)
    return '%s (no method %s)' % (d.k.info.qual, t)


class Ctx(object):
    def __init__(self, lexstate, vals, facts, name):
        self.lex = lexstate
        self.vals = vals
        self.facts = facts
        self.name = name


def explore(d, types=CONTAINERS + LEAVES, lexer=None):
    """yield (ctx, type, outcome, Lexed) over all reachable contexts"""
    d.run('document', ['in'])
    start = Ctx('text', dict(d.init_tracked), (), 'body')
    todo, seen = [start], [start]
    results = []
    lexer = lexer or lex
    limit = 0
    while todo:
        ctx = todo.pop(0)
        limit += 1
        if limit > 8:
            raise AnalysisError('renderer contexts do not stabilise')
        for t in types:
            evs = ['in', 'child', 'out'] if t in CONTAINERS else ['in']
            for oc in d.run(t, evs, ctx.vals, ctx.facts):
                L = None
                if oc.ok:
                    L = lexer(oc.emitted, ctx.lex, t)
                results.append((ctx, t, oc, L))
                if L is None or t not in CONTAINERS or len(oc.ctxs) < 2:
                    continue
                vals = oc.ctxs[1]
                ls = L.child if L.child is not None else ctx.lex
                if covered(oc.st, ls, vals, seen):
                    continue
                new = generalise(ls, vals, t)
                if new is not None:
                    seen.append(new)
                    todo.append(new)
    return seen, results


def covered(st, ls, vals, seen):
    for c in seen:
        if c.lex != ls:
            continue
        ok = True
        for n, v in vals:
            cv = c.vals.get(n)
            if cv == v:
                continue
            lo = getattr(c, 'lows', {}).get(n)
            if lo is not None and toI(v) is not None and \
               st.prove_ge0(iadd(v, C(-lo))):
                continue
            ok = False
            break
        if ok:
            return True
    return False


def generalise(ls, vals, t):
    nv, facts, lows = {}, [], {}
    for n, v in vals:
        if isinstance(v, C) and isinstance(v.v, int) and not isinstance(
                v.v, bool):
            s = symint(('nat', 'ctx', n, v.v))
            nv[n] = iadd(s, v)
            lows[n] = v.v
        else:
            nv[n] = v
    c = Ctx(ls, nv, tuple(facts), 'inside %s' % t)
    c.lows = lows
    return c


# ------------------------------------------------------------------ shared
class Exploration(object):
    """all render paths, computed once per run"""

    def __init__(self, repo=None):
        self.d = driver(repo)
        self.seen, self.results = explore(self.d)
        self.inline = ('text', 'softbreak', 'linebreak', 'code', 'emph',
                       'strong', 'link', 'image', 'html_inline')

    def paths(self):
        """(ctx, type, outcome, Lexed) in contexts that can occur: only
        inline nodes are found inside an image"""
        for ctx, t, oc, L in self.results:
            if ctx.lex == 'attr' and t not in self.inline:
                continue
            yield ctx, t, oc, L

    def site(self, ctx, t):
        return '%s %s' % (handler_of(self.d, t).split(' line')[0], ctx.name)

    def detail(self, ctx, t, oc, what):
        return '%s; rendering a %s node %s; path: [%s]; emitted: %s' % (
            what, t, ctx.name, cond_str(oc), show_emit(oc.emitted))


def show_emit(em):
    if em is None:
        return '?'
    return ''.join(x if isinstance(x, str) else '{%s%s}' % (
        show_key(x.uid)[:60], ' escaped' if x.imgs else '') for x in em)


def unhandled(rep, x, ctx, t, oc):
    """outcomes without an analysable result"""
    if isexc(oc.value):
        rep.violation('handler-raises', x.site(ctx, t), x.detail(
            ctx, t, oc, '%s raised at %s' % (oc.value.name,
                                             oc.value.where)))
    else:
        rep.undecided('output', x.site(ctx, t),
                      'returned text not understood: %r' % (oc.value,))


def check_c01(rep, tier):
    x = Exploration()
    rep.assumptions += [
        'text, code, destinations, titles and info strings are arbitrary',
        'option-supplied softbreak text is emitted as the caller gave it']
    for ctx, t, oc, L in x.paths():
        if L is None:
            if not isexc(oc.value):
                rep.undecided('escape', x.site(ctx, t), 'output unknown')
            continue
        bad = [e for e in L.errors if e[0] in ('unescaped', 'altered')]
        for k, what in bad:
            rep.violation('escape-' + k, x.site(ctx, t),
                          x.detail(ctx, t, oc, what))
        n = 0
        for p in oc.emitted:
            if isinstance(p, P) and p.uid != ('CHILD',) and \
               not numeric(p):
                n += 1
        if n and not bad:
            rep.ok('escape', x.site(ctx, t), n)
    rep.require('escape', 40)


def guard_lang(oc, uid):
    """(language the path's tests allow for the text uid, understood?)"""
    lang = RXM.SIGMA
    ok = True
    for k, val in oc.st.facts.items():
        if not mentions(k, uid):
            continue
        if k[0] == 'rx':
            r = base_of(k[3], uid)
            if r is not None:
                flags = k[1].flags
                if r == 'nocase':
                    flags |= 2
                try:
                    m = RXM.Pattern(k[1].pattern, flags).lang(k[2])
                except RXM.Unsupported:
                    ok = False
                    continue
                lang = RXM.conj(lang, m if val else RXM.neg(m))
                continue
        if k[0] in ('nonempty', 'has', 'isnone'):
            continue
        ok = False
    for k, n in oc.st.nar.items():
        if k != uid and mentions(k, uid) and not (
                isinstance(k, tuple) and k and k[0] == 'at'):
            ok = False
    return lang, ok


def mentions(k, uid):
    if k == uid:
        return True
    if isinstance(k, tuple):
        return any(mentions(y, uid) for y in k)
    if isinstance(k, V):
        return any(mentions(getattr(k, f), uid) for f in k.fields)
    if isinstance(k, frozenset):
        return any(mentions(y, uid) for y in k)
    return False


def base_of(v, uid):
    ps = parts(v)
    if ps is None or len(ps) != 1 or isinstance(ps[0], str):
        return None
    p = ps[0]
    if p.imgs:
        return None
    if p.uid == uid:
        return 'same'
    if isinstance(p.uid, tuple) and len(p.uid) == 2 and \
       p.uid[0] in ('lower', 'casefold', 'upper', 'strip', 'lstrip',
                    'rstrip'):
        r = base_of(p.uid[1], uid)
        if r is None:
            return None
        return r if 'strip' in p.uid[0] else 'nocase'
    return None


UNSAFE = '(?:javascript|vbscript|file|data):'
SAFE_DATA = 'data:image/(?:png|gif|jpeg|webp)'


def unsafe_lang():
    u = RXM.Pattern(UNSAFE, 2).lang('match')
    s = RXM.Pattern(SAFE_DATA, 2).lang('match')
    return RXM.conj(u, RXM.neg(s))


def safe_true(oc):
    return oc.st.facts.get(('b', ('options', '.[safe]')))


def check_c02(rep, tier):
    x = Exploration()
    unsafe = unsafe_lang()
    rep.assumptions += ['link destinations hold no white space or control '
                        'characters (decided by C13)']
    saw = set()
    for ctx, t, oc, L in x.paths():
        on = safe_on(oc)
        if on is False or L is None:
            continue
        for ev in L.events:
            if ev[0] == 'raw' or (ev[0] == 'text' and
                                  t in RAW and not escaped(ev[1])):
                rep.violation('raw-html-in-safe-mode', x.site(ctx, t),
                              x.detail(ctx, t, oc, 'raw HTML is emitted '
                                       'with safe set or without testing '
                                       'it'))
        if t in RAW:
            rep.ok('raw-html', x.site(ctx, t))
        for p in oc.emitted:
            if isinstance(p, P) and 'destination' in p.labels:
                lang, known = guard_lang(oc, p.uid)
                w = RXM.witness(RXM.conj(lang, unsafe))
                if w is None:
                    rep.ok('unsafe-destination', x.site(ctx, t))
                elif known:
                    rep.violation(
                        'unsafe-destination', x.site(ctx, t), x.detail(
                            ctx, t, oc, 'destination %r would be emitted '
                            'in safe mode' % w))
                else:
                    rep.undecided('unsafe-destination', x.site(ctx, t),
                                  'guard not understood')
            elif isinstance(p, P) and any('destination' in str(y)
                                          for y in [p.uid]):
                rep.undecided('unsafe-destination', x.site(ctx, t),
                              'text computed from the destination')
    # a harmless destination is still linked in safe mode
    for t in ('link', 'image'):
        ok = False
        harmless = RXM.Pattern(r'https?://example\.com/[a-z]*', 0).lang(
            'fullmatch')
        for ctx, t2, oc, L in x.paths():
            if t2 != t or L is None or safe_on(oc) is False:
                continue
            for p in oc.emitted:
                if isinstance(p, P) and 'destination' in p.labels:
                    ok = True
        if ok:
            rep.ok('safe-mode-keeps-links', t)
        else:
            rep.undecided('safe-mode-keeps-links', t, 'no such path')
    rep.require('raw-html', 4)
    rep.require('unsafe-destination', 4)


def safe_on(oc):
    """value of the safe option on this path (None: never tested)"""
    return oc.st.facts.get(('b', ('options', '.[safe]')))


def check_c03(rep, tier):
    x = Exploration()
    for ctx, t, oc, L in x.paths():
        site = x.site(ctx, t)
        if L is None:
            if not isexc(oc.value):
                rep.undecided('nesting', site, 'output unknown')
            continue
        bad = False
        for k, what in L.errors:
            if k in ('markup', 'comment'):
                bad = True
                rep.violation('markup', site, x.detail(ctx, t, oc, what))
        if L.end != ctx.lex:
            bad = True
            rep.violation('open-markup', site, x.detail(
                ctx, t, oc, 'the node leaves the output inside %s' % L.end))
        stack = []
        for ev in L.events:
            if ev[0] == 'open':
                stack.append(ev[1])
            elif ev[0] == 'close':
                if not stack or stack[-1] != ev[1]:
                    bad = True
                    rep.violation('nesting', site, x.detail(
                        ctx, t, oc, 'end tag %s does not match %s' % (
                            ev[1], stack[-1:])))
                else:
                    stack.pop()
        if stack:
            bad = True
            rep.violation('nesting', site, x.detail(
                ctx, t, oc, 'element %s is never closed' % (stack,)))
        if len(oc.ctxs) >= 2 and not same_ctx(oc):
            bad = True
            rep.violation('renderer-state', site, x.detail(
                ctx, t, oc, 'state %s is not restored: %s' % (
                    oc.ctxs[0], oc.ctxs[-1])))
        if not bad:
            rep.ok('nesting', site)
    rep.require('nesting', 60)


def same_ctx(oc):
    a, b = dict(oc.ctxs[0]), dict(oc.ctxs[-1])
    if set(a) != set(b):
        return False
    for n in a:
        if a[n] == b[n]:
            continue
        if toI(a[n]) is not None and toI(b[n]) is not None and \
           oc.st.prove_eq(a[n], b[n]):
            continue
        return False
    return True


def check_c04(rep, tier):
    """every node's content appears exactly once, children between the
    element's tags"""
    x = Exploration()
    want = {'text': 'literal', 'code': 'literal', 'code_block': 'literal',
            'html_inline': 'literal', 'html_block': 'literal'}
    for ctx, t, oc, L in x.paths():
        site = x.site(ctx, t)
        if isexc(oc.value):
            rep.violation('handler-raises', site, x.detail(
                ctx, t, oc, '%s (%s) raised at %s' % (
                    oc.value.name, oc.value.detail, oc.value.where)))
            continue
        if oc.emitted is None:
            rep.violation('lost-output', site,
                          'what was rendered before this node is not part '
                          'of the result: %r' % (oc.value,)) \
                if x.d.buffer is not None and parts(oc.value) is not None \
                else rep.undecided('output', site, repr(oc.value)[:200])
            continue
        counts = {}
        whole = {}
        for p in oc.emitted:
            if isinstance(p, P):
                for l in p.labels:
                    counts[l] = counts.get(l, 0) + 1
                    if p.uid[:2] == ('node', '.' + l) or \
                       p.uid == ('CHILD',):
                        whole[l] = whole.get(l, 0) + 1
        attrs = {}
        for ev in L.events:
            if ev[0] == 'attr':
                attrs.setdefault((ev[1], ev[2]), []).append(ev[3])
        # literals
        l = want.get(t)
        safe = safe_on(oc)
        if l is not None and not (t in RAW and safe is True):
            if counts.get(l, 0) != 1:
                # an empty literal emits nothing; one that is a known
                # constant on this path is emitted as that constant
                known = only_value(oc, ('node', '.' + l))
                if not (counts.get(l, 0) == 0 and (
                        is_empty(oc, ('node', '.' + l)) or
                        has_const(oc.emitted, known))):
                    rep.violation('content-once', site, x.detail(
                        ctx, t, oc, '%s appears %d times' % (
                            l, counts.get(l, 0))))
                    continue
            elif whole.get(l, 0) != 1:
                judge_part(rep, x, ctx, t, oc, l, site)
                continue
            rep.ok('content-once', site)
        if t in CONTAINERS:
            n = counts.get('child', 0)
            if n != 1:
                rep.violation('children', site, x.detail(
                    ctx, t, oc, 'children appear %d times' % n))
                continue
            rep.ok('children', site)
        if ctx.lex == 'text' and t in ('link', 'image'):
            tagname = 'a' if t == 'link' else 'img'
            an = 'href' if t == 'link' else 'src'
            dest = [v for (tg, a), vs in attrs.items() if a == an
                    for v in vs]
            unsafe_path = safe is True and not any(
                isinstance(p, P) and 'destination' in p.labels
                for p in oc.emitted)
            if unsafe_path:
                lang, known = guard_lang(oc, ('node', '.destination'))
                w = None
                if known:
                    w = RXM.witness(RXM.conj(lang, RXM.Pattern(
                        r'https?://[a-z.]+(?:/[a-z0-9._-]*)*', 0).lang(
                            'fullmatch')))
                if w is not None:
                    rep.violation('destination-dropped', site, x.detail(
                        ctx, t, oc, 'harmless destination %r is dropped in '
                        'safe mode' % w))
                else:
                    rep.ok('destination', site)
            elif not is_empty(oc, ('node', '.destination')) and not (
                    len(dest) == 1 and one_piece(
                        dest[0], ('node', '.destination'))):
                rep.violation('destination', site, x.detail(
                    ctx, t, oc, 'attribute %s is not the destination' %
                    an))
            else:
                rep.ok('destination', site)
            tk = oc.st.kind.get(('node', '.title'))
            title = [v for (tg, a), vs in attrs.items() if a == 'title'
                     for v in vs]
            absent = tk == ('none',) or is_empty(oc, ('node', '.title'))
            if absent:
                if title:
                    rep.violation('title', site, x.detail(
                        ctx, t, oc, 'title attribute without a title'))
                else:
                    rep.ok('title', site)
            elif len(title) == 1 and one_piece(title[0],
                                               ('node', '.title')):
                rep.ok('title', site)
            else:
                rep.violation('title', site, x.detail(
                    ctx, t, oc, 'the title is not emitted once, whole'))
    for t, r in (('content-once', 8), ('children', 20),
                 ('destination', 4), ('title', 4)):
        rep.require(t, r)


def judge_part(rep, x, ctx, t, oc, l, site):
    rep.violation('content-whole', site, x.detail(
        ctx, t, oc, 'only text computed from %s is emitted' % l))


def only_value(oc, uid):
    """the constant a text is known to be on this path"""
    n = oc.st.nar.get(uid)
    if n is not None and n.allow is not None and len(n.allow) == 1:
        return next(iter(n.allow))
    return None


def escaped_forms(s):
    return {s, _html.escape(s, quote=True), _html.escape(s, quote=False)}


def has_const(emitted, known):
    """the constant occurs in the emitted literal text"""
    return known is not None and any(
        f in x for x in emitted if isinstance(x, str)
        for f in escaped_forms(known))


def is_empty(oc, uid):
    n = oc.st.nar.get(uid)
    return n is not None and n.hi == 0


def one_piece(v, uid):
    return len(v) == 1 and isinstance(v[0], P) and v[0].uid == uid and \
        not v[0].ops


CHECKS = {'C01': check_c01, 'C02': check_c02, 'C03': check_c03,
          'C04': check_c04}
