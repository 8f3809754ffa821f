"""Sets of Unicode code points as sorted disjoint intervals."""

MAXCP = 0x10FFFF


class CharSet(object):
    __slots__ = ('iv', '_h')

    def __init__(self, iv=()):
        self.iv = tuple(iv)
        self._h = hash(self.iv)

    # construction -----------------------------------------------------
    @staticmethod
    def of(chars):
        return CharSet.ranges([(ord(c), ord(c)) for c in chars])

    @staticmethod
    def ranges(rs):
        rs = sorted((a, b) for a, b in rs if a <= b)
        out = []
        for a, b in rs:
            if out and a <= out[-1][1] + 1:
                if b > out[-1][1]:
                    out[-1] = (out[-1][0], b)
            else:
                out.append((a, b))
        return CharSet(out)

    # algebra ----------------------------------------------------------
    def __or__(self, o):
        if not self.iv:
            return o
        if not o.iv or self.iv == o.iv:
            return self
        return CharSet.ranges(self.iv + o.iv)

    def __and__(self, o):
        out = []
        i = j = 0
        a, b = self.iv, o.iv
        while i < len(a) and j < len(b):
            lo = max(a[i][0], b[j][0])
            hi = min(a[i][1], b[j][1])
            if lo <= hi:
                out.append((lo, hi))
            if a[i][1] < b[j][1]:
                i += 1
            else:
                j += 1
        return CharSet(out)

    def __invert__(self):
        out = []
        p = 0
        for a, b in self.iv:
            if p <= a - 1:
                out.append((p, a - 1))
            p = b + 1
        if p <= MAXCP:
            out.append((p, MAXCP))
        return CharSet(out)

    def __sub__(self, o):
        return self & ~o

    def __eq__(self, o):
        return isinstance(o, CharSet) and self.iv == o.iv

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __bool__(self):
        return bool(self.iv)

    def __contains__(self, c):
        if not isinstance(c, int):
            c = ord(c)
        for a, b in self.iv:
            if a <= c <= b:
                return True
        return False

    def __le__(self, o):
        return not (self - o)

    def size(self):
        return sum(b - a + 1 for a, b in self.iv)

    def chars(self, limit=100000):
        n = 0
        for a, b in self.iv:
            for c in range(a, b + 1):
                n += 1
                if n > limit:
                    return
                yield chr(c)

    def sample(self):
        """A readable member."""
        for a, b in self.iv:
            for c in range(max(a, 33), min(b, 126) + 1):
                return chr(c)
        for a, b in self.iv:
            return chr(a)
        return None

    def __repr__(self):
        if self == ALL:
            return 'CharSet(ALL)'

        def f(c):
            return repr(chr(c))[1:-1] if c < 0x110000 else '?'
        parts = []
        for a, b in self.iv[:12]:
            parts.append(f(a) if a == b else f(a) + '-' + f(b))
        if len(self.iv) > 12:
            parts.append('...')
        return 'CharSet(%s)' % ' '.join(parts)


EMPTY = CharSet()
ALL = CharSet([(0, MAXCP)])
SURROGATES = CharSet([(0xD800, 0xDFFF)])
ASCII = CharSet([(0, 127)])
NUL = CharSet([(0, 0)])
ALNUM = CharSet.ranges([(48, 57), (65, 90), (97, 122)])
ASCII_PUNCT = CharSet.of('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~')


def _scan(pred):
    out = []
    start = None
    for c in range(MAXCP + 1):
        if pred(chr(c)):
            if start is None:
                start = c
        elif start is not None:
            out.append((start, c - 1))
            start = None
    if start is not None:
        out.append((start, MAXCP))
    return CharSet(out)


_cats = {}


def category(name):
    """\\s, \\d, \\w of Python's unicode patterns; str.strip's whitespace."""
    if name not in _cats:
        if name == 'space':
            _cats[name] = _scan(lambda c: c.isspace())
        elif name == 'digit':
            _cats[name] = _scan(lambda c: c.isdecimal())
        elif name == 'word':
            _cats[name] = _scan(lambda c: c.isalnum() or c == '_')
    return _cats[name]


_FOLD = None


def _foldtab():
    """equivalence of characters under re.IGNORECASE, as sre compares them"""
    global _FOLD
    if _FOLD is None:
        cls = {}
        for c in range(MAXCP + 1):
            ch = chr(c)
            lo = ch.lower()
            up = ch.upper()
            if (lo != ch and len(lo) == 1) or (up != ch and len(up) == 1):
                key = lo if len(lo) == 1 else ch
                cls.setdefault(key, set()).add(c)
                cls[key].add(ord(key))
                if len(up) == 1:
                    cls[key].add(ord(up))
        # merge overlapping classes
        rep = {}
        groups = []
        for key, s in cls.items():
            hit = set(rep[c] for c in s if c in rep)
            if not hit:
                g = len(groups)
                groups.append(set(s))
            else:
                g = min(hit)
                groups[g] |= s
                for h in hit:
                    if h != g:
                        groups[g] |= groups[h]
                        groups[h] = set()
            for c in groups[g]:
                rep[c] = g
        # i: sre special cases
        _FOLD = {}
        for g in groups:
            for c in g:
                _FOLD[c] = g
        extra = set([0x69, 0x49, 0x130, 0x131])
        for c in extra:
            _FOLD[c] = extra
    return _FOLD


def casefold_close(cs, ascii_only=False):
    """all characters that match some member of cs under IGNORECASE"""
    extra = []
    if ascii_only:
        for a, b in cs.iv:
            for c in range(max(a, 65), min(b, 90) + 1):
                extra.append((c + 32, c + 32))
            for c in range(max(a, 97), min(b, 122) + 1):
                extra.append((c - 32, c - 32))
        return cs | CharSet.ranges(extra)
    tab = _foldtab()
    if cs.size() > 2000:
        for c, g in tab.items():
            if c in cs:
                extra.extend((d, d) for d in g)
    else:
        for a, b in cs.iv:
            for c in range(a, b + 1):
                for d in tab.get(c, ()):
                    extra.append((d, d))
    return cs | CharSet.ranges(extra)
