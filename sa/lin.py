"""Linear inequality domain: facts are (lin, k) meaning sum(lin)+k >= 0."""
from fractions import Fraction
from math import gcd

_cache = {}
_order = {}


def _ord(s):
    r = _order.get(s)
    if r is None:
        r = _order[s] = len(_order)
    return r



def natural(s):
    return isinstance(s, tuple) and s and s[0] in ('len', 'nat')


def _norm(d, k):
    d = {s: c for s, c in d.items() if c}
    if not d:
        return None, k
    g = 0
    for c in d.values():
        g = gcd(g, abs(c))
    if g > 1:
        # integer tightening
        d = {s: c // g for s, c in d.items()}
        k = k // g
    return d, k


def unsat(facts, cap=400):
    """True when the facts have no integer solution (may miss some)"""
    cur = {}
    for d, k in facts:
        d, k = _norm(dict(d), k)
        if d is None:
            if k < 0:
                return True
            continue
        key = tuple(sorted(d.items(), key=lambda x: _ord(x[0])))
        if key not in cur or cur[key] > k:
            cur[key] = k
    while cur:
        # choose the symbol with the fewest combinations
        pos, neg = {}, {}
        for key in cur:
            for s, c in key:
                (pos if c > 0 else neg).setdefault(s, []).append(key)
        syms = set(pos) | set(neg)
        best = min(syms, key=lambda s: (len(pos.get(s, ())) *
                                        len(neg.get(s, ())), _ord(s)))
        ps, ns = pos.get(best, []), neg.get(best, [])
        if len(ps) * len(ns) + len(cur) > cap:
            return False
        new = {}
        for key, k in cur.items():
            if not any(s == best for s, _ in key):
                new[key] = k
        for p in ps:
            dp, kp = dict(p), cur[p]
            for n in ns:
                dn, kn = dict(n), cur[n]
                a, b = dp[best], -dn[best]
                d = {}
                for s, c in dp.items():
                    d[s] = d.get(s, 0) + c * b
                for s, c in dn.items():
                    d[s] = d.get(s, 0) + c * a
                d, k = _norm(d, kp * b + kn * a)
                if d is None:
                    if k < 0:
                        return True
                    continue
                key = tuple(sorted(d.items(), key=lambda x: _ord(x[0])))
                if key not in new or new[key] > k:
                    new[key] = k
        cur = new
    return False


def relevant(facts, goal):
    syms = set(s for s, _ in goal[0])
    rest = list(facts)
    out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for f in rest:
            if any(s in syms for s, _ in f[0]):
                out.append(f)
                for s, _ in f[0]:
                    if s not in syms:
                        syms.add(s)
                        changed = True
            else:
                keep.append(f)
        rest = keep
    for s in syms:
        if natural(s):
            out.append((((s, 1),), 0))
    return out


def prove(facts, goal):
    """facts |- goal >= 0"""
    if not goal[0]:
        return goal[1] >= 0
    key = (facts, goal)
    r = _cache.get(key)
    if r is None:
        fs = relevant(facts, goal)
        fs.append((tuple((s, -c) for s, c in goal[0]), -goal[1] - 1))
        r = _cache[key] = unsat(fs)
    return r


def consistent(facts, extra):
    if not extra[0]:
        return extra[1] >= 0
    # not provably contradicted
    return not prove(facts, (tuple((s, -c) for s, c in extra[0]),
                             -extra[1] - 1))
