"""Linear integer terms and a small convex-polyhedra domain (Fourier-Motzkin).

A term is a pair (c, terms) with terms a sorted tuple of (symbol, coefficient).
A constraint is a term t, read `t >= 0`.  Everything is over the integers; infeasibility is
decided over the rationals after integer tightening, so `infeasible` never wrongly says True.
"""
from math import gcd
from functools import lru_cache

def const(c):
    return (c, ())

def sym(s):
    return (0, ((s, 1),))

def is_const(t):
    return not t[1]

def add(a, b, kb=1):
    d = dict(a[1])
    for s, k in b[1]:
        d[s] = d.get(s, 0) + kb * k
    return (a[0] + kb * b[0], tuple(sorted((s, k) for s, k in d.items() if k)))

def sub(a, b):
    return add(a, b, -1)

def scale(a, k):
    if k == 0:
        return (0, ())
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))

def shift(a, c):
    return (a[0] + c, a[1])

def norm(t):
    """Integer-tighten `t >= 0`."""
    c, ts = t
    if not ts:
        return t
    g = 0
    for _, k in ts:
        g = gcd(g, k)
    if g > 1:
        return (c // g, tuple((s, k // g) for s, k in ts))
    return t

def reduce_set(cs):
    """Keep the tightest constraint for each left-hand side.  None when trivially infeasible."""
    best = {}
    for t in cs:
        t = norm(t)
        if not t[1]:
            if t[0] < 0:
                return None
            continue
        o = best.get(t[1])
        if o is None or t[0] < o:
            best[t[1]] = t[0]
    return frozenset((c, ts) for ts, c in best.items())

def _eliminate(cs, s):
    lo, hi, rest = [], [], []
    for t in cs:
        k = dict(t[1]).get(s, 0)
        if k > 0:
            lo.append((k, t))
        elif k < 0:
            hi.append((-k, t))
        else:
            rest.append(t)
    for k1, t1 in lo:
        for k2, t2 in hi:
            rest.append(add(scale(t1, k2), t2, k1))
    return reduce_set(rest)

def project(cs, keep):
    """Existentially quantify every symbol that is not in `keep`."""
    cs = reduce_set(cs)
    while cs is not None:
        syms = {}
        for t in cs:
            for s, k in t[1]:
                if s not in keep:
                    p, n = syms.get(s, (0, 0))
                    syms[s] = (p + (k > 0), n + (k < 0))
        if not syms:
            return cs
        s = min(syms, key=lambda x: (syms[x][0] * syms[x][1] - sum(syms[x]), x))
        cs = _eliminate(cs, s)
        if cs is not None and len(cs) > 400:
            return frozenset(t for t in cs if all(x in keep for x, _ in t[1]))
    return None

@lru_cache(maxsize=200000)
def infeasible(cs):
    cs = reduce_set(cs)
    if cs is None:
        return True
    return project(cs, frozenset()) is None

def relevant(cs, t):
    """Constraints connected with the symbols of `t`."""
    syms = {s for s, _ in t[1]}
    pool = list(cs)
    out = []
    again = True
    while again:
        again = False
        nxt = []
        for c in pool:
            if any(s in syms for s, _ in c[1]):
                out.append(c)
                for s, _ in c[1]:
                    if s not in syms:
                        syms.add(s)
                        again = True
            else:
                nxt.append(c)
        pool = nxt
    return out

def entails(cs, t):
    """Does `cs` entail `t >= 0`?"""
    if not t[1]:
        return t[0] >= 0
    neg = shift(scale(t, -1), -1)
    return infeasible(frozenset(relevant(cs, t) + [neg]))

def bounds(cs, t):
    """Least and greatest value of `t` under `cs` (None where there is none that is known)."""
    if not t[1]:
        return t[0], t[0]
    v = -1
    eq = add(t, sym(v), -1)
    pr = project(frozenset(relevant(cs, t) + [eq, scale(eq, -1)]), frozenset([v]))
    lo = hi = None
    for c, ts in pr or ():
        if len(ts) == 1 and ts[0][1] > 0:
            x = -(c // ts[0][1])
            lo = x if lo is None else max(lo, x)
        elif len(ts) == 1:
            x = c // -ts[0][1]
            hi = x if hi is None else min(hi, x)
    return lo, hi
