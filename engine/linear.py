"""Exact integer-linear facts: expressions over symbols, entailment by elimination."""
from functools import lru_cache
from fractions import Fraction
from math import gcd

# an expression is (constant, ((symbol, coefficient), ...)) with sorted symbols


def const(c):
    return (c, ())


def sym(s, k=1, c=0):
    return (c, ((s, k),))


def add(a, b, k=1):
    if not b[1]:
        return (a[0] + k * b[0], a[1])
    d = dict(a[1])
    for s, c in b[1]:
        v = d.get(s, 0) + k * c
        if v:
            d[s] = v
        else:
            d.pop(s, None)
    return (a[0] + k * b[0], tuple(sorted(d.items())))


def scale(a, k):
    return (a[0] * k, tuple((s, c * k) for s, c in a[1])) if k else const(0)


def sub(a, b):
    return add(a, b, -1)


def shift(a, c):
    return (a[0] + c, a[1])


def subst(a, s, e):
    for t, c in a[1]:
        if t == s:
            return add((a[0], tuple(x for x in a[1] if x[0] != s)), e, c)
    return a


def divide(a, k):
    """a/k if every coefficient is divisible"""
    if a[0] % k or any(c % k for _, c in a[1]):
        return None
    return (a[0] // k, tuple((s, c // k) for s, c in a[1]))


def symbols(a):
    return {s for s, _ in a[1]}


def norm(a):
    """tighten a >= 0 over the integers"""
    if not a[1]:
        return a
    g = 0
    for _, c in a[1]:
        g = gcd(g, abs(c))
    if g > 1:
        return (a[0] // g, tuple((s, c // g) for s, c in a[1]))   # floor tightens
    return a


def _reduce(cons, keep):
    """eliminate every symbol not in keep; None when infeasible"""
    cons = set(cons)
    while True:
        out = set()
        best = {}
        for c in cons:
            c = norm(c)
            if not c[1]:
                if c[0] < 0:
                    return None
                continue
            if best.get(c[1], c[0] + 1) > c[0]:
                best[c[1]] = c[0]
        cons = {(v, k) for k, v in best.items()}
        count = {}
        for c in cons:
            for s, k in c[1]:
                if s not in keep:
                    p = count.setdefault(s, [0, 0])
                    p[k > 0] += 1
        if not count:
            return cons
        s = min(count, key=lambda x: (count[x][0] * count[x][1] - sum(count[x]), str(x)))
        pos, neg, rest = [], [], set()
        for c in cons:
            k = dict(c[1]).get(s)
            if k is None:
                rest.add(c)
            elif k > 0:
                pos.append((c, k))
            else:
                neg.append((c, -k))
        for p, kp in pos:
            for n, kn in neg:
                rest.add(add(scale(p, kn), scale(n, kp)))
        if len(rest) > 4000:
            raise OverflowError('too many constraints')
        cons = rest


@lru_cache(maxsize=200000)
def feasible(cons):
    return _reduce(cons, ()) is not None


def _relevant(cons, e):
    """constraints connected to the symbols of e"""
    syms = symbols(e)
    rest = set(cons)
    out = set()
    grew = True
    while grew:
        grew = False
        for c in list(rest):
            if symbols(c) & syms:
                rest.discard(c)
                out.add(c)
                n = symbols(c) - syms
                if n:
                    syms |= n
                    grew = True
    return frozenset(out)


def entails(cons, e):
    """cons imply e >= 0 (cons feasible)"""
    if not e[1]:
        return e[0] >= 0
    if e in cons:
        return True
    return not feasible(_relevant(cons, e) | {shift(scale(e, -1), -1)})


def possible(cons, e):
    """some assignment allows e >= 0"""
    if not e[1]:
        return e[0] >= 0
    return feasible(_relevant(cons, e) | {e})


@lru_cache(maxsize=100000)
def _min(cons, e):
    t = '$min'
    r = _reduce(cons | {add(sym(t), e, -1), add(e, sym(t), -1)}, (t,))
    if r is None:
        return None
    lo = None
    for c in r:
        k = dict(c[1])[t]
        if k > 0:
            v = -(c[0] // k)              # t >= ceil(-c/k)
            lo = v if lo is None else max(lo, v)
    return ('-inf' if lo is None else lo)


def minimum(cons, e):
    """greatest provable lower bound of e, '-inf' when there is none"""
    if not e[1]:
        return e[0]
    return _min(_relevant(cons, e), e)
