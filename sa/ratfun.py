"""Normal form of float terms as quotients of polynomials over named inputs."""
from fractions import Fraction


class Open(Exception):
    pass


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0: del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            r[k] = r.get(k, 0) + c * d
            if r[k] == 0: del r[k]
    return r


ONE = {(): Fraction(1)}


def const(c): return ({(): Fraction(c)} if c else {}, ONE)
def atom(a): return ({(a,): Fraction(1)}, ONE)


def key(q):
    """canonical hashable form (only used for arguments of unknown functions)"""
    n, d = q
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): n = {k: v / c for k, v in n.items()}; d = ONE
    return (tuple(sorted(n.items(), key=repr)), tuple(sorted(d.items(), key=repr)))


def norm(t):
    k = t[0]
    if k == 'k': return const(Fraction(t[1]))
    if k == 'cast': return norm(t[2])
    if k == 'i2f': return atom(('int', t[3]))
    if k == 'neg':
        n, d = norm(t[1]); return ({m: -c for m, c in n.items()}, d)
    if k == 'fop':
        (an, ad), (bn, bd) = norm(t[2]), norm(t[3])
        if t[1] in '+-':
            s = 1 if t[1] == '+' else -1
            return (padd(pmul(an, bd), pmul(bn, ad), s), pmul(ad, bd))
        if t[1] == '*': return (pmul(an, bn), pmul(ad, bd))
        if t[1] == '/':
            if not bn: raise Open('division by zero')
            return (pmul(an, bd), pmul(ad, bn))
        raise Open(t[1])
    if k == 'call':
        f = t[1].split('::')[-1]
        args = [x.t if hasattr(x, 't') else ('k', float(x.c)) if getattr(x, 'c', None) is not None else None for x in t[2]]
        if None in args: raise Open(f)
        if f in ('pow', 'powf') and len(args) == 2 and args[1][0] == 'k' and args[1][1] in (1.0, 2.0, 3.0):
            r = b = norm(args[0])
            for _ in range(int(args[1][1]) - 1): r = (pmul(r[0], b[0]), pmul(r[1], b[1]))
            return r
        if f == 'fma' and len(args) == 3: return norm(('fop', '+', ('fop', '*', args[0], args[1]), args[2]))
        return atom((f,) + tuple(key(norm(a)) for a in args))
    return atom(t)


def same(a, b):
    return pmul(a[0], b[1]) == pmul(b[0], a[1])


def diff(a, b): return (padd(pmul(a[0], b[1]), pmul(b[0], a[1]), -1), pmul(a[1], b[1]))
