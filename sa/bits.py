"""Bit-provenance domain: which bit of which property a bit of a value carries.
A bit is 0, 1, ('v', value, i) or ('mix', ...) when it cannot be attributed."""
from . import sym
from .sym import strip, type_bits

W = 64


def const_bits(c):
    return [(c >> i) & 1 for i in range(W)]


def bor(a, b):
    if a == 0: return b
    if b == 0: return a
    if a == 1 or b == 1: return 1
    if a == b: return a
    return ('mix', a, b, '|')


def band(a, b):
    if a == 0 or b == 0: return 0
    if a == 1: return b
    if b == 1: return a
    if a == b: return a
    return ('mix', a, b, '&')


def bxor(a, b):
    if a == 0: return b
    if b == 0: return a
    if a == b: return 0
    return ('mix', a, b, '^')


def bools(v, mem):
    """bit that says whether v is true"""
    v0 = v
    while v[0] == 'cast':
        v = v[2]
    if v[0] == 'c':
        return 1 if v[1] else 0
    if v[0] == 'op' and v[1] == '!=' and v[3] == ('c', 0):
        return bools(v[2], mem)
    if v[0] == 'op' and v[1] == '==' and v[3] == ('c', 1):
        return bools(v[2], mem)
    if v[0] == 'op' and v[1] in ('&', '|', '^', '<<', '>>') or v[0] == 'ite' or v[0] == 'at':
        bs = bits(v, mem)
        live = [b for b in bs if b != 0]
        if not live: return 0
        if len(live) == 1: return live[0]
        if 1 in live: return 1
    if v[0] == 'op' and v[1] == '>' and v[3] == ('c', 0) and all(b == 0 for b in bits(v[2], mem)):
        return 0
    if v[0] == 'op' and v[1] in ('/', '%', '*') and all(b == 0 for b in bits(v, mem)):
        return 0
    if v[0] == 'op' and v[1] == '&&':
        return band(bools(v[2], mem), bools(v[3], mem))
    if v[0] == 'op' and v[1] == '||':
        return bor(bools(v[2], mem), bools(v[3], mem))
    if v[0] == 'un' and v[1] == '!':
        b = bools(v[2], mem)
        return 1 - b if b in (0, 1) else ('not', b)
    return ('v', norm(v), 0)


def norm(v):
    return sym.canon(strip(v))


def bits(v, mem=None):
    """mem(v) -> list of bits for memory cells, or None"""
    k = v[0]
    if mem:
        r = mem(v)
        if r is not None:
            return (list(r) + [0] * W)[:W]
    if k == 'c':
        if isinstance(v[1], int):
            return const_bits(v[1])
        return [('v', v, i) for i in range(W)]
    if k == 'cast':
        n = type_bits(v[1])
        b = bits(v[2], mem)
        if n == 1:
            return [bools(v[2], mem)] + [0] * (W - 1)
        if n and n < W and v[1] not in ('float', 'double'):
            return b[:n] + [0] * (W - n)
        return b
    if k == 'op':
        op = v[1]
        if op in ('|', '&', '^'):
            f = {'|': bor, '&': band, '^': bxor}[op]
            a, b = bits(v[2], mem), bits(v[3], mem)
            return [f(x, y) for x, y in zip(a, b)]
        if op == '+':
            a, b = bits(v[2], mem), bits(v[3], mem)
            if all(x == 0 or y == 0 for x, y in zip(a, b)):
                return [bor(x, y) for x, y in zip(a, b)]
        if op == '*' and v[3][0] == 'c' and isinstance(v[3][1], int) and v[3][1] > 0 and v[3][1] & (v[3][1] - 1) == 0:
            n = v[3][1].bit_length() - 1
            return ([0] * n + bits(v[2], mem))[:W]
        if op in ('/', '%') and v[3][0] == 'c' and isinstance(v[3][1], int) and v[3][1] > 0 and v[3][1] & (v[3][1] - 1) == 0:
            n = v[3][1].bit_length() - 1
            a = bits(v[2], mem)
            return a[n:] + [0] * n if op == '/' else a[:n] + [0] * (W - n)
        if op == '<<' and v[3][0] == 'c':
            return ([0] * v[3][1] + bits(v[2], mem))[:W]
        if op == '>>' and v[3][0] == 'c':
            return bits(v[2], mem)[v[3][1]:] + [0] * v[3][1]
        if op in ('==', '!=', '<', '>', '<=', '>=', '&&', '||'):
            return [bools(v, mem)] + [0] * (W - 1)
    if k == 'un' and v[1] == '!':
        return [bools(v, mem)] + [0] * (W - 1)
    if k == 'un' and v[1] == '~':
        return [1 - x if x in (0, 1) else ('not', x) for x in bits(v[2], mem)]
    if k == 'ite':
        c = bools(v[1], mem)
        a, b = bits(v[2], mem), bits(v[3], mem)
        out = []
        for x, y in zip(a, b):
            if x == y: out.append(x)
            elif x == 1 and y == 0: out.append(c)
            elif x == 0 and y == 1: out.append(1 - c if c in (0, 1) else ('not', c))
            elif c == 1: out.append(x)
            elif c == 0: out.append(y)
            else: out.append(('mux', c, x, y))
        return out
    n = norm(v)
    return [('v', n, i) for i in range(W)]


def bshow(b):
    if b in (0, 1): return str(b)
    if b[0] == 'v':
        return '%s.%d' % (sym.show(b[1]), b[2])
    return b[0] + '(' + ','.join(bshow(x) if isinstance(x, tuple) or x in (0, 1) else str(x) for x in b[1:]) + ')'


def atoms(b, out):
    """bits of members and parameters b depends on; False if it depends on anything else"""
    if b in (0, 1): return True
    if b[0] == 'v':
        if not b[1] or b[1][0] not in ('fld', 'parm'): return False
        out.add(b)
        return True
    if b[0] in ('mix', 'not', 'mux'): return all(atoms(x, out) for x in b[1:] if not isinstance(x, str))
    return False


def value(b, env):
    if b in (0, 1): return b
    if b[0] == 'v': return env[b]
    if b[0] == 'not': return 1 - value(b[1], env)
    if b[0] == 'mux': return value(b[2] if value(b[1], env) else b[3], env)
    x, y = value(b[1], env), value(b[2], env)
    return x | y if b[3] == '|' else x & y if b[3] == '&' else x ^ y


def differs(b, w):
    """True if bit b can differ from bit w, False if it is the same, None if not known"""
    at = set()
    if not atoms(b, at) or not atoms(w, at) or len(at) > 10: return None
    at = sorted(at, key=repr)
    for k in range(1 << len(at)):
        env = {a: k >> i & 1 for i, a in enumerate(at)}
        if value(b, env) != value(w, env): return True
    return False
