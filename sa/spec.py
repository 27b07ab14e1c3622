"""Specialise an effect tree for fixed values of layout-selecting members:
conditions they decide are folded, switches select their case, and loops whose
index is compared with constants ('for (k) switch (k)') are unrolled."""
from . import sym
from .sym import Eff, mkop, truth, strip


def reduce(v, m):
    """substitute + constant-fold a value"""
    if not isinstance(v, tuple) or not v:
        return v
    if v in m:
        return m[v]
    k = v[0]
    if k == 'cast':
        x = reduce(v[2], m)
        return x if x[0] == 'c' else ('cast', v[1], x)
    w = tuple(reduce(x, m) if isinstance(x, tuple) else x for x in v)
    if k == 'op':
        if w[1] == '&&':
            a, b = w[2], w[3]
            if a[0] == 'c': return b if a[1] else ('c', 0)
            if b[0] == 'c': return a if b[1] else ('c', 0)
        elif w[1] == '||':
            a, b = w[2], w[3]
            if a[0] == 'c': return ('c', 1) if a[1] else b
            if b[0] == 'c': return ('c', 1) if b[1] else a
        else:
            return mkop(w[1], w[2], w[3])
    if k == 'un' and w[2][0] == 'c':
        if w[1] == '!': return ('c', int(not w[2][1]))
        if w[1] == '-': return ('c', -w[2][1])
        if w[1] == '~': return ('c', ~w[2][1])
    if k == 'ite' and w[1][0] == 'c':
        return w[2] if w[1][1] else w[3]
    return w


def red_eff(e, m):
    if not m:
        return e
    r = lambda x: reduce(x, m) if isinstance(x, tuple) else x
    return Eff(e.k, e.name, r(e.obj), tuple(r(a) for a in e.args), r(e.val), e.loc, e.node, e.fid, e.stack)


def specialise(tree, m, idx=None):
    """m: value -> constant, applied to conditions; idx: loop-index values,
    applied everywhere"""
    idx = idx or {}
    out, _ = _sp(tree, m, idx)
    return out


def _sp(tree, m, idx):
    out = []
    both = dict(m); both.update(idx)
    for x in tree:
        k = x[0]
        if k == 'eff':
            out.append(('eff', red_eff(x[1], idx)))
        elif k == 'if':
            c = reduce(x[1], both)
            if c[0] == 'c' or c == ('null',):
                b, st = _sp(x[2] if (c[0] == 'c' and c[1]) else x[3], m, idx)
                out.append(('scope', b, []))
                if st:
                    return out, st
            else:
                f = truth(c)
                if f[0] in 'TF':
                    b, st = _sp(x[2] if f[0] == 'T' else x[3], m, idx)
                    out.append(('scope', b, []))
                    if st: return out, st
                    continue
                a, sa = _sp(x[2], m, idx)
                b, sb = _sp(x[3], m, idx)
                out.append(('if', c, a, b) + tuple(x[4:]))
                if sa and sb:
                    return out, sa
        elif k == 'scope':
            b, st = _sp(x[1], m, idx)
            out.append(('scope', b) + tuple(x[2:]))
            if st: return out, st
        elif k == 'inl':
            b, st = _sp(x[2], m, idx)
            out.append(('inl', x[1], b) + tuple(x[3:]))
            if st == 'throw': return out, st
        elif k == 'loop':
            cs = index_constants(x[2], x[1]['id'])
            if cs and len(cs) <= 64 and max(cs) < 256:
                for n in range(0, max(cs) + 1):
                    i2 = dict(idx); i2[('lv', x[1]['id'])] = ('c', n)
                    b, st = _sp(x[2], m, i2)
                    out.append(('scope', b, []))
                    if st in ('ret', 'throw'): return out, st
                    if st == 'brk': break
                continue
            b, st = _sp(x[2], m, idx)
            info = dict(x[1])
            for kk in ('cond', 'range'):
                if isinstance(info.get(kk), tuple):
                    info[kk] = reduce(info[kk], idx)
            out.append(('loop', info, b) + tuple(x[3:]))
        elif k == 'switch':
            sel = strip(reduce(x[1], both))
            if sel[0] == 'c':
                pick = None
                for gi, (labels, body, falls) in enumerate(x[2]):
                    for l in labels:
                        if l == sel[1] or isinstance(l, tuple) and l[0] <= sel[1] <= l[1]:
                            pick = gi
                if pick is None:
                    for gi, (labels, body, falls) in enumerate(x[2]):
                        if 'default' in labels: pick = gi
                if pick is not None:
                    st = None
                    for gi in range(pick, len(x[2])):
                        if gi > pick and not x[2][gi][2]:
                            break
                        b, st = _sp(x[2][gi][1], m, idx)
                        out.append(('scope', b, []))
                        if st: break
                    if st in ('ret', 'throw', 'cont'): return out, st
            else:
                gs = [(l, _sp(b, m, idx)[0], f) for l, b, f in x[2]]
                out.append(('switch', sel, gs) + tuple(x[3:]))
        elif k == 'try':
            b, st = _sp(x[1], m, idx)
            out.append(('try', b, x[2]) + tuple(x[3:]))
            if st: return out, st
        elif k == 'ret':
            out.append(x); return out, 'ret'
        elif k == 'throw':
            out.append(x); return out, 'throw'
        elif k == 'brk':
            return out, 'brk'
        elif k == 'cont':
            return out, 'cont'
        else:
            out.append(x)
    return out, None


def index_constants(body, lid):
    """constants the loop index is compared with for (in)equality in the body"""
    cs = set()
    lv = ('lv', lid)
    def isidx(v):
        v = strip(v)
        return v == lv or v[0] == 'op' and v[1] == '+' and lv in (v[2], v[3])
    for n in sym.walk(body):
        if n[0] == 'switch' and isidx(n[1]):
            for g in n[2]:
                for l in g[0]:
                    if isinstance(l, int): cs.add(l)
        elif n[0] == 'if':
            for a in sym.find_all(strip(n[1]), lambda y: y[0] == 'op' and y[1] in ('==', '!=')):
                if isidx(a[2]) and a[3][0] == 'c': cs.add(a[3][1])
                if isidx(a[3]) and a[2][0] == 'c': cs.add(a[2][1])
    return {c for c in cs if isinstance(c, int) and c >= 0}
