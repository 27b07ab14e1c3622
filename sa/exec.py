"""Path-wise abstract execution of small member functions: each path is its
conditions, the members it stores, and the value it returns."""
from . import sym, spec
from .sym import strip, truth
from .walk import Leaf

MAX = 256


class TooMany(Exception):
    pass


class Path:
    __slots__ = ('conds', 'state', 'ret', 'effs', 'st', 'loc')

    def __init__(self):
        self.conds = []; self.state = {}; self.ret = None; self.effs = []; self.st = None; self.loc = None

    def copy(self):
        p = Path()
        p.conds = list(self.conds); p.state = dict(self.state); p.ret = self.ret; p.effs = list(self.effs)
        p.st = self.st; p.loc = self.loc
        return p


def key(v):
    return sym.canon(strip(v))


def val(p, v):
    """value v in the state of p"""
    if not isinstance(v, tuple):
        return v
    def leaf(x):
        if x and x[0] in ('fld', 'at', 'deref', 'var', 'loc'):
            return p.state.get(key(x))
        if x and x[0] == 'call' and x[1].split('::')[-1] in ('test', 'operator[]') and 'bitset' in x[1] and x[2] is not None:
            return p.state.get(('bit', key(x[2]), key(x[3][0])), ('bit', key(x[2]), key(x[3][0])))
        if x and x[0] == 'call' and x[1].split('::')[-1] in ('size', 'length') and x[2] is not None:
            return p.state.get(key(x))
        return None
    return spec.reduce(v, Leaf(leaf))


def decide(p, c):
    c = val(p, c)
    f = truth(c)
    if f[0] == 'T': return True, c
    if f[0] == 'F': return False, c
    k = key(c)
    from . import bits
    bb = bits.bools(c, None)
    if bb in (0, 1): return bool(bb), c
    for d, b in p.conds:
        if d == k: return b, c
        if d == key(('un', '!', k)) or k == key(('un', '!', d)): return (not b), c
    return None, c


def run(tree, start=None):
    paths = [start.copy() if start else Path()]
    return _seq(tree, paths)


def _seq(tree, paths):
    for x in tree:
        nxt = []
        for p in paths:
            if p.st:
                nxt.append(p)
            else:
                nxt += _one(x, p)
        paths = nxt
        if len(paths) > MAX:
            raise TooMany()
    return paths


def _branch(p, c, a, b):
    d, cv = decide(p, c)
    out = []
    if d is not False:
        q = p.copy()
        if d is None: q.conds.append((key(cv), True))
        out += _seq(a, [q])
    if d is not True:
        q = p.copy()
        if d is None:
            q.conds.append((key(cv), False))
            kk = key(cv)
            if kk[0] == 'op' and kk[1] == '!=' and kk[2][0] in ('call', 'fld') and kk[3][0] == 'parm': q.state.setdefault(kk[2], kk[3])
        out += _seq(b, [q])
    return out


def _one(x, p):
    k = x[0]
    if k == 'eff':
        e = x[1]
        if e.k == 'set':
            v = val(p, e.val)
            o = strip(e.obj)
            p.state[key(o)] = v
            p.loc = e.loc
            # a store to an object replaces its members
            for kk in [q for q in p.state if q != key(o) and isinstance(q, tuple) and (q[0] in ('fld', 'at', 'bit') and q[1] == key(o) or q[0] == 'call' and q[2] == key(o))]:
                del p.state[kk]
        elif e.k == 'call' and e.obj is not None and 'bitset' in (e.name or ''):
            b = e.name.split('::')[-1]
            if b == 'set' and e.args:
                p.state[('bit', key(e.obj), key(e.args[0]))] = val(p, e.args[1]) if len(e.args) > 1 else ('c', 1)
            elif b == 'reset':
                if e.args:
                    p.state[('bit', key(e.obj), key(e.args[0]))] = ('c', 0)
            p.loc = e.loc
        elif e.k == 'call' and e.obj is not None and e.args and (e.name or '').endswith('::resize'):
            p.state[key(('call', 'x::size', e.obj, ()))] = val(p, e.args[0])
            p.loc = e.loc
        p.effs.append(e)
        return [p]
    if k == 'if':
        return _branch(p, x[1], x[2], x[3])
    if k == 'scope':
        return _seq(x[1], [p])
    if k == 'inl':
        out = _seq(x[2], [p])
        for q in out:
            if q.st == 'ret': q.st = None; q.ret = None
        return out
    if k == 'ret':
        p.ret = val(p, x[1]) if x[1] is not None else None
        p.st = 'ret'
        return [p]
    if k == 'throw':
        p.st = 'throw'; return [p]
    if k == 'brk' or k == 'cont':
        p.st = k; return [p]
    if k == 'loop':
        q = p.copy()
        body = _seq(x[2], [q])
        out = [p]
        for b in body:
            if b.st in ('brk', 'cont'): b.st = None
            b.conds.append((('loop', x[1]['id']), True))
            out.append(b)
        return out
    if k == 'switch':
        sel = strip(val(p, x[1]))
        groups = x[2]
        out = []
        for gi, (labels, body, falls) in enumerate(groups):
            if sel[0] == 'c':
                hit = any(l == sel[1] or isinstance(l, tuple) and l[0] <= sel[1] <= l[1] for l in labels if l != 'default')
                anyhit = any(l == sel[1] or isinstance(l, tuple) and l[0] <= sel[1] <= l[1] for g in groups for l in g[0] if l != 'default')
                if not hit and not ('default' in labels and not anyhit):
                    continue
            q = p.copy()
            if sel[0] != 'c': q.conds.append((('case', key(sel), tuple(map(str, labels))), True))
            cur = [q]
            for gj in range(gi, len(groups)):
                if gj > gi and not groups[gj][2]: break
                cur = _seq(groups[gj][1], cur)
            for b in cur:
                if b.st == 'brk': b.st = None
            out += cur
        if sel[0] != 'c' and not any('default' in g[0] for g in groups) or not out:
            q = p.copy()
            q.conds.append((('case', key(sel), ('none',)), True))
            out.append(q)
        return out
    if k == 'try':
        return _seq(x[1], [p])
    return [p]
