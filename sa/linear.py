"""Linear normal form of values and case-splitting equality."""
from . import sym
from .sym import strip


class Lin:
    """sum of coefficient * atom; atom () is the constant"""

    def __init__(self, t=None):
        self.t = t or {}

    def add(self, a, c=1):
        self.t[a] = self.t.get(a, 0) + c
        if not self.t[a]:
            del self.t[a]

    def plus(self, o, k=1):
        r = Lin(dict(self.t))
        for a, c in o.t.items():
            r.add(a, c * k)
        return r

    def zero(self):
        return not self.t

    def const(self):
        return self.t.get((), 0) if all(a == () for a in self.t) else None


def split_conds(v, acc):
    """conditions / switch ids a value depends on"""
    if not isinstance(v, tuple) or not v:
        return acc
    if v[0] == 'ite':
        acc.append(('c', v[1]))
    if v[0] == 'opq' and len(v) > 3 and v[1] == 'switch':
        acc.append(('s', v[2], len(v[3])))
    for x in v:
        if isinstance(x, tuple):
            split_conds(x, acc)
    return acc


def pick(v, what, val):
    """resolve one condition everywhere in v"""
    if not isinstance(v, tuple) or not v:
        return v
    if what[0] == 'c' and v[0] == 'ite' and v[1] == what[1]:
        return pick(v[2] if val else v[3], what, val)
    if what[0] == 's' and v[0] == 'opq' and len(v) > 3 and v[1] == 'switch' and v[2] == what[1]:
        return pick(v[3][val], what, val)
    return tuple(pick(x, what, val) if isinstance(x, tuple) else x for x in v)


class Cmp:
    """equality of two values up to linear arithmetic, case splits on shared
    conditions, and loop accumulation"""

    def __init__(self, loops, leaf=None):
        self.loops = loops
        self.leaf = leaf or (lambda v: None)
        self.unknown = False
        self.witness = None

    def lin(self, v):
        v = v if v[0] != 'cast' else strip(v)
        k = v[0]
        for _ in range(8):
            x = self.leaf(v)
            if x is None or x == v:
                break
            if isinstance(x, int):
                return Lin({(): x} if x else {})
            v = strip(x); k = v[0]
        if k == 'c' and isinstance(v[1], int):
            return Lin({(): v[1]} if v[1] else {})
        if k == 'op' and v[1] == '+':
            return self.lin(v[2]).plus(self.lin(v[3]))
        if k == 'op' and v[1] == '-':
            return self.lin(v[2]).plus(self.lin(v[3]), -1)
        if k == 'op' and v[1] == '*':
            a, b = self.lin(v[2]), self.lin(v[3])
            r = Lin()
            for x1, c1 in a.t.items():
                for x2, c2 in b.t.items():
                    m = tuple(sorted((x1 or ()) + (x2 or ()), key=repr))
                    r.add(m, c1 * c2)
            return r
        if k == 'cast':
            return self.lin(v[2])
        if k == 'opq' and v[1] == 'after' and v[2] in self.loops and v[3] in self.loops[v[2]]['end']:
            lp = self.loops[v[2]]
            head = ('opq', 'loopvar', v[2], v[3])
            d = self.lin(lp['end'][v[3]]).plus(self.lin(head), -1)
            r = self.lin(lp['before'][v[3]])
            n = self.count(lp)
            for a, c in d.t.items():
                if n is not None and not sym.contains(a, lambda y: isinstance(y, tuple) and y[:1] == ('lv',) or y[:2] == ('opq', 'loopvar')):
                    for x2, c2 in n.t.items():
                        r.add(tuple(sorted(a + x2, key=repr)), c * c2)
                else:
                    r.add((('L', v[2]),) + tuple(a), c)
            return r
        if k == 'opq' and v[1] not in ('loopvar', 'switch'):
            self.unknown = True
        return Lin({(strip(v),): 1})

    def count(self, lp):
        return None

    def equal(self, v, g, depth=0):
        """True / False / None"""
        conds = split_conds(v, []) + split_conds(g, [])
        for lid, lp in self.loops.items():
            pass
        if not conds:
            self.unknown = False
            d = self.lin(v).plus(self.lin(g), -1)
            # conditions hidden in loop deltas
            hidden = []
            for a in d.t:
                split_conds(a, hidden)
            if hidden and depth < 12:
                c = hidden[0]
                return self.cases(v, g, c, depth, True)
            if d.zero():
                return True
            if self.unknown:
                return None
            self.witness = d
            return False
        if depth > 12:
            return None
        return self.cases(v, g, conds[0], depth, False)

    def cases(self, v, g, c, depth, inloop):
        res = True
        vals = (True, False) if c[0] == 'c' else range(c[2])
        saved = self.loops
        for x in vals:
            if inloop:
                self.loops = {k: dict(lp, end={i: pick(e, c, x) for i, e in lp['end'].items()}, before={i: pick(e, c, x) for i, e in lp['before'].items()}) for k, lp in saved.items()}
            r = self.equal(pick(v, c, x), pick(g, c, x), depth + 1)
            self.loops = saved
            if r is False:
                return False
            if r is None:
                res = None
        return res
