"""Configuration-driven walk over an effect tree: conditions the configuration
decides select their branch, undecided conditions visit both branches."""
from . import sym, spec
from .sym import strip, truth


class Leaf(dict):
    """dict-like: leaf(v) -> replacement value or None"""
    def __init__(self, fn):
        super().__init__()
        self.fn = fn
        self.memo = {}

    def __contains__(self, v):
        return self.get1(v) is not None

    def get1(self, v):
        return self.fn(v)

    def __getitem__(self, v):
        return self.get1(v)


class Walker:
    def __init__(self, leaf, on_eff, on_inl=None, unroll=0):
        self.leaf = leaf
        self.m = Leaf(leaf)
        self.on_eff = on_eff
        self.on_inl = on_inl
        self.maybe = 0          # >0: inside a branch that the configuration does not decide
        self.loops = []

    def red(self, v):
        return spec.reduce(v, self.m) if isinstance(v, tuple) else v

    def cond(self, v):
        v = self.red(v)
        f = truth(v)
        if f[0] == 'T': return True
        if f[0] == 'F': return False
        return None

    def run(self, tree):
        for x in tree:
            k = x[0]
            if k == 'eff':
                self.on_eff(self, x[1])
            elif k == 'if':
                c = self.cond(x[1])
                if c is not None:
                    st = self.run(x[2] if c else x[3])
                    if st: return st
                else:
                    self.maybe += 1
                    a = self.run(x[2])
                    b = self.run(x[3])
                    self.maybe -= 1
                    if a and b: return a
            elif k == 'scope':
                st = self.run(x[1])
                if st: return st
            elif k == 'inl':
                if self.on_inl: self.on_inl(self, x, True)
                st = self.run(x[2])
                if self.on_inl: self.on_inl(self, x, False)
                if st == 'throw': return st
            elif k == 'loop':
                self.loops.append(x[1])
                self.run(x[2])
                self.loops.pop()
            elif k == 'switch':
                sel = strip(self.red(x[1]))
                if sel[0] == 'c':
                    pick = None
                    for gi, (labels, body, falls) in enumerate(x[2]):
                        for l in labels:
                            if l == sel[1] or isinstance(l, tuple) and l[0] <= sel[1] <= l[1]:
                                pick = gi
                    if pick is None:
                        for gi, (labels, body, falls) in enumerate(x[2]):
                            if 'default' in labels: pick = gi
                    if pick is not None:
                        st = None
                        for gi in range(pick, len(x[2])):
                            if gi > pick and not x[2][gi][2]:
                                break
                            st = self.run(x[2][gi][1])
                            if st: break
                        if st in ('ret', 'throw', 'cont'): return st
                else:
                    self.maybe += 1
                    for labels, body, falls in x[2]:
                        self.run(body)
                    self.maybe -= 1
            elif k == 'try':
                st = self.run(x[1])
                if st: return st
            elif k == 'ret': return 'ret'
            elif k == 'throw': return 'throw'
            elif k == 'brk': return 'brk'
            elif k == 'cont': return 'cont'
        return None
