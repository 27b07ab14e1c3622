"""Typestate interpretation of effect trees: sets of abstract states through
branches, loops (to a fixed point), switches, scopes and exception handlers."""


class Out:
    def __init__(self):
        self.n = set(); self.ret = set(); self.brk = set(); self.cont = set(); self.thr = set()

    def add(self, o, n=True):
        if n: self.n |= o.n
        self.ret |= o.ret; self.brk |= o.brk; self.cont |= o.cont; self.thr |= o.thr


class Flow:
    """hooks: eff(e, s) -> states after; throws(e, s) -> states thrown with;
    cond(c, taken, s) -> states; leave(locals, s) -> state; ret(v, s) -> states"""
    catch_all = ('std::exception', 'const std::exception &', 'std::exception &')

    def eff(self, e, s): return (s,)
    def throws(self, e, s): return ()
    def cond(self, c, taken, s): return (s,)
    def leave(self, loc, s): return s
    def ret(self, v, loc, s): return (s,)
    def back(self, x, s): return s
    def enter_loop(self, info, s): return s

    def run(self, tree, states):
        o = Out(); o.n = set(states)
        for x in tree:
            cur, o.n = o.n, set()
            if not cur:
                break
            r = self.node(x, cur)
            o.add(r, n=False)
            o.n = r.n
        return o

    def node(self, x, cur):
        o = Out()
        k = x[0]
        if k == 'eff':
            for s in cur:
                o.thr |= set(self.throws(x[1], s))
                o.n |= set(self.eff(x[1], s))
        elif k == 'if':
            a, b = set(), set()
            for s in cur:
                a |= set(self.cond(x[1], True, s)); b |= set(self.cond(x[1], False, s))
            o.add(self.run(x[2], a)); o.add(self.run(x[3], b))
        elif k == 'loop':
            info = x[1]
            c = info.get('cond')
            do = info.get('kind') == 'do'
            seen = set(); todo = {self.enter_loop(info, s) for s in cur}
            heads = set(todo)
            ends = set()
            while todo:
                ent = set()
                for s in todo:
                    ent |= {s} if (do or c is None) else set(self.cond(c, True, s))
                seen |= todo
                r = self.run(x[2], ent)
                o.ret |= r.ret; o.thr |= r.thr; o.n |= r.brk
                back = r.n | r.cont
                ends |= back
                nxt = back
                if do and c is not None:
                    nxt = set()
                    for s in back: nxt |= set(self.cond(c, True, s))
                heads |= nxt
                todo = nxt - seen
            for s in (ends if do else heads):
                if c is None and info.get('kind') not in ('range',):
                    if info.get('kind') in ('for', 'while', 'do'): continue
                    o.n.add(s)
                elif c is None:
                    o.n.add(s)
                else:
                    o.n |= set(self.cond(c, False, s))
        elif k == 'switch':
            groups = x[2]
            hasdef = any('default' in g[0] for g in groups)
            if not hasdef: o.n |= cur
            fall = set()
            for g in groups:
                ent = set(cur)
                if g[2]: ent |= fall
                r = self.run(g[1], ent)
                fall = r.n
                o.n |= r.brk
                o.ret |= r.ret; o.thr |= r.thr; o.cont |= r.cont
            o.n |= fall
        elif k == 'try':
            r = self.run(x[1], cur)
            o.n |= r.n; o.ret |= r.ret; o.brk |= r.brk; o.cont |= r.cont
            caught = False
            for ty, h in x[2]:
                o.add(self.run(h, r.thr))
                if ty is None or 'std::exception' in str(ty): caught = True
            if not caught: o.thr |= r.thr
        elif k == 'inl':
            r = self.run(x[2], cur)
            o.n = r.n | {self.back(x, s) for s in r.ret}; o.thr = r.thr; o.brk = r.brk; o.cont = r.cont
        elif k == 'scope':
            r = self.run(x[1], cur)
            f = lambda q: {self.leave(x[2], s) for s in q}
            o.n, o.ret, o.brk, o.cont, o.thr = map(f, (r.n, r.ret, r.brk, r.cont, r.thr))
        elif k == 'ret':
            for s in cur: o.ret |= set(self.ret(x[1], x[2] if len(x) > 2 else None, s))
        elif k == 'brk': o.brk = set(cur)
        elif k == 'cont': o.cont = set(cur)
        elif k == 'throw': o.thr = set(cur)
        else: o.n = set(cur)
        return o


class ValFlow(Flow):
    """conditions and switches decided by self.V (absval.Val) where it can"""
    V = None

    def cond(self, c, taken, s):
        t = self.V.truth(c)
        return (s,) if t is None or t == taken else ()

    def node(self, x, cur):
        if x[0] == 'switch':
            v = self.V.ev(x[1])
            if isinstance(v, int):
                gs = x[2]; pick = None
                for i, g in enumerate(gs):
                    for l in g[0]:
                        if l == v and not isinstance(l, str) or isinstance(l, tuple) and l[0] <= v <= l[1]: pick = i
                if pick is None:
                    for i, g in enumerate(gs):
                        if 'default' in g[0]: pick = i
                o = Out(); o.n = set(cur)
                if pick is None: return o
                done = set()
                for i in range(pick, len(gs)):
                    if i > pick and not gs[i][2]: break
                    r = self.run(gs[i][1], o.n)
                    o.n = r.n; o.ret |= r.ret; o.thr |= r.thr; o.cont |= r.cont
                    done |= r.brk
                    if not o.n: break
                o.n |= done
                return o
        return super().node(x, cur)
