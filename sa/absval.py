"""Abstract evaluation of condition terms under a predicate valuation: leaves are
answered by an oracle (None = unknown, both branches are taken)."""
from .sym import strip, mkop

NULL = ('nullptr',)


class Val:
    """oracle(term) -> int | NULL | ('ptr', tag) | None"""

    def __init__(self, oracle):
        self.oracle = oracle
        self.memo = {}

    def ev(self, t):
        if t is None: return None
        t = strip(t)
        if t in self.memo: return self.memo[t]
        r = self._ev(t)
        self.memo[t] = r
        return r

    def truth(self, t):
        v = self.ev(t)
        if v is None: return None
        if v == NULL: return False
        if isinstance(v, tuple): return True
        return bool(v)

    def _ev(self, t):
        if not isinstance(t, tuple): return None
        k = t[0]
        if k == 'c': return t[1] if isinstance(t[1], (int, float)) else None
        if k == 'null': return NULL
        r = self.oracle(t, self)
        if r is not None: return r
        if k == 'ite':
            c = self.truth(t[1])
            if c is None:
                a, b = self.ev(t[2]), self.ev(t[3])
                return a if a == b else None
            return self.ev(t[2] if c else t[3])
        if k == 'un':
            if t[1] == '!':
                c = self.truth(t[2])
                return None if c is None else int(not c)
            v = self.ev(t[2])
            if t[1] in ('*', '&'): return v
            if isinstance(v, int):
                return {'-': -v, '~': ~v, '+': v}.get(t[1])
            return None
        if k == 'op':
            op = t[1]
            if op == '&&':
                a = self.truth(t[2])
                if a is False: return 0
                b = self.truth(t[3])
                if b is False: return 0
                return 1 if a and b else None
            if op == '||':
                a = self.truth(t[2])
                if a: return 1
                b = self.truth(t[3])
                if b: return 1
                return 0 if a is False and b is False else None
            a, b = self.ev(t[2]), self.ev(t[3])
            if a is None or b is None: return None
            if op in ('==', '!='):
                if isinstance(a, tuple) != isinstance(b, tuple):
                    z = b if isinstance(a, tuple) else a
                    if z == 0:
                        p = a if isinstance(a, tuple) else b
                        return int((p == NULL) == (op == '=='))
                    return None
                return int((a == b) == (op == '=='))
            if isinstance(a, tuple) or isinstance(b, tuple): return None
            try:
                return {'<': lambda: int(a < b), '>': lambda: int(a > b), '<=': lambda: int(a <= b), '>=': lambda: int(a >= b),
                        '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b,
                        '<<': lambda: a << b, '>>': lambda: a >> b, '/': lambda: a // b if isinstance(a, int) and isinstance(b, int) else a / b, '%': lambda: a % b}[op]()
            except (KeyError, ZeroDivisionError, TypeError, ValueError):
                return None
        if k == 'call' and t[2] is not None and t[1].split('::')[-1] in ('get', 'value', 'load', 'operator*', 'operator->') and not t[3]:
            return self.ev(t[2])
        return None
