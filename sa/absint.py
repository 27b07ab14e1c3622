"""Abstract interpretation of function bodies in a bit-provenance domain.

Constants (and multiples of one symbolic base offset) are propagated; every other
integer is a vector of bits, each of them 0, 1, the name of an input bit, a negation
or choice of such bits, or unknown ('T').  Branches on unknown bits are joined, loops
run while their condition is a constant.  What the domain cannot follow raises
Undecided, so a client can tell 'wrong' from 'not understood'."""
import re
from .sym import short, type_bits

T = 'T'
MAXSTEPS = 400000


class Undecided(Exception):
    pass


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v): self.v = v


class Thrown(Exception):
    pass


# --- bits -------------------------------------------------------------------
def bnot(a):
    if a == 0: return 1
    if a == 1: return 0
    if a == T: return T
    if a[0] == '!': return a[1]
    return ('!', a)


def band(a, b):
    if a == 0 or b == 0: return 0
    if a == 1: return b
    if b == 1: return a
    if a == b: return a
    if a == T or b == T: return T
    if a == bnot(b): return 0
    return ('&', a, b)


def bor(a, b): return bnot(band(bnot(a), bnot(b))) if not (a == 0 or b == 0 or a == 1 or b == 1) else (b if a == 0 else a if b == 0 else 1)


def bxor(a, b):
    if a == 0: return b
    if b == 0: return a
    if a == 1: return bnot(b)
    if b == 1: return bnot(a)
    if a == T or b == T: return T
    if a == b: return 0
    return ('^', a, b)


def bite(c, a, b):
    if a == b: return a
    if c == 1: return a
    if c == 0: return b
    if c == T: return T
    if a == 1 and b == 0: return c
    if a == 0 and b == 1: return bnot(c)
    if a == c: return bor(c, b)
    if b == c: return band(c, a)
    if a == T or b == T: return T
    return ('?', c, a, b)


# --- values -----------------------------------------------------------------
class Int:
    __slots__ = ('w', 's', 'c', 'l', 'b')

    def __init__(self, w, s, c=None, l=None, b=None):
        self.w, self.s, self.c, self.l, self.b = w, s, c, l, b

    def bits(self):
        if self.b is not None: return self.b
        if self.c is not None: return tuple((self.c >> i) & 1 for i in range(self.w))
        return (T,) * self.w

    def key(self): return (self.w, self.s, self.c, self.l, self.b)
    def __eq__(self, o): return isinstance(o, Int) and self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def __repr__(self): return 'Int(%s)' % (self.c if self.c is not None else '%d*B%+d' % self.l if self.l else self.b,)


def K(w, s, c):
    c &= (1 << w) - 1
    if s and w > 1 and c >> (w - 1): c -= 1 << w
    return Int(w, s, c=c)


def Ln(w, s, a, c):
    return K(w, s, c) if a == 0 else Int(w, s, l=(a, c))


def Bv(w, s, bits):
    bits = tuple(bits)
    if all(x in (0, 1) and not isinstance(x, tuple) for x in bits):
        return K(w, s, sum(x << i for i, x in enumerate(bits)))
    return Int(w, s, b=bits)


def unknown(w, s): return Int(w, s, b=(T,) * w)


class Flt:
    __slots__ = ('w', 't')

    def __init__(self, w, t): self.w, self.t = w, t
    def bits(self):
        if self.t[0] == 'bits': return self.t[1]
        return tuple(('fb', self.w, self.t, i) for i in range(self.w))
    def __eq__(self, o): return isinstance(o, Flt) and (self.w, self.t) == (o.w, o.t)
    def __hash__(self): return hash((self.w, self.t))
    def __repr__(self): return 'Flt%d(%s)' % (self.w, self.t)


def flt_bits(w, bits):
    bits = tuple(bits)
    b = bits[0]
    if isinstance(b, tuple) and b[0] == 'fb' and b[1] == w and all(x == ('fb', w, b[2], i) for i, x in enumerate(bits)):
        return Flt(w, b[2])
    return Flt(w, ('bits', bits))


class Ptr:
    __slots__ = ('base', 'off', 'es')          # base: ('vec', id) or ('cell', key, type); off Int in bytes

    def __init__(self, base, off, es): self.base, self.off, self.es = base, off, es
    def __eq__(self, o): return isinstance(o, Ptr) and (self.base, self.off) == (o.base, o.off)
    def __hash__(self): return hash((self.base, self.off))
    def __repr__(self): return 'Ptr(%s,%s)' % (self.base, self.off)


class Ref:                                     # an object or a vector
    __slots__ = ('id', 'cls')

    def __init__(self, id, cls): self.id, self.cls = id, cls
    def __eq__(self, o): return isinstance(o, Ref) and self.id == o.id
    def __hash__(self): return hash(self.id)
    def __repr__(self): return 'Ref(%s)' % (self.id,)


class Opq:
    __slots__ = ('n',)

    def __init__(self, n=''): self.n = n
    def __eq__(self, o): return isinstance(o, Opq) and self.n == o.n and self.n != ''
    def __hash__(self): return hash(self.n)
    def __repr__(self): return 'Opq(%s)' % self.n


class Clo:                                     # a lambda with its surroundings
    __slots__ = ('n', 'env', 'this', 'file')

    def __init__(self, n, env, this, file): self.n, self.env, self.this, self.file = n, env, this, file
    def __repr__(self): return 'Clo'


NULL = Opq('nullptr')


def intty(t):
    """(width, signed) of an integer or enumeration type, None otherwise"""
    t = short(t)
    w = type_bits(t)
    if t in ('float', 'double'): return None
    if w: return w, 0 if t.startswith('unsigned') or t == 'bool' else 1
    return None


def vecty(t):
    m = re.match(r'^(?:const )?std::(?:vector|array|basic_string|span)<\s*([^,>]+)', t or '')
    if m: return m.group(1).strip()
    if t and re.match(r'^(?:const )?std::(string|basic_string)\b', t): return 'char'
    return None


def conv_int(v, w, s):
    if isinstance(v, Flt):
        if v.t[0] == 'k':
            return K(w, s, int(v.t[1]))
        return Bv(w, s, tuple(('fb', w, ('f2i', w, s, v.t), i) for i in range(w)))
    if isinstance(v, (Ptr, Ref)): return K(w, s, 1)
    if v == NULL: return K(w, s, 0)
    if not isinstance(v, Int): return unknown(w, s)
    if v.c is not None:
        return K(w, s, v.c)
    if v.l is not None: return Int(w, s, l=v.l)
    b = v.b
    if w <= v.w: return Bv(w, s, b[:w])
    ext = b[-1] if v.s and v.w > 1 else 0
    return Bv(w, s, b + (ext,) * (w - v.w))


def truth(v):
    """bit that tells whether v is true"""
    if isinstance(v, (Ptr, Ref)): return 1
    if v == NULL: return 0
    if isinstance(v, Int):
        if v.c is not None: return 1 if v.c else 0
        if v.l is not None: return 1 if v.l[1] > 0 else T
        r = 0
        for x in v.b: r = bor(r, x)
        return r
    if isinstance(v, Flt):
        return (1 if v.t[1] else 0) if v.t[0] == 'k' else ('cmp', '!=', v.t, ('k', 0.0))
    return T


def arith(op, a, b, w, s):
    if isinstance(a, Flt) or isinstance(b, Flt): raise Undecided('float')
    if not isinstance(a, Int) or not isinstance(b, Int): return unknown(w, s)
    if a.c is not None and b.c is not None:
        x, y = a.c, b.c
        try:
            if op == '+': r = x + y
            elif op == '-': r = x - y
            elif op == '*': r = x * y
            elif op == '/':
                r = abs(x) // abs(y)
                if (x < 0) != (y < 0): r = -r
            elif op == '%':
                r = abs(x) % abs(y)
                if x < 0: r = -r
            elif op == '<<': r = x << y
            elif op == '>>': r = x >> y
            elif op == '&': r = x & y
            elif op == '|': r = x | y
            elif op == '^': r = x ^ y
            else: raise Undecided(op)
        except (ZeroDivisionError, ValueError):
            return unknown(w, s)
        return K(w, s, r)
    la = a.l or ((0, a.c) if a.c is not None else None)
    lb = b.l or ((0, b.c) if b.c is not None else None)
    if la and lb:
        if op == '+': return Ln(w, s, la[0] + lb[0], la[1] + lb[1])
        if op == '-': return Ln(w, s, la[0] - lb[0], la[1] - lb[1])
        if op == '*' and (la[0] == 0 or lb[0] == 0):
            k, m = (la[1], lb) if la[0] == 0 else (lb[1], la)
            return Ln(w, s, k * m[0], k * m[1])
        if lb[0] == 0 and lb[1] > 0:
            d = lb[1]
            if op == '<<': return Ln(w, s, la[0] << d, la[1] << d) if la[1] >= 0 else unknown(w, s)
            if op in ('>>', '&'):
                if op == '&' and d & (d + 1) == 0: op, d = '%', d + 1
                elif op == '>>': op, d = '/', 1 << d
            if op == '/' and la[0] % d == 0: return Ln(w, s, la[0] // d, la[1] // d)
            if op == '%' and la[0] % d == 0: return K(w, s, la[1] % d)
        return unknown(w, s)
    x, y = a.bits(), b.bits()
    # operands of shifts keep their own width
    if op in ('<<', '>>'):
        if b.c is None: return unknown(w, s)
        n = b.c
        x = tuple(x[:w]) + ((x[-1] if a.s else 0),) * (w - len(x))
        if op == '<<': return Bv(w, s, ((0,) * n + x)[:w])
        f = x[-1] if s else 0
        return Bv(w, s, x[n:] + (f,) * min(n, w))
    x = conv_int(a, w, a.s).bits(); y = conv_int(b, w, b.s).bits()
    if op == '&': return Bv(w, s, map(band, x, y))
    if op == '|': return Bv(w, s, map(bor, x, y))
    if op == '^': return Bv(w, s, map(bxor, x, y))
    if op == '+' and all(p == 0 or q == 0 for p, q in zip(x, y)): return Bv(w, s, map(bor, x, y))
    if op == '*':
        for u, k in ((x, b.c), (y, a.c)):
            if k is not None and k > 0 and k & (k - 1) == 0:
                n = k.bit_length() - 1
                return Bv(w, s, ((0,) * n + u)[:w])
    if op in ('/', '%') and b.c is not None and b.c > 0 and b.c & (b.c - 1) == 0 and not a.s:
        n = b.c.bit_length() - 1
        if op == '/': return Bv(w, s, x[n:] + (0,) * n)
        return Bv(w, s, x[:n] + (0,) * (w - n))
    if op == '-' and all(q == 0 or p == 1 for p, q in zip(x, y)): return Bv(w, s, map(bxor, x, y))
    return unknown(w, s)


def compare(op, a, b):
    if op in ('==', '!='):
        if (a == NULL) != (b == NULL) and isinstance(a if b == NULL else b, (Ptr, Ref)): return 1 if op == '!=' else 0
        if isinstance(a, Opq) and isinstance(b, Opq) and a.n and b.n: return int((a.n == b.n) == (op == '=='))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.base != b.base: return 1 if op == '!=' else 0
            a, b = a.off, b.off
    if isinstance(a, Flt) or isinstance(b, Flt):
        ta = a.t if isinstance(a, Flt) else ('i', a); tb = b.t if isinstance(b, Flt) else ('i', b)
        if ta[0] == 'k' and tb[0] == 'k':
            x, y = ta[1], tb[1]
            return int({'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])
        return ('cmp', op, ta, tb)
    if not isinstance(a, Int) or not isinstance(b, Int): return T
    d = None
    if a.c is not None and b.c is not None: d = a.c - b.c
    else:
        la = a.l or ((0, a.c) if a.c is not None else None)
        lb = b.l or ((0, b.c) if b.c is not None else None)
        if la and lb:
            if la[0] == lb[0]: d = la[1] - lb[1]
            else:
                # B >= 0
                da, dc = la[0] - lb[0], la[1] - lb[1]
                if da > 0 and dc > 0: d = 1
                elif da < 0 and dc < 0: d = -1
                elif da > 0 and dc == 0 and op in ('>=', '<'): return 1 if op == '>=' else 0
                elif da < 0 and dc == 0 and op in ('<=', '>'): return 1 if op == '<=' else 0
                else: return T
    if d is not None:
        return int({'==': d == 0, '!=': d != 0, '<': d < 0, '>': d > 0, '<=': d <= 0, '>=': d >= 0}[op])
    w = max(a.w, b.w)
    x = conv_int(a, w, a.s).bits(); y = conv_int(b, w, b.s).bits()
    if op in ('==', '!='):
        r = 0
        for p, q in zip(x, y): r = bor(r, bxor(p, q))
        return r if op == '!=' else bnot(r)
    # sign tests and unsigned range tests against constants
    if a.s and b.c == 0 and op in ('<', '>='): return x[-1] if op == '<' else bnot(x[-1])
    if not (a.s and b.s):
        if op in ('>', '<=') and b.c == 0:
            r = 0
            for p in x: r = bor(r, p)
            return r if op == '>' else bnot(r)
    if b.c is not None and b.c > 0 and b.c & (b.c - 1) == 0 and op in ('<', '>=') and (not a.s or x[-1] == 0):
        r = 0
        for p in x[b.c.bit_length() - 1:]: r = bor(r, p)
        return bnot(r) if op == '<' else r
    return T


def join(c, a, b):
    """value that is a when bit c holds, b otherwise"""
    if a == b and not (isinstance(a, Opq) and a.n == ''): return a
    if isinstance(a, Int) and isinstance(b, Int):
        w = max(a.w, b.w)
        if a.l is not None or b.l is not None: return unknown(w, a.s)
        return Bv(w, a.s, [bite(c, x, y) for x, y in zip(conv_int(a, w, a.s).bits(), conv_int(b, w, a.s).bits())])
    if isinstance(a, Flt) and isinstance(b, Flt) and a.w == b.w: return Flt(a.w, ('ite', c, a.t, b.t))
    return Opq()


class Interp:
    """oracle(name, obj, args, interp) -> value or None; this_cls: dynamic class of `this`"""

    def __init__(self, db, oracle=None, this_cls=None, inline=None):
        self.db = db
        self.oracle = oracle or (lambda *a: None)
        self.mem = {}
        self.n = 0
        self.steps = 0
        self.oob = []            # (file, line, what) accesses outside an object
        self.this_cls = this_cls
        self.inline = inline or (lambda f: True)
        self.file = None
        self.init = {}           # vec id -> function((a, c), bit) for bytes never written
        self.frames = []
        self.globals = {}
        self.calls = []
        self.depth = 0

    decide = None                # decide(bit) -> 0/1: explore one outcome of an open condition

    def tr(self, v):
        c = truth(v)
        if self.decide is not None and (isinstance(c, tuple) or c == T):
            d = self.decide(c)
            if d is not None: return d
        return c

    # -- memory
    def fresh(self, h='x'):
        self.n += 1
        return (h, self.n)

    def new_vec(self, size, es=1, init=None, hint='vec'):
        v = self.fresh(hint)
        self.mem[v + ('size',)] = size
        self.mem[v + ('es',)] = es
        self.init[v] = init or (lambda k, i: 0)
        return Ref(v, 'vec')

    def new_list(self, values, hint='list'):
        """a sequence of objects (not of bytes)"""
        v = self.fresh(hint)
        self.mem[v + ('n',)] = len(values)
        for i, x in enumerate(values): self.mem[v + ('o', i)] = x
        return Ref(v, 'list')

    def is_list(self, r): return isinstance(r, Ref) and r.id + ('n',) in self.mem

    def item(self, r, i, t=None):
        i = i if isinstance(i, int) else i.c if isinstance(i, Int) else None
        if i is None: raise Undecided('index')
        if not 0 <= i < self.mem[r.id + ('n',)]:
            self.oob.append((self.file, self.line, 'element'))
            raise Undecided('element outside')
        return ('cell', r.id + ('o', i), t or '?')

    def list_method(self, m, o, n, args):
        num = self.mem[o.id + ('n',)]
        if m in ('size', 'length'): return K(64, 0, num)
        if m == 'empty': return K(1, 0, 0 if num else 1)
        if m in ('begin', 'cbegin'): return Ptr(('list', o.id), K(64, 0, 0), 1)
        if m in ('end', 'cend'): return Ptr(('list', o.id), K(64, 0, num), 1)
        if m in ('at', 'operator[]', 'front', 'back'):
            return self.mem[self.item(o, 0 if m == 'front' else num - 1 if m == 'back' else self.ev(args[0]))[1]]
        if m in ('push_back', 'emplace_back') and len(args) == 1:
            v = self.ev(args[0]); self.mem[o.id + ('o', num)] = v; self.mem[o.id + ('n',)] = num + 1
            return v
        if m == 'clear': self.mem[o.id + ('n',)] = 0; return Opq()
        if m == 'reserve': return Opq()
        raise Undecided('list ' + m)

    def vsize(self, r): return self.mem[r.id + ('size',)]
    def ves(self, r): return self.mem[r.id + ('es',)]

    def byte(self, vid, off):
        if isinstance(off, Int) and (off.c is not None or off.l is not None):
            k = off.l or (0, off.c)
            x = self.mem.get(vid + ('B', k))
            return x if x is not None else tuple(self.init[vid](k, i) for i in range(8))
        return (T,) * 8

    def inside(self, base, off, n, what):
        """are n bytes at off inside the object?"""
        if n == 0: return True
        if base[0] == 'cell':
            size = K(64, 0, (type_bits(base[2]) or 64 * 1000) // 8)
        else:
            v = base[1]
            size = arith('*', self.mem[v + ('size',)], K(64, 0, self.mem[v + ('es',)]), 64, 0)
        end = arith('+', off, K(64, 0, n), 64, 0)
        lo = compare('<', conv_int(off, 64, 1), K(64, 1, 0))
        hi = compare('>', end, size)
        if lo == 1 or hi == 1:
            self.oob.append((self.file, self.line, what))
            return False
        return True

    def read_bytes(self, p, n, what='read'):
        if not isinstance(p, Ptr): return [(T,) * 8] * n
        if not self.inside(p.base, p.off, n, what): return [(T,) * 8] * n
        if p.base[0] == 'cell':
            v = self.mem.get(p.base[1])
            b = v.bits() if isinstance(v, (Int, Flt)) else (T,) * 64
            o = p.off.c
            if o is None: return [(T,) * 8] * n
            if len(b) == 1: b = b + (0,) * 7
            out = [tuple(b[8 * (o + i):8 * (o + i) + 8]) for i in range(n)]
            return [x if len(x) == 8 else (T,) * 8 for x in out]
        return [self.byte(p.base[1], arith('+', p.off, K(64, 0, i), 64, 0)) for i in range(n)]

    def write_bytes(self, p, bs, what='write'):
        if not isinstance(p, Ptr): raise Undecided('write through an unknown pointer')
        if not self.inside(p.base, p.off, len(bs), what): return
        if p.base[0] == 'cell':
            v = self.mem.get(p.base[1])
            t = short(p.base[2])
            w = type_bits(t) or 64
            b = list(v.bits() if isinstance(v, (Int, Flt)) else (T,) * w)
            if p.off.c is None: raise Undecided('write')
            for i, x in enumerate(bs): b[8 * (p.off.c + i):8 * (p.off.c + i) + 8] = list(x)
            b = b[:w]
            self.mem[p.base[1]] = flt_bits(w, b) if t in ('float', 'double') else Bv(w, (intty(t) or (w, 0))[1], b)
            return
        for i, x in enumerate(bs):
            o = arith('+', p.off, K(64, 0, i), 64, 0)
            if o.c is None and o.l is None: raise Undecided('write at an unknown position')
            self.mem[p.base[1] + ('B', o.l or (0, o.c))] = tuple(x)

    def from_bytes(self, bs, t):
        t = short(t)
        b = tuple(x for y in bs for x in y)
        if t in ('float', 'double'): return flt_bits(len(b), b)
        it = intty(t)
        if it: return Bv(it[0], it[1], b[:it[0]])
        return Opq()

    def to_bytes(self, v, t):
        w = type_bits(short(t)) or 64
        b = v.bits() if isinstance(v, (Int, Flt)) else (T,) * w
        if isinstance(v, Int) and len(b) < w: b = conv_int(v, w, v.s).bits()
        if w == 1: b = tuple(b[:1]) + (0,) * 7
        return [tuple(b[i:i + 8]) for i in range(0, max(w, 8), 8)]

    # -- lvalues: ('cell', key, type) | ('mem', Ptr, type) | ('bf', key, width, type)
    def load(self, lv, t=None):
        if lv[0] == 'cell':
            v = self.mem.get(lv[1])
            if v is None:
                v = self.default(lv[2], lv[1])
                self.mem[lv[1]] = v
            return v
        if lv[0] == 'bf':
            v = self.mem.get(lv[1])
            b = v.bits() if isinstance(v, Int) else (T,) * 64
            it = intty(lv[3]) or (64, 1)
            b = b[:lv[2]]
            return Bv(it[0], it[1], tuple(b) + ((b[-1] if it[1] else 0),) * (it[0] - len(b)))
        n = (type_bits(short(lv[2])) or 8) // 8 or 1
        return self.from_bytes(self.read_bytes(lv[1], n), lv[2])

    def store(self, lv, v):
        if lv[0] == 'cell':
            t = lv[2]
            it = intty(t)
            if it and isinstance(v, (Int, Flt)) and not (isinstance(v, Int) and (v.w, v.s) == it): v = conv_int(v, *it)
            self.mem[lv[1]] = v
        elif lv[0] == 'bf':
            old = self.mem.get(lv[1])
            b = list(old.bits() if isinstance(old, Int) else (0,) * 64)
            b[:lv[2]] = list(conv_int(v, lv[2] if lv[2] > 1 else 2, 0).bits())[:lv[2]]
            self.mem[lv[1]] = Bv(64, 0, b)
        else:
            self.write_bytes(lv[1], self.to_bytes(v, lv[2]))

    def default(self, t, key):
        e = vecty(t)
        if e:
            m = re.search(r'array<[^,]+,\s*(\d+)', t)
            r = self.new_vec(K(64, 0, int(m.group(1)) if m else 0), (type_bits(e) or 8) // 8 or 1)
            return r
        it = intty(t)
        if it: return unknown(*it)
        t = short(t)
        if t in ('float', 'double'): return Flt(type_bits(t), ('?', key))
        c = t.replace('const ', '').strip(' &*')
        if not t.endswith('*') and (c in self.db.classes or 'union' in t or 'anonymous' in t or 'unnamed' in t): return Ref(self.fresh('obj'), c)
        return Opq()

    # -- expressions
    def tick(self, n):
        self.steps += 1
        if self.steps > MAXSTEPS: raise Undecided('too long')
        if n.get('l'): self.line = n['l']

    def lv(self, n):
        self.tick(n)
        k = n['k']
        if k == 'Ref':
            if n.get('dk') in ('var', 'parm'):
                return self.env[n['id']] if n['id'] in self.env else ('cell', ('unbound', n['id']), n.get('t'))
            if n.get('dk') in ('global', 'smember'):
                return ('cell', ('global', n['id']), n.get('t'))
            raise Undecided('ref ' + str(n.get('n')))
        if k == 'Member':
            b = self.ev(n['b'])
            if isinstance(b, Ptr) and b.base[0] == 'cell': b = self.load(('cell', b.base[1], b.base[2]))
            if n.get('un'):          # members of a union share their bits
                key = (b.id if isinstance(b, Ref) else ('o', repr(b))) + ('union',)
                if n.get('bw'): return ('bf', key, n['bw'], n.get('t'))
                return ('cell', key, n.get('t'))
            key = (b.id if isinstance(b, Ref) else ('o', repr(b))) + ('f', n['n'])
            return ('cell', key, n.get('t'))
        if k == 'Index' or k == 'OpCall' and n['op'] == '[]':
            bn, i = (n['b'], n['i']) if k == 'Index' else n['a']
            b = self.ev(bn)
            i = self.ev(i)
            if self.is_list(b): return self.item(b, i, n.get('t'))
            if isinstance(b, Ref) and b.id + ('size',) in self.mem:
                es = self.ves(b)
                return ('mem', Ptr(('vec', b.id), arith('*', conv_int(i, 64, i.s if isinstance(i, Int) else 0), K(64, 0, es), 64, 0), es), 'bool' if '_Bit_' in (n.get('t') or '') else n.get('t'))
            if isinstance(b, Ptr):
                es = (type_bits(short(n.get('t'))) or 8) // 8 or 1
                return ('mem', Ptr(b.base, arith('+', b.off, arith('*', conv_int(i, 64, 1), K(64, 1, es), 64, 1), 64, 1), es), n.get('t'))
            raise Undecided('index')
        if k == 'Un' and n['op'] == '*' or k == 'OpCall' and n['op'] in ('*',) and len(n['a']) == 1:
            p = self.ev(n['e'] if k == 'Un' else n['a'][0])
            if isinstance(p, Ptr) and p.base[0] == 'list': return self.item(Ref(p.base[1], 'list'), p.off, n.get('t'))
            if isinstance(p, Ptr):
                if p.base[0] == 'cell' and p.off.c == 0 and type_bits(short(p.base[2])) in (None, type_bits(short(n.get('t')))): return ('cell', p.base[1], p.base[2])
                return ('mem', p, n.get('t'))
            if isinstance(p, Ref): return ('ref', p, n.get('t'))
            raise Undecided('deref')
        if k == 'Un' and n['op'] in ('++', '--'):
            l = self.lv(n['e']); self.incdec(n, l); return l
        if k == 'Cond':
            c = self.tr(self.ev(n['c']))
            if c in (0, 1) and not isinstance(c, tuple): return self.lv(n['a'] if c else n['b'])
            raise Undecided('cond lvalue')
        if k == 'Cast' and not intty(n.get('t')) and short(n.get('t') or '') not in ('float', 'double'):
            return self.lv(n['e'])
        if k in ('Bin',) and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            self.ev(n); return self.lv(n['a'])
        # a temporary
        v = self.ev(n)
        key = self.fresh('tmp')
        self.mem[key] = v
        return ('cell', key, n.get('t') or '?')

    def incdec(self, n, l):
        v = self.load(l)
        one = K(32, 1, 1)
        if isinstance(v, Ptr):
            es = K(64, 1, v.es)
            nv = Ptr(v.base, arith('+' if '+' in n['op'] else '-', v.off, es, 64, 1), v.es)
        else:
            if not isinstance(v, Int): raise Undecided('++')
            nv = arith('+' if '+' in n['op'] else '-', v, one, v.w, v.s)
        self.store(l, nv)
        return v, nv

    def ev(self, n):
        if n is None: return Opq()
        self.tick(n)
        k = n['k']
        if 'cv' in n and k not in ('Un', 'Ref') and not (k in ('Bin', 'Call', 'Cond') and False):
            it = intty(n.get('t')) or (32, 1)
            return K(it[0], it[1], n['cv'])
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Undecided('expression ' + k)
        return m(n)

    def e_NullPtr(self, n): return NULL
    def e_This(self, n): return self.this
    def e_Float(self, n): return Flt(type_bits(short(n.get('t'))) or 64, ('k', n['v']))
    def e_Str(self, n):
        r = self.new_vec(K(64, 0, len(n['v']) + 1), hint='lit')
        for i, ch in enumerate(n['v'] + '\0'): self.mem[r.id + ('B', (0, i))] = tuple((ord(ch) & 255) >> j & 1 for j in range(8))
        return r

    def e_ZeroInit(self, n):
        it = intty(n.get('t'))
        if it: return K(it[0], it[1], 0)
        if short(n.get('t')) in ('float', 'double'): return Flt(type_bits(short(n['t'])), ('k', 0.0))
        return self.default(n.get('t') or '', None)

    def e_Ref(self, n):
        if n.get('dk') == 'enum' or 'cv' in n and n.get('dk') not in ('var', 'parm'):
            it = intty(n.get('t')) or (32, 1)
            return K(it[0], it[1], n['cv'])
        if n.get('dk') in ('var', 'parm') and n['id'] not in self.env and 'cv' in n:
            it = intty(n.get('t')) or (32, 1)
            return K(it[0], it[1], n['cv'])
        if n.get('dk') in ('global', 'smember'):
            key = ('global', n['id'])
            if key not in self.mem:
                g = self.db.globals.get(n['id'])
                if g is None or g.get('init') is None: raise Undecided('global ' + str(n.get('n')))
                init = g['init']
                if init.get('k') == 'Init':
                    e = short(re.sub(r'\[\d*\]$', '', (g.get('t') or '').replace('const ', '')).strip())
                    e = vecty(g.get('t') or '') or e
                    es = (type_bits(short(e)) or 8) // 8 or 1
                    items = init['a']
                    while len(items) == 1 and items[0].get('k') == 'Init': items = items[0]['a']
                    r = self.new_vec(K(64, 0, len(items)), es)
                    for i, it in enumerate(items):
                        self.write_bytes(Ptr(('vec', r.id), K(64, 0, i * es), es), self.to_bytes(self.ev(it), e))
                    self.mem[key] = r
                else:
                    self.mem[key] = self.ev(init)
            return self.mem[key]
        if n.get('dk') == 'func': return Opq('fn:' + str(n['n']))
        l = self.lv(n)
        if l[0] == 'ref': return l[1]
        v = self.load(l)
        if isinstance(v, Int) and v.c is None and v.l is None and 'cv' in n: 
            it = intty(n.get('t')) or (32, 1)
            return K(it[0], it[1], n['cv'])
        return v

    def e_Member(self, n):
        l = self.lv(n)
        o = self.oracle('.' + n['n'], n, (), self)
        if o is not None: return o
        return self.load(l)

    def e_MemFn(self, n): return Opq('memfn')
    def e_Index(self, n): return self.load(self.lv(n))
    def e_Typeid(self, n): return Opq()
    def e_Delete(self, n): return Opq()
    def e_Throw(self, n): raise Thrown()
    def e_Lambda(self, n):
        env = dict(self.env)
        for c in n.get('cap') or ():           # captured by value: as it is now
            if c.get('id') in env and not c.get('ref'):
                key = self.fresh('cap')
                l = env[c['id']]
                self.mem[key] = self.copyval(self.load(l))
                env[c['id']] = ('cell', key, l[2] if len(l) > 2 else '?')
        return Clo(n, env, self.this, self.file)

    def apply(self, c, lvs):
        """call of a lambda; lvs: lvalues of the arguments"""
        if not isinstance(c, Clo): raise Undecided('call of a function object')
        if self.depth > 12: raise Undecided('depth')
        ls = []
        for p, l in zip(c.n['p'], lvs):
            if not p['t'].endswith('&'):
                v = self.copyval(self.load(l))
                if (intty(p['t']) or short(p['t']) in ('float', 'double')) and isinstance(v, (Int, Flt)): v = self.cast(v, p['t'])
                key = self.fresh('arg')
                self.mem[key] = v
                l = ('cell', key, p['t'])
            ls.append(l)
        return self.call({'p': c.n['p'], 'body': c.n['b'], 'ret': c.n.get('ret') if isinstance(c.n.get('ret'), str) else '', 'file': c.file, 'line': c.n.get('l') or self.line}, c.this, ls, env=c.env)

    def elements(self, a, b, c):
        """lvalues and positions of the elements from a up to b"""
        if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base) or a.off.c is None or b.off.c is None: raise Undecided('elements')
        if (b.off.c - a.off.c) // a.es > 2000: raise Undecided('long range')
        t = (c.n['p'][-1]['t'] if isinstance(c, Clo) and c.n['p'] else '').replace('const ', '').rstrip('& ')
        if type_bits(short(t)) != a.es * 8: t = {1: 'unsigned char', 2: 'unsigned short', 4: 'unsigned int', 8: 'unsigned long'}[a.es]
        for o in range(a.off.c, b.off.c, a.es):
            p = Ptr(a.base, K(64, 0, o), a.es)
            yield p, self.item(Ref(a.base[1], 'list'), o) if a.base[0] == 'list' else ('mem', p, t)

    def algorithm(self, b, a, n):
        a = [self.ev(x) for x in a]
        a[:2] = [self.asptr(x) for x in a[:2]]
        c = a[-1]
        if not isinstance(c, Clo): raise Undecided(b)
        if b == 'for_each':
            for p, l in self.elements(a[0], a[1], c): self.apply(c, [l])
            return c
        cnt = 0
        for p, l in self.elements(a[0], a[1], c):
            r = self.tr(self.apply(c, [l]))
            if isinstance(r, tuple) or r not in (0, 1): raise Undecided(b)
            if b in ('find_if', 'find_if_not') and r == (b == 'find_if'): return p
            if b == 'any_of' and r: return K(1, 0, 1)
            if b == 'none_of' and r or b == 'all_of' and not r: return K(1, 0, 0)
            cnt += r
        if b == 'count_if': return K(64, 1, cnt)
        if b in ('find_if', 'find_if_not'): return a[1]
        return K(1, 0, 0 if b == 'any_of' else 1)

    def e_New(self, n):
        c = short(n.get('nt'))
        if c in self.db.classes: return Ref(self.fresh('obj'), c)
        raise Undecided('new')

    def e_Sizeof(self, n):
        raise Undecided('sizeof')

    def e_Cond(self, n):
        c = self.tr(self.ev(n['c']))
        if not isinstance(c, tuple) and c in (0, 1): return self.conv(self.ev(n['a'] if c else n['b']), n.get('t'))
        m0 = dict(self.mem)
        a = self.ev(n['a']); ma = self.mem
        self.mem = dict(m0)
        b = self.ev(n['b'])
        self.merge(c, ma, self.mem)
        return join(c, self.conv(a, n.get('t')), self.conv(b, n.get('t')))

    def conv(self, v, t):
        it = intty(t)
        if it and isinstance(v, Int) and (v.w, v.s) != it: return conv_int(v, *it)
        return v

    def merge(self, c, ma, mb):
        out = dict(mb)
        for k, a in ma.items():
            b = mb.get(k)
            if b is None:
                if 'B' in k and k[-2] == 'B':
                    b = tuple(self.init[k[:-2]](k[-1], i) for i in range(8))
                else:
                    out[k] = a; continue
            if a is b: continue
            if 'B' in k and len(k) > 1 and k[-2] == 'B': out[k] = tuple(bite(c, x, y) for x, y in zip(a, b))
            elif isinstance(a, int): out[k] = a
            else: out[k] = join(c, a, b)
        for k, b in mb.items():
            if k not in ma and 'B' in k and k[-2] == 'B':
                a = tuple(self.init[k[:-2]](k[-1], i) for i in range(8))
                out[k] = tuple(bite(c, x, y) for x, y in zip(a, b))
        self.mem = out

    def e_Cast(self, n):
        ck = n.get('ck')
        t = n.get('t')
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            return Bv(1, 0, (truth(self.ev(n['e'])),))
        v = self.ev(n['e'])
        return self.cast(v, t, ck)

    def cast(self, v, t, ck=None):
        it = intty(t)
        if it:
            if it[0] == 1: return Bv(1, 0, (truth(v),))
            if isinstance(v, (Int, Flt)): return conv_int(v, *it)
            if v == NULL: return K(it[0], it[1], 0)
            if isinstance(v, (Ptr, Ref)): return v
            return unknown(*it)
        s = short(t or '')
        if s in ('float', 'double', 'long double'):
            w = type_bits(s) or 128
            if isinstance(v, Int):
                if v.c is not None: return Flt(w, ('k', float(v.c)))
                return Flt(w, ('i2f', w, v.s, v.bits()))
            if isinstance(v, Flt):
                if v.w == w: return v
                if v.t[0] == 'k': return Flt(w, v.t)
                return Flt(w, ('cast', w, v.t if v.t[0] != 'bits' else v.t))
            return Flt(w, ('?', id(v)))
        if isinstance(v, Ptr) and s.endswith('*'):
            es = (type_bits(short(s[:-1].strip())) or 8) // 8 or 1
            return Ptr(v.base, v.off, es)
        if self.enum(t) and isinstance(v, (Int, Flt)): return conv_int(v, *self.enum(t))
        return v

    def enum(self, t):
        return None

    def e_Un(self, n):
        op = n['op']
        if op == '&':
            l = self.lv(n['e'])
            if l[0] == 'cell':
                v = self.mem.get(l[1])
                if isinstance(v, Ref): return v
                return Ptr(('cell', l[1], l[2]), K(64, 0, 0), (type_bits(short(l[2])) or 64) // 8 or 1)
            if l[0] == 'mem': return Ptr(l[1].base, l[1].off, l[1].es)
            if l[0] == 'ref': return l[1]
            raise Undecided('&')
        if op == '*': 
            l = self.lv(n)
            return l[1] if l[0] == 'ref' else self.load(l)
        if op in ('++', '--', 'post++', 'post--'):
            old, new = self.incdec(n, self.lv(n['e']))
            return old if op.startswith('post') else new
        if 'cv' in n:
            it = intty(n.get('t')) or (32, 1)
            return K(it[0], it[1], n['cv'])
        v = self.ev(n['e'])
        if op == '!': return Bv(1, 0, (bnot(truth(v)),))
        it = intty(n.get('t'))
        if op == '~':
            v = conv_int(v, *it)
            if v.c is not None: return K(it[0], it[1], ~v.c)
            return Bv(it[0], it[1], [bnot(x) for x in v.bits()])
        if op == '-':
            if isinstance(v, Flt): return Flt(v.w, ('k', -v.t[1]) if v.t[0] == 'k' else ('neg', v.t))
            return arith('-', K(it[0], it[1], 0), conv_int(v, *it), *it)
        if op == '+': return v
        raise Undecided('unary ' + op)

    def e_Bin(self, n):
        op = n['op']
        if op == ',':
            self.ev(n['a']); return self.ev(n['b'])
        if op in ('&&', '||'):
            a = self.tr(self.ev(n['a']))
            if not isinstance(a, tuple):
                if a == 0 and op == '&&': return K(1, 0, 0)
                if a == 1 and op == '||': return K(1, 0, 1)
            m0 = dict(self.mem)
            b = self.tr(self.ev(n['b']))
            if isinstance(a, tuple) or a == T:
                # the right side may not have been evaluated
                m1 = self.mem
                if m1 != m0: self.merge(a if op == '&&' else bnot(a), m1, m0)
            return Bv(1, 0, ((band if op == '&&' else bor)(a, b),))
        if op == '=':
            l = self.lv(n['a'])
            v = self.copyval(self.ev(n['b']), n.get('t'))
            self.store(l, v)
            return v
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            l = self.lv(n['a'])
            b = self.ev(n['b'])
            a = self.load(l)
            v = self.binop(op[:-1], a, b, n.get('t'), n)
            self.store(l, v)
            return v
        return self.binop(op, self.ev(n['a']), self.ev(n['b']), n.get('t'), n)

    def binop(self, op, a, b, t, n):
        if op in ('==', '!=', '<', '>', '<=', '>='): return Bv(1, 0, (compare(op, a, b),))
        if isinstance(a, Ptr) and op in ('+', '-') and isinstance(b, Int):
            return Ptr(a.base, arith(op, a.off, arith('*', conv_int(b, 64, b.s), K(64, 1, a.es), 64, 1), 64, 1), a.es)
        if isinstance(b, Ptr) and op == '+' and isinstance(a, Int):
            return Ptr(b.base, arith(op, b.off, arith('*', conv_int(a, 64, a.s), K(64, 1, b.es), 64, 1), 64, 1), b.es)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == '-':
            if a.base != b.base: raise Undecided('pointer difference')
            return arith('/', arith('-', a.off, b.off, 64, 1), K(64, 1, a.es), 64, 1)
        if isinstance(a, Flt) or isinstance(b, Flt):
            w = max(x.w for x in (a, b) if isinstance(x, Flt))
            def term(x):
                if isinstance(x, Flt): return x.t
                if isinstance(x, Int): return ('k', float(x.c)) if x.c is not None else ('i2f', w, x.s, x.bits())
                return ('?', id(x))
            ta, tb = term(a), term(b)
            if ta[0] == 'k' and tb[0] == 'k':
                try: return Flt(w, ('k', {'+': ta[1] + tb[1], '-': ta[1] - tb[1], '*': ta[1] * tb[1], '/': ta[1] / tb[1] if tb[1] else 0.0}[op]))
                except KeyError: raise Undecided(op)
            r = Flt(w, ('fop', op, ta, tb))
            return self.cast(r, t) if intty(t) else r
        it = intty(t) or (64, 0)
        if op in ('<<', '>>'): return arith(op, conv_int(a, *it) if isinstance(a, Int) else a, b, *it)
        return arith(op, a, b, *it)

    def e_Init(self, n):
        e = vecty(n.get('t') or '')
        if len(n['a']) == 1 and not e and not re.search(r'\[\d*\]$', n.get('t') or ''): return self.ev(n['a'][0])
        if not n['a'] and (intty(n.get('t')) or short(n.get('t') or '') in ('float', 'double')): return self.e_ZeroInit(n)
        m = re.match(r'^(?:const )?(.*?)\s*\[(\d+)\]$', n.get('t') or '')
        if not e and m: e = m.group(1)
        if e:
            items = n['a']
            while len(items) == 1 and items[0].get('k') == 'Init': items = items[0]['a']
            ma = re.search(r'array<[^,]+,\s*(\d+)', n.get('t') or '')
            num = int(ma.group(1)) if ma else int(m.group(2)) if m else len(items)
            es = (type_bits(short(e)) or 8) // 8 or 1
            r = self.new_vec(K(64, 0, num), es)
            for i, x in enumerate(items):
                if x.get('k') == 'ZeroInit' and vecty(x.get('t') or '') or x.get('sc') == 'ArrayInitLoopExpr': continue
                if i < num: self.write_bytes(Ptr(('vec', r.id), K(64, 0, i * es), es), self.to_bytes(self.ev(x), e))
            return r
        c = short(n.get('t') or '')
        r = Ref(self.fresh('obj'), c)
        if c in self.db.classes:
            fl = self.db.classes[c].get('fields') or []
            for f, x in zip(fl, n['a']): self.mem[r.id + ('f', f['n'])] = self.ev(x)
        return r

    def copyval(self, v, t=None):
        """copy semantics: vectors are copied"""
        if isinstance(v, Ref) and v.id + ('size',) in self.mem:
            r = self.new_vec(self.vsize(v), self.ves(v), self.init[v.id])
            for k in list(self.mem):
                if k[:len(v.id)] == v.id and len(k) > 2 and k[-2] == 'B': self.mem[r.id + k[len(v.id):]] = self.mem[k]
            return r
        if isinstance(v, Ref) and v.cls in self.db.classes and any(k[:len(v.id)] == v.id for k in self.mem):
            r = Ref(self.fresh('obj'), v.cls)
            for k in list(self.mem):
                if k[:len(v.id)] == v.id: self.mem[r.id + k[len(v.id):]] = self.mem[k]
            return r
        return v

    def e_Ctor(self, n):
        if n.get('copy') and len(n['a']) == 1: return self.copyval(self.ev(n['a'][0]))
        c = n['c']
        t = n.get('t') or ''
        if 'iterator' in c and len(n['a']) == 1: return self.ev(n['a'][0])
        if 'ostringstream' in c or 'stringstream' in c and not n['a']: return self.new_vec(K(64, 0, 0), 4 if 'wchar_t' in t else 1)
        e = vecty(t) or vecty(c)
        if e:
            es = (type_bits(short(e)) or 8) // 8 or 1
            args = [self.ev(a) for a in n['a']]
            if 'array<' in t:
                m = re.search(r'array<[^,]+,\s*(\d+)', t)
                return self.new_vec(K(64, 0, int(m.group(1))), es, init=lambda k, i: T)
            args = [a for a in args if not (isinstance(a, Opq) or isinstance(a, Ref) and a.id + ('size',) not in self.mem)]
            if not args: return self.new_vec(K(64, 0, 0), es)
            if isinstance(args[0], Ref) and args[0].id[0] == 'lit' and 'string' in t + c:
                r = self.copyval(args[0]); self.mem[r.id + ('size',)] = K(64, 0, self.vsize(args[0]).c - 1)
                return r
            if isinstance(args[0], Ref): return self.copyval(args[0])
            if isinstance(args[0], Ptr) and len(args) > 1 and isinstance(args[1], (Ptr, Int)):
                num = args[1] if isinstance(args[1], Int) else arith('-', args[1].off, args[0].off, 64, 0)
                if num.c is None: raise Undecided('range')
                nb = num.c if isinstance(args[1], Ptr) else num.c * es
                r = self.new_vec(K(64, 0, nb // es), es)
                self.write_bytes(Ptr(('vec', r.id), K(64, 0, 0), es), self.read_bytes(args[0], nb))
                return r
            if isinstance(args[0], Int):
                r = self.new_vec(conv_int(args[0], 64, 0), es)
                if len(args) > 1: self.fill(r, args[1], e)
                return r
            raise Undecided('container')
        f = self.db.funcs.get(n.get('f') or '')
        o = Ref(self.fresh('obj'), c)
        if f is not None and self.depth < 12:
            self.call(f, o, [self.arg(p, a) for p, a in zip(f['p'], n['a'])], ctor=True)
            return o
        if c in self.db.classes:
            self.zero_fields(o, c)
            return o
        args = [self.ev(a) for a in n['a']]
        o = self.oracle('new ' + c, None, tuple(args), self)
        return o if o is not None else Opq()

    def zero_fields(self, o, c):
        for b in [c] + list(self.db.bases(c)):
            for f in self.db.classes.get(b, {}).get('fields', ()):
                if o.id + ('f', f['n']) in self.mem: continue
                if f.get('init') is not None:
                    try:
                        self.mem[o.id + ('f', f['n'])] = self.conv(self.ev(f['init']), f.get('t'))
                    except Undecided: pass

    def fill(self, r, v, e):
        bs = self.to_bytes(v, e)
        n = self.vsize(r)
        if n.c is not None and n.c <= 4096:
            for i in range(n.c):
                for j, x in enumerate(bs[:self.ves(r)]): self.mem[r.id + ('B', (0, i * self.ves(r) + j))] = x
        else:
            b0 = bs[0]
            self.init[r.id] = lambda k, i: b0[i]

    def arg(self, p, a):
        """argument for parameter p: an lvalue for references"""
        t = p['t']
        if t.endswith('&') and a is not None:
            return self.lv(a)
        v = self.copyval(self.ev(a))
        key = self.fresh('arg')
        it = intty(t)
        if it and isinstance(v, (Int, Flt)): v = self.cast(v, t)
        self.mem[key] = v
        return ('cell', key, t)

    # -- calls
    def e_Call(self, n):
        nm = n.get('n')
        b = (nm or '').split('::')[-1]
        if nm in ('std::move', 'std::forward', 'std::as_const') and len(n['a']) == 1: return self.ev(n['a'][0])
        if b in ('memcpy', 'memmove', '__builtin_memcpy') and len(n['a']) == 3:
            d, s, k = [self.ev(a) for a in n['a']]
            d, s = self.asptr(d), self.asptr(s)
            if not isinstance(k, Int) or k.c is None: raise Undecided('memcpy length')
            self.write_bytes(d, self.read_bytes(s, k.c, 'read'), 'write')
            return d
        if b == 'memset' and len(n['a']) == 3:
            d, s, k = [self.ev(a) for a in n['a']]
            if k.c is None: raise Undecided('memset length')
            self.write_bytes(self.asptr(d), [tuple(conv_int(s, 8, 0).bits())] * k.c, 'write')
            return d
        if nm in ('std::min', 'std::max') and len(n['a']) == 2:
            x, y = [self.ev(a) for a in n['a']]
            c = compare('<', y, x)
            return join(c, y, x) if nm == 'std::min' else join(c, x, y)
        if nm in ('std::copy', 'std::copy_n') and len(n['a']) == 3:
            x, y, z = [self.asptr(self.ev(a)) for a in n['a']]
            if isinstance(x, Ptr) and (nm == 'std::copy' and isinstance(y, Ptr) and isinstance(z, Ptr) or nm == 'std::copy_n' and isinstance(z, Ptr)):
                nb = arith('-', y.off, x.off, 64, 0) if nm == 'std::copy' else arith('*', y, K(64, 0, x.es), 64, 0)
                if nb.c is None: raise Undecided('copy length')
                self.write_bytes(z, self.read_bytes(x, nb.c)); return z
        if nm in ('std::fill', 'std::fill_n') and len(n['a']) == 3:
            x, y, z = [self.ev(a) for a in n['a']]
            x = self.asptr(x)
            if isinstance(x, Ptr):
                nb = arith('-', y.off, x.off, 64, 0) if nm == 'std::fill' else y
                if nb.c is None or x.es != 1: raise Undecided('fill')
                self.write_bytes(x, [tuple(conv_int(z, 8, 0).bits())] * nb.c); return x
        if nm in ('std::reverse', 'std::reverse_copy'):
            a = [self.asptr(self.ev(x)) for x in n['a']]
            nb = arith('-', a[1].off, a[0].off, 64, 0)
            if nb.c is None or a[0].es != 1: raise Undecided('reverse')
            bs = self.read_bytes(a[0], nb.c)
            self.write_bytes(a[-1] if len(a) == 3 else a[0], bs[::-1]); return Opq()
        if nm == 'std::swap' and len(n['a']) == 2:
            l, r = self.lv(n['a'][0]), self.lv(n['a'][1])
            x, y = self.load(l), self.load(r)
            self.store(l, y); self.store(r, x); return Opq()
        if nm in ('std::begin', 'std::cbegin', 'std::end', 'std::cend', 'std::size', 'std::data') and len(n['a']) == 1:
            return self.vec_method(b, self.ev(n['a'][0]), n, [])
        if nm == 'std::get' and len(n['a']) == 1:
            v = self.ev(n['a'][0])
            if isinstance(v, (Int, Flt)): return v
        if nm == 'std::holds_alternative' and len(n['a']) == 1:
            v = self.ev(n['a'][0])
            m = re.match(r'std::holds_alternative<([^,>]+)', n.get('f') or '')
            if isinstance(v, (Int, Flt)) and m: return K(1, 0, int((m.group(1).strip() in ('double', 'float')) == isinstance(v, Flt)))
        if nm and nm.startswith('std::') and b in ('for_each', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'count_if') and len(n['a']) == 3:
            return self.algorithm(b, n['a'], n)
        return self.invoke(n, None)

    def asptr(self, v):
        if isinstance(v, Ref) and v.id + ('size',) in self.mem: return Ptr(('vec', v.id), K(64, 0, 0), self.ves(v))
        if isinstance(v, Ref): return Ptr(('cell', v.id + ('union',), 'unsigned long'), K(64, 0, 0), 8)
        return v

    def e_MCall(self, n):
        o = None
        if n.get('o') is not None:
            o = self.ev(n['o'])
            if n['n'].split('::')[-1] == 'get' and 'unique_ptr' in n['n'] and (isinstance(o, Ref) or o == NULL): return o
            if 'operator bool' in n['n'] and 'unique_ptr' in n['n'] and (isinstance(o, Ref) or o == NULL): return K(1, 0, 0 if o == NULL else 1)
            if isinstance(o, Ptr) and o.base[0] == 'cell': o = self.load(('cell', o.base[1], o.base[2]))
        if self.is_list(o): return self.list_method(n['n'].split('::')[-1], o, n, n['a'])
        if isinstance(o, Ref) and o.id + ('size',) in self.mem:
            return self.vec_method(n['n'].split('::')[-1], o, n, n['a'])
        return self.invoke(n, o)

    def vec_method(self, m, o, n, args):
        es = self.ves(o)
        if m in ('size', 'length'): return self.vsize(o)
        if m == 'empty': return Bv(1, 0, (compare('==', self.vsize(o), K(64, 0, 0)),))
        if m in ('data', 'begin', 'cbegin', 'c_str'): return Ptr(('vec', o.id), K(64, 0, 0), es)
        if m in ('end', 'cend'): return Ptr(('vec', o.id), arith('*', self.vsize(o), K(64, 0, es), 64, 0), es)
        if m in ('at', 'operator[]', 'front', 'back'):
            i = K(64, 0, 0) if m == 'front' else arith('-', self.vsize(o), K(64, 0, 1), 64, 0) if m == 'back' else self.ev(args[0])
            return self.load(('mem', Ptr(('vec', o.id), arith('*', i, K(64, 0, es), 64, 0), es), n.get('t')))
        if m in ('resize', 'assign') and args:
            a = [self.ev(x) for x in args]
            if m == 'assign' and isinstance(a[0], Ptr):
                nb = arith('-', a[1].off, a[0].off, 64, 0)
                if nb.c is None: raise Undecided('assign')
                bs = self.read_bytes(a[0], nb.c)
                self.clear(o); self.mem[o.id + ('size',)] = K(64, 0, nb.c // es)
                self.write_bytes(self.asptr(o), bs)
                return Opq()
            old = self.vsize(o)
            nsz = conv_int(a[0], 64, 0)
            if m == 'assign': self.clear(o)
            self.mem[o.id + ('size',)] = nsz
            if old.c is not None and nsz.c is not None and nsz.c > old.c and len(a) > 1:
                bs = self.to_bytes(a[1], 'unsigned char' if es == 1 else {2: 'unsigned short', 4: 'unsigned int', 8: 'unsigned long'}[es])
                if nsz.c - old.c > 10000:
                    was, keep = self.init.get(o.id), old.c * es if m == 'resize' else 0
                    if keep and was is None and keep > 10000: raise Undecided('resize')
                    for i in range(keep if was is None else 0):
                        if o.id + ('B', (0, i)) not in self.mem: raise Undecided('resize')
                    self.init[o.id] = lambda k, i: was(k, i) if was is not None and k[1] < keep else bs[k[1] % es][i]
                    return Opq()
                for i in range(old.c if m == 'resize' else 0, nsz.c):
                    for j in range(es): self.mem[o.id + ('B', (0, i * es + j))] = bs[j]
            return Opq()
        if m == 'clear': self.clear(o); self.mem[o.id + ('size',)] = K(64, 0, 0); return Opq()
        if m in ('push_back', 'emplace_back'): self.append(o, self.ev(args[0])); return Opq()
        if m == 'str' and not args: return self.copyval(o)
        if m == 'insert' and len(args) == 3:
            a = [self.ev(x) for x in args]
            if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and isinstance(a[2], Ptr):
                s = self.vsize(o)
                end = arith('*', s, K(64, 0, es), 64, 0)
                nb = arith('-', a[2].off, a[1].off, 64, 0)
                if compare('==', a[0].off, end) != 1 or nb.c is None: raise Undecided('insert')
                bs = self.read_bytes(a[1], nb.c)
                self.mem[o.id + ('size',)] = arith('+', s, K(64, 0, nb.c // es), 64, 0)
                self.write_bytes(Ptr(('vec', o.id), end, es), bs)
                return Opq()
            raise Undecided('insert')
        if m in ('shrink_to_fit', 'reserve'): return Opq()
        if m in ('fill',) and args:
            self.fill(o, self.ev(args[0]), {1: 'unsigned char', 2: 'unsigned short', 4: 'unsigned int', 8: 'unsigned long'}[es]); return Opq()
        raise Undecided('container ' + m)

    def same_content(self, a, b):
        na, nb = [self.vsize(x).c - (1 if x.id[0] == 'lit' else 0) if self.vsize(x).c is not None else None for x in (a, b)]
        if na is None or nb is None: return T
        if na != nb: return 0
        r = 1
        for x, y in zip(self.read_bytes(self.asptr(a), na), self.read_bytes(self.asptr(b), nb)):
            for p, q in zip(x, y): r = band(r, bnot(bxor(p, q)))
        return r

    def append(self, o, v):
        es, s = self.ves(o), self.vsize(o)
        self.mem[o.id + ('size',)] = arith('+', s, K(64, 0, 1), 64, 0)
        t = {1: 'unsigned char', 2: 'unsigned short', 4: 'unsigned int', 8: 'unsigned long'}[es]
        self.write_bytes(Ptr(('vec', o.id), arith('*', s, K(64, 0, es), 64, 0), es), self.to_bytes(v, t))

    def clear(self, o):
        for k in [k for k in self.mem if k[:len(o.id)] == o.id and len(k) > 2 and k[-2] == 'B']: del self.mem[k]

    def e_OpCall(self, n):
        op = n['op']
        if op == '()' and n.get('f') not in self.db.funcs:
            return self.apply(self.ev(n['a'][0]), [self.lv(x) for x in n['a'][1:]])
        if op == '[]':
            return self.load(self.lv(n))
        if op == '=' and len(n['a']) == 2:
            l = self.lv(n['a'][0])
            v = self.ev(n['a'][1])
            cur = self.mem.get(l[1]) if l[0] == 'cell' else None
            if isinstance(v, Ref) and v.id + ('size',) in self.mem and isinstance(cur, Ref) and cur.id + ('size',) in self.mem:
                # assign into the same storage: references to it stay valid
                v = self.copyval(v)
                self.clear(cur)
                for k in list(self.mem):
                    if k[:len(v.id)] == v.id and len(k) > 2 and k[-2] == 'B': self.mem[cur.id + k[len(v.id):]] = self.mem[k]
                self.mem[cur.id + ('size',)] = self.vsize(v)
                self.init[cur.id] = self.init[v.id]
                return cur
            self.store(l, self.copyval(v))
            return v
        if op in ('*', '->') and len(n['a']) == 1:
            v = self.ev(n['a'][0])
            if isinstance(v, Ref): return v
            if isinstance(v, Ptr) and v.base[0] == 'list': return self.mem[self.item(Ref(v.base[1], 'list'), v.off)[1]]
            if isinstance(v, Ptr): return self.load(('mem', v, n.get('t'))) if op == '*' else v
            raise Undecided('operator' + op)
        if op == '<<' and len(n['a']) == 2:
            try: o = self.ev(n['a'][0])
            except Undecided: o = Opq()
            if isinstance(o, Ref) and o.id + ('size',) in self.mem:
                try: v = self.ev(n['a'][1])
                except Undecided: v = None
                at = short(n['a'][1].get('t') or '').replace('const ', '')
                if isinstance(v, Int) and at in ('char', 'wchar_t', 'unsigned char', 'signed char'): self.append(o, v)
                else: self.mem[o.id + ('size',)] = unknown(64, 0)
                return o
        if op == '>>' and len(n['a']) == 2:
            try: l = self.lv(n['a'][1])
            except Undecided: l = None
            if l is not None and l[0] == 'cell':
                t = short(n['a'][1].get('t') or '')
                self.mem[l[1]] = Opq('word of a text') if 'string' in t else self.default(t, l[1])
            return Opq()
        if op in ('==', '!=') and len(n['a']) == 2:
            a, b = self.ev(n['a'][0]), self.ev(n['a'][1])
            if isinstance(a, Ref) and isinstance(b, Ref) and a.id + ('size',) in self.mem and b.id + ('size',) in self.mem:
                c = self.same_content(a, b)
                return Bv(1, 0, (c if op == '==' else bnot(c),))
            return Bv(1, 0, (compare(op, a, b),))
        if op in ('|=', '&=', '^=') and len(n['a']) == 2 and 'std::_Ios_' in (n['a'][0].get('t') or ''):
            l = self.lv(n['a'][0])
            a, b = self.load(l), self.ev(n['a'][1])
            v = self.binop(op[0], a, b, 'int', n) if isinstance(a, Int) and isinstance(b, Int) else Opq()
            self.store(l, v)
            return v
        if op in ('|', '&', '^') and len(n['a']) == 2 and 'std::_Ios_' in (n.get('t') or ''):
            a, b = self.ev(n['a'][0]), self.ev(n['a'][1])
            return self.binop(op, a, b, 'int', n) if isinstance(a, Int) and isinstance(b, Int) else Opq()
        if op in ('+', '-') and len(n['a']) == 2:
            a, b = self.ev(n['a'][0]), self.ev(n['a'][1])
            if isinstance(a, Ptr): return self.binop(op, a, b, 'long', n)
            return Opq()
        if op in ('++', '--'):
            l = self.lv(n['a'][0])
            if isinstance(self.load(l), Ptr):
                old, new = self.incdec({'op': op}, l)
                return new if len(n['a']) == 1 else old
        if n.get('f') in self.db.funcs: return self.invoke(n, None)
        for a in n['a']:
            try: self.ev(a)
            except Undecided: pass
        return Opq()

    def invoke(self, n, obj):
        fid = n.get('f')
        f = self.db.funcs.get(fid or '')
        nm = n.get('n') or '?'
        b = nm.split('::')[-1]
        if n.get('virt') and fid:
            c = obj.cls if isinstance(obj, Ref) else None
            if obj is not None and obj == self.root: c = self.this_cls or c
            tgt = self.overrider(fid, c) if c else fid
            f = self.db.funcs.get(tgt)
            if not c and self.db.overriders.get(fid): f = None
        r = self.oracle(b, obj, (n, self), self)
        if r is not None: return r
        if f is not None and self.depth < 12 and self.inline(f):
            a = n['a']
            return self.call(f, obj, [self.arg(p, x) for p, x in zip(f['p'], a)])
        # not interpreted: what it may write is unknown afterwards
        d = self.db.decls.get(fid or '')
        args = []
        for i, a in enumerate(n['a']):
            p = d['p'][i]['t'] if d and i < len(d['p']) else ''
            if p.endswith('&') and not p.startswith('const '):
                try:
                    l = self.lv(a)
                    if l[0] == 'cell': self.mem[l[1]] = self.default(l[2], l[1])
                except Undecided: pass
                args.append(None)
            else:
                try: args.append(self.ev(a))
                except Undecided: args.append(None)
        self.calls.append((nm, obj, tuple(args), self.line))
        t = n.get('t')
        it = intty(t)
        if it:
            return Bv(it[0], it[1], [('call', self.uid(nm, obj, args), i) for i in range(it[0])])
        if short(t or '') in ('float', 'double'): return Flt(type_bits(short(t)), ('call', nm, tuple(x for x in args)))
        if vecty(t or ''):
            return self.new_vec(unknown(64, 0), (type_bits(vecty(t)) or 8) // 8 or 1, init=lambda k, i: T)
        return Opq()

    def uid(self, nm, obj, args):
        self.n += 1
        return (nm, self.n)

    def overrider(self, fid, cls):
        cand = self.db.overriders.get(fid, set()) | {fid}
        for c in [cls] + list(self.db.bases(cls)):
            for i in cand:
                d = self.db.decls.get(i)
                if d and d.get('cls') == c: return i
        return fid

    root = None

    def run(self, f, this, args):
        """args: values for the parameters (lvalues are made for them)"""
        self.root = this
        ls = []
        for p, v in zip(f['p'], args):
            key = self.fresh('par')
            self.mem[key] = v
            ls.append(('cell', key, p['t']))
        self.params = ls
        return self.call(f, this, ls)

    def call(self, f, obj, lvs, ctor=False, env=None):
        save = (getattr(self, 'env', None), getattr(self, 'this', None), self.file, getattr(self, 'line', 0), getattr(self, 'pending', None))
        self.env = dict(env) if env is not None else {}
        self.pending = []
        for p, l in zip(f['p'], lvs): self.env[p['id']] = l
        self.this = obj if obj is not None else Opq('static')
        self.file = f['file']
        self.line = f['line']
        self.depth += 1
        ret = Opq('void')
        try:
            if ctor and isinstance(obj, Ref):
                self.zero_fields(obj, f.get('cls') or obj.cls)
                for i in f.get('inits') or f.get('ini') or ():
                    nmf = i.get('n') or i.get('m')
                    if nmf and i.get('e') is not None: self.mem[obj.id + ('f', nmf)] = self.ev(i['e'])
            try:
                self.st(f['body'])
            except _Return as r:
                ret = r.v
            for c, v, m in reversed(self.pending):
                mm = self.mem
                self.merge(c, m, mm)
                ret = join(c, v, ret) if v is not None else ret
            if intty(f.get('ret') or '') and isinstance(ret, (Int, Flt)): ret = self.cast(ret, f['ret'])
            return ret
        finally:
            self.depth -= 1
            self.env, self.this, self.file, self.line, self.pending = save

    # -- statements
    def st(self, s):
        if s is None: return
        self.tick(s)
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m: return m(s)
        self.ev(s)

    def s_Block(self, s):
        if not self.dtors:
            for x in s['s']: self.st(x)
            return
        save, self.locals = self.locals, []
        try:
            for x in s['s']: self.st(x)
        finally:
            mine, self.locals = self.locals, save
            for v in reversed(mine): self.destroy(v)

    dtors = False                                         # run destructors of local objects
    locals = ()

    def destroy(self, v):
        if not isinstance(v, Ref): return
        c = (v.cls or '').split('::')[-1].split('<')[0]
        for i in self.db.by_name.get('%s::~%s' % (v.cls, c), ()):
            f = self.db.funcs.get(i)
            if f and self.inline(f):
                self.call(f, v, []); return

    def s_Null(self, s): pass

    def s_Decl(self, s):
        for v in s['d']:
            t = v.get('t') or ''
            key = self.fresh('v')
            if t.endswith('&') and v.get('init') is not None:
                self.env[v['id']] = self.lv(v['init'])
                if self.env[v['id']][0] == 'ref':
                    self.mem[key] = self.env[v['id']][1]; self.env[v['id']] = ('cell', key, t)
                continue
            if v.get('init') is not None and not (v['init'].get('k') == 'Ctor' and not v['init']['a'] and not vecty(t) and 'stringstream' not in t and v['init'].get('c') not in self.db.classes):
                try:
                    val = self.copyval(self.ev(v['init'])) if v['init'].get('k') in ('Ref', 'Member', 'Index') else self.ev(v['init'])
                except Undecided:
                    if intty(t) or t.endswith('*') or vecty(t): raise
                    val = Opq()
                it = intty(t)
                if it and isinstance(val, (Int, Flt)): val = self.cast(val, t)
                elif short(t) in ('float', 'double'): val = self.cast(val, t)
            else:
                val = self.default(t, key)
            self.mem[key] = val
            self.env[v['id']] = ('cell', key, t)
            if self.dtors: self.locals.append(val)

    def s_If(self, s):
        if s.get('i'): self.st(s['i'])
        if s.get('cvd'): self.st(s['cvd'])
        c = self.tr(self.ev(s['c']))
        if not isinstance(c, tuple) and c in (0, 1):
            if c: self.st(s['a'])
            elif s.get('b'): self.st(s['b'])
            return
        m0 = dict(self.mem)
        res = []
        for br in (s['a'], s.get('b')):
            self.mem = dict(m0)
            np = len(self.pending)
            env = dict(self.env)
            out = 'n'; val = None
            try:
                if br: self.st(br)
            except _Return as r:
                out, val = 'r', r.v
            except Thrown:
                out = 't'
            except (_Break, _Continue):
                raise Undecided('loop exit on an input bit')
            self.env = env
            add = self.pending[np:]
            del self.pending[np:]
            res.append((out, val, self.mem, add))
        (o1, v1, m1, p1), (o2, v2, m2, p2) = res
        for x in p1: self.pending.append((band(c, x[0]), x[1], x[2]))
        for x in p2: self.pending.append((band(bnot(c), x[0]), x[1], x[2]))
        if o1 == 't' and o2 == 't': raise Thrown()
        if 't' in (o1, o2): raise Undecided('exception on an input bit')
        if o1 == 'n' and o2 == 'n':
            self.merge(c, m1, m2)
        elif o1 == 'r' and o2 == 'r':
            self.merge(c, m1, m2)
            raise _Return(join(c, v1, v2) if v1 is not None and v2 is not None else v1)
        elif o1 == 'r':
            self.pending.append((c, v1, m1)); self.mem = m2
        else:
            self.pending.append((bnot(c), v2, m2)); self.mem = m1

    def loop(self, cond, body, inc, do=False):
        first = do
        while True:
            if not first and cond is not None:
                c = self.tr(self.ev(cond))
                if isinstance(c, tuple) or c == T: raise Undecided('loop condition')
                if c == 0: break
            first = False
            try:
                self.st(body)
            except _Break:
                break
            except _Continue:
                pass
            if inc is not None: self.ev(inc)

    def s_For(self, s):
        if s.get('i'): self.st(s['i'])
        self.loop(s.get('c'), s['b'], s.get('n'))

    def s_While(self, s): self.loop(s['c'], s['b'], None)
    def s_Do(self, s): self.loop(s['c'], s['b'], None, do=True)

    def s_ForRange(self, s):
        r = self.ev(s['r'])
        if self.is_list(r):
            i = 0
            while i < self.mem[r.id + ('n',)]:
                self.env[s['v']['id']] = self.item(r, i)
                i += 1
                try:
                    self.st(s['b'])
                except _Break:
                    break
                except _Continue:
                    pass
            return
        if not (isinstance(r, Ref) and r.id + ('size',) in self.mem): raise Undecided('range')
        n = self.vsize(r)
        if n.c is None: raise Undecided('range')
        if n.c > 20000: raise Undecided('long range')
        es = self.ves(r)
        t = s['v'].get('t') or ''
        et = {1: 'unsigned char', 2: 'unsigned short', 4: 'unsigned int', 8: 'unsigned long'}[es]
        base = t.replace('const ', '').rstrip('&').strip()
        for i in range(n.c):
            l = ('mem', Ptr(('vec', r.id), K(64, 0, i * es), es), base if type_bits(short(base)) == es * 8 else et)
            if t.endswith('&'): self.env[s['v']['id']] = l
            else:
                key = self.fresh('v')
                self.mem[key] = self.cast(self.load(l), base) if intty(base) else self.load(l)
                self.env[s['v']['id']] = ('cell', key, base)
            try:
                self.st(s['b'])
            except _Break:
                break
            except _Continue:
                pass

    def s_Switch(self, s):
        if s.get('i'): self.st(s['i'])
        v = self.ev(s['c'])
        if not isinstance(v, Int) or v.c is None: raise Undecided('switch')
        flat = []

        def lay(x):
            if x is None: return
            if x['k'] == 'Case': flat.append(('case', x.get('cv'), x.get('hi', {}).get('cv') if x.get('hi') else None)); lay(x['s'])
            elif x['k'] == 'Default': flat.append(('default',)); lay(x['s'])
            else: flat.append(('st', x))
        for x in s['b']['s'] if s['b']['k'] == 'Block' else [s['b']]: lay(x)
        start = None
        for i, x in enumerate(flat):
            if x[0] == 'case' and (x[1] == v.c or x[2] is not None and x[1] <= v.c <= x[2]): start = i; break
        if start is None:
            for i, x in enumerate(flat):
                if x[0] == 'default': start = i
        if start is None: return
        try:
            for x in flat[start:]:
                if x[0] == 'st': self.st(x[1])
        except _Break:
            pass

    def s_Break(self, s): raise _Break()
    def s_Continue(self, s): raise _Continue()
    def s_Return(self, s): raise _Return(self.ev(s['e']) if s.get('e') is not None else None)

    def s_Try(self, s):
        try:
            self.st(s['b'])
        except Thrown as e:
            for h in s['h']:
                t = short(h.get('t') or '').replace('const ', '').strip(' &')
                if e.args and e.args[0] == 'any' and t not in ('', '...', 'std::exception'): continue
                self.st(h['b']); return
            raise

    def s_Label(self, s): self.st(s['s'])
