"""Conversions: which formula, which table entry, which text a channel value becomes, for
every ordering of the value and the keys; and how observers hand out converted values."""
from .. import absint as A, ratfun as Q
from ..absint import Interp, Int, Flt, Ptr, Ref, K, Bv, Opq, NULL, Undecided, Thrown, T
from ..facts import AnalysisError

CC = 'mdf::IChannelConversion'
C4, C3 = 'mdf::detail::Cc4Block', 'mdf::detail::Cc3Block'
OB = 'mdf::IChannelObserver'
DB = None
X = ('x',)


def fns(cls, name):
    return [DB.funcs[i] for i in DB.by_name.get('%s::%s' % (cls, name), ()) if i in DB.funcs]


def virt(cls, name):
    """the implementation a call on an object of class cls ends in"""
    for c in [cls] + list(DB.bases(cls)):
        l = fns(c, name)
        if l: return l[0]
    raise AnalysisError('%s::%s not found' % (cls, name))


class Paths:
    """outcomes of comparisons: by the assumed order of value and keys, otherwise both"""

    def __init__(self, rank): self.rank, self.prefix, self.given = rank, [], {}

    def start(self): self.pos, self.trace = 0, []

    def next(self):
        self.prefix = [c for c, _ in self.trace]
        while self.prefix and self.prefix[-1]: self.prefix.pop()
        if not self.prefix: return False
        self.prefix[-1] = 1
        return True

    def leaf(self, c):
        if c in self.given: return self.given[c]
        if c[0] == 'cmp':
            op = c[1]
            try: n, d = Q.diff(Q.norm(c[2]), Q.norm(c[3]))
            except Q.Open: raise Undecided('comparison')
            v = None
            if not n: v = 0
            elif d == Q.ONE and len(n) == 2 and sorted(n.values()) == [-1, 1] and all(len(m) == 1 and m[0] in self.rank for m in n):
                p = [m[0] for m, k in n.items() if k == 1][0]; q = [m[0] for m, k in n.items() if k == -1][0]
                v = self.rank[p] - self.rank[q]
            elif d == Q.ONE and len(n) == 1 and () in n: v = n[()]
            if v is not None: return int({'==': v == 0, '!=': v != 0, '<': v < 0, '>': v > 0, '<=': v <= 0, '>=': v >= 0}[op])
            for c2, o in self.trace:
                if o == (op, c): return c2
            neg = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}[op]
            for c2, o in self.trace:
                if o[0] == neg and o[1][2:] == c[2:]: return 1 - c2
            return self.take((op, c))
        return self.take(('bit', c))

    def take(self, what):
        r = self.prefix[self.pos] if self.pos < len(self.prefix) else 0
        self.pos += 1
        self.trace.append((r, what))
        return r

    def decide(self, c):
        if c == T: raise Undecided('condition')
        if c in (0, 1): return c
        if c[0] == '!': return 1 - self.decide(c[1])
        if c[0] == '&': return self.decide(c[1]) & self.decide(c[2])
        if c[0] == '^': return self.decide(c[1]) ^ self.decide(c[2])
        if c[0] == '?': return self.decide(c[2]) if self.decide(c[1]) else self.decide(c[3])
        return self.leaf(c)


class Conv:
    """a conversion object: n parameters, references, texts"""

    def __init__(self, cls, npar=0, nof=None, refs=(), integer=1, ctype=None, texts=(), ranges=()):
        self.cls = cls
        self.I = I = Interp(DB, oracle=self.oracle, this_cls=cls)
        self.this = Ref(('conv',), cls)
        self.nested = []
        f = {'value_list_': I.new_list([Flt(64, ('par', i)) for i in range(npar)]), 'nof_values_': K(16, 0, npar if nof is None else nof),
             'channel_data_type_': K(8, 0, 0 if integer else 4)}
        blocks = []
        for i, r in enumerate(refs):
            blocks.append(NULL if r == 'null' else Ref(('ref', i, r), {'TX': 'mdf::detail::Tx4Block', 'CC': C4}.get(r, 'mdf::detail::Md4Block')))
        f['ref_list_'] = I.new_list(blocks)

        def struct(i, **kw):
            o = Ref(('entry', i), 'entry')
            for k, v in kw.items(): I.mem[o.id + ('f', k)] = v
            return o
        f['text_conversion_list_'] = I.new_list([struct(i, value=Flt(64, ('par', i)), text=Opq('text%d' % i)) for i in range(len(texts))])
        f['text_range_conversion_list_'] = I.new_list([struct(i, lower=Flt(64, ('par', 2 * i)), upper=Flt(64, ('par', 2 * i + 1)), text=Opq('text%d' % i)) for i in range(len(ranges))])
        for k, v in f.items(): I.mem[self.this.id + ('f', k)] = v
        self.ctype = ctype

    def oracle(self, name, obj, a, I):
        if name.startswith('.'): return None
        if name == 'Type' and obj == self.this and self.ctype is not None: return K(8, 0, self.ctype)
        if isinstance(obj, Ref) and obj.id[0] == 'ref':
            if name == 'BlockType': return self.str(obj.id[2])
            if name == 'Text': return Opq('text%d' % obj.id[1])
            if name == 'Convert':
                v = I.ev(a[0]['a'][0])
                self.nested.append((obj.id[1], v))
                I.store(I.lv(a[0]['a'][1]), Opq('nested%d' % obj.id[1]))
                return Bv(1, 0, (('nested',),))
        if isinstance(obj, Opq) and obj.n.startswith('text') and name in ('clear', 'shrink_to_fit'): return Opq('void')
        return None

    def str(self, s):
        return self.I.e_Str({'v': s})


def explore(mk, f, args, rank, limit=64):
    """all (trace, object, result, value) of f under the order `rank`"""
    P = Paths(rank)
    out = []
    while True:
        c = mk()
        P.start()
        c.I.decide = P.decide
        try:
            r = A.truth(c.I.run(f, c.this, args(c)))
            if isinstance(r, tuple) and r[0] not in ('nested', 'gv', 'sv', 'cv'): r = P.decide(r)
        except Thrown:
            r = 'throw'
        out.append((list(P.trace), c, r, c.I.mem[c.I.params[1][1]]))
        if not P.next(): break
        if len(out) > limit: raise Undecided('paths')
    return out


def par(i): return ('par', i)


def op(o, a, b): return ('fop', o, a, b)


def poly(*c):
    r = ('k', 0.0)
    for k in c: r = op('+', op('*', r, X), k)
    return r


FORMULA = {
    'ConvertLinear': (2, [(None, op('+', par(0), op('*', par(1), X)))], ()),
    'ConvertRational': (6, [(None, op('/', poly(par(0), par(1), par(2)), poly(par(3), par(4), par(5))))], ()),
}
_t = op('-', op('-', X, par(4)), par(5))
FORMULA['ConvertPolynomial'] = (6, [(None, op('/', op('-', par(1), op('*', par(3), _t)), op('-', op('*', par(2), _t), par(0))))], ())
_f = lambda fn, a: ('call', fn, (Flt(64, a),))
_a = op('/', op('-', op('*', op('-', X, par(6)), par(5)), par(2)), par(0))
_b = op('/', op('-', op('/', par(2), op('-', X, par(6))), par(5)), par(3))
for _n, _fn in (('ConvertLogarithmic', 'std::log'), ('ConvertExponential', 'std::exp')):
    FORMULA[_n] = (7, [(3, op('/', _f(_fn, _a), par(1))), (0, op('/', _f(_fn, _b), par(4)))], ())


def zero_of(trace):
    """terms assumed to be zero / not to be zero on a path"""
    z, nz = [], []
    for o, w in trace:
        if w[0] in ('==', '!='):
            q = Q.diff(Q.norm(w[1][2]), Q.norm(w[1][3]))
            (z if (w[0] == '==') == bool(o) else nz).append(q[0])
    return z, nz


def is_(p, q):
    """polynomials equal up to a constant factor"""
    if not p or not q: return p == q
    (m, c) = sorted(p.items(), key=repr)[0]
    if m not in q: return False
    k = q[m] / c
    return {a: b * k for a, b in p.items()} == q


def formulas(R):
    for name, (need, variants, _) in sorted(FORMULA.items()):
        for cls in (C4, C3):
            f = virt(cls, name)
            R.analysed(f)
            where = (f['file'], f['line'])
            for npar in (0, need - 1, need, need + 1):
                if name == 'ConvertLinear' and npar == 1: continue
                R.count('formula scenarios')
                try:
                    paths = explore(lambda: Conv(cls, npar), f, lambda c: [Flt(64, X), Flt(64, ('old',))], {})
                except (Undecided, Q.Open) as e:
                    R.count('scenarios left open'); R.notes.append('left open %s: %s' % (name, e)); continue
                for tr, c, r, v in paths:
                    if npar < need:
                        if r != 0: R.violate('conv.formula', name + '/missing', where, '%s with %d parameters is valid' % (name, npar))
                        continue
                    try:
                        z, nz = zero_of(tr)
                        match = None
                        for zero, term in variants:
                            if zero is not None and not any(is_(p, {(par(zero),): 1}) for p in z): continue
                            match = term
                            break
                        if match is None:
                            if r != 0 and len(variants) > 1 and all(any(is_(p, {(par(zz),): 1}) for p in nz) for zz, _ in variants): R.violate('conv.formula', name + '/case', where, '%s is valid although neither case of the formula applies' % name)
                            continue
                        den = divisors(match)
                        dz = any(is_(p, d) for p in z for d in den)
                        if dz:
                            if r != 0: R.violate('conv.formula', name + '/zero', where, '%s is valid although it divides by zero' % name)
                        elif r != 1: R.violate('conv.formula', name + '/valid', where, '%s is %s for a value it can convert' % (name, 'left by an exception' if r == 'throw' else 'invalid'))
                        elif not isinstance(v, Flt) or not Q.same(Q.norm(v.t), Q.norm(match)):
                            R.violate('conv.formula', name, where, '%s does not compute the formula of the format' % name)
                    except Q.Open as e:
                        R.count('scenarios left open')
    # one parameter: constant
    for cls in (C4, C3):
        f = virt(cls, 'ConvertLinear')
        try:
            for tr, c, r, v in explore(lambda: Conv(cls, 1), f, lambda c: [Flt(64, X), Flt(64, ('old',))], {}):
                if r == 1 and not Q.same(Q.norm(v.t), Q.atom(par(0))): R.violate('conv.formula', 'ConvertLinear/constant', (f['file'], f['line']), 'a linear conversion with one parameter is not that constant')
        except (Undecided, Q.Open): R.count('scenarios left open')


def divisors(t):
    out = []
    def w(t):
        if not isinstance(t, tuple): return
        if t[0] == 'fop':
            if t[1] == '/':
                q = Q.norm(t[3])[0]
                if not (len(q) == 1 and () in q): out.append(q)
            w(t[2]); w(t[3])
        elif t[0] == 'call':
            for x in t[2]: w(x.t)
    w(t)
    return out


def orders(keys):
    """ranks of x and ascending keys: x below, at and between each of them"""
    base = {k: 2 * i + 1 for i, k in enumerate(keys)}
    for p in range(0, 2 * len(keys) + 1):
        yield p, dict(base, **{'_': 0}) and {**base, X: p}


def tables(R):
    for name, step in (('ConvertValueToValue', 2), ('ConvertValueToValueInterpolate', 2), ('ConvertValueRangeToValue', 3)):
        for cls in (C4, C3):
            f = virt(cls, name)
            R.analysed(f)
            for n in (1, 2, 3):
                for integer in (1, 0):
                    if step == 2: table_values(R, f, cls, name, n, integer)
                    else: table_ranges(R, f, cls, name, n, integer)


def run_table(R, f, mk, args, rank, name):
    R.count('table scenarios')
    try:
        return explore(mk, f, args, rank)
    except (Undecided, Q.Open) as e:
        R.count('scenarios left open'); R.notes.append('left open %s: %s' % (name, e))
        return []


def table_values(R, f, cls, name, n, integer):
    where = (f['file'], f['line'])
    keys = [par(2 * i) for i in range(n)]
    for nof in (n, 2 * n):
        for pos, rank in orders(keys):
            for tr, c, r, v in run_table(R, f, lambda: Conv(cls, 2 * n, nof, integer=integer), lambda c: [Flt(64, X), Flt(64, ('old',))], rank, name):
                what = 'a value %s of %d keys' % ('below the first' if pos == 0 else 'equal to key %d' % (pos // 2 + 1) if pos % 2 else 'above the last' if pos == 2 * n else 'between key %d and %d' % (pos // 2, pos // 2 + 1), n)
                if r != 1: R.violate('conv.table', name + '/valid', where, '%s of %s is not valid' % (name, what)); continue
                if pos == 0: e = par(1)
                elif pos % 2: e = par(pos // 2 * 2 + 1)
                elif pos == 2 * n: e = par(2 * n - 1)
                else:
                    i = pos // 2 - 1
                    k0, v0, k1, v1 = par(2 * i), par(2 * i + 1), par(2 * i + 2), par(2 * i + 3)
                    if name.endswith('Interpolate'): e = op('+', v0, op('/', op('*', op('-', X, k0), op('-', v1, v0)), op('-', k1, k0)))
                    else: e = nearest(tr, k0, k1, v0, v1)
                    if e is None: R.count('scenarios left open'); continue
                try:
                    if not isinstance(v, Flt) or not Q.same(Q.norm(v.t), Q.norm(e)): R.violate('conv.table', name, where, '%s of %s does not give %s' % (name, what, 'the interpolated value' if name.endswith('Interpolate') and pos % 2 == 0 and 0 < pos < 2 * n else 'the value of the nearest key'))
                except Q.Open: R.count('scenarios left open')


def nearest(tr, k0, k1, v0, v1):
    """which of the two neighbours the path stands for"""
    # (x - k0) / (k1 - k0) <= 1/2, the denominator is positive
    low = Q.norm(op('-', op('*', ('k', 2.0), op('-', X, k0)), op('-', k1, k0)))[0]       # <= 0: lower key
    region = {-1, 0, 1}                                       # sign of low along the path
    for o, w in tr:
        if w[0] in ('<', '<=', '>', '>=', '==', '!='):
            n, d = Q.diff(Q.norm(w[1][2]), Q.norm(w[1][3]))
            if d != Q.ONE:
                pos = Q.norm(op('-', k1, k0))[0]
                if not is_(d, pos): continue
                m = sorted(d.items(), key=repr)[0]
                if m[1] / pos[m[0]] < 0: n = {a: -b for a, b in n.items()}
            if not is_(n, low): continue
            m = sorted(n.items(), key=repr)[0]
            up = 1 if m[1] / low[m[0]] > 0 else -1
            region = {z for z in region if {'<': z * up < 0, '<=': z * up <= 0, '>': z * up > 0, '>=': z * up >= 0, '==': z == 0, '!=': z != 0}[w[0]] == bool(o)}
    if region == {-1, 0, 1}: return None
    if not region or 1 not in region: return v0                # at equal distance the lower key
    if region == {1}: return v1
    return ('one value for both neighbours',)


def table_ranges(R, f, cls, name, n, integer):
    where = (f['file'], f['line'])
    keys = [k for i in range(n) for k in (par(3 * i), par(3 * i + 1))]
    for nof in (n, 3 * n + 1):
        for pos, rank in orders(keys):
            for tr, c, r, v in run_table(R, f, lambda: Conv(cls, 3 * n + 1, nof, integer=integer), lambda c: [Flt(64, X), Flt(64, ('old',))], rank, name):
                i = in_range(pos, n, integer)
                e = par(3 * n) if i is None else par(3 * i + 2)
                what = 'a value %s' % ('outside all ranges' if i is None else 'in range %d' % (i + 1)) + (' (at the upper end)' if pos % 4 == 3 else '')
                if r != 1: R.violate('conv.table', name + '/valid', where, '%s of %s is not valid' % (name, what)); continue
                try:
                    if not isinstance(v, Flt) or not Q.same(Q.norm(v.t), Q.norm(e)): R.violate('conv.table', '%s/%s' % (name, 'integer' if integer else 'float'), where, '%s of %s of an %s channel does not give its value' % (name, what, 'integer' if integer else 'float'))
                except Q.Open: R.count('scenarios left open')


def in_range(pos, n, integer):
    """ranges [k0,k1] of ascending keys; pos 1 = at k0, 2 between, 3 = at k1, 4 between ranges"""
    if pos == 0 or pos % 4 == 0: return None
    i = (pos - 1) // 4
    if pos % 4 == 3 and not integer: return None
    return i


def texts(R):
    f = virt(C4, 'ConvertValueToText'); R.analysed(f)
    where = (f['file'], f['line'])
    tx = lambda c: [Flt(64, X), Opq('textold')]
    for n in (0, 1, 2, 3):
        for kinds in (('TX',) * (n + 1), ('TX',) * n + ('null',), ('CC',) * (n + 1), ('MD',) * (n + 1)):
            for pos, rank in orders([par(i) for i in range(n)]):
                i = pos // 2 if pos % 2 else n
                check_text(R, f, lambda: Conv(C4, n, n, kinds), tx, rank, 'ConvertValueToText', kinds, i, 'a value %s' % ('equal to key %d of %d' % (i + 1, n) if i < n else 'that is no key'))
    f = virt(C4, 'ConvertValueRangeToText'); R.analysed(f)
    for n in (1, 2, 3):
        for kinds in (('TX',) * (n + 1), ('CC',) * (n + 1)):
            for integer in (1, 0):
                for pos, rank in orders([par(i) for i in range(2 * n)]):
                    i = in_range(pos, n, integer)
                    check_text(R, f, lambda: Conv(C4, 2 * n, 2 * n, kinds, integer), tx, rank, 'ConvertValueRangeToText', kinds, n if i is None else i, 'a value of an %s channel %s' % ('integer' if integer else 'float', 'outside all ranges' if i is None else 'in range %d%s' % (i + 1, ', at its upper end' if pos % 4 == 3 else '')))
    # MDF3
    f = virt(C3, 'ConvertValueToText'); R.analysed(f)
    for n in (0, 1, 2, 3):
        for pos, rank in orders([par(i) for i in range(n)]):
            i = pos // 2 if pos % 2 else None
            check_text(R, f, lambda: Conv(C3, 0, n, texts=range(n)), tx, rank, 'ConvertValueToText', ('TX',) * n, i, 'a value %s' % ('equal to key %d of %d' % (i + 1, n) if i is not None else 'that is no key'), mdf3=True)
    f = virt(C3, 'ConvertValueRangeToText'); R.analysed(f)
    for n in (1, 2, 3):                              # entry 0 is the default
        for integer in (1, 0):
            for pos, rank in orders([par(i) for i in range(2, 2 * n + 2)]):
                i = in_range(pos, n, integer)
                check_text(R, f, lambda: Conv(C3, 0, n + 1, integer=integer, ranges=range(n + 1)), tx, rank, 'ConvertValueRangeToText', ('TX',) * (n + 1), 0 if i is None else i + 1, 'a value of an %s channel %s' % ('integer' if integer else 'float', 'outside all ranges' if i is None else 'in range %d%s' % (i + 1, ', at its upper end' if pos % 4 == 3 else '')), mdf3=True)
    # text to value, text to text
    f = virt(C4, 'ConvertTextToValue'); R.analysed(f)
    for n in (1, 2, 3):
        for i in range(n + 1):
            for tr, c, r, v in run_table(R, f, lambda: Conv(C4, n + 1, n + 1, ('TX',) * n), lambda c: [Opq('text%d' % i if i < n else 'other'), Flt(64, ('old',))], {}, 'ConvertTextToValue'):
                if r != 1 or not isinstance(v, Flt) or not Q.same(Q.norm(v.t), Q.atom(par(i))):
                    R.violate('conv.text', 'ConvertTextToValue', (f['file'], f['line']), 'ConvertTextToValue of %s does not give %s' % ('text %d of %d' % (i + 1, n) if i < n else 'an unknown text', 'its value' if i < n else 'the default value'))
    f = virt(C4, 'ConvertTextToTranslation'); R.analysed(f)
    for n in (1, 2, 3):
        for i in range(n + 1):
            kinds = ('TX',) * (2 * n + 1)
            check_text(R, f, lambda: Conv(C4, 0, 0, kinds), lambda c: [Opq('text%d' % (2 * i) if i < n else 'other'), Opq('textold')], {}, 'ConvertTextToTranslation', kinds, 2 * i + 1 if i < n else 2 * n, 'text %d of %d' % (i + 1, n) if i < n else 'an unknown text')


    for i in range(2):                               # a text that only occurs as a translation
        kinds = ('TX',) * 5
        check_text(R, f, lambda: Conv(C4, 0, 0, kinds), lambda c: [Opq('text%d' % (2 * i + 1)), Opq('textold')], {}, 'ConvertTextToTranslation', kinds, 4, 'an unknown text that is a translation')


def check_text(R, f, mk, args, rank, name, kinds, i, what, mdf3=False):
    where = (f['file'], f['line'])
    for tr, c, r, v in run_table(R, f, mk, args, rank, name):
        k = None if i is None else kinds[i]
        key = name + ('/MDF3' if mdf3 else '')
        if k is None or k == 'MD':
            if r != 0: R.violate('conv.text', key + '/none', where, '%s of %s, which has no text, is valid' % (name, what))
        elif k == 'CC':
            if [x[0] for x in c.nested] != [i] or c.nested[0][1] != Flt(64, X): R.violate('conv.text', key + '/nested', where, '%s of %s does not hand the value to the conversion referenced for it' % (name, what))
            elif r != ('nested',): R.violate('conv.text', key + '/nested valid', where, '%s of %s does not return the result of the referenced conversion' % (name, what))
        elif r != 1: R.violate('conv.text', key + '/valid', where, '%s of %s is not valid' % (name, what))
        elif k == 'TX' and v != Opq('text%d' % i): R.violate('conv.text', key, where, '%s of %s gives %s instead of text %d' % (name, what, v.n if isinstance(v, Opq) else v, i))


NUMERIC = {'Linear': 'ConvertLinear', 'Rational': 'ConvertRational', 'Algebraic': 'ConvertAlgebraic', 'ValueToValueInterpolation': 'ConvertValueToValueInterpolate', 'ValueToValue': 'ConvertValueToValue',
           'ValueRangeToValue': 'ConvertValueRangeToValue', 'Polynomial': 'ConvertPolynomial', 'Exponential': 'ConvertExponential', 'Logarithmic': 'ConvertLogarithmic'}
TEXTUAL = {'ValueToText': 'ConvertValueToText', 'ValueRangeToText': 'ConvertValueRangeToText'}


def dispatch(R):
    types = dict(DB.enums.get('mdf::ConversionType', {}).get('c', ()))
    if not types: raise AnalysisError('ConversionType not found')
    fl = fns(CC, 'Convert')
    if not fl: raise AnalysisError('IChannelConversion::Convert not found')
    for f in fl:
        R.analysed(f)
        src, dst = f['p'][0]['t'], f['p'][1]['t'].rstrip(' &')
        text_in, text_out = 'string' in src, 'string' in dst
        where = (f['file'], f['line'])
        for tn, tv in sorted(types.items()):
            R.count('conversion dispatch cases')
            goal = NUMERIC.get(tn) or TEXTUAL.get(tn)
            if text_in: goal = {('TextToTranslation', True): 'ConvertTextToTranslation', ('TextToValue', False): 'ConvertTextToValue'}.get((tn, text_out))
            used = []

            def mk():
                c = Conv(C4, 2, ctype=tv)
                base = c.oracle
                used.clear()

                def orc(name, obj, a, I):
                    if obj == c.this and name.startswith('Convert') and name != 'Convert':
                        x = I.ev(a[0]['a'][0])
                        used.append((name, x))
                        I.store(I.lv(a[0]['a'][1]), Flt(64, ('eng',)) if name in NUMERIC.values() or name == 'ConvertTextToValue' else Opq('engtext'))
                        return Bv(1, 0, (('cv',),))
                    if name == 'FormatDouble':
                        x = I.ev(a[0]['a'][0])
                        return Opq('fmt:%r' % (x.t,) if isinstance(x, Flt) else 'fmt')
                    if obj == c.this and name in ('IsDecimalUsed', 'Decimals'): return A.unknown(8, 0) if name == 'Decimals' else K(1, 0, 0)
                    if name == 'stod': return Flt(64, ('stod',))
                    return base(name, obj, a, I)
                c.I.oracle = orc
                return c
            it, st = A.intty(dst), A.intty(src.replace('const ', '').rstrip(' &'))
            val = Opq('textin') if text_in else Bv(st[0], st[1], tuple(('v', i) for i in range(st[0]))) if st else Flt(64, X)
            out0 = Opq('textold') if text_out else A.unknown(*it) if it else Flt(A.type_bits(dst), ('old',))
            name = 'Convert<%s, %s> with a %s conversion' % ('string' if text_in else src.replace('const ', '').rstrip(' &'), 'string' if text_out else dst, tn)
            key = '%s/%s' % (tn, 'text' if text_in or text_out else 'number')
            try:
                paths = explore(mk, f, lambda c: [val, out0], {})
            except Undecided as e:
                if goal in TEXTUAL.values() and not text_out:                 # a text is parsed into a number
                    if [u[0] for u in used] != [goal]: R.violate('conv.dispatch', key, where, '%s is not converted by %s' % (name, goal))
                    continue
                R.count('scenarios left open'); R.notes.append('left open %s: %s' % (name, e)); continue
            for tr, c, r, v in paths:
                if goal is None:
                    if used: R.violate('conv.dispatch', key, where, '%s is converted by %s' % (name, used[0][0]))
                    elif text_in and tn != 'NoConversion':
                        if r != 0: R.violate('conv.dispatch', key + '/valid', where, '%s is valid although it is not applicable' % name)
                    elif r != 1: R.violate('conv.dispatch', key + '/valid', where, '%s, which leaves the value as it is, is not valid' % name)
                    elif not text_in and not text_out and v != c.I.cast(val, dst): R.violate('conv.dispatch', key + '/value', where, '%s changes the value' % name)
                    elif text_in and text_out and v != val: R.violate('conv.dispatch', key + '/value', where, '%s changes the text' % name)
                    elif not text_in and text_out and v != Opq('fmt:%r' % (c.I.cast(val, 'double').t,)): R.violate('conv.dispatch', key + '/value', where, '%s is not the text of the value' % name)
                    continue
                if [u[0] for u in used] != [goal]: R.violate('conv.dispatch', key, where, '%s is converted by %s instead of %s' % (name, ', '.join(u[0] for u in used) or 'nothing', goal)); continue
                if used[0][1] != (val if text_in else c.I.cast(val, 'double')): R.violate('conv.dispatch', key + '/input', where, '%s does not convert the channel value' % name)
                if r != ('cv',): R.violate('conv.dispatch', key + '/valid', where, '%s does not return whether the value could be converted' % name)
                eng = Flt(64, ('eng',))
                if goal in NUMERIC.values() or goal == 'ConvertTextToValue':
                    e = Opq('fmt:%r' % (eng.t,)) if text_out else c.I.cast(eng, dst)
                    if v != e: R.violate('conv.dispatch', key + '/value', where, '%s does not hand out the converted value' % name)
                elif text_out and v != Opq('engtext'): R.violate('conv.dispatch', key + '/value', where, '%s does not hand out the converted text' % name)


SAMPLE = {}
for _k in ('UnsignedIntegerLe', 'UnsignedIntegerBe', 'CanOpenDate', 'CanOpenTime'): SAMPLE[_k] = 'GetSampleUnsigned'
for _k in ('SignedIntegerLe', 'SignedIntegerBe'): SAMPLE[_k] = 'GetSampleSigned'
for _k in ('FloatLe', 'FloatBe'): SAMPLE[_k] = 'GetSampleFloat'
for _k in ('StringAscii', 'StringUTF8', 'StringUTF16Le', 'StringUTF16Be'): SAMPLE[_k] = 'GetSampleText'
for _k in ('MimeSample', 'MimeStream', 'ByteArray'): SAMPLE[_k] = 'GetSampleByteArray'
VAL = {'GetSampleUnsigned': Bv(64, 0, tuple(('v', i) for i in range(64))), 'GetSampleSigned': Bv(64, 1, tuple(('v', i) for i in range(64))), 'GetSampleFloat': Flt(64, X), 'GetSampleText': Opq('sampletext'), 'GetSampleByteArray': Opq('samplebytes')}


CONV = {}
DBG = 0


def text_to_value_as_text():
    """does Convert<string, string> handle a TextToValue conversion"""
    for f in fns('mdf::IChannelConversion', 'Convert'):
        if len(f['p']) == 2 and all('string' in p['t'] for p in f['p']) and 'ConvertTextToValue' in repr(f['body']): return True
    return False


class Obs:
    def __init__(self, dt, conv):
        self.dt, self.conv = dt, conv
        self.I = Interp(DB, oracle=self.oracle, this_cls=OB)
        self.this = Ref(('observer',), OB)
        self.ch = Ref(('channel',), 'mdf::detail::Cn4Block')
        self.cc = Ref(('conversion',), C4)
        self.used, self.converted = [], []

    def oracle(self, name, obj, a, I):
        if name.startswith('.'):
            if 'IChannel' in (obj.get('t') or '') and 'Observer' not in (obj.get('t') or ''): return self.ch
            return None
        if obj == self.ch:
            if name == 'DataType': return K(8, 0, self.dt)
            if name == 'ChannelConversion': return self.cc if self.conv is not None else NULL
            if name == 'IsDecimalUsed': return K(1, 0, 0)
            if name == 'Decimals': return A.unknown(8, 0)
        if obj == self.this and name in VAL:
            x = a[0]['a']
            s = I.ev(x[0])
            i = I.ev(x[2]) if len(x) > 2 else None
            self.used.append((name, s, i))
            v = VAL[name]
            if name == 'GetSampleByteArray': v = I.new_vec(K(64, 0, 2), init=lambda k, j: ('v', k[1] * 8 + j))
            l = I.lv(x[1])
            cur = I.mem.get(l[1]) if l[0] == 'cell' else None
            if name == 'GetSampleByteArray' and isinstance(cur, Ref):
                I.mem[cur.id + ('size',)] = K(64, 0, 2); I.init[cur.id] = lambda k, j: ('v', k[1] * 8 + j)
            else: I.store(l, v)
            return Bv(1, 0, (('sv',),))
        if obj == self.cc:
            if name == 'Type': return K(8, 0, self.conv)
            if name == 'IsDecimalUsed': return K(1, 0, 0)
            if name == 'Decimals': return A.unknown(8, 0)
        if obj == self.cc and name == 'Convert':
            x = a[0]['a']
            self.converted.append(I.ev(x[0]))
            t = short_t(x[1].get('t'))
            it = A.intty(t)
            if self.conv == CONV['TextToValue'] and not it and t not in ('float', 'double') and not text_to_value_as_text(): return K(1, 0, 0)
            I.store(I.lv(x[1]), Bv(it[0], it[1], tuple(('c', i) for i in range(it[0]))) if it else Flt(A.type_bits(t), ('conv',)) if t in ('float', 'double') else Opq('convtext'))
            return Bv(1, 0, (('cv',),))
        if name == 'FormatDouble':
            x = I.ev(a[0]['a'][0]); return Opq('fmt:%r' % (x.t,) if isinstance(x, Flt) else 'fmt')
        if name in ('to_string', 'NsToLocalIsoTime'):
            x = I.ev(a[0]['a'][0]); return Opq('%s:%r' % (name, x))
        return None


def short_t(t): return (t or '').replace('const ', '').rstrip(' &')


def observers(R):
    dts = dict(DB.enums.get('mdf::ChannelDataType', {}).get('c', ()))
    CONV.clear(); CONV.update(dict(DB.enums.get('mdf::ConversionType', {}).get('c', ())))
    for fn in ('GetChannelValue', 'GetEngValue'):
        fl = fns(OB, fn)
        if not fl: raise AnalysisError('IChannelObserver::%s not found' % fn)
        for f in fl:
            R.analysed(f)
            where = (f['file'], f['line'])
            ty = short_t(f['p'][1]['t'])
            text, vec = 'string' in ty, 'vector' in ty
            it = A.intty(ty)
            for dt, dv in sorted(dts.items()):
                goal = SAMPLE.get(dt)
                if text and goal == 'GetSampleByteArray': goal = 'GetSampleText'
                if vec and goal != 'GetSampleByteArray': goal = None
                for cname in ((None,) + (('TextToTranslation', 'TextToValue') if dt.startswith('String') else ('Linear', 'ValueToText')) if fn == 'GetEngValue' else (None,)):
                    conv = cname is not None
                    R.count('observer value cases')
                    name = 'the %s<%s> of a %s channel%s' % (fn, 'string' if text else 'byte array' if vec else ty, dt, ' with a %s conversion' % cname if conv else '')
                    key = '%s/%s%s' % (fn, dt, '/' + cname if conv else '')
                    mk = lambda: Obs(dv, CONV[cname] if conv else None)
                    old = Opq('textold') if text else None
                    P = Paths({})
                    P.start()
                    o = mk()
                    dest = Opq('textold') if text else o.I.new_vec(K(64, 0, 0)) if vec else A.unknown(*it) if it else Flt(A.type_bits(ty), ('old',))
                    und = None
                    P.given = {('sv',): 1, ('cv',): 1}; o.I.decide = P.decide
                    try:
                        r = A.truth(o.I.run(f, o.this, [K(64, 0, 11), dest, K(64, 0, 5)]))
                        v = o.I.mem[o.I.params[1][1]]
                    except Undecided as e:
                        r = v = None; und = e; DBG and print(name, e)
                    except Thrown:
                        R.violate('conv.observer', key, where, name + ' throws'); continue
                    if goal is None:
                        if o.used or r not in (0, None): R.violate('conv.observer', key, where, '%s is fetched although it is not available' % name)
                        continue
                    if [u[0] for u in o.used] != [goal]: R.violate('conv.observer', key, where, '%s is fetched by %s instead of %s' % (name, ', '.join(u[0] for u in o.used) or 'nothing', goal)); continue
                    u = o.used[0]
                    if u[1] != K(64, 0, 11): R.violate('conv.observer', key + '/sample', where, '%s is not the value of the requested sample' % name)
                    if u[2] is not None and u[2].c != 5: R.violate('conv.observer', key + '/index', where, '%s is not the value of the requested array index' % name)
                    numeric = goal in ('GetSampleUnsigned', 'GetSampleSigned', 'GetSampleFloat') and not dt.startswith('CanOpen')
                    convertible = conv and (numeric or goal == 'GetSampleText' and dt.startswith('String'))
                    if vec: convertible = False
                    if convertible and (len(o.converted) != 1 or o.converted[0] != VAL[goal]): R.violate('conv.observer', key + '/convert', where, '%s is not the converted value of the sample' % name); continue
                    if not convertible and o.converted: R.violate('conv.observer', key + '/convert', where, '%s is converted' % name); continue
                    if und is not None:
                        R.count('scenarios left open') if goal not in ('GetSampleText',) else None
                        continue
                    if r not in (('sv',), ('cv',), 1, ('&', ('sv',), ('cv',))): R.violate('conv.observer', key + '/valid', where, '%s is %s although it is available' % (name, 'invalid' if r == 0 else 'not marked by its validity'))
                    if (it or ty in ('float', 'double')) and numeric and not A_unknown(v):
                        e = (Bv(it[0], it[1], tuple(('c', i) for i in range(it[0]))) if it else Flt(A.type_bits(ty), ('conv',))) if conv else o.I.cast(VAL[goal], ty)
                        if v != e: R.violate('conv.observer', key + '/value', where, '%s is not the %svalue of the sample' % (name, 'converted ' if conv else ''))
                    if text and dt.startswith('String') and isinstance(v, Opq) and v.n:
                        if v != Opq('convtext' if conv else 'sampletext') and not (cname == 'TextToValue' and v.n == 'fmt:%r' % (('conv',),)): R.violate('conv.observer', key + '/text', where, '%s is not the %stext of the sample but %s' % (name, 'converted ' if conv else '', v.n))
                    # a value that is not valid
                    for bad in (('sv',), ('cv',)) if convertible else (('sv',),):
                        o2 = mk()
                        P.given = {('sv',): 1, ('cv',): 1, bad: 0}; o2.I.decide = P.decide
                        P.start()
                        try:
                            r2 = A.truth(o2.I.run(f, o2.this, [K(64, 0, 11), o2.I.new_vec(K(64, 0, 0)) if vec else dest, K(64, 0, 5)]))
                        except Undecided: continue
                        R.count('observer value cases')
                        if not implies_false(r2, bad): R.violate('conv.observer', key + '/invalid', where, '%s is valid although the %s' % (name, 'sample is not' if bad == ('sv',) else 'value cannot be converted'))


def implies_false(r, bad):
    if r == 0 or r == bad: return True
    if isinstance(r, tuple) and r[0] == '&': return implies_false(r[1], bad) or implies_false(r[2], bad)
    return r == T


def A_unknown(v): return isinstance(v, Int) and T in v.bits() or isinstance(v, Flt) and v.t[0] in ('?', 'old') or isinstance(v, Opq) and not v.n


def loops(R):
    """the list functions deliver value i of sample/element i"""
    for fn, one, size, at in (('GetChannelSamples', 'GetChannelValue', 'NofSamples', 0), ('GetEngSamples', 'GetEngValue', 'NofSamples', 0), ('GetChannelValues', 'GetChannelValue', 'ArraySize', 1), ('GetEngValues', 'GetEngValue', 'ArraySize', 1)):
        for f in fns(OB, fn):
            ty = short_t(f['p'][-1]['t'])
            if 'unsigned long' not in ty: continue
            R.analysed(f)
            R.count('list cases')
            where = (f['file'], f['line'])
            o = Obs(0, None)
            base = o.oracle
            seen = []

            def orc(name, obj, a, I):
                if obj == o.this and name == size: return K(64, 0, 4)
                if obj == o.this and name == one:
                    x = a[0]['a']
                    s, i = I.ev(x[0]), I.ev(x[2]) if len(x) > 2 else K(64, 0, 0)
                    seen.append((s.c, i.c))
                    I.store(I.lv(x[1]), K(64, 0, 100 + len(seen)))
                    return Bv(1, 0, (('ok', s.c, i.c),))
                return base(name, obj, a, I)
            o.I.oracle = orc
            lst = o.I.new_vec(K(64, 0, 0), 8)
            try:
                r = o.I.run(f, o.this, [lst] if at == 0 else [K(64, 0, 9), lst])
                marks = [o.I.read_bytes(Ptr(('vec', r.id), K(64, 0, i), 1), 1)[0][0] for i in range(4)] if isinstance(r, Ref) and not o.I.is_list(r) and o.I.vsize(r).c == 4 else None; DBG and print(fn, r, marks)
            except Undecided as e:
                R.count('scenarios left open'); R.notes.append('left open %s: %s' % (fn, e)); continue
            want = [(i, 0) for i in range(4)] if at == 0 else [(9, i) for i in range(4)]
            vals = [sum(b << j for j, b in enumerate(sum(o.I.read_bytes(Ptr(('vec', lst.id), K(64, 0, 8 * i), 8), 8), ()))) for i in range(4)] if o.I.vsize(lst).c == 4 else None
            if marks is not None and T not in marks and marks != [('ok',) + w for w in want]: R.violate('conv.list', fn + '/valid', where, '%s does not mark each value at its own index' % fn)
            if sorted(seen) != want or vals != [101 + seen.index(w) for w in want]: R.violate('conv.list', fn, where, '%s does not deliver each value at its own index' % fn)
    for f in fns(OB, 'EngValueToString'):
        R.analysed(f)
        for n in (0, 3):
            R.count('list cases')
            o = Obs(0, None)
            base = o.oracle
            seen = []

            def orc2(name, obj, a, I):
                if name == 'IsArray': return K(1, 0, int(n > 0))
                if name == 'ArraySize': return K(64, 0, n)
                if obj == o.this and name == 'GetEngValue':
                    x = a[0]['a']
                    s, i = I.ev(x[0]), I.ev(x[2]) if len(x) > 2 else K(64, 0, 0)
                    seen.append((s.c, i.c))
                    I.store(I.lv(x[1]), Opq('value %d' % i.c))
                    return K(1, 0, 1)
                return base(name, obj, a, I)
            o.I.oracle = orc2
            try: o.I.run(f, o.this, [K(64, 0, 9)])
            except Undecided as e:
                R.count('scenarios left open'); R.notes.append('left open EngValueToString: %s' % e); continue
            if seen != [(9, i) for i in range(max(n, 1))]: R.violate('conv.list', 'EngValueToString', (f['file'], f['line']), 'EngValueToString does not show each value of the sample once and in order')


def run(db, R):
    global DB
    DB = db
    formulas(R)
    tables(R)
    texts(R)
    dispatch(R)
    observers(R)
    loops(R)
