"""Channel values: what a setter stores in the sample buffer and what a getter takes
from a record, bit by bit, for every data type, size, bit offset and array index."""
import os
from itertools import product
from multiprocessing import Pool
from .. import absint as A
from ..absint import Interp, Int, Flt, Ptr, Ref, K, Ln, Bv, Undecided, Thrown, T
from ..facts import AnalysisError

IC = 'mdf::IChannel'
C4, C3 = 'mdf::detail::Cn4Block', 'mdf::detail::Cn3Block'
DT = {}
CT = {}
DB = None
NUM = {'UnsignedIntegerLe': ('u', 1), 'UnsignedIntegerBe': ('u', 0), 'SignedIntegerLe': ('s', 1), 'SignedIntegerBe': ('s', 0), 'FloatLe': ('f', 1), 'FloatBe': ('f', 0)}


def fns(cls, name):
    return [DB.funcs[i] if isinstance(i, str) else i for i in DB.by_name.get('%s::%s' % (cls, name), ()) if not isinstance(i, str) or i in DB.funcs]


def pick(cls, name, arg=None, at=1):
    l = fns(cls, name)
    if arg is not None: l = [f for f in l if len(f['p']) > at and f['p'][at]['t'] == arg]
    if not l: raise AnalysisError('%s::%s(%s) not found' % (cls, name, arg or ''))
    return l[0]


class Chan:
    """a channel of class cls with the given public properties"""

    def __init__(self, cls, dt, bits, bit_offset=0, ctype='FixedLength', vlsd=0, extra=None):
        self.p = {'DataType': K(8, 0, DT[dt]), 'BitCount': K(32, 0, bits), 'BitOffset': K(16, 0, bit_offset), 'ByteOffset': Ln(32, 0, 1, 0),
                  'DataBytes': K(64, 0, (bits + 7) // 8), 'Type': K(8, 0, CT[ctype]), 'VlsdRecordId': K(64, 0, vlsd), 'ArraySize': K(64, 0, 1)}
        self.p.update(extra or {})
        self.ev = []
        self.I = Interp(DB, oracle=self.oracle, this_cls=cls, inline=self.inline)
        self.this = Ref(('chan',), cls)
        self.buf = None
        self.gets = {}           # results of observed getters

    def inline(self, f): return True

    def oracle(self, name, obj, a, I):
        if name.startswith('.'): return None
        if obj is not None and obj != self.this and not isinstance(obj, A.Opq): 
            if isinstance(obj, Ref) and 'half' in str(obj.cls) and name.startswith('operator'):
                v = I.mem.get(obj.id + ('f', 'data_'))
                return Flt(32, ('half', v.bits() if isinstance(v, Int) else None))
            return None
        if not a: return None
        n = a[0]
        if obj == self.this and name in self.p and not n['a']: return self.p[name]
        if obj == self.this and name == 'SampleBuffer' and self.buf is not None: return self.buf
        if obj == self.this and name == 'SetValid' and self.p.get('watch valid', 1):
            v, i = I.ev(n['a'][0]), I.ev(n['a'][1])
            self.ev.append(('valid', A.truth(v), i.c if isinstance(i, Int) else None))
            return A.Opq('void')
        if obj == self.this and name == 'GetValid' and self.p.get('watch valid', 1):
            i = I.ev(n['a'][1])
            return Bv(1, 0, (('gv', i.c if isinstance(i, Int) else None),))
        if obj == self.this and name in self.gets:
            return self.gets[name](n, I)
        if name in ('Name',): return A.Opq('name')
        return None

    def record(self, size):
        return self.I.new_vec(size, init=lambda k, i: ('r', k, i), hint='rec')


def want(dt, bit, bits, idx):
    """bits of the value stored at bit offset `bit` (+ idx values) of byte B of a record"""
    kind, le = NUM[dt]
    p = bit + idx * bits
    if le: return [('r', (1, (p + i) // 8), (p + i) % 8) for i in range(bits)]
    nb = (p % 8 + bits + 7) // 8
    return [('r', (1, p // 8 + nb - 1 - (p % 8 + i) // 8), (p % 8 + i) % 8) for i in range(bits)]


def expected(dt, w, bits):
    kind = NUM[dt][0]
    if kind == 'u': return Bv(64, 0, tuple(w) + (0,) * (64 - bits))
    if kind == 's': return Bv(64, 1, tuple(w) + (w[-1],) * (64 - bits))
    if bits == 64: return Flt(64, ('bits', tuple(w)))
    if bits == 32: return Flt(64, ('cast', 64, ('bits', tuple(w))))
    return Flt(64, ('cast', 64, ('half', tuple(w))))


GETTER = {'u': 'GetUnsignedValue', 's': 'GetSignedValue', 'f': 'GetFloatValue'}


def unknown(v):
    b = v.bits() if isinstance(v, Int) else ()
    return not isinstance(v, (Int, Flt)) or T in b or isinstance(v, Flt) and ('T' in str(v.t) and "'T'" in str(v.t))


def get_case(c):
    """one getter configuration"""
    kind, dt, bits, bit, idx, short, cls, ctype = c
    out = []
    g = GETTER[kind]
    f = pick(IC, g)
    end = (bit + (idx + 1) * bits + 7) // 8
    ch = Chan(cls, dt, bits, bit, ctype)
    rec = ch.record(Ln(64, 0, 1, end - (1 if short else 0)))
    where = (f['file'], f['line'])
    name = '%s of %d bits, bit offset %d, array index %d' % (dt, bits, bit, idx)
    sig = {'u': ('unsigned long', 64, 0), 's': ('long', 64, 1)}.get(kind)
    dest = K(64, sig[2], 0) if sig else Flt(64, ('k', 0.0))
    try:
        r = ch.I.run(f, ch.this, [rec, dest, K(64, 0, idx)])
    except Undecided as e:
        return [('open', '%s: %s' % (name, e))]
    except Thrown:
        return [('value.get', '%s/throw' % g, where, '%s throws for a %s' % (f['n'], name))]
    ok = A.truth(r)
    for o in ch.I.oob:
        out.append(('value.bounds', '%s/read' % g, (o[0], o[1]), '%s of a record that is %s reads outside the record' % (name, 'too short' if short else 'long enough')))
    if short:
        if ok != 0: out.append(('value.bounds', '%s/short' % g, where, '%s of a record that is one byte too short is not reported as invalid' % name))
        return out
    if ok == T: return out + [('open', name)]
    if ok != 1:
        out.append(('value.get', '%s/valid' % g, where, '%s of a complete record is reported as invalid' % name))
        return out
    v = ch.I.mem[ch.I.params[1][1]]
    if ctype == 'VariableLength': e = expected('UnsignedIntegerLe', want('UnsignedIntegerLe', bit, bits, idx), bits)
    else: e = expected(dt, want(dt, bit, bits, idx), bits)
    if v != e:
        if unknown(v): out.append(('open', name))
        else: out.append(('value.get', '%s/%s' % (g, dt), where, '%s is not taken from the bits the channel describes: %s' % (name, first_diff(v, e))))
    return out


def first_diff(v, e):
    if isinstance(v, Int) and isinstance(e, Int):
        for i, (a, b) in enumerate(zip(v.bits(), e.bits())):
            if a != b: return 'bit %d is %s instead of %s' % (i, bitname(a), bitname(b))
    return '%s instead of %s' % (str(v)[:80], str(e)[:80])


def bitname(b):
    if isinstance(b, tuple) and b[0] == 'r': return 'bit %d of byte %s' % (b[2], 'offset+%d' % b[1][1] if b[1][0] else b[1][1])
    if isinstance(b, tuple) and b[0] == 'v': return 'bit %d of the value' % b[1]
    return str(b)[:60]


ARG = {'u': 'const unsigned long &', 's': 'const long &', 'f': 'const double &'}


def value(kind):
    if kind == 'f': return Flt(64, ('val',))
    return Bv(64, 1 if kind == 's' else 0, tuple(('v', i) for i in range(64)))


def stored(dt, kind, nbytes, I):
    """bytes, in file order, that a value of kind `kind` set on a channel of type dt becomes"""
    k, le = NUM[dt]
    v = value(kind)
    if k == 'f':
        v = I.cast(v, 'double')
        if nbytes == 4: v = I.cast(v, 'float')
        elif nbytes != 8: return None
    else:
        v = A.conv_int(v, 64, 1 if k == 's' else 0)
        if nbytes not in (1, 2, 4, 8): return None
    b = v.bits()[:8 * nbytes]
    bs = [tuple(b[8 * i:8 * i + 8]) for i in range(nbytes)]
    return bs if le else bs[::-1]


def set_case(c):
    kind, dt, nbytes, idx, short, valid, cls = c
    f = pick(IC, 'SetChannelValue', ARG[kind], 0)
    ch = Chan(cls, dt, 8 * nbytes)
    end = nbytes * (idx + 1)
    ch.buf = ch.record(Ln(64, 0, 1, end - (1 if short else 0)))
    where = (f['file'], f['line'])
    name = 'a %s of %d bytes, array index %d' % (dt, nbytes, idx)
    try:
        ch.I.run(f, ch.this, [value(kind), K(1, 0, valid), K(64, 0, idx)])
    except Undecided as e:
        return [('open', '%s: %s' % (name, e))]
    except Thrown:
        return [('value.set', 'throw/' + dt, where, 'setting %s throws' % name)]
    out = []
    for o in ch.I.oob:
        out.append(('value.bounds', 'Set/%s' % dt, (o[0], o[1]), 'setting %s in a buffer that is %s writes outside the buffer' % (name, 'too short' if short else 'long enough')))
    out += check_store(ch, stored(dt, kind, nbytes, ch.I) if not short else None, nbytes * idx, end, name, where, dt, valid, idx)
    return out


def check_store(ch, exp, start, end, name, where, key, valid, idx):
    out = []
    vid = ch.buf.id
    for i in range(0, end + 2):
        b = ch.I.mem.get(vid + ('B', (1, i)))
        init = tuple(('r', (1, i), j) for j in range(8))
        if exp is None or not start <= i < start + len(exp):
            if b is not None and b != init:
                out.append(('value.set', key + '/other', where, 'setting %s changes byte %d that is not part of it' % (name, i))); break
            continue
        if b != exp[i - start]:
            if b is not None and T in b: out.append(('open', name))
            else: out.append(('value.set', key, where, 'setting %s stores %s in byte %d instead of %s' % (name, 'nothing' if b is None else bitname(b[0]) + '..', i, bitname(exp[i - start][0]) + '..')))
            break
    for k, b in ch.I.mem.items():
        if k[:len(vid)] == vid and k[-2:-1] == ('B',) and (k[-1][0] != 1 or not 0 <= k[-1][1] < end + 2):
            out.append(('value.set', key + '/elsewhere', where, 'setting %s changes a byte outside its place' % name)); break
    v = [x for x in ch.ev if x[0] == 'valid']
    ok = (valid if exp is not None else 0, idx)
    if not v: out.append(('value.valid', key, where, 'setting %s does not mark it as valid or invalid' % name))
    elif v[-1][1] != ok[0]: out.append(('value.valid', key, where, 'setting %s %sleaves it marked as %s' % (name, '' if exp is not None else 'which cannot be stored ', 'valid' if v[-1][1] else 'invalid')))
    elif any(x[2] != idx for x in v): out.append(('value.valid', key + '/index', where, 'setting %s marks another array value as valid or invalid' % name))
    return out


def bytes_case(c):
    """SetByteArray / SetTextValue on a channel of fixed size"""
    text, nbytes, size, short, valid, cls = c
    nm = 'SetTextValue' if text else 'SetByteArray'
    f = pick(IC, nm)
    ch = Chan(cls, 'StringUTF8' if text else 'ByteArray', 8 * nbytes)
    ch.buf = ch.record(Ln(64, 0, 1, nbytes - (1 if short else 0)))
    val = ch.I.new_vec(K(64, 0, size), init=lambda k, i: ('v', k[1] * 8 + i))
    where = (f['file'], f['line'])
    name = 'a %s of %d bytes on a channel of %d bytes' % ('text' if text else 'byte array', size, nbytes)
    g = [x for x in fns(cls, nm)] or [f]
    try:
        ch.I.run(g[0], ch.this, [val, K(1, 0, valid)])
    except Undecided as e:
        return [('open', '%s: %s' % (name, e))]
    out = [('value.bounds', nm, (o[0], o[1]), 'setting %s %swrites outside the buffer or reads outside the value' % (name, 'in a too short buffer ' if short else '')) for o in ch.I.oob]
    if short or nbytes == 0: exp = None
    else:
        k = min(size, nbytes - 1 if text else nbytes)
        exp = [tuple(('v', i * 8 + j) for j in range(8)) for i in range(k)] + [(0,) * 8] * (nbytes - k)
    return out + check_store(ch, exp, 0, nbytes, name, where, nm, valid, 0)


def fetch_bytes(c):
    """GetByteArrayValue of a fixed or maximum length channel, GetCanOpenDate/Time"""
    what, nbytes, short, cls = c
    nm = {'bytes': 'GetByteArrayValue', 'mlsd': 'GetByteArrayValue', 'date': 'GetCanOpenDate', 'time': 'GetCanOpenTime'}[what]
    f = (fns(cls, nm) or fns(IC, nm) or [None])[0]
    if f is None: raise AnalysisError(nm + ' not found')
    dt = {'bytes': 'ByteArray', 'mlsd': 'ByteArray', 'date': 'CanOpenDate', 'time': 'CanOpenTime'}[what]
    ch = Chan(cls, dt, 8 * (nbytes if what != 'mlsd' else 16), ctype='MaxLength' if what == 'mlsd' else 'FixedLength')
    rec = ch.record(Ln(64, 0, 1, nbytes - (1 if short else 0)))
    other = Ref(('length channel',), C4)
    seen = []

    def orc(name, obj, a, I):
        if name.startswith('.') and what == 'mlsd' and 'IChannel' in (obj.get('t') or '') + ('IChannel' if 'Cn4Block' in (obj.get('t') or '') else '') and (obj.get('t') or '').endswith('*'): return other
        if name.startswith('.') and (obj.get('t') or '').endswith('*'): return A.NULL
        if obj == other and name == 'GetUnsignedValue':
            l = I.lv(a[0]['a'][1]); I.store(l, K(64, 0, nbytes)); return K(1, 0, 1)
        if name in ('CanOpenDateArrayToNs', 'CanOpenTimeArrayToNs'):
            v = I.ev(a[0]['a'][0])
            seen.append(I.read_bytes(I.asptr(v), I.vsize(v).c))
            return Bv(64, 0, tuple((name, i) for i in range(64)))
        return ch.oracle(name, obj, a, I)
    ch.I.oracle = orc
    where = (f['file'], f['line'])
    name = 'a %s value of %d bytes' % (dt, nbytes)
    dest = ch.I.new_vec(K(64, 0, 0)) if nm == 'GetByteArrayValue' else K(64, 0, 0)
    try:
        r = ch.I.run(f, ch.this, [rec, dest])
    except Undecided as e:
        return [('open', '%s: %s' % (name, e))]
    out = [('value.bounds', nm, (o[0], o[1]), '%s is fetched from outside the %srecord' % (name, 'too short ' if short else '')) for o in ch.I.oob]
    ok = A.truth(r)
    if ok == T: return out + [('open', name)]
    if short:
        if ok != 0: out.append(('value.bounds', nm + '/short', where, '%s of a too short record is not reported as invalid' % name))
        return out
    exp = [tuple(('r', (1, i), j) for j in range(8)) for i in range(nbytes)]
    if ok != 1: out.append(('value.get', nm + '/valid', where, '%s of a complete record is reported as invalid' % name))
    elif nm == 'GetByteArrayValue':
        sz = ch.I.vsize(dest)
        got = ch.I.read_bytes(ch.I.asptr(dest), sz.c) if sz.c is not None else None
        if got != exp: out.append(('value.get', nm, where, '%s is not copied from the bytes of its channel' % name) if got is None or not any(T in x for x in got) else ('open', name))
    else:
        fn = 'CanOpenDateArrayToNs' if what == 'date' else 'CanOpenTimeArrayToNs'
        v = ch.I.mem[ch.I.params[1][1]]
        if v != Bv(64, 0, tuple((fn, i) for i in range(64))): out.append(('value.get', nm + '/conversion', where, '%s is not converted by %s' % (name, fn)))
        if seen and seen[0] != exp: out.append(('value.get', nm, where, '%s is not copied from the bytes of its channel' % name))
    return out


def text_case(c):
    """GetTextValue of a fixed length text channel"""
    dt, chars, nbytes, short, cls = c
    f = (fns(cls, 'GetTextValue') or fns(IC, 'GetTextValue') or [None])[0]
    if f is None: raise AnalysisError('GetTextValue not found')
    w = 2 if '16' in dt else 1
    raw = b''.join(x.encode({'StringUTF16Le': 'utf-16-le', 'StringUTF16Be': 'utf-16-be'}.get(dt, 'latin1')) for x in chars)
    ch = Chan(cls, dt, 8 * nbytes)
    rec = ch.record(Ln(64, 0, 1, nbytes - (1 if short else 0)))
    for i in range(nbytes): ch.I.mem[rec.id + ('B', (1, i))] = tuple((raw[i] >> j) & 1 for j in range(8))

    def orc(name, obj, a, I):
        if name in ('Latin1ToUtf8', 'Utf16ToUtf8') and not name.startswith('.'):
            v = I.ev(a[0]['a'][0])
            sz, es = I.vsize(v), I.ves(v)
            if sz.c is None: raise Undecided('text')
            r = I.new_vec(K(64, 0, 0))
            b = I.read_bytes(I.asptr(v), sz.c * es)
            for i in range(sz.c): I.append(r, Bv(8, 0, b[i * es]))
            return r
        return ch.oracle(name, obj, a, I)
    ch.I.oracle = orc
    where = (f['file'], f['line'])
    name = 'a %s value of %d bytes' % (dt, nbytes)
    dest = ch.I.new_vec(K(64, 0, 0))
    try:
        r = A.truth(ch.I.run(f, ch.this, [rec, dest]))
    except Undecided as e:
        return [('open', '%s: %s' % (name, e))]
    out = [('value.bounds', 'GetTextValue', (o[0], o[1]), '%s is fetched from outside the %srecord' % (name, 'too short ' if short else '')) for o in ch.I.oob[:1]]
    if short:
        return out
    if r == T: return out + [('open', name)]
    exp = chars.split('\0')[0].encode('latin1')
    sz = ch.I.vsize(dest)
    if r != 1: out.append(('value.get', 'GetTextValue/valid', where, '%s of a complete record is reported as invalid' % name))
    elif sz.c is None: out.append(('open', name))
    else:
        got = ch.I.read_bytes(ch.I.asptr(dest), sz.c)
        if any(T in x for x in got): out.append(('open', name))
        elif bytes(sum(x << j for j, x in enumerate(b)) for b in got) != exp: out.append(('value.get', 'GetTextValue/' + dt, where, '%s is not the text before the terminator of its channel bytes' % name))
    return out


def vlsd_case(c):
    """values of a variable length channel go to the signal data and back"""
    text, sizes, valid = c
    nm = 'SetTextValue' if text else 'SetByteArray'
    f = (fns(C4, nm) or [None])[0]
    if f is None: raise AnalysisError('Cn4Block::%s not found' % nm)
    best = None
    for term in ((1, 0) if text else (0,)):
        r = vlsd_run(ch_new(text), c, f, term)
        if best is None or sum(x[0] != 'open' for x in r) < sum(x[0] != 'open' for x in best): best = r
    return best


def ch_new(text):
    ch = Chan(C4, 'StringUTF8' if text else 'ByteArray', 64, ctype='VariableLength')
    base = ch.oracle

    def orc(name, obj, a, I):
        if name in ('find', 'cend', 'end') and isinstance(obj, A.Opq): return A.Opq('end')
        if name.startswith('.') and 'map<' in (obj.get('t') or ''): return A.Opq('map')
        if name == '.bit_count_': return K(32, 0, 64)
        return base(name, obj, a, I)
    ch.I.oracle = orc
    return ch


def vlsd_run(ch, c, f, term):
    text, sizes, valid = c
    nm = 'SetTextValue' if text else 'SetByteArray'
    where = (f['file'], f['line'])
    recs = []
    out = []
    name = 'variable length %s' % ('text' if text else 'byte array')
    off = 0
    let = lambda i, k: 65 + (i * 7 + k) % 50
    try:
        for i, size in enumerate(sizes):
            ch.buf = ch.record(Ln(64, 0, 1, 8))
            ch.ev.clear()
            val = ch.I.new_vec(K(64, 0, size), init=(lambda k, j, i=i: (let(i, k[1]) >> j) & 1) if text else lambda k, j, i=i: ('v', i, k[1] * 8 + j))
            ch.I.run(f, ch.this, [val, K(1, 0, valid)])
            out += check_store(ch, [tuple((off >> (8 * n + j)) & 1 for j in range(8)) for n in range(8)], 0, 8, 'the index of a ' + name, where, nm + '/vlsd', valid, 0)
            recs.append(ch.buf)
            off += 4 + size + term
        gn = 'GetTextValue' if text else 'GetByteArrayValue'
        g = fns(C4, gn)[0]
        for i, size in enumerate(sizes):
            dest = ch.I.new_vec(K(64, 0, 0))
            r = ch.I.run(g, ch.this, [recs[i], dest])
            sz = ch.I.vsize(dest)
            if A.truth(r) == 1 and sz.c is not None:
                got = ch.I.read_bytes(ch.I.asptr(dest), sz.c)
                exp = [tuple((let(i, n) >> j) & 1 if text else ('v', i, n * 8 + j) for j in range(8)) for n in range(size)]
                if got != exp and not any(T in x for x in got):
                    out.append(('value.get', gn + '/vlsd', (g['file'], g['line']), 'value %d of a variable length channel is not the one that was set' % i))
            elif A.truth(r) == 0:
                out.append(('value.get', gn + '/vlsd', (g['file'], g['line']), 'value %d of a variable length channel is reported as invalid' % i))
            else: out.append(('open', name))
        # an index outside the signal data
        for bad in (off - 3, off, off + 5):
            for nmg in ('GetByteArrayValue', 'GetTextValue'):
                g = fns(C4, nmg)[0]
                rec = ch.record(Ln(64, 0, 1, 8))
                for n in range(8): ch.I.mem[rec.id + ('B', (1, n))] = tuple((bad >> (8 * n + j)) & 1 for j in range(8))
                n0 = len(ch.I.oob)
                dest = ch.I.new_vec(K(64, 0, 0))
                try: r = ch.I.run(g, ch.this, [rec, dest])
                except Undecided: r = None
                if len(ch.I.oob) > n0: out.append(('value.bounds', nmg + '/vlsd', (ch.I.oob[-1][0], ch.I.oob[-1][1]), '%s reads outside the signal data when the index of a value lies outside it' % g['n']))
                elif r is not None and A.truth(r) == 1: out.append(('value.bounds', nmg + '/vlsd index', (g['file'], g['line']), '%s does not report an index outside the signal data as invalid' % g['n']))
        # a length that reaches beyond the signal data
        sb = (fns(C4, 'SetByteArray') or [None])[0]
        if sb is not None:
            for length in (3, 4, 6, 7, 90):
                ch.buf = ch.record(Ln(64, 0, 1, 8))
                ch.I.run(sb, ch.this, [ch.I.new_vec(K(64, 0, 6), init=lambda k, j: (length >> (8 * k[1] + j)) & 1 if k[1] < 4 else 0), K(1, 0, 1)])
                rec = ch.buf
                old = [ch.I.byte(rec.id, Ln(64, 0, 1, n)) for n in range(8)]
                if any(b not in (0, 1) for x in old for b in x): out.append(('open', name)); break
                at = sum(b << (8 * n + j) for n, x in enumerate(old) for j, b in enumerate(x)) + 4
                for n in range(8): ch.I.mem[rec.id + ('B', (1, n))] = tuple((at >> (8 * n + j)) & 1 for j in range(8))
                for nmg in ('GetByteArrayValue', 'GetTextValue'):
                    g = fns(C4, nmg)[0]
                    n0 = len(ch.I.oob)
                    try: r = ch.I.run(g, ch.this, [rec, ch.I.new_vec(K(64, 0, 0))])
                    except (Undecided, Thrown): r = None
                    if len(ch.I.oob) > n0: out.append(('value.bounds', nmg + '/vlsd length', (ch.I.oob[-1][0], ch.I.oob[-1][1]), '%s reads outside the signal data when the length of a value reaches beyond it' % g['n']))
                    elif r is not None and A.truth(r) == 1: out.append(('value.bounds', nmg + '/vlsd length', (g['file'], g['line']), '%s does not report a length beyond the signal data as invalid' % g['n']))
    except Undecided as e:
        return out + [('open', '%s: %s' % (name, e))]
    for o in ch.I.oob[:1]: out.append(('value.bounds', nm + '/vlsd', (o[0], o[1]), 'a %s is stored or fetched outside its buffer' % name))
    return out


def setlist_case(c):
    """SetChannelValues sets value i at array index i, within the array"""
    fi, size, n = c
    f = fns(IC, 'SetChannelValues')[fi]
    if 'unsigned long' not in f['p'][0]['t']: return []
    ch = Chan(C4, 'UnsignedIntegerLe', 64)
    base = ch.oracle
    seen = []

    def orc(name, obj, a, I):
        if name == 'ArraySize': return K(64, 0, size)
        if name == 'SetChannelValue':
            x = [I.ev(y) for y in a[0]['a']]
            seen.append((x[0].c, x[1].c if len(x) > 1 else 1, x[2].c if len(x) > 2 else 0)); return A.Opq()
        return base(name, obj, a, I)
    ch.I.oracle = orc
    val = ch.I.new_vec(K(64, 0, n), 8, init=lambda k, j: ((100 + k[1] // 8) >> j) & 1 if k[1] % 8 == 0 else 0)
    try: ch.I.run(f, ch.this, [val])
    except Undecided as e: return [('open', 'SetChannelValues: %s' % e)]
    if sorted(seen) != [(100 + i, 1, i) for i in range(min(size, n))]: return [('value.set', 'SetChannelValues', (f['file'], f['line']), 'SetChannelValues of %d values does not set each of the %d array values to the value of the same index' % (n, size))]
    return []


def valid_case(c):
    """SetValid / GetValid of a MDF4 channel use the same invalidation bit"""
    pos, idx, flag, valid = c
    s, g = fns(C4, 'SetValid')[0], fns(C4, 'GetValid')[0]
    off = fns(C4, 'SetInvalidOffset')
    if not off: raise AnalysisError('Cn4Block::SetInvalidOffset not found')
    ch = Chan(C4, 'UnsignedIntegerLe', 8, extra={'Flags': K(32, 0, flag), 'watch valid': 0})
    cg = Ref(('group',), 'mdf::detail::Cg4Block')
    base = ch.oracle

    def orc(name, obj, a, I):
        if name.startswith('.') and 'Cg4Block' in (obj.get('t') or ''): return cg
        if obj == cg and name == 'NofDataBytes': return Ln(32, 0, 1, 0)
        if obj == cg and name == 'NofInvalidBytes': return K(32, 0, 3)
        return base(name, obj, a, I)
    ch.I.oracle = orc
    ch.buf = ch.record(Ln(64, 0, 1, 3))
    where = (s['file'], s['line'])
    name = 'invalidation bit %d, array index %d' % (pos, idx)
    out = []
    try:
        ch.I.run(off[0], ch.this, [K(64, 0, pos)])
        ch.I.run(s, ch.this, [K(1, 0, valid), K(64, 0, idx)])
        p = pos + idx
        for i in range(0, 4):
            b = ch.I.mem.get(ch.buf.id + ('B', (1, i)), tuple(('r', (1, i), j) for j in range(8)))
            e = tuple((0 if valid else 1) if flag & 2 and i * 8 + j == p and i < 3 else ('r', (1, i), j) for j in range(8))
            if b != e:
                if T in b: out.append(('open', name)); break
                out.append(('value.invalid', 'SetValid', where, 'setting %s does not change exactly that bit (byte %d)' % (name, i))); break
        n0 = len(ch.I.oob)
        rec = ch.record(Ln(64, 0, 1, 3))
        r = A.truth(ch.I.run(g, ch.this, [rec, K(64, 0, idx)]))
        e = ('!', ('r', (1, p // 8), p % 8)) if flag & 2 and p < 24 else 1
        if r != e:
            if r == T: out.append(('open', name))
            else: out.append(('value.invalid', 'GetValid', (g['file'], g['line']), '%s is read from %s' % (name, bitname(r[1] if isinstance(r, tuple) and r[0] == '!' else r))))
    except Undecided as e:
        return out + [('open', '%s: %s' % (name, e))]
    for o in ch.I.oob[:1]: out.append(('value.bounds', 'valid', (o[0], o[1]), '%s is accessed outside the record' % name))
    return out


GOAL = {'StringAscii': 'GetTextValue', 'StringUTF8': 'GetTextValue', 'StringUTF16Le': 'GetTextValue', 'StringUTF16Be': 'GetTextValue',
        'ByteArray': 'GetByteArrayValue', 'MimeSample': 'GetByteArrayValue', 'MimeStream': 'GetByteArrayValue', 'CanOpenDate': 'GetCanOpenDate', 'CanOpenTime': 'GetCanOpenTime'}
for _k, _v in NUM.items(): GOAL[_k] = GETTER[_v[0]]


def dispatch_case(c):
    """GetChannelValue<T>: which getter, with which arguments, and what becomes of its result"""
    fi, dt, idx, ok = c
    f = fns(IC, 'GetChannelValue')[fi]
    ty = f['p'][1]['t'].rstrip(' &')
    it = A.intty(ty)
    ch = Chan(C4, dt, 64)
    goal = GOAL.get(dt)
    used = []
    src = {'GetUnsignedValue': Bv(64, 0, tuple(('v', i) for i in range(64))), 'GetSignedValue': Bv(64, 1, tuple(('v', i) for i in range(64))), 'GetFloatValue': Flt(64, ('val',)),
           'GetCanOpenDate': Bv(64, 0, tuple(('v', i) for i in range(64))), 'GetCanOpenTime': Bv(64, 0, tuple(('v', i) for i in range(64)))}

    def getter(nm):
        def g(n, I):
            a = n['a']
            i = I.ev(a[2]) if len(a) > 2 else K(64, 0, 0)
            used.append((nm, i.c if isinstance(i, Int) else None, I.ev(a[0]) == rec))
            if nm in src: I.store(I.lv(a[1]), src[nm])
            elif nm == 'GetByteArrayValue':
                d = I.ev(a[1]); I.mem[d.id + ('size',)] = K(64, 0, 2); I.init[d.id] = lambda k, j: ('v', k[1] * 8 + j)
            return K(1, 0, ok)
        return g
    for nm in set(GOAL.values()): ch.gets[nm] = getter(nm)
    rec = ch.record(Ln(64, 0, 1, 8))
    where = (f['file'], f['line'])
    name = 'GetChannelValue<%s> of a %s channel' % ('string' if 'string' in ty else 'byte array' if 'vector' in ty else ty, dt)
    dest = A.unknown(*it) if it else Flt(A.type_bits(ty), ('old',)) if ty in ('float', 'double') else ch.I.new_vec(K(64, 0, 0)) if 'vector' in ty else A.Opq('text')
    try:
        r = A.truth(ch.I.run(f, ch.this, [rec, dest, K(64, 0, idx)]))
    except Undecided as e:
        r = T
    except Thrown:
        return [('value.dispatch', '%s/throw' % dt, where, '%s throws' % name)]
    out = []
    if goal is None:
        if used or r not in (0, T): out.append(('value.dispatch', dt, where, '%s delivers a value although the data type is not supported' % name))
        return out
    if [u[0] for u in used] != [goal]:
        out.append(('value.dispatch', dt, where, '%s is fetched by %s instead of %s' % (name, ', '.join(u[0] for u in used) or 'nothing', goal)))
        return out
    if goal in GETTER.values() and used[0][1] != idx: out.append(('value.dispatch', dt + '/index', where, '%s ignores the array index' % name))
    if not used[0][2]: out.append(('value.dispatch', dt + '/record', where, '%s does not use the given record' % name))
    if r == T: return out + [('open', name)]
    e = ('gv', idx) if ok else 0
    if r != e: out.append(('value.dispatch', dt + '/valid', where, '%s returns %s when the value is %s' % (name, 'valid' if r == 1 else 'invalid' if r == 0 else 'validity of another value' if isinstance(r, tuple) and r[0] == 'gv' else r, 'available' if ok else 'missing')))
    v = ch.I.mem[ch.I.params[1][1]]
    if ok and goal in src and (it or ty in ('float', 'double')):
        ex = ch.I.cast(src[goal], ty)
        if v != ex and not unknown(v): out.append(('value.dispatch', dt + '/result', where, '%s does not hand out the value of the channel' % name))
    return out


SETGOAL = {'string': dict([(k, 'SetTextValue') for k in ('StringAscii', 'StringUTF8', 'StringUTF16Le', 'StringUTF16Be')] + [(k, 'SetByteArray') for k in ('ByteArray', 'MimeSample', 'MimeStream')] +
                          [(k, {'u': 'SetUnsignedValue', 's': 'SetSignedValue', 'f': 'SetFloatValue'}[v[0]] + ('Le' if v[1] else 'Be')) for k, v in NUM.items()] + [(k, 'invalid') for k in ('CanOpenDate', 'CanOpenTime', 'ComplexLe', 'ComplexBe')]),
           'vector': dict([(k, 'SetByteArray') for k in ('StringAscii', 'StringUTF8', 'StringUTF16Le', 'StringUTF16Be', 'ByteArray', 'MimeSample', 'MimeStream', 'CanOpenDate', 'CanOpenTime')] + [(k, 'invalid') for k in list(NUM) + ['ComplexLe', 'ComplexBe']]),
           'num': dict([(k, 'SetTextValue') for k in ('StringAscii', 'StringUTF8', 'StringUTF16Le', 'StringUTF16Be')] + [(k, 'invalid') for k in ('ComplexLe', 'ComplexBe')])}


def setdispatch_case(c):
    fi, dt, idx, valid = c
    f = fns(IC, 'SetChannelValue')[fi]
    ty = f['p'][0]['t']
    kind = 'string' if 'string' in ty else 'vector' if 'vector' in ty else 'num'
    goal = SETGOAL[kind].get(dt)
    if goal is None: return []
    nb = {'CanOpenDate': 7, 'CanOpenTime': 6}.get(dt, 8)
    ch = Chan(C4, dt, nb * 8)
    used = []

    def setter(nm):
        def g(n, I):
            a = n['a']
            v = A.truth(I.ev(a[1]))
            i = I.ev(a[2]).c if len(a) > 2 else None
            try: same = I.ev(a[0]) == val
            except Undecided: same = None
            used.append((nm, v, i, same))
            return A.Opq('void')
        return g
    for nm in ('SetTextValue', 'SetByteArray', 'SetUnsignedValueLe', 'SetUnsignedValueBe', 'SetSignedValueLe', 'SetSignedValueBe', 'SetFloatValueLe', 'SetFloatValueBe'): ch.gets[nm] = setter(nm)
    val = ch.I.new_vec(K(64, 0, nb), init=lambda k, j: ('v', k[1] * 8 + j)) if kind != 'num' else value({'const unsigned long &': 'u', 'const long &': 's'}.get(ty, 'f'))
    where = (f['file'], f['line'])
    name = 'SetChannelValue<%s> of a %s channel' % ({'string': 'string', 'vector': 'byte array'}.get(kind, ty), dt)
    try:
        ch.I.run(f, ch.this, [val, K(1, 0, valid), K(64, 0, idx)])
    except Undecided as e:
        return [('open', '%s %s' % (name, e))]
    inv = [x for x in ch.ev if x[0] == 'valid']
    if goal == 'invalid':
        if used or not inv or inv[-1][1] != 0 or inv[-1][2] != idx: return [('value.dispatch', 'set/' + dt, where, '%s, which cannot be stored, does not mark the value as invalid' % name)]
        return []
    if [u[0] for u in used] != [goal]:
        return [('value.dispatch', 'set/' + dt, where, '%s is stored by %s instead of %s' % (name, ', '.join(u[0] for u in used) or 'nothing', goal))]
    out = []
    if used[0][1] != valid: out.append(('value.dispatch', 'set/%s/valid' % dt, where, '%s loses the valid argument' % name))
    if used[0][2] not in (None, idx): out.append(('value.dispatch', 'set/%s/index' % dt, where, '%s loses the array index' % name))
    return out


def stamp_case(c):
    """SetTimestamp stores the (re-scaled) time as the channel describes"""
    dt, nbytes, conv, short = c
    f = pick(IC, 'SetTimestamp', None)
    ch = Chan(C4, dt, 8 * nbytes)
    cc = Ref(('conversion',), 'mdf::IChannelConversion')
    LIN = dict(DB.enums['mdf::ConversionType']['c'])

    def orc(name, obj, a, I):
        if obj == ch.this and name == 'ChannelConversion': return A.NULL if conv is None else cc
        if obj == cc and name == 'Type': return K(8, 0, LIN[conv])
        if obj == cc and name == 'Parameter':
            i = I.ev(a[0]['a'][0])
            return Flt(64, ('par', i.c))
        return ch.oracle(name, obj, a, I)
    ch.I.oracle = orc
    rec = ch.record(Ln(64, 0, 1, nbytes - (1 if short else 0)))
    ch.buf = rec
    where = (f['file'], f['line'])
    name = 'the time of a %s master of %d bytes%s' % (dt, nbytes, '' if conv is None else ' with a %s conversion' % conv)
    try:
        ch.I.run(f, ch.this, [Flt(64, ('t',)), rec])
    except Undecided as e:
        return [('open', '%s: %s' % (name, e))]
    out = [('value.bounds', 'SetTimestamp', (o[0], o[1]), '%s is written outside the record' % name) for o in ch.I.oob[:1]]
    kind, le = NUM[dt]
    t = ('t',)
    if conv == 'Linear': t = ('fop', '/', ('fop', '-', ('t',), ('par', 0)), ('par', 1))
    ok = (conv in (None, 'Linear', 'NoConversion')) and not short and nbytes in ((4, 8) if kind == 'f' else (1, 2, 4, 8))
    got = [ch.I.mem.get(rec.id + ('B', (1, i)), tuple(('r', (1, i), j) for j in range(8))) for i in range(nbytes + 1)]
    init = [tuple(('r', (1, i), j) for j in range(8)) for i in range(nbytes + 1)]
    if not ok:
        if got != init and conv not in ('Linear',): out.append(('value.time', dt + '/kept', where, '%s, which cannot be stored, changes the record' % name))
        return out
    if got[nbytes] != init[nbytes]: out.append(('value.time', dt + '/beyond', where, '%s changes the byte after it' % name))
    bs = got[:nbytes] if le else got[:nbytes][::-1]
    b = [x for y in bs for x in y]
    if conv == 'Linear':
        # P1 == 0 is refused: the stored bits are a choice
        b2 = []
        for x, o in zip(b, [('r', (1, (i if le else nbytes - 1 - i)), j) for i in range(nbytes) for j in range(8)]):
            if isinstance(x, tuple) and x[0] == '?' and isinstance(x[1], tuple):
                x = x[2] if x[3] == o else x[3] if x[2] == o else x
            b2.append(x)
        b = b2
    def leafs(x, acc):
        if isinstance(x, tuple):
            if x and x[0] in ('t', 'par', 'fop', 'ite', 'k'): acc.append(x)
            for y in x: leafs(y, acc)
        return acc
    terms = []
    for i, x in enumerate(b):
        if not (isinstance(x, tuple) and x[0] == 'fb' and x[3] == i):
            if x == T or isinstance(x, tuple) and x[0] == '?': return out + [('open', name)]
            out.append(('value.time', dt, where, '%s is not stored in the bytes and byte order of the channel' % name)); return out
        terms.append((x[1], x[2]))
    if len(set(terms)) != 1: out.append(('value.time', dt, where, '%s is stored piecewise' % name)); return out
    w, tm = terms[0]
    if kind == 'f':
        e = [(64, t)] if nbytes == 8 else [(32, ('cast', 32, t))]
        if (w, tm) not in e: out.append(('value.time', dt + '/value', where, '%s is not the %stime' % (name, 'rescaled ' if conv == 'Linear' else '')))
    else:
        if tm[0] != 'f2i' or tm[1] < 8 * nbytes: out.append(('value.time', dt + '/value', where, '%s is not stored as integer' % name)); return out
        src = tm[3]
        if src != t and not (kind == 'u' and src[0] == 'ite' and set(map(str, src[2:])) == {str(t), str(('k', 0.0))}):
            out.append(('value.time', dt + '/value', where, '%s is not the %stime' % (name, 'rescaled ' if conv == 'Linear' else '')))
        if (tm[2] == 1) != (kind == 's'): out.append(('value.time', dt + '/sign', where, '%s is converted with the wrong sign' % name))
    return out


def jobs():
    js = []
    for cls in (C4,):
        for dt, (k, le) in NUM.items():
            for bits in ((16, 32, 64) if k == 'f' else range(1, 65)):
                for bit in range(8):
                    js.append(('get', (k, dt, bits, bit, 0, 0, cls, 'FixedLength')))
                    if bit in (0, 3) or bits in (8, 16, 32, 64): js.append(('get', (k, dt, bits, bit, 0, 1, cls, 'FixedLength')))
                if bits in (1, 7, 8, 12, 16, 32, 33, 64):
                    for bit, idx, short in product((0, 5), (1, 3), (0, 1)): js.append(('get', (k, dt, bits, bit, idx, short, cls, 'FixedLength')))
    for bits in (8, 16, 32, 64):
        for dt in ('ByteArray', 'StringUTF8', 'UnsignedIntegerBe'): js.append(('get', ('u', dt, bits, 0, 0, 0, C4, 'VariableLength')))
    for kind, dt, nb, idx, short, valid in product('usf', NUM, (1, 2, 3, 4, 8), (0, 1, 3), (0, 1), (0, 1)):
        js.append(('set', (kind, dt, nb, idx, short, valid, C4)))
    for text, (nb, size), short, valid, cls in product((0, 1), [(n, s) for n in (1, 4, 8) for s in (0, 1, n - 1, n, n + 3)], (0, 1), (0, 1), (C4, C3)):
        js.append(('bytes', (text, nb, size, short, valid, cls)))
    for what, nb, short, cls in product(('bytes', 'mlsd', 'date', 'time'), (1, 6, 7, 9), (0, 1), (C4, C3)):
        if what == 'date' and nb != 7 or what == 'time' and nb != 6 or what == 'mlsd' and cls == C3: continue
        js.append(('fetch', (what, nb, short, cls)))
    for dt, chars, short, cls in product(('StringAscii', 'StringUTF8', 'StringUTF16Le', 'StringUTF16Be'), ('AB\0CD', 'ABCDE', 'A', '\0xy'), (0, 1), (C4, C3)): js.append(('text', (dt, chars, len(chars) * (2 if '16' in dt else 1), short, cls)))
    for text, sizes, valid in product((0, 1), ((3, 5, 0, 300), (0, 7)), (0, 1)): js.append(('vlsd', (text, sizes, valid)))
    for pos, idx, flag, valid in product((0, 1, 6, 7, 8, 13, 23), (0, 1, 2, 9), (0, 2), (0, 1)): js.append(('valid', (pos, idx, flag, valid)))
    for fi, dt, idx, ok in product(range(len(fns(IC, 'GetChannelValue'))), DT, (0, 2), (0, 1)): js.append(('dispatch', (fi, dt, idx, ok)))
    for fi, dt, idx, valid in product(range(len(fns(IC, 'SetChannelValue'))), DT, (0, 2), (0, 1)): js.append(('setdispatch', (fi, dt, idx, valid)))
    for dt, nb, conv, short in product(NUM, (1, 2, 4, 8), (None, 'Linear', 'NoConversion', 'Rational'), (0, 1)): js.append(('stamp', (dt, nb, conv, short)))
    for fi, size, n in product(range(len(fns(IC, 'SetChannelValues'))), (1, 3), (2, 3, 5)): js.append(('setlist', (fi, size, n)))
    return js


CASES = {'get': get_case, 'set': set_case, 'bytes': bytes_case, 'fetch': fetch_bytes, 'text': text_case, 'vlsd': vlsd_case, 'valid': valid_case, 'dispatch': dispatch_case, 'setdispatch': setdispatch_case, 'stamp': stamp_case, 'setlist': setlist_case}


def work(j):
    try:
        return j, CASES[j[0]](j[1])
    except AnalysisError as e:
        return j, [('error', str(e))]


def run(db, R):
    global DB
    DB = db
    for e, d in (('mdf::ChannelDataType', DT), ('mdf::ChannelType', CT)):
        if e not in db.enums: raise AnalysisError(e + ' not found')
        d.update(dict(db.enums[e]['c']))
    for n in list(GETTER.values()) + ['SetChannelValue', 'GetChannelValue', 'SetTextValue', 'SetByteArray', 'SetTimestamp', 'GetByteArrayValue', 'GetCanOpenDate', 'GetCanOpenTime', 'SetUnsignedValueLe', 'SetUnsignedValueBe', 'SetSignedValueLe', 'SetSignedValueBe', 'SetFloatValueLe', 'SetFloatValueBe']:
        for c in (IC, C4, C3):
            for f in fns(c, n): R.analysed(f)
    for n in ('SetValid', 'GetValid'):
        for f in fns(C4, n): R.analysed(f)
    for q in db.by_name:
        if q.startswith('mdf::detail::DbcHelper::Raw') or q.startswith(('mdf::LittleBuffer<', 'mdf::BigBuffer<')):
            for f in fns(*q.rsplit('::', 1)): R.analysed(f)
    js = jobs()
    seen = set()
    opened = {}
    with Pool(min(8, os.cpu_count() or 1)) as p:
        for j, res in p.imap_unordered(work, js, chunksize=32):
            R.count('value scenarios: ' + j[0])
            for r in res:
                if r[0] == 'error': raise AnalysisError(r[1])
                if r[0] == 'open':
                    R.count('scenarios left open'); opened.setdefault(j[0], r[1]); continue
                if (r[0], r[1]) in seen: continue
                seen.add((r[0], r[1]))
                R.violate(r[0], r[1], r[2], r[3])
    for k, v in sorted(opened.items()): R.notes.append('left open (%s): %s' % (k, v))
