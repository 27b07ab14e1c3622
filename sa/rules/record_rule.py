"""P19: the record of a channel group that is prepared for writing: the place of every channel, of its invalidation bits, the size of
the record, and the record ids. The preparing functions are interpreted on group objects; the result is read through the interfaces of
the blocks and by marking values invalid."""
from ..objint import Cell, Obj, Vec, Ptr, Stuck, CThrow
from ..facts import AnalysisError
from .copy_rule import fns, short
from .image_rule import Tree, enum, newbuf, Cell2, FRAME

INTS = ('UnsignedIntegerLe', 'UnsignedIntegerBe', 'SignedIntegerLe', 'SignedIntegerBe')
FLOATS = ('FloatLe', 'FloatBe')
COMPLEX = ('ComplexLe', 'ComplexBe')
TEXTS = ('StringAscii', 'StringUTF8', 'StringUTF16Le', 'StringUTF16Be', 'ByteArray', 'MimeSample', 'MimeStream')
OTHER = ('CanOpenDate', 'CanOpenTime')
DTYPES = INTS + FLOATS + TEXTS + OTHER + COMPLEX
CTYPES = ('FixedLength', 'VariableLength', 'Master', 'VirtualMaster', 'Sync', 'MaxLength', 'VirtualData')
KEPT = dict([(t, (1, 2, 4, 8)) for t in INTS] + [(t, (4, 8)) for t in FLOATS] + [(t, (8, 16)) for t in COMPLEX] + [(t, (1, 2, 3, 5, 8, 10, 16)) for t in TEXTS] + [('CanOpenDate', (7,)), ('CanOpenTime', (6,))])
WIDTHS = (0, 1, 2, 3, 4, 6, 7, 8, 10, 16)


def channel(T, cg, spec):
    """spec: (channel type, data type, bytes, dimensions, has an invalidation bit)"""
    ct, dt, w, dims, inv = spec
    cn = T.m(cg, 'CreateChannel')
    T.m(cn, 'Type', enum(T.db, 'ChannelType', ct))
    T.m(cn, 'DataType', enum(T.db, 'ChannelDataType', dt))
    if w: T.m(cn, 'DataBytes', w)
    if inv: T.m(cn, 'Flags', T.m(cn, 'Flags') | 2)
    if dims:
        ca = T.m(cn, 'CreateChannelArray')
        T.m(ca, 'Shape', Cell(Vec([Cell(d) for d in dims], 'vector')))
    return cn


def text(spec):
    ct, dt, w, dims, inv = spec
    return '%s %s of %s%s%s' % (ct, dt, '%d bytes' % w if w else 'unset size', ' in an array %s' % 'x'.join(map(str, dims)) if dims else '', ' with invalidation' if inv else '')


def overlap(a, b): return a[0] < b[0] + b[1] and b[0] < a[0] + a[1] and a[1] > 0 and b[1] > 0


def virtual(ct): return ct.startswith('Virtual')


def judge4(T, cg, chans, specs):
    """complaints (index of the channel, text) about a prepared group"""
    out = []
    ndata, ninv = T.m(cg, 'NofDataBytes'), T.m(cg, 'NofInvalidBytes')
    buf = T.m(cg, 'SampleBuffer')
    if not isinstance(buf, Vec): raise Stuck('sample buffer')
    if len(buf.items) != ndata + ninv: out.append((None, 'the record has %d bytes, the group states %d + %d' % (len(buf.items), ndata, ninv)))
    places, bits = [], []
    for i, (cn, sp) in enumerate(zip(chans, specs)):
        ct, dt, w, dims, inv = sp
        n = 1
        for d in dims or (): n *= d
        off, bit, cnt, byts, arr = (T.m(cn, x) for x in ('ByteOffset', 'BitOffset', 'BitCount', 'DataBytes', 'ArraySize'))
        now = T.m(cn, 'Type')
        if arr != n: out.append((i, 'has %s elements instead of %d' % (arr, n))); continue
        if virtual(ct):
            if byts: out.append((i, 'takes bytes of the record although it is virtual'))
            places.append((0, 0))
        else:
            if not byts: out.append((i, 'has no place in the record'))
            if cnt > 8 * byts or bit + cnt > 8 * byts: out.append((i, 'has %d bits from bit %d in %d bytes' % (cnt, bit, byts)))
            if ct != 'VariableLength' and w in KEPT[dt] and (byts != w or cnt != 8 * w or now != enum(T.db, 'ChannelType', ct)): out.append((i, 'was given %d bytes and has %d bytes, %d bits' % (w, byts, cnt)))
            elif ct != 'VariableLength' and dt not in TEXTS and byts not in KEPT[dt]: out.append((i, 'has %d bytes, which its data type cannot have' % byts))
            elif ct != 'VariableLength' and dt in TEXTS and not w and now != enum(T.db, 'ChannelType', 'VariableLength'): out.append((i, 'is a text without a length that is not stored as variable length data'))
            elif ct == 'VariableLength' and byts not in ((w,) if w else (4, 8)): out.append((i, 'has an index of %d bytes' % byts))
            places.append((off, byts * n))
            if off + byts * n > ndata: out.append((i, 'takes the bytes %d to %d of a record with %d' % (off, off + byts * n, ndata)))
            for j, p in enumerate(places[:-1]):
                if overlap(p, places[-1]): out.append((i, 'overlaps channel %d (%s): bytes %d+%d and %d+%d' % (j, text(specs[j]), *places[-1], *p)))
        flag = bool(T.m(cn, 'Flags') & 2)
        want = inv and not virtual(ct) and ct != 'Master'
        if flag and not want: out.append((i, 'has an invalidation bit it cannot have'))
        elif want and not flag: out.append((i, 'has lost its invalidation bit'))
        elif flag:
            for k in range(n):
                for c in buf.items: c.v = 0
                T.m(cn, 'SetValid', False, k)
                b = [8 * p + q for p, c in enumerate(buf.items) for q in range(8) if isinstance(c.v, int) and c.v >> q & 1]
                if len(b) != 1: out.append((i, 'marks %d bits when element %d is set invalid' % (len(b), k))); break
                if b[0] < 8 * ndata: out.append((i, 'marks a data bit when it is set invalid')); break
                if b[0] in bits: out.append((i, 'shares an invalidation bit with another value')); break
                bits.append(b[0])
                for c in buf.items: c.v = 255
                T.m(cn, 'SetValid', True, k)
                z = [8 * p + q for p, c in enumerate(buf.items) for q in range(8) if not isinstance(c.v, int) or not c.v >> q & 1]
                if z != b: out.append((i, 'a valid element %d clears other bits than the invalid one sets' % k)); break
    return out


def state(T, cg, chans):
    return [len(T.m(cg, 'SampleBuffer').items)] + [T.m(cg, x) for x in ('NofDataBytes', 'NofInvalidBytes') if next(iter(fns(T.db, cg.cls, x, 0)), None)] + [T.m(c, x) for c in chans for x in ('Type', 'ByteOffset', 'BitOffset', 'BitCount', 'Flags')]


def judge3(T, cg, chans, specs):
    out, places = [], []
    buf = T.m(cg, 'SampleBuffer')
    nb = len(buf.items)
    for i, (cn, sp) in enumerate(zip(chans, specs)):
        off, bit, cnt, byts = (T.m(cn, x) for x in ('ByteOffset', 'BitOffset', 'BitCount', 'DataBytes'))
        if byts != sp[2] or cnt != 8 * sp[2]: out.append((i, 'was given %d bytes and has %d bytes, %d bits' % (sp[2], byts, cnt)))
        if bit: out.append((i, 'begins at bit %d' % bit))
        places.append((off, byts))
        if off + byts > nb: out.append((i, 'takes the bytes %d to %d of a record with %d' % (off, off + byts, nb)))
        for j, p in enumerate(places[:-1]):
            if overlap(p, places[-1]): out.append((i, 'overlaps channel %d: bytes %d+%d and %d+%d' % (j, *places[-1], *p)))
    return out


def file_of(db, ver):
    T = Tree(db, {})
    T.cls = 'mdf::detail::Mdf%dFile' % ver
    T.fo = T.I.new(T.cls)
    T.hd = T.m(T.fo, 'Header')
    T.dg = T.m(T.hd, 'CreateDataGroup')
    return T


A, B = ('FixedLength', 'FloatLe', 8, None, True), ('FixedLength', 'UnsignedIntegerLe', 2, None, True)


def groups4():
    out = []
    for ct in CTYPES:
        for dt in DTYPES:
            for w in WIDTHS:
                if ct == 'VariableLength' and (w not in (0, 4, 8) or dt in OTHER): continue
                if ct == 'MaxLength' and not w: continue
                out.append([A, (ct, dt, w, None, False), B])
    for dt in DTYPES:
        for w in KEPT[dt][:3]:
            for dims in ((1,), (3,), (2, 3), (9,)):
                for inv in (False, True): out.append([A, ('FixedLength', dt, w, dims, inv), B, ('Sync', 'SignedIntegerBe', 4, None, True)])
    for ct in CTYPES: out.append([B, (ct, 'UnsignedIntegerLe', 4, None, True), A])
    out.append([('FixedLength', 'UnsignedIntegerLe', 1, None, True)] * 17)
    out.append([('FixedLength', 'UnsignedIntegerLe', 1, None, True)] * 8)
    out.append([('FixedLength', 'UnsignedIntegerLe', 1, (8,), True)] * 2)
    out.append([('VirtualMaster', 'UnsignedIntegerLe', 0, None, False)])
    out.append([])
    return out


def work4(job):
    i, specs = job
    key = '; '.join(text(s) for s in specs) or 'no channels'
    try:
        T = file_of(DB, 4)
        other = T.m(T.dg, 'CreateChannelGroup')
        cg = T.m(T.dg, 'CreateChannelGroup')
        ch = [channel(T, cg, s) for s in specs]
        bad = []
        for when in ('prepared', 'prepared again'):
            prepare(T, 4)
            bad = judge4(T, cg, ch, specs)
            now = state(T, cg, ch)
            if when == 'prepared again' and not bad and now != last: bad = [(None, 'preparing again changes the record')]
            if bad: break
            last = now
        return key, [(j, x, when) for j, x in bad], set(T.I.used), None
    except Stuck as e: return key, [], set(), 'stuck: %s' % e
    except CThrow as e: return key, [(None, 'preparing fails (%s)' % e.t, '')], set(), None


def prepare(T, ver):
    """Mdf4Writer::PrepareForWriting on the file object"""
    cls = 'mdf::detail::Mdf%dWriter' % ver
    f = next(iter(fns(T.db, cls, 'PrepareForWriting', 0)), None)
    if f is None: raise AnalysisError('no %s::PrepareForWriting' % cls)
    base = T.I.hook
    w = Obj(cls, {})

    def hook(kind, what, n, I):
        if kind == 'method' and isinstance(what[1].v, Obj) and what[1].v is w:
            if what[0] == 'Header': return Ptr(Cell2(T.hd))
            if what[0] in ('IsSavePeriodic', 'CompressData'): return False
            if what[0] == 'CalculateBitAndByteOffsets': return True
        return base(kind, what, n, I)
    T.I.hook = hook
    try: r = T.I.call(f, Cell(w), [])
    finally: T.I.hook = base
    if r is not True: raise CThrow('the writer reports a failure')


def work3(job):
    i, specs = job
    key = 'MDF3: ' + ('; '.join(text(s) for s in specs) or 'no channels')
    try:
        T = file_of(DB, 3)
        T.m(T.dg, 'CreateChannelGroup')
        cg = T.m(T.dg, 'CreateChannelGroup')
        ch = [channel(T, cg, s) for s in specs]
        for when in ('prepared', 'prepared again'):
            prepare(T, 3)
            bad = judge3(T, cg, ch, specs)
            now = state(T, cg, ch)
            if when == 'prepared again' and not bad and now != last: bad = [(None, 'preparing again changes the record')]
            if bad: break
            last = now
        return key, [(j, x, when) for j, x in bad], set(T.I.used), None
    except Stuck as e: return key, [], set(), 'stuck: %s' % e
    except CThrow as e: return key, [(None, 'preparing fails (%s)' % e.t, '')], set(), None


def groups3():
    out = [[]]
    for dt in INTS + FLOATS + ('StringAscii', 'ByteArray'):
        for w in (1, 2, 4, 8) if dt in INTS else (4, 8) if dt in FLOATS else (3, 20): out.append([('Master', 'FloatLe', 8, None, False), ('FixedLength', dt, w, None, False), ('FixedLength', 'UnsignedIntegerLe', 2, None, False)])
    out.append([('Master', 'FloatLe', 8, None, False), ('FixedLength', 'ByteArray', 4000, None, False), ('FixedLength', 'ByteArray', 4100, None, False), ('FixedLength', 'FloatLe', 8, None, False), ('FixedLength', 'ByteArray', 7000, None, False),
                ('FixedLength', 'FloatLe', 4, None, False)])
    return out


def workid(job):
    ver, n = job
    try:
        T = file_of(DB, ver)
        groups = [T.m(T.dg, 'CreateChannelGroup') for _ in range(n)]
        ids = [T.m(g, 'RecordId') for g in groups]
        size = T.m(T.dg, 'RecordIdSize') if ver == 4 else 1        # of MDF3 it is one byte
        bad = []
        if len(set(ids)) != n: bad.append((None, 'two channel groups have the same record id', ''))
        if n > 1 and not size: bad.append((None, 'records of several groups are stored without a record id', ''))
        if n > 1 and 0 in ids: bad.append((None, 'a group has the record id 0', ''))
        if size and max(ids) >= 1 << 8 * size: bad.append((None, 'the record id %d does not fit in %d bytes' % (max(ids), size), ''))
        if ver == 4 and n == 1 and size: bad.append((None, 'the records of a single group are stored with a record id', ''))
        return 'MDF%d: %d channel groups' % (ver, n), bad, set(T.I.used), None
    except Stuck as e: return 'MDF%d: %d groups' % (ver, n), [], set(), 'stuck: %s' % e
    except CThrow as e: return 'MDF%d: %d groups' % (ver, n), [(None, 'fails (%s)' % e.t, '')], set(), None


def run(db, R):
    global DB
    DB = db
    import multiprocessing
    with multiprocessing.get_context('fork').Pool(8) as pool:
        parts = [('prepared groups', 'record-place', pool.map(work4, list(enumerate(groups4())), chunksize=8), 'mdf::detail::Cg4Block', 'PrepareForWriting'),
                 ('prepared MDF3 groups', 'record-place', pool.map(work3, list(enumerate(groups3())), chunksize=2), 'mdf::detail::Cg3Block', 'PrepareForWriting'),
                 ('record ids', 'record-id', pool.map(workid, [(4, n) for n in (1, 2, 3, 254, 255, 256, 257, 300)] + [(3, n) for n in (1, 2, 3, 100, 255)], chunksize=1), 'mdf::detail::Dg4Block', 'AddCg4')]
    for count, rule, res, cls, fn in parts:
        stuck = [(k, note) for k, _, _, note in res if note]
        if len(stuck) > len(res) // 3: raise AnalysisError('%s: %s' % stuck[0])
        for k, note in stuck[:5]: R.notes.append('%s: %s' % (k, note))
        f = next((f for f in db.funcs.values() if f['n'] == cls + '::' + fn), None) or next((f for f in db.funcs.values() if f.get('cls') == cls), None)
        said = {}
        for key, bad, used, note in res:
            if not note: R.count(count)
            for x in used:
                g = db.funcs[x]
                if FRAME == g.get('cls') or FRAME in db.bases(g.get('cls') or '') or (g.get('cls') or '').endswith('Writer'): R.analysed(g)
            for j, what, when in bad:
                kind = ' '.join(w for w in what.split() if not w.strip('(),:').replace('+', '').isdigit())[:60]
                said[kind] = said.get(kind, 0) + 1
                if said[kind] > 2: continue
                R.violate(rule, '%s/%s/%s' % (key[:120], j, kind), loc=(f['file'], f['line']), msg='%s%s: %s%s' % (key, ' (%s)' % when if when else '', 'channel %d ' % j if j is not None else '', what))
