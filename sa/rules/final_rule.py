"""P26: a file that was left unfinalized is completed when it is read; P09: the counters of a group on file after samples were saved.
The configuration of a file is written with the library's own functions on a model of the file, the data block is laid out by hand as
the standard says, and the file is read with the library's functions."""
from ..objint import Cell, Obj, Vec, Ptr, Stuck, CThrow, strip
from ..facts import AnalysisError
from .copy_rule import fns, short
from .image_rule import Tree, newbuf, FRAME, WIDTH
from .record_rule import prepare, channel

CUSTOM = 0x0102
VLSD_GROUP = 1          # flag of a channel group with variable length data only
CG, SR, DT, RD, DL, VB, VO = 1, 2, 4, 8, 16, 32, 64


def le(v, n): return [v >> 8 * i & 255 for i in range(n)]


def build(db, kinds, groups_before=1):
    """a file with a first data group and a last one that has groups of the given kinds: ('fix', bytes, invalidation) or ('vl',)"""
    T = Tree(db, {})
    T.cls = 'mdf::detail::Mdf4File'
    base = T.I.hook

    def hook(kind, what, n, I):
        if kind == 'ctor' and isinstance(what, str) and what.split('<')[0].endswith('LittleBuffer') and len(n['a']) == 1:
            t, v = strip(n['a'][0].get('t') or ''), I.ev(n['a'][0])
            if t in WIDTH and isinstance(v, int): return Vec([Cell(b) for b in le(v, WIDTH[t])], 'vector')
        return base(kind, what, n, I)
    T.I.hook = hook
    T.fo = T.I.new(T.cls)
    T.hd = T.m(T.fo, 'Header')
    T.buf = newbuf()
    for _ in range(groups_before):
        dg = T.m(T.hd, 'CreateDataGroup')
        cg = T.m(dg, 'CreateChannelGroup')
        channel(T, cg, ('FixedLength', 'UnsignedIntegerLe', 4, None, False))
        T.m(cg, 'NofSamples', 5)
    T.dg = T.m(T.hd, 'CreateDataGroup')
    T.cgs = []
    for k in kinds:
        cg = T.m(T.dg, 'CreateChannelGroup')
        if k[0] == 'vl': T.m(cg, 'Flags', VLSD_GROUP)
        else:
            channel(T, cg, ('FixedLength', 'ByteArray' if k[1] not in (1, 2, 4, 8) else 'UnsignedIntegerLe', k[1], None, False))
            if k[2]: channel(T, cg, ('FixedLength', 'UnsignedIntegerLe', 2, None, True))
        T.cgs.append(cg)
    prepare(T, 4)
    T.buf.m.pos = 0
    if T.m(T.fo, 'Write', Cell(T.buf)) is not True: raise CThrow('failure to write')
    return T


def record(T, i, kinds, size, length):
    """the bytes of one record of group i"""
    idb = le(T.m(T.cgs[i], 'RecordId'), size) if size else []
    if kinds[i][0] == 'vl': return idb + le(length, 4) + [7] * length
    return idb + [9] * (T.m(T.cgs[i], 'NofDataBytes') + T.m(T.cgs[i], 'NofInvalidBytes'))


def append_data(T, data, stated):
    m = T.buf.m
    while len(m.data) % 8: m.data.append(0)
    pos = len(m.data)
    m.data += [ord(c) for c in '##DT'] + [0] * 4 + le(24 + stated, 8) + [0] * 8 + data
    at = T.m(T.dg, 'FilePosition')
    if not isinstance(at, int) or m.data[at:at + 4] != [35, 35, 68, 71]: raise Stuck('position of the data group')
    m.data[at + 24 + 16:at + 24 + 24] = le(pos, 8)


def flag_file(T, flags):
    f = next(iter(fns(T.db, T.cls, 'IsFinalized', 4)), None)
    if f is None: raise AnalysisError('no function to mark a file unfinalized')
    T.I.call(f, Cell(T.fo), [Cell(False), Cell(T.buf), Cell(flags), Cell(CUSTOM)])


def read(T, times=1):
    fo = T.I.new(T.cls)
    for _ in range(times):
        T.buf.m.pos = 0
        T.m(fo, 'ReadEverythingButData', Cell(T.buf))
    return fo


def data_groups(T, fo):
    v = T.m(T.m(fo, 'Header'), 'DataGroups')
    return [T.I.deref(c.v).v for c in v.items]


def groups_of(T, dg): return [T.I.deref(c.v).v for c in T.m(dg, 'ChannelGroups').items]


def stated(T, cg): return T.m(cg, 'NofDataBytes') + (T.m(cg, 'NofInvalidBytes') << 32)


def scenario(db, sc):
    """sc: (kinds, order of records, flags, bytes cut from the end, reads); complaints and the functions used"""
    kinds, order, flags, cut, times = sc
    T = build(db, kinds)
    size = T.m(T.dg, 'RecordIdSize')
    parts, lens = [], []
    for k, (i, ln) in enumerate(order):
        if i is None: parts.append(le(250, size) + [1] * 5)
        else: parts.append(record(T, i, kinds, size, ln))
    data = [b for p in parts for b in p]
    if cut: data = data[:-cut]
    # what is complete
    n, pos, count, byts, raw = len(data), 0, [0] * len(kinds), [0] * len(kinds), [0] * len(kinds)
    for p, (i, ln) in zip(parts, order):
        pos += len(p)
        if i is None or pos > n: break
        count[i] += 1
        byts[i] += ln if kinds[i][0] == 'vl' else 0
        raw[i] += ln + 4 if kinds[i][0] == 'vl' else 0
    flag_file(T, flags)
    append_data(T, data, 0 if flags & DT else len(data))
    before = list(T.buf.m.data)
    sizes = [stated(T, c) for c in T.cgs]
    out = []
    try: fo = read(T, times)
    except CThrow as e: return ['reading fails (%s) although the file only ends %s' % (e.t or 'exception', 'in the middle of a record' if cut else 'without being finalized')], T
    if T.buf.m.data != before: out.append('reading changes the file')
    dgs = data_groups(T, fo)
    if len(dgs) != 2: raise Stuck('data groups')
    if [T.m(g, 'NofSamples') for g in groups_of(T, dgs[0])] != [5]: out.append('the number of samples of another data group is changed')
    now = groups_of(T, dgs[1])
    bad = flags & (SR | RD | DL)
    for i, g in enumerate(now):
        want = count[i] if flags & CG else 0
        got = T.m(g, 'NofSamples')
        if got != want: out.append('a group with %d complete records %s has %s samples' % (count[i], 'whose counter is to be updated' if flags & CG else 'whose counter is not to be touched', got))
        if kinds[i][0] == 'vl':
            s = stated(T, g) - sizes[i]
            ok = (byts[i], raw[i]) if flags & (VB | VO) else (0,)
            if s not in ok: out.append('the size of variable length data is %s instead of %s' % (s, byts[i] if flags & (VB | VO) else 'what the file states'))
        elif stated(T, g) != sizes[i]: out.append('the record size of a group is changed')
    blocks = T.m(dgs[1], 'DataBlockList')
    if not isinstance(blocks, Vec) or len(blocks.items) != 1: raise Stuck('data blocks')
    d = T.I.deref(blocks.items[0].v).v
    if T.m(d, 'DataSize') != len(data): out.append('the last data block has %s bytes instead of %d' % (T.m(d, 'DataSize'), len(data)))
    done = T.m(fo, 'IsFinalizedDone')
    if bool(done) != (flags != 0 and not bad): out.append('the file is %sreported as finalized with the flags 0x%02x' % ('' if done else 'not ', flags))
    f = next(iter(fns(db, T.cls, 'IsFinalized', 2)), None)
    a, b = Cell(0), Cell(0)
    r = T.I.call(f, Cell(fo), [a, b])
    if r is not False or a.v != flags or b.v != CUSTOM: out.append('the flags of the file read as %s (finalized: %s) instead of 0x%02x' % (a.v, r, flags))
    # the mark is taken away again
    f4 = next(iter(fns(db, T.cls, 'IsFinalized', 4)), None)
    T.I.call(f4, Cell(T.fo), [Cell(True), Cell(T.buf), Cell(flags), Cell(CUSTOM)])
    fo = T.I.new(T.cls)
    T.buf.m.pos = 0
    T.m(fo, 'ReadEverythingButData', Cell(T.buf))
    r = T.I.call(f, Cell(fo), [a, b])
    if r is not True or a.v != 0 or b.v != 0: out.append('a file that is marked finalized reads as finalized: %s, flags %s' % (r, a.v))
    if [T.m(g, 'NofSamples') for g in groups_of(T, data_groups(T, fo)[1])] != [0] * len(kinds): out.append('records of a finalized file are counted again')
    return out, T


F8, F3I, V = ('fix', 8, False), ('fix', 3, True), ('vl',)


def scenarios():
    out = []
    one = [(0, 0)] * 3
    two = [(0, 0), (1, 0), (1, 0), (0, 0), (1, 0)]
    vl = [(1, 5), (0, 0), (1, 0), (0, 0), (1, 300), (0, 0)]
    for fl in (0, CG, DT, CG | DT, VB, VO, CG | VB, CG | DT | VB, CG | DT | VO, CG | DT | VB | VO, SR | CG | DT, RD | CG | DT, DL | CG | DT, SR, RD, DL):
        out.append(([F8], one, fl, 0, 1))
        out.append(([F8, F3I], two, fl, 0, 1))
        out.append(([F8, V], vl, fl, 0, 1))
    for ks, od in (([F8], one), ([F3I], one), ([F8, F3I], two), ([F8, V], vl), ([V, F3I, F8], [(2, 0), (0, 4), (1, 0), (0, 1)])):
        out.append((ks, [], CG | DT | VB, 0, 1))
        out.append((ks, od, CG | DT | VB, 0, 2))
        for cut in range(1, 12): out.append((ks, od, CG | DT | VB, cut, 1))
    out.append(([F8, V], vl[:5], CG | DT | VB, 2, 1))
    for cut in (1, 299, 300, 301, 302, 303, 304, 305): out.append(([F8, V], vl[:5], CG | DT | VB, cut, 1))
    out.append(([F8, F3I], two[:3] + [(None, 0)] + two[3:], CG | DT, 0, 1))
    return out


def text(sc):
    kinds, order, flags, cut, times = sc
    k = ' and '.join('variable length data' if x[0] == 'vl' else '%d bytes%s' % (x[1], ' with invalidation' if x[2] else '') for x in kinds)
    return 'groups with %s, %d records, flags 0x%02x%s%s' % (k, len(order), flags, ', %d bytes cut' % cut if cut else '', ', read twice' if times > 1 else '')


def work(i):
    sc = scenarios()[i]
    try: bad, T = scenario(DB, sc)
    except Stuck as e: return sc, [], set(), str(e)
    except CThrow as e: return sc, ['it cannot be written or read (%s)' % e.t], set(), None
    return sc, bad, set(T.I.used), None


def finalize(db, R):
    global DB
    DB = db
    import multiprocessing
    sl = scenarios()
    with multiprocessing.get_context('fork').Pool(8) as pool: res = pool.map(work, range(len(sl)), chunksize=4)
    stuck = [(text(sc), s) for sc, _, _, s in res if s]
    if len(stuck) * 3 > len(sl): raise AnalysisError('unfinalized files cannot be interpreted: %s: %s' % stuck[0])
    f = next((x for c in ('mdf::detail::Dg4Block', 'mdf::detail::Mdf4File') for n in ('FinalizeCgAndVlsdBlocks', 'FinalizeFile') for x in fns(db, c, n, 3 if n[8] == 'C' else 1)), None)
    seen = {}
    for sc, bad, used, s in res:
        R.count('unfinalized files')
        if s: R.notes.append('%s: %s' % (text(sc), s))
        for x in used:
            g = db.funcs[x]
            if FRAME == g.get('cls') or FRAME in db.bases(g.get('cls') or '') or g.get('cls') == 'mdf::detail::Mdf4File': R.analysed(g)
        for b in bad:
            k = b.split(' has ')[0].split(' is ')[0]
            if seen.setdefault(k, 0) >= 2: continue
            seen[k] += 1
            R.violate('finalize', '%s: %s' % (text(sc), b[:60]), (f['file'], f['line']) if f else ('mdflib/src/mdf4file.cpp', 1), 'unfinalized file (%s): %s' % (text(sc), b))


# ---- counters of groups on file ---------------------------------------------------------------------------------------
def counted(db, compressed, base, lens, nfix):
    T = build(db, [F8, V])
    size = T.m(T.dg, 'RecordIdSize')
    fx, vl = T.cgs
    if base: T.m(vl, 'UpdateVlsdSize', base)
    start = stated(T, vl)
    T.buf.m.pos = len(T.buf.m.data)
    def put(cg, nm, data):
        d = Cell(Vec([Cell(b) for b in data], 'vector'))
        if compressed: T.m(cg, nm.replace('Write', 'WriteCompressed'), Cell(Vec([], 'vector')), size, d)
        else: T.m(cg, nm, Cell(T.buf), size, d)
    for ln in lens: put(vl, 'WriteVlsdSample', [3] * ln)
    for _ in range(nfix): put(fx, 'WriteSample', [1] * 8)
    out = []
    for cg in (fx, vl): T.m(cg, 'Write', Cell(T.buf))
    fo = read(T)
    g = groups_of(T, data_groups(T, fo)[1])
    got = [T.m(x, 'NofSamples') for x in g]
    if got != [nfix, len(lens)]: out.append('%s samples are stated on file after %d and %d were saved' % (got, nfix, len(lens)))
    if stated(T, g[0]) != stated(T, fx) or T.m(g[0], 'NofDataBytes') != 8: out.append('the record size is changed by saving samples')
    want = start + sum(lens)
    if stated(T, g[1]) not in (want, want + 4 * len(lens)): out.append('the size of variable length data on file is %d after %d bytes were added to %d' % (stated(T, g[1]), sum(lens), start))
    return out, T


def counters(db, R):
    n = 0
    for comp in (False, True):
        for base in (0, 0xFFFFFFFE, 3 << 32):
            for lens, nfix in (((), 0), ((5,), 1), ((0, 7, 300), 4)):
                name = '%s, %d bytes before, values of %s bytes' % ('compressed' if comp else 'plain', base, list(lens))
                try: bad, T = counted(db, comp, base, lens, nfix)
                except (Stuck, CThrow) as e: R.notes.append('%s: %s' % (name, e)); continue
                n += 1
                for x in T.I.used:
                    g = db.funcs[x]
                    if g.get('cls') == 'mdf::detail::Cg4Block': R.analysed(g)
                f = next(iter(fns(db, 'mdf::detail::Cg4Block', 'Write', 1)))
                for b in bad[:1]: R.violate('group-counters', name, (f['file'], f['line']), 'samples saved (%s): %s' % (name, b))
    R.count('group counters on file', n)
    if not n: raise AnalysisError('the counters of a group cannot be followed: %s' % R.notes[-1])
