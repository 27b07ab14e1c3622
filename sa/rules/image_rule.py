"""P18 (and parts of P03, P05): the blocks of a file written and read back over a model of the file (object-level abstract interpretation)"""
from ..facts import AnalysisError
from ..objint import *
from ..objint import strip, head, split_args, CONT, MAPS, STR, PTRS, INTS
from .xml_rule import getters, by_cls, compare, short
from .copy_rule import hook_for as copy_hook, fill, fns, FRAME

WIDTH = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4, 'long': 8, 'unsigned long': 8, 'long long': 8,
         'unsigned long long': 8, 'float': 4, 'double': 8}


class MFile:
    """a file: one entry per byte, an integer, a character or a part of an unknown value"""
    def __init__(self):
        self.data, self.pos, self.patches, self.reads = [], 0, [], []

    def put(self, items):
        if self.pos > len(self.data): raise Stuck('writing behind the end of the file')
        if self.pos < len(self.data): self.patches.append((self.pos, len(items)))
        self.data[self.pos:self.pos + len(items)] = items
        self.pos += len(items)

    def take(self, n):
        if self.pos + n > len(self.data): raise CThrow('std::ios_base::failure')
        r = self.data[self.pos:self.pos + n]
        self.pos += n
        return r


def enc(v, w, ty):
    if isinstance(v, bool): v = int(v)
    if isinstance(v, int): return [(v >> 8 * i) & 255 for i in range(w)]
    if isinstance(v, float) and v == 0: return [0] * w
    return [('part', v, i, w) for i in range(w)]


def dec(b, w, ty):
    if all(isinstance(x, int) for x in b):
        if ty in ('float', 'double'): return 0.0 if not any(b) else Num(('tok', 'bits of %r' % (b,), 64, ('file', 'bits')), 'f')
        v = sum(x << 8 * i for i, x in enumerate(b))
        return v - (1 << 8 * w) if not ty.startswith('unsigned') and ty != 'bool' and v >> (8 * w - 1) else v
    if all(isinstance(x, tuple) and x[0] == 'part' for x in b) and [x[2] for x in b] == list(range(w)) and b[0][3] == w and all(x[1] is b[0][1] or x[1] == b[0][1] for x in b): return b[0][1]
    return Num(('tok', 'mixed bytes', 64, ('file', 'mixed')), 'u')


def direction(n):
    t = repr(n)
    for d in ('beg', 'cur', 'end'):
        if "ios_base::%s'" % d in t or "'%s'" % d in t or "::%s'" % d in t: return d
    raise Stuck('direction of a seek')


def hook_for(db):
    base = copy_hook(db)

    def buf(I, a): 
        c = I.raw(a)
        o = c.v if isinstance(c, Cell) else c
        if isinstance(o, Ptr): o = I.deref(o).v
        return o.m if isinstance(o, Buf) else None

    def hook(kind, what, n, I):
        if kind == 'ctor' and (what.startswith('std::fpos') or what == 'std::filesystem::path') and len(n.get('a') or ()) >= 1: return I.ev(n['a'][0])
        if kind == 'method':
            b, oc = what
            if b.startswith('operator') and b[8:].strip() in WIDTH and isinstance(oc.v, int): return oc.v      # conversion of a stream position
            if b in ('WriteNumber', 'ReadNumber') and len(n['a']) == 2:
                d = db.decls.get(n.get('f')) or db.funcs.get(n.get('f'))
                t = strip(d['p'][1]['t']) if d else strip(n['a'][1].get('t') or '')
                if t in db.enums: t = strip((db.enums[t].get('ut') if isinstance(db.enums[t], dict) else None) or 'int')
                if t not in WIDTH: raise Stuck('width of ' + t)
                m, w = buf(I, n['a'][0]), WIDTH[t]
                if m is None: return None
                if b == 'WriteNumber': m.put(enc(I.ev(n['a'][1]), w, t))
                else: I.lv(n['a'][1]).v = dec(m.take(w), w, t)
                return w
            if isinstance(oc.v, Buf):
                m = oc.v.m
                if b in ('pubseekoff', 'pubseekpos'):
                    k = I.ev(n['a'][0])
                    if not isinstance(k, int): raise Stuck('unknown position')
                    d = 'beg' if b == 'pubseekpos' else direction(n['a'][1])
                    m.pos = k + {'beg': 0, 'cur': m.pos, 'end': len(m.data)}[d]
                    return m.pos
                if b == 'sputc': m.put([I.ev(n['a'][0])]); return 0
                if b in ('sbumpc', 'sgetc'):
                    if m.pos >= len(m.data): return -1
                    m.pos += b == 'sbumpc'
                    return m.data[m.pos - (b == 'sbumpc')]
                if b in ('pubsync',): return 0
                if b == 'sputn':
                    p, k = I.ev(n['a'][0]), I.ev(n['a'][1])
                    if not isinstance(k, int): raise Stuck('unknown size')
                    if isinstance(p, str): d = [ord(x) if ord(x) < 256 else ('ch', x) for x in p] + [0]
                    elif isinstance(p, Ptr) and p.i is not None and isinstance(p.c.v, Vec): d = [x.v if isinstance(x, Cell) else x for x in p.c.v.items[p.i:]]
                    else: raise Stuck('bytes written from %s' % type(p).__name__)
                    if k > len(d): raise CThrow('writing bytes behind the end of an object')
                    m.put(d[:k])
                    return k
                raise Stuck('stream method ' + b)
        if kind == 'call' and what in ('GetFilePosition', 'SetFilePosition', 'GetLastFilePosition', 'SetFirstFilePosition', 'StepFilePosition', 'ReadStr', 'WriteStr', 'ReadByte', 'WriteByte', 'WriteBytes'):
            m = buf(I, n['a'][0])
            if m is None: return None
            if what == 'GetFilePosition': return m.pos
            if what == 'GetLastFilePosition': m.pos = len(m.data); return m.pos
            if what == 'SetFirstFilePosition': m.pos = 0; return Opaque('void')
            if what == 'WriteByte':
                v = I.ev(n['a'][1])
                m.put([x.v if isinstance(x, Cell) else x for x in v.items])
                return len(v.items)
            if what == 'ReadStr' or what == 'ReadByte':
                k = I.ev(n['a'][2])
                if not isinstance(k, int): raise Stuck('unknown size')
                c = I.lv(n['a'][1])
                if k > 1 << 20: raise CThrow('std::ios_base::failure')
                d = m.take(k)
                if what == 'ReadByte': c.v = Vec([Cell(x) for x in d], 'vector')
                else:
                    if 0 in d: d = d[:d.index(0)]
                    c.v = ''.join(chr(x) if isinstance(x, int) else x[1] if x[0] == 'ch' else '\ufffd' for x in d).strip()
                return k
            if what == 'WriteStr':
                s, k = I.ev(n['a'][1]), I.ev(n['a'][2])
                if not isinstance(s, str) or not isinstance(k, int): raise Stuck('unknown text')
                m.put([ord(x) if ord(x) < 256 else ('ch', x) for x in s[:k]] + [0] * max(0, k - len(s)))
                return k
            k = I.ev(n['a'][1])
            if not isinstance(k, int): raise Stuck('unknown position')
            if what == 'SetFilePosition': m.pos = k; return Opaque('void')
            if what == 'StepFilePosition': m.pos += k; return k
            m.put([0] * k)
            return k
        if kind == 'call':                # the file an attachment is made from
            if what in ('u8path', 'path'): return I.ev(n['a'][0])
            if what == 'exists': I.ev(n['a'][0]); return True
            if what == 'file_size': return 5
            if what in ('CreateMd5FileChecksum', 'Deflate', 'FileToBuffer') and len(n['a']) == 2:
                k = {'CreateMd5FileChecksum': 16, 'Deflate': 3, 'FileToBuffer': 5}[what]
                t = I.ev(n['a'][0])
                I.lv(n['a'][1]).v = Vec([Cell(('part', '%s(%s)' % (what, t), i, k)) for i in range(k)], 'vector')
                return True
        return base(kind, what, n, I)
    return hook


class Buf(Obj):
    __slots__ = ('m',)


def newbuf():
    b = Buf('$buf', {})
    b.m = MFile()
    return b


# ---- trees ------------------------------------------------------------------------------------------------------------
class Tree:
    """builds a tree of blocks with the functions a user calls"""
    def __init__(self, db, sc):
        self.db, self.sc = db, sc
        self.I = I = Interp(db, texts=Texts(), hook=hook_for(db))
        I.nofork = lambda t: True
        I.limit = 20000000
        self.n = 0

    def m(self, o, nm, *a):
        f = next(iter(fns(self.db, o.cls, nm, len(a))), None)
        if f is None: raise AnalysisError('%s has no function %s with %d arguments' % (short(o.cls), nm, len(a)))
        r = self.I.call(f, Cell(o), [x if isinstance(x, Cell) else Cell(x) for x in a])
        if isinstance(r, Cell): r = r.v
        if isinstance(r, Ptr): r = self.I.deref(r).v
        return r

    def make(self, o, nm, skip=(), vary=None):
        r = self.m(o, nm)
        if not isinstance(r, Obj): raise AnalysisError('%s::%s makes nothing' % (short(o.cls), nm))
        self.n += 1
        fill(self.db, self.I, r, '%s%d' % (nm[6:], self.n), vary or {}, skip)
        return r


def link_objs(x):
    """objects a value refers to"""
    if isinstance(x, Cell): x = x.v
    if isinstance(x, Ptr): x = x.c.v if isinstance(x.c, Cell) else None
    return x


KEEP = ('mdf::detail::',)


def same_tree(db, I, a, b, path, out, seen, skip):
    """differences of two blocks and of what lies below them, as the observers show them"""
    if (id(a), id(b)) in seen: return
    seen.add((id(a), id(b)))
    if a.cls != b.cls: out.append((path, 'class', short(a.cls), short(b.cls))); return
    for (nm, _), f in sorted(getters(db, a.cls).items()):
        if skip(a.cls, nm): continue
        try: x, y = I.call(f, Cell(a), []), I.call(f, Cell(b), [])
        except Stuck: I.skipped.add(f['n']); continue
        I.observed = getattr(I, 'observed', 0) + 1
        value(db, I, x, y, path + ((short(a.cls), nm),), out, seen, skip)
    for nm, f in indexed(db, a.cls):
        if skip(a.cls, nm): continue
        for k in range(8):
            try: x, y = I.call(f, Cell(a), [Cell(k)]), I.call(f, Cell(b), [Cell(k)])
            except Stuck: I.skipped.add(f['n']); continue
            I.observed = getattr(I, 'observed', 0) + 1
            value(db, I, x, y, path + ((short(a.cls), nm),), out, seen, skip)


def indexed(db, c):
    """observers with the index of an element: (name, function), the one that overrides the others"""
    m = getattr(db, '_indexed', None)
    if m is None: m = db._indexed = {}
    if c not in m:
        bs = {c} | set(db.bases(c))
        names = {d['n'].split('::')[-1] for d in db.decls.values() if d.get('cls') in bs and d.get('const') and d.get('ret') != 'void' and len(d.get('p') or ()) == 1 and strip(d['p'][0]['t']).startswith('unsigned')}
        m[c] = [(nm, f) for nm in sorted(names) if nm != 'IsSubscribingOnRecord' for f in [g for g in fns(db, c, nm, 1) if strip(g['p'][0]['t']).startswith('unsigned') and g.get('ret') != 'void'][:1]]
    return m[c]


def enum(db, e, n): return next(v for x, c in db.enums.items() if x.split('::')[-1] == e for k, v in c['c'] if k == n)


def value(db, I, x, y, path, out, seen, skip):
    if isinstance(x, Cell): x = x.v
    if isinstance(y, Cell): y = y.v
    if isinstance(x, Ptr) and isinstance(y, Ptr): 
        if not isinstance(x.c, Cell) or not isinstance(y.c, Cell): return
        return value(db, I, x.c, y.c, path, out, seen, skip)
    if isinstance(x, Obj) and isinstance(y, Obj):
        if FRAME in db.bases(x.cls):
            p, q = x.f['file_position_'].v, y.f['file_position_'].v
            if p != q: out.append((path, 'block', '%s at %s' % (short(x.cls), p), '%s at %s' % (short(y.cls), q))); return
            return same_tree(db, I, x, y, path, out, seen, skip)
        if x.cls in db.classes and not any(g['n'].endswith('::ToXml') for c in [x.cls] + list(db.bases(x.cls)) for _, g in by_cls(db).get(c, ())):
            for k in x.f: value(db, I, x.f[k], y.f.get(k), path + (k,), out, seen, skip)
            return
    if isinstance(x, Vec) and isinstance(y, Vec):
        if len(x.items) != len(y.items): out.append((path, 'count', len(x.items), len(y.items))); return
        for k, (p, q) in enumerate(zip(x.items, y.items)): value(db, I, p, q, path + (k,), out, seen, skip)
        return
    if isinstance(x, str) and isinstance(y, str): x, y = x.strip(), y.strip()       # a text is trimmed when it is read
    compare(db, I, x, y, path, out)


def triple(T, cls, dg, cg, cn):
    o = T.I.new(cls)
    for f, v in zip([x['n'] for x in T.db.classes[cls]['fields']], (dg, cg, cn)): o.f[f].v = Ptr(Cell2(v)) if v is not None else NULL
    return o


def Cell2(o):
    """the cell of an object (one per object, so that pointers to it are equal)"""
    c = CELLS.get(id(o))
    if c is None or c.v is not o: c = CELLS[id(o)] = Cell(o)
    return c


CELLS = {}
CAREF, ELEM = 'mdf::CaTripleReference', 'mdf::ElementLink'
AT_SKIP = ('flags_', 'data_position_', 'md5_', 'data_buffer_', 'original_size_', 'nof_bytes_')
CN_SKIP = ('data_type_', 'type_', 'flags_')


# ---- MDF4 scenarios ---------------------------------------------------------------------------------------------------
def mdf4(db, build):
    """run a build function on a new MDF4 file"""
    T = Tree(db, {})
    T.cls = 'mdf::detail::Mdf4File'
    T.fo = T.I.new(T.cls)
    T.hd = T.m(T.fo, 'Header')
    T.buf = newbuf()

    def write():
        T.buf.m.pos = 0
        if T.m(T.fo, 'Write', Cell(T.buf)) is not True: raise CThrow('failure to write')
    T.write = write
    build(T)
    write()
    return T


def named(T, o, nm, name):
    r = T.m(o, nm)
    T.m(r, 'Name', name)
    return r


def small(T, first=2):
    """a first data group with several channels, and a second one"""
    T.dg = T.m(T.hd, 'CreateDataGroup')
    T.cg = named(T, T.dg, 'CreateChannelGroup', 'group 1')
    T.cns = [named(T, T.cg, 'CreateChannel', 'channel %d' % k) for k in range(first)]
    T.dg2 = T.m(T.hd, 'CreateDataGroup')
    T.cg2 = named(T, T.dg2, 'CreateChannelGroup', 'group 2')
    T.cn2 = named(T, T.cg2, 'CreateChannel', 'channel of group 2')


def array(flags, storage, dims, later=False):
    def b(T):
        small(T, 9)
        cc = [T.m(c, 'CreateChannelConversion') for c in T.cns[:len(dims)]]
        for k, c in enumerate(cc):
            T.m(c, 'Type', 1)
            T.m(c, 'Parameter', k, Num(('tok', 'par%d' % k, 64, ('cc', 'par')), 'f'))
        ca = T.m(T.cn2, 'CreateChannelArray')
        T.m(ca, 'Type', 1)
        T.m(ca, 'Shape', Vec([Cell(k) for k in dims], 'vector'))
        T.m(ca, 'Flags', flags)
        T.m(ca, 'Storage', storage)
        T.m(ca, 'ResizeArrays')
        def lst(nm):
            """the list a user fills (the observer that is not constant makes it as long as the flags require)"""
            f = next((f for c in [ca.cls] + list(T.db.bases(ca.cls)) for i, f in by_cls(T.db).get(c, ()) if f['n'].split('::')[-1] == nm and not f['p'] and not i.endswith('const')), None)
            if f is None: raise AnalysisError('arrays have no ' + nm)
            return T.I.call(f, Cell(ca), [])
        n = 0
        if flags & 32:
            for j, c in enumerate(lst('AxisValues').v.items): c.v = Num(('tok', 'axis%d' % j, 64, ('ca', 'axis')), 'f')
        if storage:
            for j, c in enumerate(lst('CycleCounts').v.items): c.v = 100 + j
        if storage == 2: lst('DataLinks')
        if flags & 16:
            for j, c in enumerate(lst('AxisConversionList').v.items): c.v = Ptr(Cell2(cc[j]))
        for nm, need in (('DynamicSizeList', flags & 1), ('InputQuantityList', flags & 2), ('AxisList', flags & 48 == 16), ('OutputQuantity', flags & 4), ('ComparisonQuantity', flags & 8)):
            if not need: continue
            v = lst(nm)
            for c in v.v.items if isinstance(v.v, Vec) else [v]:
                c.v = triple(T, CAREF, T.dg2, T.cg2, T.cn2) if later else triple(T, CAREF, T.dg, T.cg, T.cns[n])
                n += 1
    return b


def conversion(ctype, params, refs, formula=False, inverse=False):
    def b(T):
        small(T, 1)
        def one(cn, tag):
            cc = T.m(cn, 'CreateChannelConversion')
            T.m(cc, 'Type', ctype)
            T.m(cc, 'Name', 'conversion ' + tag)
            T.m(cc, 'Unit', 'unit ' + tag)
            for k in range(params): T.m(cc, 'Parameter', k, Num(('tok', '%s.par%d' % (tag, k), 64, ('cc', 'par')), 'f'))
            for k in range(refs): T.m(cc, 'Reference', k, 'reference %s %d' % (tag, k))
            if formula: T.m(cc, 'Formula', 'formula ' + tag)
            return cc
        c = one(T.cns[0], 'a')
        one(T.cn2, 'b')
        if inverse: T.m(T.m(c, 'CreateInverse'), 'Name', 'inverse')
    return b


def channel(natt, x, later=False):
    def b(T):
        atts = []
        for k in range(natt):
            a = T.m(T.hd, 'CreateAttachment')
            T.m(a, 'FileName', '/a/file%d.txt' % k)
            atts.append(a)
        small(T, 2)
        for k, a in enumerate(atts): T.m(T.cn2, 'AddAttachmentReference', Ptr(Cell2(a)))
        if x: T.m(T.cn2, 'DefaultX', triple(T, ELEM, T.dg2, T.cg2, T.cn2) if later else triple(T, ELEM, T.dg, T.cg, T.cns[1]))
        T.m(T.m(T.cn2, 'CreateSourceInformation'), 'Name', 'source')
        T.m(T.cn2, 'Unit', 'unit')
        T.m(T.cns[0], 'Unit', 'unit 0')
    return b


def events(nscope, natt, group, parents, later=False):
    def b(T):
        small(T, 3)
        if not later: T.write()        # events refer to blocks of the file
        atts = [T.m(T.hd, 'CreateAttachment') for _ in range(natt)]
        for k, a in enumerate(atts): T.m(a, 'FileName', '/a/file%d.txt' % k)
        e = [named(T, T.hd, 'CreateEvent', 'event %d' % k) for k in range(3)]
        for k in range(nscope): T.m(e[2], 'AddScope', Ptr(Cell2(T.cns[k] if k else T.cg)))
        for a in atts: T.m(e[2], 'AddAttachment', Ptr(Cell2(a)))
        if group: T.m(e[2], 'GroupName', 'group of events')
        if parents:
            T.m(e[2], 'ParentEvent', Ptr(Cell2(e[0])))
            T.m(e[2], 'RangeEvent', Ptr(Cell2(e[1])))
    return b


def hierarchy(n, later=False):
    def b(T):
        small(T, 3)
        if not later: T.write()
        h = [named(T, T.hd, 'CreateChannelHierarchy', 'hierarchy %d' % k) for k in range(2)]
        c = [named(T, h[0], 'CreateChannelHierarchy', 'child %d' % k) for k in range(2)]
        named(T, c[1], 'CreateChannelHierarchy', 'grandchild')
        for k in range(n): T.m(c[1], 'AddElementLink', triple(T, ELEM, T.dg, T.cg, T.cns[k] if k else None))
    return b


def composed(T):
    small(T, 2)
    for cn in T.cns:
        x = [named(T, cn, 'CreateChannelComposition', 'member %d' % k) for k in range(2)]
        T.m(x[0], 'CreateChannelConversion')
        named(T, x[1], 'CreateChannelComposition', 'inner')
    T.m(T.m(T.cn2, 'CreateChannelArray'), 'Shape', Vec([Cell(3)], 'vector'))
    T.m(T.m(T.cn2, 'CreateChannelArray'), 'Shape', Vec([Cell(2)], 'vector'))


def stages(T):
    """the file is written again and again while children are added"""
    T.write()
    for what in ('CreateFileHistory', 'CreateAttachment', 'CreateEvent', 'CreateChannelHierarchy', 'CreateDataGroup'):
        for k in range(2):
            o = T.m(T.hd, what)
            if any(True for _ in fns(T.db, o.cls, 'Name', 1)) and what != 'CreateDataGroup': T.m(o, 'Name', '%s %d' % (what[6:], k))
            if what == 'CreateAttachment': T.m(o, 'FileName', '/a/file%d.txt' % k)
            if what == 'CreateDataGroup':
                for j in range(2):
                    g = named(T, o, 'CreateChannelGroup', 'group %d %d' % (k, j))
                    if j: T.m(T.m(g, 'CreateSourceInformation'), 'Name', 'source of group')
                    for i in range(2): named(T, g, 'CreateChannel', 'channel %d %d %d' % (k, j, i))
            T.write()


def filled(T):
    """every property of every kind of block"""
    fill(T.db, T.I, T.hd, 'hd', {})
    T.make(T.hd, 'CreateFileHistory')
    T.make(T.hd, 'CreateAttachment', AT_SKIP)
    T.make(T.hd, 'CreateEvent', ('flags_',))
    T.make(T.hd, 'CreateChannelHierarchy')
    dg = T.make(T.hd, 'CreateDataGroup')
    cg = T.make(dg, 'CreateChannelGroup', ('flags_',))
    T.make(cg, 'CreateSourceInformation')
    cn = T.make(cg, 'CreateChannel', CN_SKIP)
    T.make(T.make(cn, 'CreateChannelConversion'), 'CreateInverse')
    T.make(cn, 'CreateSourceInformation')


def scenarios4():
    out = [('every property', filled), ('compositions', composed), ('written in stages', stages)]
    for fl in (0, 1, 2, 4, 8, 16, 32, 48, 63, 31, 47):
        for st in (0, 1, 2):
            for dims in ((2, 3),) if fl not in (0, 63) else ((2, 3), (4,), (1, 2, 2)):
                out.append(('array with flags %d, storage %d, shape %s' % (fl, st, 'x'.join(map(str, dims))), array(fl, st, dims)))
    out.append(('array that refers to its own group', array(63, 0, (2,), True)))
    for n, p, r in ((0, 0, 0), (1, 2, 0), (2, 6, 0), (4, 6, 0), (5, 4, 0), (6, 7, 0), (7, 2, 3), (8, 4, 3), (9, 3, 2), (10, 0, 5)):
        out.append(('conversion of type %d' % n, conversion(n, p, r, inverse=n == 1)))
    out.append(('conversion by formula', conversion(3, 0, 0, True)))
    for na in (0, 1, 2):
        for x in (False, True): out.append(('channel with %d attachments%s' % (na, ' and default X' if x else ''), channel(na, x)))
    out.append(('default X in the own group', channel(1, True, True)))
    for k in (0, 1, 2):
        for j in (0, 1, 2): out.append(('event with %d scopes and %d attachments' % (k, j), events(k, j, (k + j) % 2 == 1, k == j)))
    out.append(('event on a channel that is written later', events(2, 1, True, True, True)))
    out.append(('hierarchy of channels that are written later', hierarchy(2, True)))
    for k in (0, 1, 3): out.append(('hierarchy with %d elements' % k, hierarchy(k)))
    return out


# ---- checks of an image -----------------------------------------------------------------------------------------------
TXT = ('TX', 'MD')
DATA = ('DT', 'DV', 'DZ', 'DL', 'HL', 'LD', 'SD', 'RD', 'DI', 'CG', 'EV', 'AT')
SLOTS = {'HD': [('DG',), ('FH',), ('CH',), ('AT',), ('EV',), TXT], 'FH': [('FH',), TXT], 'CH': [('CH',), ('CH',), TXT, TXT], 'AT': [('AT',), TXT, TXT, TXT],
         'EV': [('EV',), ('EV',), ('EV',), TXT, TXT], 'DG': [('DG',), ('CG',), DATA, TXT], 'CG': [('CG',), ('CN',), TXT, ('SI',), ('SR',), TXT],
         'CN': [('CN',), ('CA', 'CN'), TXT, ('SI',), ('CC',), DATA, TXT, TXT], 'CC': [TXT, TXT, TXT, ('CC',)], 'SI': [TXT, TXT, TXT], 'CA': [('CA', 'CN')], 'SR': [('SR',), DATA], 'MD': [], 'TX': []}
TRIPLE = [('DG',), ('CG',), ('CN',)]


def u(b, ty='unsigned long'):
    v = dec(b, len(b), ty)
    return v if isinstance(v, int) else None


def blocks4(m):
    """(position, type, length, links, data section) of the blocks that tile the file; complaints"""
    d, p, out, bad = m.data, 64, [], []
    while p < len(d):
        if len(d) - p < 24: bad.append('%d bytes at %d belong to no block' % (len(d) - p, p)); break
        t = ''.join(chr(x) if isinstance(x, int) else '?' for x in d[p:p + 4])
        if not t.startswith('##') or t[2:] not in SLOTS: bad.append('no block starts at %d, behind %s' % (p, '%s at %d' % (out[-1][1], out[-1][0]) if out else 'the identification')); break
        if d[p + 4:p + 8] != [0] * 4: bad.append('%s at %d: the reserved bytes are not zero' % (t, p))
        n, k = u(d[p + 8:p + 16]), u(d[p + 16:p + 24])
        if n is None or k is None or n < 24 + 8 * k or p + n > len(d): bad.append('%s at %d: length %s with %s links' % (t, p, n, k)); break
        out.append((p, t[2:], n, [u(d[p + 24 + 8 * i:p + 32 + 8 * i], 'long') for i in range(k)], d[p + 24 + 8 * k:p + n]))
        q = p + n
        e = q + -q % 8
        if any(d[q:min(e, len(d))]): bad.append('%s at %d: %d bytes behind its declared length' % (t, p, len([x for x in d[q:e] if x]))); break
        p = e
    return out, bad


def slots_of(t, links, data):
    """the roles the format gives to the links of a block, from its data section"""
    s = list(SLOTS[t])
    if t == 'CN':
        fl, na = u(data[12:16], 'unsigned int'), u(data[22:24], 'unsigned short')
        if fl is None or na is None: return None
        s += [('AT',)] * na + (TRIPLE if fl & 0x1000 else [])
    elif t == 'CH':
        n = u(data[0:4], 'unsigned int')
        s += TRIPLE * (n or 0)
    elif t == 'CC':
        n = u(data[4:6], 'unsigned short')
        s += [TXT + ('CC',)] * (n or 0)
    elif t == 'EV':
        k, a, fl = u(data[8:12], 'unsigned int'), u(data[12:14], 'unsigned short'), u(data[5:6])
        if k is None or a is None: return None
        s += [('CG', 'CN')] * k + [('AT',)] * a + ([TXT] if len(links) == 6 + k + a else [])
    elif t == 'CG':
        fl = u(data[16:18], 'unsigned short')
        if fl is not None and fl & 8: s += [('CG',)]
    elif t == 'CA':
        st, nd, fl = u(data[1:2]), u(data[2:4]), u(data[4:8])
        if None in (st, nd, fl): return None
        dims = [u(data[16 + 8 * i:24 + 8 * i]) for i in range(nd)]
        if None in dims: return None
        prod = 1
        for k in dims: prod *= k
        if st == 2: s += [DATA] * prod
        if fl & 1: s += TRIPLE * nd
        if fl & 2: s += TRIPLE * nd
        if fl & 4: s += TRIPLE
        if fl & 8: s += TRIPLE
        if fl & 16: s += [('CC',)] * nd
        if fl & 16 and not fl & 32: s += TRIPLE * nd
    return s


def links4(T):
    bl, bad = blocks4(T.buf.m)
    if bad: return [], bad
    at = {p: t for p, t, *_ in bl}
    used, out = set(), []
    for p, t, n, links, data in bl:
        s = slots_of(t, links, data)
        if s is None: out.append('%s at %d: the number of its links is unknown' % (t, p)); continue
        if len(links) != len(s): out.append('%s has %d links, its contents require %d' % (t, len(links), len(s))); continue
        for i, (l, ok) in enumerate(zip(links, s)):
            if l == 0: continue
            if l is None or l not in at: out.append('link %d of %s does not lead to a block' % (i, t))
            elif at[l] not in ok: out.append('link %d of %s leads to a %s block, not to %s' % (i, t, at[l], '/'.join(ok)))
            else: used.add(l)
    for p, t, *_ in bl:
        if t != 'HD' and p not in used: out.append('no link leads to a %s block that is in the file' % t)
    return out, []


# ---- MDF3 --------------------------------------------------------------------------------------------------------------
def mdf3(db, build):
    T = Tree(db, {})
    T.cls = 'mdf::detail::Mdf3File'
    T.fo = T.I.new(T.cls)
    T.hd = T.m(T.fo, 'Header')
    T.buf = newbuf()

    def write():
        T.buf.m.pos = 0
        if T.m(T.fo, 'Write', Cell(T.buf)) is not True: raise CThrow('failure to write')
    T.write = write
    build(T)
    write()
    return T


def groups3(T, ndg=2, ncg=2, ncn=2, staged=False):
    for k in range(ndg):
        dg = T.m(T.hd, 'CreateDataGroup')
        for j in range(ncg if k == 0 else 1):
            cg = T.m(dg, 'CreateChannelGroup')
            T.m(cg, 'Description', 'group %d %d' % (k, j))
            for i in range(ncn):
                cn = named(T, cg, 'CreateChannel', 'channel %d %d %d' % (k, j, i))
                T.m(cn, 'Description', 'text of %d %d %d' % (k, j, i))
                T.last = cn
        if staged:
            T.write()
            T.write()


def comments3(T):
    for nm in ('Author', 'Department', 'Project', 'Subject', 'Description'): T.m(T.hd, nm, nm + ' of the file')
    groups3(T, 1, 1, 1)
    cg = T.m(T.m(T.hd, 'CreateDataGroup'), 'CreateChannelGroup')
    T.m(cg, 'CreateChannel')
    cn = named(T, cg, 'CreateChannel', 'a name of a channel that is longer than thirty two characters')
    T.m(cn, 'DisplayName', 'a display name')


def conversion3(ctype, params, formula=False, staged=False):
    def b(T):
        groups3(T, 1, 1, 2)
        cc = T.m(T.last, 'CreateChannelConversion')
        T.m(cc, 'Type', enum(T.db, 'ConversionType', ctype))
        T.m(cc, 'Unit', 'unit')
        for k in range(params): T.m(cc, 'Parameter', k, Num(('tok', 'par%d' % k, 64, ('cc', 'par')), 'f'))
        if formula: T.m(cc, 'Formula', 'the formula')
        if staged: groups3(T, 1, 1, 1)
    return b


def filled3(T):
    fill(T.db, T.I, T.hd, 'hd', {})
    dg = T.make(T.hd, 'CreateDataGroup', ('nof_cg_blocks_', 'nof_record_id_'))
    cg = T.make(dg, 'CreateChannelGroup', ('nof_channels_',))
    cn = T.make(cg, 'CreateChannel', ('data_type_', 'type_', 'channel_type_', 'signal_type_', 'flags_'))
    T.m(T.m(cn, 'CreateChannelConversion'), 'Unit', 'a unit')


def scenarios3():
    out = [('MDF3: every property', filled3), ('MDF3: groups', groups3), ('MDF3: written in stages', lambda T: groups3(T, 3, 2, 2, True)), ('MDF3: comments', comments3)]
    for t, p in SPEC3:
        out.append(('MDF3: conversion %s' % t, conversion3(t, p, t == 'Algebraic')))
        out.append(('MDF3: conversion %s that is changed' % t, conversion3(t, p, t == 'Algebraic', True)))
    return out


SPEC3 = (('Linear', 2), ('ValueToValueInterpolation', 6), ('ValueToValue', 4), ('Polynomial', 6), ('Exponential', 7), ('Logarithmic', 7), ('Rational', 6), ('Algebraic', 0), ('DateConversion', 0), ('TimeConversion', 0),
         ('NoConversion', 0))


# offsets of the links in a block and the blocks they may lead to
SLOTS3 = {'HD': [(4, ('DG',)), (8, ('TX',)), (12, ('PR',))], 'DG': [(4, ('DG',)), (8, ('CG',)), (12, ('TR',)), (16, ('DT',))], 'CG': [(4, ('CG',)), (8, ('CN',)), (12, ('TX',)), (26, ('SR',))],
          'CN': [(4, ('CN',)), (8, ('CC',)), (12, ('CE',)), (16, ('CD',)), (20, ('TX',)), (218, ('TX',)), (222, ('TX',))], 'TR': [(4, ('TX',))], 'SR': [(4, ('SR',)), (8, ('DT',))], 'CC': [], 'TX': [], 'PR': []}


def links3(T):
    d, p, bl, ext, out = T.buf.m.data, 64, [], [], []
    while p < len(d):
        t = ''.join(chr(x) if isinstance(x, int) else '?' for x in d[p:p + 2])
        n = u(d[p + 2:p + 4])
        if t not in SLOTS3 or n is None or n < 4 or p + n > len(d): ext.append('no block starts at %d, behind %s' % (p, '%s at %d' % (bl[-1][1], bl[-1][0]) if bl else 'the identification')); return [], ext
        bl.append((p, t, n))
        p += n
    at, used = {p: t for p, t, _ in bl}, set()
    for p, t, n in bl:
        for o, ok in SLOTS3[t]:
            if o + 4 > n: continue
            l = u(d[p + o:p + o + 4])
            if l == 0: continue
            if l is None or l not in at: out.append('the link at offset %d of %s does not lead to a block' % (o, t))
            elif at[l] not in ok: out.append('the link at offset %d of %s leads to a %s block, not to %s' % (o, t, at[l], '/'.join(ok)))
            elif l in used and t != 'CN': out.append('two links lead to the same %s block' % at[l])
            else: used.add(l)
    for p, t, _ in bl:
        if t != 'HD' and p not in used: out.append('no link leads to a %s block that is in the file' % t)
    return out, []


# ---- round trips -------------------------------------------------------------------------------------------------------
# what lives in memory only: the state of a measurement and of reading
MEMORY = {'VlsdRecordId', 'Sample', 'SampleBuffer', 'GetSampleRecord', 'MaxLength', 'StorageType', 'IsRead', 'MandatoryMembersOnly', 'DataList', 'ChannelGroup', 'IsChannelInteger'}


def shown(db, c):
    """names of the functions of the public interfaces of a block class"""
    m = getattr(db, '_shown', None)
    if m is None: m = db._shown = {}
    if c not in m:
        pub = {b for b in db.bases(c) if '::detail::' not in b and not b.startswith('std::')}
        m[c] = {d['n'].split('::')[-1] for d in db.decls.values() if d.get('cls') in pub} | {f['n'].split('::')[-1] for b in pub for _, f in by_cls(db).get(b, ())}
    return m[c]


def differences(T):
    I = T.I
    fo = I.new(T.cls)
    T.buf.m.pos = 0
    T.m(fo, 'ReadEverythingButData', Cell(T.buf))
    out = []
    def skip(c, nm): return nm in MEMORY or nm not in shown(T.db, c)
    same_tree(T.db, I, T.m(T.fo, 'Header'), T.m(fo, 'Header'), (), out, set(), skip)
    return out


def work(job):
    global DB
    which, ver, i, mode = job
    nm, b = (scenarios4() if ver == 4 else scenarios3())[i]
    bad, used, obs, note = [], set(), 0, None
    try:
        T = (mdf4 if ver == 4 else mdf3)(DB, b)
        if which != 'tree':
            links, ext = (links4 if ver == 4 else links3)(T)
            bad = [(x.split(' ')[0] if x[:2].isupper() else next((w for w in x.split() if w.isupper() and w in SLOTS), ''), x) for x in (links if which == 'link' else ext)]
        else:
            for p, kind, x, y, *_ in differences(T):
                path = '.'.join(k[1] if isinstance(k, tuple) else '[%s]' % k for k in p)
                c = next((k[0] for k in reversed(p) if isinstance(k, tuple)), '')
                g = next((k[1] for k in reversed(p) if isinstance(k, tuple)), '')
                bad.append((c, '%s::%s is not the same after reading the file (%s: %s written, %s read)' % (c, g, kind, txt(x), txt(y)), path))
        used, obs = set(T.I.used), getattr(T.I, 'observed', 0) or len(T.buf.m.data)
    except Stuck as e: note = 'stuck: %s' % e
    except CThrow as e: bad.append(('', 'writing and reading fails (%s)' % e.t))
    return nm, bad, used, obs, note


def txt(x):
    if isinstance(x, str): return repr(x)[:40]
    if isinstance(x, Num): return 'a number'
    return str(x)[:40]


def run(db, R, which, versions=(4,)):
    global DB
    DB = db
    import multiprocessing
    jobs = [(which, v, i, '') for v in versions for i in range(len(scenarios4() if v == 4 else scenarios3()))]
    with multiprocessing.get_context('fork').Pool(8) as pool: res = pool.map(work, jobs, chunksize=2)
    stuck = [(nm, note) for nm, _, _, _, note in res if note]
    if which == 'tree' and len(stuck) > len(jobs) // 3: raise AnalysisError('files cannot be interpreted: %s: %s' % stuck[0])
    for nm, note in stuck: R.notes.append('%s: %s' % (nm, note))
    seen = {}
    for nm, bad, used, obs, note in res:
        R.count('files')
        R.count({'tree': 'observations', 'link': 'bytes of files', 'extent': 'bytes of files'}[which], obs)
        for x in used:
            f = db.funcs[x]
            if FRAME == f.get('cls') or FRAME in db.bases(f.get('cls') or ''): R.analysed(f)
        for b in bad:
            c, text = b[0], b[1]
            k = '%s: %s' % (nm, text)
            if seen.get((c, text.split(' (')[0]), 0) >= 2: continue
            seen[(c, text.split(' (')[0])] = seen.get((c, text.split(' (')[0]), 0) + 1
            cls = next((x for x in db.classes if short(x) in (c, c.capitalize() + '%dBlock' % (3 if nm.startswith('MDF3') else 4)) and FRAME in db.bases(x)), None)
            f = next(iter(fns(db, cls, 'Write', 1)), None) if cls else None
            R.violate('image-' + which, '%s/%s' % (nm, text.split(' (')[0][:70]), loc=(f['file'], f['line']) if f else ('mdflib/src/mdf4file.cpp', 1), msg='file "%s": %s' % (nm, text))


def tree(db, R): run(db, R, 'tree', (4, 3))
def link(db, R): run(db, R, 'link')
def link3(db, R): run(db, R, 'link', (3,))
def extent(db, R): run(db, R, 'extent', (4, 3))
