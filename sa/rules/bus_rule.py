"""Bus records: what ToRaw stores at each bit of the record against what the
configuration adapter advertises for that bit."""
import re
from .. import facts, sym, bits as B
from ..sym import strip, show
from ..walk import Walker

LAYOUT = {'ByteOffset', 'BitOffset', 'BitCount', 'DataBytes', 'Type', 'DataType'}


class Chan:
    def __init__(self, group, name, parent, loc):
        self.group = group; self.name = name; self.parent = parent; self.loc = loc
        self.p = {}
        self.maybe = False


class Group:
    def __init__(self, name, loc):
        self.name = name; self.loc = loc; self.chans = []; self.gets = []; self.p = {}


def adapter_tree(db, cls):
    f = None
    for i in db.by_name.get(cls + '::CreateConfig', ()):
        g = db.funcs.get(i)
        if g and 'IDataGroup' in g['p'][0]['t']:
            f = g
    if f is None:
        raise facts.AnalysisError('no CreateConfig(IDataGroup&) in ' + cls)
    def pol(fid, g, depth):
        if 'LogStream' in g['n'] or 'MdfLog' in g['n']:
            return False
        c = g.get('cls') or ''
        return not c or c == cls or 'IConfigAdapter' in c or c in db.bases(cls) or c == 'mdf::MdfWriter'
    eng = sym.Engine(db, inline=pol, max_depth=12)
    return f, eng.summarize(f, this_cls=cls)


class AdapterWalk:
    def __init__(self, db, cls, tree, conf):
        self.groups = []
        self.gmap = {}
        self.chmap = {}
        self.streams = {}
        self.unresolved = []
        self.conf = conf
        self.vlsd = []
        self.cur = []
        w = Walker(self.leaf, self.eff)
        w.run(tree)

    def leaf(self, v):
        if not isinstance(v, tuple) or not v:
            return None
        k = v[0]
        if k == 'fld' and v[2] == 'mandatory_members_only_' or k == 'call' and v[1].endswith('::MandatoryMembersOnly') and not v[3]:
            return ('c', self.conf['mandatory'])
        if k == 'fld' and v[2] == 'storage_type_' or k == 'call' and v[1].endswith('::StorageType') and not v[3]:
            return ('c', self.conf['storage'])
        if k == 'fld' and v[2] == 'filter_type_' or k == 'call' and v[1].endswith('::FilterType') and not v[3]:
            return ('c', 0)
        if k == 'op' and v[1] in ('!=', '==') and v[3] == ('null',):
            x = strip(v[2])
            r = None
            while x[0] == 'ite' :
                x = x[2]
            if x[0] == 'call':
                b = x[1].split('::')[-1]
                if b == 'GetChannel':
                    g = self.group_of(x[2])
                    n = self.text(x[3][0]) if x[3] else None
                    r = any(c.name == n for c in g.chans) if g else None
                elif b.startswith('Create'):
                    r = True
            elif x[0] in ('parm',):
                r = True
            if x == ('null',):
                r = False
            if r is not None:
                return ('c', int(r == (v[1] == '!=')))
        return None

    def text(self, v):
        v = strip(v)
        if v[0] == 's': return v[1]
        if v[0] == 'call':
            b = v[1].split('::')[-1]
            if b == 'str' and v[2] is not None:
                return ''.join(self.streams.get(strip(v[2]), ['?']))
            if b in ('Name',) and v[2] is not None:
                c = self.chan_of(v[2])
                if c: return c.name
                g = self.group_of(v[2])
                if g: return g.name
            if (b in ('to_string', 'data', 'c_str') or 'basic_string' in b) and (v[2] is not None or v[3]):
                return self.text(v[2] if v[2] is not None else v[3][0])
            if b == 'operator+' or 'operator+' in v[1]:
                a = [x for x in ((v[2],) if v[2] is not None else ()) + tuple(v[3])]
                return ''.join(self.text(x) for x in a)
        if v[0] == 'op' and v[1] == '+':
            return self.text(v[2]) + self.text(v[3])
        if v[0] == 'ctor' and len(v[2]) >= 1:
            return self.text(v[2][0])
        if v[0] == 'ite':
            return self.text(v[3])
        return '?'

    def group_of(self, v):
        return self.gmap.get(strip(v))

    def chan_of(self, v):
        v = strip(v)
        c = self.chmap.get(v)
        if c is not None:
            return c
        if v[0] == 'call' and v[1].split('::')[-1] == 'GetChannel':
            g = self.group_of(v[2])
            n = self.text(v[3][0])
            for c in (g.chans if g else ()):
                if c.name == n: return c
            return None
        # value a helper returned along several branches: the alternatives that exist
        alts = {id(c): c for c in (self.chmap.get(x) for x in sym.find_all(v, lambda y: y in self.chmap)) if c}
        if len(alts) == 1 and v[0] in ('opq', 'ite'):
            return next(iter(alts.values()))
        return None

    def eff(self, w, e):
        if e.k == 'decl' and 'stringstream' in (e.name or ''):
            self.streams[e.obj] = []
            return
        if e.k != 'call':
            return
        nm = e.name or ''
        b = nm.split('::')[-1]
        if 'operator<<' in nm and e.obj is not None and strip(e.obj) in self.streams:
            for a in e.args:
                self.streams[strip(e.obj)].append(self.text(w.red(a)))
            return
        if 'operator<<' in nm and e.obj is None and e.args and strip(e.args[0]) in self.streams:
            for a in e.args[1:]:
                self.streams[strip(e.args[0])].append(self.text(w.red(a)))
            return
        if b == 'CreateChannelGroup':
            v = strip(('call', nm, e.obj, e.args))
            g = Group(self.text(e.args[0]), e.loc)
            self.groups.append(g)
            self.gmap[v] = g
            return
        if b == 'CreateChannel' and e.obj is not None and self.group_of(e.obj):
            g = self.group_of(e.obj)
            c = Chan(g, self.text(e.args[0]), None, e.loc)
            c.maybe = w.maybe > 0
            g.chans.append(c)
            self.chmap[strip(('call', nm, e.obj, e.args))] = c
            return
        if b == 'CreateChannelComposition' and e.obj is not None:
            pc = self.chan_of(e.obj)
            if pc is None:
                self.unresolved.append(e)
                return
            c = Chan(pc.group, self.text(e.args[0]), pc, e.loc)
            c.maybe = w.maybe > 0
            pc.group.chans.append(c)
            self.chmap[strip(('call', nm, e.obj, e.args))] = c
            return
        if b == 'GetChannel' and e.obj is not None and self.group_of(e.obj):
            self.group_of(e.obj).gets.append((self.text(e.args[0]), e.loc))
        if b in LAYOUT and len(e.args) == 1:
            c = self.chan_of(w.red(e.obj)) if e.obj is not None else None
            if c is not None:
                c.p[b] = w.red(e.args[0])
                c.loc2 = e.loc
            return
        if b == 'Flags' and e.obj is not None and e.args and self.group_of(e.obj):
            self.group_of(e.obj).p['Flags'] = w.red(e.args[0])
        if b == 'MaxLength' and e.obj is not None and e.args and self.group_of(e.obj):
            self.group_of(e.obj).p['MaxLength'] = w.red(e.args[0])
        if b == 'VlsdRecordId' and e.args:
            c = self.chan_of(w.red(e.obj))
            g = None
            a = strip(w.red(e.args[0]))
            if a[0] == 'call' and a[1].endswith('RecordId'):
                g = self.group_of(a[2])
            self.vlsd.append((c, g, e.loc))


# ---------------------------------------------------------------- messages

def msg_policy(db):
    def pol(fid, g, depth):
        c = g.get('cls') or ''
        if c.startswith('mdf::MdfHelper') or c.startswith('mdf::LittleBuffer') or c.startswith('std::'):
            return False
        f = g.get('file') or ''
        return f.endswith(('message.cpp', 'message.h')) or 'anonymous' in g['n']
    return pol


TYPE_BYTES = {'float': 4, 'double': 8}


def width_of(t):
    t = t.replace('const ', '').strip()
    if t in TYPE_BYTES: return TYPE_BYTES[t]
    n = sym.type_bits(t)
    if n == 1: return 1
    return n // 8 if n else None


class RecordWalk:
    """Abstract execution of ToRaw for one configuration: the record as a map
    byte -> 8 bit provenances."""
    def __init__(self, db, tree, conf):
        self.db = db
        self.conf = conf
        self.cells = {}            # byte -> [8 bits]
        self.where = {}            # byte -> loc of last store
        self.size = None           # record size (value)
        self.size_loc = None
        self.vlsd = None
        self.vlsd_buf = None
        self.copies = []           # (start value, what, loc): run of payload bytes
        self.buffers = {}
        self.odd = []
        self.rec = None
        self.w = Walker(self.leaf, self.eff)
        self.w.run(tree)

    def leaf(self, v):
        k = v[0] if isinstance(v, tuple) and v else None
        if k == 'fld' and v[2] == 'mandatory_members_only_' or k == 'call' and v[1].endswith('::MandatoryMembersOnly') and not v[3]:
            return ('c', self.conf['mandatory'])
        if k == 'op' and v[1] in ('!=', '==') and v[3] == ('null',):
            x = strip(v[2])
            if x[0] == 'fld' and x[2] in ('data_group_', 'channel_group_'):
                return ('c', int(v[1] == '!='))
        if k == 'parm':
            n = v[2] if len(v) > 2 else v[1]
            r = self.conf.get('parm', {}).get(n)
            if r is not None: return r
        return None

    def is_rec(self, v):
        v = strip(v)
        return v[0] == 'fld' and v[2] == 'record_buffer'

    def addr(self, v):
        """record.data()+k / record.begin()+k / &record[k] -> value k"""
        v = strip(v)
        if v[0] == 'call' and v[2] is not None and self.is_rec(v[2]) and v[1].split('::')[-1] in ('data', 'begin'):
            return ('c', 0)
        if v[0] == 'op' and v[1] == '+':
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                k = self.addr(a)
                if k is not None:
                    return b if k == ('c', 0) else ('op', '+', k, b)
        if v[0] == 'call' and 'operator+' in v[1]:
            xs = ([v[2]] if v[2] is not None else []) + list(v[3])
            k = self.addr(xs[0]) if len(xs) == 2 else None
            if k is not None:
                return xs[1] if k == ('c', 0) else ('op', '+', k, xs[1])
        if v[0] in ('addr', 'un') and v[0] == 'addr' or (v[0] == 'un' and v[1] == '&'):
            x = strip(v[-1])
            if x[0] == 'at' and self.is_rec(x[1]): return x[2]
        if v[0] == 'at' and self.is_rec(v[1]):
            return None
        return None

    def mem(self, v):
        rng = self.conf.get('range')
        if rng:
            n = rng.get(B.norm(v))
            if n:
                return [('v', B.norm(v), i) for i in range(n)]
        if v[0] == 'at' and self.is_rec(v[1]):
            k = strip(v[2])
            if k[0] == 'c':
                return list(self.cells.get(k[1], [('stale', k[1], i) for i in range(8)]))
        return None

    def cell(self, k):
        return self.cells.setdefault(k, [('stale', k, i) for i in range(8)])

    def put(self, k, start, bs, loc):
        for i, b in enumerate(bs):
            p = start + i
            c = self.cell(k + p // 8)
            if self.w.maybe: b = ('mux', 'undecided', b, c[p % 8])
            c[p % 8] = b
            self.where[k + p // 8] = loc

    def kconst(self, v):
        v = strip(self.w.red(v))
        return v[1] if v[0] == 'c' else None

    def eff(self, w, e):
        nm = e.name or ''
        b = nm.split('::')[-1]
        if e.k == 'set':
            o = strip(e.obj)
            if o[0] == 'at' and self.is_rec(o[1]):
                val = w.red(e.val)
                k = self.kconst(o[2])
                if k is not None:
                    self.put(k, 0, B.bits(val, self.mem)[:8], e.loc)
                else:
                    self.copies.append((w.red(o[2]), val, list(w.loops), e.loc))
            elif o[0] == 'fld' and o[2] == 'vlsd_data':
                self.vlsd = (w.red(e.val), e.loc, w.maybe)
            elif o[0] == 'fld' and o[2] == 'vlsd_buffer':
                self.vlsd_buf = (w.red(e.val), e.loc, w.maybe)
            return
        if e.k == 'decl' and 'LittleBuffer' in nm:
            m = re.search(r'LittleBuffer<(.*)>', nm)
            self.buffers[strip(e.obj)] = (w.red(e.args[0]) if e.args else None, m.group(1) if m else '')
            return
        if e.k != 'call':
            return
        if b == 'resize' and e.obj is not None and self.is_rec(e.obj):
            self.size = w.red(e.args[0]); self.size_loc = e.loc
            return
        if b in ('clear',) and e.obj is not None and strip(e.obj)[0] == 'fld' and strip(e.obj)[2] == 'vlsd_buffer':
            self.vlsd_buf = (None, e.loc, w.maybe)
            return
        if b == 'UnsignedToRaw':
            le, st, n = (self.kconst(a) for a in e.args[:3])
            k = self.addr(w.red(e.args[4]))
            kk = self.kconst(k) if k is not None else None
            if kk is None or st is None or n is None or not le:
                self.odd.append((e.loc, 'UnsignedToRaw with operands that are not constants'))
                return
            self.put(kk, st, B.bits(w.red(e.args[3]), self.mem)[:n], e.loc)
            return
        if b in ('copy', 'copy_n', 'fill_n', 'fill', 'memcpy', 'memset'):
            a = [w.red(x) for x in e.args]
            if b == 'memcpy':
                dst, src, cnt = self.addr(a[0]), a[1], a[2]
            elif b == 'copy_n':
                dst, src, cnt = self.addr(a[2]), a[0], a[1]
            elif b == 'copy':
                dst, src, cnt = self.addr(a[2]), a[0], None
            elif b in ('fill_n', 'memset'):
                dst, src, cnt = self.addr(a[0]), None, None
            else:
                dst, src, cnt = self.addr(a[0]), None, None
            if dst is None:
                return
            kk = self.kconst(dst)
            s = strip(src) if src is not None else None
            if s is not None and s[0] == 'call' and s[1].split('::')[-1] in ('cbegin', 'begin', 'data') and s[2] is not None:
                o = strip(s[2])
                if o in self.buffers and kk is not None:
                    val, t = self.buffers[o]
                    n = width_of(t)
                    if n is None:
                        self.odd.append((e.loc, 'copy of a LittleBuffer of unknown width ' + t)); return
                    self.put(kk, 0, B.bits(val, self.mem)[:8 * n], e.loc)
                    return
                if o[0] == 'fld' and kk is not None:
                    t = self.field_type(o)
                    m = re.search(r'array<unsigned char, (\d+)', t or '')
                    if m:
                        for i in range(int(m.group(1))):
                            self.put(kk + i, 0, [('v', ('byte', B.norm(o), i), j) for j in range(8)], e.loc)
                        return
                    self.copies.append((dst, o, list(w.loops), e.loc))
                    return
            if s is not None:
                self.odd.append((e.loc, 'copy from ' + show(s)))
            else:
                self.copies.append((dst, None, list(w.loops), e.loc))

    def field_type(self, o):
        for c in [self.conf['cls']] + list(self.db.bases(self.conf['cls'])):
            for fl in self.db.classes[c].get('fields', ()):
                if fl['n'] == o[2]:
                    return fl['t']
        return None


# ------------------------------------------------- what a channel name denotes
# channel suffix -> getter of the message class; (getter, first bit) or
# (getter, 'size') for the number of bytes of the payload the getter returns

CAN = {'BusChannel': 'BusChannel', 'ID': 'MessageId', 'IDE': 'ExtendedId', 'DLC': 'Dlc', 'DataLength': 'DataLength',
       'Dir': 'Dir', 'SRR': 'Srr', 'EDL': 'Edl', 'BRS': 'Brs', 'ESI': 'Esi', 'WakeUp': 'WakeUp',
       'SingleWire': 'SingleWire', 'R0': 'R0', 'R1': 'R1', 'FrameDuration': 'FrameDuration', 'CRC': 'Crc',
       'ErrorType': 'ErrorType', 'BitPosition': 'BitPosition', 'DataBytes': 'DataBytes'}
LIN = {'BusChannel': 'BusChannel', 'ID': 'LinId', 'Dir': 'Dir', 'ReceivedDataByteCount': 'ReceivedDataByteCount',
       'DataLength': 'DataLength', 'DataBytes': 'DataBytes', 'Checksum': 'Checksum', 'ChecksumModel': 'ChecksumModel',
       'SOF': 'StartOfFrame', 'Baudrate': 'Baudrate', 'ResponseBaudrate': 'ResponseBaudrate', 'BreakLength': 'BreakLength',
       'BreakDelimiterLength': 'DelimiterBreakLength', 'SpecifiedDataByteCount': 'ExpectedDataByteCount',
       'Length': 'TotalSignalLength', 'Type': 'TypeOfLongDominantSignal'}
ETH = {'BusChannel': 'BusChannel', 'Source': 'Source', 'Destination': 'Destination', 'EtherType': 'EthType',
       'ReceivedDataByteCount': 'ReceivedDataByteCount', 'DataLength': 'DataLength', 'CRC': 'Crc', 'ReceivedCRC': 'Crc',
       'ExpectedCRC': 'ExpectedCrc', 'Dir': 'Dir', 'PadByteCount': 'PaddingByteCount', 'ErrorType': 'ErrorType',
       'DataBytes': 'DataBytes'}
MOST = {'BusChannel': 'BusChannel', 'Speed': 'Speed', 'TransferType': 'TransferType', 'Dir': 'Direction', 'Source': 'Source',
        'Destination': 'Destination', 'SpecifiedDataByteCount': 'SpecifiedNofBytes',
        'ReceivedDataByteCount': 'ReceivedNofBytes', 'DataLength': ('DataBytes', 'size'), 'CRC': 'Crc',
        'CAck': 'CompleteAck', 'PAck': 'PreemptiveAck', 'AckNAck': 'TxAck', 'PIndex': 'PacketIndex',
        'TxFailed': 'TxFailed', 'RType': 'ControlMessageType', 'State': 'SignalState', 'DeviceCount': 'DeviceCount',
        'SBC': 'BoundaryCount', 'FreeByteCount': 'FreeByteCount', 'TableLayout': 'TableLayout',
        'TableLength': ('TableData', 'size'), 'TableData': 'TableData', 'SysLockState': 'RingIsClosed',
        'ShutdownFlag': 'ShutdownFlag', 'DataBytes': 'DataBytes'}
FLX = {'BusChannel': 'BusChannel', 'ID': 'FrameId', 'Cycle': 'CycleCount', 'CycleCount': 'CycleCount', 'FlxChannel': 'Channel',
       'Dir': 'Direction', 'PayloadLength': 'PayloadLength', 'DataLength': ('DataBytes', 'size'), 'CRC': 'Crc',
       'HeaderCRC': 'HeaderCrc', 'ReservedBitFlag': 'Reserved', 'PayloadPreambleFlag': 'PayloadPreamble',
       'NullFrameFlag': 'NullFrame', 'SyncFrameFlag': 'SyncFrame', 'StartUpFrameFlag': 'StartupFrame',
       'FrameLength': 'FrameLength', 'IsSyntaxError': 'Syntax', 'IsContentError': 'Content',
       'IsSlotBndViolation': 'Boundary', 'IsTxConflict': 'TxConflict', 'IsValidFrame': 'Valid', 'PduLength': 'Length',
       'IsMultiplexed': 'Multiplexed', 'Switch': 'Switch', 'ValidFlag': 'Valid', 'UpdateBitPos': 'UpdateBitPos',
       'PduByteOffset': 'ByteOffset', 'PduBitOffset': 'BitOffset', 'FillDataLength': ('FillDataBytes', 'size'),
       'FillDataBytes': 'FillDataBytes', 'SymbolLength': 'Length', 'SymbolType': 'Type', 'FlxChannelMask': 'ChannelMask', 'DataBytes': 'DataBytes'}

BUSES = {
    'CAN': ('mdf::CanConfigAdapter', CAN, {g: ('mdf::CanMessage', 'CAN_' + g) for g in
            ('DataFrame', 'RemoteFrame', 'ErrorFrame', 'OverloadFrame')}),
    'LIN': ('mdf::LinConfigAdapter', LIN, dict({g: ('mdf::LinMessage', 'LIN_' + g) for g in
            ('Frame', 'WakeUp', 'ChecksumError', 'TransmissionError', 'SyncError', 'ReceiveError', 'Spike')},
            LongDom=('mdf::LinMessage', 'LIN_LongDominantSignal'))),
    'ETH': ('mdf::EthConfigAdapter', ETH, {g: ('mdf::EthMessage', 'ETH_' + g) for g in
            ('Frame', 'ChecksumError', 'LengthError', 'ReceiveError')}),
    'MOST': ('mdf::MostConfigAdapter', MOST, {g: ('mdf::Most' + g, None) for g in
             ('Message', 'Packet', 'EthernetPacket', 'SignalState', 'MaxPosInfo', 'BoundDesc', 'AllocTable',
              'SysLockState', 'ShutdownFlag')}),
    'FLX': ('mdf::FlexRayConfigAdapter', FLX, {g: ('mdf::FlexRay' + g, None) for g in
            ('Frame', 'Pdu', 'FrameHeader', 'NullFrame', 'ErrorFrame', 'Symbol')}),
}
# a getter that only ever holds this many significant bits
RANGE = {('mdf::CanMessage', 'Dlc'): 4}


class Messages:
    def __init__(self, db):
        self.db = db
        self.eng = sym.Engine(db, inline=msg_policy(db), max_depth=6)
        self.trees = {}
        self.gets = {}

    def fn(self, cls, name, np):
        for c in [cls] + list(self.db.bases(cls)):
            for i in self.db.by_name.get(c + '::' + name, ()):
                g = self.db.funcs.get(i)
                if g and len(g['p']) == np:
                    return g
        return None

    def getter(self, cls, name):
        k = (cls, name)
        if k not in self.gets:
            g = self.fn(cls, name, 0)
            r = None
            if g is not None:
                rets = []
                def rec(t):
                    for x in t:
                        if x[0] == 'ret': rets.append(x[1])
                        elif x[0] in ('scope',): rec(x[1])
                        elif x[0] == 'if': rec(x[2]); rec(x[3])
                        elif x[0] == 'inl': pass
                        elif x[0] == 'switch':
                            for l, b, f in x[2]: rec(b)
                rec(self.eng.summarize(g, this_cls=cls))
                if len(rets) == 1: r = rets[0]
            self.gets[k] = r
        return self.gets[k]

    def toraw(self, cls):
        if cls not in self.trees:
            f = None
            for i in self.db.by_name.get(cls + '::ToRaw', ()):
                f = self.db.funcs.get(i) or f
            if f is None:
                raise facts.AnalysisError('no ToRaw in ' + cls)
            self.trees[cls] = (f, self.eng.summarize(f, this_cls=cls))
        return self.trees[cls]


def same_bits(got, want):
    return got == want


def const(v):
    v = strip(v) if isinstance(v, tuple) else v
    return v[1] if isinstance(v, tuple) and v[0] == 'c' and isinstance(v[1], int) else None


def at_least(v, vals):
    """value v with every max-length quantity replaced by the concrete length"""
    return const(spec_reduce(v, vals))


def spec_reduce(v, fn):
    from ..walk import Leaf
    from .. import spec
    return spec.reduce(v, Leaf(fn))


def lengths(n):
    """the user sets the writer's maximum length to n before the configuration is made"""
    def fn(v):
        if v[0] == 'fld' and v[2] == 'max_length_':
            o = v[1] if isinstance(v[1], tuple) else None
            w = 'writer_' in show(v)
            return ('c', n if w else max(n, 8))
        if v[0] == 'parm' and v[1] == 'max_data_length':
            return ('c', max(n, 8))
        return None
    return fn


def run(db, R):
    ms = Messages(db)
    enums = {}
    for e in ('mdf::MessageType', 'mdf::LinMessageType', 'mdf::EthMessageType'):
        if e not in db.enums:
            raise facts.AnalysisError('no enum ' + e)
        for n, v in db.enums[e]['c']:
            enums[n] = v
    for bus, (ad, tab, grp) in BUSES.items():
        f, tree = adapter_tree(db, ad)
        seen = {}
        storages = (0, 1, 2) if bus == 'CAN' else (1,)
        for m in (1, 0):
            for st in storages:
                a = AdapterWalk(db, ad, tree, {'mandatory': m, 'storage': st})
                for e in a.unresolved:
                    raise facts.AnalysisError('%s:%d: channel whose parent could not be resolved' % e.loc)
                frames = [g for g in a.groups if g.chans]
                if not frames:
                    raise facts.AnalysisError('no channel groups found in ' + ad)
                R.count('configurations')
                for g in frames:
                    suf = g.name.split('_')[-1]
                    if suf not in grp:
                        once(R, seen, 'bus.group', '%s/%s' % (bus, g.name), g.loc,
                             'channel group name "%s" is not one of the %s record types' % (g.name, bus))
                        continue
                    cls, ty = grp[suf]
                    fr, rtree = ms.toraw(cls)
                    parm = {}
                    if ty is not None:
                        parm[fr['p'][0]['n']] = ('c', enums[ty])
                    if bus == 'CAN':
                        parm[fr['p'][3]['n']] = ('c', int(st != 2))
                    rng = {}
                    for (c2, gn), n in RANGE.items():
                        v = ms.getter(c2, gn) if c2 == cls else None
                        if v is not None: rng[B.norm(v)] = n
                    r = RecordWalk(db, rtree, {'mandatory': m, 'parm': parm, 'cls': cls, 'range': rng})
                    for loc, what in r.odd:
                        raise facts.AnalysisError('%s:%d: %s' % (loc + (what,)))
                    R.count('record shapes')
                    R.analysed('%s.%s mandatory=%d storage=%d' % (bus, suf, m, st))
                    compare(db, R, ms, bus, tab, cls, g, r, a, m, st, seen, fr)


def once(R, seen, rule, key, loc, msg):
    if (rule, key) not in seen:
        seen[(rule, key)] = 1
        R.violate(rule, key, loc, msg)


def compare(db, R, ms, bus, tab, cls, g, r, a, m, st, seen, fr):
    suf = g.name.split('_')[-1]
    top = '%s_%s' % (bus, suf)
    used = {}
    frame = None
    wide = []
    mine = [c for c in g.chans]
    for c in mine:
        key = c.name
        loc = getattr(c, 'loc2', c.loc)
        if c.parent is None and c.name in ('t', 'Timestamp', 'Time'):
            continue
        if c.parent is None:
            frame = c
            if c.name != top and bus != 'LIN' and c.name != top:
                once(R, seen, 'bus.name', key, c.loc, 'the %s record channel is called "%s"' % (top, c.name))
            continue
        R.count('channels')
        if '.' not in c.name or c.name.count('.') != 1 or c.name.split('.')[0] != c.parent.name:
            once(R, seen, 'bus.name', key, c.loc, 'channel "%s" is a member of "%s" and must be called "%s.<member>"' % (c.name, c.parent.name, c.parent.name))
        s = c.name.split('.')[-1]
        ent = tab.get(s)
        if ent is None:
            once(R, seen, 'bus.name', key, c.loc, 'no property of %s is called "%s"' % (cls, s))
            continue
        getn = ent if isinstance(ent, str) else ent[0]
        val = ms.getter(cls, getn)
        if val is None:
            raise facts.AnalysisError('no value for %s::%s()' % (cls, getn))
        bo, bi, bc = const(c.p.get('ByteOffset', ('c', 0))), const(c.p.get('BitOffset', ('c', 0))), c.p.get('BitCount')
        if bc is None and 'DataBytes' in c.p:
            bc = ('op', '*', c.p['DataBytes'], ('c', 8))
        if bo is None or bi is None or bc is None:
            once(R, seen, 'bus.offset', key, loc, 'channel "%s" has no constant place in the record' % c.name)
            continue
        bo += bi // 8; bi = bi % 8
        typ = const(c.p.get('Type', ('c', 0)))
        if s in ('DataBytes', 'TableData', 'FillDataBytes'):
            payload(R, c, g, r, bo, bc, typ, val, seen, m, st, bus, used)
            continue
        n = const(bc)
        if n is None:
            once(R, seen, 'bus.offset', key, loc, 'the width of "%s" is not a constant' % c.name)
            continue
        # what the record holds at the advertised bits
        got = []
        for i in range(n):
            p = bi + i
            k = bo + p // 8
            got.append(r.cells.get(k, [('none', k)] * 8)[p % 8])
            o = used.setdefault((k, p % 8), c)
            if o is not c:
                once(R, seen, 'bus.overlap', '%s|%s' % (o.name, c.name), loc, 'channels "%s" and "%s" share bit %d of byte %d' % (o.name, c.name, p % 8, k))
        tsuf = show(val)
        if isinstance(ent, tuple):
            # number of bytes of the payload
            sz = [b for b in got if b != 0]
            ok = all(isinstance(b, tuple) and b[0] == 'v' and b[1][0] == 'call' and b[1][1].split('::')[-1] == 'size' and B.norm(b[1][2]) == B.norm(val) and b[2] == i for i, b in enumerate(got))
            want = 'the number of bytes in %s()' % getn
        elif array_type(r, val):
            want = '%s()' % getn
            ok = all(b == ('v', ('byte', B.norm(val), i // 8), i % 8) for i, b in enumerate(got))
        else:
            exp = B.bits(val, lambda v: r.mem(v))[:n]
            if s == 'ID' and bus == 'CAN':
                exp = B.bits(ms.getter(cls, 'CanId') if False else val, r.mem)[:n]
            ok = got == exp
            want = '%s()' % getn
        if not ok:
            bad = next((i for i, b in enumerate(got) if isinstance(ent, tuple) or array_type(r, val) or b != exp[i]), 0)
            b = got[bad]
            have = 'nothing' if isinstance(b, tuple) and b[0] in ('none', 'stale') else B.bshow(b) if b in (0, 1) or b[0] in ('v', 'mix', 'mux', 'not') else str(b)
            once(R, seen, 'bus.bits', '%s/%d' % (key, m), r.where.get(bo + (bi + bad) // 8, loc),
                 'channel "%s" advertises byte %d bit %d, %d bits (%s:%d) for %s, but ToRaw stores %s in its bit %d%s' % (
                     c.name, bo, bi, n, loc[0], loc[1], want, have[:120], bad, ' (mandatory members only)' if m else ''))
        else:
            R.count('channel bits proved', n)
            # the record goes on with the next bit of the same property: the channel is too narrow
            p = bi + n
            nb = r.cells.get(bo + p // 8, [0] * 8)[p % 8]
            lb = got[-1]
            if isinstance(nb, tuple) and isinstance(lb, tuple) and nb[0] == lb[0] == 'v' and nb[1] == lb[1] and nb[2] == lb[2] + 1 and not narrow(db, r, c, s, val, n):
                wide.append((bo + p // 8, p % 8, 'channel "%s" has %d bits but ToRaw (%s:%d) goes on storing bits of %s() after them' % (
                    (c.name, n) + r.where.get(bo, loc) + (getn,)), key, loc))
            t = (r.field_type(strip(val)) or '') if strip(val)[0] == 'fld' else ''
            dt = const(c.p.get('DataType', ('c', 0)))
            if t in ('float', 'double') and dt not in (4,):
                once(R, seen, 'bus.type', key, loc, 'channel "%s" holds a %s but is described with data type %s' % (c.name, t, dt))
            elif t and t not in ('float', 'double') and 'array' not in t and dt in (4, 5):
                once(R, seen, 'bus.type', key, loc, 'channel "%s" holds an integer but is described as floating point' % c.name)
            elif dt in (1, 3, 5):
                once(R, seen, 'bus.type', key, loc, 'channel "%s" is stored little endian but described as big endian' % c.name)
    for k, b, msg, key, loc in wide:
        if (k, b) not in used:
            once(R, seen, 'bus.width', key, loc, msg)
    # record size and the frame channel
    size = r.size
    if frame is None:
        once(R, seen, 'bus.frame', g.name, g.loc, 'group %s has no record channel' % g.name)
        return
    if size is None:
        once(R, seen, 'bus.size', '%s/%d' % (g.name, m), g.loc, 'ToRaw does not size the %s record' % g.name)
        return
    fb = frame.p.get('DataBytes')
    if fb is None and 'BitCount' in frame.p:
        fb = ('op', '/', frame.p['BitCount'], ('c', 8))
    fo = const(frame.p.get('ByteOffset', ('c', 8)))
    for n in (0, 1, 4, 8, 9, 64, 255):
        x = const(spec_reduce(('op', '+', ('c', 8), fb), lengths(n))) if fb is not None else None
        y = const(spec_reduce(size, lengths(n)))
        if x is None or y is None:
            raise facts.AnalysisError('%s:%d: size of the %s record is not a function of the maximum length (%s / %s)' % (frame.loc + (g.name, show(fb), show(size))))
        if x != y:
            once(R, seen, 'bus.size', '%s/%d' % (g.name, m), frame.loc,
                 'the "%s" channel ends at byte %d but the record written by ToRaw (%s:%d) has %d bytes (maximum length %d%s)' % (
                     frame.name, x, r.size_loc[0], r.size_loc[1], y, n, ', mandatory members only' if m else ''))
            break
    else:
        R.count('record sizes proved')
    # every named lookup finds a channel of the group
    names = {c.name for c in g.chans}
    for n, loc in g.gets:
        R.count('lookups')
        if n not in names and not (m and n.split('.')[-1] in ('DataBytes', 'FillDataBytes', 'TableData')):
            once(R, seen, 'bus.lookup', n, loc, 'no channel of the group %s is called "%s"' % (g.name, n))
    if st == 1:
        for c in g.chans:
            if const(c.p.get('Type', ('c', 0))) == 1 and not any(x is c and y is not None and const(y.p.get('Flags', ('c', 0))) == 1 for x, y, l in a.vlsd):
                once(R, seen, 'bus.vlsdgroup', '%s/%d' % (c.name, m), c.loc, 'variable length channel "%s" is not linked to a VLSD channel group' % c.name)


def narrow(db, r, c, s, val, n):
    """the property has no more than n significant bits"""
    if (s, n) in (('UpdateBitPos', 12), ('ID', 29), ('AckNAck', 4)):
        return True
    v = strip(val)
    t = (r.field_type(v) or '') if v[0] == 'fld' else ''
    e = db.enums.get(t)
    return e is not None and all(0 <= x < 1 << n for _, x in e['c'])


def array_type(r, val):
    v = strip(val)
    return v[0] == 'fld' and 'array<unsigned char' in (r.field_type(v) or '')


def payload(R, c, g, r, bo, bc, typ, val, seen, m, st, bus, used):
    key = c.name
    loc = getattr(c, 'loc2', c.loc)
    if typ == 1:
        # variable length: index in the record, data beside it
        if r.vlsd is None or r.vlsd[0] != ('c', 1) or r.vlsd[2]:
            once(R, seen, 'bus.vlsd', '%s/%d' % (key, m), r.size_loc or loc, 'channel "%s" is variable length but ToRaw does not mark the sample as holding variable length data%s' % (c.name, ' (mandatory members only)' if m else ''))
        elif r.vlsd_buf is None or r.vlsd_buf[0] is None or B.norm(r.vlsd_buf[0]) != B.norm(val):
            once(R, seen, 'bus.vlsd', '%s/%d' % (key, m), r.vlsd[1], 'the variable length data of "%s" is not the payload' % c.name)
        n = const(bc)
        if n != 64:
            once(R, seen, 'bus.vlsd', key, loc, 'index channel "%s" is not 64 bits' % c.name)
            return
        for i in range(64):
            k = bo + i // 8
            b = r.cells.get(k, [('none',)] * 8)[i % 8]
            if b != 0:
                once(R, seen, 'bus.bits', '%s/%d' % (key, m), loc, 'the index of "%s" at byte %d is overwritten or not initialised by ToRaw (byte %d)%s' % (c.name, bo, k, ' (mandatory members only)' if m else ''))
                break
            o = used.setdefault((k, i % 8), c)
            if o is not c:
                once(R, seen, 'bus.overlap', '%s|%s' % (o.name, c.name), loc, 'channels "%s" and "%s" share byte %d' % (o.name, c.name, k))
                break
        else:
            R.count('payload channels proved')
        return
    # maximum length: the bytes themselves
    hit = None
    for dst, src, loops, l2 in r.copies:
        if src is None: continue
        base = dst
        lv = sym.find_all(dst, lambda y: y[0] == 'lv') if isinstance(dst, tuple) else []
        for v in set(lv):
            base = spec_reduce(base, lambda y, v=v: ('c', 0) if y == v else None)
        if const(base) == bo and (B.norm(src) == B.norm(val) or any(B.norm(x) == B.norm(('at', val, v)) for v in lv for x in sym.find_all(src, lambda y: y[0] == 'at'))):
            hit = l2
    if hit is None:
        once(R, seen, 'bus.bits', '%s/%d' % (key, m), loc, 'channel "%s" advertises the payload at byte %d, where ToRaw does not store it' % (c.name, bo))
    else:
        R.count('payload channels proved')
    if r.vlsd is not None and r.vlsd[0] != ('c', 0):
        once(R, seen, 'bus.vlsd', '%s/%d' % (key, m), r.vlsd[1], 'channel "%s" is not variable length but ToRaw marks the sample as such' % c.name)


# --------------------------------------------------------------- dispatch

SAVE = {'CAN': 'SaveCanMessage', 'LIN': 'SaveLinMessage', 'ETH': 'SaveEthMessage', 'MOST': 'SaveMostMessage', 'FLX': 'SaveFlexRayMessage'}
TYPES = {'MOST': 'mdf::MostMessageType', 'FLX': 'mdf::FlexRayMessageType'}


def dispatch(db, R):
    for bus, fn in SAVE.items():
        fs = [g for i, g in db.funcs.items() if g['n'].endswith('SampleQueue::' + fn)]
        if len(fs) != 1:
            raise facts.AnalysisError('expected one SampleQueue::%s' % fn)
        f = fs[0]
        eng = sym.Engine(db, inline=lambda fid, g, d: (g.get('file') or '').endswith(('samplequeue.cpp', 'samplequeue.h')) and g['n'].split('::')[-1] not in ('AddSample', 'RecalculateTime'), max_depth=4)
        tree = eng.summarize(f, this_cls=f['cls'])
        ad, tab, grp = BUSES[bus]
        en = {'CAN': 'mdf::MessageType', 'LIN': 'mdf::LinMessageType', 'ETH': 'mdf::EthMessageType'}.get(bus, TYPES.get(bus))
        vals = dict(db.enums[en]['c'])
        for suf, (cls, ty) in grp.items():
            for name in ('%s_%s' % (bus, suf), '%s2_%s_77' % (bus, suf)):
                for mt in (vals if bus in TYPES else [ty]):
                    d = Dispatch(tree, name, vals.get(mt))
                    R.count('dispatch cases')
                    want = [vals[mt]] if bus not in TYPES else ([None] if mt == suf or '_' + mt in name else [])
                    got = [t for t, l in d.raw]
                    key = '%s/%s/%s' % (bus, suf, mt)
                    if bus in TYPES and mt != suf:
                        if mt in suf: continue            # a name that contains another record's name
                    if got != want:
                        R.violate('bus.dispatch', key, d.raw[0][1] if d.raw else (f['file'], f['line']),
                                  'a %s message saved to group "%s" is converted as %s, expected %s' % (bus, name, got or 'nothing', want or 'nothing'))
                    elif want and not d.added:
                        R.violate('bus.dispatch', key, (f['file'], f['line']), 'a %s message saved to group "%s" is not queued' % (bus, name))
                    elif want and (not d.timed or not d.stamped):
                        R.violate('bus.dispatch', key, (f['file'], f['line']), 'a %s message saved to group "%s" is queued without its time' % (bus, name))
    # the event classes carry their own type
    for bus, en in TYPES.items():
        ad, tab, grp = BUSES[bus]
        vals = dict(db.enums[en]['c'])
        for suf, (cls, ty) in grp.items():
            for i in db.by_name.get(cls + '::' + cls.split('::')[-1], ()):
                g = db.funcs.get(i)
                if not g or len(g['p']) != 0: continue
                vs = enum_vals(g.get('inits'), en)
                R.count('event types')
                if vs != {vals[suf]}:
                    R.violate('bus.eventtype', cls, (g['file'], g['line']), 'the constructor of %s sets message type %s instead of %s' % (cls, sorted(vs), suf))


def enum_vals(x, en):
    out = set()
    def rec(y):
        if isinstance(y, dict):
            if 'cv' in y and y.get('t') == en and isinstance(y['cv'], int):
                out.add(y['cv']); return
            for v in y.values(): rec(v)
        elif isinstance(y, list):
            for v in y: rec(v)
    rec(x)
    return out


class Dispatch:
    def __init__(self, tree, name, mt):
        self.name = name; self.mt = mt
        self.raw = []; self.added = False; self.timed = False; self.stamped = False
        Walker(self.leaf, self.eff).run(tree)

    def leaf(self, v):
        if v[0] == 'call' and v[1].endswith('::MessageType') and not v[3] and self.mt is not None:
            return ('c', self.mt)
        if v[0] == 'op' and v[1] in ('==', '!='):
            x, y = strip(v[2]), strip(v[3])
            if y[0] == 'call': x, y = y, x
            if x[0] == 'call' and x[1].split('::')[-1] in ('find', 'rfind') and y[0] == 'c' and y[1] in (-1, (1 << 64) - 1) and x[3] and strip(x[3][0])[0] == 's':
                has = strip(x[3][0])[1] in self.name
                return ('c', int(has == (v[1] == '!=')))
        return None

    def eff(self, w, e):
        b = (e.name or '').split('::')[-1]
        if e.k == 'call' and b == 'ToRaw':
            a = strip(w.red(e.args[0]))
            self.raw.append((a[1] if a[0] == 'c' else None, e.loc))
        if e.k == 'call' and b == 'AddSample' and not w.maybe: self.added = True
        if e.k == 'call' and b == 'RecalculateTime' and not w.maybe and 'RecordId' in show(e.args[0]): self.timed = True
        if e.k == 'set' and strip(e.obj)[0] == 'fld' and strip(e.obj)[2] == 'timestamp' and not w.maybe: self.stamped = strip(e.val)[0] == 'parm'
