"""Reader pipeline: every record of the data blocks is consumed completely and in
step with the cursor, counted once, and delivered once - with its own sample
number, record id and bytes - to every observer that subscribed to it."""
from itertools import product
from .. import sym, flow, facts
from ..sym import strip, show
from ..absval import Val, NULL
from .lock_rule import base, D
from .sample_rule import callname

RC = D + 'ReadCache'


class Trace(flow.ValFlow):
    """events of one pass; loops are followed for one round (and for none)"""
    zero = True          # a loop may run no round at all
    names = ()           # calls kept as events

    def __init__(self, oracle):
        def orc(t, V):
            r = oracle(t, V)
            if r is None and t[0] == 'at' and len(t) > 2 and isinstance(t[2], tuple) and t[2][0] == 'lv': return ('ptr', 'elem')
            return r
        self.V = Val(orc)

    def node(self, x, cur):
        if x[0] == 'loop':
            o = flow.Out()
            c = x[1].get('cond')
            do = x[1].get('kind') == 'do'
            ent = set()
            for s in cur:
                ent |= {s} if do or c is None else set(self.cond(c, True, s))
                if not do and self.zero and c is not None: o.n |= set(self.cond(c, False, s))
                elif not do and self.zero and c is None: o.n.add(s)
            r = self.run(x[2], {s + (('round',),) for s in ent})
            o.n |= {s + (('endround', w),) for w, q in (('next', r.n | r.cont), ('break', r.brk)) for s in q}
            o.ret |= r.ret; o.thr |= r.thr
            return o
        return super().node(x, cur)

    def ret(self, v, loc, s):
        return (s + (('ret', None if v is None else self.V.truth(v) if self.boolret else self.V.ev(v)),),)
    boolret = True

    def throws(self, e, s):
        return (s + (('thrown',),),) if e.k == 'call' and base(e.name) in self.can_throw else ()
    can_throw = ()


def one(db, cls, name, n=None):
    fs = [f for f in db.funcs.values() if f.get('cls') == cls and base(f['n']) == name and (n is None or len(f['p']) == n)]
    if not fs: raise facts.AnalysisError('%s::%s not found' % (cls, name))
    return fs[0]


def root_loc(t):
    """the local a .data()/.begin() expression belongs to"""
    t = strip(t)
    while t[0] == 'call' and t[2] is not None: t = strip(t[2])
    while t[0] == 'cast': t = strip(t[2])
    return t


LEN, DATA, INV, ID, OFF = 11, 20, 3, 7, 100


class Rec(Trace):
    """one call of a record parser under a scenario"""
    can_throw = ('GetArray', 'SkipBytes', 'ParseRecordId')

    def __init__(self, s):
        self.s = s
        super().__init__(self.orc)

    def orc(self, t, V):
        s = self.s
        k = t[0]
        if k == 'fld':
            f = t[2]
            if f == 'dg4_block_': return ('ptr', 'dg')
            if f == 'offset_' and t[1] == ('this',): return OFF
            if f == 'size_of_data_record_': return DATA + INV
            if f == 'second' : return ('ptr', 'cg') if s.get('found', 1) else None
            if f == 'callback_': return ('ptr', 'cb')
            if f == 'data_count_' and 'have' in s: return s['have']
            if f == 'max_data_count_' and 'have' in s: return 1000
            if f == 'block_list_': return None
            if f == 'nof_record_id_': return s.get('ids')
            return None
        if k == 'parm' and t[1] in s.get('parm', {}): return s['parm'][t[1]]
        if k == 'op' and t[1] in ('==', '!='):
            a, b = strip(t[2]), strip(t[3])
            m = self.member(a, b) if self.is_end(b) else self.member(b, a) if self.is_end(a) else None
            if m is not None: return int(m == (t[1] == '!='))
        if k == 'call':
            n = callname(t)
            if n == 'ParseRecordId': return ID
            if n in ('FindCgRecordId',): return ('ptr', 'cg') if s.get('found', 1) else NULL
            if n == 'GetCgRange': return ('ptr', 'range') if s.get('found', 1) else NULL
            if n == 'Flags': return int(s.get('vlsd', 0))
            if n == 'Sample': return s['sample']
            if n == 'NofSamples': return s['nof']
            if n == 'RecordId': return ID
            if n == 'NofDataBytes': return DATA
            if n == 'NofInvalidBytes': return INV
            if n == 'NotifySampleObservers': return int(s.get('cont', 1))
            if n == 'IsUsed' and not t[3]: return int(s.get('used', 1))
            if n == 'MinSample': return s.get('lo')
            if n == 'MaxSample': return s.get('hi')
            if n == 'IsReady': return int(s.get('ready', 0))
            if n == 'operator bool' and t[2] is not None and V.ev(t[2]) == ('ptr', 'cb'): return int(s.get('cb', 1))
            if n == 'empty' and t[2] is not None:
                o = show(strip(t[2]))
                if 'Cg4' in o or 'block_list_' in o or 'cg_list' in o: return 0
                if o.endswith('offset_filter_'): return int(not s.get('filter', 0))
            if n == 'size' and t[2] is not None:
                if show(strip(t[2])).endswith('available_cg_list_'): return s.get('groups', 2)
                if strip(t[2])[0] == 'loc' and 'vector' in strip(t[2])[2]: return DATA + INV
            if n in ('contains', 'count') and t[2] is not None: return self.inset(t)
            if n == 'value' and t[2] is not None and 'LittleBuffer' in repr(t[2]): return LEN
            if n == 'sgetn': return s.get('got', DATA + INV)
            if n == 'StepFilePosition': return V.ev(t[3][1])
            if n == 'ReadNumber': return 1
            if n in ('ReadDataRecord', 'ReadRangeDataRecord'): return s.get('read', DATA + INV)
        return None

    def is_end(self, t):
        while t[0] == 'ctor' and len(t[2]) == 1: t = strip(t[2][0])
        return callname(t) in ('cend', 'end')

    def member(self, a, e):
        while a[0] == 'ctor' and len(a[2]) == 1: a = strip(a[2][0])
        if a[0] == 'ite':
            c = self.V.truth(a[1])
            if c is None: return None
            return self.member(strip(a[2] if c else a[3]), e)
        if callname(a) == 'find': return self.inset(a)
        if callname(a) in ('begin', 'cbegin'): return True
        return None

    def inset(self, t):
        o = show(strip(t[2])); k = self.V.ev(t[3][0])
        if o.endswith('available_cg_list_'): return k == ID and bool(self.s.get('found', 1))
        if o.endswith('record_id_list_'): return k == ID and bool(self.s.get('sub', 1))
        if o.endswith('offset_filter_'): return k == OFF and self.s.get('filter', 0) == 'hit'
        return None

    def eff(self, e, s):
        n = base(e.name)
        V = self.V
        if e.k == 'decl' and e.obj is not None:
            o = strip(e.obj)
            if o[0] == 'loc' and 'vector' in o[2]: return (s + (('vec', o, V.ev(e.args[0]) if e.args else 0),),)
            return (s,)
        if e.k == 'set' and e.obj is not None and strip(e.obj)[0] == 'fld' and strip(e.obj)[2] == 'offset_':
            v = V.ev(e.val)
            return (s + (('off', None if v is None else v - OFF, e.loc),),)
        if e.k == 'lset' and e.name == 'count': return (s + (('count', V.ev(e.val)),),)
        if e.k != 'call': return (s,)
        if n == 'resize' and strip(e.obj)[0] == 'loc': return (s + (('vec', strip(e.obj), V.ev(e.args[0])),),)
        if n == 'GetArray':
            o = strip(e.args[0])
            return (s + (('get', o, self.vsize(s, o)),),)
        if n == 'sgetn':
            o = root_loc(e.args[0])
            z = strip(e.args[1])
            return (s + (('get', o, self.vsize(s, o) if callname(z) == 'size' else V.ev(z)),),)
        if n in ('SkipBytes', 'StepFilePosition'):
            return (s + (('skip', None, V.ev(e.args[-1])),),)
        if n == 'NotifySampleObservers':
            o = strip(e.args[2])
            return (s + (('notify', V.ev(e.args[0]), V.ev(e.args[1]), o, self.vsize(s, o), e.loc),),)
        if n == 'IncrementSample': return (s + (('inc',),),)
        if n == 'Sample': return (s + (('sample',),),)
        if n == 'ParseRecordId': return (s + (('id',),),)
        if n == 'IsUsed' and e.args: return (s + (('used', V.ev(e.args[0])),),)
        if n in ('operator()', 'invoke') and e.obj is not None and V.ev(e.obj) == ('ptr', 'cb'):
            o = strip(e.args[1])
            return (s + (('cb', V.ev(e.args[0]), o, self.vsize(s, o), e.loc),),)
        if n == 'ReadNumber': return (s + (('id',),),)
        if n in ('ReadDataRecord', 'ReadRangeDataRecord'): return (s + (('rec', V.ev(e.obj)),),)
        if n == 'ResetSampleCounter': return (s + (('reset',),),)
        return (s,)

    def vsize(self, s, o):
        for x in reversed(s):
            if x[0] == 'vec' and x[1] == o: return x[2]
        return None


class Chk:
    def __init__(self, R): self.R = R; self.seen = set()

    def bad(self, rule, key, loc, msg):
        if (rule, key) in self.seen: return
        self.seen.add((rule, key))
        self.R.violate(rule, key, loc, msg)


def payload(tr, want_len, vl):
    """(consumed bytes of the record, last vector filled)"""
    tot = 0
    last = None
    for x in tr:
        if x[0] in ('get', 'skip'):
            if x[2] is None: return None, None
            tot += x[2]
            if x[0] == 'get': last = (x[1], x[2])
    return tot, last


def check_trace(K, f, name, tr, s, notify, inc, vl, total, retv, rule='read'):
    loc = (f['file'], f['line'])
    nm = name
    d = ', '.join('%s=%s' % x for x in sorted(s.items()) if x[0] not in ('parm',))
    tot, last = payload(tr, None, vl)
    if tot != total:
        K.bad('read.consume', nm, loc, '%s consumes %s bytes of a record of %s bytes (%s)' % (f['n'], tot, total, d))
        return
    incs = sum(1 for x in tr if x == ('inc',))
    if inc is not None and incs != inc:
        K.bad('read.count', nm, loc, '%s counts a record %d times, expected %d (%s)' % (f['n'], incs, inc, d))
    ns = [(i, x) for i, x in enumerate(tr) if x[0] == 'notify']
    if notify is not None and len(ns) != notify:
        K.bad('read.deliver', nm, loc, '%s delivers a record %d times, expected %d (%s)' % (f['n'], len(ns), notify, d))
    for i, x in ns:
        pre = tr[:i]
        sm = max([j for j, y in enumerate(pre) if y == ('sample',)], default=-1)
        ic = max([j for j, y in enumerate(pre) if y == ('inc',)], default=-1)
        if x[1] != s['sample'] or (ic != -1 and sm > ic):
            K.bad('read.number', nm, x[5], '%s delivers a record with another sample number than its own' % f['n'])
        if x[2] != ID:
            K.bad('read.number', nm + '/id', x[5], '%s delivers a record with another record id than its own' % f['n'])
        want = LEN if vl else DATA + INV
        if last is None or x[3] != last[0] or x[4] != want or last[1] != want:
            K.bad('read.bytes', nm, x[5], '%s delivers %s bytes instead of the %d bytes of the record (%s)' % (f['n'], x[4], want, d))
    if retv is not None:
        r = [x for x in tr if x[0] == 'ret']
        if r and r[-1][1] is not None and r[-1][1] != retv:
            K.bad('read.stop', nm, loc, '%s returns %s, expected %s (%s)' % (f['n'], r[-1][1], retv, d))


def parsers(db, R, K):
    own = ('GetArray', 'SkipBytes', 'ParseRecordId', 'GetNextByte')
    eng = sym.Engine(db, inline=lambda fid, g, d: g.get('cls') == RC and base(g['n']) not in own, max_depth=3)
    # --- whole groups
    f = one(db, RC, 'ParseRecord'); R.analysed(f)
    t = eng.summarize(f)
    for found, groups, vlsd, sub, (sample, nof), cont in product((1, 0), (2, 1), (0, 1), (1, 0), ((0, 5), (4, 5), (5, 5)), (1, 0)):
        if not found and (groups == 1 or vlsd or not sub or sample or not cont): continue
        s = dict(found=found, groups=groups, vlsd=vlsd, sub=sub, sample=sample, nof=nof, cont=cont, have=0)
        p = Rec(s)
        o = p.run(t, {()})
        R.count('record scenarios')
        for tr in o.ret | o.n:
            if any(x == ('thrown',) for x in tr):
                if [x for x in tr if x[0] == 'ret'][-1][1] is not False:
                    K.bad('read.stop', 'ParseRecord/throw', (f['file'], f['line']), 'ParseRecord goes on after a failed read')
                continue
            if not found:
                if any(x[0] in ('get', 'skip', 'notify', 'inc') for x in tr): K.bad('read.deliver', 'ParseRecord/unknown', (f['file'], f['line']), 'ParseRecord uses a record of an unknown group')
                if [x for x in tr if x[0] == 'ret'][-1][1] is not False: K.bad('read.stop', 'ParseRecord/unknown', (f['file'], f['line']), 'ParseRecord goes on after a record of an unknown group')
                continue
            due = sub and sample < nof
            check_trace(K, f, 'ParseRecord', tr, s, int(due), int(sample < nof), vlsd, 4 + LEN if vlsd else DATA + INV, bool(cont) if due else True)
        if not (o.ret | o.n): K.bad('read.deliver', 'ParseRecord/none', (f['file'], f['line']), 'ParseRecord never returns')
    # end of data
    p = Rec(dict(sample=0, nof=5, have=1000)); o = p.run(t, {()})
    for tr in o.ret | o.n:
        if any(x[0] in ('get', 'skip', 'id') for x in tr) or [x for x in tr if x[0] == 'ret'][-1][1] is not False:
            K.bad('read.stop', 'ParseRecord/end', (f['file'], f['line']), 'ParseRecord reads beyond the end of the data')
    p = Rec(dict(sample=0, nof=5, have=999)); o = p.run(t, {()})
    for tr in o.ret | o.n:
        if not any(x[0] in ('id', 'thrown') for x in tr): K.bad('read.stop', 'ParseRecord/early', (f['file'], f['line']), 'ParseRecord stops before the end of the data')
    # --- ranges
    f = one(db, RC, 'ParseRangeRecord'); R.analysed(f)
    t = eng.summarize(f)
    rng = [(a, 5, lo, hi) for a in (0, 1, 2, 3, 4, 5) for lo, hi in ((2, 4), (0, 1), (3, 3))]
    for vlsd, sub, used, (sample, nof, lo, hi), cont, ready in product((0, 1), (1, 0), (1, 0), rng, (1, 0), (0, 1)):
        if not sub and used and False: continue
        s = dict(found=1, groups=2, vlsd=vlsd, sub=sub, used=used, sample=sample, nof=nof, lo=lo, hi=hi, cont=cont, ready=ready, have=0)
        p = Rec(s)
        o = p.run(t, {()})
        R.count('range scenarios')
        inside = used and sub and lo <= sample + 1 <= hi
        for tr in o.ret | o.n:
            if any(x == ('thrown',) for x in tr): continue
            due = inside and sample < nof
            check_trace(K, f, 'ParseRangeRecord', tr, s, int(due), int(sample < nof), vlsd, 4 + LEN if vlsd else DATA + INV, (False if due and not cont else not ready))
            u = [x for x in tr if x[0] == 'used']
            if any(x[1] != 0 for x in u) or (u and sample + 1 <= hi) or (used and sub and not u and sample + 1 > hi):
                K.bad('read.range', 'ParseRangeRecord', (f['file'], f['line']), 'ParseRangeRecord marks a group as read %s the end of the range' % ('before' if u else 'not at'))
    p = Rec(dict(sample=0, nof=5, have=1000)); o = p.run(t, {()})
    for tr in o.ret | o.n:
        if any(x[0] in ('get', 'skip', 'id') for x in tr): K.bad('read.stop', 'ParseRangeRecord/end', (f['file'], f['line']), 'ParseRangeRecord reads beyond the end of the data')
    # --- signal data
    eng.track = ('offset_',)
    for nm in ('ParseSignalData', 'ParseVlsdCgData', 'ParseSignalDataOffset'):
        f = one(db, RC, nm); R.analysed(f)
        t = eng.summarize(f)
        for filt, cb, vlsd, sub in product((0, 'hit', 'miss'), (1, 0), (1, 0), (1, 0)):
            cg = nm == 'ParseVlsdCgData'
            if not cg and not (vlsd and sub): continue
            if nm == 'ParseSignalDataOffset' and filt == 'miss': continue
            s = dict(filter=filt, cb=cb, vlsd=vlsd, sub=sub, sample=0, nof=5, found=1, have=0)
            if nm == 'ParseSignalDataOffset': s['parm'] = {f['p'][0]['n']: OFF}
            p = Rec(s); p.zero = False
            o = p.run(t, {()})
            R.count('signal data scenarios')
            d = ', '.join('%s=%s' % x for x in sorted(s.items()) if x[0] != 'parm')
            trs = o.ret | o.n
            if not trs: K.bad('read.signal', nm + '/none', (f['file'], f['line']), '%s never returns' % f['n'])
            for tr in trs:
                if any(x == ('thrown',) for x in tr): continue
                if not any(x[0] in ('get', 'skip') for x in tr):
                    K.bad('read.signal', nm + '/early', (f['file'], f['line']), '%s stops before the end of the data' % f['n']); continue
                tot, last = payload(tr, None, 1)
                want = 4 + LEN if (vlsd or not cg) else DATA + INV
                if tot != want: K.bad('read.consume', nm, (f['file'], f['line']), '%s consumes %s bytes of an item of %d bytes (%s)' % (f['n'], tot, want, d)); continue
                mine = vlsd and sub
                offs = [x for x in tr if x[0] == 'off']
                step = sum(x[1] if x[1] is not None else -999999 for x in offs)
                if step != (4 + LEN if mine else 0):
                    K.bad('read.offset', nm, offs[0][2] if offs else (f['file'], f['line']), '%s moves the signal data offset by %s, expected %d (%s)' % (f['n'], step, 4 + LEN if mine else 0, d))
                cbs = [x for x in tr if x[0] == 'cb']
                due = int(bool(mine and cb and filt != 'miss'))
                if len(cbs) != due: K.bad('read.signal', nm, (f['file'], f['line']), '%s hands an item over %d times, expected %d (%s)' % (f['n'], len(cbs), due, d))
                for x in cbs:
                    if x[1] != OFF: K.bad('read.offset', nm + '/cb', x[4], '%s hands an item over with another offset than its own' % f['n'])
                    if last is None or x[2] != last[0] or x[3] != LEN: K.bad('read.bytes', nm, x[4], '%s hands over %s bytes instead of the %d bytes of the item' % (f['n'], x[3], LEN))
                if filt == 'miss' and mine or cg and not mine:
                    if any(x == ('endround', 'break') for x in tr): K.bad('read.signal', nm + '/skip', (f['file'], f['line']), '%s stops at an item that is not asked for' % f['n'])
    # --- MDF3
    C3, D3 = D + 'Cg3Block', D + 'Dg3Block'
    eng3 = sym.Engine(db, inline=lambda fid, g, d: g.get('cls') == C3 and base(g['n']) not in ('Sample', 'NofSamples', 'RecordId', 'IncrementSample', 'ResetSampleCounter', 'NofDataBytes', 'ReadDataRecord', 'ReadRangeDataRecord') or g.get('cls') == D3 and base(g['n']) not in ('FindCgRecordId', 'ReadNumber', 'Cg3', 'NofRecordId'), max_depth=2)
    for nm, ranged in (('ReadDataRecord', 0), ('ReadRangeDataRecord', 1)):
        f = one(db, C3, nm); R.analysed(f)
        t = eng3.summarize(f)
        for (sample, nof, lo, hi), used, cont, got in product(rng if ranged else [(0, 5, 0, 9), (4, 5, 0, 9), (5, 5, 0, 9)], (1, 0) if ranged else (1,), (1, 0), (DATA + INV, 5)):
            s = dict(sample=sample, nof=nof, lo=lo, hi=hi, used=used, cont=cont, got=got)
            p = Rec(s); p.boolret = False
            o = p.run(t, {()})
            R.count('MDF3 record scenarios')
            inside = not ranged or used and lo <= sample + 1 <= hi
            for tr in o.ret | o.n:
                if inside and got != DATA + INV:
                    if any(x[0] == 'notify' for x in tr): K.bad('read.bytes', nm + '/short', (f['file'], f['line']), '%s delivers a record that was not read completely' % f['n'])
                    continue
                due = inside and sample < nof
                check_trace(K, f, 'Cg3Block::' + nm, tr, s, int(bool(due)), int(sample < nof), 0, DATA + INV, 0 if due and not cont else DATA + INV)
                if ranged:
                    u = [x for x in tr if x[0] == 'used']
                    if any(x[1] != 0 for x in u) or (u and sample + 1 <= hi) or (used and not u and sample + 1 > hi):
                        K.bad('read.range', nm, (f['file'], f['line']), '%s marks a group as read %s the end of the range' % (f['n'], 'before' if u else 'not at'))
    for nm in ('ParseDataRecords', 'ParseRangeDataRecords'):
        f = one(db, D3, nm); R.analysed(f)
        t = eng3.summarize(f)
        for ids, read, ready in product((0, 1, 2), (DATA + INV, 0), (0, 1)):
            s = dict(ids=ids, read=read, ready=ready, sample=0, nof=5, found=1, parm={f['p'][1]['n']: 1000})
            p = Rec(s); p.zero = False
            o = p.run(t, {()})
            R.count('MDF3 group scenarios')
            for tr in o.ret | o.n:
                i = max([j for j, x in enumerate(tr) if x == ('round',)], default=None)
                recs = [j for j, x in enumerate(tr) if x[0] == 'rec']
                if i is None or len(recs) != 1:
                    K.bad('read.deliver', nm, (f['file'], f['line']), '%s reads %d records in a round (%d id bytes)' % (f['n'], len(recs), ids)); continue
                if ('reset',) not in tr[:i]: K.bad('read.number', nm + '/reset', (f['file'], f['line']), '%s does not reset the sample counters first' % f['n'])
                r = recs[0]
                a = sum(1 for x in tr[i:r] if x == ('id',)); b = sum(1 for x in tr[r:] if x == ('id',))
                ok = (a, b) == ((0, 0), (1, 0), (1, 1))[ids] or read == 0 and a == min(ids, 1)
                if not ok: K.bad('read.consume', nm, (f['file'], f['line']), '%s reads %d record id before and %d after the data, the data group has %d' % (f['n'], a, b, ids))
                end = tr[-1] if tr[-1][0] == 'endround' else next((x for x in reversed(tr) if x[0] == 'endround'), None)
                if read == 0 and end != ('endround', 'break') : K.bad('read.stop', nm, (f['file'], f['line']), '%s goes on after a record that could not be read' % f['n'])
                if read and not (ready and 'Range' in nm) and end == ('endround', 'break'): K.bad('read.stop', nm + '/early', (f['file'], f['line']), '%s stops before the end of the data' % f['n'])
        # all bytes are counted
        s = dict(ids=2, read=DATA + INV, ready=0, sample=0, nof=5, found=1, parm={f['p'][1]['n']: 1000})
        class Cnt(Rec):
            def orc(self, t, V):
                if t[0] == 'opq' and t[1] == 'loopvar': return 500
                return super().orc(t, V)
        for ids in (0, 1, 2):
            s['ids'] = ids
            p = Cnt(s); p.zero = False
            for tr in (lambda o: o.ret | o.n)(p.run(t, {()})):
                c = [x for x in tr if x[0] == 'count']
                if not c or c[-1][1] not in (500 + ids + DATA + INV, None):
                    K.bad('read.consume', nm + '/count', (f['file'], f['line']), '%s counts %s bytes for a record of %d bytes' % (f['n'], c and c[-1][1] - 500, ids + DATA + INV))


def record_id(db, R, K):
    f = one(db, RC, 'ParseRecordId'); R.analysed(f)
    eng = sym.Engine(db, inline=lambda fid, g, d: g.get('cls') == RC and base(g['n']) not in ('GetArray', 'SkipBytes', 'GetNextByte'), max_depth=2)
    t = eng.summarize(f)
    for n in (0, 1, 2, 4, 8, 3):
        class P(Rec):
            def orc(self, t, V):
                if callname(t) == 'RecordIdSize': return n
                if t[0] == 'fld' and t[2] == 'dg4_block_': return ('ptr', 'dg')
                return None
            def ret(self, v, loc, s): return (s + (('rv', strip(v)),),)
        p = P({})
        o = p.run(t, {()})
        R.count('record id widths')
        loc = (f['file'], f['line'])
        if n == 3:
            if o.ret: K.bad('read.recordid', 'invalid', loc, 'ParseRecordId accepts a record id size of 3')
            continue
        if not o.ret: K.bad('read.recordid', str(n), loc, 'ParseRecordId does not handle a record id of %d bytes' % n)
        for tr in o.ret:
            if any(x == ('thrown',) for x in tr): continue
            tot, last = payload(tr, None, 0)
            rv = tr[-1][1]
            if tot != n: K.bad('read.recordid', str(n), loc, 'ParseRecordId consumes %s bytes for a record id of %d bytes' % (tot, n)); continue
            if n == 0:
                alts = leaves(rv)
                if any(a[0] == 'c' and a != ('c', 0) or a[0] != 'c' and callname(a) != 'RecordId' for a in alts) or not any(callname(a) == 'RecordId' for a in alts):
                    K.bad('read.recordid', '0', loc, 'ParseRecordId does not use the id of the only group when there is no record id')
            elif n == 1:
                if not (rv[0] == 'at' or callname(rv) in ('operator[]', 'at', 'front', 'value')): K.bad('read.recordid', '1', loc, 'ParseRecordId returns %s for one id byte' % show(rv))
            else:
                W = {2: 'unsigned short', 4: 'unsigned int', 8: 'unsigned long'}[n]
                if not (callname(rv) == 'value' and ('LittleBuffer<%s>' % W in rv[1] or 'LittleBuffer<%s>' % W in repr(rv[2]))):
                    K.bad('read.recordid', str(n), loc, 'ParseRecordId returns %s for %d id bytes' % (show(rv), n))
    f = one(db, D + 'Dg4Block', 'ReadRecordId'); R.analysed(f)
    t = sym.Engine(db, inline=lambda *a: False, max_depth=0).summarize(f)
    W = {1: 'unsigned char', 2: 'unsigned short', 4: 'unsigned int', 8: 'unsigned long'}
    for n in (0, 1, 2, 4, 8):
        class Q(Trace):
            def eff(self, e, s):
                if e.k == 'call' and base(e.name) == 'ReadNumber':
                    o = strip(e.args[1])
                    return (s + (('num', o[2] if o[0] == 'loc' else show(o)),),)
                return (s,)
        q = Q(lambda t, V: n if t[0] == 'fld' and t[2] == 'rec_id_size_' or callname(t) == 'RecordIdSize' else None)
        o = q.run(t, {()})
        R.count('record id widths')
        for tr in o.ret | o.n:
            got = [x[1] for x in tr if x[0] == 'num']
            if len(got) != (1 if n else 0) or n and W[n] not in got[0]:
                K.bad('read.recordid', 'ReadRecordId/%d' % n, (f['file'], f['line']), 'ReadRecordId reads %s for a record id of %d bytes' % (got, n))


def leaves(t):
    t = strip(t)
    if t[0] == 'ite': return leaves(t[2]) + leaves(t[3])
    return [t]


def flat(t):
    """linear multiset of a sum: {term: coef}"""
    out = {}
    def go(x, k):
        x = strip(x)
        if x[0] == 'op' and x[1] == '+': go(x[2], k); go(x[3], k)
        elif x[0] == 'op' and x[1] == '-': go(x[2], k); go(x[3], -k)
        elif x[0] == 'un' and x[1] == '-': go(x[2], -k)
        elif x[0] == 'op' and x[1] == '*' and x[2][0] == 'c': go(x[3], k * x[2][1])
        elif x[0] == 'c': out['1'] = out.get('1', 0) + k * x[1]
        else: out[x] = out.get(x, 0) + k
    go(t, 1)
    return {a: b for a, b in out.items() if b}


def diff(a, b):
    r = dict(flat(a))
    for k, v in flat(b).items():
        r[k] = r.get(k, 0) - v
    return tuple(sorted(((show(k) if isinstance(k, tuple) else k), v) for k, v in r.items() if v))


class Cursor(flow.ValFlow):
    """file_index_ / data_count_ / block switch bookkeeping.
    state: (pending count deltas as multiset, block phase, bytes taken)"""
    def __init__(self, dz, direct):
        self.dz, self.direct = dz, direct
        self.V = Val(self.orc)
        self.viol = []

    def orc(self, t, V):
        if t[0] == 'op' and t[1] in ('==', '!='):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if callname(strip(a)) == 'BlockType':
                    b = strip(b)
                    lit = b[1] if b[0] in ('s', 'c') else None
                    if lit is not None: return int((str(lit) == ('DZ' if self.dz else 'DT')) == (t[1] == '=='))
        if callname(t) == 'empty' and show(strip(t[2])).endswith('file_buffer_'): return int(self.direct)
        if t[0] == 'at' and show(t).startswith('block_list_'): return ('ptr', 'block')
        if callname(t) in ('operator[]', 'at') and t[2] is not None and show(strip(t[2])).endswith('block_list_'): return ('ptr', 'block')
        return None


def cursor(db, R, K):
    eng = sym.Engine(db, inline=lambda fid, g, d: g.get('cls') == RC and base(g['n']) not in ('GetNextByte', 'GetArray', 'SkipBytes'), max_depth=3)
    trees = {}
    for nm in ('GetArray', 'GetNextByte', 'SkipBytes'):
        f = one(db, RC, nm); R.analysed(f)
        trees[nm] = (f, eng.summarize(f))
    NUMF = ('file_index_', 'data_count_', 'data_size_', 'block_index_')

    class Ev(Trace):
        def __init__(s, dz, direct, nm):
            c = Cursor(dz, direct)
            s.direct, s.dz, s.nm = direct, dz, nm
            Trace.__init__(s, c.orc)
            c.V = s.V

        def eff(s, e, st):
            n = base(e.name)
            o = strip(e.obj) if e.obj is not None else None
            if e.k == 'set' and o is not None and o[0] == 'fld' and o[2] in NUMF:
                d = diff(e.val, o)
                if o[2] in ('file_index_', 'data_size_') and strip(e.val) == ('c', 0): return (st + (('zero', o[2]),),)
                if o[2] == 'data_size_': return (st + (('size', callname(strip(e.val)) == 'DataSize'),),)
                return (st + (('add', o[2], d, e.loc),),)
            if e.k == 'lset' and 'skip' in e.name or e.k == 'lset' and e.name in [p['n'] for p in trees[s.nm][0]['p']]:
                return (st + (('left', strip(e.val), e.loc),),)
            if e.k != 'call': return (st,)
            if n in ('sbumpc', 'sgetc', 'snextc'): return (st + (('byte', n),),)
            if n == 'sgetn': return (st + (('bytes', strip(e.args[1])),),)
            if n in ('copy_n',): return (st + (('copy', show(strip(e.args[0])), strip(e.args[1])),),)
            if n == 'StepFilePosition': return (st + (('step', strip(e.args[1])),),)
            if n == 'GetNextByte': return (st + (('next',),),)
            if n == 'resize' and o is not None and show(o).endswith('file_buffer_'): return (st + (('resize', 'data_size_' in show(strip(e.args[0])) or 'DataSize' in show(strip(e.args[0]))),),)
            if n == 'clear' and o is not None and show(o).endswith('file_buffer_'): return (st + (('clear',),),)
            if n == 'CopyDataToBuffer': return (st + (('fill',),),)
            if n == 'SetFilePosition': return (st + (('seek', callname(strip(e.args[1])) == 'DataPosition'),),)
            return (st,)

        def cond(s, c, taken, st):
            # re-evaluated emptiness after clear()/resize()
            t = s.V.truth(c)
            cc = strip(c); neg = False
            while cc[0] == 'un' and cc[1] == '!': cc = strip(cc[2]); neg = not neg
            if callname(cc) == 'empty' and show(strip(cc[2])).endswith('file_buffer_'):
                v = s.direct
                for x in st:
                    if x[0] == 'clear': v = 1
                    if x[0] == 'resize': v = 0
                return (st,) if (bool(v) != neg) == taken else ()
            rv = [x[2] for x in st if x[0] == 'rv' and x[1] == cc]
            if t is None and rv and rv[-1] is not None and rv[-1][0] == 'c': t = bool(rv[-1][1]) != neg
            return (st,) if t is None or t == taken else ()

        def throws(s, e, st): return ()

        def ret(s, v, loc, st): return (st + (('ret', None if v is None else strip(v)),),)

        def back(s, x, st):
            # the value an inlined helper returned on this path
            if st and st[-1][0] == 'ret': return st[:-1] + ((('rv', x[5], st[-1][1]),) if len(x) > 5 else ())
            return st

    for nm, (f, t) in trees.items():
        loc = (f['file'], f['line'])
        for dz, direct in product((0, 1), (0, 1)):
            p = Ev(dz, direct, nm)
            p.zero = True
            o = p.run(t, {()})
            R.count('cursor scenarios')
            for tr in o.ret | o.n:
                tr = tuple(tr)
                rv = tr[-1][1] if tr and tr[-1][0] == 'ret' else None
                if nm == 'GetNextByte' and rv == ('c', 0): continue
                R.count('cursor paths')
                idx = [x for x in tr if x[0] == 'add' and x[1] == 'file_index_']
                cnt = [x for x in tr if x[0] == 'add' and x[1] == 'data_count_']
                blk = [i for i, x in enumerate(tr) if x[0] == 'add' and x[1] == 'block_index_']
                for i in blk:
                    if tr[i][2] != (('1', 1),): K.bad('read.blocks', nm, tr[i][3], '%s does not step to the next data block' % f['n'])
                if nm == 'GetNextByte':
                    if ('next',) in tr and not idx and not cnt: continue          # next block
                    if [x[2] for x in idx] != [(('1', 1),)] or [x[2] for x in cnt] != [(('1', 1),)]:
                        K.bad('read.cursor', nm, loc, '%s hands out a byte and moves the cursor by %s and the byte count by %s' % (f['n'], [x[2] for x in idx], [x[2] for x in cnt]))
                    fill = switched(tr, blk)
                    now_direct = fill if fill is not None else direct
                    got = sum(1 for x in tr if x == ('byte', 'sbumpc'))
                    if any(x[0] == 'byte' and x[1] != 'sbumpc' for x in tr) or got != (1 if now_direct else 0):
                        K.bad('read.cursor', nm + '/byte', loc, '%s takes %d bytes from the file for one byte handed out' % (f['n'], got))
                elif nm == 'GetArray':
                    if ('next',) in tr:
                        if idx or cnt: K.bad('read.cursor', nm + '/slow', loc, '%s moves the cursor beside GetNextByte' % f['n'])
                        continue
                    if any(x == ('round',) for x in tr) or not idx and not cnt and not any(x[0] in ('bytes', 'copy') for x in tr):
                        continue
                    sz = [x for x in tr if x[0] in ('bytes', 'copy')]
                    if len(sz) != 1 or (sz[0][0] == 'bytes') != bool(direct):
                        K.bad('read.cursor', nm + '/source', loc, '%s does not take the bytes from the current data block' % f['n']); continue
                    if sz[0][0] == 'copy' and 'file_index_' not in sz[0][1]: K.bad('read.cursor', nm + '/from', loc, '%s copies from %s, not from the current position' % (f['n'], sz[0][1]))
                    n = ((show(sz[0][-1]), 1),)
                    if [x[2] for x in idx] != [n] or [x[2] for x in cnt] != [n]:
                        K.bad('read.cursor', nm, loc, '%s takes %s bytes and moves the cursor by %s and the byte count by %s' % (f['n'], show(sz[0][-1]), [x[2] for x in idx], [x[2] for x in cnt]))
                else:
                    skip_path(K, f, tr, direct, dz, blk, idx, cnt)
                for i in blk:
                    if nm != 'SkipBytes' and nm == 'GetNextByte' and switched(tr, blk) is None and len(blk) == 1:
                        K.bad('read.blocks', nm + '/setup', loc, '%s enters a data block without setting up its source' % f['n'])
    # end of file and end of data are noticed
    f, t = trees['GetArray']
    if not any(x[0] == 'throw' for x in sym.walk(t)): K.bad('read.eof', 'GetArray', (f['file'], f['line']), 'GetArray does not report the end of the data')
    f, t = trees['GetNextByte']
    for v in (-1, 0x41):
        p = Ev(0, 1, 'GetNextByte')
        old = p.V.oracle
        p.V.oracle = lambda x, V: v if callname(x) == 'sbumpc' else old(x, V)
        o = p.run(t, {()})
        for tr in o.ret | o.n:
            blk = [i for i, x in enumerate(tr) if x[0] == 'add' and x[1] == 'block_index_']
            ok = tr[-1] != ('ret', ('c', 0)) if tr else False
            if v == -1 and ok and ('byte', 'sbumpc') in tr: K.bad('read.eof', 'GetNextByte', (f['file'], f['line']), 'GetNextByte hands out the end of the file as a byte')
            if v != -1 and not ok and switched(tr, blk) is not None: K.bad('read.blocks', 'GetNextByte/empty', (f['file'], f['line']), 'GetNextByte gives up at a data block although there may be more')
    f, t = trees['GetArray']
    p = Ev(0, 1, 'GetArray')
    old = p.V.oracle
    p.V.oracle = lambda x, V: 5 if callname(x) == 'sgetn' else 23 if callname(x) == 'size' and strip(x[2])[0] == 'parm' else 0 if x[0] == 'fld' and x[2] == 'file_index_' else 1000 if x[0] == 'fld' and x[2] == 'data_size_' else old(x, V)
    o = p.run(t, {()})
    if any(any(x[0] == 'bytes' for x in tr) for tr in o.ret | o.n): K.bad('read.eof', 'GetArray/short', (f['file'], f['line']), 'GetArray hands out a record that was not read completely')
    for nm in ('GetArray',):
        f, t = trees[nm]
        if any(x[0] == 'if' and any(callname(y) == 'GetNextByte' for y in sym.find_all(strip(x[1]), lambda z: z[0] == 'call')) for x in sym.walk(t)) is False:
            K.bad('read.eof', nm + '/next', (f['file'], f['line']), '%s ignores that there is no next byte' % f['n'])


def switched(tr, blk):
    """after the last block switch: True = direct, False = buffered, None = no (complete) switch"""
    if not blk: return None
    ev = tr[max(0, blk[-1] - 4):]
    zero = ('zero', 'file_index_') in ev
    size = any(x == ('size', True) for x in ev)
    if ('clear',) in ev and ('seek', True) in ev and zero and size and ('fill',) not in ev: return True
    if ('resize', True) in ev and ('fill',) in ev and zero and size: return False
    return None


def skip_path(K, f, tr, direct, dz, blk, idx, cnt):
    loc = (f['file'], f['line'])
    nm = 'SkipBytes'
    par = ('parm', f['p'][0]['n'])
    steps = [x for x in tr if x[0] == 'step']
    if not blk and not any(x[0] == 'left' for x in tr):
        n = ((show(par), 1),)
        if [x[2] for x in idx] != [n] or [x[2] for x in cnt] != [n]:
            K.bad('read.cursor', nm, loc, '%s skips %s bytes and moves the cursor by %s and the byte count by %s' % (f['n'], show(par), [x[2] for x in idx], [x[2] for x in cnt]))
        if direct and (len(steps) != 1 or steps[0][1] != par): K.bad('read.cursor', nm + '/step', loc, '%s does not step over the bytes in the file' % f['n'])
        return
    # bytes taken off the remaining count are the bytes counted
    lefts = [x for x in tr if x[0] == 'left']
    adds = sorted(x[2] for x in cnt)
    off = []
    for x in lefts:
        d = dict(flat(x[1]))
        # previous value of the counter has coefficient 1
        prev = [k for k in d if isinstance(k, tuple) and d[k] == 1 and (k == par or k[0] == 'opq')]
        if len(prev) != 1:
            K.bad('read.cursor', nm + '/left', x[2], '%s changes the number of bytes to skip in an unknown way' % f['n']); return
        d.pop(prev[0])
        off.append(tuple(sorted(((show(k) if isinstance(k, tuple) else k), -v) for k, v in d.items())))
    rest = list(adds)
    for o in off:
        if o in rest: rest.remove(o)
        else:
            K.bad('read.cursor', nm + '/count', loc, '%s skips %s bytes without counting them' % (f['n'], o)); return
    tail = [x[2] for x in idx]
    if rest != tail or len(tail) > 1:
        K.bad('read.cursor', nm + '/tail', loc, '%s moves the cursor by %s and the byte count by %s in the last data block' % (f['n'], tail, rest)); return
    sw = switched(tr, blk)
    if tail and blk and sw is True and (len(steps) != 1 or ((show(steps[0][1]), 1),) != tail[0]):
        K.bad('read.cursor', nm + '/step', loc, '%s does not step over the skipped bytes of the last data block' % f['n'])


# --- data groups -----------------------------------------------------------
def groups(db, R, K):
    D4, D3 = D + 'Dg4Block', D + 'Dg3Block'
    keep = ('InitFastObserverList', 'ReadSignalData', 'ReadData', 'ParseRecord', 'ParseRangeRecord', 'ResetSampleCounter', 'Find', 'Cg4', 'Channels', 'IsSubscribingOnChannel', 'IsSubscribingOnChannelVlsd', 'DataBlockList', 'ClearData', 'Cg3')
    eng = sym.Engine(db, inline=lambda fid, g, d: g.get('cls') == D4 and base(g['n']) not in keep, max_depth=2)
    types = {c[0]: c[1] for q, en in db.enums.items() if q.endswith('ChannelType') for c in en['c']}
    if 'VariableLength' not in types: raise facts.AnalysisError('ChannelType not found')
    for nm, parse in (('ReadData', 'ParseRecord'), ('ReadRangeData', 'ParseRangeRecord')):
        f = one(db, D4, nm); R.analysed(f)
        t = eng.summarize(f)
        for bt, ty, sub, subv, used in product(('SD', 'DZ', 'DL', 'HL', 'CG'), ('VariableLength', 'FixedLength'), (1, 0), (1, 0), (1, 0)):
            if nm == 'ReadData' and not used: continue
            class G(Trace):
                zero = False
                def eff(self, e, s):
                    n = base(e.name)
                    if e.k == 'call' and n in ('InitFastObserverList', 'ReadSignalData', parse, 'ResetSampleCounter') or e.k == 'call' and n == 'ReadData' and 'Sr4' in e.name or e.k == 'ctor' and 'ReadCache' in e.name:
                        return (s + ((n,),),)
                    if e.k == 'decl' and 'ReadCache' in e.name: return (s + (('ReadCache',),),)
                    return (s,)
            def orc(t, V):
                if t[0] == 'op' and t[1] in ('==', '!='):
                    for a, b in ((t[2], t[3]), (t[3], t[2])):
                        if callname(strip(a)) == 'BlockType':
                            b = strip(b)
                            if b[0] in ('s', 'c'): return int((str(b[1]) == bt) == (t[1] == '=='))
                n = callname(t)
                if n == 'Type' : return types[ty]
                if n == 'IsSubscribingOnChannel': return sub
                if n == 'IsSubscribingOnChannelVlsd': return subv
                if n == 'IsUsed': return used
                if n == 'DataLink': return 64
                if n == 'Find': return ('ptr', 'b')
                if n == 'empty': return 0
                if t[0] == 'at' or t[0] == 'elem' or t[0] == 'dyncast' or n == 'operator bool': return ('ptr', 'x')
                if t[0] == 'loc' and '*' in t[2]: return ('ptr', 'x')
                return None
            g = G(orc)
            o = g.run(t, {()})
            R.count('data group scenarios')
            for tr in o.ret | o.n:
                ev = [x[0] for x in tr if x[0] not in ('round', 'endround', 'ret')]
                want_sd = bt != 'CG' and ty == 'VariableLength' and sub and subv and used
                d = '%s %s subscribed=%d vlsd=%d used=%d' % (bt, ty, sub, subv, used)
                loc = (f['file'], f['line'])
                if parse not in ev: K.bad('read.group', nm + '/parse', loc, '%s does not read the records (%s)' % (f['n'], d)); continue
                i = ev.index(parse)
                if 'ReadSignalData' in ev[i:] or ('ReadSignalData' in ev) != bool(want_sd): K.bad('read.group', nm + '/sd', loc, '%s does %sread the signal data of a channel before its records (%s)' % (f['n'], '' if not want_sd else 'not ', d))
                if ('ReadData' in ev[:i]) != bool(used): K.bad('read.group', nm + '/sr', loc, '%s does %sread the sample reduction data (%s)' % (f['n'], 'not ' if used else '', d))
                if 'ResetSampleCounter' not in ev[:i]: K.bad('read.number', nm + '/reset', loc, '%s does not reset the sample counters first' % f['n'])
                if 'InitFastObserverList' not in ev[:i]: K.bad('read.deliver', nm + '/init', loc, '%s does not set up the observers first' % f['n'])
        # ... until the parser says so
        ok = any(x[0] == 'loop' and x[1].get('cond') is not None and any(callname(y) == parse for y in sym.find_all(strip(x[1]['cond']), lambda z: z[0] == 'call')) for x in sym.walk(t)) or \
            any(x[0] == 'loop' and any(e.k == 'call' and base(e.name) == parse for e in sym.effects(x[2])) for x in sym.walk(t))
        if not ok: K.bad('read.group', nm + '/loop', (f['file'], f['line']), '%s does not read all records' % f['n'])
    # vlsd data on request
    f = one(db, D4, 'ReadVlsdData'); R.analysed(f)
    t = sym.Engine(db, inline=lambda fid, g, d: g.get('cls') == D4 and base(g['n']) not in keep, max_depth=2).summarize(f)
    for bt, flag, filt in product(('SD', 'DZ', 'DL', 'HL', 'CG'), (1, 0), (0, 1)):
        if bt != 'CG' and not flag: continue
        class W(Trace):
            zero = False
            def eff(self, e, s):
                n = base(e.name)
                if e.k == 'call' and n in ('ParseSignalData', 'ParseSignalDataOffset', 'ParseVlsdCgData', 'SetRecordId', 'SetOffsetFilter', 'SetCallback'):
                    return (s + ((n, tuple(show(strip(a)) for a in e.args)),),)
                return (s,)
        def orc(t, V):
            if t[0] == 'op' and t[1] in ('==', '!='):
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    if callname(strip(a)) == 'BlockType':
                        b = strip(b)
                        if b[0] in ('s', 'c'): return int((str(b[1]) == bt) == (t[1] == '=='))
            n = callname(t)
            if n == 'Type': return types['VariableLength']
            if n == 'DataLink': return 64
            if n == 'Find': return ('ptr', 'b')
            if t[0] == 'dyncast': return ('ptr', 'x')
            if n == 'Flags': return flag
            if n == 'empty': return int(not filt)
            if n in ('ParseSignalData', 'ParseVlsdCgData', 'ParseSignalDataOffset'): return 1
            return None
        w = W(orc)
        o = w.run(t, {()})
        R.count('data group scenarios')
        # loops "while (Parse())" have the call in their condition
        conds = [callname(y) for x in sym.walk(t) if x[0] == 'loop' and x[1].get('cond') is not None for y in sym.find_all(strip(x[1]['cond']), lambda z: z[0] == 'call')]
        loc = (f['file'], f['line'])
        for tr in o.ret | o.n:
            ev = [x[0] for x in tr]
            calls = [x[0] for x in tr if x[0].startswith('Parse')]
            want = None if bt == 'CG' and not flag else 'ParseVlsdCgData' if bt == 'CG' else 'ParseSignalDataOffset' if filt else 'ParseSignalData'
            if want is None:
                if calls: K.bad('read.signal', 'ReadVlsdData/CG', loc, '%s reads variable length data from a normal group' % f['n'])
                continue
            if want not in calls or set(calls) - {want}:
                K.bad('read.signal', 'ReadVlsdData/%s' % bt, loc, '%s does not read the variable length data of a %s block' % (f['n'], bt)); continue
            i = ev.index(want)
            pre = {x[0] for x in tr[:i]}
            if 'SetCallback' not in pre: K.bad('read.signal', 'ReadVlsdData/cb', loc, '%s does not set the callback first' % f['n'])
            if 'SetOffsetFilter' not in pre: K.bad('read.signal', 'ReadVlsdData/filter', loc, '%s does not set the offset filter first' % f['n'])
            if bt == 'CG' and not any(x[0] == 'SetRecordId' and 'VlsdRecordId' in x[1][0] for x in tr[:i]): K.bad('read.signal', 'ReadVlsdData/id', loc, '%s does not select the group of the channel' % f['n'])
    # MDF3: positioned at the first record
    for nm, parse in (('ReadData', 'ParseDataRecords'), ('ReadRangeData', 'ParseRangeDataRecords')):
        f = one(db, D3, nm); R.analysed(f)
        t = sym.Engine(db, inline=lambda fid, g, d: g.get('cls') == D3 and base(g['n']) not in (parse, 'Cg3', 'Link', 'DataSize'), max_depth=2).summarize(f)
        class H(Trace):
            def eff(self, e, s):
                n = base(e.name)
                if e.k == 'call' and n == 'SetFilePosition': return (s + (('pos', callname(strip(e.args[1])) == 'Link'),),)
                if e.k == 'call' and n == 'ReadData': return (s + (('sr',),),)
                if e.k == 'call' and n == parse: return (s + (('parse', callname(strip(e.args[1])) == 'DataSize'),),)
                if e.k == 'call' and n == 'InitFastObserverList': return (s + (('init',),),)
                return (s,)
        h = H(lambda t, V: 1 if callname(t) in ('operator bool', 'IsUsed') else None)
        o = h.run(t, {()})
        R.count('data group scenarios')
        for tr in o.ret | o.n:
            ev = [x for x in tr if x[0] in ('pos', 'sr', 'parse', 'init')]
            if ('parse', True) not in ev: K.bad('read.group', 'Dg3/' + nm, (f['file'], f['line']), '%s does not read all the records' % f['n']); continue
            i = ev.index(('parse', True))
            p = max([j for j in range(i) if ev[j] == ('pos', True)], default=-1)
            if p < 0 or ('sr',) in ev[p:i] or ('pos', False) in ev[p:i]: K.bad('read.group', 'Dg3/' + nm + '/pos', (f['file'], f['line']), '%s starts to read records at another position than the data' % f['n'])
            if ('init',) not in ev[:i]: K.bad('read.deliver', 'Dg3/' + nm + '/init', (f['file'], f['line']), '%s does not set up the observers first' % f['n'])
            if nm == 'ReadData' and not any(x == ('sr',) for x in ev) and any(x == ('round',) for x in tr): K.bad('read.group', 'Dg3/' + nm + '/sr', (f['file'], f['line']), '%s does not read the sample reduction data' % f['n'])
    # reader cache set up
    f = next((f for f in db.funcs.values() if f.get('cls') == RC and base(f['n']) == 'ReadCache' and len(f['p']) == 2), None)
    if f is None: raise facts.AnalysisError('ReadCache constructor not found')
    R.analysed(f)
    t = sym.Engine(db, inline=lambda fid, g, d: g.get('cls') == RC, max_depth=2).summarize(f)
    for sub, lst in product((1, 0), (1, 0)):
        class C(Trace):
            zero = False
            def eff(self, e, s):
                n = base(e.name)
                o = strip(e.obj) if e.obj is not None else None
                if e.k == 'call' and n in ('emplace', 'insert', 'insert_or_assign', 'try_emplace') and o is not None and o[0] == 'fld':
                    a = [callname(strip(x)) for x in e.args]
                    return (s + ((o[2], a[0] == 'RecordId' or 'RecordId' in show(strip(e.args[0]))),),)
                if e.k == 'set' and o is not None and o[0] == 'fld' and o[2] == 'max_data_count_': return (s + (('max', callname(strip(e.val)) == 'DataSize'),),)
                if e.k == 'call' and n == 'GetDataBlockList': return (s + (('blocks', 'list'),),)
                if e.k == 'call' and n in ('push_back', 'emplace_back') and o is not None and o[0] == 'fld' and o[2] == 'block_list_': return (s + (('blocks', 'one'),),)
                return (s,)
        def orc(t, V):
            n = callname(t)
            if n == 'IsSubscribingOnRecord': return sub
            if n == 'NofSamples': return 5
            if t[0] == 'fld' and t[2] == 'data_list_': return ('ptr', 'l') if lst else NULL
            if t[0] == 'fld' and t[2] in ('data_block_', 'dg4_block_'): return ('ptr', 'x')
            if t[0] == 'dyncast':
                if 'DataListBlock' in repr(t[1:2]) or 'DataListBlock' in str(t[1]): return ('ptr', 'l') if lst else NULL
                return ('ptr', 'x')
            if n == 'operator bool': return 1
            return None
        c = C(orc)
        o = c.run(t, {()})
        R.count('data group scenarios')
        for tr in o.ret | o.n:
            loc = (f['file'], f['line'])
            if ('available_cg_list_', True) not in tr: K.bad('read.deliver', 'ReadCache/groups', loc, 'ReadCache does not register a channel group')
            if (('record_id_list_', True) in tr) != bool(sub): K.bad('read.deliver', 'ReadCache/subscribed', loc, 'ReadCache does %sregister a group that is %ssubscribed' % (('not ', '') if sub else ('', 'not ')))
            if ('max', True) not in tr: K.bad('read.stop', 'ReadCache/max', loc, 'ReadCache does not know the size of the data')
            if [x for x in tr if x[0] == 'blocks'] != [('blocks', 'list' if lst else 'one')]: K.bad('read.blocks', 'ReadCache', loc, 'ReadCache does not collect the data blocks once')


# --- observers -------------------------------------------------------------
def observers(db, R, K):
    G = 'mdf::IDataGroup'
    eng = sym.Engine(db, inline=lambda fid, g, d: g.get('cls') == G and base(g['n']) not in ('ChannelGroups',), max_depth=2)
    f = one(db, G, 'NotifySampleObservers'); R.analysed(f)
    t = eng.summarize(f)
    prm = tuple(('parm', p['n']) for p in f['p'])
    for empty, size, hit, more in product((1, 0), (1, 2), (1, 0), (1, 0)):
        class N(Trace):
            zero = False
            def eff(self, e, s):
                if e.k == 'call' and base(e.name) == 'OnSample': return (s + (('on', tuple(strip(a) for a in e.args) == prm),),)
                return (s,)
        def orc(t, V):
            n = callname(t)
            if n == 'empty': return empty
            if n == 'size': return 0 if empty else size
            if n == 'OnSample': return more
            if t[0] == 'op' and t[1] in ('==', '!='):
                for a, b in ((t[2], t[3]), (t[3], t[2])):
                    a, b = strip(a), strip(b)
                    while a[0] == 'ctor' and len(a[2]) == 1: a = strip(a[2][0])
                    while b[0] == 'ctor' and len(b[2]) == 1: b = strip(b[2][0])
                    if callname(a) in ('find',) and callname(b) in ('end', 'cend'): return int(bool(hit) == (t[1] == '!='))
            if t[0] in ('elem', 'at') or t[0] == 'loc' and '*' in t[2] or t[0] == 'opq' and 'range' in str(t[1]): return ('ptr', 'o')
            return None
        p = N(orc)
        o = p.run(t, {()})
        R.count('observer scenarios')
        loc = (f['file'], f['line'])
        for tr in o.ret | o.n:
            ons = [x for x in tr if x[0] == 'on']
            rv = [x for x in tr if x[0] == 'ret'][-1][1] if any(x[0] == 'ret' for x in tr) else None
            due = not empty and (hit or size == 1)
            if not empty and size == 1 and not hit: continue      # cannot happen: only subscribed records are delivered
            if (len(ons) != 1) if due else bool(ons): K.bad('read.deliver', 'NotifySampleObservers', loc, '%s calls each observer %d times, expected %d' % (f['n'], len(ons), due)); continue
            if any(not x[1] for x in ons): K.bad('read.deliver', 'NotifySampleObservers/args', loc, '%s does not pass sample, record id and record on' % f['n'])
            if due and more and any(x == ('endround', 'break') for x in tr): K.bad('read.deliver', 'NotifySampleObservers/all', loc, '%s does not reach all observers' % f['n'])
            if due and more and not any(x[0] == 'endround' for x in tr): K.bad('read.deliver', 'NotifySampleObservers/all', loc, '%s does not reach all observers' % f['n'])
            if due and rv is not None and rv != bool(more): K.bad('read.stop', 'NotifySampleObservers', loc, '%s returns %s when an observer returned %s' % (f['n'], rv, bool(more)))
    f = one(db, G, 'InitFastObserverList'); R.analysed(f)
    t = eng.summarize(f)
    for need in (1, 0):
        class I(Trace):
            zero = False
            def eff(self, e, s):
                n = base(e.name); o = strip(e.obj) if e.obj is not None else None
                if e.k == 'call' and n in ('emplace_back', 'push_back'): return (s + (('add',),),)
                if e.k == 'call' and n in ('emplace', 'insert', 'insert_or_assign', 'try_emplace') : return (s + (('put', 'RecordId' in show(strip(e.args[0]))),),)
                if e.k == 'call' and n == 'clear': return (s + (('clear', show(o)),),)
                return (s,)
        def orc(t, V):
            n = callname(t)
            if n == 'IsRecordIdNeeded': return need
            if n == 'empty': return int(not need)
            if t[0] in ('elem', 'at') or t[0] == 'loc' and '*' in t[2] or t[0] == 'opq' and 'range' in str(t[1]): return ('ptr', 'o')
            return None
        p = I(orc)
        o = p.run(t, {()})
        R.count('observer scenarios')
        for tr in o.ret | o.n:
            ev = [x for x in tr if x[0] in ('add', 'put', 'clear')]
            if not any(x[0] == 'clear' and 'fast_observer_list_' in x[1] for x in ev): K.bad('read.deliver', 'InitFastObserverList/clear', (f['file'], f['line']), '%s keeps observers of an earlier read' % f['n'])
            if (('add',) in ev) != bool(need) or need and ('put', True) not in ev and 'operator[]' not in repr(t): K.bad('read.deliver', 'InitFastObserverList', (f['file'], f['line']), '%s does %sregister an observer that %s a record' % (f['n'], 'not ' if need else '', 'needs' if need else 'does not need'))
    on_sample(db, R, K)


def on_sample(db, R, K):
    types = {c[0]: c[1] for q, en in db.enums.items() if q.endswith('ChannelType') for c in en['c']}
    eng = sym.Engine(db, inline=lambda fid, g, d: str(g.get('cls', '')).startswith(D + 'ChannelObserver'), max_depth=2)
    fs = [f for f in db.funcs.values() if f['n'].startswith(D + 'ChannelObserver<') and base(f['n']) == 'OnSample']
    if len(fs) < 8: raise facts.AnalysisError('ChannelObserver::OnSample not found')
    SAMPLE, ASZ, OWN, VL = 6, 4, 7, 9
    for f in fs:
        R.analysed(f)
        t = eng.summarize(f)
        pn = [p['n'] for p in f['p']]
        for ty, rid, vid, rv, small in product(types, (OWN, VL, 8), (0, VL), (1, 0), (0, 1)):
            def orc(t, V):
                if t == ('parm', pn[0]): return SAMPLE
                if t == ('parm', pn[1]): return rid
                if t[0] == 'fld' and t[2] == 'record_id_': return OWN
                n = callname(t)
                if n == 'Type': return types[ty]
                if n == 'VlsdRecordId': return vid
                if n == 'ReadVlsdData': return rv
                if n == 'ArraySize': return ASZ
                if n == 'size' and t[2] is not None and strip(t[2])[0] == 'fld': return 3 if small else 1000
                if t[0] == 'lv': return 2
                return None
            class S(Trace):
                zero = False
                def eff(self, e, s):
                    n = base(e.name); V = self.V
                    o = strip(e.obj) if e.obj is not None else None
                    if e.k == 'call' and n in ('GetChannelValue', 'GetUnsignedValue', 'GetVirtualSample'):
                        a = e.args
                        ok = V.ev(a[0]) == SAMPLE if n == 'GetVirtualSample' else strip(a[0]) == ('parm', pn[2]) and len(a) > 2 and V.ev(a[2]) == 2
                        return (s + (('val', n, ok, strip(a[1])),),)
                    if e.k == 'index' and o is not None and o[0] == 'fld' and o[2].endswith('_list_'):
                        return (s + (('idx', o[2], V.ev(e.args[0])),),)
                    if e.k == 'set' or e.k == 'call' and n == 'operator=':
                        w = show(o)
                        for l in ('value_list_', 'valid_list_', 'offset_list_'):
                            if w.startswith(l): return (s + (('store', l, strip(e.val) if e.val is not None else strip(e.args[-1])),),)
                    return (s,)
            p = S(orc)
            o = p.run(t, {()})
            R.count('sample store scenarios')
            loc = (f['file'], f['line'])
            own = rid == OWN; vl = vid == VL and rid == VL
            virt = ty in ('VirtualMaster', 'VirtualData')
            if ty == 'VariableLength':
                want = {'offset_list_', 'valid_list_'} | ({'value_list_'} if rv and vid == 0 else set()) if own else {'value_list_', 'valid_list_'} if vl else set()
            else: want = {'value_list_', 'valid_list_'} if own else set()
            if small: want = set()
            d = '%s channel, record %s, vlsd record %s' % (ty, {OWN: 'own', VL: 'vlsd', 8: 'other'}[rid], vid)
            for tr in o.ret | o.n:
                st = {x[1] for x in tr if x[0] == 'store'}
                if not st: st = {x[1] for x in tr if x[0] == 'idx'}
                bad = None
                if st != want: bad = '%s stores into %s, expected %s (%s)' % (f['n'], sorted(st), sorted(want), d)
                elif any(x[0] == 'idx' and x[2] != SAMPLE * ASZ + 2 for x in tr): bad = '%s stores a sample in another place than its own (%s)' % (f['n'], d)
                elif any(x[0] == 'val' and not x[2] for x in tr): bad = '%s takes the value from another place than the record (%s)' % (f['n'], d)
                elif want and not any(x[0] == 'val' and (x[1] == 'GetVirtualSample') == virt for x in tr): bad = '%s does not take the value of the channel (%s)' % (f['n'], d)
                if not bad:
                    out = None
                    for x in tr:
                        if x[0] == 'val': out = x
                        if x[0] != 'store': continue
                        v = x[2]
                        if x[1] == 'valid_list_' and callname(v) not in ('GetChannelValue', 'GetUnsignedValue', 'GetVirtualSample'): bad = '%s stores %s as validity of a sample (%s)' % (f['n'], show(v), d)
                        if x[1] != 'valid_list_' and out is not None and v != out[3] and not (v[0] == out[3][0] == 'loc' and v[3] == out[3][3]): bad = '%s stores %s, not the value of the sample (%s)' % (f['n'], show(v), d)
                if bad: K.bad('read.store', ty, loc, bad); break
                r = [x for x in tr if x[0] == 'ret']
                if r and r[-1][1] is False: K.bad('read.stop', 'OnSample', loc, '%s stops the reading (%s)' % (f['n'], d))
    # and out again
    n = 0
    for f in db.funcs.values():
        if not f['n'].startswith(D + 'ChannelObserver<') or not base(f['n']).startswith('GetSample'): continue
        R.analysed(f)
        t = eng.summarize(f)
        pn = [p['n'] for p in f['p']]
        T = f['n'][len(D + 'ChannelObserver<'):]
        for small, valid in product((0, 1), (0, 1)):
            def orc(t, V):
                if t == ('parm', pn[0]): return SAMPLE
                if len(pn) > 2 and t == ('parm', pn[2]): return 2
                x = callname(t)
                if x == 'ArraySize': return ASZ
                if x == 'size' and t[2] is not None and strip(t[2])[0] == 'fld': return 3 if small else 1000
                if t[0] == 'at' and show(t).startswith('valid_list_') or x in ('operator[]', 'at') and t[2] is not None and 'valid_list_' in show(strip(t[2])): return valid
                return None
            class G(Trace):
                def eff(self, e, s):
                    o = strip(e.obj) if e.obj is not None else None
                    if e.k == 'index' and o is not None and o[0] == 'fld': return (s + (('idx', o[2], self.V.ev(e.args[0])),),)
                    return (s,)
            g = G(orc)
            o = g.run(t, {()})
            R.count('sample fetch scenarios'); n += 1
            want = SAMPLE * ASZ + 2 if len(pn) > 2 else SAMPLE
            for tr in o.ret | o.n:
                ix = [x for x in tr if x[0] == 'idx']
                if small and ix: K.bad('read.fetch', base(f['n']) + '/bound', (f['file'], f['line']), '%s reads beyond the stored samples' % f['n'])
                if any(x[2] not in (want,) and not (x[2] == SAMPLE and len(pn) <= 2) for x in ix): K.bad('read.fetch', base(f['n']), (f['file'], f['line']), '%s fetches another sample than asked for' % f['n'])
                r = [x for x in tr if x[0] == 'ret']
                if r and r[-1][1] is True and (small or not valid): K.bad('read.fetch', base(f['n']) + '/valid', (f['file'], f['line']), '%s reports an invalid or missing sample as valid' % f['n'])
    if not n: raise facts.AnalysisError('ChannelObserver::GetSample functions not found')


def run(db, R):
    K = Chk(R)
    parsers(db, R, K)
    record_id(db, R, K)
    cursor(db, R, K)
    groups(db, R, K)
    observers(db, R, K)
