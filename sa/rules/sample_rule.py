"""Sample pipeline: every sample that leaves the queue reaches the file exactly
once and complete (record id, data, variable length data, index, counters), in
every configuration; samples are dropped only for the documented reasons."""
import re
from itertools import product
from .. import sym, flow, facts, linear
from ..sym import strip, show
from ..absval import Val, NULL
from . import acc_rule
from .lock_rule import Model, base, nodes, QUEUE, CACHE, D

KEEP = {'GetSample', 'PushSample', 'TrimQueue', 'QueueSize', 'IsEmpty', 'AddSample', 'PopSample', 'SetLastPosition', 'IncrementNofSamples',
        'Reset', 'IsOpen', 'Open', 'Close', 'NofDgBlocks', 'Queue'}
RECWRITE = {'WriteSample', 'WriteCompressedSample'}
VLSDWRITE = {'WriteVlsdSample', 'WriteCompressedVlsdSample', 'WriteSdSample'}


def callname(t):
    return t[1].split('::')[-1] if isinstance(t, tuple) and t and t[0] == 'call' else None


def is_sample(t):
    t = strip(t)
    return callname(t) == 'GetSample'


def fld_of_sample(t, name):
    t = strip(t)
    return t[0] == 'fld' and t[2] == name and is_sample(t[1])


# --- scenarios -------------------------------------------------------------
class Scen:
    def __init__(self, **k):
        self.__dict__.update(k)
        self.name = ', '.join('%s=%s' % x for x in sorted(k.items()))

    def oracle(self, t, V):
        k = t[0]
        if k == 'fld':
            if t[2] == 'vlsd_data' and is_sample(t[1]): return int(self.vlsd)
            if t[2] == 'timestamp' and is_sample(t[1]): return self.ts
            if t[2] == 'data_group_': return ('ptr', 'dg')
            if t[2] == 'record_id' and is_sample(t[1]): return 7
            return None
        if k == 'call':
            n = callname(t)
            if n == 'StopTime': return self.stop
            if n == 'StartTime': return None
            if n == 'CompressData': return int(self.compress)
            if n == 'NofRecordId': return self.ids
            if n == 'RecordIdSize': return self.ids
            if n == 'FindCgRecordId':
                a = V.ev(t[3][0]) if t[3] else None
                if a == 7: return ('ptr', 'cg') if self.cg else NULL
                if a == 8: return ('ptr', 'vg') if self.vg else NULL
                return None
            if n == 'Flags' and t[2] is not None and not t[3]:
                o = V.ev(t[2])
                if o == ('ptr', 'vg'): return 1 if self.vg == 'vlsd' else 0
                return None
            if n == 'FindSdChannel':
                return ('ptr', 'sd') if self.sd else NULL
            if n in ('CreateOrGetDt4', 'CreateOrGetHl4'):
                return ('ptr', n)
            if n == 'size' and fld_of_sample(t[2], 'record_buffer'): return 16 if self.big else 4
            if n == 'IsOpen': return 1
            if n == 'NofDgBlocks': return self.ndg
            if n == 'DataPosition': return 64
        if k == 'at' and callname(t[1]) in ('Cg3', 'Cg4', 'ChannelGroups'): return ('ptr', 'elem')
        return None


def scenarios(mdf4, compress):
    times = [(5, 0), (4, 5), (5, 5), (6, 5)]
    if mdf4:
        for (ts, stop), cg, vlsd, vg, sd, big in product(times, (1, 0), (0, 1), (0, 'plain', 'vlsd'), (0, 1), (1, 0)):
            if not cg and (vlsd or vg or sd or not big): continue
            if (ts, stop) != (5, 0) and (vg == 'plain' or not big): continue
            yield Scen(ts=ts, stop=stop, cg=cg, vlsd=vlsd, vg=vg, sd=sd, big=big, compress=compress, ids=1, ndg=1)
    else:
        for (ts, stop), ids in product(times, (0, 1, 2)):
            yield Scen(ts=ts, stop=stop, cg=1, vlsd=0, vg=0, sd=0, big=1, compress=compress, ids=ids, ndg=1)


class Pipe(flow.ValFlow):
    """state: (events of the sample in hand | None, buffer state, file state)
    buffer: 'clean' | 'dirty' ; parts: frozenset of things done for the buffer"""

    def __init__(self, R, root, scen, mdf4, trimmed):
        self.R, self.root, self.s, self.mdf4 = R, root, scen, mdf4
        self.V = Val(scen.oracle)
        self.trimmed = trimmed
        self.viol = []

    def bad(self, rule, key, loc, msg):
        self.viol.append((rule, '%s/%s' % (self.root, key), loc, msg))

    def expected(self):
        s = self.s
        if self.stopped() : return None
        if self.mdf4:
            if not s.cg: return None
            e = []
            if s.vlsd and s.vg == 'vlsd': e = ['vlsd:vg']
            elif s.vlsd and s.sd: e = ['vlsd:sd']
            if e and s.big: e.append('patch')
            return tuple(e + ['rec'])
        return tuple((['id'] if s.ids > 0 else []) + ['rec'] + (['id'] if s.ids > 1 else []) + ['count'])

    def stopped(self):
        return self.s.stop > 0 and self.s.ts > self.s.stop and self.trimmed

    def finish(self, st, loc, what):
        ev, buf, fst = st
        if ev is None: return
        ev, got = ev
        want = self.expected()
        if ev == ('pushed',):
            if 'Clean' in self.root:
                self.bad('sample.flush', 'pushed', got, '%s can end with samples left in the queue' % self.root)
            return
        if want is None:
            return    # may be dropped
        if ev != want:
            if 'rec' not in ev:
                self.bad('sample.lost', 'lost', got, '%s takes a sample from the queue and %s without writing it (%s)' % (self.root, what, self.s.name))
            else:
                self.bad('sample.record', 'seq', got, '%s writes a sample as [%s], expected [%s] (%s)' % (self.root, ' '.join(ev), ' '.join(want), self.s.name))

    def add(self, st, e, loc):
        ev, buf, fst = st
        if ev is None:
            self.bad('sample.record', e, loc, '%s writes %s with no sample in hand' % (self.root, e))
            return st
        if len(ev[0]) > 8: return st
        return ((ev[0] + (e,), ev[1]), buf, fst)

    def eff(self, e, s):
        n = base(e.name)
        ev, buf, fst = s
        if e.k == 'call':
            if n == 'GetSample':
                self.finish(s, e.loc, 'takes the next one')
                self.R.count('samples followed')
                return ((((), e.loc), buf, fst),)
            if n == 'PushSample':
                if ev is not None and ev[0] == () and is_sample(e.args[0]): return ((((('pushed',), ev[1])), buf, fst),)
                self.bad('sample.record', 'push', e.loc, '%s pushes a sample back that was already written' % self.root)
                return (s,)
            if n == 'PopSample':
                self.bad('sample.lost', 'pop', e.loc, '%s removes a sample without writing it' % self.root)
            if n in RECWRITE:
                o = self.V.ev(e.obj)
                if o != ('ptr', 'cg'):
                    if o is not None: self.bad('sample.record', 'group', e.loc, '%s writes the sample through another channel group than the one of its record id' % self.root)
                if not fld_of_sample(e.args[-1], 'record_buffer'):
                    self.bad('sample.record', 'data', e.loc, '%s writes %s instead of the record of the sample' % (self.root, show(strip(e.args[-1]))))
                if callname(strip(e.args[1])) != 'RecordIdSize':
                    self.bad('sample.record', 'idsize', e.loc, '%s writes records with a record id size of %s, not the one of the data group' % (self.root, show(strip(e.args[1]))))
                st = self.add(s, 'rec', e.loc)
                return (self.dirty(st, e),)
            if n in VLSDWRITE:
                o = self.V.ev(e.obj)
                tag = {('ptr', 'vg'): 'vlsd:vg', ('ptr', 'sd'): 'vlsd:sd'}.get(o, 'vlsd:?')
                if not fld_of_sample(e.args[-1], 'vlsd_buffer'):
                    self.bad('sample.vlsd', 'data', e.loc, '%s writes %s instead of the variable length data of the sample' % (self.root, show(strip(e.args[-1]))))
                st = self.add(s, tag, e.loc)
                return (self.dirty(st, e) if n != 'WriteSdSample' else st,)
            if n == 'copy' and len(e.args) == 3 and 'record_buffer' in show(strip(e.args[2])) and 'GetSample' in show(strip(e.args[2])):
                if not self.patch_ok(e):
                    self.bad('sample.vlsd', 'index', e.loc, '%s does not store the index of the variable length data in the last 8 bytes of the record' % self.root)
                return (self.add(s, 'patch', e.loc),)
            if not self.mdf4 and n in ('sputc', 'sputn', 'xsputn'):
                a = strip(e.args[0])
                if n == 'sputc' and fld_of_sample(a, 'record_id'): return (self.add(s, 'id', e.loc),)
                if n == 'sputn' and 'record_buffer' in show(a):
                    if not (callname(strip(e.args[1])) == 'size' and fld_of_sample(strip(e.args[1])[2], 'record_buffer')):
                        self.bad('sample.record', 'size', e.loc, '%s writes %s bytes of the record' % (self.root, show(strip(e.args[1]))))
                    return (self.add(s, 'rec', e.loc),)
                return (self.add(s, 'other', e.loc),)
            if n == 'IncrementNofSamples':
                ok = len(e.args) == 1 and fld_of_sample(e.args[0], 'record_id')
                return (self.add(s, 'count' if ok else 'count:other', e.loc),)
        # --- temporary buffer of the compressed writer
        if self.s.compress and self.mdf4:
            o = strip(e.obj) if e.obj is not None else None
            if e.k == 'call' and o is not None and o[0] == 'loc' and 'vector' in o[2]:
                if n in ('clear', 'resize', 'swap', 'operator=', 'assign', 'erase'):
                    if buf[0] == 'dirty': self.saved(buf, e.loc, 'clears')
                    return ((ev, ('clean', frozenset(), None), fst),)
            if e.k == 'call' and n == 'Data' and any(strip(a)[0] == 'loc' and 'vector' in strip(a)[2] for a in e.args):
                return ((ev, (buf[0], self.once(buf[1], 'data', e.loc) | {('blk', show(o))}, buf[2]), fst),)
            if e.k == 'call' and n in ('push_back', 'emplace_back') and any(('blk', show(strip(a))) in buf[1] for a in e.args):
                return ((ev, (buf[0], self.once(buf[1], 'list', e.loc), buf[2]), fst),)
            if e.k == 'call' and n == 'Offset' and 'Dl4Block' in e.name and len(e.args) == 2:
                if buf[0] == 'dirty':
                    if 'advance' in buf[1]:
                        self.bad('sample.offset', 'order', e.loc, '%s sets the offset of a data block after the offset was moved on' % self.root)
                    if not show(strip(e.args[1])).endswith('offset_'):
                        self.bad('sample.offset', 'value', e.loc, '%s sets %s as offset of a data block' % (self.root, show(strip(e.args[1]))))
                    return ((ev, (buf[0], buf[1] | {'offset'}, strip(e.args[0])), fst),)
                return (s,)
            if e.k == 'set' and o is not None and o[0] == 'fld' and o[2].startswith('offset'):
                d = linear.of(mk_sub(e.val, e.obj)) if False else strip(e.val)
                if buf[0] == 'dirty':
                    ok = d[0] == 'op' and d[1] == '+' and o in (d[2], d[3]) and callname(d[2] if d[3] == o else d[3]) == 'size'
                    if not ok:
                        self.bad('sample.offset', 'step', e.loc, '%s moves the data offset to %s, expected the offset plus the size of the buffer' % (self.root, show(d)))
                    return ((ev, (buf[0], self.once(buf[1], 'advance', e.loc), buf[2]), fst),)
                return (s,)
            if e.k == 'lset' and buf[2] is not None and buf[0] == 'dirty':
                v = strip(e.val)
                if v == strip(sym.mkop('+', buf[2], ('c', 1))):
                    return ((ev, (buf[0], buf[1] | {'count'}, buf[2]), fst),)
        # --- file: last position, length of the data block, group blocks
        if e.k == 'call':
            if n in ('GetLastFilePosition', 'GetFilePosition') and fst is not None:
                return ((ev, buf, fst | {'pos'}),)
            if n == 'Write' and 'Cg3Block' in e.name:
                return ((ev, buf, fst | {'cgwrite'}),)
            if n == 'Write' and e.obj is not None and (self.V.ev(e.obj) == ('ptr', 'dg') or 'data_group_' in show(strip(e.obj))):
                if buf[0] == 'dirty': self.saved(buf, e.loc, 'writes the data group')
                return ((ev, ('clean', frozenset(), None), fst | {'dgwrite' if 'pos' in fst or self.s.compress else 'dgearly' if 'recs' in fst else 'dgfirst'}),)
            if n == 'UpdateBlockSize':
                a = strip(e.args[1])
                t = [callname(x) for x in sym.find_all(a, lambda y: y[0] == 'call')]
                ok = a[0] == 'op' and a[1] == '-' and callname(a[2]) in ('GetLastFilePosition', 'GetFilePosition') and callname(a[3]) == 'FilePosition'
                if not ok or 'pos' not in fst:
                    self.bad('sample.length', 'value', e.loc, '%s sets the length of the data block to %s, expected the last position minus the position of the block' % (self.root, show(a)))
                if 'dgearly' in fst:
                    self.bad('sample.length', 'order', e.loc, '%s takes the end of the data after other blocks were written behind it' % self.root)
                return ((ev, buf, fst | {'length'}),)
            if n == 'SetLastPosition' :
                return ((ev, buf, fst | {'atend'}),)
        return (s,)

    def once(self, parts, x, loc):
        if x in parts:
            self.bad('sample.buffer', x, loc, '%s does "%s" twice for the same buffer of records' % (self.root, x))
        return parts | {x}

    def dirty(self, st, e):
        ev, buf, fst = st
        if not self.s.compress: 
            if 'atend' not in fst and self.mdf4:
                self.bad('sample.record', 'position', e.loc, '%s writes a record before moving to the end of the file' % self.root)
            return (ev, buf, fst - {'pos', 'dgwrite', 'length'} | {'recs'})
        return (ev, ('dirty', frozenset(), None), fst)

    def saved(self, buf, loc, what):
        need = {'data': 'put into a data block', 'list': 'added to the data list', 'offset': 'given its offset', 'advance': 'counted in the offset', 'count': 'counted in the list'}
        for k in ('data', 'list', 'offset', 'advance', 'count'):
            if k not in buf[1]:
                self.bad('sample.buffer', k, loc, '%s %s while the buffered records were not %s' % (self.root, what, need[k]))
                return

    def patch_ok(self, e):
        a, b, d = map(strip, e.args)
        if callname(a) not in ('cbegin', 'begin') or callname(b) not in ('cend', 'end') or a[2] != b[2]: return False
        src = a[2]
        if not ('LittleBuffer' in repr(src)): return False
        def itop(x):
            """iterator expression -> (begin|end, offset term)"""
            x = strip(x)
            n = callname(x)
            if n in ('begin', 'end', 'cbegin', 'cend'): return n.lstrip('c') if n[0] == 'c' else n, ('c', 0)
            if n in ('next', 'prev', 'operator+', 'operator-'):
                a = ([x[2]] if x[2] is not None else []) + list(x[3])
                b = itop(a[0]); q = strip(a[1]) if len(a) > 1 else ('c', 1)
                if b is None or b[1] != ('c', 0): return None
                return b[0], strip(sym.mkop('*', q, ('c', -1)) if n in ('prev', 'operator-') and q[0] == 'c' else q) if n in ('next', 'operator+') or q[0] == 'c' else None
            if x[0] == 'op' and x[1] in '+-':
                b = itop(x[2]); q = strip(x[3])
                if b is None:
                    b = itop(x[3]); q = strip(x[2])
                if b is None or b[1] != ('c', 0): return None
                if x[1] == '-': q = ('c', -q[1]) if q[0] == 'c' else None
                return (b[0], q) if q is not None else None
            if x[0] == 'iter': return 'begin', strip(x[2])
            if x[0] == 'ctor' and len(x[2]) == 1: return itop(x[2][0])
            return None
        r = itop(d)
        if r is None: return False
        if r[0] == 'end': return r[1] == ('c', -8)
        q = r[1]
        return q[0] == 'op' and callname(q[2]) == 'size' and fld_of_sample(q[2][2], 'record_buffer') and (q[1], q[3]) in (('+', ('c', -8)), ('-', ('c', 8)))

    def node(self, x, cur):
        if x[0] == 'loop' and any(e.k == 'call' and base(e.name) == 'Write' and 'Cg3Block' in e.name for e in sym.effects(x[2])):
            # all groups of the data group: at least one round
            r = self.run(x[2], cur)
            o = flow.Out(); o.add(r); o.n |= r.cont | {(s[0], s[1], s[2] - {'cgwrite'}) for s in r.brk}; o.cont = set(); o.brk = set()
            return o
        return super().node(x, cur)

    def cond(self, c, taken, s):
        t = self.V.truth(c)
        if t is None:
            c = strip(c); neg = False
            while c[0] == 'un' and c[1] == '!': c = strip(c[2]); neg = not neg
            if s[1][0] == 'dirty' and callname(c) == 'empty' and c[2] is not None and strip(c[2])[0] == 'loc':
                return (s,) if taken == neg else ()
            return (s,)
        return (s,) if t == taken else ()


def savers(db, R, m):
    eng = sym.Engine(db, inline=lambda fid, g, d: (g.get('cls') in m.classes and base(g['n']) not in KEEP) or (g.get('cls') is None and g['file'].endswith('samplequeue.cpp')), max_depth=6)
    roots = []
    for c in sorted(m.classes):
        for nm in ('SaveQueue', 'CleanQueue'):
            f = next((f for f in db.funcs.values() if f.get('cls') == c and base(f['n']) == nm), None)
            if f is None: continue
            t = eng.summarize(f, this_cls=c)
            if not any(e.k == 'call' and base(e.name) == 'GetSample' for e in sym.effects(t)):
                raise facts.AnalysisError('%s::%s takes no samples from the queue' % (c, nm))
            roots.append((c, nm, f, t))
    if len(roots) < 4: raise facts.AnalysisError('queue savers not found')
    seen = set()
    for c, nm, f, t in roots:
        R.analysed(f)
        mdf4 = any(e.k == 'call' and base(e.name) in RECWRITE for e in sym.effects(t))
        own = db.method(c, 'TrimQueue') if hasattr(db, 'method') else None
        conv = not any(e.k == 'call' and base(e.name) == 'StopTime' for e in sym.effects(t))
        root = '%s::%s' % (base(c), nm)
        ran = 0
        for comp in ((0, 1) if mdf4 else (0,)):
            for s in scenarios(mdf4, comp):
                p = Pipe(R, root, s, mdf4, not conv or 'Converter' not in c)
                o = p.run(t, {(None, ('clean', frozenset(), None), frozenset())})
                R.count('saver scenarios'); ran += 1
                ends = o.n | o.ret
                for st in ends:
                    p.finish(st, None, 'returns')
                    if st[1][0] == 'dirty':
                        p.bad('sample.buffer', 'left', (f['file'], f['line']), '%s can return with records left in its buffer (%s)' % (root, s.name))
                    if st[0] is not None and p.expected() is not None and 'rec' in st[0][0]:
                        fst = st[2]
                        if mdf4 and not ({'dgwrite', 'dgearly'} & fst): p.bad('sample.counter', 'dg', (f['file'], f['line']), '%s does not write the group blocks after saving samples' % root)
                        if not mdf4 and 'cgwrite' not in fst: p.bad('sample.counter', 'cg', (f['file'], f['line']), '%s does not write the channel group blocks after saving samples' % root)
                        if mdf4 and not comp and 'length' not in fst: p.bad('sample.length', 'none', (f['file'], f['line']), '%s does not set the length of the data block after saving samples' % root)
                        if mdf4 and not comp and 'dgearly' in fst and 'length' in fst: pass
                got = any(st[0] is not None for st in ends)
                if not got and p.expected() is not None:
                    p.bad('sample.lost', 'unreached', (f['file'], f['line']), '%s saves no samples at all (%s)' % (root, s.name))
                for v in p.viol:
                    if (v[0], v[1]) in seen: continue
                    seen.add((v[0], v[1]))
                    R.violate(v[0], v[1], v[2] or (f['file'], f['line']), v[3])


def mk_sub(a, b):
    return sym.mkop('-', a, b)


# --- record primitives -----------------------------------------------------
WIDTH = {'unsigned char': 1, 'unsigned short': 2, 'unsigned int': 4, 'unsigned long': 8, 'unsigned long long': 8}


class Emit(flow.ValFlow):
    """sequence of bytes a record primitive emits"""
    def __init__(self, idsize, owner, db):
        self.V = Val(lambda t, V: idsize if t == ('parm', owner['p'][1]['n']) and len(owner['p']) > 2 else None)
        self.db = db

    def node(self, x, cur):
        if x[0] == 'loop':
            # for (b : buf) dest.push_back(b)
            es = [e for e in sym.effects(x[2]) if e.k == 'call' and base(e.name) in ('push_back', 'emplace_back', 'sputc')]
            if len(es) == 1 and x[1].get('range') is not None:
                src = strip(x[1]['range'])
                o = flow.Out()
                for s in cur: o.n.add(s + (self.item(src),))
                return o
        return super().node(x, cur)

    def item(self, src, size=None):
        src = strip(src)
        w = None
        if src[0] == 'loc' and 'LittleBuffer<' in src[2]:
            w = WIDTH.get(re.search(r'LittleBuffer<([\w ]+)>', src[2]).group(1))
            return ('num', w, self.kind(self.bufval.get(src)))
        if src[0] == 'ctor' and 'LittleBuffer' in src[1]:
            return ('num', None, self.kind(src[2][0]))
        return ('bytes', show(src))

    bufval = {}

    def kind(self, v):
        if v is None: return '?'
        v = strip(v)
        if callname(v) == 'RecordId' or v[0] == 'fld' and 'record_id' in v[2]: return 'id'
        if callname(v) == 'size': return 'len(%s)' % show(v[2])
        return show(v)

    def width(self, v):
        if v[0] == 'cast' and v[1] in WIDTH: return WIDTH[v[1]]
        if callname(strip(v)) == 'RecordId': return 8
        return None

    def eff(self, e, s):
        n = base(e.name)
        if e.k == 'decl' and e.obj is not None and 'LittleBuffer' in (strip(e.obj)[2] if strip(e.obj)[0] == 'loc' else ''):
            self.bufval = dict(self.bufval); self.bufval[strip(e.obj)] = e.args[0] if e.args else None
            return (s,)
        if e.k != 'call': return (self.state(e, s),)
        if n == 'WriteNumber':
            return (s + (('num', self.width(e.args[1]), self.kind(e.args[1])),),)
        if n in ('sputn', 'xsputn'):
            a = strip(e.args[0])
            src = a[2] if callname(a) == 'data' else a
            it = self.item(src)
            sz = strip(e.args[1])
            if it[0] == 'num' and sz != ('c', it[1]) and callname(sz) != 'size': it = ('num', show(sz), it[2])
            if it[0] == 'bytes' and not (callname(sz) == 'size' and sz[2] == src): it = ('bytes', it[1], show(sz))
            return (s + (it,),)
        if n == 'copy' and len(e.args) == 3 and callname(strip(e.args[2])) == 'back_inserter':
            return (s + (self.rng(e.args[0], e.args[1]),),)
        if n == 'insert' and len(e.args) == 3 and callname(strip(e.args[1])):
            p = strip(e.args[0])
            atend = any(callname(x) in ('end', 'cend') for x in sym.find_all(p, lambda y: y[0] == 'call'))
            return (s + ((self.rng(e.args[1], e.args[2]) if atend else ('misplaced',)),),)
        if n == 'push_back': return (s + (('byte', show(strip(e.args[0]))),),)
        if n == 'size' and e.obj is not None and strip(e.obj)[0] == 'fld': return (s + (('size', strip(e.obj)[2]),),)
        if n == 'IncrementSample': return (s + (('inc',),),)
        if n == 'NofSamples' and e.args:
            return (s + (('nof', callname(strip(e.args[0])) == 'Sample'),),)
        return (s,)

    def rng(self, a, b):
        a, b = strip(a), strip(b)
        if callname(a) in ('cbegin', 'begin') and callname(b) in ('cend', 'end') and a[2] == b[2]:
            return self.item(a[2])
        return ('range', show(a), show(b))

    def state(self, e, s):
        o = strip(e.obj) if e.obj is not None else None
        if e.k == 'set' and o is not None and o[0] == 'fld' and o[2] == 'vlsd_index_':
            return s + (('step', strip(e.val)),)
        return s

    def ret(self, v, loc, s):
        return (s + (('ret', strip(v) if v is not None else None),),)


def primitives(db, R):
    eng = sym.Engine(db, inline=lambda fid, g, d: g.get('cls') in (D + 'Cg4Block', D + 'Cn4Block') and base(g['n']) not in ('RecordId', 'NofSamples', 'Sample', 'IncrementSample', 'WriteNumber'), max_depth=3)
    eng.track = ('vlsd_index_',)
    found = 0
    for nm, vl in (('WriteSample', 0), ('WriteCompressedSample', 0), ('WriteVlsdSample', 1), ('WriteCompressedVlsdSample', 1)):
        f = next((f for f in db.funcs.values() if f.get('cls') == D + 'Cg4Block' and base(f['n']) == nm), None)
        if f is None: raise facts.AnalysisError('Cg4Block::%s not found' % nm)
        found += 1
        R.analysed(f)
        t = eng.summarize(f)
        src = f['p'][2]['n']
        for idsize in (0, 1, 2, 4, 8):
            em = Emit(idsize, f, db)
            o = em.run(t, {()})
            want = ([('num', idsize, 'id')] if idsize else []) + ([('num', 4, 'len(%s)' % src)] if vl else []) + [('bytes', src)]
            for s in o.n | o.ret:
                got = [x for x in s if x[0] in ('num', 'bytes', 'byte', 'range', 'misplaced')]
                R.count('record primitives')
                if got != want:
                    R.violate('sample.format', '%s/%d' % (nm, idsize), (f['file'], f['line']), '%s writes %s for a record id of %d bytes, expected %s' % (f['n'], got, idsize, want))
                if s.count(('inc',)) != 1 or ('nof', True) not in s or s.index(('nof', True)) < s.index(('inc',)):
                    R.violate('sample.counter', nm, (f['file'], f['line']), '%s does not count exactly one sample per record' % f['n'])
                if vl:
                    st = [x for x in s if x[0] == 'step']
                    ret = [x for x in s if x[0] == 'ret']
                    if len(st) != 1 or not step_ok(st[0][1], src):
                        R.violate('sample.index', nm, (f['file'], f['line']), '%s does not move the variable length index by the 4 length bytes and the data' % f['n'])
                    if not ret or ret[0][1] != ('fld', ('this',), 'vlsd_index_'):
                        R.violate('sample.index', nm + '/ret', (f['file'], f['line']), '%s does not return the index of the data it wrote' % f['n'])
    f = next((f for f in db.funcs.values() if f.get('cls') == D + 'Cn4Block' and base(f['n']) == 'WriteSdSample'), None)
    if f is None: raise facts.AnalysisError('Cn4Block::WriteSdSample not found')
    R.analysed(f)
    src = f['p'][0]['n']
    t = eng.summarize(f)
    em = Emit(0, {'p': [{'n': '?'}, {'n': '?'}]}, db)
    o = em.run(t, {()})
    for s in o.n | o.ret:
        R.count('record primitives')
        got = [x for x in s if x[0] in ('num', 'bytes', 'byte', 'range', 'misplaced')]
        if got != [('num', 4, 'len(%s)' % src), ('bytes', src)]:
            R.violate('sample.format', 'WriteSdSample', (f['file'], f['line']), '%s stores %s, expected the length and the data' % (f['n'], got))
        idx = [i for i, x in enumerate(s) if x[0] == 'size' and x[1] == 'data_list_']
        first = next((i for i, x in enumerate(s) if x[0] in ('num', 'bytes')), 99)
        ret = [x for x in s if x[0] == 'ret']
        if not idx or max(idx) > first or not ret or callname(ret[0][1]) != 'size':
            R.violate('sample.index', 'WriteSdSample', (f['file'], f['line']), '%s does not return the offset at which the data was stored' % f['n'])


def step_ok(v, src):
    """vlsd_index_ + 4 + source.size(): written either as counts or as sputn results"""
    terms = []
    def go(x):
        if x[0] == 'op' and x[1] == '+': go(x[2]); go(x[3])
        else: terms.append(x)
    go(v)
    rest = [x for x in terms if x != ('fld', ('this',), 'vlsd_index_')]
    if len(rest) != len(terms) - 1: return False
    four = data = 0
    for x in rest:
        n = callname(x)
        if x == ('c', 4): four += 1
        elif n == 'size' and 'LittleBuffer' in repr(x[2]): four += 1
        elif n == 'size' and x[2] == ('parm', src): data += 1
        elif n == 'sputn':
            if x[3][1] == ('c', 4) or callname(x[3][1]) == 'size' and 'LittleBuffer' in repr(x[3][1]): four += 1
            elif callname(x[3][1]) == 'size' and x[3][1][2] == ('parm', src): data += 1
            else: return False
        else: return False
    return four == 1 and data == 1


# --- queue operations ------------------------------------------------------
def queue_ops(db, R, m):
    want = {'AddSample': (['+', 'back'],), 'PushSample': (['+', 'front'],), 'GetSample': (['read', 'popfront', '-'], ['read', '-', 'popfront']), 'PopSample': (['-', 'popfront'],)}
    for nm, alts in want.items():
        fs = [f for f in db.funcs.values() if f.get('cls') == QUEUE and base(f['n']) == nm and not (nm == 'AddSample' and len(f['p']) != 1)]
        if not fs: raise facts.AnalysisError('SampleQueue::%s not found' % nm)
        for f in fs:
            R.analysed(f); R.count('queue operations')
            class Q(flow.Flow):
                def eff(self, e, s):
                    n = base(e.name); o = strip(e.obj) if e.obj is not None else None
                    if o is None or o[0] != 'fld' or o[1] != ('this',): return (s,)
                    if o[2] in m.guarded:
                        x = {'emplace_back': 'back', 'push_back': 'back', 'push_front': 'front', 'emplace_front': 'front', 'pop_front': 'popfront', 'pop_back': 'popback', 'front': 'read', 'back': 'readback', 'clear': 'clear', 'erase': 'erase', 'insert': 'insert'}.get(n)
                        if x: return (s + (x,),)
                        return (s,)
                    if 'size' in o[2]:
                        if n in ('operator+=', 'fetch_add') or e.k == 'set' and e.name == '+=':
                            return (s + ('+' if samplesize(e) else '+?',),)
                        if n in ('operator-=', 'fetch_sub') or e.k == 'set' and e.name == '-=':
                            return (s + ('-' if samplesize(e) else '-?',),)
                    return (s,)
            o = Q().run(m.tree(f), {()})
            for s in o.n | o.ret:
                g = [x for x in s if x in ('+', '-', '+?', '-?', 'back', 'front', 'popfront', 'popback', 'readback', 'clear', 'erase', 'insert') or x == 'read' and nm == 'GetSample']
                if not any(sorted(g) == sorted(a) for a in alts) or nm == 'GetSample' and ('read' not in g or g.index('read') > g.index('popfront')):
                    R.violate('sample.queue', nm, (f['file'], f['line']), '%s does [%s] to the queue, expected [%s]' % (f['n'], ' '.join(g), ' '.join(alts[0])))
            if nm == 'GetSample':
                for x in sym.walk(m.tree(f)):
                    if x[0] == 'ret' and (x[1] is None or 'front' not in show(strip(x[1]))):
                        R.violate('sample.queue', nm + '/ret', (f['file'], f['line']), '%s does not return the oldest sample' % f['n'])


def samplesize(e):
    return any('SampleSize' in show(strip(a)) for a in e.args) or e.val is not None and 'SampleSize' in show(strip(e.val))


# --- user entry points of the queue ---------------------------------------
class Save(flow.Flow):
    def __init__(self, f, R, parm):
        self.f, self.R, self.parm = f, R, parm
        self.v = []

    def eff(self, e, s):
        n = base(e.name)
        if e.k in ('set', 'call') and e.obj is not None and strip(e.obj)[0] == 'fld' and strip(e.obj)[2] == 'timestamp' and (e.k == 'set' or n == 'operator='):
            v = strip(e.val if e.k == 'set' else e.args[0])
            return (s + (('time', v == ('parm', self.parm)),),)
        if e.k == 'call' and n == 'RecalculateTime':
            ok = len(e.args) == 2 and (callname(strip(e.args[0])) == 'RecordId' or show(strip(e.args[0])).endswith('record_id'))
            return (s + (('recalc', ok),),)
        if e.k == 'call' and n == 'ToRaw': return (s + (('raw', True),),)
        if e.k == 'call' and n == 'AddSample': return (s + (('add', True),),)
        return (s,)


def entry(db, R, m):
    n = 0
    for f in sorted(db.funcs.values(), key=lambda f: f['id']):
        if f.get('cls') not in m.classes or not (base(f['n']).startswith('Save') and base(f['n']) not in ('SaveQueue', 'SaveQueueCompressed') or base(f['n']) == 'AddSample' and len(f['p']) == 3): continue
        if f['id'] in m.lockp: continue
        n += 1
        R.analysed(f); R.count('queue entry points')
        tp = next((p['n'] for p in f['p'] if p['t'] in ('unsigned long', 'const unsigned long', 'uint64_t', 'unsigned long long')), None)
        if tp is None: raise facts.AnalysisError('%s has no time parameter' % f['n'])
        eng = sym.Engine(db, inline=lambda fid, g, d: g.get('cls') in m.classes and base(g['n']) not in ('RecalculateTime', 'AddSample') or g.get('cls') is None and g['file'].endswith('samplequeue.cpp'), max_depth=3)
        fl = Save(f, R, tp)
        o = fl.run(eng.summarize(f), {()})
        added = False
        for s in o.n | o.ret:
            k = [x[0] for x in s]
            if 'add' not in k:
                if not s: continue      # message of another kind
                R.violate('sample.entry', base(f['n']) + '/lost', (f['file'], f['line']), '%s prepares a sample and does not add it to the queue' % f['n']); continue
            added = True
            if k.count('add') != 1:
                R.violate('sample.entry', base(f['n']) + '/twice', (f['file'], f['line']), '%s adds a sample %d times' % (f['n'], k.count('add')))
            if not all(x[1] for x in s) or k.count('time') < 1 or 'recalc' not in k or k.index('time') > k.index('recalc') or k.index('recalc') > k.index('add') or k[-1] != 'add':
                R.violate('sample.entry', base(f['n']) + '/time', (f['file'], f['line']), '%s adds a sample without its time stamp or without calculating its master channel (%s)' % (f['n'], ' '.join(k)))
            if 'Message' in base(f['n']) and 'raw' not in k and not any(c in f['n'] for c in ('CanMessage', 'LinMessage', 'EthMessage')):
                R.violate('sample.entry', base(f['n']) + '/raw', (f['file'], f['line']), '%s adds a sample that does not hold the message' % f['n'])
        if not added:
            R.violate('sample.entry', base(f['n']) + '/never', (f['file'], f['line']), '%s never adds a sample' % f['n'])
    if n < 7: raise facts.AnalysisError('queue entry points not found (%d)' % n)


def reltime(db, R, m):
    """master channel value = (time stamp - start time) / 1e9"""
    n = 0
    for f in sorted(m.own(), key=lambda f: f['id']):
        eng = sym.Engine(db, inline=lambda fid, g, d: g.get('cls') in m.classes or g.get('cls') is None and g['file'].endswith('samplequeue.cpp'), max_depth=2)
        eng.exact = True
        t = eng.summarize(f) if 'SetTimestamp' in repr(f.get('body')) or base(f['n']).startswith('RecalculateTime') else []
        for e in sym.effects(t):
            if e.k == 'call' and base(e.name) == 'SetTimestamp':
                n += 1
                R.analysed(f); R.count('master time values')
                v = strip(e.args[0])
                ok = seconds(e.args[0])
                if not ok:
                    R.violate('sample.time', f['id'], e.loc, '%s sets the master channel to %s, expected the seconds since the start time' % (f['n'], show(v)))
                if not (len(e.args) > 1 and show(strip(e.args[1])).endswith('record_buffer')):
                    R.violate('sample.time', f['id'] + '/buf', e.loc, '%s stores the time of a sample in %s' % (f['n'], show(e.args[-1])))
    if not n: raise facts.AnalysisError('no master channel value is set')


SIGNED = ('long', 'long long', 'int64_t')


def seconds(v):
    """(double)(timestamp - StartTime) / 1e9 with a signed difference; v keeps its conversions"""
    def core(x):
        while x[0] == 'cast' and x[1] in ('double', 'float') : x = x[2]
        return x
    if v[0] != 'op' or v[1] not in '*/': return False
    k = v[3]
    if (v[1] == '/' and k != ('c', 1e9)) or (v[1] == '*' and k != ('c', 1e-9)): return False
    if not (isinstance(k[1], float)): return False
    if not (v[2][0] == 'cast' and v[2][1] == 'double'): return False
    d = core(v[2])
    if d[0] == 'cast' and d[1] in SIGNED: ok, d = True, d[2]
    else: ok = None
    while d[0] == 'cast' and d[1] in SIGNED + ('unsigned long', 'unsigned long long'): d = d[2]
    if d[0] != 'op' or d[1] != '-': return False
    if ok is None: ok = all(x[0] == 'cast' and x[1] in SIGNED for x in (d[2], d[3]))
    a, b = strip(d[2]), strip(d[3])
    return bool(ok) and a[0] == 'fld' and a[2] == 'timestamp' and callname(b) == 'StartTime'


def trim(db, R, m):
    f = next((f for f in db.funcs.values() if f.get('cls') == QUEUE and base(f['n']) == 'TrimQueue'), None)
    if f is None: raise facts.AnalysisError('SampleQueue::TrimQueue not found')
    R.analysed(f)
    t = m.tree(f)
    for started, rel, n in product((0, 1), (-1, 0, 1), (0, 1, 2, 3)):
        # next sample relative to the limit of the pre-trig window: before, at, after
        START, PRE, LAST = 1000 * started, 100, 5000
        nxt = (START - PRE + rel) if started else (LAST - PRE + rel)
        def orc(x, V):
            k = callname(x)
            if k == 'StartTime': return START
            if k == 'PreTrigTimeNs': return PRE
            if k == 'size': return n
            if k == 'empty': return int(n == 0)
            if x[0] == 'fld' and x[2] == 'timestamp':
                s = show(x[1])
                if callname(x[1]) == 'back': return LAST
                if x[1][0] == 'at' and x[1][2] == ('c', 1) or callname(x[1]) == 'at' and x[1][3] == (('c', 1),): return nxt
                return None
            return None
        hits = []
        class T(flow.Flow):
            def cond(self, c, taken, s):
                v = V.truth(c)
                return (s,) if v is None or v == taken else ()
            def eff(self, e, s):
                if e.k == 'call' and (base(e.name) in ('PopSample', 'pop_front', 'GetSample', 'clear', 'erase', 'Reset')): hits.append(e.loc)
                return (s,)
        V = Val(orc)
        # one round: body of the loop from its head
        T().run(t, {0})
        R.count('trim cases')
        keep = n < 2 or rel >= 0
        if hits and keep:
            R.violate('sample.trim', 'lost', hits[0], 'TrimQueue removes a sample that lies within the pre-trig time (%s measurement, %d samples)' % ('started' if started else 'not started', n))
            return
        if not hits and not keep:
            R.violate('sample.trim', 'kept', (f['file'], f['line']), 'TrimQueue keeps samples that are older than the pre-trig time')
            return


# --- worker, start and stop ------------------------------------------------
def worker(db, R, m):
    from .lock_rule import thread_functions
    w = thread_functions(db)
    fs = [f for f in db.funcs.values() if f['id'] in w and f.get('cls') == CACHE]
    if not fs: raise facts.AnalysisError('worker thread not found')
    for f in fs:
        R.analysed(f); R.count('worker ends')
        eng = sym.Engine(db, inline=lambda fid, g, d: g.get('cls') == CACHE, max_depth=3)
        class W(flow.Flow):
            """no: queues not emptied since the last wait"""
            def eff(self, e, s):
                if e.k == 'call' and base(e.name).startswith('wait'): return ('no',)
                if e.k == 'call' and base(e.name) == 'CleanQueue' and e.fid and 'SampleQueue' in e.name: return ('clean',) if s != 'skip' else (s,)
                return (s,)
            def enter_loop(self, info, s):
                return s
            def node(self, x, cur):
                if x[0] == 'loop' and x[1].get('range') is not None and 'cache_' in show(strip(x[1]['range'])):
                    cs = [e for e in sym.effects(x[2]) if e.k == 'call' and base(e.name) == 'CleanQueue']
                    brk = any(y[0] in ('brk', 'ret') for y in sym.walk(x[2]))
                    sw = [y for y in sym.walk(x[2]) if y[0] == 'switch' or y[0] == 'if' and 'State' in show(strip(y[1]))]
                    o = flow.Out()
                    if cs and not sw and not brk:
                        o.n = {'clean'}; return o
                    if sw:
                        self.table(x)
                return super().node(x, cur)
            def table(self, x):
                pass
        o = W().run(eng.summarize(f), {'no'})
        if 'no' in o.n or 'no' in o.ret:
            R.violate('sample.flush', base(f['n']), (f['file'], f['line']), '%s can end without saving what is left in the sample queues' % f['n'])
    # what the worker does with a queue in each state of the writer
    st = db.enums.get('mdf::WriteState')
    if not st: raise facts.AnalysisError('WriteState not found')
    val = dict(map(tuple, st['c']))
    OPS = ('TrimQueue', 'SaveQueue', 'CleanQueue', 'Reset', 'PopSample', 'GetSample')
    want = {('Init', 0): {'TrimQueue'}, ('Init', 1): {'TrimQueue'}, ('StartMeas', 0): set(), ('StartMeas', 1): {'SaveQueue'}, ('StopMeas', 0): {'CleanQueue'}, ('StopMeas', 1): {'CleanQueue'}}
    for f in fs:
        t = sym.Engine(db, inline=lambda fid, g, d: g.get('cls') == CACHE, max_depth=3).summarize(f)
        loops = [x for x in t if x[0] == 'loop']
        if not loops: raise facts.AnalysisError('worker loop not found')
        for (name, per), w_ in want.items():
            if name not in val: raise facts.AnalysisError('WriteState::%s not found' % name)
            ops = {}
            class T(flow.ValFlow):
                V = Val(lambda x, V: val[name] if callname(x) == 'State' else per if callname(x) == 'IsSavePeriodic' else 0 if 'stop' in show(x) else ('ptr', 'q') if x[0] in ('fld', 'at') and 'cache_' in show(x) else None)
                def eff(self, e, s):
                    if e.k == 'call' and base(e.name) in OPS: ops[base(e.name)] = e.loc
                    return (s,)
            T().run(loops[:1], {0})
            R.count('worker states')
            if set(ops) - w_:
                x = sorted(set(ops) - w_)[0]
                R.violate('sample.state', name, ops[x], 'the worker does %s with the queue in state %s, expected %s' % (x, name, ', '.join(w_) or 'nothing'))
            elif w_ - set(ops):
                R.violate('sample.state', name, (f['file'], f['line']), 'the worker does not %s in state %s' % (', '.join(w_), name))


CLASSES = ('Mdf3Writer', 'Mdf4Writer')


def delegate(db, R, m):
    """writer entry points hand over to the cache and the cache to the queue, with the same arguments"""
    n = 0
    for c in db.classes:
        if not (c == 'mdf::MdfWriter' or 'mdf::MdfWriter' in db.bases(c)): continue
        for f in db.funcs.values():
            if f.get('cls') != c: continue
            b = base(f['n'])
            if not (b.startswith('Save') and (b.endswith('Message') or b == 'SaveSample') or b == 'AddSample'): continue
            if 'write_cache_' not in repr(f.get('body')): 
                if f.get('cls') == 'mdf::MdfWriter': continue
            fwd(db, R, m, f, CACHE, ['write_cache_']); n += 1
    for f in db.funcs.values():
        if f.get('cls') != CACHE: continue
        b = base(f['n'])
        if not (b.startswith('Save') and (b.endswith('Message') or b == 'SaveSample') or b == 'AddSample'): continue
        fwd(db, R, m, f, QUEUE, []); n += 1
    if n < 20: raise facts.AnalysisError('writer entry points not found (%d)' % n)


def fwd(db, R, m, f, target, _):
    R.analysed(f); R.count('delegations')
    b = base(f['n'])
    eng = sym.Engine(db, inline=lambda fid, g, d: g.get('cls') == f.get('cls') and base(g['n']) not in ('GetSampleQueue',) and g['id'] != f['id'], max_depth=2)
    t = eng.summarize(f)
    calls = []
    class F(flow.Flow):
        def eff(self, e, s):
            if e.k == 'call' and (e.name or '').startswith(target + '::') and base(e.name) in ([b] + (['AddSample'] if b == 'AddSample' else [])):
                calls.append(e)
                return (s + 1,)
            return (s,)
        def cond(self, c, taken, s):
            c = strip(c)
            # the queue of the group exists
            if 'GetSampleQueue' in show(c):
                v = Val(lambda x, V: ('ptr', 'q') if callname(x) == 'GetSampleQueue' else None).truth(c)
                if v is not None: return (s,) if v == taken else ()
            return (s,)
    o = F().run(t, {0})
    counts = o.n | o.ret
    if counts != {1}:
        R.violate('sample.delegate', f['id'], (f['file'], f['line']), '%s hands a sample over %s times' % (f['n'], '/'.join(map(str, sorted(counts)))))
        return
    for e in calls:
        mine = [p['n'] for p in f['p']]
        got = [show(strip(a)) for a in e.args]
        ps = db.funcs.get(e.fid, {}).get('p') or db.decls.get(e.fid, {}).get('p')
        args = [x for x in got]
        need = [x for x in mine if x in args]
        # the same parameters in the same order; the cache may use the data group to pick the queue
        q = [x for x in mine if x not in args]
        types = {p['n']: p['t'] for p in f['p']}
        missing = [x for x in q if not ('IDataGroup' in types[x])]
        if missing or [x for x in args if x in mine] != need or any(x not in mine for x in args):
            R.violate('sample.delegate', f['id'], e.loc, '%s hands over (%s) to %s' % (f['n'], ', '.join(got), e.name))


def run(db, R):
    m = Model(db)
    savers(db, R, m)
    primitives(db, R)
    queue_ops(db, R, m)
    entry(db, R, m)
    reltime(db, R, m)
    trim(db, R, m)
    acc_rule.pretrig(db, R, 'sample.trim')
    worker(db, R, m)
    delegate(db, R, m)
