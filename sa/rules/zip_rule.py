"""Compression: the transposition is a permutation and its inverse, the zlib driver loops hand
every byte to zlib and every byte zlib makes to the destination, and DZ blocks state what they hold.

zlib and the streams are models: each call may do anything their documentation allows, and
every combination of what they may do (up to a bound) is followed through the code."""
from .. import absint as A
from ..absint import Interp, Int, Ptr, Ref, K, Opq, NULL, Undecided, Thrown
from ..facts import AnalysisError

DB = None
Z = dict(OK=0, END=1, NEED=2, STREAM=-2, DATA=-3, MEM=-4, BUF=-5)
FINISH = 4
CHUNK = 16384


class Stop(Exception):
    """the model's bound is reached"""


def bound(n): return n + (n >> 12) + (n >> 14) + (n >> 25) + 13


def fns(name): return [DB.funcs[i] for i in DB.by_name.get(name, ()) if i in DB.funcs]


class World:
    """one run: the choices of the environment, what was read, made and written"""

    def __init__(self, prefix, mode, total_in, limit=14):
        self.prefix, self.trace, self.limit = prefix, [], limit
        self.mode = mode                                  # 'deflate' | 'inflate'
        self.left = total_in                              # bytes the input stream still has
        self.I = Interp(DB, oracle=self.oracle)
        self.open = self.ended = 0                        # Init / End calls
        self.chunk = None                                 # (ptr, bytes left) of the input zlib has not taken yet
        self.made = []                                    # (ptr, n) made and not written
        self.bad = []
        self.fail = False                                 # something failed that the caller must hear about
        self.end = False
        self.error = None
        self.full = False                                 # zlib may have more output
        self.eof = False
        self.read = 0
        self.out_total = 0
        self.line = 0

    def pick(self, n, what):
        if len(self.trace) >= self.limit: raise Stop()
        c = self.prefix[len(self.trace)] if len(self.trace) < len(self.prefix) else 0
        self.trace.append((c, n, what))
        return c

    def field(self, s, name, t='unsigned int'):
        return self.I.load(('cell', s.id + ('f', name), t))

    def put(self, s, name, v): self.I.mem[s.id + ('f', name)] = v

    def zs(self, n):
        v = self.I.ev(n)
        if isinstance(v, Ptr) and v.base[0] == 'cell': v = self.I.load(('cell', v.base[1], v.base[2]))
        if not isinstance(v, Ref): raise Undecided('z_stream')
        return v

    def say(self, key, msg): self.bad.append((key, self.I.line, msg))

    def oracle(self, name, obj, a, I):
        if name.startswith(('.', 'new ')): return None
        n = a[0]
        x = n.get('a') or ()
        if name in ('deflateInit_', 'inflateInit_', 'deflateInit2_', 'inflateInit2_'):
            self.open += 1
            if self.pick(2, name):
                self.fail = True; self.open -= 1; return K(32, 1, Z['MEM'])
            return K(32, 1, 0)
        if name in ('deflateEnd', 'inflateEnd'):
            self.ended += 1
            return K(32, 1, 0)
        if name in ('compressBound', 'deflateBound'):
            v = I.ev(x[-1])
            if v.c is None: raise Undecided('bound')
            return K(64, 0, bound(v.c))
        if name == 'file_size': return K(64, 0, self.size)
        if name == 'open': self.isopen = 1 - self.pick(2, name); self.fail = self.fail or not self.isopen; return Opq('file')
        if name == 'is_open': return K(1, 0, self.isopen)
        if name == 'close': self.isopen = 0; return Opq('file')
        if name in ('deflate', 'inflate'):
            return self.step(name, self.zs(x[0]), I.ev(x[1]))
        if name == 'sgetn':
            p, k = I.asptr(I.ev(x[0])), I.ev(x[1])
            if k.c is None: raise Undecided('read size')
            if self.chunk and self.chunk[1]: self.say('input', 'input is overwritten before it was handed to zlib')
            I.inside(p.base, p.off, k.c, 'write') or None
            got = min(k.c, self.left)
            self.left -= got; self.read += got
            self.chunk = (p, got)
            self.eof = self.eof or got < k.c
            return K(64, 1, got)
        if name == 'sputn':
            p, k = I.asptr(I.ev(x[0])), I.ev(x[1])
            if k.c is None: raise Undecided('write size')
            m = self.made.pop(0) if self.made else None
            if m is None:
                if k.c: self.say('output', 'bytes are written that zlib did not make')
                return K(64, 1, k.c)
            if m != (p, k.c): self.say('output', 'the bytes written are not those zlib made')
            if k.c and self.pick(2, 'sputn'):
                self.fail = True; return K(64, 1, k.c - 1)
            return K(64, 1, k.c)
        return None

    def step(self, name, s, flush):
        if self.open - self.ended != 1: self.say('typestate', '%s is called on a stream that is not initialised' % name)
        nin, nout = self.field(s, 'avail_in'), self.field(s, 'avail_out')
        if nin.c is None or nout.c is None or flush.c is None: raise Undecided('stream state')
        pin, pout = self.I.mem.get(s.id + ('f', 'next_in')), self.I.mem.get(s.id + ('f', 'next_out'))
        if not isinstance(pout, Ptr): raise Undecided('next_out')
        if nin.c:
            if self.chunk is None or not isinstance(pin, Ptr) or (pin, nin.c) != self.chunk: self.say('input', '%s is given %d bytes that are not the input read' % (name, nin.c))
        elif self.chunk and self.chunk[1]: self.say('input', 'the input read is not given to ' + name)
        if self.made: self.say('output', 'output zlib made is not written before more is made')
        if not self.I.inside(pout.base, pout.off, nout.c, 'write'): self.say('bounds', '%s may write outside the output buffer' % name)
        finish = flush.c == FINISH
        choices = []                                      # (return, input left, output left)
        if self.end:                                      # zlib keeps reporting the end
            return K(32, 1, Z['END'])
        if self.error is not None: return K(32, 1, self.error)
        if name == 'deflate':
            if finish and self.left: self.say('finish', 'deflate is finished before all input was read')
            need = bound(nin.c) if self.out_total == 0 else 0
            choices.append((Z['END'] if finish else Z['OK'], 0, nout.c - 1 if nout.c > 1 else 0))
            if finish and nout.c: choices.append((Z['END'], 0, 0))
            if nout.c < need or self.mode == 'deflate-stream': choices.append((Z['OK'], 0 if self.out_total else nin.c // 2, 0))
            choices.append((Z['STREAM'], nin.c, nout.c))
        else:
            choices.append((Z['END'], 0, nout.c - 1 if nout.c > 1 else 0))
            choices.append((Z['OK'], nin.c // 2 if not self.out_total else 0, 0))
            choices.append((Z['OK'] if nin.c else Z['BUF'], 0, nout.c - (1 if nin.c else 0)))
            choices.append((Z['END'], 0, 0))
            for e in ('NEED', 'DATA', 'MEM', 'STREAM'): choices.append((Z[e], nin.c, nout.c))
        ret, lin, lout = choices[self.pick(len(choices), name)]
        used, made = nin.c - lin, nout.c - lout
        self.put(s, 'avail_in', K(32, 0, lin)); self.put(s, 'avail_out', K(32, 0, lout))
        if isinstance(pin, Ptr): self.put(s, 'next_in', Ptr(pin.base, A.arith('+', pin.off, K(64, 0, used), 64, 0), pin.es))
        self.put(s, 'next_out', Ptr(pout.base, A.arith('+', pout.off, K(64, 0, made), 64, 0), pout.es))
        if self.chunk: self.chunk = (Ptr(self.chunk[0].base, A.arith('+', self.chunk[0].off, K(64, 0, used), 64, 0), self.chunk[0].es), self.chunk[1] - used)
        self.out_total += made
        if made: self.made.append((pout, made))
        if ret == Z['END']: self.end = True
        elif ret not in (Z['OK'], Z['BUF']): self.fail = True; self.error = ret
        self.full = lout == 0 and ret == Z['OK']
        return K(32, 1, ret)


def explore(mode, f, setup, total_in, limit=14, cap=4000):
    prefix, runs = [], 0
    while True:
        w = World(prefix, mode, total_in, limit)
        r = None
        try:
            r = w.I.run(f, None, setup(w))
            r = A.truth(r)
        except Stop: r = 'stop'
        runs += 1
        yield w, r
        if runs > cap: return
        prefix = [t[0] for t in w.trace]
        k = [t[1] for t in w.trace]
        while prefix and prefix[-1] + 1 >= k[len(prefix) - 1]: prefix.pop()
        if not prefix: return
        prefix[-1] += 1


def kind(f):
    ts = [p['t'] for p in f['p']]
    return tuple('stream' if 'streambuf' in t or 'stream' in t else 'bytes' if 'vector' in t else 'name' if 'string' in t else 'size' for t in ts)


def drivers(R):
    for name in ('mdf::Deflate', 'mdf::Inflate'):
        fl = fns(name)
        if not fl: raise AnalysisError(name + ' not found')
        for f in fl:
            k = kind(f)
            R.analysed(f)
            driver(R, name.split('::')[1], f, k)


def driver(R, name, f, k):
    where = lambda l: (f['file'], l or f['line'])
    what = '%s(%s)' % (name, ', '.join(k))
    inf = name == 'Inflate'
    if k[0] == 'name':
        for total, size in ((0, 0), (1, 1), (50, 50), (500, 500), (400, 500), (500000, 500000)):
            for cap in (0, 40, 600):
                def setup(w):
                    w.dst = w.I.new_vec(K(64, 0, cap))
                    w.size, w.isopen = size, 0
                    return [Opq('name'), w.dst]
                judge(R, what, f, explore('deflate', f, setup, total), None, total, cap)
        return
    if k[0] == 'stream':
        sizes = (0, 100, CHUNK, CHUNK + 5)
        for total in sizes:
            for limit in ((total, total + 3, max(total - 7, 1)) if 'size' in k else (None,)):
                def setup(w):
                    a = [Opq('in'), Opq('out')]
                    if 'size' in k: a.append(K(64, 0, limit))
                    return a
                judge(R, what, f, explore('inflate' if inf else 'deflate-stream', f, setup, total), limit, total)
    else:
        for total in (0, 1, 50, 1000, 500000):
            for cap in ((0, 40, 100, total, total + 100) if k[1] == 'bytes' else (None,)):
                def setup(w):
                    src = w.I.new_vec(K(64, 0, total))
                    w.src = src
                    w.chunk = (Ptr(('vec', src.id), K(64, 0, 0), 1), total)
                    w.left = 0; w.eof = True
                    if cap is None: return [src, Opq('out')]
                    w.dst = w.I.new_vec(K(64, 0, cap))
                    return [src, w.dst]
                judge(R, what, f, explore('inflate' if inf else 'deflate', f, setup, 0), None, total, cap)


def judge(R, what, f, runs, limit, total, cap=None):
    inf = what.startswith('Inflate')
    oneshot = 'bytes)' in what
    seen = set()

    def v(key, line, msg):
        if key not in seen:
            seen.add(key); R.violate('zip.driver', what + '/' + key, (f['file'], line or f['line']), '%s: %s' % (what, msg))
    try:
        for w, r in runs:
            R.count('zlib runs')
            for key, line, msg in w.bad:
                if key in ('bounds', 'typestate') or r == 1: v(key, line, msg)
            for o in w.I.oob[:1]: v('bounds', o[1], 'a buffer is accessed outside its bounds')
            if r == 'stop': R.count('zlib runs cut'); continue
            if w.ended != w.open: v('end', 0, 'the zlib stream is %s' % ('never released' if w.ended < w.open else 'released twice'))
            if limit is not None and w.read > limit: v('limit', 0, 'more than the %s bytes of the compressed data are read' % limit)
            done = w.end and not w.fail and not (w.chunk and w.chunk[1]) or False
            if not inf: done = done and w.left == 0
            if r == 1:
                if not w.end: v('incomplete', 0, 'success is reported although the %s stream is not complete' % ('uncompressed' if inf else 'compressed'))
                elif w.fail: v('failure', 0, 'success is reported although %s' % 'a call failed')
                if w.made and not oneshot: v('output', 0, 'output zlib made is not written')
                if oneshot:
                    n = sum(m[1] for m in w.made)
                    s = w.I.vsize(w.dst)
                    if s.c != n: v('size', 0, 'the size of the result is not the number of bytes zlib made')
            elif r == 0:
                if total and not w.fail and not w.end and not oneshot and (not inf or w.full): v('stopped', 0, 'failure is reported although nothing failed: zlib is not called until it has no more output')
                if done and total: v('lost', 0, 'failure is reported although all data was %s' % ('uncompressed' if inf else 'compressed'))
                if not inf and oneshot and total and not w.fail and not w.end: v('capacity', 0, 'data that does not become smaller is not compressed because the output buffer is too small')
            else: R.count('scenarios left open'); R.notes.append('left open %s: %s' % (what, r))
    except (Undecided, Thrown) as e:
        R.count('scenarios left open'); R.notes.append('left open %s: %s' % (what, e))


class Plain:
    """calls of a block to the compression functions and the file"""

    def __init__(self, cls, fields, ok=1, got=None):
        self.I = Interp(DB, oracle=self.oracle, this_cls=cls)
        self.this = Ref(('block',), cls)
        self.ok, self.got = ok, got
        self.log = []
        self.fields = fields
        for n, v in fields.items(): self.I.mem[self.this.id + ('f', n)] = v

    def vec(self, n):
        v = self.I.ev(n)
        if isinstance(v, Ptr) and v.base[0] == 'cell': v = self.I.load(('cell', v.base[1], v.base[2]))
        return v

    def content(self, v):
        n = self.I.vsize(v).c
        return self.I.read_bytes(Ptr(('vec', v.id), K(64, 0, 0), 1), n) if n is not None else None

    def fill(self, v, n, tag):
        self.I.clear(v) if hasattr(self.I, 'clear') else None
        self.I.mem[v.id + ('size',)] = K(64, 0, n)
        self.I.write_bytes(Ptr(('vec', v.id), K(64, 0, 0), 1), [tuple((tag, i, j) for j in range(8)) for i in range(n)])

    def oracle(self, name, obj, a, I):
        if name.startswith(('.', 'new ')): return None
        x = a[0].get('a') or ()
        if name in ('Deflate', 'Inflate') and obj is None:
            t = kind({'p': [{'t': y.get('t') or ''} for y in x]})
            if t == ('bytes', 'bytes'):
                src, dst = self.vec(x[0]), self.vec(x[1])
                self.log.append((name, self.content(src), I.vsize(dst).c))
                self.fill(dst, self.got if self.got is not None else 7 if name == 'Deflate' else I.vsize(dst).c, 'z' if name == 'Deflate' else 'u')
            else: self.log.append((name, t, tuple(I.ev(y) for y in x)))
            return K(1, 0, self.ok)
        if name in ('Transpose', 'InvTranspose') and obj is None:
            v, k = self.vec(x[0]), I.ev(x[1])
            self.log.append((name, self.content(v), k.c))
            n = I.vsize(v).c
            self.I.write_bytes(Ptr(('vec', v.id), K(64, 0, 0), 1), [tuple((name, i, j) for j in range(8)) for i in range(n)])
            return Opq('void')
        if name == 'SetFilePosition':
            self.log.append((name, I.ev(x[1]).c)); return Opq('void')
        if name in ('sgetn', 'sputn'):
            p, k = I.asptr(I.ev(x[0])), I.ev(x[1])
            if k.c is None: raise Undecided(name)
            if name == 'sgetn':
                self.log.append((name, k.c)); I.write_bytes(p, [tuple(('file', i, j) for j in range(8)) for i in range(k.c)], 'write')
            else: self.log.append((name, I.read_bytes(p, k.c, 'read')))
            return K(64, 1, k.c)
        return None


def seq(tag, n): return [tuple((tag, i, j) for j in range(8)) for i in range(n)]


def transposition(R):
    for name, inv in (('mdf::Transpose', 0), ('mdf::InvTranspose', 1)):
        fl = fns(name)
        if not fl: raise AnalysisError(name + ' not found')
        for f in fl:
            R.analysed(f)
            for size in list(range(0, 14)) + [20, 24, 35]:
                for rec in (0, 1, 2, 3, 4, 5, 7, 12, 30):
                    R.count('transposition cases')
                    I = Interp(DB, oracle=lambda *a: None)
                    v = I.new_vec(K(64, 0, size), init=lambda k, j: ('d', k[1], j))
                    try:
                        I.run(f, None, [v, K(64, 0, rec)])
                        n = I.vsize(v).c
                        got = I.read_bytes(Ptr(('vec', v.id), K(64, 0, 0), 1), n)
                    except Undecided as e:
                        R.count('scenarios left open'); R.notes.append('left open %s: %s' % (name, e)); continue
                    want = [('d', i) for i in range(size)]
                    rows = size // rec if rec else 0
                    for r in range(rows):
                        for c in range(rec):
                            if inv: want[r * rec + c] = ('d', c * rows + r)
                            else: want[c * rows + r] = ('d', r * rec + c)
                    if I.oob: R.violate('zip.transpose', name + '/bounds', (f['file'], I.oob[0][1]), '%s accesses bytes outside %d bytes of data with records of %d bytes' % (name, size, rec))
                    elif got != [tuple(w + (j,) for j in range(8)) for w in want]:
                        R.violate('zip.transpose', name, (f['file'], f['line']), '%s of %d bytes with records of %d bytes does not put each byte where the format says (or loses some)' % (name, size, rec))


D4 = 'mdf::detail::Dz4Block'


def meth(cls, name):
    for c in [cls] + list(DB.bases(cls)):
        l = [f for f in fns('%s::%s' % (c, name))]
        if l: return l
    raise AnalysisError('%s::%s not found' % (cls, name))


def blocks(R):
    zt = dict(DB.enums.get('mdf::detail::Dz4ZipType', {}).get('c', ()))
    if 'TransposeAndDeflate' not in zt: raise AnalysisError('Dz4ZipType not found')
    DEF, TRA = zt['Deflate'], zt['TransposeAndDeflate']
    # Data(): what the block says about the data it holds
    for f in meth(D4, 'Data'):
        if len(f['p']) != 1: continue
        R.analysed(f)
        w = (f['file'], f['line'])
        for ty in (DEF, TRA):
            for par in (0, 3):
                for size in (0, 10):
                    for ok in (1, 0):
                        R.count('DZ block cases')
                        P = Plain(D4, {'type_': K(8, 0, ty), 'parameter_': K(32, 0, par), 'orig_data_length_': K(64, 0, 99), 'data_length_': K(64, 0, 98)}, ok)
                        d = P.I.new_vec(K(64, 0, 4)); P.I.mem[P.this.id + ('f', 'data_')] = d
                        src = P.I.new_vec(K(64, 0, size), init=lambda k, j: ('d', k[1], j))
                        try: r = A.truth(P.I.run(f, P.this, [src]))
                        except Undecided as e:
                            R.count('scenarios left open'); R.notes.append('left open Dz4Block::Data: %s' % e); continue
                        g = lambda n: P.I.mem[P.this.id + ('f', n)]
                        d = g('data_')
                        data = P.content(d)
                        trans = ty == TRA and par > 0
                        what = 'a DZ block (zip type %d, parameter %d) set to %d bytes' % (ty, par, size)
                        if g('orig_data_length_').c != size: R.violate('zip.block', 'Data/original', w, '%s does not state their number as original length' % what)
                        if data is None or g('data_length_').c != len(data): R.violate('zip.block', 'Data/length', w, '%s does not state the number of compressed bytes' % what)
                        if size == 0:
                            if data: R.violate('zip.block', 'Data/empty', w, what + ' keeps old data')
                            continue
                        if g('type_').c != (TRA if trans else DEF): R.violate('zip.block', 'Data/type', w, '%s states the wrong zip type' % what)
                        if trans and g('parameter_').c != par: R.violate('zip.block', 'Data/parameter', w, '%s does not state the record size' % what)
                        want = ([('Transpose', seq('d', size), par)] if trans else []) + [('Deflate', seq('Transpose' if trans else 'd', size))]
                        if [l[:len(x)] for l, x in zip(P.log, want)] != want or len(P.log) != len(want): R.violate('zip.block', 'Data/content', w, '%s does not hold the %scompressed data' % (what, 'transposed and ' if trans else ''))
                        elif data != seq('z', 7): R.violate('zip.block', 'Data/content', w, '%s does not hold the compressed data' % what)
                        if r != ok: R.violate('zip.block', 'Data/result', w, '%s does not report whether they could be compressed' % what)
    # reading it back
    for name in ('CopyDataToFile', 'CopyDataToBuffer'):
        f = meth(D4, name)[0]
        R.analysed(f)
        w = (f['file'], f['line'])
        for ty in (DEF, TRA, 7):
            for ok in (1, 0):
                for pos, orig, length in ((500, 12, 9), (0, 12, 9), (500, 0, 9), (500, 12, 0)):
                    for room in ((5, 8, 30) if name.endswith('Buffer') else (None,)):
                        for got in (None, 4) if ok == 0 else (None,):
                            R.count('DZ block cases')
                            P = Plain(D4, {'type_': K(8, 0, ty), 'parameter_': K(32, 0, 3), 'orig_data_length_': K(64, 0, orig), 'data_length_': K(64, 0, length), 'data_position_': K(64, 1, pos)}, ok, got)
                            args = [Opq('from')]
                            if room is None: args.append(Opq('to'))
                            else:
                                dest = P.I.new_vec(K(64, 0, room), init=lambda k, j: ('old', k[1], j))
                                args += [dest, K(64, 0, 2)]
                            what = '%s of a DZ block (zip type %d%s)' % (name, ty, '' if ok else ', damaged data')
                            try:
                                r = P.I.run(f, P.this, args)
                            except Undecided as e:
                                if P.I.oob: R.violate('zip.block', name + '/bounds', (f['file'], P.I.oob[0][1]), '%s accesses memory outside its buffers when the destination holds %s bytes' % (what, room)); continue
                                R.count('scenarios left open'); R.notes.append('left open %s: %s' % (name, e)); continue
                            except Thrown: continue
                            if P.I.oob: R.violate('zip.block', name + '/bounds', (f['file'], P.I.oob[0][1]), '%s accesses memory outside its buffers%s' % (what, '' if room is None else ' when the destination holds %s bytes' % room)); continue
                            readable = pos and orig and length and ty in (DEF, TRA) and ok and (room is None or room >= 2 + orig)
                            if not readable:
                                if r.c != 0: R.violate('zip.block', name + '/count', w, '%s reports %s bytes although they cannot be delivered' % (what, r.c))
                                if room is not None and P.I.mem[P.I.params[2][1]].c != 2: R.violate('zip.block', name + '/index', w, '%s advances the buffer index although no data is delivered' % what)
                                continue
                            if r.c != orig: R.violate('zip.block', name + '/count', w, '%s does not report the number of original bytes' % what)
                            if not P.log or P.log[0] != ('SetFilePosition', pos): R.violate('zip.block', name + '/position', w, '%s does not read at the position of the data' % what); continue
                            L = P.log[1:]
                            tag = 'InvTranspose' if ty == TRA else 'u'
                            if room is None and ty == DEF and len(L) == 1 and L[0][0] == 'Inflate' and L[0][1][:2] == ('stream', 'stream'):
                                if [v.c if isinstance(v, Int) else v for v in L[0][2]] != [args[0], args[1], length]: R.violate('zip.block', name + '/source', w, '%s does not uncompress the data of the block into the destination' % what)
                                continue
                            want = [('sgetn', length), ('Inflate', seq('file', length), orig)] + ([('InvTranspose', seq('u', orig), 3)] if ty == TRA else [])
                            if L[:len(want)] != want: R.violate('zip.block', name + '/source', w, '%s does not uncompress the data of the block' % what); continue
                            if room is None:
                                if L[len(want):] != [('sputn', seq(tag, orig))]: R.violate('zip.block', name + '/content', w, '%s does not write the uncompressed data' % what)
                            else:
                                got_b = P.content(P.I.mem[P.I.params[1][1]] if P.I.params[1][0] == 'cell' else dest)
                                if got_b != [tuple(('old', i, j) for j in range(8)) for i in range(2)] + seq(tag, orig) + [tuple(('old', i, j) for j in range(8)) for i in range(2 + orig, room)]: R.violate('zip.block', name + '/content', w, '%s does not put the uncompressed data at the buffer index' % what)
                                if P.I.mem[P.I.params[2][1]].c != 2 + orig: R.violate('zip.block', name + '/index', w, '%s does not advance the buffer index by the number of original bytes' % what)


A4 = 'mdf::detail::At4Block'


class Attach(Plain):
    """an attachment: its file, the copy and the checksum"""

    def __init__(self, fields, ok, opens, md5):
        Plain.__init__(self, A4, fields, ok)
        self.opens, self.md5 = opens, md5
        self.state = 0

    def sum(self, v, byte):
        self.I.mem[v.id + ('size',)] = K(64, 0, 16)
        self.I.write_bytes(Ptr(('vec', v.id), K(64, 0, 0), 1), [tuple(byte >> j & 1 for j in range(8))] * 16)

    def oracle(self, name, obj, a, I):
        if name.startswith(('.', 'new ')): return None
        x = a[0].get('a') or ()
        if name in ('open', 'basic_ofstream', 'basic_filebuf', 'basic_fstream') and x and len(x) >= 2:
            self.log.append(('open', I.ev(x[1]))); self.state = self.opens
            return Opq('file')
        if name == 'is_open': return K(1, 0, self.state)
        if name == 'close': self.state = 0; return Opq('file')
        if name == 'CopyBytes':
            self.log.append((name, ('stream', 'stream', 'size'), tuple(I.ev(y) for y in x))); return K(1, 0, self.ok)
        if name in ('CreateMd5FileChecksum', 'CreateMd5Checksum'):
            v = self.vec(x[1]); self.log.append((name,))
            self.sum(v, 0xAB if self.md5 else 0x5A); return K(1, 0, 1)
        if name == 'copy_file': self.log.append((name,)); return K(1, 0, 1)
        return Plain.oracle(self, name, obj, a, I)


def attachments(R):
    E, C, M = 1, 2, 4
    mode = {}
    for f in meth(A4, 'ReadData'):
        if len(f['p']) != 2: continue
        R.analysed(f)
        w = (f['file'], f['line'])
        tofile = 'string' in f['p'][1]['t']
        for flags in (E, E | C, E | M, E | C | M):
            for pos in (0, 700):
                for ok in (1, 0):
                    for opens in ((1, 0) if tofile else (1,)):
                        for md5 in ((1, 0) if flags & M and tofile else (1,)):
                            R.count('attachment cases')
                            P = Attach({'flags_': K(16, 0, flags), 'data_position_': K(64, 1, pos), 'nof_bytes_': K(64, 0, 33), 'original_size_': K(64, 0, 44)}, ok, opens, md5)
                            m5 = P.I.new_vec(K(64, 0, 16)); P.sum(m5, 0xAB); P.I.mem[P.this.id + ('f', 'md5_')] = m5
                            dst = Opq('dest')
                            what = '%s of an embedded attachment (%scompressed%s)' % ('ReadData to a file' if tofile else 'ReadData', '' if flags & C else 'not ', ', with checksum' if flags & M else '')
                            thrown = False
                            try: P.I.run(f, P.this, [Opq('from'), dst])
                            except Thrown: thrown = True
                            except Undecided as e:
                                R.count('scenarios left open'); R.notes.append('left open At4Block::ReadData: %s' % e); continue
                            good = pos and ok and opens and md5
                            key = 'ReadData%d/' % tofile
                            if thrown:
                                if good: R.violate('zip.attachment', key + 'lost', w, what + ' fails although the data is there')
                                continue
                            if not good:
                                why = 'its position is not known' if not pos else 'its data could not be copied' if not ok else 'the destination could not be opened' if not opens else 'the checksum differs'
                                R.violate('zip.attachment', key + 'silent', w, '%s reports no error although %s' % (what, why)); continue
                            L = [l for l in P.log if l[0] in ('SetFilePosition', 'Inflate', 'CopyBytes', 'sputn')]
                            if not L or L[0] != ('SetFilePosition', pos) or len(L) < 2: R.violate('zip.attachment', key + 'position', w, what + ' does not read at the position of the data'); continue
                            if L[1][0] != ('Inflate' if flags & C else 'CopyBytes') or len(L) != 2: R.violate('zip.attachment', key + 'how', w, what + ' does not %s the data' % ('uncompress' if flags & C else 'copy')); continue
                            a = L[1][2]
                            if len(a) < 3 or not isinstance(a[2], Int) or a[2].c != 33: R.violate('zip.attachment', key + 'size', w, what + ' does not take the number of bytes that the attachment has'); continue
                            op = [l[1] for l in P.log if l[0] == 'open']
                            if op and isinstance(op[0], Int) and op[0].c is not None:
                                c = op[0].c               # app 1, binary 4, in 8, out 16, trunc 32
                                R.count('attachment files')
                                if c & 0x15 != 0x14 or c & 0x08 and not c & 0x20: R.violate('zip.attachment', key + 'mode', w, what + ' does not replace the destination file (binary)')


def positions(R):
    """the block remembers where its data is in the file"""
    for cls, name in ((A4, 'Read'), (A4, 'Write'), (D4, 'Read')):
        for f in meth(cls, name):
            R.analysed(f)
            what = '%s::%s' % (cls.split('::')[-1], name)
            P = Plain(cls, {'data_position_': K(64, 1, 0), 'original_size_': K(64, 0, 44), 'nof_bytes_': K(64, 0, 33), 'file_position_': K(64, 1, 0), 'flags_': K(16, 0, 3)})
            at = []
            data = 'data_buffer_'
            P.I.mem[P.this.id + ('f', data)] = P.I.new_vec(K(64, 0, 33))
            pos = [1000]

            def oracle(nm, obj, a, I):
                if nm.startswith(('.', 'new ')): return None
                x = a[0].get('a') or ()
                if nm == 'GetFilePosition': return K(64, 1, pos[0])
                if nm == 'FilePosition': return K(64, 1, 0)
                if nm in ('ReadHeader4', 'ReadNumber', 'ReadByte', 'ReadStr', 'WriteNumber', 'WriteBytes', 'WriteStr', 'WriteByte', 'Write', 'ReadTx4', 'ReadMdComment', 'WriteTx4', 'WriteMdComment', 'UpdateBlockSize'):
                    payload = nm in ('ReadByte', 'WriteByte') and any(y.get('k') == 'Member' and y.get('n') == data for y in x)
                    if payload or nm in ('ReadTx4', 'ReadMdComment', 'UpdateBlockSize'): at.append(pos[0])
                    pos[0] += 10
                    return K(64, 0, 10)
                return None
            P.I.oracle = oracle
            R.count('data positions')
            try: P.I.run(f, P.this, [Opq('file')])
            except (Undecided, Thrown) as e:
                R.count('scenarios left open'); R.notes.append('left open %s: %s' % (what, e)); continue
            want = at[0] if at else pos[0]
            got = P.I.mem.get(P.this.id + ('f', 'data_position_'))
            if not isinstance(got, Int) or got.c != want: R.violate('zip.position', what, (f['file'], f['line']), '%s does not keep the position of the data in the file' % what)


def run(db, R):
    global DB
    DB = db
    attachments(R)
    positions(R)
    drivers(R)
    transposition(R)
    blocks(R)
