"""P14: the life cycle of the file of a reader or writer.

The methods that open the file are interpreted over all outcomes of the environment: the file opened or
not at entry, opening succeeds or fails, each call that works on the file succeeds, fails or throws, each
condition the model does not know is taken both ways. Decided per path: the file is open at exit exactly
if it was at entry, nothing is read from or written to a file that is not open, no exception leaves the
method, and the result is true exactly if everything succeeded. Modes: a reader never opens for writing, a
writer truncates exactly when it creates the file.
"""
import re

from ..absint import Interp, Undecided, Thrown, Ref, Opq, Ptr, Int, K, NULL, T
from .. import absint as A
from ..facts import AnalysisError

DB = None
DBG = 0
APP, BIN, IN, OUT, TRUNC = 1, 4, 8, 16, 32
MAXRUNS = 3000


class Env:
    def __init__(self, cls, prefix, fields, opened, filebuf=1):
        self.prefix, self.trace = prefix, []
        self.I = Interp(DB, oracle=self.oracle, this_cls=cls, inline=self.inline)
        self.I.dtors = True
        self.I.decide = self.decide
        self.cls = cls
        self.this = Ref(('obj', cls), cls)
        self.file = Ref(('stream',), 'std::basic_filebuf')
        self.opened = opened
        self.opens = []                                   # modes
        self.failed = []                                  # what failed
        self.work = []                                    # calls on the file: (name, was open, result)
        self.unopened = None
        for k, v in fields.items(): self.I.mem[self.this.id + ('f', k)] = v
        self.I.mem[self.this.id + ('f', 'file_')] = self.file
        self.exists = None
        self.rooms = {}

    def pick(self, n, what):
        k = len(self.trace)
        if k > 60: raise Undecided('too many choices')
        c = self.prefix[k] if k < len(self.prefix) else 0
        self.trace.append((c, n, what))
        return c

    def decide(self, c): return self.pick(2, 'condition')

    def inline(self, f):
        c = f.get('cls') or ''
        return c in CLOSURE or f['file'] in FILES or '(anonymous' in f['id']

    def on_file(self, x):
        return [i for i, y in enumerate(x) if 'streambuf' in (y.get('t') or '') or 'basic_filebuf' in (y.get('t') or '')]

    def get(self, name): return self.I.mem.get(self.this.id + ('f', name))

    def oracle(self, name, obj, a, I):
        if name.startswith(('.', 'new ')): return None
        n = a[0]
        x = n.get('a') or ()
        full = n.get('n') or ''
        if '_ptr<' in full and 'operator bool' in full and (isinstance(obj, Ref) or obj == NULL): return K(1, 0, int(obj != NULL))
        if name == 'get' and ('_ptr' in full or 'shared' in full): return obj if isinstance(obj, Ref) else None
        if 'atomic' in full and ('::operator ' in full or name == 'load') and isinstance(obj, Int): return obj
        if name == 'store' and 'atomic' in full: I.store(I.lv(n['o']), I.ev(x[0])); return Opq()
        if name == 'empty' and obj == Opq('filename'): return K(1, 0, 0)
        if name in ('make_unique', 'make_shared'):
            m = re.search(r'<([\w:]+)', n.get('t') or '')
            return self.file if m and 'filebuf' in m.group(1) else Ref(I.fresh('made'), m.group(1) if m else '?')
        if name == 'OpenMdfFile':
            m = I.ev(x[-1])
            self.open(m)
            return K(1, 0, self.opened)
        if obj == self.file:
            if name == 'is_open': return K(1, 0, self.opened)
            if name == 'open': self.open(I.ev(x[-1])); return self.file if self.opened else NULL
            if name == 'close': self.opened = 0; return self.file
            if name in ('pubsync', 'sync'): return K(32, 1, 0)
        if name == 'exists' and obj is None:
            if self.exists is None: self.exists = self.pick(2, 'exists')
            return K(1, 0, self.exists)
        if name in EVENTS:
            r = self.pick(2, name)
            self.work.append((name, None, not r))
            if r: self.failed.append(name)
            return K(1, 0, 1 - r)
        if name in QUIET: return Opq(name)
        if self.on_file(x) and not (n.get('f') in DB.funcs and self.inline(DB.funcs[n['f']]) and not n.get('virt')):
            for y in x:
                try: I.ev(y)
                except Undecided: pass
            return self.event(n, name, I)
        return None

    def open(self, m):
        if not isinstance(m, Int) or m.c is None: raise Undecided('mode')
        self.opens.append((m.c, self.I.line))
        if self.pick(2, 'open'): self.opened = 0; self.failed.append('open')
        else: self.opened = 1

    def event(self, n, name, I):
        t = n.get('t') or ''
        if not self.opened and self.unopened is None: self.unopened = (name, I.line)
        if name in ('GetFilePosition', 'SetFilePosition'): return K(64, 1, 1000)
        if 'bool' in t:
            r = self.pick(2, name)
            self.work.append((name, self.opened, not r))
            if r: self.failed.append(name)
            return K(1, 0, 1 - r)
        num = A.intty(t)
        r = self.pick(2, name)
        self.work.append((name, self.opened, not r))
        if r: self.failed.append(name)
        if r == 1: raise Thrown('any')
        if num: return I.ev(n['a'][-1]) if name == 'ReadByte' else K(num[0], num[1], 64)
        return Opq(name)


EVENTS = ('PrepareForWriting',)
QUIET = ('ExitWriteCache', 'InitWriteCache', 'Filename', 'Exit', 'CreateMdfFile', 'FileName')
CLOSURE = set()
FILES = set()


def explore(cls, f, fields, opened, args, env=Env):
    prefix, runs = [], 0
    while True:
        w = env(cls, prefix, fields() if callable(fields) else fields, opened)
        out = None
        try:
            r = w.I.run(f, w.this, args(w))
            out = ('ret', A.truth(r) if isinstance(r, Int) else None)
        except Thrown: out = ('throw', None)
        runs += 1
        yield w, out
        if runs > MAXRUNS: raise Undecided('too many paths')
        prefix = [t[0] for t in w.trace]
        k = [t[1] for t in w.trace]
        while prefix and prefix[-1] + 1 >= k[len(prefix) - 1]: prefix.pop()
        if not prefix: return
        prefix[-1] += 1


def methods(cls): return [f for f in DB.funcs.values() if f.get('cls') == cls]


def calls(n, names, out=None):
    if out is None: out = []
    if isinstance(n, dict):
        if n.get('k') in ('MCall', 'Call') and (n.get('n') or '').split('::')[-1] in names: out.append(n)
        for v in n.values(): calls(v, names, out)
    elif isinstance(n, list):
        for v in n: calls(v, names, out)
    return out




READER = 'mdf::MdfReader'


def closure(cls):
    """functions of the class that may open the file, directly or not"""
    ms = methods(cls)
    name = nm
    opening = {'Open', 'OpenMdfFile'}
    res = {}
    while True:
        n = len(res)
        for f in ms:
            if f['body'] and f['id'] not in res and calls(f['body'], opening): res[f['id']] = f
        if len(res) == n: return list(res.values())
        opening |= {name(f) for f in res.values()}


def reader(R):
    fs = [f for f in closure(READER) if nm(f) not in ('Open', 'MdfReader', '~MdfReader')]
    if len(fs) < 8: raise AnalysisError('the reading functions of MdfReader are not found')
    for f in sorted(fs, key=lambda f: f['line']):
        R.analysed(f)
        name = 'MdfReader::' + nm(f)
        where = (f['file'], f['line'])
        for opened in (0, 1):
            def fields(): return {'instance_': Ref(('inst',), 'mdf::MdfFile'), 'filename_': Opq('filename')}

            def args(w):
                l = []
                for p in f['p']:
                    t = p['t']
                    it = A.intty(t.rstrip('& '))
                    if it: l.append(K(it[0], it[1], 50))
                    elif A.vecty(t): l.append(w.I.new_vec(K(64, 0, 5)))
                    else:
                        c = t.replace('const ', '').strip(' &*')
                        l.append(Ref(('arg', p['id']), c))
                return l
            verify = nm(f) == 'VerifyMdfFile'
            try:
                for w, out in explore(READER, f, fields, opened, args):
                    R.count('reader paths')
                    if DBG: print(name, opened, out, w.opened, w.failed, w.work, [t[2] for t in w.trace])
                    say = lambda key, msg, l=None: R.violate('file.reader', '%s/%s' % (name, key), (f['file'], l or f['line']), '%s: %s' % (name, msg))
                    for m, l in w.opens:
                        if m != IN | BIN: say('mode', 'the file is not opened for (binary) reading only', l)
                    if w.unopened: say('unopened', '%s works on a file that is not open' % w.unopened[0], w.unopened[1])
                    if out[0] == 'throw':
                        say('throw', 'an exception from %s leaves the function%s' % (', '.join(w.failed[-1:]) or 'it', ', and the file stays open' if w.opened and not opened else '')); continue
                    if verify: continue
                    if w.opened != opened: say('state', 'the file is left %s%s' % ('open' if w.opened else 'closed', ' although it was %s at entry' % ('open' if opened else 'closed')))
                    if out[1] == 1 and w.failed: say('success', 'success is reported although %s failed' % w.failed[-1])
                    if out[1] == 0 and not w.failed and not any(t[2] == 'condition' for t in w.trace): say('failure', 'failure is reported although everything succeeded')
            except Undecided as e:
                R.count('functions left open'); R.notes.append('left open %s: %s' % (name, e))


WRITER, CONVERTER = 'mdf::MdfWriter', 'mdf::detail::MdfConverter'


def args0(f):
    def args(w): return [Opq('filename') for p in f['p']]
    return args


def writer(R):
    st = dict((n.split('::')[-1], v) for n, v in DB.enums.get('mdf::WriteState', {}).get('c', ()))
    if 'Create' not in st: raise AnalysisError('WriteState not found')
    for cls in (WRITER, CONVERTER):
        for name in ('InitMeasurement', 'FinalizeMeasurement'):
            fl = [f for f in methods(cls) if nm(f) == name and f['body']]
            if not fl: raise AnalysisError('%s::%s not found' % (cls, name))
            for f in fl:
                R.analysed(f)
                what = '%s::%s' % (cls.split('::')[-1], name)
                keep = cls == CONVERTER                    # the converter keeps the file open while it measures
                for sn, sv in st.items():
                    for opened in ((1, 0) if keep else (0,)):
                        def fields(): return {'mdf_file_': Ref(('mdf',), 'mdf::MdfFile'), 'filename_': Opq('filename'), 'write_state_': K(32, 1, sv), 'start_time_': K(64, 0, 7), 'stop_time_': K(64, 0, 7)}
                        try:
                            for w, out in explore(cls, f, fields, opened, args0(f)):
                                R.count('writer paths')
                                if DBG: print(what, sn, opened, out, w.opened, w.failed, w.work, w.opens, w.get('write_state_'))
                                say = lambda key, msg, l=None: R.violate('file.writer', '%s/%s' % (what, key), (f['file'], l or f['line']), '%s: %s' % (what, msg))
                                if out[0] == 'throw': say('throw', 'an exception leaves the function'); continue
                                for m, l in w.opens:
                                    if not m & BIN or m & APP: say('mode', 'the file is not opened binary, or appended to', l)
                                    elif name == 'InitMeasurement' and sn == 'Create':
                                        if not (m & OUT and m & TRUNC): say('create', 'a new file is not created', l)
                                    else:
                                        if m & TRUNC or not (m & IN and m & OUT): say('truncate', 'the existing file is %s' % ('truncated: what was written before is lost' if m & TRUNC or not m & IN else 'not opened for update'), l)
                                if w.unopened: say('unopened', '%s works on a file that is not open' % w.unopened[0], w.unopened[1])
                                if out[1] == 1 and w.failed: say('success', 'success is reported although %s failed' % w.failed[-1])
                                if w.failed or not opened and not w.opens and keep and name == 'FinalizeMeasurement':
                                    if w.failed == ['Write'] or w.failed == ['WriteSignalData']:
                                        if w.opened and not (keep and name == 'InitMeasurement'): say('open', 'the file stays open')
                                    continue
                                if out[1] == 0: say('failure', 'failure is reported although everything succeeded'); continue
                                did = [x[0] for x in w.work]
                                if 'Write' not in did: say('write', 'the blocks are not written')
                                if name == 'FinalizeMeasurement' and 'WriteSignalData' not in did: say('signal', 'the signal data is not written')
                                if name == 'InitMeasurement':
                                    if did[:1] != ['PrepareForWriting']: say('prepare', 'the records are not laid out before the blocks are written')
                                    for t in ('start_time_', 'stop_time_'):
                                        if w.get(t).c != 0: say('time', '%s keeps the value of the previous measurement' % t)
                                want = st['Init'] if name == 'InitMeasurement' else st['Finalize']
                                if w.get('write_state_').c != want: say('state', 'the measurement state afterwards is not %s' % ('Init' if name == 'InitMeasurement' else 'Finalize'))
                                if w.opened != (1 if keep and name == 'InitMeasurement' else 0): say('open', 'the file is left %s' % ('open' if w.opened else 'closed although samples are to be written to it'))
                        except Undecided as e:
                            R.count('functions left open'); R.notes.append('left open %s: %s' % (what, e))
    # Init: a new file, or an existing one to which a measurement is added
    for f in methods(WRITER):
        if nm(f) != 'Init' or not f['p'] or 'wchar_t' not in f['p'][0]['t'] and 'wstring' not in f['p'][0]['t']: continue
        R.analysed(f)
        for sn, sv in st.items():
            def fields(): return {'mdf_file_': Ref(('mdf',), 'mdf::MdfFile'), 'filename_': Opq('filename'), 'write_state_': K(32, 1, sv)}
            try:
                for w, out in explore(WRITER, f, fields, 0, args0(f)):
                    R.count('writer init paths')
                    if DBG: print('Init', sn, out, w.exists, w.opened, w.failed, w.work, w.opens, w.get('write_state_'))
                    say = lambda key, msg, l=None: R.violate('file.writer', 'Init/' + key, (f['file'], l or f['line']), 'MdfWriter::Init: ' + msg)
                    if out[0] == 'throw': say('throw', 'an exception leaves the function'); continue
                    if w.exists is None: say('exists', 'it is not checked whether the file exists'); continue
                    for m, l in w.opens:
                        if m & (OUT | TRUNC | APP): say('mode', 'the existing file is opened for writing', l)
                    if w.unopened: say('unopened', '%s works on a file that is not open' % w.unopened[0], w.unopened[1])
                    if w.opened: say('open', 'the file stays open')
                    s = w.get('write_state_').c
                    if out[1] == 1 and w.failed: say('success', 'success is reported although %s failed' % w.failed[-1])
                    if out[1] == 0 and not w.failed: say('failure', 'failure is reported although nothing failed')
                    if out[1] == 1 and w.exists:
                        if s == st['Create']: say('truncate', 'the next measurement truncates the existing file instead of appending to it')
                        if not any(x[0] == 'ReadEverythingButData' for x in w.work): say('read', 'the blocks of the existing file are not read')
                    if out[1] == 1 and not w.exists and s != st['Create']: say('create', 'the next measurement does not create the file')
            except Undecided as e:
                R.count('functions left open'); R.notes.append('left open MdfWriter::Init: %s' % e)


def files(R):
    """Mdf3File/Mdf4File::Write report whether the blocks were written"""
    for cls in ('mdf::detail::Mdf3File', 'mdf::detail::Mdf4File'):
        fl = [f for f in methods(cls) if nm(f) == 'Write' and f['body']]
        if not fl: raise AnalysisError(cls + '::Write not found')
        for f in fl:
            R.analysed(f)
            what = cls.split('::')[-1] + '::Write'
            for idb in (1, 0):
                for hdb in (1, 0):
                    def fields(): return {'id_block_': Ref(('id',), 'mdf::detail::IdBlock') if idb else NULL, 'hd_block_': Ref(('hd',), 'mdf::detail::Hd%sBlock' % cls[-5]) if hdb else NULL}
                    try:
                        for w, out in explore(cls, f, fields, 1, args0(f)):
                            R.count('file paths')
                            if DBG: print(what, idb, hdb, out, w.failed, w.work)
                            say = lambda key, msg: R.violate('file.write', '%s/%s' % (what, key), (f['file'], f['line']), '%s: %s' % (what, msg))
                            if out[0] == 'throw': say('throw', 'an exception leaves the function'); continue
                            if out[1] == 1:
                                if w.failed: say('success', 'success is reported although writing failed')
                                elif not (idb and hdb): say('success', 'success is reported although there is no block to write')
                                elif len(w.work) < 2: say('blocks', 'not all blocks are written')
                            elif out[1] == 0 and idb and hdb and not w.failed: say('failure', 'failure is reported although everything was written')
                    except Undecided as e:
                        R.count('functions left open'); R.notes.append('left open %s: %s' % (what, e))


class Typestate:
    """which states (0 closed, 1 open) the file may have at each point; conditions on IsOpen() are used"""

    def __init__(self, classes, say):
        self.classes, self.say = classes, say
        self.busy, self.memo, self.uses = set(), {}, 0

    def relevant(self, f):
        k = f['id']
        if k not in self.memo:
            self.memo[k] = False
            self.memo[k] = bool(calls(f['body'], ('Open', 'Close', 'IsOpen', 'OpenMdfFile'))) or any(self.relevant(g) for g in self.callees(f))
        return self.memo[k]

    def callees(self, f):
        res = []

        def walk(n):
            if isinstance(n, dict):
                g = DB.funcs.get(n.get('f') or '')
                if g is not None and g['body'] and (g.get('cls') in self.classes or '(anonymous' in g['id']): res.append(g)
                for v in n.values(): walk(v)
            elif isinstance(n, list):
                for v in n: walk(v)
        walk(f['body'])
        return res

    def func(self, f, S):
        if f['id'] in self.busy: return S
        self.busy.add(f['id'])
        save = getattr(self, 'out', None), getattr(self, 'alias', None), getattr(self, 'f', None)
        self.out, self.alias, self.f = set(), {}, f
        try: return frozenset(self.st(f['body'], frozenset(S)) | self.out)
        finally:
            self.out, self.alias, self.f = save
            self.busy.discard(f['id'])

    E = frozenset()

    def st(self, n, S):
        if n is None or not S: return S
        k = n['k']
        if k == 'Block':
            for x in n['s']: S = self.st(x, S)
            return S
        if k == 'If':
            S = self.st(n.get('i'), S); S = self.st(n.get('cvd'), S)
            t, e = self.cond(n['c'], S)
            return self.st(n['a'], t) | (self.st(n['b'], e) if n.get('b') else e)
        if k in ('For', 'While', 'Do', 'ForRange'):
            if k == 'For': S = self.st(n.get('i'), S)
            if k == 'ForRange': S = self.ev(n.get('r'), S)
            save = getattr(self, 'brk', None), getattr(self, 'cnt', None)
            self.brk, self.cnt = set(), set()
            if k == 'Do': S = self.st(n['b'], S) | self.cnt
            exits = self.E
            while True:
                if k != 'ForRange' and n.get('c') is not None: t, e = self.cond(n['c'], S)
                else: t, e = S, S if k == 'ForRange' else self.E
                exits |= e
                T2 = self.st(n['b'], t) | frozenset(self.cnt)
                if k == 'For': T2 = self.ev(n.get('n'), T2)
                if T2 <= S: break
                S = S | T2
            res = frozenset(exits | self.brk)
            self.brk, self.cnt = save
            return res
        if k == 'Switch':
            S = self.st(n.get('i'), S); S = self.ev(n['c'], S)
            save = getattr(self, 'brk', None); self.brk = set()
            cur, dflt = self.E, False

            def walk(x, cur):
                nonlocal dflt
                while x['k'] in ('Case', 'Default'):
                    cur = cur | S
                    dflt = dflt or x['k'] == 'Default'
                    x = x['s']
                    if x is None: return cur
                return self.st(x, cur)
            for x in n['b']['s'] if n['b']['k'] == 'Block' else [n['b']]: cur = walk(x, cur)
            res = frozenset(cur | self.brk | (self.E if dflt else S))
            self.brk = save
            return res
        if k == 'Break': self.brk |= S; return self.E
        if k == 'Continue': self.cnt |= S; return self.E
        if k == 'Return':
            S = self.ev(n.get('e'), S)
            self.out |= S
            return self.E
        if k == 'Try':
            r = self.st(n['b'], S)
            for h in n['h']: r = r | self.st(h['b'], S | r)
            return r
        if k == 'Decl':
            for v in n['d']:
                S = self.ev(v.get('init'), S)
                if 'bool' in (v.get('t') or '') and v.get('init') is not None and calls(v['init'], ('IsOpen',)): self.alias[v['id']] = v['init']
            return S
        if k in ('Label', 'Attr'): return self.st(n.get('s'), S)
        return self.ev(n, S)

    def ev(self, n, S):
        if n is None or not S: return S
        if isinstance(n, list):
            for x in n: S = self.ev(x, S)
            return S
        if not isinstance(n, dict): return S
        if n.get('k') == 'Throw': self.ev(n.get('e'), S); return self.E
        if n.get('k') == 'Lambda': return S
        for key, v in n.items():
            if isinstance(v, (dict, list)) and key != 'd': S = self.ev(v, S)
        if n.get('k') in ('Call', 'MCall', 'OpCall'):
            nm_ = (n.get('n') or '').split('::')[-1]
            own = n.get('k') == 'MCall' and ((n.get('n') or '').startswith('mdf::') and '::Open' in n['n'] or True)
            if nm_ == 'Open' and own and (n.get('n') or '').startswith('mdf::MdfWriter'):
                m = self.mode(n['a'][-1]) if n['a'] else None
                if m is not None and (m & TRUNC or m & APP or not (m & IN and m & OUT and m & BIN)): self.say('mode', 'the file is not opened for (binary) update', n['l'])
                return frozenset((0, 1))
            if nm_ == 'Close' and (n.get('n') or '').startswith('mdf::MdfWriter'): return frozenset((0,))
            f = DB.funcs.get(n.get('f') or '')
            if f is not None and f['body'] and (f.get('cls') in self.classes or '(anonymous' in f['id']) and self.relevant(f) and len(self.busy) < 8: return self.func(f, S)
            o = n.get('o') or {}
            onfile = any(y.get('k') == 'OpCall' and y.get('op') == '*' and 'streambuf' in (y.get('t') or '') for y in n.get('a') or ()) or 'streambuf' in (o.get('t') or '') and nm_ in ('sputn', 'sputc', 'sgetn', 'sbumpc', 'pubseekpos', 'pubseekoff')
            if onfile:
                self.uses += 1
                if 0 in S: self.say('unopened', '%s may work on a file that is not open' % nm_, n.get('l'))
        return S

    def mode(self, n):
        if 'cv' in n: return n['cv']
        if n.get('k') == 'OpCall' and n.get('op') == '|':
            a, b = self.mode(n['a'][0]), self.mode(n['a'][1])
            return None if a is None or b is None else a | b
        return None

    def cond(self, n, S):
        if not S: return S, S
        k = n.get('k')
        if k == 'Un' and n.get('op') == '!':
            t, e = self.cond(n['e'], S); return e, t
        if k == 'Bin' and n.get('op') in ('&&', '||'):
            t, e = self.cond(n['a'], S)
            if n['op'] == '&&':
                t2, e2 = self.cond(n['b'], t); return t2, e | e2
            t2, e2 = self.cond(n['b'], e); return t | t2, e2
        if k in ('Cast', 'Paren') and n.get('e'): return self.cond(n['e'], S)
        if k == 'Ref' and n.get('id') in self.alias: return self.cond(self.alias[n['id']], S)
        if k == 'MCall' and (n.get('n') or '').split('::')[-1] == 'IsOpen': return S & {1}, S & {0}
        S = self.ev(n, S)
        return S, S


class OEnv(Env):
    """OpenMdfFile itself: opening succeeds at the k-th try"""
    succeed = 1
    tries = 0

    def inline(self, f): return f['file'] == self.file_of

    def oracle(self, name, obj, a, I):
        if name == 'OpenMdfFile': return None
        if name in ('sleep_for', 'sleep_until'): return Opq()
        return Env.oracle(self, name, obj, a, I)

    def open(self, m):
        if not isinstance(m, Int) or m.c is None: raise Undecided('mode')
        self.opens.append((m.c, self.I.line))
        self.tries += 1
        self.opened = int(self.tries == self.succeed)


def opening(R):
    """OpenMdfFile opens the file in the mode asked for, and says whether it is open"""
    fl = [f for i in DB.by_name.get('mdf::detail::OpenMdfFile', ()) for f in [DB.funcs.get(i)] if f and 'streambuf' in f['p'][0]['t']]
    if not fl: raise AnalysisError('OpenMdfFile not found')
    for f in fl:
        R.analysed(f)
        for at in (1, 2, 0):
            for mode in (IN | BIN, IN | OUT | BIN, OUT | BIN | TRUNC):
                for opened in (0, 1):
                    def make(cls, prefix, fields, op):
                        w = OEnv(cls, prefix, {}, op)
                        w.succeed, w.file_of = at, f['file']
                        return w

                    def args(w): return [w.file, Opq('filename'), K(32, 1, mode)]
                    try:
                        for w, out in explore('?', f, {}, opened, args, make):
                            R.count('opening paths')
                            if DBG: print('OpenMdfFile', at, mode, opened, out, w.opened, w.opens[:2], w.exists)
                            say = lambda key, msg, l=None: R.violate('file.open', key, (f['file'], l or f['line']), 'OpenMdfFile: ' + msg)
                            if out[0] == 'throw': say('throw', 'an exception leaves the function'); continue
                            if any(m != mode for m, l in w.opens): say('mode', 'the file is not opened in the mode asked for')
                            if not w.opens: say('opens', 'the file is not opened'); continue
                            if out[1] in (0, 1) and out[1] != w.opened: say('result', 'it is reported that the file is %s although it is not' % ('open' if out[1] else 'not open'))
                            if at == 2 and w.exists and not w.opened: say('retry', 'opening an existing file is not tried again')
                    except Undecided as e:
                        R.count('functions left open'); R.notes.append('left open OpenMdfFile: %s' % e)


def queues(R):
    """saving samples opens the file for update and closes it again"""
    base = 'mdf::detail::SampleQueue'
    cl = [base] + [c for c in DB.classes if base in DB.bases(c)]
    n = 0
    for cls in cl:
        conv = 'Converter' in cls                          # the converter keeps the file open
        for f in methods(cls):
            if not f['body'] or nm(f) in ('Open', 'IsOpen', 'Close') or nm(f).startswith('~'): continue
            if not calls(f['body'], ('Open',)) and not (conv and calls(f['body'], ('IsOpen',))): continue
            n += 1
            R.analysed(f)
            what = '%s::%s' % (cls.split('::')[-1], nm(f))
            say = lambda key, msg, l=None: R.violate('file.queue', '%s/%s' % (what, key), (f['file'], l or f['line']), '%s: %s' % (what, msg))
            t = Typestate(set(cl), say)
            res = t.func(f, {0, 1} if conv else {0})
            R.count('queue functions'); R.count('uses of the file', t.uses)
            if not conv and 1 in res: say('open', 'the file may stay open')
    if not n: raise AnalysisError('the functions that save the sample queue are not found')


def readonly(R):
    """the other functions of the reader that open a file"""
    ts = Typestate((), None)
    for f in DB.funcs.values():
        if not f['file'].endswith('mdfreader.cpp') or not f['body']: continue
        for n in calls(f['body'], ('open',)):
            m = ts.mode(n['a'][-1]) if n.get('a') else None
            R.count('files opened')
            if m is not None and m & (OUT | TRUNC | APP): R.violate('file.reader', nm(f) + '/mode', (f['file'], n['l']), '%s opens the file for writing' % nm(f))


def nm(f): return (f.get('n') or f.get('name') or f['id'].split('(')[0]).split('::')[-1]


def run(db, R):
    global DB, CLOSURE, FILES
    DB = db
    CLOSURE = {READER, 'mdf::MdfWriter', 'mdf::detail::MdfConverter', 'mdf::detail::Mdf3Writer', 'mdf::detail::Mdf4Writer'}
    FILES = {f['file'] for f in db.funcs.values() if f.get('cls') in CLOSURE and f['file'].endswith('.cpp')}
    reader(R)
    writer(R)
    files(R)
    queues(R)
    opening(R)
    readonly(R)
