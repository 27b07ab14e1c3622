"""P25: the exported C functions. Every function of the C library is interpreted on a receiver of which only the class is known: each
call of one of its functions gives a value of its own, and what reaches the caller (result, buffers, reference arguments) and what
reaches the library (the function called, its arguments) is compared with what the function's name and parameters say."""
import re, struct
from ..objint import Cell, Obj, Vec, Ptr, Opt, Opaque, Interp, Stuck, CThrow, NULL, strip, split_args, head, base_name
from ..facts import AnalysisError
from .copy_rule import fns

NS = 'MdfLibrary::ExportFunctions::'
SENT = ('unwritten',)
# names that differ from the function of the library they stand for
ALIAS = {'MdfWriterGetHeader': 'Header', 'MdfFileGetFinalized': 'IsFinalized', 'MdfFileGetIsMdf4': 'IsMdf4', 'MdfHeaderGetFileHistorys': 'FileHistories',
         'MdfDataGroupGetChannelGroupByName': 'GetChannelGroup', 'MdfDataGroupGetChannelGroupByRecordId': 'GetChannelGroup',
         'MdfChannelIsUnitUsed': 'IsUnitValid', 'MdfChannelIsPrecisionUsed': 'IsDecimalUsed', 'MdfChannelGetPrecision': 'Decimals',
         'MdfChannelConversionIsPrecisionUsed': 'IsDecimalUsed', 'MdfChannelConversionGetPrecision': 'Decimals',
         'MdfChannelConversionGetParameterAsUInt64': 'ParameterUint', 'MdfChannelConversionSetParameterAsUInt64': 'ParameterUint',
         'MdfChannelObserverGetEngValueAsArray': 'GetChannelValue', 'MdfAttachmentGetEmbedded': 'IsEmbedded', 'MdfAttachmentSetEmbedded': 'IsEmbedded',
         'MdfAttachmentGetCompressed': 'IsCompressed', 'MdfAttachmentSetCompressed': 'IsCompressed',
         'MdfMetaDataGetPropertyAsString': 'StringProperty', 'MdfMetaDataSetPropertyAsString': 'StringProperty',
         'MdfMetaDataGetPropertyAsFloat': 'FloatProperty', 'MdfMetaDataSetPropertyAsFloat': 'FloatProperty', 'MdfMetaDataAddCommonProperty': 'CommonProperty'}
PREFIX = ('MdfChannelConversion', 'MdfSourceInformation', 'MdfChannelObserver', 'MdfChannelArray', 'MdfChannelGroup', 'MdfFileHistory', 'MdfAttachment',
          'MdfDataGroup', 'MdfMetaData', 'MdfChannel', 'MdfReader', 'MdfWriter', 'MdfHeader', 'CanMessage', 'LinMessage', 'MdfEvent', 'MdfETag', 'MdfFile')
INT = {'unsigned long': 64, 'unsigned int': 32, 'unsigned short': 16, 'unsigned char': 8, 'long': 64, 'int': 32, 'short': 16, 'char': 8, 'signed char': 8, 'wchar_t': 16, 'char16_t': 16, 'unsigned long long': 64, 'long long': 64}
EXTRA = {'GetChannelArray': [0], 'GetNofParameters': None}     # arguments the exported function adds; None: has arguments the library's has not


class Exec(Interp):
    def __init__(self, db, run):
        Interp.__init__(self, db, None, run.hook)
        self.run = run

    def e_Delete(self, n):
        v = self.ev(n['e']) if isinstance(n.get('e'), dict) else None
        self.run.deleted.append(v)

    def conv(self, v, t):
        v = Interp.conv(self, v, t)
        if isinstance(v, float) and strip(t) == 'float':
            try: return struct.unpack('f', struct.pack('f', v))[0]
            except OverflowError: return float('inf')
        return v


class Run:
    """one execution; v: the variant (what the bool tokens and the optional tokens are)"""
    def __init__(self, db, yes, other, want):
        self.db, self.yes, self.other, self.want = db, yes, other, want
        self.flag, self.owned = yes, []
        self.calls, self.deleted, self.over = [], [], []
        self.tokens, self.made = {}, []
        self.I = Exec(db, self)
        self.k = 0

    def num(self, t):
        self.k += 1
        if t in ('double',): return 1.25e200 + self.k * 1e198
        if t == 'float': return 1.5 + self.k
        w = INT.get(t, 6)
        if t in self.db.enums or w == 6: return self.k % 50 + 3
        if w == 8: return 0x71 - self.k % 60 if t != 'unsigned char' else 0xF1 - self.k % 60
        return (1 << (w - 1 if t.startswith('unsigned') else w - 2)) + 7 * self.k

    def tok(self, t, key):
        ref = t.strip().endswith('&')
        s = strip(t)
        if s.endswith('*'): return Ptr(Cell(Obj(strip(s[:-1]), {'$tok': Cell(key)})))
        h = head(s)
        if s == 'void': return Opaque('void')
        if s == 'bool': v = self.flag
        elif s in INT or s in ('double', 'float') or s in self.db.enums: v = self.num(s)
        elif h in ('std::basic_string', 'std::string', 'std::__cxx11::basic_string'):
            self.k += 1
            v = 'token %d ' % self.k + 'x' * (3 * self.k)
        elif h in ('std::vector',):
            a = split_args(s)[0]
            v = Vec([Cell(self.plain(self.tok(a, (key, i)))) for i in range(3)], 'vector')
        elif h == 'std::optional': v = Opt(Cell(self.plain(self.tok(split_args(s)[0], (key, 'v'))))) if self.flag else Opt()
        elif h == 'std::pair':
            a = split_args(s)
            v = Obj('std::pair', {'first': Cell(self.plain(self.tok(a[0], (key, 1)))), 'second': Cell(self.plain(self.tok(a[1], (key, 2))))})
        elif h in ('std::unique_ptr', 'std::shared_ptr'): return Ptr(Cell(Obj(strip(split_args(s)[0]), {'$tok': Cell(key)})))
        elif h.startswith('mdf::'): v = Obj(s, {'$tok': Cell(key)})
        else: raise Stuck('a value of type ' + t)
        return Cell(v) if ref else v

    @staticmethod
    def plain(v): return v.v if isinstance(v, Cell) else v

    def record(self, oc, name, fid, n, I):
        d = self.db.decls.get(fid or '') or self.db.funcs.get(fid or '') or {'p': []}
        cells = I.params(fid, [a for a in n['a'] if a.get('k') != 'DefaultArg'])
        ps = d['p']
        outs = {}
        vals = []
        for i, c in enumerate(cells):
            t = ps[i]['t'] if i < len(ps) else ''
            isout = t.endswith('&') and not re.match(r'const\b(?!.*\*)', t) and not t.rstrip(' &').endswith('const') and not (isinstance(c.v, Obj) and '$tok' in c.v.f)
            vals.append(('out', c) if isout else show(c.v))
            if isout: outs[i] = c
        who = id(oc.v) if isinstance(oc, Cell) else None
        key = (who, name, tuple(repr(x) if x[0] != 'out' else 'out%d' % i for i, x in enumerate(vals)), d.get('id'))
        if key not in self.tokens:
            t = n.get('t') or d.get('ret') or 'void'
            self.flag = self.yes if name == self.want else self.other
            fix = dict((i, self.plain(self.tok(strip(ps[i]['t']), (key, i)))) for i in outs)
            self.tokens[key] = (self.tok(d.get('ret') if (d.get('ret') or '').endswith('&') else t, key), fix)
        r, fix = self.tokens[key]
        for i, c in outs.items(): c.v = I.copy(fix[i])
        self.calls.append((oc.v if isinstance(oc, Cell) else None, name, vals, r, fix, d, I.line, fid, n.get('t') or ''))
        if isinstance(r, Cell): return r
        return I.copy(r) if not isinstance(r, (Ptr, Opaque)) else r

    def hook(self, kind, what, n, I):
        if kind == 'method':
            b, oc = what
            if b == 'release' and isinstance(oc.v, Ptr) and 'unique_ptr' in (n.get('n') or ''): self.owned.append(oc.v.c)
            if isinstance(oc.v, Obj) and '$tok' in oc.v.f and not (n.get('n') or '').startswith('std::'):
                return self.record(oc, b, n.get('f'), n, I)
            return None
        if kind == 'call':
            nm = n.get('n') or ''
            if what in ('strcpy', 'memcpy', 'memmove', 'strncpy', 'copy_n', 'copy'): return self.cpy(what, n, I)
            f = self.db.funcs.get(n.get('f') or '')
            if f is not None and f['file'].endswith('MdfExport.cpp'): return None
            if nm.startswith('mdf::') or (f is not None and f['n'].startswith('mdf::')): return self.record(None, what, n.get('f'), n, I)
        if kind == 'ctor' and isinstance(what, str) and what.startswith('mdf::') and not what.startswith('mdf::Mdf') or kind == 'ctor' and what in ('mdf::MdfReader',):
            a = [I.ev(x) for x in n.get('a') or []]
            if len(a) == 1 and isinstance(a[0], Obj) and a[0].cls == what: return I.copy(a[0])
            o = Obj(what, {'$tok': Cell(('new', len(self.made)))})
            self.made.append((o, what, [show(x) for x in a]))
            return o
        return None

    def cpy(self, what, n, I):
        a = [I.ev(x) for x in n['a']]
        dst, src = a[0], a[1]
        if what in ('copy', 'copy_n'):
            if what == 'copy' and isinstance(a[0], str): return None
            if what == 'copy' and isinstance(a[0], Ptr):
                if not isinstance(a[1], Ptr) or a[0].c is not a[1].c: raise Stuck('range')
                cells, dst = self.read(a[0], (a[1].i or 0) - (a[0].i or 0)), a[2]
            elif what == 'copy': cells, dst = [c.v for _, c in I.span(a[0], a[1])], a[2]
            else: cells, dst = self.read(a[0], a[1]), a[2]
            if not isinstance(dst, Ptr): return None
            self.write(dst, cells)
            return dst
        if not isinstance(dst, Ptr): raise Stuck('copy to %r' % (dst,))
        if what == 'strcpy': data = self.text(src) + [0]
        elif what == 'strncpy':
            data = self.text(src)
            data = (data + [0] * a[2])[:a[2]]
        else: data = self.read(src, a[2])
        self.write(dst, data)
        return dst

    def text(self, src):
        if isinstance(src, str): return [ord(c) for c in src]
        raise Stuck('text from %r' % (src,))

    def read(self, src, n):
        if not isinstance(n, int): raise Stuck('length %r' % (n,))
        if isinstance(src, str): d = [ord(c) for c in src] + [0]
        elif isinstance(src, Ptr) and isinstance(src.c.v, Vec): d = [c.v for c in src.c.v.items[src.i or 0:]]
        elif isinstance(src, Ptr) and isinstance(src.c.v, str): d = [ord(c) for c in src.c.v] + [0]
        elif isinstance(src, Vec): d = [c.v for c in src.items]
        else: raise Stuck('read from %r' % (src,))
        if n > len(d): self.over.append('%d elements are read where there are %d' % (n, len(d)))
        return d[:n]

    def write(self, dst, data):
        items = dst.c.v.items
        for i, v in enumerate(data):
            if (dst.i or 0) + i >= len(items): raise Stuck('buffer')
            items[(dst.i or 0) + i].v = v


def show(v):
    """a comparable picture of an argument"""
    if isinstance(v, Cell): v = v.v
    if isinstance(v, Ptr):
        if v.i is None: return show(v.c) if isinstance(v.c.v, Obj) else ('ptr', id(v.c))
        return ('buf', id(v.c), v.i)
    if isinstance(v, Obj) and '$tok' in v.f: return ('obj', v.f['$tok'].v)
    if isinstance(v, Obj): return ('struct', tuple(sorted((k, show(c)) for k, c in v.f.items())))
    if isinstance(v, Vec): return ('list', tuple(show(c) for c in v.items))
    if isinstance(v, Opt): return show(v.c) if v.c else ('none',)
    if isinstance(v, str): return ('text', v)
    if isinstance(v, bool): return ('num', int(v))
    if isinstance(v, (int, float)): return ('num', v)
    if v is NULL: return ('null',)
    return ('other', repr(v))


def methods(db, cls):
    out = set()
    for c in [cls] + list(db.bases(cls)):
        for d in db.decls.values():
            if d.get('cls') == c: out.add(base_name(d['n']))
    return out


def target(db, name, cls, have):
    """the function of the library an exported name stands for, and how its result is given"""
    if name in ALIAS: return ALIAS[name]
    for p in PREFIX:
        if name.startswith(p): r = name[len(p):]; break
    else: return None
    if r in have and not r.startswith('Get'): return r
    if r in have: return r
    for q in ('Get', 'Set', 'Is'):
        if r.startswith(q):
            x = r[len(q):]
            for y in (x, re.sub(r'As(Signed|UnSigned|Unsigned|Float|Double|Boolean|String|Array)$', '', x), re.sub(r'Used$', '', x), re.sub(r'(Min|Max)$', '', x), r.replace('AsString', '').replace('AsArray', '')):
                if y in have: return y
    y = re.sub(r'As(Signed|UnSigned|Unsigned|Float|Double|Boolean|String|Array)$', '', r)
    return y if y in have else None


def kinds(f, name):
    """what each parameter after the receiver is: obj, text, outtext, outlist, inlist, count, ref, num, bool"""
    ps = f['p'][1:] if receiver(f) else f['p']
    out = []
    for i, p in enumerate(ps):
        t = p['t'].strip()
        if t.endswith('&'): k = 'ref'
        elif t == 'const char *': k = 'text'
        elif t == 'char *': k = 'outtext'
        elif t.endswith('**') or t.endswith('*') and strip(t[:-1]) in list(INT) + ['double', 'float']:
            k = 'inlist' if i + 1 < len(ps) and strip(ps[i + 1]['t']) in INT and not ps[i + 1]['t'].strip().endswith('&') else 'outlist'
        elif t.endswith('*'): k = 'obj'
        elif out and out[-1] == 'inlist': k = 'count'
        elif strip(t) == 'bool': k = 'bool'
        else: k = 'num'
        out.append(k)
    return ps, out


def receiver(f):
    if not f['p']: return None
    t = f['p'][0]['t'].strip()
    n = f['n'].split('::')[-1]
    if not t.endswith('*') or t.endswith('**'): return None
    c = strip(t[:-1])
    if not c.startswith('mdf::'): return None
    if re.match(r'MdfChannelObserverCreate', n): return None
    return c


def execute(db, f, yes, other, full, room, want):
    """room: what the size reference arguments hold"""
    run = Run(db, yes, other, want)
    ps, ks = kinds(f, f['n'])
    cells, args, outs, refs, rc = [], [], [], [], None
    if receiver(f):
        rc = Obj(receiver(f), {'$tok': Cell('receiver')})
        cells.append(Cell(Ptr(Cell(rc))))
    for p, k in zip(ps, ks):
        t = p['t'].strip()
        if k == 'ref':
            c = Cell(room if room is not None and strip(t) in INT else run.num(strip(t)))
            refs.append((p['n'], c, c.v)); cells.append(c)
            args.append(('ref', c))
        elif k == 'text':
            run.k += 1
            s = 'given %d ' % run.k + p['n']
            cells.append(Cell(s)); args.append(('val', ('text', s)))
        elif k in ('outtext', 'outlist'):
            c = Cell(Vec([Cell(SENT) for _ in range(400)], 'array'))
            cells.append(Cell(Ptr(c, 0) if full else NULL)); outs.append((p['n'], k, c))
        elif k == 'inlist':
            e = strip(t[:-1])
            v = Vec([Cell(Ptr(Cell(Obj(strip(e[:-1]), {'$tok': Cell((p['n'], i))}))) if e.endswith('*') else run.num(e)) for i in range(3)], 'array')
            cells.append(Cell(Ptr(Cell(v), 0))); args.append(('val', show(Vec(v.items))))
        elif k == 'count': cells.append(Cell(3))
        elif k == 'obj':
            o = Ptr(Cell(Obj(strip(t[:-1]), {'$tok': Cell(p['n'])})))
            cells.append(Cell(o)); args.append(('val', show(o)))
        elif k == 'bool': cells.append(Cell(yes)); args.append(('val', ('num', int(yes))))
        else:
            v = run.num(strip(t))
            cells.append(Cell(v)); args.append(('val', ('num', v)))
    r = run.I.call(f, None, cells)
    if isinstance(r, Cell): r = r.v
    return run, rc, args, outs, refs, r


def wrote(c):
    out = []
    for x in c.v.items:
        if x.v is SENT: break
        out.append(x.v)
    rest = [x for x in c.v.items[len(out):] if x.v is not SENT]
    return out, bool(rest)


def same_buffer(kind, c, res):
    d, gap = wrote(c)
    if gap: return 'leaves gaps in the buffer'
    if kind == 'outtext':
        want = [ord(x) for x in res] + [0]
        return None if d == want else ('gives %s instead of the text' % ('nothing' if not d else 'another text' if 0 in d else 'a text without end'))
    want = [show(x) for x in res.items]
    got = [show(x) for x in d]
    if got == want: return None
    if len(got) > len(want) and got[:len(want)] == want: return 'writes %d elements where the list has %d' % (len(got), len(want))
    return 'does not give the %d elements of the list in their order' % len(want)


def conv(I, v, t):
    try: return I.conv(v, t)
    except Stuck: return v


def lib_params(d): return [p['t'] for p in d['p']]


def judge(db, f, name, want, cls, yes, other, full, room):
    """complaint or None"""
    run, rc, args, outs, refs, r = execute(db, f, yes, other, full, room, want)
    if run.over: return run.over[0]
    if name.endswith('UnInit'):
        return None if any(isinstance(v, Ptr) and v.c.v is rc for v in run.deleted) and len(run.deleted) == 1 else 'does not delete the object'
    if run.deleted: return 'deletes an object'
    # the constructors
    if rc is None:
        lib = [c for c in run.calls if c[1] == want] if want else []
        if want:
            if len(lib) != 1: return 'does not call %s once' % want
            c = lib[0]
        if name.endswith('Init') and not want:
            if len(run.made) != 1 or not isinstance(r, Ptr) or not isinstance(r.c.v, Obj) or '$tok' not in r.c.v.f or r.c.v.f['$tok'].v != ('new', 0): return 'does not give one new object'
            exp = [a[1] for a in args]
            return None if run.made[0][2] == exp else 'makes the object from other arguments than its own'
        if name == 'MdfWriterInit':
            if c[2] != [args[0][1]]: return 'makes a writer of another type than the one given'
            if not (isinstance(r, Ptr) and r.c is c[3].c): return 'does not give the writer it made'
            ini = [x for x in run.calls if x[0] is c[3].c.v]
            if [x[1] for x in ini] != ['Init'] or ini[0][2] != [args[1][1]]: return 'does not initialize the writer with the file name'
            return None
        got = [x for x in c[2] if x[0] != 'out']
        if got != [a[1] for a in args]: return 'calls %s with other arguments than its own' % want
        if outs:
            lst = c[4][max(c[4])] if c[4] else None
            if lst is None or r != len(lst.items): return 'does not return the number of observers'
            if full and any(not any(o is x.v.c for o in run.owned) for x in lst.items): return 'gives observers that are deleted when it returns'
            return same_buffer('outlist', outs[0][2], lst) if full else None
        if isinstance(c[3], Ptr) and 'unique_ptr' in (c[8] or '') and not any(o is c[3].c for o in run.owned): return 'gives an observer that is deleted when it returns'
        return None if isinstance(r, Ptr) and isinstance(c[3], Ptr) and r.c is c[3].c else 'does not give the observer it made'
    on = [c for c in run.calls if c[0] is rc]
    mine = [c for c in on if c[1] == want]
    if not mine: return 'does not call %s' % want
    for c in on:
        if c[1] != want and not (db.decls.get(c[5].get('id') or '') or c[5]).get('const'): return 'calls %s, which can change the object' % c[1]
    act = f.get('ret') == 'void' or not (db.decls.get(c[5].get('id') or '') or c[5]).get('const')
    if f.get('ret') == 'void' and len(mine) != 1: return 'calls %s %d times' % (want, len(mine))
    rest = re.sub('^(%s)' % '|'.join(PREFIX), '', name)
    for c in mine:
        exp = [a for a in args]
        if rest in EXTRA: exp = [('val', ('num', v)) for v in EXTRA[rest]] if EXTRA[rest] else []
        got = list(c[2])
        given = [a for a in exp if a[0] == 'val']
        took = [g for g in got if g[0] != 'out']
        ts = lib_params(c[5])
        while len(took) > len(given) and took[-1] in (('num', 0), ('text', '')): took.pop()      # default arguments
        if len(took) != len(given): return 'calls %s with %d arguments instead of %d' % (want, len(took), len(given))
        for i, (g, a) in enumerate(zip(took, given)):
            e = a[1]
            if g == e: continue
            if e[0] == 'num' and g[0] == 'num':
                t = strip(ts[got.index(g)]) if got.index(g) < len(ts) else ''
                if t in INT and conv(run.I, e[1], t) == g[1]: continue
            return 'calls %s with another argument %d than its own' % (want, i + 1)
        if want == 'Value' and f.get('ret') in ('long', 'unsigned long', 'double', 'bool') and not outs and strip(c[8]) != f['ret']: return 'asks for a value of type %s' % strip(c[8])
    res, fix = mine[0][3], mine[0][4]
    res = res.v if isinstance(res, Cell) and not (f.get('ret') or '').strip().endswith('*') else res
    if f.get('ret') == 'void': return None
    lists = [(n, k, c) for n, k, c in outs]
    # values the library gives back in reference arguments
    if fix and (refs or lists):
        vals = list(fix.values())
        if lists:                                      # text or list with a size argument, or a list that is filled
            data = vals[0]
            size = len(data) if isinstance(data, str) else len(data.items)
            n, k, c = lists[0]
            if refs:
                fits = room >= size + (1 if isinstance(data, str) else 0)
                if refs[0][1].v != size: return 'does not give the size of the value'
                if show(r) != show(res): return 'does not return what %s returns' % want
                if not full or not fits: return 'writes into a buffer that is too small' if wrote(c)[0] else None
                return same_buffer(k, c, data)
            if r != size: return 'does not return the number of elements'
            return same_buffer(k, c, data) if full else None
        for (n, c, old), v in zip(refs, vals):
            if show(c) != show(v): return 'does not give the value %s wrote in %s' % (want, n)
        return None if show(r) == show(res) else 'does not return what %s returns' % want
    if isinstance(res, str):
        if r != len(res): return 'does not return the length of the text'
        return same_buffer('outtext', lists[0][2], res) if full and lists else None
    if isinstance(res, Vec):
        if r != len(res.items): return 'does not return the number of elements'
        return same_buffer('outlist', lists[0][2], res) if full and lists else None
    if isinstance(res, Opt):
        v = res.c.v if res.c else None
        if rest.startswith('Is') or lists:
            if show(r) != ('num', int(v is not None)): return 'does not tell whether there is a value'
            if lists and full: return same_buffer('outtext', lists[0][2], v if v is not None else '')
            return None
        if v is None: return None if show(r) == ('num', 0) else 'does not give 0 when there is no value'
        if isinstance(v, Obj): v = v.f['second' if rest.endswith('Max') else 'first'].v
        return None if show(r) == show(v) else 'does not give the value of %s' % want
    if isinstance(res, Cell):
        return None if isinstance(r, Ptr) and r.c is res else 'does not give the object %s gives' % want
    if isinstance(res, Ptr): return None if isinstance(r, Ptr) and r.c is res.c else 'does not give the object %s gives' % want
    if isinstance(res, (int, float)):
        return None if show(r) == show(conv(run.I, res, f.get('ret') or '')) else 'does not return what %s returns' % want
    raise Stuck('result %r' % (res,))


LIB = {'MdfWriterInit': 'CreateMdfWriterEx', 'MdfChannelObserverCreate': 'CreateChannelObserver', 'MdfChannelObserverCreateByChannelName': 'CreateChannelObserver', 'MdfChannelObserverCreateForChannelGroup': 'CreateChannelObserverForChannelGroup'}


def export(db, R):
    fs = [f for f in db.funcs.values() if f['file'].endswith('mdflibrary/src/MdfExport.cpp') and f['n'].startswith(NS)]
    if not fs: raise AnalysisError('no exported functions found')
    cache, stuck, done, runs = {}, [], 0, 0
    for f in fs:
        name = f['n'].split('::')[-1]
        if not name.startswith(PREFIX): R.notes.append('%s is not an exported function of the pattern' % name); continue
        cls = receiver(f)
        if cls is None: want = LIB.get(name)
        elif name.endswith('UnInit'): want = None
        else:
            if cls not in cache: cache[cls] = methods(db, cls)
            want = target(db, name, cls, cache[cls])
            if want is None: R.notes.append('%s names no function of %s' % (name, cls)); continue
        bad = None
        try:
            _, ks = kinds(f, name)
            buf = any(k.startswith('out') for k in ks)
            for yes, other in ((True, True), (False, False), (True, False), (False, True)):
                for full in ((True, False) if buf else (True,)):
                    rooms = [None]
                    if buf and 'ref' in ks: rooms = [0, 2, 3, 4] + [n for n in (10, 11, 12, 13, 14, 15, 16, 300)]
                    for room in rooms:
                        runs += 1
                        try: bad = judge(db, f, name, want, cls, yes, other, full, room)
                        except Stuck as e:
                            if 'empty optional used' in str(e) and not yes: bad = None; continue   # values of a range that is not used
                            raise
                        if bad: break
                    if bad: break
                if bad: break
            done += 1
            R.analysed(f)
        except (Stuck, CThrow) as e:
            stuck.append('%s: %s' % (name, str(e)[:80])); continue
        if bad: R.violate('export', name, (f['file'], f['line']), '%s %s' % (name, bad))
    R.count('exported functions', done)
    R.count('executions', runs)
    for s in stuck: R.notes.append('not decided: ' + s)
    if len(stuck) * 4 > len(fs): raise AnalysisError('%d of %d exported functions cannot be decided: %s' % (len(stuck), len(fs), stuck[0]))
