"""P16: a copied configuration object has the properties of its source (object-level abstract interpretation over tokens)"""
import sys, multiprocessing
from ..facts import AnalysisError
from ..objint import *
from ..objint import strip, head, split_args, CONT, MAPS, STR, PTRS, INTS
from .xml_rule import Pop, make_hook, getters, by_cls, compare, short

FRAME = 'mdf::detail::MdfBlock'


def hook_for(db):
    base = make_hook(db)

    def hook(kind, what, n, I):
        if kind == 'call' and what in ('now', 'NowNs'): 
            I.clock = getattr(I, 'clock', 0) + 1
            return Num(('tok', 'now%d' % I.clock, 64, ('now', 'now')), 'u')
        if kind == 'method' and what[0] == 'ReadInDataBuffer':
            a = [I.lv(x) for x in n['a']]
            a[2].v = Vec([Cell('data at %s, %s bytes' % (a[0].v, a[1].v))], 'vector')
            return True
        if kind == 'call' and what in ('NanoSecToDDMMYYYY', 'NanoSecToHHMMSS', 'NsToLocalIsoTime'): return '%s(%r)' % (what, I.ev(n['a'][0]))   # calendar text of a time
        if kind == 'call' and what in ('TimeZoneOffset', 'GmtOffsetNs', 'DstOffsetNs'): return Num(('tok', what, 64, ('zone', what)), 'i')
        return base(kind, what, n, I)
    return hook


def copiers(db):
    """concrete classes and their copy functions"""
    out = []
    for c in sorted(db.classes):
        if FRAME not in db.bases(c): continue
        for nm in ('CopyFrom', 'CopyConfigFrom'):
            for b in [c] + list(db.bases(c)):
                f = next((f for i, f in by_cls(db).get(b, ()) if f['n'].split('::')[-1] == nm and f.get('body') is not None), None)
                if f is not None:
                    out.append((c, nm, f))
                    break
    return out


# ---- what a copy does not take over: where the data lies in its own file, and links to other blocks of it -------------
OWN = {
    'IChannelGroup': {'RecordId', 'NofSamples', 'Sample', 'GetSampleRecord', 'SampleBuffer', 'RecordSize', 'MaxLength', 'StorageType', 'Channels', 'TopLevelChannels', 'Cn3', 'Cn4',
                      'SourceInformation', 'Source', 'FindSdChannel', 'GetMasterChannel', 'GetMasterTimeChannel', 'DataGroup', 'Sr3', 'Sr4', 'PrepareSampleRecord'},
    'IChannel': {'VlsdRecordId', 'SampleBuffer', 'AtLinkList', 'AttachmentList', 'DefaultX', 'DataLink', 'DataList', 'DataBlockList', 'IsRdBlock', 'RecordId', 'ChannelGroup', 'XAxisLinkList',
                 'CalculateMasterTime', 'ArraySize', 'Index', 'DataSize'},
    'IChannelArray': {'DynamicSizes', 'InputQuantities', 'OutputQuantity', 'ComparisonQuantity', 'AxisConversions', 'AxisList', 'Axes', 'DataLinks', 'HasReferenceToOtherBlock'},
    'IHeader': {'DataGroups', 'LastDataGroup', 'FileHistories', 'Attachments', 'Events', 'Hierarchies', 'Fh4', 'Ch4', 'At4', 'Ev4', 'Dg3', 'Dg4', 'IsFinalized', 'StandardFlags', 'CustomFlags', 'FileInformation'},
    'IAttachment': set(), 'ISourceInformation': set(), 'IChannelConversion': {'ChannelConversion'}, 'IFileHistory': set(),
}
CHILDREN = {'Cc', 'Cc3', 'Cc4', 'ChannelConversion', 'SourceInformation', 'Si', 'ChannelArrays', 'ChannelCompositions', 'Cx4', 'Inverse'}
LINKS = {'Md4', 'MetaData', 'CgBlock', 'DgBlock', 'HeaderBlock', 'Unit3'}


def iface(db, c):
    """the interface (without the prefix of the name space) a block class implements"""
    for b in [c] + list(db.bases(c)):
        if short(b) in OWN: return short(b)
    return None


class Fill(Pop):
    """like Pop, but integers are distinct values (wide types have wide values)"""
    def value(self, t, old, path, depth, key):
        t2 = strip(t)
        if t2 in INTS and t2 != 'bool':
            self.n += 1
            self.leaves.append((key, ('int', t2)))
            v = self.vary.get(key)
            if v == 'zero': return 0
            if isinstance(v, tuple) and v[0] == 'int': return v[1]
            w = {'long': 1 << 34, 'unsigned long': 1 << 34, 'short': 0x300, 'unsigned short': 0x300}.get(t2, 0)
            return w + 3 + 2 * self.n % 250
        if t2 in ('float', 'double') and self.vary.get(key) == 'zero': return 0.0
        return Pop.value(self, t, old, path, depth, key)


def plain(db, t):
    t = strip(t)
    h = head(t)
    if t.endswith('*') or h in PTRS: return False
    if h in CONT or h in MAPS or h in ('std::optional', 'std::pair'): return all(plain(db, x) for x in split_args(t) if head(x) not in ('std::allocator', 'std::less'))
    if t in db.classes and record(db, t): return True
    return h in STR or t in INTS or t in ('float', 'double', 'bool') or t in db.enums


def record(db, t):
    """a structure of plain members without functions of its own"""
    fs = db.classes[t].get('fields', ())
    return bool(fs) and not db.bases(t) and not by_cls(db).get(t) and all(plain(db, f['t']) for f in fs)


def deep(db, I, a, b, path, out):
    """compare two values member by member"""
    if isinstance(a, Cell): a = a.v
    if isinstance(b, Cell): b = b.v
    if isinstance(a, Obj) and isinstance(b, Obj):
        for k in a.f: deep(db, I, a.f[k], b.f.get(k), path, out)
    elif isinstance(a, Vec) and isinstance(b, Vec) and len(a.items) == len(b.items):
        for x, y in zip(a.items, b.items): deep(db, I, x, y, path, out)
    else: compare(db, I, a, b, path, out)


def fns(db, c, nm, n):
    """the function a call of nm with n arguments on an object of class c runs"""
    for b in [c] + list(db.bases(c)):
        for i, f in by_cls(db).get(b, ()):
            if f['n'].split('::')[-1] == nm and len(f['p']) == n and f.get('body') is not None: yield f


SIZES = ('nof_data_bytes_', 'nof_invalid_bytes_', 'record_size_', 'size_of_data_record_', 'nof_values_', 'nof_references_', 'dimensions_')


def fill(db, I, o, tag, vary, skip=()):
    """give every plain member of o a value of its own; texts and comments are set with the setters"""
    P = Fill(db, I, vary)
    c = o.cls
    frame = {FRAME} | set(db.bases(FRAME))
    done = set()
    for b in [c] + list(db.bases(c)):
        if b in frame: continue
        for fl in db.classes.get(b, {}).get('fields', ()):
            if not plain(db, fl['t']) or head(strip(fl['t'])) == 'std::array' or fl['n'] in skip: continue
            o.f[fl['n']].v = P.value(fl['t'], o.f[fl['n']].v, (tag, fl['n']), 1, (b, fl['n']))
    for b in [c] + list(db.bases(c)):
        if b in frame: continue
        for i, f in by_cls(db).get(b, ()):
            nm = f['n'].split('::')[-1]
            if len(f['p']) != 1 or f.get('body') is None or i.endswith('const') or strip(f.get('ret') or '') != 'void' or nm in done: continue
            t = strip(f['p'][0]['t'])
            if head(t) in STR and (b, nm) not in vary and any(not g['p'] for g in getters_named(db, c, nm)):
                done.add(nm)
                I.call(f, Cell(o), [Cell(P.text((tag, nm)))])
                P.leaves.append(((b, nm), 'setter'))
    f = next((f for f in fns(db, c, 'Parameter', 2) if strip(f['p'][1]['t']) == 'double'), None)
    if f is not None:
        for k in range(3): I.call(f, Cell(o), [Cell(k), Cell(Num(('tok', '%s.parameter%d' % (tag, k), 64, (c, 'Parameter')), 'f'))])
    return P


def getters_named(db, c, nm): return [f for (n, _), f in getters(db, c).items() if n == nm]


def comments_of(db, c):
    """(suffix, class of the comment, setter, getter) of the comment objects a block holds"""
    out = {}
    for b in [c] + list(db.bases(c)):
        for i, f in by_cls(db).get(b, ()):
            nm = f['n'].split('::')[-1]
            if not nm.startswith('Set') or len(f['p']) != 1: continue
            t = strip(f['p'][0]['t'])
            if t not in db.classes or not any(g['n'].endswith('::ToXml') for x in [t] + list(db.bases(t)) for _, g in by_cls(db).get(x, ())): continue
            g = next(iter(fns(db, c, 'G' + nm[1:], 1)), None)
            if g is not None and nm[3:] not in out: out[nm[3:]] = (nm[3:], t, f, g)
    return [out[k] for k in sorted(out)]


def observe(db, I, o, d, skip, out, direct):
    """differences between what the observers of o and d return"""
    I.skip_get = skip
    compare(db, I, o, d, (), out)
    for fl in stored(db, o.cls) if direct else ():
        I.observed = getattr(I, 'observed', 0) + 1
        deep(db, I, o.f[fl].v, d.f[fl].v, ((o.cls, 'stored member ' + fl),), out)
    for c in [o.cls] + list(db.bases(o.cls)):
        for i, f in by_cls(db).get(c, ()):
            nm = f['n'].split('::')[-1]
            if len(f['p']) != 1 or not i.endswith('const') or f.get('body') is None or strip(f['p'][0]['t']) not in INTS or skip(o.cls, nm): continue
            for k in range(3):
                try: x, y = I.call(f, Cell(o), [Cell(k)]), I.call(f, Cell(d), [Cell(k)])
                except Stuck: I.skipped.add(f['n']); break
                except CThrow: break
                I.observed = getattr(I, 'observed', 0) + 1
                compare(db, I, x, y, ((o.cls, '%s(%d)' % (nm, k)),), out)


def stored(db, c):
    """members of class c that its Write function stores, without those that only observers of the place in the file return"""
    m = getattr(db, '_stored', None)
    if m is None: m = db._stored = {}
    if c in m: return m[c]
    names = {fl['n']: fl for b in [c] + list(db.bases(c)) if b != FRAME and b not in db.bases(FRAME) for fl in db.classes.get(b, {}).get('fields', ()) if plain(db, fl['t'])}
    def members(f):
        return {n['n'].split('::')[-1] for n in nodes(f['body']) if n.get('k') == 'Member' and isinstance(n.get('n'), str)} & set(names)
    w = set()
    todo, seen = [f for b in [c] + list(db.bases(c)) for i, f in by_cls(db).get(b, ()) if f['n'].split('::')[-1] == 'Write' and f.get('body') is not None], set()
    while todo:
        f = todo.pop()
        if f['id'] in seen: continue
        seen.add(f['id'])
        w |= members(f)
        for n in nodes(f['body']):           # helpers of the same class
            if n.get('k') == 'Call':
                g = db.funcs.get(n.get('f') or n.get('id') or '')
                if g is not None and g.get('cls') in [c] + list(db.bases(c)) and g.get('cls') != FRAME and g.get('body') is not None: todo.append(g)
    own = OWN.get(iface(db, c), set())
    local = set()
    for b in [c] + list(db.bases(c)):
        for i, f in by_cls(db).get(b, ()):
            if f.get('body') is not None and f['n'].split('::')[-1] in own: local |= members(f)
    for i in seen:                        # what Write itself sets (positions, counts)
        for n in nodes(db.funcs[i]['body']):
            if n.get('k') in ('Bin', 'Assign') and n.get('op') in ('=', '+='):
                x = n.get('l_') or n.get('a')
                x = x[0] if isinstance(x, list) else x
                if isinstance(x, dict) and x.get('k') == 'Member': local.add(x['n'])
    m[c] = sorted(w - local - {'data_buffer_'})
    return m[c]


def nodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values(): yield from nodes(v)
    elif isinstance(n, list):
        for v in n: yield from nodes(v)


def children(db, I, o, deep=True):
    """give a channel the objects that belong to it"""
    made = []

    def mk(par, nm):
        f = next(iter(fns(db, par.cls, nm, 0)), None)
        if f is None: return None
        p = I.call(f, Cell(par), [])
        if not isinstance(p, Ptr): return None
        made.append(nm)
        fill(db, I, p.c.v, (nm,) + ((len(made),)), {}, ('flags_', 'storage_', 'data_links_'))
        return p.c.v
    mk(o, 'CreateSourceInformation')
    cc = mk(o, 'CreateChannelConversion')
    if cc is not None:
        f = next(iter(fns(db, cc.cls, 'Reference', 2)), None)
        if f is not None:
            I.call(f, Cell(cc), [Cell(0), Cell('first text')])
            I.call(f, Cell(cc), [Cell(2), Cell('third text')])
        mk(cc, 'CreateInverse')
    mk(o, 'CreateChannelArray')
    cx = mk(o, 'CreateChannelComposition')
    if cx is not None and deep: made += children(db, I, cx, False)
    return made


def one(db, job):
    """copy one populated object; differences and what was looked at"""
    c, nm, vary, what = job
    f = next(f for k, n, f in copiers(db) if k == c and n == nm)
    I = Interp(db, texts=Texts(), hook=hook_for(db))
    I.nofork = lambda t: True
    I.limit = 3000000
    own = OWN.get(iface(db, c), set())
    internal = set()
    for b in [FRAME] + list(db.bases(FRAME)):
        internal |= {g['n'].split('::')[-1] for _, g in by_cls(db).get(b, ())}
    internal -= {'Comment', 'Description', 'Name'}

    def skip(cls, g):
        if g in LINKS or g in internal: return True
        i = iface(db, cls)
        if g in OWN.get(i, ()): return True
        if nm == 'CopyFrom' and i == 'IChannel' and (g in CHILDREN or g in ('Unit', 'IsUnitValid') and short(cls) == 'Cn3Block'): return True
        return False
    out, info = [], dict(observed=0, leaves=[], skipped=set(), made=[])
    try:
        o, d = I.new(c), I.new(c)
        sk = ()
        if what == 'children': sk = ('flags_',)
        P = fill(db, I, o, 's', vary, sk)
        info['leaves'] = P.leaves
        if what == 'children': info['made'] = children(db, I, o)
        com = []
        if what == 'comments':
            for suf, t, st, gt in comments_of(db, c):
                x = Pop(db, I, {}).obj(t, (suf,), 1)
                I.call(st, Cell(o), [Cell(x)])
                if not (nm == 'CopyFrom' and short(c) == 'Cn3Block' and suf == 'CnUnit'): com.append((suf, t, gt))     # the unit of a MDF3 channel lies in its conversion
        args = [Cell(o)] + ([Cell(Opaque('reader'))] if len(f['p']) == 2 else [])
        I.call(f, Cell(d), args)
        if len(f['p']) == 2 and what == 'base' and 'data_position_' in o.f and 'nof_bytes_' in o.f:      # the embedded data is read with the reader
            want = 'data at %s, %s bytes' % (o.f['data_position_'].v, o.f['nof_bytes_'].v)
            got = [x.v.items[0].v for x in d.f.values() if isinstance(x.v, Vec) and len(x.v.items) == 1 and isinstance(x.v.items[0].v, str)]
            if o.f['data_position_'].v and o.f['nof_bytes_'].v and got != [want]: out.append((((c, 'embedded data'),), 'value', want, got[0] if got else 'nothing'))
        if what == 'comments':
            for suf, t, gt in com:
                x, y = Cell(I.new(t)), Cell(I.new(t))
                I.call(gt, Cell(o), [x])
                I.call(gt, Cell(d), [y])
                oo = []
                compare(db, I, x, y, ((c, 'Get' + suf),), oo)
                out += oo
        else: observe(db, I, o, d, skip, out, f.get('cls') == c)
    except Stuck as e: return job, [], dict(info, stuck=str(e))
    except CThrow as e: return job, [((), 'copying throws', str(e.t), None)], info
    info['observed'], info['skipped'] = getattr(I, 'observed', 0), set(I.skipped)
    return job, out, info


TRIVIAL = {'text': ['empty'], 'bool': [False], 'int': ['zero'], 'num': ['zero'], 'opt': ['none'], 'list': ['none'], 'setter': ['empty']}


def work(job):
    sys.setrecursionlimit(8000)
    return one(work.db, job)


def fork(db, jobs):
    work.db = db
    with multiprocessing.get_context('fork').Pool(8) as pool: return pool.map(work, jobs, chunksize=4)


def run(db, R):
    cs = copiers(db)
    if not cs: raise AnalysisError('no class with a copy function (CopyFrom) found')
    jobs = [(c, nm, {}, w) for c, nm, f in cs for w in ('base', 'comments') + (('children',) if nm == 'CopyConfigFrom' else ())]
    base = fork(db, jobs)
    more = []
    for (c, nm, _, w), out, info in base:
        if w != 'base' or 'stuck' in info: continue
        seen = set()
        for key, kind in info['leaves']:
            if key in seen: continue
            seen.add(key)
            if isinstance(kind, tuple) and kind[0] == 'int':
                vs = [('int', x) for x in (range(16) if kind[1].endswith('char') else [0, 1] + [1 << b for b in range(1, 16)] if 'flag' in key[1].lower() else [0])]
            else: vs = [('enum', x) for x in kind[1]] if isinstance(kind, tuple) else TRIVIAL.get(kind, [])
            more += [(c, nm, {key: v}, 'base') for v in vs]
    res = base + (fork(db, more) if more else [])
    files = {(c, nm): f for c, nm, f in cs}
    seen = set()
    for (c, nm, vary, w), out, info in res:
        f = files[c, nm]
        R.count('copies')
        R.count('observers_compared', info['observed'])
        R.count('children_copied', len(info['made']))
        if w == 'base' and not vary: R.analysed(f)
        if 'stuck' in info:
            raise AnalysisError('%s (%s:%s): %s' % (f['n'], f['file'], f['line'], info['stuck']))
        for path, what, a, b, *_ in out:
            gs = [x for x in path if isinstance(x, tuple)]
            obs = '.'.join(['%s::%s' % (short(x[0]), x[1]) for x in gs]) or what
            if gs and any(v == 'empty' and k[1] == gs[-1][1] for k, v in vary.items()): continue       # mandatory texts have a default
            key = '%s/%s/%s' % (short(c), nm, obs)
            if isinstance(a, Num) and isinstance(b, Num) and b.k[0] == '+' and b.k[1] == a.k and b.k[2][:2] == ('tok', 'GmtOffsetNs'): key += '/shifted-by-time-zone'
            if key in seen: continue
            seen.add(key)
            how = ''
            if vary:
                (k, v), = vary.items()
                how = ' when %s is %s' % ('::'.join((short(k[0]), k[1])), v if not isinstance(v, tuple) else v[1])
            R.violate('copy-differs', key, loc=(f['file'], f['line']),
                      msg='%s::%s: after the copy %s of the destination differs from the source%s (source %s, destination %s)' % (short(c), nm, obs, how, show(a), show(b)))


def show(x):
    s = str(x)
    return s if len(s) < 80 else s[:77] + '...'
