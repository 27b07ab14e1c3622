"""P17: file tasks (sorting, validating): all outcomes of Run over an environment of files, reader and writer"""
import sys
from ..facts import AnalysisError
from ..objint import *
from ..objint import strip, head, split_args
from .xml_rule import by_cls, short, make_hook

TASK = 'mdf::MdfTask'


class EObj(Obj):
    """an object of the environment"""


class Env:
    """files and MDF objects around a task; every operation may fail"""
    def __init__(self, sc):
        self.sc = sc
        self.log = []                     # (operation, ...) in the order they happen
        self.failed = []
        self.exists = dict(sc['exists'])  # file identity -> bool
        self.temp_made = False
        src = sc['dgs']
        self.header = EObj('$header', {})
        self.src = []
        for d, cgs in enumerate(src):
            dg = EObj('$dg', {'id': Cell('dg%d' % d), 'null': Cell(cgs is None)})
            dg.cgs = []
            for c, cg in enumerate(cgs or ()):
                o = EObj('$cg', {'id': Cell('dg%d.cg%d' % (d, c))})
                o.d = cg
                o.dg = dg
                if cg is not None: o.cns = [None if x is None else EObj('$cn', {'id': Cell('dg%d.cg%d.%s' % (d, c, x))}) for x in cg['channels']]
                dg.cgs.append(o if cg is not None else None)
            self.src.append(dg if cgs is not None else None)
        self.made = []                    # destination data groups
        self.set = {}

    def fid(self, p): return self.sc['alias'].get(p, p)


def ptr(o): return NULL if o is None else Ptr(Cell(o))


def hook_for(db, E):
    base = make_hook(db)

    def fail(I, label, null=None, throws=True):
        """does the operation fail? throws or returns"""
        if I.choice(True): return False
        E.failed.append(label)
        E.log.append(('failed', label))
        if throws is True and (null is None or not I.choice(True)): raise CThrow('std::runtime_error')
        return True

    def text(v):
        if isinstance(v, Cell): v = v.v
        return v

    def fs(I, what, n):
        a = [text(I.ev(x)) for x in n['a'] if x.get('k') != 'Default']
        p = [x for x in a if isinstance(x, str)]
        if what == 'exists': return bool(E.exists.get(E.fid(p[0])))
        if what == 'is_regular_file': return bool(E.exists.get(E.fid(p[0]))) and E.sc.get('regular', True)
        if what == 'equivalent': return E.fid(p[0]) == E.fid(p[1]) and bool(E.exists.get(E.fid(p[0])))
        if what == 'temp_directory_path':
            fail(I, 'temp_directory_path')
            return '/tmp'
        if what == 'create_directories':
            if p[0] == '': raise CThrow('std::filesystem::filesystem_error')
            fail(I, 'create_directories')
            return True
        if what == 'remove':
            fail(I, 'remove')
            E.log.append(('remove', E.fid(p[0])))
            was = bool(E.exists.get(E.fid(p[0])))
            E.exists[E.fid(p[0])] = False
            return was
        if what in ('copy', 'copy_file', 'rename'):
            s, d = E.fid(p[0]), E.fid(p[1])
            if not E.exists.get(s): raise CThrow('std::filesystem::filesystem_error')
            over = any(isinstance(x, int) and x & 2 for x in a)
            if what != 'rename' and (s == d or E.exists.get(d) and not over): raise CThrow('std::filesystem::filesystem_error')
            fail(I, what)
            E.log.append((what, s, d))
            E.exists[d] = True
            if what == 'rename': E.exists[s] = False
            return True
        raise Stuck('file operation ' + what)

    def hook(kind, what, n, I):
        if kind == 'ctor' and what in ('std::filesystem::path', 'std::filesystem::__cxx11::path'):
            v = [text(I.ev(x)) for x in n['a'] if 'format' not in (x.get('t') or '')]
            v = [x for x in v if isinstance(x, str)]
            return v[0] if v else ''
        if kind == 'ctor' and what == 'std::error_code': return Opaque('error_code')
        if kind == 'ctor' and derived(db, what, 'mdf::ISampleObserver'):
            return observer(what, [I.ev(x) for x in n['a']])
        if kind == 'ctor' and derived(db, what, 'mdf::IConfigAdapter'):
            o = Obj(what, {})
            return None
        if kind == 'op' and what in ('/=', '/'):
            l = I.lv(n['a'][0]) if what == '/=' else Cell(text(I.ev(n['a'][0])))
            r = text(I.ev(n['a'][1]))
            if isinstance(l.v, str) and isinstance(r, str):
                v = l.v.rstrip('/') + '/' + r
                if what == '/=': l.v = v; return l
                return v
        if kind == 'call':
            nm = n.get('n') or ''
            if nm.startswith('std::filesystem::'): return fs(I, what, n)
            if what == 'make_unique':
                cls = strip(split_args(strip(n.get('t') or ''))[0]) if '<' in (n.get('t') or '') else ''
                if derived(db, cls, 'mdf::ISampleObserver'): return Ptr(Cell(observer(cls, [I.ev(x) for x in n['a']])))
            if what == 'CreateMdfReader':
                p = text(I.ev(n['a'][0]))
                if fail(I, 'CreateMdfReader', null=1): return NULL
                E.log.append(('open', E.fid(p)))
                return Ptr(Cell(EObj('$reader', {'file': Cell(E.fid(p))})))
            if what == 'CreateMdfWriter':
                ty = I.ev(n['a'][0])
                if fail(I, 'CreateMdfWriter', null=1): return NULL
                return Ptr(Cell(EObj('$writer', {'file': Cell(''), 'type': Cell(ty)})))
            if what in ('CreateChannelObserverForDataGroup', 'CreateChannelObserver', 'CreateChannelObserverForChannelGroup'):
                a = [I.lv(x) for x in n['a']]
                return channel_observers(I, what, a)
            if what in ('NowNs',): return Num(('tok', 'now', 64, ('now', 'now')), 'u')
        if kind == 'method':
            b, oc = what
            o = oc.v
            if isinstance(o, str):
                if b == 'filename': return o.rsplit('/', 1)[-1]
                if b == 'parent_path': return o.rsplit('/', 1)[0] if '/' in o else ''
                if b in ('string', 'u8string', 'native', 'generic_string'): return o
                if b == 'stem': return o.rsplit('/', 1)[-1].rsplit('.', 1)[0]
                if b == 'extension': return '.' + o.rsplit('.', 1)[-1] if '.' in o.rsplit('/', 1)[-1] else ''
            if isinstance(o, Obj) and o.cls.startswith('$') and hasattr(Model, 'm_' + o.cls[1:]): return getattr(MODEL, 'm_' + o.cls[1:])(E, I, b, oc, n, fail)
            if b == 'what' and isinstance(o, Opaque): return 'reason'
        return base(kind, what, n, I)

    def observer(cls, args):
        o = EObj('$obs', {'class': Cell(cls)})
        o.args = [x.v if isinstance(x, Cell) else x for x in args]
        E.log.append(('observer', o))
        return o

    def channel_observers(I, what, a):
        if what == 'CreateChannelObserverForDataGroup':
            dg, lst = a[0].v, a[1].v
            fail(I, what)
            for cg in dg.cgs:
                if cg is None: continue
                for cn in cg.cns:
                    if cn is None: continue
                    lst.items.append(Cell(Ptr(Cell(chobs(cg, cn)))))
            lst.items.append(Cell(NULL))
            E.log.append(('observe', dg.f['id'].v))
            return Opaque('void')
        raise Stuck(what)

    def chobs(cg, cn):
        o = EObj('$chobs', {'id': Cell(cn.f['id'].v)})
        o.bad = cn.f['id'].v in E.sc.get('bad', ())
        return o
    return hook


def derived(db, c, b): return c in db.classes and (c == b or b in db.bases(c))


class Model:
    """methods of the objects around a task; what is not listed has no influence and returns an unknown value"""
    def args(self, I, n): return [I.lv(x) for x in n['a'] if x.get('k') != 'Default']

    def header(self, E, I, fail):
        """the header of the source: there or not, for the whole run"""
        if not hasattr(E, 'has_header'): E.has_header = not fail(I, 'header of the source', null=1, throws=False)
        return Ptr(Cell(source_header(E))) if E.has_header else NULL

    def m_reader(self, E, I, b, oc, n, fail):
        o = oc.v
        if b in ('IsOk', 'ReadEverythingButData', 'ReadHeader', 'ReadMeasurementInfo', 'Open'): return not fail(I, 'reader.' + b, null=1)
        if b == 'GetFile': return NULL if fail(I, 'reader.GetFile', null=1) else Ptr(Cell(EObj('$file', {'of': Cell('source')})))
        if b == 'GetHeader': return self.header(E, I, fail)
        if b == 'GetStartTime': return Num(('tok', 'start', 64, ('start', 'start')), 'u')
        if b in ('ReadData', 'ReadPartialData', 'ReadSdData'):
            dg = self.args(I, n)[0].v
            live = [x for x in reachable(I) if isinstance(x, Obj) and x.cls == '$obs']
            bad = fail(I, 'reader.' + b, null=1)
            E.log.append((b, dg.f['id'].v, live))
            return not bad
        if b == 'ReadInDataBuffer': return not fail(I, 'reader.' + b, null=1)
        return Opaque('reader.' + b)

    def m_writer(self, E, I, b, oc, n, fail):
        a = self.args(I, n)
        if b == 'Init':
            p = a[0].v
            if fail(I, 'writer.Init', null=1): return False
            oc.v.f['file'].v = E.fid(p)
            E.log.append(('write', E.fid(p)))
            E.exists[E.fid(p)] = True
            return True
        if b in ('InitMeasurement', 'FinalizeMeasurement'):
            bad = fail(I, 'writer.' + b, null=1)
            E.log.append((b,))
            return not bad
        if b in ('StartMeasurement', 'StopMeasurement'):
            fail(I, 'writer.' + b)
            E.log.append((b, a[0].v))
            return Opaque('void')
        if b == 'IsFileNew':
            if I.choice(True): return False
            E.failed.append('writer.IsFileNew')
            return True
        if b == 'Header': return NULL if fail(I, 'writer.Header', null=1) else Ptr(Cell(EObj('$dheader', {})))
        if b == 'GetFile': return NULL if fail(I, 'writer.GetFile', null=1) else Ptr(Cell(EObj('$file', {'of': Cell('dest')})))
        if b in ('StorageType', 'CompressData', 'CalculateBitAndByteOffsets') and a:
            E.set[b] = a[0].v
            E.log.append(('set', b, a[0].v))
            return Opaque('void')
        return Opaque('writer.' + b)

    def m_file(self, E, I, b, oc, n, fail):
        src = oc.v.f['of'].v == 'source'
        if b == 'Header':
            if src: return self.header(E, I, fail)
            if fail(I, 'file.Header', null=1): return NULL
            return Ptr(Cell(EObj('$dheader', {})))
        if b == 'IsMdf4': return E.sc.get('mdf4', True)
        if b == 'DataGroups':
            a = self.args(I, n)
            a[0].v.items[:] = [Cell(ptr(x)) for x in E.src]
            return Opaque('void')
        return Opaque('file.' + b)

    def m_sheader(self, E, I, b, oc, n, fail):
        if b == 'DataGroups': return Vec([Cell(ptr(x)) for x in E.src], 'vector')
        if b == 'StartTime': return Num(('tok', 'start', 64, ('start', 'start')), 'u')
        if b == 'Attachments': return Vec([Cell(NULL), Cell(Ptr(Cell(EObj('$att', {'id': Cell('attachment 1')})))), Cell(Ptr(Cell(EObj('$att', {'id': Cell('attachment 2')}))))], 'vector')
        if b == 'FileHistories': return Vec([Cell(Ptr(Cell(EObj('$fh', {'id': Cell('history 1')})))), Cell(NULL), Cell(Ptr(Cell(EObj('$fh', {'id': Cell('history 2')}))))], 'vector')
        return Opaque('header.' + b)

    def m_dheader(self, E, I, b, oc, n, fail):
        a = self.args(I, n)
        if b == 'CreateDataGroup':
            if fail(I, 'CreateDataGroup', null=1): return NULL
            d = EObj('$dg', {'id': Cell('new dg%d' % len(E.made))})
            d.cgs = []
            d.comment = None
            E.made.append(d)
            return Ptr(Cell(d))
        if b == 'CopyFrom':
            fail(I, 'header.CopyFrom')
            E.log.append(('copied', 'header', a[0].v.cls))
            return Opaque('void')
        if b in ('CreateAttachment', 'CreateFileHistory'):
            if b == 'CreateFileHistory' and E.sc['kind'] == 'validate' and fail(I, b, null=1, throws=False): return NULL
            return Ptr(Cell(EObj('$new', {'kind': Cell(b)})))
        if b == 'DataGroups': return Vec([Cell(ptr(x)) for x in E.made], 'vector')
        return Opaque('header.' + b)

    def m_new(self, E, I, b, oc, n, fail):
        a = self.args(I, n)
        if b == 'CopyFrom':
            if oc.v.f['kind'].v == 'CreateAttachment': fail(I, 'attachment.CopyFrom')
            E.log.append(('copied', oc.v.f['kind'].v, a[0].v.f['id'].v))
        if b == 'SetFhComment': E.log.append(('history', 'set'))
        return Opaque('void')

    def m_dg(self, E, I, b, oc, n, fail):
        o = oc.v
        a = self.args(I, n)
        if b == 'ChannelGroups': return Vec([Cell(ptr(x)) for x in o.cgs], 'vector')
        if b == 'CreateChannelGroup':
            if fail(I, 'CreateChannelGroup', null=1): return NULL
            c = EObj('$cg', {'id': Cell('%s.new cg%d' % (o.f['id'].v, len(o.cgs)))})
            c.dg, c.copied, c.si, c.cns, c.d = o, [], None, [], None
            o.cgs.append(c)
            return Ptr(Cell(c))
        if b == 'GetDgComment':
            c = a[0]
            t = E.sc.get('comment', 'text of ') + o.f['id'].v if E.sc.get('comment') != '' else ''
            E.log.append(('comment of', o.f['id'].v))
            if t:
                f = next((f for i, f in by_cls(I.db).get('mdf::MdComment', ()) if f['n'].endswith('::Comment') and len(f['p']) == 1 and strip(f['p'][0]['t']) == 'mdf::MdString'), None)
                if f is None: raise Stuck('no setter of a comment')
                m = I.new('mdf::MdString')
                m.f['text_'].v = t
                I.call(f, c, [Cell(m)])
            return Opaque('void')
        if b == 'SetDgComment': o.comment = a[0].v; return Opaque('void')
        if b == 'Description': return ''
        return Opaque('dg.' + b)

    def m_cg(self, E, I, b, oc, n, fail):
        o = oc.v
        a = self.args(I, n)
        d = o.d or {}
        if b == 'Flags' and not a: return d.get('flags', 0)
        if b == 'NofSamples' and not a: return d.get('samples', 0)
        if b == 'RecordId': return 7
        if b in ('Name', 'Description') and not a: return 'group'
        if b in ('TopLevelChannels', 'Channels'): return Vec([Cell(ptr(x)) for x in o.cns], 'vector')
        if b == 'SourceInformation': return Ptr(Cell(EObj('$si', {'id': Cell(o.f['id'].v + '.si')}))) if d.get('si') else NULL
        if b == 'CreateSourceInformation':
            if fail(I, b, null=1): return NULL
            s = EObj('$nsi', {})
            s.cg = o
            return Ptr(Cell(s))
        if b == 'CopyFrom':
            fail(I, 'cg.CopyFrom')
            o.copied.append(a[0].v.f['id'].v)
            return Opaque('void')
        if b == 'CreateChannel':
            if fail(I, b, null=1): return NULL
            c = EObj('$cn', {'id': Cell('new')})
            c.copied = None
            o.cns.append(c)
            return Ptr(Cell(c))
        return Opaque('cg.' + b)

    def m_cn(self, E, I, b, oc, n, fail):
        a = self.args(I, n)
        if b in ('CopyConfigFrom', 'CopyFrom'):
            fail(I, 'cn.' + b)
            oc.v.copied = (b, a[0].v.f['id'].v)
            return Opaque('void')
        return Opaque('cn.' + b)

    def m_nsi(self, E, I, b, oc, n, fail):
        if b == 'CopyFrom': oc.v.cg.si = self.args(I, n)[0].v.f['id'].v
        return Opaque('void')

    def m_obs(self, E, I, b, oc, n, fail):
        if b == 'GetSampleTime': return oc.v.time if hasattr(oc.v, 'time') else 5
        return Opaque('obs.' + b)

    def m_chobs(self, E, I, b, oc, n, fail):
        if b == 'GetValidList': return Vec([Cell(True), Cell(not oc.v.bad), Cell(True)], 'vector')
        if b in ('Name', 'ChannelGroupName'): return oc.v.f['id'].v
        return Opaque('chobs.' + b)


MODEL = Model()


def source_header(E):
    E.header.cls = '$sheader'
    return E.header


def reachable(I):
    """objects the live variables and the task refer to"""
    out, seen, todo = [], set(), [c for e in I.frames for v, c in e.items() if (id(e), v) not in I.gone] + ([I.task] if getattr(I, 'task', None) is not None else [])
    while todo:
        x = todo.pop()
        if isinstance(x, Cell): x = x.v
        if x is None or isinstance(x, (str, int, float)) or id(x) in seen: continue
        seen.add(id(x))
        out.append(x)
        if isinstance(x, Obj): todo += list(x.f.values())
        elif isinstance(x, Vec): todo += x.items
        elif isinstance(x, Ptr) and isinstance(x.c, Cell): todo.append(x.c)
        elif isinstance(x, Opt) and x.c is not None: todo.append(x.c)
    return out


# ---- scenarios --------------------------------------------------------------------------------------------------------
VLSD = 1


def cg(samples, channels, flags=0, si=False): return dict(samples=samples, channels=channels, flags=flags, si=si)


GROUPS = [[cg(3, ['x', None, 'y'], si=True), None, cg(2, ['v'], VLSD), cg(0, ['e'])], None, [cg(1, ['z', 'w'])], []]
OTHER = [[], [cg(0, [None, 'e']), cg(2, ['v'], VLSD), cg(4, ['x'], si=True), None, cg(2, ['y', None])], None, [None, cg(2, ['u'], VLSD, si=True), cg(3, [None, 'z'])], [cg(0, ['f'])], [cg(1, ['g'])]]


def scenarios(kind):
    S, D = '/s/a.mf4', '/d/b.mf4'
    T = '/tmp/b.mf4' if kind == 'sort' else '/tmp/a.mf4'
    ok = dict(src=S, dest=D, temp=T, exists={S: True}, alias={}, overwrite=True, skip=False, dgs=GROUPS, kind=kind, good=True, regular=True)

    def v(name, **k): return name, dict(ok, **k)
    out = [v('plain'), v('destination exists, overwriting', exists={S: True, D: True}), v('temporary file exists', exists={S: True, T: True}),
           v('source missing', exists={}, good=False), v('source empty', src='', exists={}, good=False), v('source is no regular file', regular=False, good=False),
           v('no overwriting', overwrite=False)]
    if kind == 'sort':
        rel = dict(src='a.mf4', dest='b.mf4', exists={'a.mf4': True})
        out += [v('destination exists, no overwriting', overwrite=False, exists={S: True, D: True}, good=False),
                v('destination empty', dest='', good=False), v('destination is the source', dest=S, good=False),
                v('destination names the source differently', dest='/s/../s/a.mf4', alias={'/s/../s/a.mf4': S}, good=False),
                v('destination lies in the temporary directory', dest='/tmp/b.mf4', exists={S: True, '/tmp/b.mf4': True}, good=False),
                v('source lies in the temporary directory', src='/tmp/b.mf4', exists={'/tmp/b.mf4': True}, good=False),
                v('source names the temporary file differently', src='b.mf4', alias={'b.mf4': '/tmp/b.mf4'}, exists={'/tmp/b.mf4': True}, good=False),
                v('files of the working directory', **rel), v('groups without samples are skipped', skip=True), v('no comments', comment=''), v('no data groups', dgs=[]),
                v('other groups', dgs=OTHER), v('other groups, those without samples are skipped', skip=True, dgs=OTHER)]
    else:
        out += [v('no destination', dest=''), v('no destination, no overwriting', dest='', overwrite=False), v('destination exists, no overwriting', overwrite=False, exists={S: True, D: True}),
                v('invalid value', bad=('dg0.cg0.y',)), v('invalid value, no destination', dest='', bad=('dg2.cg0.w',)), v('invalid values', bad=('dg0.cg0.x', 'dg2.cg0.w', 'dg0.cg2.v')),
                v('other groups', dgs=OTHER), v('other groups, invalid value', dgs=OTHER, bad=('dg1.cg4.y',)), v('MDF3 file', mdf4=False), v('MDF3 file, no destination', mdf4=False, dest=''), v('no data groups', dgs=[], good=False),
                v('source lies in the temporary directory', src='/tmp/a.mf4', exists={'/tmp/a.mf4': True}, good=False),
                v('source names the temporary file differently', src='a.mf4', alias={'a.mf4': '/tmp/a.mf4'}, exists={'/tmp/a.mf4': True}, good=False),
                v('destination is the temporary file', dest='/tmp/a.mf4', exists={S: True, '/tmp/a.mf4': True}, good=False)]
    return out


def fn(db, c, nm, np):
    for b in [c] + list(db.bases(c)):
        for i, f in by_cls(db).get(b, ()):
            if f['n'].split('::')[-1] == nm and len(f['p']) == np and f.get('body') is not None: return f
    return None


def one(db, cls, name, sc, trail, stale=True):
    E = Env(sc)
    I = Interp(db, texts=Texts(), hook=hook_for(db, E), trail=trail)
    I.nofork = lambda t: True
    I.limit = 2000000
    I.E = E
    o = Cell(I.new(cls))
    I.task = o

    def put(nm, v):
        f = fn(db, cls, nm, 1)
        if f is None: raise AnalysisError('the task has no function %s' % nm)
        I.call(f, o, [Cell(v)])

    def get(nm):
        f = fn(db, cls, nm, 0)
        if f is None: raise AnalysisError('the task has no function %s' % nm)
        r = I.call(f, o, [])
        return r.v if isinstance(r, Cell) else r
    for nm, v in (('SourceFile', sc['src']), ('DestinationFile', sc['dest']), ('OverwriteFile', sc['overwrite']), ('SkipIfNoSamples', sc['skip']), ('Result', not stale), ('Error', stale),
                  ('StorageType', 1), ('CompressData', True)): put(nm, v)
    I.escaped = None
    try: I.call(fn(db, cls, 'Run', 0), o, [])
    except CThrow as e: I.escaped = e.t
    I.result, I.error, I.messages = bool(get('Result')), bool(get('Error')), [x.v for x in get('MessageList').items]
    I.nlog = len(E.log)
    I.forks_run = len(I.forks)
    for f in db.funcs.values():
        if f.get('kind') == 'dtor' and f.get('cls') == TASK and f.get('body') is not None:
            I.choice = lambda d=True: True
            try: I.call(f, o, [])
            except CThrow as e: I.escaped = I.escaped or 'destructor: ' + e.t
            break
    else: raise AnalysisError('no destructor of the task found')
    return I


def judge(kind, name, sc, I):
    """complaints (rule, text) about one run"""
    E = I.E
    out = []
    log = E.log
    S, D = E.fid(sc['src']), E.fid(sc['dest']) if sc['dest'] else None
    T = E.fid(sc['temp'])
    ok = sc['good'] and not E.failed
    why = ('after %s failed' % E.failed[0]) if E.failed else 'with good input' if sc['good'] else ''
    where = '%s%s' % (name, ', ' + why if why else '')
    bad = [x for x in sc.get('bad', ())]
    if I.escaped: out.append(('exception', '%s: an exception (%s) leaves the task' % (where, I.escaped)))
    if ok:
        if I.error: out.append(('outcome', '%s: an error is reported' % where))
        if I.result != (not bad): out.append(('outcome', '%s: the result is %s' % (where, I.result)))
    else:
        if I.result: out.append(('outcome', '%s: success is reported' % where))
        if not I.error: out.append(('outcome', '%s: no error is reported' % where))
        if not I.messages: out.append(('outcome', '%s: no message is saved' % where))
    # files
    to = D if D is not None else S
    may = ok and not bad and (kind == 'sort' or sc.get('mdf4', True)) and (sc['overwrite'] or not sc['exists'].get(to))
    done = 0
    for k, e in enumerate(log):
        changed = [e[1]] if e[0] in ('remove', 'write') else [e[2]] if e[0] in ('copy', 'copy_file') else [e[1], e[2]] if e[0] == 'rename' else []
        for p in changed:
            if p == T and T not in (S, D): continue
            if p not in (S, D): out.append(('files', '%s: %s changes %s, which is neither the temporary file nor the destination' % (where, e[0], p))); continue
            late = kind == 'sort' or sc.get('mdf4', True)
            if p == to and e[0] in ('copy_file', 'copy') and e[1] == T and k < I.nlog and not any(x[0] == 'failed' for x in log[:k]) and (sc['overwrite'] or not sc['exists'].get(p)) and not bad and late:
                rest = [x for x in log[k + 1:I.nlog] if x[0] not in ('remove', 'failed')]
                if rest: out.append(('files', '%s: the destination is written before %s' % (where, rest[0][0])))
                done += 1
                continue
            out.append(('files', '%s: %s changes the %s' % (where, e[0], 'source file' if p == S else 'destination file')))
    if may and done != 1: out.append(('files', '%s: the destination is written %d times' % (where, done)))
    if any(e[0] in ('write', 'copy', 'copy_file') and e[-1] == T for e in log) and T not in (S, D) and E.exists.get(T) and 'remove' not in E.failed:
        out.append(('temporary', '%s: the temporary file is left behind' % where))
    if not ok: return out
    idx = lambda pred: [k for k, e in enumerate(log) if pred(e)]
    if kind == 'sort':
        if E.set.get('StorageType') != 1 or E.set.get('CompressData') is not True: out.append(('settings', '%s: the storage type or the compression of the task is not handed to the writer' % where))
        if E.set.get('CalculateBitAndByteOffsets') is not False: out.append(('settings', '%s: the writer may change the record layout of the copied channels' % where))
        if ('copied', 'header', '$sheader') not in log: out.append(('config', '%s: the header is not copied' % where))
        for k2, what in (('CreateAttachment', 'attachment'), ('CreateFileHistory', 'history')):
            got = [e[2] for e in log if e[0] == 'copied' and e[1] == k2]
            if got != [what + ' 1', what + ' 2']: out.append(('config', '%s: of the %s entries 1 and 2 the copies are %s' % (where, what, got)))
        want = []
        for dg in E.src:
            for g in dg.cgs if dg is not None else ():
                if g is None or g.d['flags'] & VLSD or sc['skip'] and g.d['samples'] == 0: continue
                want.append(g)
        made = [d for d in E.made]
        if len(made) != len(want): out.append(('groups', '%s: %d data groups for %d channel groups' % (where, len(made), len(want)))); return out
        for g, d in zip(want, made):
            gid = g.f['id'].v
            if len(d.cgs) != 1: out.append(('groups', '%s: %d channel groups for %s (a sorted data group has one)' % (where, len(d.cgs), gid))); continue
            c = d.cgs[0]
            if c.copied != [gid]: out.append(('groups', '%s: the channel group of %s is copied from %s' % (where, gid, c.copied)))
            if c.si != (gid + '.si' if g.d['si'] else None): out.append(('groups', '%s: the source information of %s is %s' % (where, gid, c.si)))
            cw = [('CopyConfigFrom', x.f['id'].v) for x in g.cns if x is not None]
            if [x.copied for x in c.cns] != cw: out.append(('groups', '%s: the channels of %s are %s' % (where, gid, [x.copied for x in c.cns])))
            t = text_of(I, d.comment)
            if t is None or t == '' or sc.get('comment') != '' and g.dg.f['id'].v not in t: out.append(('groups', '%s: the data group of %s has the comment %r' % (where, gid, t)))
            obs = [(k, e[1]) for k, e in enumerate(log) if e[0] == 'observer' and any(x is g for x in e[1].args)]
            if g.d['samples'] == 0: continue
            if len(obs) != 1: out.append(('samples', '%s: %d observers copy the samples of %s' % (where, len(obs), gid))); continue
            k, ob = obs[0]
            if not all(any(x is y for x in ob.args) for y in (g.dg, d, c)) or not any(isinstance(x, Obj) and x.cls == '$writer' for x in ob.args): out.append(('samples', '%s: the observer of %s does not write to its copy' % (where, gid)))
            r = idx(lambda e: e[0] == 'ReadData' and e[1] == g.dg.f['id'].v)
            if len(r) != 1: out.append(('samples', '%s: the data of %s is read %d times' % (where, gid, len(r)))); continue
            if r[0] < k or not any(x is ob for x in log[r[0]][2]): out.append(('samples', '%s: the observer of %s is not there when the data is read' % (where, gid)))
            if gid.endswith('cg0'):
                seq = [e[0] for e in log[k:] if e[0] in ('InitMeasurement', 'StartMeasurement', 'ReadData', 'StopMeasurement', 'FinalizeMeasurement')][:5]
                if seq != ['InitMeasurement', 'StartMeasurement', 'ReadData', 'StopMeasurement', 'FinalizeMeasurement']: out.append(('sequence', '%s: the steps after the groups of %s are made are %s' % (where, gid, ', '.join(seq))))
    else:
        for dg in E.src:
            if dg is None: continue
            w, r = idx(lambda e: e[0] == 'observe' and e[1] == dg.f['id'].v), idx(lambda e: e[0] == 'ReadData' and e[1] == dg.f['id'].v)
            if len(w) != 1 or len(r) != 1 or w[0] > r[0]: out.append(('samples', '%s: the channels of %s are observed %d times and its data is read %d times' % (where, dg.f['id'].v, len(w), len(r))))
        for x in bad:
            if not any(x in m for m in I.messages): out.append(('outcome', '%s: no message names the channel %s' % (where, x)))
        o = [e for e in log if e[0] == 'open']
        if not all(e[1] in (T, S) for e in o): out.append(('files', '%s: another file is validated' % where))
        hist = idx(lambda e: e[0] == 'history')
        fin = idx(lambda e: e[0] == 'FinalizeMeasurement')
        if not bad and sc.get('mdf4', True):
            if len(hist) != 1 or not fin or fin[-1] < hist[0]: out.append(('outcome', '%s: the validation is not recorded in the file history' % where))
        elif hist: out.append(('outcome', '%s: the file history says the file is valid' % where))
    return out


def text_of(I, c):
    if c is None or 'comment_' not in c.f: return None
    return c.f['comment_'].v.f['text_'].v


def run(db, R):
    tasks = [(c, 'sort' if 'Sort' in short(c) else 'validate') for c in sorted(db.classes) if TASK in db.bases(c) and fn(db, c, 'Run', 0) is not None]
    if not tasks: raise AnalysisError('no task class found')
    seen = set()
    for c, kind in tasks:
        f = fn(db, c, 'Run', 0)
        R.analysed(f)
        for name, sc, stale in [(name, sc, stale) for name, sc in scenarios(kind) for stale in (True, False)]:      # a task may be run again: the flags hold either value
            R.count('scenarios')
            def make(trail): return one(db, c, name, sc, trail, stale)
            n = 0
            for I in explore(make, 1500):
                n += 1
                R.count('outcomes')
                R.count('operations', len(I.E.log))
                for u in I.used:
                    if db.funcs[u].get('cls') in (c, TASK): R.analysed(db.funcs[u])
                for rule, txt in judge(kind, name, sc, I):
                    key = '%s/%s' % (short(c), rule)
                    if (key, txt) in seen or sum(k == key for k, _ in seen) > 4: continue
                    seen.add((key, txt))
                    R.violate('task-' + rule, '%s/%s' % (key, txt[:60]), loc=(f['file'], f['line']), msg='%s::Run: %s' % (short(c), txt))
            if n >= 1500: raise AnalysisError('%s: too many outcomes (%s)' % (c, name))


# ---- forwarding of records -------------------------------------------------------------------------------------------
HIST = {                                  # storage type -> histories of (sample, record id); 1 is the record of the group, 2 its variable length data, 3 another group
    'fixed': [[(0, 1), (1, 1), (2, 1)], [(0, 1), (0, 3), (1, 3), (1, 1)], [(0, 3)]],
    'vlsd': [[(0, 2), (0, 1), (1, 2), (1, 1)], [(0, 1), (0, 2), (1, 1), (1, 2)], [(0, 2), (0, 3), (0, 1), (1, 1), (1, 3), (1, 2)]],
}


def storages(db):
    cs = db.enums.get('mdf::MdfStorageType')
    if cs is None: raise AnalysisError('no enumeration of the storage types')
    cs = cs['c'] if isinstance(cs, dict) else cs
    return [(n, v, 'vlsd' if n == 'VlsdStorage' else 'fixed') for n, v in cs]


def forward(db, R):
    """an observer that copies records hands each record of its group to the writer, once and unchanged"""
    cls = [c for c in sorted(db.classes) if 'mdf::ISampleObserver' in db.bases(c) and any(strip(fl['t']).endswith('MdfWriter') for fl in db.classes[c].get('fields', ()))]
    if not cls: raise AnalysisError('no observer that writes samples found')
    for c in cls:
        f = fn(db, c, 'OnSample', 3)
        R.analysed(f)
        g = fn(db, c, 'OnSampleRecord', 0)
        if g is not None: R.analysed(g)
        for name, val, how in storages(db):
            for h in HIST[how]:
                for master in (False, True):
                    R.count('record histories')
                    for msg in one_history(db, c, f, val, how, h, master):
                        R.violate('task-records', '%s/%s/%s' % (short(c), name, msg[:50]), loc=((g or f)['file'], (g or f)['line']), msg='%s (%s, records %s): %s' % (short(c), name, h, msg))


def one_history(db, c, f, val, how, h, master):
    log = []

    def hook(kind, what, n, I):
        if kind == 'method':
            b, oc = what
            o = oc.v
            if isinstance(o, EObj):
                a = [I.lv(x) for x in n['a'] if x.get('k') != 'Default']
                if o.cls == '$cg':
                    if b == 'RecordId': return o.rid
                    if b == 'StorageType': return val
                    if b in ('Channels', 'TopLevelChannels'): return Vec([Cell(NULL), Cell(Ptr(Cell(o.cn)))], 'vector')
                    if b in ('GetMasterTimeChannel', 'GetMasterChannel'): return Ptr(Cell(o.cn)) if master else NULL
                if o.cls == '$cn':
                    if b == 'VlsdRecordId': return 2 if how == 'vlsd' else 0
                    if b == 'GetTimestamp':
                        log.append(('time', a[0].v, a[1].v.items[0].v))
                        return float(len([x for x in log if x[0] == 'time']))
                if o.cls == '$dg' and b == 'ChannelGroups': return Vec([Cell(Ptr(Cell(cg)))], 'vector')
                if o.cls == '$writer':
                    if b in ('AddSample', 'SaveSample', 'SaveCanMessage'):
                        r = next((x.v for x in a if isinstance(x.v, Obj) and x.v.cls.endswith('SampleRecord')), None)
                        log.append(('add', b, [x.v for x in a], I.copy(r) if r is not None else None))
                        return Opaque('void')
                return Opaque('?')
        return base(kind, what, n, I)
    base = make_hook(db)
    I = Interp(db, texts=Texts(), hook=hook)
    I.nofork = lambda t: True
    cn, cg, dcg, dg, ddg, w = (EObj('$' + x, {}) for x in ('cn', 'cg', 'cg', 'dg', 'dg', 'writer'))
    cg.rid, cg.cn, dcg.rid, dcg.cn = 1, cn, 9, cn
    args = [Cell(dg), Cell(cg), Cell(1000000), Cell(w), Cell(ddg), Cell(dcg)]
    ctor = next((g for g in db.funcs.values() if g.get('kind') == 'ctor' and g.get('cls') == c and len(g['p']) == 6), None)
    if ctor is None: raise AnalysisError('%s: the constructor has changed' % c)
    by = {'IDataGroup': [dg, ddg], 'IChannelGroup': [cg, dcg], 'MdfWriter': [w]}
    a, k = [], {}
    for p in ctor['p']:
        t = short(strip(p['t']).rstrip('& '))
        if t in by:
            i = k.get(t, 0)
            k[t] = i + 1
            a.append(Cell(by[t][i]))
        else: a.append(Cell(1000000))
    try: o = Cell(I.new(c, ctor['id'], a))
    except Stuck as e: raise AnalysisError('%s: %s' % (c, e))
    want, pend = [], {}
    nt = 0
    for n, (sample, rid) in enumerate(h):
        rec = Vec([Cell('record %d of %d' % (sample, rid)), Cell(0)], 'vector')
        try: r = I.call(f, o, [Cell(sample), Cell(rid), Cell(rec)])
        except Stuck as e: raise AnalysisError('%s: %s' % (f['n'], e))
        if not I.truth(r): yield 'reading is ended by a record'
        if rid in (1, 2): pend[rid] = sample
        if how == 'fixed' and rid == 1 or how == 'vlsd' and rid in (1, 2) and pend.get(1) == sample and pend.get(2) == sample: want.append(sample)
        got = [x for x in log if x[0] == 'add']
        if len(got) != len(want):
            yield '%d records are handed on after %d complete samples' % (len(got), len(want))
            return
    for i, ((_, b, args, r), sample) in enumerate(zip([x for x in log if x[0] == 'add'], want)):
        if b != 'AddSample' or r is None: yield 'the record is not added (%s)' % b; return
        buf = [x.v for x in r.f['record_buffer'].v.items]
        if buf != ['record %d of 1' % sample, 0]: yield 'the bytes of sample %d are %s' % (sample, buf)
        if r.f['record_id'].v != 9: yield 'sample %d has the record id %s instead of the one of the destination' % (sample, r.f['record_id'].v)
        vb = [x.v for x in r.f['vlsd_buffer'].v.items]
        if vb != (['record %d of 2' % sample, 0] if how == 'vlsd' else []): yield 'the variable length data of sample %d is %s' % (sample, vb)
        if bool(r.f['vlsd_data'].v) != (how == 'vlsd'): yield 'the variable length mark of sample %d is %s' % (sample, r.f['vlsd_data'].v)
        t = 1000000 + (1000000000 * (i + 1) if master else 0)
        if r.f['timestamp'].v != t: yield 'the time of sample %d is %s instead of %d' % (sample, r.f['timestamp'].v, t)
        if t not in [x for x in args if isinstance(x, (int, float))]: yield 'sample %d is added at another time than its own' % sample
        if not (any(x is ddg for x in args) and any(x is dcg for x in args)): yield 'sample %d is added to another group' % sample
    if want:
        f2 = fn(db, c, 'GetSampleTime', 0)
        last = 1000000 + (1000000000 * len(want) if master else 0)
        if f2 is not None and I.call(f2, o, []) != last: yield 'the time of the last sample is reported as %s instead of %d' % (I.call(f2, o, []), last)
