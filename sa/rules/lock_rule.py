"""Sample queue: guarded state is only touched under the queue lock, the lock is
balanced on every path, the worker survives failures and is joined before its data goes."""
import re
from .. import sym, flow, facts
from ..sym import strip, show

D = 'mdf::detail::'
QUEUE = D + 'SampleQueue'
CACHE = D + 'WriteCache'
LOCKT = re.compile(r'std::(unique_lock|lock_guard|scoped_lock)<')
CONT = re.compile(r'^std::(deque|map|vector|list|unordered_map|set)<')


def base(n):
    return (n or '').split('::')[-1]


class Model:
    def __init__(self, db):
        self.db = db
        if QUEUE not in db.classes or CACHE not in db.classes:
            raise facts.AnalysisError('SampleQueue / WriteCache not found')
        self.classes = {c for c in db.classes if c == QUEUE or QUEUE in db.bases(c)}
        self.guarded = {f['n'] for c in self.classes for f in db.classes[c]['fields'] if CONT.match(f['t'])}
        self.lockp = {i for i, f in db.funcs.items() if any(LOCKT.search(p['t']) and '&' in p['t'] for p in f['p'])}
        self.plain = sym.Engine(db, inline=lambda *a: False, max_depth=0)
        self.deep = sym.Engine(db, inline=lambda fid, g, d: fid in self.lockp, max_depth=6)
        self.trees = {}
        self.req = self.requires()

    def tree(self, f):
        if f['id'] not in self.trees:
            self.trees[f['id']] = self.plain.summarize(f)
        return self.trees[f['id']]

    def own(self):
        return [f for f in self.db.funcs.values() if f.get('cls') in self.classes]

    def touches(self, f):
        """the function mentions a guarded member of its object"""
        s = repr(f.get('body')) + repr(f.get('inits'))
        return any("'%s'" % g in s or '::%s' % g in s for g in self.guarded)

    def requires(self):
        """methods that need the lock held by their caller: names of SampleQueue methods"""
        req = {f['id'] for f in self.own() if f['id'] not in self.lockp and self.touches(f) and f['kind'] not in ('ctor', 'dtor')}
        ch = True
        while ch:
            ch = False
            for f in self.own():
                if f['id'] in req or f['id'] in self.lockp or f['kind'] in ('ctor', 'dtor'): continue
                for e in sym.effects(self.tree(f)):
                    if e.k == 'call' and self.needs(e, req):
                        req.add(f['id']); ch = True; break
        return req

    def needs(self, e, req=None):
        req = self.req if req is None else req
        n = e.name or ''
        cls = '::'.join(n.split('::')[:-1])
        if cls not in self.classes: return False
        names = {self.db.funcs[r]['n'].split('::')[-1]: 1 for r in req}
        if base(n) not in names: return False
        # the overload called, or an override of it
        ids = [r for r in req if base(self.db.funcs[r]['n']) == base(n) and len(self.db.funcs[r]['p']) == len(e.args)]
        return bool(ids)


class Held(flow.Flow):
    """state: 'held' | 'free' of the lock object `lock`"""

    def __init__(self, m, R, root, lock=None):
        self.m, self.R, self.root, self.lock = m, R, root, lock

    def islock(self, v):
        v = strip(v) if v is not None else None
        if v is None: return False
        if self.lock is not None: return v == self.lock
        return v[0] == 'loc' and LOCKT.search(v[2] or '')

    def bad(self, rule, key, loc, msg):
        self.R.violate(rule, key, loc, msg)

    def eff(self, e, s):
        n = e.name or ''
        b = base(n)
        if e.k == 'decl' and e.obj is not None and LOCKT.search(strip(e.obj)[2] if strip(e.obj)[0] == 'loc' else ''):
            deferred = any('defer' in show(a) for a in e.args)
            return ('free' if deferred else 'held',)
        if e.k == 'call' and e.obj is not None and self.islock(e.obj):
            if b == 'unlock':
                self.R.count('lock operations')
                if s == 'free':
                    self.bad('lock.balance', self.root + '/unlock', e.loc, '%s releases the queue lock on a path where it is not held' % self.root)
                return ('free',)
            if b == 'lock':
                self.R.count('lock operations')
                if s == 'held':
                    self.bad('lock.balance', self.root + '/lock', e.loc, '%s takes the queue lock on a path where it is already held' % self.root)
                return ('held',)
            if b == 'owns_lock' or 'operator bool' in n: return (s,)
        if e.k == 'call' and self.m.needs(e):
            self.R.count('guarded accesses')
            if s != 'held':
                self.bad('lock.guard', self.root + '/' + b, e.loc, '%s uses %s, which touches the sample queue, on a path where the queue lock is not held' % (self.root, b))
        elif e.k == 'call' and e.obj is not None:
            o = strip(e.obj)
            while o[0] == 'at': o = strip(o[1])
            if o[0] == 'fld' and o[1] == ('this',) and o[2] in self.m.guarded:
                self.R.count('guarded accesses')
                if s != 'held':
                    self.bad('lock.guard', self.root + '/' + o[2], e.loc, '%s touches %s on a path where the queue lock is not held' % (self.root, o[2]))
        return (s,)

    def throws(self, e, s):
        if e.k == 'call' and (e.name or '').startswith('mdf::') and 'LogStream' not in e.name:
            return (s,)
        return ()

    def cond(self, c, taken, s):
        c = strip(c); neg = False
        while c[0] == 'un' and c[1] == '!':
            c = strip(c[2]); neg = not neg
        if c[0] == 'call' and c[1].split('::')[-1] in ('owns_lock', 'operator bool') and self.islock(c[2]):
            is_held = taken != neg
            return (s,) if (s == 'held') == is_held else ()
        return (s,)

    def leave(self, locs, s):
        if self.lock is None and any(LOCKT.search(strip(l)[2] or '') for l in locs if strip(l)[0] == 'loc'):
            return 'none'
        return s


class Worker(Held):
    """thread function: calls with the lock may throw with the lock released"""
    def __init__(self, m, R, root, thrown):
        super().__init__(m, R, root)
        self.thrown = thrown

    def eff(self, e, s):
        if e.k == 'call' and any(self.islock(a) for a in e.args) and base(e.name) in self.thrown:
            self.R.count('worker calls')
            if s != 'held':
                self.bad('lock.handler', self.root + '/' + base(e.name), e.loc, '%s is called with the queue lock released: a failed save left it released' % base(e.name))
            return ('held',)
        return super().eff(e, s)

    def throws(self, e, s):
        if e.k == 'call' and any(self.islock(a) for a in e.args) and base(e.name) in self.thrown:
            return self.thrown[base(e.name)]
        if e.k == 'call' and (e.name or '').startswith('mdf::detail::SampleQueue'):
            return (s,)
        return ()


def run(db, R):
    m = Model(db)
    R.notes.append('guarded members: ' + ', '.join(sorted(m.guarded)))
    for g in sorted(m.guarded): R.count('guarded members')
    for r in m.req: R.analysed(r)
    # 1. functions that get the lock: entered with it held
    called = set()
    for f in db.funcs.values():
        if f['id'] in m.lockp: continue
        for e in sym.effects(m.tree(f)) if 'lock' in repr(f.get('body')) and f.get('cls') == CACHE else ():
            if e.k == 'call' and any(strip(a)[0] == 'loc' and LOCKT.search(strip(a)[2] or '') for a in e.args):
                called.add(base(e.name))
    roots = [db.funcs[i] for i in sorted(m.lockp) if base(db.funcs[i]['n']) in called and db.funcs[i].get('cls') in m.classes]
    if not roots:
        raise facts.AnalysisError('no function saves the queue under a lock')
    thrown = {}
    for f in roots:
        R.analysed(f); R.count('queue savers')
        for c in sorted(m.classes):
            # each class as dynamic type that uses this implementation
            t = m.deep.summarize(f, this_cls=c) if c == f['cls'] else None
            if t is None: continue
            nm = '%s::%s' % (base(f['cls']), base(f['n']))
            lp = next(('parm', p['n']) for p in f['p'] if LOCKT.search(p['t']))
            h = Held(m, R, nm, lp)
            o = h.run(t, {'held'})
            if 'free' in o.n or 'free' in o.ret:
                at = free_exit(h, t, f)
                R.violate('lock.balance', nm + '/exit', at, '%s can return with the queue lock released' % nm)
            thrown.setdefault(base(f['n']), set()).update(o.thr)
    # 2. WriteCache: access from user threads and the worker
    workers = thread_functions(db)
    inner, outer = {}, set()
    for f in db.funcs.values():
        if CACHE + '::' not in repr(f.get('body')): continue
        for n in nodes(f.get('body')):
            c = n.get('f')
            if isinstance(c, str) and c.startswith(CACHE + '::') and n.get('k') in ('MCall', 'Call'):
                if f.get('cls') == CACHE: inner.setdefault(c, set()).add(f['id'])
                else: outer.add(c)
    eng = sym.Engine(db, inline=lambda fid, g, d: g.get('cls') == CACHE and g['kind'] == 'method', max_depth=4)
    for f in list(db.funcs.values()):
        if f.get('cls') != CACHE or f['kind'] in ('ctor', 'dtor'): continue
        is_worker = f['id'] in workers
        if f['id'] in inner and f['id'] not in outer and not is_worker: continue  # seen in its callers
        t = eng.summarize(f)
        if not any(e.k == 'call' and (m.needs(e) or any(strip(a)[0] == 'loc' and LOCKT.search(strip(a)[2] or '') for a in e.args)) for e in sym.effects(t)):
            continue
        R.analysed(f)
        nm = 'WriteCache::' + base(f['n'])
        w = Worker(m, R, nm, thrown)
        o = w.run(t, {'none'})
        R.count('cache entry points')
        if is_worker:
            R.count('worker threads')
            if o.thr:
                at = escape(w, t, f)
                R.violate('lock.escape', nm, at, 'a failure while saving samples escapes from the worker thread %s and ends the program' % nm)
    # 3. the worker is stopped before the queues go
    lifetime(db, R, m, workers)
    publish(db, R, m)
    # 4. plain members shared between user threads and the worker
    shared(db, R, m, workers)


def free_exit(h, t, f):
    """location of a return reached with the lock released"""
    hits = []
    class H2(Held):
        def ret(self, v, loc, s):
            if s == 'free' and loc: hits.append(loc)
            return (s,)
    H2(h.m, type('N', (), {'count': lambda *a: None, 'violate': lambda *a: None})(), h.root, h.lock).run(t, {'held'})
    return hits[0] if hits else (f['file'], f['line'])


def escape(w, t, f):
    for x in t:
        o = w.run([x], {'none', 'held'})
        if o.thr:
            for e in sym.effects([x]):
                if w.throws(e, 'held'): loc = e.loc
            return loc
    return (f['file'], f['line'])


def thread_functions(db):
    """names of functions started as threads"""
    out = set()
    for f in db.funcs.values():
        s = f.get('body')
        if 'std::thread' not in repr(s): continue
        for n in nodes(s):
            if n.get('k') == 'Ctor' and n.get('c') == 'std::thread':
                for x in nodes(n.get('a')):
                    for k in ('id', 'f', 'n', 'm'):
                        v = x.get(k)
                        if isinstance(v, str) and v.startswith('mdf::'): out.add(v)
    out |= {base(v.split('(')[0]) for v in out}
    if not out: raise facts.AnalysisError('no thread is started')
    return out


def nodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values(): yield from nodes(v)
    elif isinstance(n, list):
        for v in n: yield from nodes(v)


class Joined(flow.Flow):
    def __init__(self, joins, cont): self.joins, self.cont, self.hits = joins, cont, []
    def eff(self, e, s):
        if e.k == 'call' and (base(e.name) in self.joins or base(e.name) == 'join'): return ('joined',)
        if e.k == 'call' and base(e.name) in ('clear', 'erase', 'operator=') and e.obj is not None and strip(e.obj)[0] == 'fld' and strip(e.obj)[2] in self.cont and s != 'joined':
            self.hits.append(e.loc)
        if (e.k in ('set', 'call')) and e.obj is not None and 'std::thread' in repr(e.val) and s != 'joined':
            self.hits.append(e.loc)
        return (s,)


def lifetime(db, R, m, workers):
    """cache_ is emptied only after the worker was joined; the destructor joins"""
    fields = db.classes[CACHE]['fields']
    thr = [f for f in fields if f['t'] == 'std::thread']
    cont = {f['n'] for f in fields if 'SampleQueue' in f['t']}
    if not thr or not cont: raise facts.AnalysisError('WriteCache has no thread or no queues')
    fs = [f for f in db.funcs.values() if f.get('cls') == CACHE]
    joins = set()
    ch = True
    while ch:
        ch = False
        for f in fs:
            if base(f['n']) in joins or f['kind'] in ('ctor', 'dtor'): continue
            for e in sym.effects(m.tree(f)):
                if e.k == 'call' and (base(e.name) == 'join' or (e.name or '').startswith(CACHE) and base(e.name) in joins):
                    joins.add(base(f['n'])); ch = True; break
    if not joins:
        R.violate('lock.join', 'none', (db.classes[CACHE]['file'], db.classes[CACHE]['line']), 'the worker thread is never joined')
        return
    for f in fs:
        if f['kind'] == 'ctor': continue
        j = Joined(joins, cont)
        j.run(m.tree(f), {'running'})
        R.count('thread lifetime functions'); R.analysed(f)
        for l in j.hits:
            R.violate('lock.join', base(f['n']), l, '%s empties the sample queues while the worker thread may still use them' % f['n'])
    d = [f for f in fs if f['kind'] == 'dtor']
    if not d or not any(e.k == 'call' and (base(e.name) in joins or base(e.name) == 'join') for e in sym.effects(m.tree(d[0]))):
        R.violate('lock.join', 'dtor', (db.classes[CACHE]['file'], db.classes[CACHE]['line']), 'the destructor of WriteCache does not stop the worker thread')
    # the join sets the stop flag first
    for f in fs:
        if not any(e.k == 'call' and base(e.name) == 'join' for e in sym.effects(m.tree(f))): continue
        class S(flow.Flow):
            def __init__(s): s.bad = []
            def eff(s, e, st):
                if e.k in ('set', 'call') and e.obj is not None and strip(e.obj)[0] == 'fld' and 'stop' in strip(e.obj)[2]:
                    v = e.val if e.k == 'set' else (e.args[0] if e.args else None)
                    if v is not None and strip(v) == ('c', 1): return ('stop',)
                    if v is not None and strip(v) == ('c', 0): return ('go',)
                if e.k == 'call' and base(e.name) == 'join' and st != 'stop': s.bad.append(e.loc)
                return (st,)
        s = S(); s.run(m.tree(f), {'go'})
        R.count('joins')
        for l in s.bad:
            R.violate('lock.stop', base(f['n']), l, '%s joins the worker without telling it to stop' % f['n'])


USER = re.compile(r'::(StartMeasurement|StopMeasurement|StopWorkThread|SaveSample|AddSample|Save\w+Message|RecalculateTimeMaster|PreTrigTime|NotifySample)$')
SCALAR = re.compile(r'^(unsigned |signed )?(bool|int|long|char|short|double|float|unsigned|.*int\d+_t|mdf::\w+)$')


def writes(db, f):
    out = {}
    for n in nodes(f.get('body')):
        k = n.get('k')
        t = None
        if k == 'Bin' and n.get('op', '').endswith('=') and n['op'] not in ('==', '!=', '<=', '>='): t = n['a']
        elif k == 'Un' and ('++' in n.get('op', '') or '--' in n.get('op', '')): t = n['e']
        elif k == 'OpCall' and n.get('op') in ('=', '+=', '-=', '++', '--') and n.get('a'): t = n['a'][0]
        while isinstance(t, dict) and t.get('k') in ('Cast', 'Paren'): t = t.get('e')
        if isinstance(t, dict) and t.get('k') in ('Mem', 'Member', 'Fld') or isinstance(t, dict) and isinstance(t.get('id'), str):
            i = t.get('id') or t.get('f')
            if isinstance(i, str): out[i] = n.get('l')
    return out


def shared(db, R, m, workers):
    fields = {}
    for c in [CACHE, 'mdf::MdfWriter'] + sorted(m.classes):
        for f in db.classes.get(c, {}).get('fields', ()):
            fields[f['id']] = (c, f)
    # functions the worker reaches, without the queue state that is checked under the lock
    reach = set(); todo = [i for i in db.funcs if i in workers]
    byname = {}
    for i, f in db.funcs.items(): byname.setdefault(base(f['n']), []).append(i)
    while todo:
        i = todo.pop()
        if i in reach: continue
        reach.add(i)
        f = db.funcs[i]
        for e in sym.effects(m.tree(f)) if f.get('cls') in m.classes or f.get('cls') in (CACHE, 'mdf::MdfWriter') else ():
            if e.k == 'call' and (e.name or '').startswith('mdf::'):
                c = '::'.join(e.name.split('::')[:-1])
                for j in byname.get(base(e.name), ()):
                    g = db.funcs[j]
                    if g.get('cls') == c or (c in m.classes and g.get('cls') in m.classes):
                        if len(g['p']) == len(e.args): todo.append(j)
    read = set()
    for i in reach:
        s = repr(db.funcs[i].get('body'))
        for fid in fields:
            if "'%s'" % fid in s: read.add(fid)
    user = [f for f in db.funcs.values() if USER.search(f['n']) and (f.get('cls') in m.classes or f.get('cls') in (CACHE, 'mdf::MdfWriter'))]
    for f in user:
        for fid, line in writes(db, f).items():
            if fid not in fields: continue
            R.count('shared member writes')
            c, fd = fields[fid]
            if fid in read and fd['n'] not in m.guarded and 'atomic' not in fd['t'] and SCALAR.match(fd['t']):
                if f['id'] in m.req: continue
                R.violate('lock.atomic', fid, (f['file'], line or f['line']), '%s writes %s, a plain member that the worker thread reads at the same time' % (f['n'], fid))


def publish(db, R, m):
    """the worker sees the measurement as started only when its start time is in effect"""
    for f in list(db.funcs.values()):
        if base(f['n']) != 'StartMeasurement' or not (f.get('cls') == 'mdf::MdfWriter' or 'mdf::MdfWriter' in db.bases(f.get('cls') or '')): continue
        eng = sym.Engine(db, inline=lambda fid, g, d: g.get('cls') == 'mdf::MdfWriter' and base(g['n']) not in ('RecalculateTimeMaster', 'Open', 'Close', 'NotifySample', 'Header', 'IsFirstMeasurement'), max_depth=3)
        t = eng.summarize(f)
        hits = []
        class F(flow.Flow):
            def eff(self, e, s):
                o = strip(e.obj) if e.obj is not None else None
                v = e.val if e.k == 'set' else (e.args[0] if e.args else None)
                if o is not None and o[0] == 'fld' and (e.k == 'set' or e.k == 'call' and base(e.name) in ('operator=', 'store')):
                    if 'start_time' in o[2]: return (s | {'start'},)
                    if 'state' in o[2]:
                        if not {'start', 'recalc'} <= s: hits.append((e.loc, s))
                        return (s | {'state'},)
                if e.k == 'call' and base(e.name) == 'RecalculateTimeMaster': return (s | {'recalc'},)
                return (s,)
        o = F().run(t, {frozenset()})
        if any(e.k in ('set', 'call') and e.obj is not None and strip(e.obj)[0] == 'fld' and 'state' in strip(e.obj)[2] for e in sym.effects(t)):
            R.count('measurement starts'); R.analysed(f)
        for loc, s in hits:
            R.violate('lock.publish', f['id'], loc, '%s lets the worker thread save samples before %s' % (f['n'], 'the start time is set' if 'start' not in s else 'the queued samples got their relative time'))
