"""P15: metadata written as XML reads back the same (abstract interpretation of the metadata classes over tokens)"""
import re, sys
import xml.parsers.expat as _expat
from ..facts import AnalysisError
from ..objint import *
from ..objint import strip, head, split_args, CONT, MAPS, STR, PTRS, INTS

SKIP_GET = {'ToXml', 'IsActive', 'BlockName', 'DataTypeToString'}


class Pop:
    """populate an object of a class with tokens; every leaf has a path"""
    def __init__(self, db, I, vary=None, nlist=2):
        self.db, self.I, self.vary, self.nlist = db, I, vary or {}, nlist
        self.leaves = []                        # (cls, field, kind, path)
        self.n = 0

    def text(self, path, plain=False):
        self.n += 1
        if plain: return 'key%d' % self.n
        return self.I.tx.ch(('text', path)) + '<&>"\' ' + self.I.tx.ch(('text2', path))

    def obj(self, cls, path, depth):
        o = self.I.new(cls)
        for c in [cls] + list(self.db.bases(cls)):
            for fl in self.db.classes.get(c, {}).get('fields', ()):
                if fl['n'] == 'block_name_': continue
                v = self.field(c, fl, o.f[fl['n']].v, path + (fl['n'],), depth)
                if not self.through_add(o, c, fl, v): o.f[fl['n']].v = v
        return o

    def through_add(self, o, c, fl, v):
        """fill a list of objects the way a user does: with the Add... method of the class"""
        els = [x.v for x in v.items] if isinstance(v, Vec) else [x.v.f['second'].v for x in v.items] if isinstance(v, MapV) else []
        if not els or not isinstance(els[0], Obj) or els[0].cls not in self.db.classes: return False
        for i, f in by_cls(self.db).get(c, ()):
            if not f['n'].split('::')[-1].startswith('Add') or len(f['p']) != 1 or strip(f['p'][0]['t']) != els[0].cls: continue
            t = self.I.copy(o)
            self.I.call(f, Cell(t), [Cell(self.I.copy(els[0]))])
            if len(t.f[fl['n']].v.items) == len(o.f[fl['n']].v.items) + 1:
                for e in els: self.I.call(f, Cell(o), [Cell(e)])
                return True
        return False

    def field(self, cls, fl, old, path, depth):
        key = (cls, fl['n'])
        v = self.value(fl['t'], old, path, depth, key)
        return v

    def value(self, t, old, path, depth, key):
        t = strip(t)
        h = head(t)
        var = self.vary.get(key)
        if h in STR:
            self.leaves.append((key, 'text'))
            if var == 'empty': return ''
            return self.text(path)
        if t == 'bool':
            self.leaves.append((key, 'bool'))
            return var if isinstance(var, bool) else True
        if t in self.db.enums:
            cs = self.db.enums[t]['c'] if isinstance(self.db.enums[t], dict) else self.db.enums[t]
            self.leaves.append((key, ('enum', tuple(x[1] for x in cs))))
            if isinstance(var, tuple) and var[0] == 'enum': return var[1]
            return cs[-1][1]
        if t in INTS or t in ('float', 'double'):
            self.leaves.append((key, 'num'))
            ty = 'f' if t in ('float', 'double') else 'u' if t.startswith('unsigned') else 'i'
            return Num(('tok', '.'.join(map(str, path)), {'double': 64, 'float': 32}.get(t) or {'char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32}.get(t, 64), key), ty)
        if h == 'std::optional':
            self.leaves.append((key, 'opt'))
            if var == 'none': return Opt()
            return Opt(Cell(self.value(split_args(t)[0], None, path, depth, key)))
        if h in CONT:
            self.leaves.append((key, 'list'))
            e = split_args(t)[0]
            n = 0 if var == 'none' else 1 if var == 'one' else self.nlist
            if head(e) in PTRS and 'MdExtension' in e:
                return Vec([Cell(Ptr(Cell(Obj('$Ext', {'v': Cell(self.text(path + (i,)))})))) for i in range(n)])
            if depth <= 0 and strip(e) in self.db.classes: return Vec([], CONT[h])
            return Vec([Cell(self.value(e, None, path + (i,), depth - 1, key)) for i in range(n)], CONT[h])
        if h in MAPS:
            self.leaves.append((key, 'list'))
            k, e = split_args(t)[:2]
            m = MapV([], MAPS[h])
            n = 0 if var == 'none' else 1 if var == 'one' else self.nlist
            if depth <= 0 and strip(e) in self.db.classes: n = 0
            for i in range(n):
                v = self.value(e, None, path + (i,), depth - 1, key)
                kk = None
                if isinstance(v, Obj) and head(k) in STR:
                    for nm in ('name_', 'text_'):
                        if nm in v.f: kk = v.f[nm].v; break
                if kk is None: kk = self.text(path + (i, 'k'), plain=True) if head(k) in STR else self.value(k, None, path + (i, 'k'), depth, key)
                self.I.map_put(m, kk, v)
            return m
        if h == 'std::function':
            return Fn('$creator', '$creator') if 'MdExtension' in t else old
        if h in PTRS: return old if old is not None else NULL
        if t in self.db.classes: return self.obj(t, path, depth)
        return old if old is not None else Opaque(t)


def make_hook(db):
    def hook(kind, what, n, I):
        if kind == 'ctor':
            if what.endswith('MdfLogStream'): return Opaque('log')
            return None
        if kind == 'call':
            nm = n.get('n') or ''
            if what in ('MDF_ERROR', 'MDF_INFO', 'MDF_DEBUG', 'MDF_TRACE'): return Opaque('log')
            if what == 'XML_ParserCreate': return Ptr(Cell(Obj('$parser', {'start': Cell(NULL), 'end': Cell(NULL), 'data': Cell(NULL), 'decl': Cell(NULL), 'user': Cell(NULL)})))
            if what.startswith('XML_'):
                a = [I.ev(x) for x in n['a']]
                if what == 'XML_ParserFree' : return 0
                p = a[0].c.v if a and isinstance(a[0], Ptr) else None
                if what == 'XML_SetUserData': p.f['user'].v = a[1]; return 0
                if what == 'XML_SetElementHandler': p.f['start'].v, p.f['end'].v = a[1], a[2]; return 0
                if what == 'XML_SetStartElementHandler': p.f['start'].v = a[1]; return 0
                if what == 'XML_SetEndElementHandler': p.f['end'].v = a[1]; return 0
                if what == 'XML_SetCharacterDataHandler': p.f['data'].v = a[1]; return 0
                if what == 'XML_SetXmlDeclHandler': p.f['decl'].v = a[1]; return 0
                if what == 'XML_Parse': return xml_parse(I, p, a[1], a[2], a[3])
                if what in ('XML_GetCurrentLineNumber', 'XML_GetCurrentColumnNumber', 'XML_GetErrorCode'): return 0
                if what == 'XML_ErrorString': return 'error'
                raise Stuck('expat function ' + what)
        if kind == 'method':
            b, oc = what
            if isinstance(oc.v, Obj) and oc.v.cls == '$Ext':
                node = I.lv(n['a'][0])
                if b == 'ToXml': node.v.f['value_'].v = oc.v.f['v'].v; return Opaque()
                if b == 'FromXml': oc.v.f['v'].v = node.v.f['value_'].v.strip(); return Opaque()
        if kind == 'apply' and isinstance(what, Fn) and what.name == '$creator':
            return Ptr(Cell(Obj('$Ext', {'v': Cell('')})))
        if kind == 'op' and what == '<<' : return None
        return None
    return hook


def xml_parse(I, p, text, n, final):
    if isinstance(text, Ptr): text = text.c.v
    if isinstance(n, int): text = text[:n]
    x = _expat.ParserCreate('UTF-8')
    x.buffer_text = False
    x.ordered_attributes = True
    ok = [1]
    user = p.f['user'].v

    def start(name, attrs):
        if p.f['start'].v is NULL: return
        v = Vec([Cell(a) for a in attrs] + [Cell(NULL)], 'array')
        I.apply(p.f['start'].v, [Cell(user), Cell(name), Cell(v)])

    def end(name):
        if p.f['end'].v is not NULL: I.apply(p.f['end'].v, [Cell(user), Cell(name)])

    def data(s):
        if p.f['data'].v is NULL: return
        # the parser may hand over a text in several pieces
        for q in ([s[:1], s[1:]] if len(s) > 1 else [s]): I.apply(p.f['data'].v, [Cell(user), Cell(q + '\0x'), Cell(len(q))])
    x.StartElementHandler, x.EndElementHandler, x.CharacterDataHandler = start, end, data
    try: x.Parse(text, bool(I.truth(final)))
    except _expat.ExpatError: return 0
    return 1


def getters(db, cls):
    """public observers without parameters: name -> function"""
    out = {}
    for c in [cls] + list(db.bases(cls)):
        for i, f in by_cls(db).get(c, ()):
            if f['p'] or not i.endswith('const') or f.get('body') is None: continue
            nm = f['n'].split('::')[-1]
            if f.get('ret') in (None, 'void') or nm in SKIP_GET or nm.startswith('operator'): continue
            out.setdefault((nm, i[len(f['n']):] if '<' in i[len(f['n']):len(f['n']) + 1] else ''), f)
    return out


def by_cls(db):
    m = getattr(db, '_by_cls', None)
    if m is None:
        m = db._by_cls = {}
        for i, f in db.funcs.items():
            if f.get('cls') and f.get('kind') not in ('ctor', 'dtor'): m.setdefault(f['cls'], []).append((i, f))
    return m


def compare(db, I, a, b, path, out, subset=False):
    """differences between the values a (written) and b (read back)"""
    if isinstance(a, Cell): a = a.v
    if isinstance(b, Cell): b = b.v
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.cls == '$Ext':
            if a.f['v'].v != b.f['v'].v: out.append((path, 'extension', a.f['v'].v, b.f['v'].v))
            return
        if a.cls == 'std::pair':
            for k in ('first', 'second'): compare(db, I, a.f[k], b.f[k], path + (k,), out)
            return
        gs = getters(db, a.cls)
        skip = getattr(I, 'skip_get', None)
        if not active(db, I, a) and not active(db, I, b): return
        for (nm, _), f in sorted(gs.items()):
            if skip is not None and skip(a.cls, nm): continue
            I.observed = getattr(I, 'observed', 0) + 1
            try:
                x = I.call(f, Cell(a), [])
                y = I.call(f, Cell(b), [])
            except Stuck as e:                 # a derived observer outside of the domain (calendar arithmetic and the like)
                I.skipped.add(f['n'])
                continue
            compare(db, I, x, y, path + ((owner(f, a), nm),), out, subset=nm == 'CustomAttributes')
        return
    if isinstance(a, Vec) and isinstance(b, Vec):
        ai = a.items
        if len(ai) != len(b.items): ai = [x for x in ai if not isinstance(x.v, Obj) or active(db, I, x.v)]
        if len(ai) != len(b.items): out.append((path, 'count', len(a.items), len(b.items), kinds(a.items))); return
        for i, (x, y) in enumerate(zip(ai, b.items)): compare(db, I, x, y, path + (i,), out)
        return
    if isinstance(a, MapV) and isinstance(b, MapV):
        for c in a.items:
            i = next((j for j, d in enumerate(b.items) if same_key(I, d.v.f['first'].v, c.v.f['first'].v)), None)
            if i is None: out.append((path, 'entry missing', c.v.f['first'].v, None, kinds([c.v.f['second']]))); continue
            compare(db, I, c.v.f['first'], b.items[i].v.f['first'], path + ('key',), out)
            compare(db, I, c.v.f['second'], b.items[i].v.f['second'], path + ('[]',), out)
        if not subset and len(b.items) > len(a.items): out.append((path, 'count', len(a.items), len(b.items)))
        return
    if isinstance(a, Opt) and isinstance(b, Opt):
        if (a.c is None) != (b.c is None): out.append((path, 'presence', a, b)); return
        if a.c is not None: compare(db, I, a.c, b.c, path, out)
        return
    if isinstance(a, Ptr) and isinstance(b, Ptr): return compare(db, I, a.c, b.c, path, out)
    if a is NULL and b is NULL or a is None and b is None: return
    if isinstance(a, (Num, int, float, str)) and isinstance(b, (Num, int, float, str)):
        if not I.same_num(a, b): out.append((path, 'value', a, b))
        return
    if isinstance(a, (Fn, Lam, Opaque)): return
    out.append((path, 'value', a, b))


def kinds(items):
    """classes of the elements (texts for lists of texts)"""
    return {x.v.cls if isinstance(x.v, Obj) else 'text' if isinstance(x.v, str) else 'number' for x in items}


def active(db, I, o):
    """IsActive() of an object (an object that is not active has no XML form)"""
    if o.cls not in db.classes: return True
    for c in [o.cls] + list(db.bases(o.cls)):
        for i, f in by_cls(db).get(c, ()):
            if f['n'].split('::')[-1] == 'IsActive' and not f['p']: return bool(I.truth(I.call(f, Cell(o), [])))
    return True


def same_key(I, a, b):
    if getattr(I, 'loose', False) and isinstance(a, Obj) and isinstance(b, Obj) and 'text_' in a.f: return a.f['text_'].v == b.f['text_'].v
    return I.eq(a, b) if isinstance(a, Obj) else I.same_num(a, b)


def owner(f, a): return a.cls


def comments(db):
    """classes with a text form: ToXml() const -> text and FromXml(text)"""
    out = []
    for c in db.classes:
        ms = by_cls(db)
        def has(pred):
            for b in [c] + list(db.bases(c)):
                for i, f in ms.get(b, ()):
                    if pred(i, f): return f
        to = has(lambda i, f: f['n'].endswith('::ToXml') and not f['p'] and head(f.get('ret') or '') in STR)
        fr = has(lambda i, f: f['n'].endswith('::FromXml') and len(f['p']) == 1 and head(strip(f['p'][0]['t'])) in STR)
        if to and fr: out.append((c, to, fr))
    return out


def variants(kind):
    if kind == 'text': return ['empty']
    if kind == 'bool': return [False]
    if kind == 'opt': return ['none']
    if kind == 'list': return ['none', 'one']
    if kind == 'num': return ['fork']
    if isinstance(kind, tuple) and kind[0] == 'enum': return [('enum', x) for x in kind[1]]
    return []


# ---- what the XML form does not hold, by the format -----------------------------------------------------------------
NOT_HELD = {('SiComment', 'Formula'), ('EvComment', 'Names'), ('FhComment', 'Names'), ('FhComment', 'Formula'), ('HdComment', 'Names'), ('HdComment', 'Formula'),
            ('MdNumber', 'DataType'), ('MdEnumerate', 'Value'), ('HoCompuScale', 'Validity')}


def short(c): return c.split('::')[-1]


def held(path):
    """is this observer part of the XML form (by the schema of the format)?"""
    gs = [(short(x[0]), x[1]) for x in path if isinstance(x, tuple)]
    if any(g in NOT_HELD for g in gs): return False
    for c, g in gs:
        if g == 'Offset' and c in ('MdString', 'MdSyntax', 'MdVariable') and not any('LinkerName' in x[1] for x in gs): return False
        if g == 'Source' and c == 'MdSyntax' and not any(x[1] == 'CustomSyntaxes' for x in gs): return False
    return True


def derived(db, c, b): return c == b or b in db.bases(c)


def excused(db, path, what, a, b, vary, elems):
    """differences that the absence of the varied member itself explains"""
    if not held(path): return True
    gs = [x for x in path if isinstance(x, tuple)]
    if what == 'value' and gs and gs[-1][1] == 'DataType' and {a, b} == {2, 8}: return True     # hexadecimal is written as integer
    for (c, fl), v in vary.items():
        if v in ('empty', 'none') and what in ('count', 'entry missing'):
            if elems and all(derived(db, e, c) or e == 'text' and v == 'empty' for e in elems): return True
    return False


def round_trip(db, job):
    c, vary, depth, junk = job
    to, fr = [(t, f) for k, t, f in comments(db) if k == c][0]
    keys = {k for k, v in vary.items() if v == 'fork'}
    res, info = [], dict(leaves=[], used=set(), skipped=set(), runs=0, observers=0, junk=0)

    def make(trail):
        I = Interp(db, texts=Texts(), hook=make_hook(db), trail=trail)
        I.nofork = lambda t: not (len(t.k) > 3 and t.k[3] in keys)
        P = Pop(db, I, vary)
        o = P.obj(c, (), depth)
        s = I.call(to, Cell(o), [])
        s = s.v if isinstance(s, Cell) else s

        def read(text):
            o2 = I.new(c)
            for k, cell in o2.f.items():
                if isinstance(o.f[k].v, Fn): cell.v = o.f[k].v
            I.call(fr, Cell(o2), [Cell(text)])
            return o2
        out = []
        compare(db, I, o, read(s), (), out)
        for path, what, a, b, *el in out:
            if excused(db, path, what, a, b, vary, el[0] if el else ()): continue
            gs = [x for x in path if isinstance(x, tuple)]
            res.append(('round', gs[-1][0] if gs else c, gs[-1][1] if gs else '', what, rep(I, a), rep(I, b), str(vary) if vary else ''))
        if junk:
            for ch in sorted({x for x in s if x in I.tx.c and I.tx.c[x][0] not in ('text', 'text2')}):
                k = I.tx.c[ch]
                if num_key(k) not in junk: continue
                info['junk'] += 1
                I.steps = 0
                try: o3 = read(s.replace(ch, 'junk'))
                except CThrow: res.append(('junk', c, str(num_key(k)), 'throws', '', '', '')); continue
                out = []
                I.loose = True
                compare(db, I, o, o3, (), out)
                I.loose = False
                for path, what, a, b, *el in out:
                    if excused(db, path, what, a, b, vary, el[0] if el else ()): continue
                    if numeric(a): continue
                    gs = [x for x in path if isinstance(x, tuple)]
                    res.append(('junk', gs[-1][0] if gs else c, gs[-1][1] if gs else '', what, rep(I, a), rep(I, b), str(num_key(k))))
        info['leaves'] = list(dict.fromkeys(P.leaves))
        info['used'] |= I.used
        info['skipped'] |= I.skipped
        info['runs'] += 1
        info['observers'] += getattr(I, 'observed', 0)
        return I
    for I in explore(make, 16): pass
    return res, info


def numeric(a):
    if isinstance(a, Opt): return a.c is None or numeric(a.c.v)
    return isinstance(a, (Num, int, float)) and not isinstance(a, bool)


def num_key(k):
    for x in k if isinstance(k, tuple) else ():
        if isinstance(x, Num): return num_key(x.k)
        if isinstance(x, tuple) and len(x) == 2 and all(isinstance(y, str) for y in x): return x
        if isinstance(x, tuple):
            r = num_key(x)
            if r != x: return r
    return k


def rep(I, a):
    s = str(a) if not isinstance(a, str) else repr(''.join('{%s}' % '.'.join(map(str, I.tx.c[x][1])) if x in I.tx.c and I.tx.c[x][0] == 'text' and isinstance(I.tx.c[x][1], tuple) else x for x in a))
    return s[:100]


def _job(j):
    sys.setrecursionlimit(20000)
    try: return j, round_trip(_DB, j)
    except (Stuck, CThrow) as e: return j, 'stuck: %s %s' % (type(e).__name__, getattr(e, 't', e))


_DB = None


def pool_map(db, jobs):
    global _DB
    _DB = db
    by_cls(db)
    import multiprocessing as mp
    with mp.get_context('fork').Pool(8) as p: return p.map(_job, jobs, chunksize=1)


def check(db, R):
    sys.setrecursionlimit(20000)
    cs = comments(db)
    if len(cs) < 2: raise AnalysisError('no metadata classes with an XML form')
    done, second = set(), []
    results = pool_map(db, [(c, {}, d, ()) for d in (1, 2) for c, _, _ in cs])
    for (c, _, depth, _), r in results:         # each member is varied in the smallest object that has it
        if isinstance(r, str): continue
        for key, kind in r[1]['leaves']:
            if (key, kind) in done: continue
            done.add((key, kind))
            second += [(c, {key: v}, depth, ()) for v in variants(kind)]
            if kind == 'num': second.append((c, {}, depth, (key,)))
    results += pool_map(db, second)
    for (c, vary, _, _), r in results:
        if isinstance(r, str): raise AnalysisError('%s %s: %s' % (c, vary or '', r))
        R.count('round trips', r[1]['runs'])
        R.count('observers compared', r[1]['observers'])
        R.count('malformed numbers', r[1]['junk'])
        for u in r[1]['used']: R.analysed(u)
        for n in sorted(r[1]['skipped']):
            x = 'observer outside of the domain: ' + n
            if x not in R.notes: R.notes.append(x)
        for kind, cl, g, what, a, b, extra in r[0]:
            loc = where(db, cl, 'FromXml') or where(db, cl, 'ToXml') or where(db, cl, g)
            if kind == 'round':
                R.violate('xml', '%s.%s' % (short(cl), g), loc, '%s() of a %s does not survive writing and reading the XML of a %s: %s %s became %s%s' % (g, short(cl), short(c), what, a, b, ' (with %s)' % extra if extra else ''))
            else:
                R.violate('xml', 'malformed/%s.%s' % (short(cl), g), loc, 'a malformed number for %s in the XML of a %s %s' % (extra or g, short(c), 'throws out of FromXml' if what == 'throws' else 'loses %s() of %s: %s %s became %s' % (g, short(cl), what, a, b)))
    R.count('metadata classes', len(cs))


def where(db, cls, name):
    for c in [cls] + list(db.bases(cls)):
        for i, f in by_cls(db).get(c, ()):
            if f['n'].split('::')[-1] == name: return (f['file'], f['line'])
    return None


def unopt(a, b):
    a, b = [x.v if isinstance(x, Cell) else x for x in (a, b)]
    if isinstance(a, Opt) and not isinstance(b, Opt) and a.c is not None: return a.c, b
    if isinstance(b, Opt) and not isinstance(a, Opt) and b.c is not None: return a, b.c
    return a, b


def setters(db, R):
    """what the user sets is what the observer of the same name returns"""
    cls = set()
    for c, _, _ in comments(db):
        I = Interp(db, texts=Texts(), hook=make_hook(db))
        P = Pop(db, I, {})
        P.obj(c, (), 2)
        cls |= {k[0] for k, _ in P.leaves} | {c}
    for c in sorted(cls):
        for i, f in by_cls(db).get(c, ()):
            nm = f['n'].split('::')[-1]
            if len(f['p']) != 1 or f.get('body') is None or i.endswith('const') or nm.startswith(('Add', 'operator', 'From', 'To')): continue
            g = [h for (n2, _), h in getters(db, c).items() if n2 == nm and not h['p']]
            if not g: continue
            pt, rt = strip(f['p'][0]['t']), strip(g[0].get('ret') or '')
            if head(pt) == 'std::optional': pt = split_args(pt)[0]
            if head(rt) == 'std::optional': rt = split_args(rt)[0]
            if pt != rt and not (head(pt) in STR and head(rt) in STR): continue
            I = Interp(db, texts=Texts(), hook=make_hook(db))
            P = Pop(db, I, {})
            I.nofork = lambda t: True
            o = P.obj(c, ('old',), 1)
            try:
                before = {}
                for (n2, _), h in getters(db, c).items():
                    if n2 != nm:
                        try: before[n2] = (h, I.call(h, Cell(I.copy(o)), []))
                        except Stuck: pass
                v = P.value(f['p'][0]['t'], None, ('new',), 1, (c, nm))
                I.call(f, Cell(o), [Cell(I.copy(v))])
                out = []
                got = I.call(g[0], Cell(o), [])
                compare(db, I, *unopt(v, got), (), out)
            except Stuck as e:
                R.notes.append('setter outside of the domain: %s (%s)' % (f['n'], e)); continue
            R.count('setters')
            R.analysed(f); R.analysed(g[0])
            if out: R.violate('xml', 'set/%s.%s' % (short(c), nm), (f['file'], f['line']), '%s::%s() does not return the value that was set: %s became %s' % (short(c), nm, rep(I, out[0][2]), rep(I, out[0][3])))
            for n2, (h, x) in before.items():
                out = []
                try: compare(db, I, x, I.call(h, Cell(o), []), (), out)
                except Stuck: continue
                if not out: continue
                new, alias = I.call(h, Cell(o), []), []
                compare(db, I, *unopt(v, new), (), alias)
                new = new.v if isinstance(new, Cell) else new
                if alias and not isinstance(new, (Vec, MapV)): R.violate('xml', 'set/%s.%s/%s' % (short(c), nm, n2), (f['file'], f['line']), 'setting %s of a %s changes its %s to %s' % (nm, short(c), n2, rep(I, new)))


# ---- properties in the XML text of a metadata block -----------------------------------------------------------------
def meta_class(db):
    for c in sorted(db.classes):
        if 'mdf::IMetaData' in db.bases(c) and any(f['n'].split('::')[-1] == 'XmlSnippet' and f.get('body') is not None for _, f in by_cls(db).get(c, ())) : return c
        for b in db.bases(c):
            if 'mdf::IMetaData' in db.bases(c) and any(f['n'].split('::')[-1] == 'XmlSnippet' and f.get('body') is not None for _, f in by_cls(db).get(b, ())): return c
    raise AnalysisError('no class implements IMetaData')


def meth(db, cls, name, np, pred=None):
    for c in [cls] + list(db.bases(cls)):
        for i, f in by_cls(db).get(c, ()):
            if f['n'].split('::')[-1] == name and len(f['p']) == np and f.get('body') is not None and (pred is None or pred(f, i)): return f
    raise AnalysisError('no %s::%s with %d parameters' % (cls, name, np))


def meta_ops(db, cls):
    """operations of a metadata block: name -> (what is set, how, how to observe)"""
    getter = lambda f, i: i.endswith('const')
    setter = lambda f, i: not i.endswith('const')
    sp, gp = meth(db, cls, 'StringProperty', 2), meth(db, cls, 'StringProperty', 1)
    sf, gf = meth(db, cls, 'FloatProperty', 2), meth(db, cls, 'FloatProperty', 1)
    sc, gc = meth(db, cls, 'CommonProperty', 1, setter), meth(db, cls, 'CommonProperty', 1, getter)
    sl, gl = meth(db, cls, 'CommonProperties', 1), meth(db, cls, 'CommonProperties', 0)
    gp0 = meth(db, cls, 'Properties', 0)
    st, gt = meth(db, cls, 'TxComment', 1), meth(db, cls, 'TxComment', 0)
    return locals()


def tag(db, I, name, gen, tree=False, bare=False):
    P = Pop(db, I, {})
    t = P.obj('mdf::ETag', (name, gen), 2 if tree else 0)
    t.f['name_'].v = name
    t.f['creator_index_'].v = -1 if bare else 3 + gen
    if bare:
        for k in ('desc_', 'unit_', 'unit_ref_', 'type_', 'language_'): t.f[k].v = ''
        t.f['read_only_'].v = False
    def name_all(t, name):
        for i, c in enumerate(t.f['tree_list_'].v.items):
            if i == 1: c.v.f['tree_list_'].v.items[:] = []
            c.v.f['name_'].v = '%s.%d' % (name, i)
            c.v.f['creator_index_'].v = 5 + i
            name_all(c.v, c.v.f['name_'].v)
    name_all(t, name)
    return t


TREE = ('Name', 'Description', 'CreatorIndex', 'TreeList')


def same_tag(db, I, a, b, path, out):
    a, b = [x.v if isinstance(x, Cell) else x for x in (a, b)]
    if not isinstance(b, Obj): out.append((path, 'no tag')); return
    la, lb = a.f['tree_list_'].v.items, b.f['tree_list_'].v.items
    for (nm, _), f in sorted(getters(db, a.cls).items()):
        if nm == 'TreeList' or nm not in TREE and la: continue
        if nm == 'Value' and head(strip(f.get('ret') or '')) not in STR: continue
        try: x, y = I.call(f, Cell(a), []), I.call(f, Cell(b), [])
        except Stuck: continue
        o = []
        compare(db, I, x, y, (), o)
        if o: out.append((path + '.' + nm, rep(I, o[0][2]), rep(I, o[0][3])))
    if len(la) != len(lb): out.append((path + '.TreeList', len(la), len(lb))); return
    for i, (x, y) in enumerate(zip(la, lb)): same_tag(db, I, x, y, path + '.TreeList', out)


def _meta_job(seq):
    sys.setrecursionlimit(20000)
    db = _DB
    cls = meta_class(db)
    M = meta_ops(db, cls)
    I = Interp(db, texts=Texts(), hook=make_hook(db))
    I.nofork = lambda t: True
    try:
        o = Cell(I.new(cls))
        T = lambda *k: I.tx.ch(('text', k)) + '<&>"\' ' + I.tx.ch(('text2', k))
        I.call(meth(db, cls, 'InitMd', 1), o, [Cell('HDcomment')])
        want, tags = {}, {}
        for n, op in enumerate(seq):
            if op[0] == 'S': v = '' if op[2:] == ('empty',) else T('S', op[1], n); I.call(M['sp'], o, [Cell(op[1]), Cell(v)]); want['S', op[1]] = v
            elif op[0] == 'F': v = Num(('tok', 'f%d' % n, 64, op), 'f'); I.call(M['sf'], o, [Cell(op[1]), Cell(v)]); want['F', op[1]] = v
            elif op[0] == 'T': v = T('T', n); I.call(M['st'], o, [Cell(v)]); want['T'] = v
            elif op[0] == 'C': v = tag(db, I, op[1], n, *op[2:]); I.call(M['sc'], o, [Cell(I.copy(v))]); tags[op[1]] = v
            elif op[0] == 'L':
                vs = [tag(db, I, x, n) for x in op[1]]
                I.call(M['sl'], o, [Cell(Vec([Cell(I.copy(v)) for v in vs], 'vector'))])
                for v in vs: tags[v.f['name_'].v] = v
        out = []
        def eq(what, a, b):
            o2 = []
            b = b.v if isinstance(b, Cell) else b
            compare(db, I, a, b, (), o2)
            if o2: out.append((what, rep(I, a), rep(I, b)))
        for k, v in want.items():
            if k == 'T': eq('TxComment', v, I.call(M['gt'], o, []))
            elif k[0] == 'S': eq('StringProperty', v, I.call(M['gp'], o, [Cell(k[1])]))
            else: eq('FloatProperty', v, I.call(M['gf'], o, [Cell(k[1])]))
        for k, v in tags.items(): same_tag(db, I, v, I.call(M['gc'], o, [Cell(k)]), 'CommonProperty', out)
        lst = I.call(M['gl'], o, [])
        lst = lst.v if isinstance(lst, Cell) else lst
        got = [x.v.f['name_'].v for x in lst.items]
        if got != list(tags): out.append(('CommonProperties', list(tags), got))
        else:
            for x in lst.items: same_tag(db, I, tags[x.v.f['name_'].v], x, 'CommonProperties', out)
        pl = I.call(M['gp0'], o, [])
        pl = pl.v if isinstance(pl, Cell) else pl
        pn = [x.v.f['name_'].v for x in pl.items]
        for k, v in want.items():
            if k != 'T' and pn.count(k[1]) != 1: out.append(('Properties', k[1], pn))
        return seq, out, I.used, None
    except Stuck as e: return seq, [], I.used, 'stuck: %s' % e
    except CThrow as e: return seq, [('exception', e.t, '')], I.used, None


def meta(db, R):
    global _DB
    _DB = db
    ops = [('S', 'p'), ('S', 'q'), ('F', 'f'), ('T',), ('C', 'e'), ('C', 'e', False, True), ('C', 't', True), ('L', ('l', 'm')), ('L', ('e',))]
    seqs = [(a,) for a in ops] + [(('S', 'p', 'empty'),)] + [(a, b) for a in ops for b in ops if not (a[0] == 'C' and b == ('C', 'e', False, True))]
    seqs += [(ops[6], ops[7], ops[0], ops[4], ops[3], ops[2], ops[1]), (ops[0], ops[0], ops[0]), (ops[4], ops[4], ops[6], ops[6])]
    import multiprocessing as mp
    cls = meta_class(db)
    meta_ops(db, cls)
    seqs = [s for s in seqs if not (('L', ('e',)) == s[0] and s[-1] == ('C', 'e', False, True))]
    with mp.get_context('fork').Pool(8) as p: res = p.map(_meta_job, seqs, chunksize=4)
    for seq, out, used, stuck in res:
        if stuck: raise AnalysisError('metadata properties %s: %s' % (seq, stuck))
        R.count('property histories')
        for u in used: R.analysed(u)
        for what, a, b in out:
            base = what.split('.')[0]
            loc = where(db, cls, base if base != 'exception' else 'StringProperty')
            R.violate('xml', 'meta/%s' % what, loc, '%s after setting %s: %s expected, %s delivered' % (what, ', '.join(map(str, seq)), a, b))


def plain(db, R):
    """a text that is no XML is the comment itself"""
    for c, to, fr in comments(db):
        g = [h for (n, _), h in getters(db, c).items() if n == 'Comment']
        if not g: continue
        I = Interp(db, texts=Texts(), hook=make_hook(db))
        o = Cell(I.new(c))
        t = 'x' + I.tx.ch(('text', 'plain')) + '<&>'
        try:
            I.call(fr, o, [Cell(t)])
            v = I.call(g[0], o, [])
        except (Stuck, CThrow) as e: raise AnalysisError('%s: plain text: %s' % (c, e))
        v = v.v if isinstance(v, Cell) else v
        R.count('plain texts')
        if isinstance(v, Obj): v = v.f['text_'].v
        if v != t: R.violate('xml', 'plain/%s' % short(c), (fr['file'], fr['line']), 'a text that is no XML is not delivered as the comment of a %s: %s became %s' % (short(c), rep(I, t), rep(I, v)))


def run(db, R):
    check(db, R)
    setters(db, R)
    meta(db, R)
    plain(db, R)
    enums(db, R)


# ---- names of the enumeration values in the text (ASAM harmonized objects) --------------------------------------------
ENUM_TEXT = {
    'HoDataType': 'A_UINT8 A_INT8 A_UINT16 A_INT16 A_UINT32 A_INT32 A_UINT64 A_INT64 A_FLOAT32 A_FLOAT64 A_ASCIISTRING A_UNICODE2STRING A_BYTEFIELD A_BITFIELD OTHER',
    'HoIntervalType': 'OPEN CLOSED INFINITE',
    'HoValidity': 'VALID NOT-VALID NOT-AVAILABLE NOT-DEFINED ERROR OTHER',
    'HoDataCategory': 'LEADING-LENGTH-INFO-TYPE END-OF-PDU MIN-MAX-LENGTH-TYPE STANDARD-LENGTH-TYPE',
    'HoDataEncoding': 'SIGNED UNSIGNED BIT IEEE-FLOATING-TYPE BCD DSP-FRACTIONAL SM BCD-P BCD-UP 1C 2C UTF-8 UCS-2 ISO-8859-1 ISO-8859-2 WINDOWS-1252',
    'HoDataTermination': 'NONE ZERO HEX-FF LENGTH',
    'HoRoleType': 'MANUFACTURER SUPPLIER',
    'HoComputationMethodCategory': 'IDENTICAL LINEAR SCALE-LINEAR TEXTTABLE TAB-NOINTP FORMULA',
    'HoUnitGroupCategory': 'COUNTRY EQUIV-UNITS',
}


def enums(db, R):
    """texts of the enumeration values: the ones of the format, and read back to the same value"""
    pairs = {}
    for i, f in db.funcs.items():
        n = f['n'].split('::')[-1]
        if f.get('cls') or f.get('body') is None or len(f['p']) != 1: continue
        t, r = strip(f['p'][0]['t']), strip(f.get('ret') or '')
        if t in db.enums and head(r) in STR and n.endswith('ToString'): pairs.setdefault(t, [None, None])[0] = f
        if r in db.enums and head(t) in STR and n.startswith('StringTo'): pairs.setdefault(r, [None, None])[1] = f
    for e, (to, fr) in sorted(pairs.items()):
        if to is None or fr is None: continue
        cs = db.enums[e]['c'] if isinstance(db.enums[e], dict) else db.enums[e]
        spec = ENUM_TEXT.get(short(e), '').split()
        for k, (name, v) in enumerate(sorted(cs, key=lambda x: x[1])):
            I = Interp(db, texts=Texts(), hook=make_hook(db))
            try:
                s = I.call(to, None, [Cell(v)])
                s = s.v if isinstance(s, Cell) else s
                b = I.call(fr, None, [Cell(s)])
                b = b.v if isinstance(b, Cell) else b
            except (Stuck, CThrow) as x: raise AnalysisError('%s: %s' % (e, x))
            R.count('enumeration values')
            R.analysed(to); R.analysed(fr)
            if not I.same_num(b, v): R.violate('xml', 'enum/%s.%s' % (short(e), name), (fr['file'], fr['line']), '%s::%s is written as %r and read back as value %s' % (short(e), name, s, b))
            if len(spec) == len(cs) and s != spec[k]: R.violate('xml', 'enum/%s.%s' % (short(e), name), (to['file'], to['line']), '%s::%s is written as %r, the format says %r' % (short(e), name, s, spec[k]))
