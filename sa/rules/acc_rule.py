"""Accessor pairs N(value) / N(): what is set is what is read, and setting one
property leaves the others alone."""
import re
from collections import defaultdict
from .. import facts, sym, exec as X, bits as B
from ..sym import strip, show

# setters without effect: the format (or the interface default) has no such property
STUB = {('mdf::IChannel', 'Flags'), ('mdf::IChannel', 'Sync'), ('mdf::IChannelConversion', 'Description'),
        ('mdf::IChannelConversion', 'Flags'), ('mdf::IChannelConversion', 'Name'), ('mdf::IChannelGroup', 'Flags'),
        ('mdf::IChannelGroup', 'PathSeparator'), ('mdf::IDataGroup', 'Description'), ('mdf::IDataGroup', 'RecordIdSize'),
        ('mdf::IHeader', 'MeasurementId'), ('mdf::IHeader', 'RecorderId'), ('mdf::IHeader', 'RecorderIndex'),
        ('mdf::IHeader', 'StartAngle'), ('mdf::IHeader', 'StartDistance'), ('mdf::ISampleReduction', 'Flags'),
        ('mdf::ISampleReduction', 'SyncType'), ('mdf::detail::Cg3Block', 'Name'), ('mdf::detail::Cn3Block', 'DefaultX'),
        ('mdf::detail::Cn4Block', 'DisplayName'), ('mdf::detail::Cn4Block', 'SamplingRate')}
# values that are converted on the way in: not a copy
LOSSY = {('mdf::IChannelGroup', 'MaxLength'), ('mdf::MdSyntax', 'Version'), ('mdf::MdfWriter', 'PreTrigTime'),
         ('mdf::detail::Cc3Block', 'Type'), ('mdf::detail::Cn3Block', 'Type'), ('mdf::detail::Cn3Block', 'DataType'),
         ('mdf::detail::Hd3Block', 'StartTime'), ('mdf::CanMessage', 'MessageId')}
PROPCALL = re.compile(r'::(StringProperty|FloatProperty|IntProperty|CommonProperty)$')


def pairs(db):
    out = defaultdict(lambda: [[], []])
    for i, g in db.funcs.items():
        c = g.get('cls')
        if not c or not c.startswith('mdf::') or g['kind'] in ('ctor', 'dtor'):
            continue
        n = g['n'].split('::')[-1]
        if n.startswith('operator') or n in ('ToXml', 'FromXml', 'GetXml'): continue
        if len(g['p']) == 1 and g['ret'] in ('void', 'bool'): out[(c, n)][0].append(g)
        if len(g['p']) == 0 and g['ret'] != 'void': out[(c, n)][1].append(g)
    return {k: v for k, v in out.items() if v[0] and v[1]}


def base(t):
    t = t.replace('const ', '').replace('&', '').strip()
    t = t.replace('std::basic_string_view<char, std::char_traits<char>>', 'string').replace('std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'string')
    m = re.match(r'std::optional<(.*)>$', t)
    if m: t = m.group(1).strip()
    return t


def core(v):
    while isinstance(v, tuple) and v:
        if v[0] == 'cast' and not (sym.type_bits(v[1]) and sym.type_bits(v[1]) == 1): v = v[2]
        elif v[0] == 'ctor' and len(v[2]) >= 1 and (len(v[2]) == 1 or 'MdString' in v[1] or 'basic_string' in v[1]): v = v[2][0]
        elif v[0] == 'call' and v[1] in ('std::move', 'std::forward', 'std::make_optional') and v[3]: v = v[3][0]
        elif v[0] == 'call' and v[1].split('::')[-1] in ('value', 'data', 'c_str') and v[2] is not None and not v[3]: v = v[2]
        elif v[0] == 'call' and v[1].split('::')[-1] == 'value_or' and v[2] is not None: v = v[2]
        elif v[0] == 'call' and 'operator ' in v[1] and v[2] is not None and not v[3]: v = v[2]
        elif v[0] == 'ite' and v[1][0] == 'call' and v[1][1].split('::')[-1] in ('has_value', 'operator bool') and core(v[1][2])[0] == 'parm': v = v[2]
        elif v[0] == 'ite' and core(v[2])[0] == 'call' and PROPCALL.search(core(v[2])[1]) and 'nullptr' in show(v[1]): v = v[2]
        elif v[0] == 'ite':
            b = B.bools(v[1], None)
            if b == 1: v = v[2]
            elif b == 0: v = v[3]
            else: return v
        else: return v
    return v


class Acc:
    def __init__(self, db):
        self.db = db
        def pol(fid, g, d):
            c = g.get('cls') or ''
            if not c: return 'anonymous' in g['n']
            b = c.split('::')[-1]
            if b in ('MdfHelper', 'IMetaData', 'MdfLogStream', 'MetaData', 'ExpatXml', 'IXmlFile') or 'Xml' in b or PROPCALL.search(g['n']):
                return False
            return c.startswith('mdf::')
        self.eng = sym.Engine(db, inline=pol, max_depth=3)
        self.trees = {}

    def tree(self, g, c):
        k = (g['id'], c)
        if k not in self.trees:
            self.trees[k] = self.eng.summarize(g, this_cls=c)
        return self.trees[k]


def settle(p):
    """conditions of the path that the stored values contradict"""
    for c, b in p.conds:
        if c[0] in ('loop', 'case'): continue
        v = B.bools(X.val(p, c), None)
        if v in (0, 1) and bool(v) != b:
            return False
        x = c
        neg = b
        while x[0] == 'un' and x[1] == '!':
            x = x[2]; neg = not neg
        if x[0] == 'call' and x[1].split('::')[-1] == 'has_value' and x[2] is not None and not neg:
            y = core(x[2])
            if y[0] == 'parm': return False
        if x[0] == 'call' and x[1].split('::')[-1] == 'operator bool' and not neg and core(x[2])[0] == 'parm': return False
    return True


def props(p):
    """property store of meta data objects: tag -> value"""
    out = {}
    for e in p.effs:
        if e.k == 'call' and PROPCALL.search(e.name or '') and len(e.args) == 2:
            out[tag(e.args[0])] = X.val(p, e.args[1])
        elif e.k == 'call' and PROPCALL.search(e.name or '') and len(e.args) == 1 and strip(e.args[0])[0] == 'ctor' and len(strip(e.args[0])[2]) >= 2 and 'MdProperty' in strip(e.args[0])[1]:
            a = strip(e.args[0])
            out[tag(a[2][0])] = a[2][1]
    return out


def tag(v):
    v = core(strip(v))
    return v


def result(r, pr):
    v = core(r.ret) if r.ret is not None else None
    if v is not None and v[0] == 'call' and PROPCALL.search(v[1]) and len(v[3]) == 1:
        t = tag(v[3][0])
        if t in pr: return core(pr[t])
        return ('propmiss', t)
    return v


def judge(s, g, acc, c):
    """(verdict, message, loc): 'ok' | 'wrong' | 'open'"""
    pn = ('parm', s['p'][0]['n'])
    sp = X.run(acc.tree(s, c))
    gt = acc.tree(g, c)
    verdict = 'ok'
    why = None
    n = 0
    for p in sp:
        if p.st == 'throw': continue
        pr = props(p)
        touched = set()
        for e in p.effs:
            if e.k == 'call' or e.k == 'ctor':
                for a in ((e.obj,) if e.obj is not None else ()) + tuple(e.args):
                    for x in sym.find_all(a, lambda y: y and y[0] == 'fld'):
                        touched.add(X.key(x))
        unk = any(e.k == 'call' and any(sym.contains(a, lambda y: y == pn) for a in e.args) for e in p.effs)
        q = p.copy(); q.st = None; q.ret = None; q.effs = []
        for r in X.run(gt, q):
            if r.ret is None or not settle(r): continue
            n += 1
            v = result(r, pr)
            if v == pn: continue
            a = ('propmiss',) 
            if v[0] == 'propmiss':
                if pr: return 'wrong', 'is stored under %s but read under %s' % (', '.join(show(t) for t in pr), show(v[1])), g
                verdict = 'open'; continue
            if any(cc[0][0] == 'loop' for cc in r.conds):
                verdict = 'open'; continue
            if sym.contains(v, lambda y: y and y[0] in ('var', 'loc', 'opq', 'new')):
                verdict = 'open'; why = show(v); continue
            # bits
            tb = sym.type_bits(base(g['ret'])) if base(g['ret']) in ('bool',) or sym.type_bits(base(g['ret'])) else None
            en = acc.db.enums.get(base(g['ret']))
            nb = tb or (8 if en else None)
            if nb and (base(s['p'][0]['t']) == base(g['ret']) or nb == 1):
                bs = B.bits(X.val(r, r.ret), None)[:nb]
                want = [('v', pn, i) for i in range(nb)]
                # on a path that knows the parameter
                known = [b for cc, b in r.conds if cc == pn] + [not b for cc, b in r.conds if cc == ('un', '!', pn)]
                if nb == 1:
                    bb = B.bools(X.val(r, r.ret), None)
                    if bb == ('v', pn, 0) or known and bb == (1 if known[0] else 0): continue
                    if bb in (0, 1) and known:
                        return 'wrong', 'reads %d after %s was set' % (bb, bool(known[0])), s
                if bs == want: continue
                if all(b == w or b == 0 for b, w in zip(bs, want)) and bs[0] == want[0] and prefix(bs): continue
                df = [False if b == w else B.differs(b, w) for b, w in zip(bs, want)]
                if all(d is not None for d in df):
                    k = df.index(True) if True in df else nb
                    if k and all(b == 0 for b in bs[k:]): continue
                    if not unk and not p.conds and not r.conds: return 'wrong', 'bit %d reads %s' % (k, B.bshow(bs[k])), s
                if all(b in (0, 1) or b[0] == 'v' for b in bs) and not unk:
                    if v[0] == 'c' and r.conds: verdict = 'open'; continue
                    bad = next(i for i, (b, w) in enumerate(zip(bs, want)) if b != w)
                    if not p.conds or len(sp) == 1 or p.state:
                        return 'wrong', 'bit %d reads %s' % (bad, B.bshow(bs[bad])), s
            if not sym.contains(v, lambda y: y == pn):
                flds = {X.key(x) for x in sym.find_all(v, lambda y: y and y[0] == 'fld')}
                if v[0] in ('fld', 'c', 'ctor') and not unk and not (flds & touched) and base(s['p'][0]['t']) == base(g['ret']):
                    if v[0] != 'fld' and r.conds: verdict = 'open'; continue
                    if p.conds and not p.state:
                        verdict = 'open'; why = 'rejects'; continue
                    return 'wrong', 'reads %s, which the setter does not change' % show(v), s
            verdict = 'open'
            why = show(v)
    if n == 0: verdict = 'open'
    return verdict, why, s


def prefix(bs):
    z = False
    for b in bs:
        if b == 0: z = True
        elif z: return False
    return True


def check(db, R):
    acc = Acc(db)
    P = pairs(db)
    decided = {}
    for (c, n), (ss, gs) in sorted(P.items()):
        if (c, n) in STUB or (c, n) in LOSSY:
            R.count('accessors excluded'); continue
        for s in ss:
            for g in gs:
                if base(s['p'][0]['t']) != base(g['ret']) and not ('string' == base(s['p'][0]['t']) and 'MdString' in g['ret']):
                    continue
                try:
                    v, msg, at = judge(s, g, acc, c)
                except X.TooMany:
                    v, msg, at = 'open', 'too many paths', s
                if v == 'wrong':
                    R.violate('acc.pair', '%s::%s' % (c, n), (at['file'], at['line']), 'after %s::%s(value), %s() %s' % (c, n, n, msg))
                elif v == 'ok':
                    R.count('accessor pairs proved'); R.analysed(c + '::' + n)
                    decided[(c, n)] = (s, g)
                else:
                    R.count('accessor pairs left open')
                    R.notes.append('open: %s::%s %s' % (c, n, msg))
    return acc, decided


# ------------------------------------------------------------ named properties

def text_of(db, v):
    v = core(strip(v))
    if v[0] == 's': return v[1]
    if v[0] in ('glob', 'gvar', 'global') or v[0] == 'var' and '@' in str(v[1]):
        g = db.globals.get(v[1]) if hasattr(db, 'globals') else None
        if g:
            m = re.search(r"'k': 'Str'.*?'v': '([^']*)'", str(g.get('init')))
            if m: return m.group(1)
        return '@' + str(v[1])
    return None


def tags(db, tree):
    out = {}
    for n in sym.walk(tree):
        if n[0] != 'eff': continue
        e = n[1]
        if e.k not in ('call', 'ctor', 'decl'): continue
        if 'LogStream' in (e.name or '') or 'operator<<' in (e.name or ''): continue
        for a in e.args:
            t = text_of(db, a)
            if t: out[t] = e.loc
    return out


def check_tags(db, R):
    eng = sym.Engine(db, inline=lambda *a: False, max_depth=0)
    P = pairs(db)
    used = defaultdict(dict)
    for (c, n), (ss, gs) in sorted(P.items()):
        for s in ss:
            for g in gs:
                if base(s['p'][0]['t']) != base(g['ret']): continue
                a = tags(db, eng.summarize(s, this_cls=c)); b = tags(db, eng.summarize(g, this_cls=c))
                if not a or not b: continue
                R.count('named properties'); R.analysed(c + '::' + n)
                if not set(a) & set(b):
                    R.violate('acc.tag', '%s::%s' % (c, n), next(iter(b.values())), 'property %s::%s is stored under "%s" but read under "%s"' % (c, n, ', '.join(a), ', '.join(b)))
                    continue
                for t in set(a) & set(b):
                    o = used[c].setdefault(t, n)
                    if o != n:
                        R.violate('acc.tag', '%s::%s/%s' % (c, o, n), a[t], 'properties %s and %s of %s share the name "%s"' % (o, n, c, t))


# --------------------------------------------------------------- independence

# setting the first changes the second by design
LINKED = {
    'mdf::CanMessage': [{'MessageId', 'ExtendedId', 'CanId'}, {'DataLength', 'DataBytes', 'Dlc'}],
    'mdf::CcUnit': [{'Unit', 'Comment'}],
    'mdf::EthMessage': [{'DataBytes', 'DataLength'}],
    'mdf::FlexRayFrameHeader': [{'FillDataBytes', 'DataBytes'}],
    'mdf::HoUnit': [{'Identity', 'ShortName'}],
    'mdf::LinMessage': [{'DataBytes', 'DataLength'}],
    'mdf::MdfFile': [{'FileName', 'Name'}],
    'mdf::MostEthernetPacket': [{'DataBytes', 'ReceivedNofBytes', 'SpecifiedNofBytes'}],
    'mdf::detail::Cc4Block': [{'Decimals', 'Flags'}],
    'mdf::detail::Cn3Block': [{'BitCount', 'DataBytes'}, {'BitOffset', 'ByteOffset'}],
    'mdf::detail::Cn4Block': [{'BitCount', 'DataBytes', 'Decimals', 'DataType'}, {'Decimals', 'Flags'}, {'DataType', 'Flags'}],
    'mdf::detail::Dl4Block': [{'EqualLength', 'Flags'}],
}


def linked(db, c, n, n2):
    return any(n in l and n2 in l for k in [c] + list(db.bases(c)) for l in LINKED.get(k, ()))


def check_independent(db, R, acc, decided):
    by = defaultdict(list)
    for (c, n), sg in decided.items():
        by[c].append((n, sg))
    for c in sorted(by):
        # own pairs and those inherited
        mine = list(by[c])
        for b in db.bases(c):
            names = {n for n, _ in mine}
            mine += [(n, sg) for n, sg in by.get(b, ()) if n not in names]
        for n, (s, g) in by[c]:
            try:
                sp = X.run(acc.tree(s, c))
            except X.TooMany:
                continue
            for n2, (s2, g2) in mine:
                if n2 == n: continue
                if linked(db, c, n, n2): continue
                R.count('independent pairs')
                gt = acc.tree(g2, c)
                try:
                    bad = changed(sp, gt, s)
                except X.TooMany:
                    continue
                if bad:
                    R.violate('acc.independent', '%s::%s/%s' % (c, n, n2), bad[1] or (s['file'], s['line']), 'setting %s::%s(value) changes %s(): it reads %s' % (c, n, n2, bad[0]))


def changed(sp, gt, s):
    """a value the other getter returns after the setter that it could not return before,
    or a value it can no longer return"""
    for p in sp:
        if p.st == 'throw' or not p.state: continue
        q0 = X.Path(); q0.conds = list(p.conds)
        before = [r for r in X.run(gt, q0) if r.ret is not None and settle(r)]
        flds = set()
        for r0 in before:
            for v in [r0.ret] + [c for c, b in r0.conds]:
                for f in sym.find_all(v, lambda y: y and y[0] in ('fld', 'bit')):
                    flds.add(f); flds.add(X.key(f))
        if not any(f in p.state for f in flds): continue
        q = p.copy(); q.st = None; q.ret = None
        after = [r for r in X.run(gt, q) if r.ret is not None and settle(r)]
        for r in after:
            if not any(same(r.ret, r0.ret) for r0 in before):
                return show(r.ret)[:100], p.loc
        if after:
            for r0 in before:
                if not any(same(r.ret, r0.ret) for r in after):
                    return 'never ' + show(r0.ret)[:100], p.loc
    return None


def same(a, b):
    return X.key(core(a)) == X.key(core(b)) or B.bits(a, None) == B.bits(b, None) or B.bools(a, None) == B.bools(b, None)


# ------------------------------------------------------- a time in two units

def ratio(v, x):
    """value of a term that only scales the parameter x = 2.5, None if it does more"""
    from fractions import Fraction as F
    if v[0] == 'cast': return ratio(v[2], x)
    if v[0] == 'parm': return F(5, 2) if v == x else None
    if v[0] == 'c': return F(v[1]) if isinstance(v[1], (int, float)) else None
    if v[0] == 'call' and v[2] is not None and not v[3] and v[1].split('::')[-1].split(' ')[0] in ('operator', 'load', 'count'): return ratio(v[2], x)
    if v[0] == 'op' and v[1] in ('*', '/', '+', '-'):
        a, b = ratio(v[2], x), ratio(v[3], x)
        if a is None or b is None or v[1] == '/' and b == 0: return None
        return a * b if v[1] == '*' else a / b if v[1] == '/' else a + b if v[1] == '+' else a - b
    return None


def pretrig(db, R, rule='acc.unit'):
    """the pre-trig time is set and read in seconds, and applied in nanoseconds"""
    acc = Acc(db)
    fs = {(f['n'].split('::')[-1], len(f['p'])): f for f in db.funcs.values() if f.get('cls') == 'mdf::MdfWriter' and f['n'].split('::')[-1].startswith('PreTrigTime')}
    s = fs.get(('PreTrigTime', 1))
    for nm, unit in (('PreTrigTime', 1), ('PreTrigTimeNs', 10 ** 9)):
        g = fs.get((nm, 0))
        if s is None or g is None: continue
        pn = ('parm', s['p'][0]['n'])
        for p in X.run(acc.tree(s, 'mdf::MdfWriter')):
            if p.st == 'throw' or p.conds: continue
            q = p.copy(); q.st = None; q.ret = None; q.effs = []
            for r in X.run(acc.tree(g, 'mdf::MdfWriter'), q):
                if r.ret is None or r.conds: continue
                v = ratio(X.val(r, r.ret), pn)
                if v is None: R.notes.append('open: %s %s' % (nm, show(r.ret))); continue
                R.count('scaled values')
                if v * 2 != 5 * unit: R.violate(rule, nm, (g['file'], g['line']), 'after PreTrigTime(2.5) %s() returns %s' % (nm, float(v)))


def run(db, R):
    acc, decided = check(db, R)
    pretrig(db, R)
    check_tags(db, R)
    check_independent(db, R, acc, decided)
