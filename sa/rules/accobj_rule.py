"""P07: texts and numbers of the blocks, many of which live in meta data, other blocks or strings of a fixed length, set and observed on the objects a
user gets (object-level abstract interpretation)"""
from ..facts import AnalysisError
from ..objint import *
from ..objint import strip, head, STR, INTS
from .xml_rule import getters, by_cls, short
from .image_rule import Tree, shown
from .acc_rule import STUB, LOSSY, LINKED

# texts that are not kept by design: the format has no place for them
NOTEXT = {'Time', 'Date'}


def kind(t):
    t = strip(t)
    return 'text' if head(t) in STR else 'real' if t == 'double' else 'int' if t in INTS and t != 'bool' and 'char' not in t else None


def sample(t, n, rnd, i):
    if t == 'text': return '%s text of %s' % (rnd, n)
    if n == 'BitOffset': return 3 if rnd == 'first' else 5        # within a byte
    if t == 'int': return (16 if rnd == 'first' else 64) + i
    return Num(('tok', '%s value of %s' % (rnd, n), 64, ('set', n)), 'f')


def txt(v): return '"%s"' % v if isinstance(v, str) else str(v) if isinstance(v, int) else v.k[1] if isinstance(v, Num) and v.k[0] == 'tok' else 'another number'


def same(a, b): return type(a) == type(b) and a == b


def texts(db, c):
    """(name, setter, getter) of the text properties the interfaces of c show"""
    out = {}
    for b in [c] + list(db.bases(c)):
        for i, f in by_cls(db).get(b, ()):
            nm = f['n'].split('::')[-1]
            if nm in out or nm not in shown(db, c) or nm in NOTEXT: continue
            if len(f['p']) != 1 or f.get('body') is None or i.endswith('const') or strip(f.get('ret') or '') != 'void': continue
            t = kind(f['p'][0]['t'])
            if t is None: continue
            g = next((g for (n, _), g in getters(db, c).items() if n == nm and kind(g['ret']) == t), None)
            if g is None or any((x, nm) in STUB | LOSSY for x in (b, c, g.get('cls'))): continue
            out[nm] = (f, g)
    return [(n,) + out[n] for n in sorted(out)]


def objects4(T):
    fo = T.fo = T.I.new('mdf::detail::Mdf4File')
    hd = T.m(fo, 'Header')
    yield fo, hd
    for nm in ('CreateFileHistory', 'CreateAttachment', 'CreateEvent', 'CreateChannelHierarchy'): yield hd, T.m(hd, nm)
    dg = T.m(hd, 'CreateDataGroup'); yield hd, dg
    cg = T.m(dg, 'CreateChannelGroup'); yield dg, cg
    yield cg, T.m(cg, 'CreateSourceInformation')
    cn = T.m(cg, 'CreateChannel'); yield cg, cn
    yield cn, T.m(cn, 'CreateSourceInformation')
    cc = T.m(cn, 'CreateChannelConversion'); yield cn, cc
    yield cc, T.m(cc, 'CreateInverse')


def objects3(T):
    fo = T.fo = T.I.new('mdf::detail::Mdf3File')
    hd = T.m(fo, 'Header')
    yield fo, hd
    dg = T.m(hd, 'CreateDataGroup'); yield hd, dg
    cg = T.m(dg, 'CreateChannelGroup'); yield dg, cg
    cn = T.m(cg, 'CreateChannel'); yield cg, cn
    yield cn, T.m(cn, 'CreateChannelConversion')


def get(T, o, g):
    r = T.I.call(g, Cell(o), [])
    return r.v if isinstance(r, Cell) else r


def run(db, R):
    nobj = 0
    for ver, make in ((4, objects4), (3, objects3)):
        probe = Tree(db, 'texts')
        try: count = len(list(make(probe)))
        except (Stuck, CThrow) as e: raise AnalysisError('blocks of MDF %d cannot be made: %s' % (ver, e))
        for k in range(count):
            T = Tree(db, 'texts')
            o = list(make(T))[k][1]
            if not isinstance(o, Obj): raise AnalysisError('a block cannot be made')
            c = o.cls
            props = texts(db, c)
            linked = lambda a, b: any(a in l and b in l for x in [c] + list(db.bases(c)) for l in LINKED.get(x, ()))
            now = {}
            dead = set()
            nobj += 1
            for rnd in ('first', 'second'):
                for n, s, g in (props if rnd == 'first' else props[::-1]):
                    if n in dead: continue
                    v = sample(kind(s['p'][0]['t']), n, rnd, [x[0] for x in props].index(n))
                    try:
                        T.I.call(s, Cell(o), [Cell(v)])
                        R.count('values set')
                        for m, _, g2 in props:
                            if m in dead or m != n and (m not in now or linked(n, m)): continue
                            w = v if m == n else now[m]
                            r = get(T, o, g2)
                            if isinstance(r, Opaque): dead.add(m); continue
                            R.count('values observed')
                            if same(r, w): continue
                            if m == n: R.violate('acc.text', '%s::%s' % (c, n), (s['file'], s['line']), 'after %s::%s(%s) %s() returns %s' % (short(c), n, txt(v), n, txt(r)))
                            else: R.violate('acc.text', '%s::%s/%s' % (c, n, m), (s['file'], s['line']), 'setting %s::%s changes %s(): it returns %s instead of %s' % (short(c), n, m, txt(r), txt(w)))
                            dead.add(m)
                        now = {m: x for m, x in now.items() if not linked(n, m)}
                        now[n] = v
                        R.analysed(s)
                    except Stuck as e:
                        dead.add(n); R.count('values left open'); R.notes.append('open: %s::%s %s' % (short(c), n, e))
                    except CThrow as e:
                        dead.add(n); R.violate('acc.text', '%s::%s' % (c, n), (s['file'], s['line']), 'setting %s::%s fails (%s)' % (short(c), n, e.t))
    R.count('objects with values', nobj)
