"""P: reader and writer of every block type use the specified field sequence."""
import re
from .. import sym, layout
from ..facts import AnalysisError
from ..sym import fand, f_or, fnot
from .layout_spec import SPEC3, SPEC4, LINKS3

TY = {'unsigned char': 'u8', 'unsigned short': 'u16', 'unsigned int': 'u32', 'unsigned long': 'u64', 'unsigned long long': 'u64',
      'signed char': 'i8', 'char': 'i8', 'short': 'i16', 'int': 'i32', 'long': 'i64', 'long long': 'i64', 'float': 'f32', 'double': 'f64', 'bool16': 'bool16'}
WIDTH = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'bool16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'u64': 8, 'i64': 8, 'f64': 8}


def nnf_project(f, keep, neg=False):
    """over-approximate: drop literals that are not about layout-selecting fields"""
    k = f[0]
    if k == 'T': return ('F',) if neg else f
    if k == 'F': return ('T',) if neg else f
    if k == 'A':
        if not keep(f[1]):
            return ('T',)
        return ('not', f) if neg else f
    if k == 'not': return nnf_project(f[1], keep, not neg)
    a, b = nnf_project(f[1], keep, neg), nnf_project(f[2], keep, neg)
    if (k == 'and') != neg:
        return fand(a, b)
    return f_or(a, b)


def tok_type(t, resolve_pad=True):
    """(kind, width or None, key)"""
    if t.kind == 'num':
        ty = TY.get(t.typ, t.typ)
        w = WIDTH.get(ty)
        key = t.key
        if (key.startswith('=') or key.startswith('$')) and w:
            return ('pad', w, key, ty)
        return (ty, w, key, ty)
    if t.kind == 'pad':
        m = re.match(r'=(\d+)$', t.key)
        return ('pad', int(m.group(1)) if m else None, t.key, '')
    if t.kind == 'bytes':
        n = re.match(r'=(\d+)$', t.typ or '')
        if t.key.startswith('$') or t.key.startswith('='):
            w = int(n.group(1)) if n else None
            if w is None and t.arg is not None:
                w = vector_len(t.arg)
            return ('pad', w, t.key, '')
        return ('bytes', int(n.group(1)) if n else None, t.key, '')
    if t.kind == 'str':
        n = re.match(r'=(\d+)$', t.typ or '')
        return ('str', int(n.group(1)) if n else None, t.key, '')
    if t.kind == 'raw':
        return ('str', None, t.key, '')
    if t.kind == 'sub':
        return ('sub', None, t.key, '')
    return (t.kind, None, t.key, '')


def vector_len(v):
    if v[0] == 'ctor' and v[2] and v[2][0][0] == 'c':
        return v[2][0][1]
    return None


def local_sizes(tree):
    """constant sizes of local vectors / arrays: loc -> n"""
    out = {}
    for e in sym.effects(tree):
        if e.k == 'decl' and e.args and e.args[0][0] == 'c' and 'vector' in (e.name or ''):
            out[e.obj] = e.args[0][1]
        if e.k == 'call' and e.name.endswith('::resize') and e.obj is not None and e.args and e.args[0][0] == 'c':
            out[e.obj] = e.args[0][1]
    return out


def loop_bound(loop, tree_sets):
    """canonical names of the element count of a loop"""
    names = set()
    if loop.get('range') is not None:
        names.add('size(%s)' % layout.field_key(loop['range']))
        for e in tree_sets:
            if e.k == 'call' and e.name.endswith('::resize') and e.obj == loop['range'] and e.args:
                names.add(layout.field_key(e.args[0]))
    c = loop.get('cond')
    if c is not None:
        for x in sym.find_all(c, lambda y: y[0] == 'op' and y[1] in ('<', '!=', '>', '<=', '>=')):
            for s in (x[2], x[3]):
                if not sym.contains(s, lambda y: y[0] == 'lv'):
                    names.add(layout.field_key(s))
    return names


def relevant(toks, direction):
    """tokens of the block's own body: from the header to the first time the
    stream is repositioned to a child"""
    out = []
    started = False
    stray = []
    for t in toks:
        if t.kind == 'hdr':
            started = True
            continue
        if t.kind in ('end',):
            break
        if t.kind == 'seek':
            if started and out:
                started = 'moved'
            continue
        if started == 'moved':
            stray.append(t)
            continue
        out.append(t)
    return out, stray


def check(db, rep, which):
    spec = SPEC4 if which == 4 else SPEC3
    P = 'mdf::detail::'
    for cls, fields in spec.items():
        q = P + cls
        if q not in db.classes:
            raise AnalysisError('block class %s not found' % cls)
        sides = []
        for meth, d in (('Write', 'w'), ('Read', 'r')):
            ids = [f for f in db.own_method(q, meth) if len(f['p']) == 1]
            if not ids:
                continue
            sides.append(d)
            rep.analysed(ids[0])
            check_side(db, rep, cls, q, ids, meth, d, fields)
        need = {'Ld4Block': 'r', 'Sr4Block': 'r', 'Cd3Block': 'r', 'Ce3Block': 'r', 'Di4Block': 'r', 'Dv4Block': 'r', 'Rd4Block': 'r', 'Ri4Block': 'r', 'Rv4Block': 'r'}.get(cls, 'wr')
        for n in need:
            if n not in sides:
                rep.violate('layout.missing', cls + '.' + n, (db.classes[q]['file'], db.classes[q]['line']),
                            '%s has no %s for its block body any more' % (cls, 'reader' if n == 'r' else 'writer'))
    # every instantiation of the number primitives is for a fixed-width scalar
    for f in db.funcs.values():
        m = re.search(r'::(ReadNumber|WriteNumber)$', f['n'])
        if m and f.get('ta'):
            rep.count('number_primitive_instantiations')
            t = f['ta'][-1]
            if t not in TY and t not in db.enums:
                rep.violate('layout.scalar', m.group(1) + '<' + t + '>', (f['file'], f['line']),
                            '%s instantiated for non-scalar type %s: the bytes on disk are the object representation' % (m.group(1), t))


def scenarios(fields, tree):
    """assignments of the layout-selecting members: every subset of the flag
    bits / every code the specification or the code distinguishes"""
    bits, codes = {}, {}
    for f in fields:
        if not f['g'] or f['g'] == 'any':
            continue
        for part in f['g'].split(' && '):
            part = part.strip().lstrip('!(').rstrip(')')
            m = re.match(r'(\w+) & (\d+)$', part)
            if m:
                bits.setdefault(m.group(1), set()).add(int(m.group(2)))
            else:
                m = re.match(r'(\w+) == ([\d|]+)$', part)
                codes.setdefault(m.group(1), set()).update(int(x) for x in m.group(2).split('|'))
    for n in sym.walk(tree):
        if n[0] == 'switch':
            sel = sym.strip(n[1])
            if sel[0] == 'fld' and sel[1] == ('this',) and sel[2] in codes:
                codes[sel[2]].update(l for g in n[2] for l in g[0] if isinstance(l, int))
    out = [{}]
    for m, bs in bits.items():
        nxt = []
        bs = sorted(bs)
        for k in range(1 << len(bs)):
            v = sum(b for i, b in enumerate(bs) if k >> i & 1)
            for o in out:
                nxt.append(dict(o, **{m: v}))
        out = nxt
    for m, cs in codes.items():
        vals = sorted(cs | {251})
        out = [dict(o, **{m: v}) for o in out for v in vals]
    return out


def guard_holds(g, sc):
    if not g or g == 'any':
        return True
    for part in g.split(' && '):
        part = part.strip()
        neg = part.startswith('!(')
        if neg:
            part = part[2:-1]
        m = re.match(r'(\w+) & (\d+)$', part)
        if m:
            v = bool(sc[m.group(1)] & int(m.group(2)))
        else:
            m = re.match(r'(\w+) == ([\d|]+)$', part)
            v = sc[m.group(1)] in [int(x) for x in m.group(2).split('|')]
        if v == neg:
            return False
    return True


LEN = re.compile(r'^(block_length_|block_size_|nof_\w+|dimensions_|\w*data_length_)$')


def cond_allowed(atom, t, d):
    """conditions a field may legitimately depend on: the block being long
    enough (reader), or the field's own list / buffer being non-empty"""
    vals = [x for x in atom[1:] if isinstance(x, tuple)]
    names = set()
    opaque = False
    for v in vals:
        names |= {x[2] for x in sym.find_all(v, lambda y: y[0] == 'fld')}
        if sym.contains(v, lambda y: y[0] in ('opq', 'loc', 'lv') or y[0] == 'call' and re.search(r'::(ReadNumber|ReadStr|ReadByte|ReadHeader\d|ReadBool|ReadLinks3|WriteNumber|WriteStr|GetFilePosition)$', y[1])):
            opaque = True
    root = t.key.split('[')[0].split('.')[0]
    if d == 'r':
        return bool(names & {'block_length_', 'block_size_'}) or (all(LEN.match(n) for n in names) and (names or opaque)) or root in names or opaque
    if t.loops or t.kind in ('bytes', 'raw', 'str'):
        return bool(names) and all(LEN.match(n) or n == root for n in names)
    return False


def check_side(db, rep, cls, q, fs, meth, d, fields):
    from ..spec import specialise
    tree0 = layout.summary(db, q, fs[0])
    effs = list(sym.effects(tree0))
    dest = layout.destinations(tree0)
    sizes = local_sizes(tree0)
    name = '%s::%s' % (cls, meth)
    fields = [f for f in fields if f['only'] in (None, d)]
    scs = scenarios(fields, tree0)
    rep.count('fields_checked_' + ('write' if d == 'w' else 'read'), len(fields))
    for sc in scs:
        rep.count('layout_configurations')
        m = {('fld', ('this',), k): ('c', v) for k, v in sc.items()}
        if d == 'w':
            m[('fld', ('this',), 'file_position_')] = ('c', 64 if cls == 'IdBlock' else 0)
        tree = specialise(tree0, m)
        toks = layout.sequence(db, tree, d, dest)
        want = [f for f in fields if guard_holds(f['g'], sc)]
        n0 = len(rep.viol)
        check_seq(db, rep, cls, name, fs, d, want, toks, effs, sizes, sc)
        if len(rep.viol) > n0:
            break
    if which3(cls):
        for e in effs:
            if e.k == 'call' and e.name.endswith('::ReadLinks3'):
                n = re.match(r'=(\d+)', layout.field_key(e.args[-1]))
                if n and int(n.group(1)) != LINKS3.get(cls, 0):
                    rep.violate('layout.links', name, e.loc, '%s reads %s link slots, the block has %d' % (name, n.group(1), LINKS3.get(cls, 0)))
    rep.sample('%s: %s (%d configuration(s))' % (name, ', '.join('%s %s' % (f['t'], f['m']) for f in fields)[:300], len(scs)))


def show_sc(sc):
    return '' if not sc else ' (when %s)' % ', '.join('%s=%s' % kv for kv in sorted(sc.items()))


def check_seq(db, rep, cls, name, fs, d, want, toks, effs, sizes, sc):
    loc0 = (fs[0]['file'], fs[0]['line'])
    if not any(t.kind == 'hdr' for t in toks):
        toks.insert(0, layout.Tok('hdr', '', '', ('T',), (), None))
        toks[0].conds = ()
    if cls == 'IdBlock' and d == 'r':
        for t in toks:
            if t.kind == 'seek':
                t.kind = 'hdr'
    seq, stray = relevant(toks, d)
    seq = [t for t in seq if not (t.kind == 'sub' and not re.match(r'timestamp_', t.key))]
    seq = [t for t in seq if not (t.kind == 'str' and t.key.startswith('$type_mdf'))]
    verb = 'written' if d == 'w' else 'read'
    i = 0
    last = None
    for fi, f in enumerate(want):
        run, j, padacc = [], i, 0
        # a list of (a, b) records: the same loop carries several list fields
        while j < len(seq):
            t = seq[j]
            k = tok_type(t)
            w = k[1]
            if k[0] == 'pad' and w is None and t.arg is not None:
                w = sizes.get(sym.strip(t.arg))
            if not matches(f, k, w, t, padacc):
                break
            if run and f['m'] != '-' and not excl(run, t) and not (f['loop'] and t.loops and run[-1].loops and t.loops[-1]['id'] == run[-1].loops[-1]['id']):
                break
            run.append(t)
            j += 1
            if f['m'] == '-':
                padacc += w
                if padacc >= int(f['t']):
                    break
        if not run and f['g'] == 'any':
            continue
        if f['m'] == '-' and padacc != int(f['t']) or not run:
            got = seq[i] if i < len(seq) else None
            at = got.eff.loc if got is not None and got.eff is not None else (last.eff.loc if last is not None else loc0)
            if got is None and stray and matches(f, tok_type(stray[0]), tok_type(stray[0])[1], stray[0], 0):
                rep.violate('layout.position', '%s/%s' % (name, f['m']), stray[0].eff.loc,
                            '%s: field %s is %s after the stream was repositioned to another block' % (name, f['m'], verb))
                return
            rep.violate('layout.field', '%s/%s' % (name, f['m'] if f['m'] != '-' else 'reserved@%d' % fi), at,
                        '%s: expected field #%d %s of type %s, found %s%s' % (name, fi, f['m'], f['t'], describe(got), show_sc(sc)))
            return
        last = run[-1]
        # the field is there on every path
        g = ('F',)
        for t in run:
            c = ('T',)
            for x in t.conds:
                c = fand(c, nnf_project(x, lambda a: not cond_allowed(a, t, d)))
            g = f_or(g, c)
        if sym.implies(('T',), g) is False:
            rep.violate('layout.guard', '%s/%s' % (name, f['m']), run[0].eff.loc,
                        '%s: field %s is %s only when "%s"%s' % (name, f['m'], verb, sym.fshow(g), show_sc(sc)))
        for t in run:
            if f['loop'] is None:
                if t.loops:
                    rep.violate('layout.repeat', '%s/%s' % (name, f['m']), t.eff.loc, '%s: single field %s is processed repeatedly' % (name, f['m']))
            elif not t.loops:
                rep.violate('layout.repeat', '%s/%s' % (name, f['m']), t.eff.loc, '%s: list field %s is processed only once' % (name, f['m']))
            elif f['loop'] != 'any':
                b = loop_bound(t.loops[-1], effs)
                if b and not (b & set(f['loop'])):
                    rep.violate('layout.count', '%s/%s' % (name, f['m']), t.eff.loc,
                                '%s: list field %s is processed %s times, the layout stores %s entries' % (name, f['m'], '/'.join(sorted(b)), '/'.join(f['loop'])))
        i = j
    for t in seq[i:]:
        k = tok_type(t)
        if (k[0] == 'pad' or t.key.startswith('$')) and d == 'r':
            continue    # reader may skip trailing bytes
        if t.kind == 'raw' or t.kind == 'sub':
            continue
        rep.violate('layout.extra', '%s/%s' % (name, t.key), t.eff.loc, '%s: unexpected extra field %s%s' % (name, describe(t), show_sc(sc)))
        return


def excl(run, t):
    """t is an alternative of the tokens already matched"""
    g = ('T',)
    for c in t.conds:
        g = fand(g, c)
    for x in run:
        h = ('T',)
        for c in x.conds:
            h = fand(h, c)
        if sym.implies(fand(g, h), ('F',)) is not True:
            return False
    return True


def which3(cls):
    return cls in LINKS3


def matches(f, k, w, t, padacc):
    kind, width, key, ty = k
    if f['m'] == '-':
        return kind == 'pad' and w is not None and padacc + w <= int(f['t']) and not t.loops
    ft = f['t']
    keys = set(f['m'].split('|'))
    tk = set(key.split('|'))
    def keyok():
        return '*' in keys or bool(tk & keys) or any(x.startswith('get(') and x[4:-1] in keys for x in tk)
    if ft == 'sub':
        return kind == 'sub' and keyok()
    if ft.startswith('bytes'):
        n = ft[5:]
        if kind == 'bytes' and keyok():
            return n == '*' or width is None or str(width) == n
        return kind == 'pad' and n != '*' and w is not None and str(w) == n
    if ft.startswith('str'):
        n = ft[3:]
        return kind == 'str' and keyok() and (n == '*' or str(width) == n)
    if ft == 'num8':
        if kind == 'pad':
            return w == 8
        return kind in ('f64', 'u64', 'i64') and keyok()
    if kind == 'pad' and '*' in keys:
        return WIDTH.get(ft) == w
    return kind == ft and keyok()


def describe(t):
    if t is None:
        return 'the end of the block body'
    k = tok_type(t)
    return '%s %s' % (TY.get(t.typ, t.typ) if t.kind == 'num' else t.kind, t.key)
