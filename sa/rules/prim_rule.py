"""The shared block primitives: header, in-place patches, child lists."""
import re
from .. import sym, layout, linear, spec
from ..facts import AnalysisError
from ..sym import fand, f_or, fnot, strip, truth

P = 'mdf::detail::MdfBlock::'
KEEP = re.compile(r'::(IsMdf4|IsBigEndian|WriteNumber|ReadNumber|WriteStr|ReadStr|WriteByte|WriteBytes|ReadByte|SetFilePosition|GetFilePosition|GetLastFilePosition|'
                  r'SetFirstFilePosition|SetLastFilePosition|StepFilePosition|UpdateLink|UpdateBlockSize|Write|Read|Text|Link|Init)$')


def funcs(db, name):
    out = [db.funcs[i] for i in db.by_name.get(name, []) if 'FILE' not in i]
    if not out:
        raise AnalysisError('anchor function %s not found' % name)
    return out


def events(db, f, keep=KEEP):
    e = sym.Engine(db, lambda fid, g, d: not keep.search(g['n']) and 'Log' not in g['n'])
    t = e.summarize(f)
    return t, [x for x in layout.flatten(t)[0] if x[0].k in ('call', 'set')], e


def nm(e):
    return (e.name or '').split('::')[-1]


def eq(v, want):
    """linear equality"""
    return linear.Cmp({}).equal(strip(v), want) is True


def add(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = sym.mkop('+', r, x)
    return r


FP = ('fld', ('this',), 'file_position_')
LL = ('fld', ('this',), 'link_list_')
ISM4 = lambda v: v[0] == 'call' and v[1].endswith('::IsMdf4')


def bad(rep, key, loc, msg):
    rep.violate('prim', key, loc, msg)


def under(tree, m):
    return spec.specialise(tree, m)


def ism4_map(tree, val):
    """bind every IsMdf4() test"""
    m = {}
    for n in sym.walk(tree):
        if n[0] in ('if', 'switch'):
            for x in sym.find_all(n[1], ISM4):
                m[x] = ('c', val)
    for e in sym.effects(tree):
        for v in list(e.args) + [e.val, e.obj]:
            if isinstance(v, tuple):
                for x in sym.find_all(v, ISM4):
                    m[x] = ('c', val)
    return m


def flat(db, f, val):
    t, _, eng = events(db, f)
    m = ism4_map(t, val)
    t2 = spec.specialise(t, m, m)
    return [x for x in layout.flatten(t2)[0] if x[0].k in ('call', 'set')], t2


def width(e, db):
    from .layout_rule import TY, WIDTH
    return WIDTH.get(TY.get(layout.numtype(e, db)))


def check_patches(db, rep):
    """UpdateLink / UpdateBlockSize write the right bytes and remember them"""
    for name, slot, what in (('UpdateLink', True, 'link'), ('UpdateBlockSize', False, 'length')):
        for f in funcs(db, P + name):
            rep.analysed(f)
            loc = (f['file'], f['line'])
            pv = [('parm', p.get('name') or p['n']) for p in f['p']]
            for v4 in (1, 0):
                rep.count('patch_variants')
                evs, _ = flat(db, f, v4)
                tag = '%s (MDF %d)' % (name, 4 if v4 else 3)
                seek, wr = None, []
                for e, g, l in evs:
                    if nm(e) == 'SetFilePosition':
                        seek = (e, g)
                    elif nm(e) in ('WriteNumber', 'WriteStr', 'sputn'):
                        wr.append((e, g, seek)); seek = None
                if len(wr) != 1:
                    bad(rep, tag, loc, '%s performs %d writes, expected exactly one' % (tag, len(wr)))
                    continue
                e, g, sk = wr[0]
                if slot:
                    want = add(FP, sym.mkop('*', pv[1], ('c', 8 if v4 else 4)), ('c', 24 if v4 else 4))
                    w = 8 if v4 else 4
                    val_ok = strip(e.args[1]) == pv[2]
                else:
                    want = add(FP, ('c', 8 if v4 else 2))
                    w = 8 if v4 else 2
                    fld = ('fld', ('this',), 'block_length_' if v4 else 'block_size_')
                    val_ok = strip(e.args[1]) in (fld, pv[1])
                    st = [x for x in evs if x[0].k == 'set' and x[0].obj == fld and strip(x[0].val) == pv[1]]
                    if not st and strip(e.args[1]) == fld:
                        bad(rep, tag + '/value', e.loc, '%s writes the old %s' % (tag, fld[2]))
                if sk is None or not eq(sk[0].args[1], want):
                    bad(rep, tag + '/position', e.loc, '%s writes at %s, the field is at %s' % (tag, sym.show(sk[0].args[1]) if sk else 'the current position', sym.show(want)))
                if width(e, db) != w:
                    bad(rep, tag + '/width', e.loc, '%s writes %s bytes, the field has %d' % (tag, width(e, db), w))
                if not val_ok:
                    bad(rep, tag + '/value', e.loc, '%s does not write the new %s' % (tag, what))
                # no further condition than "on file" and "changed"
                for a in sym.atoms(g):
                    ok = sym.contains(a, lambda y: y == FP) or sym.contains(a, lambda y: y == LL) or \
                        sym.contains(a, lambda y: isinstance(y, tuple) and y[:1] == ('fld',) and y[2:3] in (('block_length_',), ('block_size_',)))
                    if not ok:
                        bad(rep, tag + '/condition', e.loc, '%s depends on an unrelated condition %s' % (tag, sym.fshow(('A', a))))
                if slot:
                    st = [x for x in evs if x[0].k == 'set' and x[0].obj == ('at', LL, pv[1]) and strip(x[0].val) == pv[2]]
                    if not st:
                        bad(rep, tag + '/remember', loc, '%s does not remember the new link' % tag)
                    elif sym.implies(g, f_or_all([x[1] for x in st])) is False or not any(sym.implies(fand(fnot_fp(), drop_fp(x[1])), x[1]) is not False for x in st):
                        bad(rep, tag + '/remember', st[0][0].loc, '%s remembers the new link only on some paths' % tag)


def f_or_all(gs):
    r = ('F',)
    for g in gs:
        r = f_or(r, g)
    return r


def fnot_fp():
    return ('T',)


def drop_fp(g):
    from .layout_rule import nnf_project
    return nnf_project(g, lambda a: not sym.contains(a, lambda y: y == FP))


HDR4 = [('str', 4, 'block_type_'), ('pad', 4, None), ('num', 8, 'block_length_'), ('num', 8, 'count'), ('loop', 8, 'link')]
HDR3 = [('str', 2, 'block_type_'), ('num', 2, 'block_size_'), ('loop', 4, 'link')]


def check_header(db, rep):
    """block header: order and width, position at the (aligned) end of the file"""
    from .layout_rule import TY, WIDTH, local_sizes
    for f in funcs(db, P + 'Write'):
        rep.analysed(f)
        for v4 in (1, 0):
            evs, t2 = flat(db, f, v4)
            tag = 'block header writer (MDF %d)' % (4 if v4 else 3)
            sizes = local_sizes(t2)
            toks = []
            order = []
            for e, g, l in evs:
                n = nm(e)
                if n == 'SetLastFilePosition':
                    order.append('end')
                elif e.k == 'set' and e.obj == FP:
                    order.append('pos')
                    if not (e.val[0] == 'call' and e.val[1].endswith('GetFilePosition') or sym.contains(e.val, lambda y: y[0] == 'call' and y[1].endswith('pubseekoff'))):
                        bad(rep, tag + '/position', e.loc, '%s does not remember the position of the block' % tag)
                elif n == 'WriteStr':
                    toks.append(('str', strip(e.args[2])[1] if strip(e.args[2])[0] == 'c' else None, layout.field_key(e.args[1]), e)); order.append('w')
                elif n in ('WriteBytes',):
                    toks.append(('pad', strip(e.args[1])[1], None, e)); order.append('w')
                elif n == 'WriteByte':
                    toks.append(('pad', sizes.get(strip(e.args[1])), None, e)); order.append('w')
                elif n == 'WriteNumber':
                    k = layout.field_key(e.args[1])
                    if l:
                        toks.append(('loop', width(e, db), 'link' if re.match(r'link_list_\[\*\]$', k) else k, e))
                    elif strip(e.args[1])[0] == 'c':
                        toks.append(('pad', width(e, db), None, e))
                    else:
                        toks.append(('num', width(e, db), 'count' if k in ('size(link_list_)', 'link_count_') else k, e))
                    order.append('w')
            got = [t[:3] for t in toks]
            want = HDR4 if v4 else HDR3
            rep.count('header_fields', len(want))
            if got != want:
                i = next((i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i]), 0)
                bad(rep, tag, toks[min(i, len(toks) - 1)][3].loc if toks else (f['file'], f['line']),
                    '%s: field #%d is %s, the format has %s' % (tag, i, got[i] if i < len(got) else 'missing', want[i] if i < len(want) else 'nothing'))
            if order[:2] != ['end', 'pos']:
                bad(rep, tag + '/order', (f['file'], f['line']), '%s must move to the aligned end of the file and remember that position before it writes' % tag)
    for name, want, links in (('ReadHeader4', [('str', 4, 'block_type_'), ('pad', 4, None), ('num', 8, 'block_length_'), ('num', 8, 'count'), ('loop', 8, 'link')], None),
                              ('ReadHeader3', [('str', 2, 'block_type_'), ('num', 2, 'block_size_')], None),
                              ('ReadLinks3', [('loop', 4, 'link')], 1)):
        for f in funcs(db, P + name):
            rep.analysed(f)
            t, evs, eng = events(db, f)
            pushed = {strip(e.args[0]) for e, g, l in evs if nm(e) in ('emplace_back', 'push_back') and e.obj == LL and e.args}
            stored = {strip(e.val): e.obj for e, g, l in evs if e.k == 'set' and e.obj and e.obj[0] == 'at' and e.obj[1] == LL}
            toks = []
            for e, g, l in evs:
                n = nm(e)
                if n == 'ReadStr':
                    toks.append(('str', strip(e.args[2])[1] if strip(e.args[2])[0] == 'c' else None, layout.field_key(e.args[1]), e))
                elif n in ('StepFilePosition', ):
                    toks.append(('pad', strip(e.args[1])[1] if strip(e.args[1])[0] == 'c' else None, None, e))
                elif n == 'ReadByte':
                    toks.append(('pad', strip(e.args[2])[1] if strip(e.args[2])[0] == 'c' else None, None, e))
                elif n == 'ReadNumber':
                    a = strip(e.args[1])
                    k = layout.field_key(a)
                    if l:
                        ok = a in pushed or a in stored or k == 'link_list_[*]'
                        toks.append(('loop', width(e, db), 'link' if ok else k, e))
                        b = bound(l[-1])
                        if not b & {'link_count_', 'nof_links', 'size(link_list_)'} and b:
                            bad(rep, name + '/count', e.loc, '%s reads %s link slots' % (name, '/'.join(b)))
                    elif a[0] == 'loc' and not any(sym.contains(x[0].val, lambda y: y == a) for x in evs if x[0].k == 'set' and x[0].val is not None):
                        toks.append(('pad', width(e, db), None, e))
                    else:
                        toks.append(('num', width(e, db), 'count' if k in ('link_count_',) else k, e))
            got = [x[:3] for x in toks]
            rep.count('header_fields', len(want))
            if got != want:
                i = next((i for i in range(max(len(got), len(want))) if i >= len(got) or i >= len(want) or got[i] != want[i]), 0)
                bad(rep, name, toks[min(i, len(toks) - 1)][3].loc if toks else (f['file'], f['line']),
                    '%s: field #%d is %s, the format has %s' % (name, i, got[i] if i < len(got) else 'missing', want[i] if i < len(want) else 'nothing'))
            if name != 'ReadLinks3' and not any(e.k == 'set' and e.obj == FP for e, g, l in evs):
                bad(rep, name + '/position', (f['file'], f['line']), '%s does not remember the position of the block' % name)
            if links or name == 'ReadHeader4':
                clr = [i for i, (e, g, l) in enumerate(evs) if nm(e) in ('clear', 'resize', 'assign') and e.obj == LL or e.k == 'set' and e.obj == LL]
                rd = [i for i, (e, g, l) in enumerate(evs) if nm(e) == 'ReadNumber' and l]
                if rd and not (clr and clr[0] < rd[0]):
                    bad(rep, name + '/stale', (f['file'], f['line']), '%s appends to the links of an earlier read' % name)


def bound(lp):
    from .layout_rule import loop_bound
    return loop_bound(lp, ())


def check_align(db, rep):
    """the end position is a multiple of eight in MDF 4"""
    for f in funcs(db, P + 'SetLastFilePosition'):
        rep.analysed(f)
        rep.count('alignment_functions')
        t, evs, eng = events(db, f)
        loc = (f['file'], f['line'])
        if not any(nm(e) == 'pubseekoff' and len(e.args) >= 2 and strip(e.args[1]) == ('c', 2) or nm(e) == 'GetLastFilePosition' for e, g, l in evs):
            bad(rep, 'SetLastFilePosition/end', loc, 'the stream is not positioned at its end before a block is appended')
        mods = set()
        def look(v):
            for x in sym.find_all(v, lambda y: y[0] == 'op' and y[1] in ('%', '&') and y[3][0] == 'c'):
                mods.add((x[1], x[3][1]))
        for n in sym.walk(t):
            if n[0] == 'if':
                look(strip(n[1]))
            elif n[0] == 'loop':
                for v in list((n[1].get('end') or {}).values()) + [n[1].get('cond')] + list((n[1].get('before') or {}).values()):
                    if isinstance(v, tuple):
                        look(strip(v))
        for e in sym.effects(t):
            for v in list(e.args) + [e.val]:
                if isinstance(v, tuple):
                    look(strip(v))
        wr = [(e, g, l) for e, g, l in evs if nm(e) in ('sputc', 'sputn', 'WriteBytes', 'WriteByte')]
        if not wr:
            bad(rep, 'SetLastFilePosition/fill', loc, 'MDF 4 blocks are appended without alignment fill')
            continue
        if not (mods & {('%', 8), ('&', 7)}):
            bad(rep, 'SetLastFilePosition/modulus', wr[0][0].loc, 'the fill does not align to a multiple of 8 (%s)' % mods)
        for e, g, l in wr:
            if sym.implies(g, ('A', ('tr',))) is None:
                pass
            at = [a for a in sym.atoms(g) if sym.contains(a, lambda y: isinstance(y, tuple) and y[:1] == ('call',) and ISM4(y))]
            if not at:
                bad(rep, 'SetLastFilePosition/mdf3', e.loc, 'the fill is not restricted to MDF 4 files')
            elif all(sym.implies(g, ('A', a)) is False for a in at):
                bad(rep, 'SetLastFilePosition/mdf4', e.loc, 'the fill is not applied to MDF 4 files')
            if nm(e) == 'sputc' and strip(e.args[0]) not in (('c', 0), ('c', '\0')):
                bad(rep, 'SetLastFilePosition/byte', e.loc, 'the fill byte is not zero')


def check_positions(db, rep):
    """every in-place update hits the field whose position was recorded"""
    from .layout_rule import TY
    pos = {}     # (class, member) -> set of (key, type)
    uses = []
    for f in db.funcs.values():
        c = f.get('cls')
        if not c or not c.startswith('mdf::detail::') or not f['file'].startswith('mdflib/') or 'FILE' in f['id']:
            continue
        if f['n'].startswith(P) and f['n'].split('::')[-1] in ('UpdateLink', 'UpdateBlockSize', 'Write', 'Update') or f['n'] == 'mdf::detail::IdBlock::Write':
            continue
        if not any(x in repr_calls(f) for x in ('GetFilePosition', 'SetFilePosition', 'SetFirstFilePosition')):
            continue
        t, evs, eng = events(db, f)
        pending, seek = None, None
        for e, g, l in evs:
            n = nm(e)
            if e.k == 'set' and e.obj is not None and e.obj[0] == 'fld' and e.obj[1] == ('this',) and e.val is not None and e.val[0] == 'call' and e.val[1].endswith('::GetFilePosition'):
                pending = (e.obj[2], g)
            elif n in ('WriteNumber', 'WriteStr', 'WriteByte'):
                key = (layout.field_key(e.args[1]), TY.get(layout.numtype(e, db)) if n == 'WriteNumber' else n)
                if pending and not (n == 'WriteByte' and key[0].startswith('$')):
                    pos.setdefault((c, pending[0]), []).append((key, e.loc, f)); pending = None
                if seek is not None:
                    uses.append((c, seek[0], key, seek[1], e.loc, f)); seek = (('after', seek[0], key), seek[1])
            elif n == 'SetFilePosition' and len(e.args) > 1:
                seek = (strip(e.args[1]), e.loc)
                if pending and sym.implies(fand(pending[1], g), ('F',)) is not True:
                    pending = None
            elif n == 'SetFirstFilePosition':
                seek = (('c', 0), e.loc)
            elif n in ('Read', 'Write', 'ReadNumber', 'ReadStr', 'SetLastFilePosition'):
                seek = None
                if n != 'Write' or e.obj is not None:
                    pending = None
    from .layout_spec import SPEC4
    for c, where, key, _, loc, f in uses:
        rep.analysed(f)
        short = '::'.join(f['n'].split('::')[-2:])
        if where[0] == 'fld' and where[1] == ('this',):
            rep.count('position_patches')
            rec = pos.get((c, where[2]))
            if not rec:
                bad(rep, '%s/%s' % (short, where[2]), loc, '%s updates %s at %s, which is never recorded while writing' % (short, key[0], where[2]))
                continue
            for k2, l2, f2 in rec:
                if k2 != key:
                    bad(rep, '%s/%s' % (short, where[2]), loc, '%s updates %s (%s) at the recorded position of %s (%s)' % (short, key[0], key[1], k2[0], k2[1]))
        else:
            off = where
            prev = []
            while off[0] == 'after':
                prev.append(off[2]); off = off[1]
            if off[0] == 'c' and c.endswith('IdBlock'):
                rep.count('position_patches')
                o = off[1] + sum(wid(k) or 0 for k in prev)
                fo, have = 0, None
                for fl in SPEC4['IdBlock']:
                    if fo == o:
                        have = fl
                    m = re.match(r'[a-z]+(\d+)$', str(fl['t']))
                    fo += int(fl['t']) if fl['m'] == '-' else (int(m.group(1)) if fl['t'].startswith('str') else int(m.group(1)) // 8)
                if have is None or have['m'] != key[0]:
                    bad(rep, '%s@%d' % (short, o), loc, '%s writes %s at offset %d, which holds %s' % (short, key[0], o, have['m'] if have else 'nothing'))


def wid(k):
    from .layout_rule import WIDTH
    if k[1] == 'WriteStr':
        return 8
    return WIDTH.get(k[1])


def repr_calls(f):
    c = f.get('_calls')
    if c is None:
        from .size_rule import calls_in
        c = {x['f'].split('(')[0].split('<')[0].split('::')[-1] for x in calls_in(f.get('body'))}
        f['_calls'] = c
    return c


def check_children(db, rep):
    """WriteTx4 / WriteBlock4 / WriteMdComment / WriteLink4List store what they write;
    ReadTx4 / ReadMdComment / ReadLink4List read what the link refers to"""
    for name in ('WriteTx4', 'WriteBlock4', 'WriteMdComment', 'WriteLink4List'):
        for f in funcs(db, P + name):
            rep.analysed(f)
            rep.count('child_primitives')
            t, evs, eng = events(db, f)
            loc = (f['file'], f['line'])
            pv = [('parm', p.get('name') or p['n']) for p in f['p']]
            slot = next((v for v, p in zip(pv, f['p']) if p['t'] in ('unsigned long', 'size_t', 'const unsigned long')), None)
            wr = [(e, g, l) for e, g, l in evs if nm(e) == 'Write']
            up = [(e, g, l) for e, g, l in evs if nm(e) == 'UpdateLink']
            if len(wr) < 1:
                bad(rep, name + '/write', loc, '%s no longer writes the child block' % name)
                continue
            child = strip(wr[0][0].obj)
            own = [x for x in up if x[0].obj == ('this',)]
            prev = [x for x in up if x[0].obj != ('this',)]
            if not own:
                bad(rep, name + '/link', wr[0][0].loc, '%s does not store the position of the child in the parent' % name)
                continue
            for e, g, l in own:
                if strip(e.args[1]) != slot:
                    bad(rep, name + '/slot', e.loc, '%s stores the child in slot %s, not in the requested one' % (name, sym.show(e.args[1])))
            for e, g, l in up:
                if strip(e.args[2]) != ('fld', child, 'file_position_'):
                    bad(rep, name + '/position', e.loc, '%s stores %s, not the position of the block just written' % (name, sym.show(e.args[2])))
                if evs.index((e, g, l)) < evs.index(wr[0]):
                    bad(rep, name + '/order', e.loc, '%s stores the position before the block is written' % name)
            W = wr[0][1]
            if name == 'WriteLink4List':
                i = child[2] if child[0] == 'at' else None
                idx0 = ('A', ('==',) + tuple(sorted((i, ('c', 0)), key=repr))) if i else None
                if not prev:
                    bad(rep, name + '/chain', loc, 'blocks after the first are not chained to their predecessor')
                    continue
                for e, g, l in prev:
                    o = strip(e.obj)
                    if not (o[0] == 'at' and o[1] == child[1] and eq(o[2], add(i, ('c', -1)))):
                        bad(rep, name + '/chain', e.loc, 'a block is chained to %s, not to its predecessor' % sym.show(e.obj))
                    if strip(e.args[1]) != ('c', 0):
                        bad(rep, name + '/chain-slot', e.loc, 'the next-block link is stored in slot %s, not 0' % sym.show(e.args[1]))
                for e, g, l in own:
                    from .link_rule import guard_at
                    if sym.implies(guard_at(g, i, 1), ('F',)) is False:
                        bad(rep, name + '/first', e.loc, 'the parent link is not restricted to the first block of the list')
                    elif sym.implies(guard_at(W, i, 0), guard_at(g, i, 0)) is False:
                        bad(rep, name + '/first-cond', e.loc, 'the parent link depends on a further condition')
                for e, g, l in prev:
                    if sym.implies(guard_at(W, i, 1), guard_at(g, i, 1)) is False and not all(sym.contains(a, lambda y: y[0] == 'at' and y[1] == child[1] and y[2] == ('c', 0)) for a in sym.atoms(guard_at(g, i, 1)) if a not in sym.atoms(guard_at(W, i, 1))):
                        bad(rep, name + '/chain-cond', e.loc, 'the link to the predecessor depends on a further condition')
                # unwritten blocks are always written
                fp = ('fld', child, 'file_position_')
                unwritten = fnot(sym._lt(('c', 0), fp))
                nonnull = [a for a in sym.atoms(W) if a == ('tr', child) or a == ('!=', child, ('null',)) or sym.contains(a, lambda y: y == child) and not sym.contains(a, lambda y: y == fp)]
                pre = unwritten
                for a in nonnull:
                    pre = fand(pre, fnot(('A', a)) if sym.implies(W, fnot(('A', a))) is not False else ('A', a))
                if sym.implies(pre, W) is False:
                    bad(rep, name + '/unwritten', wr[0][0].loc, 'a block that is not yet on file may be skipped (written only when %s)' % sym.fshow(W)[:200])
                for val, who in ((2, 'all'), ):
                    opt = pv[-1]
                    c = fand(('A', ('==',) + tuple(sorted((opt, ('c', val)), key=repr))), ('T',))
                    pre2 = c
                    for a in nonnull:
                        pre2 = fand(pre2, fnot(('A', a)) if sym.implies(W, fnot(('A', a))) is not False else ('A', a))
                    if sym.implies(pre2, W) is False:
                        bad(rep, name + '/update', wr[0][0].loc, 'an update of all blocks skips some')
            else:
                for e, g, l in own:
                    if sym.implies(W, g) is False:
                        bad(rep, name + '/cond', e.loc, '%s writes the child but stores its position only when %s' % (name, sym.fshow(g)))
                for a in sym.atoms(W):
                    ok = sym.contains(a, lambda y: y == child) or sym.contains(a, lambda y: isinstance(y, tuple) and y[:1] == ('call',) and y[1].endswith('::Link')) or \
                        sym.contains(a, lambda y: y == ('parm', 'text')) or any(sym.contains(a, lambda y, v=v: y == v) for v in pv[1:])
                    if not ok:
                        bad(rep, name + '/extra', wr[0][0].loc, '%s skips the child on an unrelated condition %s' % (name, sym.fshow(('A', a))))
    for name in ('ReadTx4', 'ReadTx3', 'ReadMdComment', 'ReadLink4List'):
        for f in funcs(db, P + name):
            rep.analysed(f)
            rep.count('child_primitives')
            t, evs, eng = events(db, f)
            loc = (f['file'], f['line'])
            pv = [('parm', p.get('name') or p['n']) for p in f['p']]
            slot = next((v for v, p in zip(pv, f['p']) if p['t'] in ('unsigned long', 'size_t', 'const unsigned long')), None)
            sk = [(e, g, l) for e, g, l in evs if nm(e) == 'SetFilePosition']
            rd = [(e, g, l) for e, g, l in evs if nm(e) == 'Read']
            if not rd or not sk or evs.index(sk[0]) > evs.index(rd[0]):
                bad(rep, name + '/seek', loc, '%s reads the child without moving to its link first' % name)
                continue
            v = strip(sk[0][0].args[1])
            own = ('call', P + 'Link', ('this',), (slot,))
            if name != 'ReadLink4List':
                if not (v[0] == 'call' and v[1].endswith('::Link') and strip(v[3][0]) == slot and v[2] == ('this',)):
                    bad(rep, name + '/slot', sk[0][0].loc, '%s follows %s, not the requested link' % (name, sym.show(v)))
            else:
                lp = sk[0][2][-1] if sk[0][2] else None
                if lp is None:
                    bad(rep, name + '/list', loc, 'only the first block of a list is read')
                    continue
                key = v[3] if v[0] == 'opq' and v[1] == 'loopvar' else None
                first = lp['before'].get(key)
                nxt = lp['end'].get(key)
                if first is None or nxt is None:
                    rep.count('unresolved')
                    continue
                if not (strip(first)[0] == 'call' and strip(first)[1].endswith('::Link') and strip(strip(first)[3][0]) == slot):
                    bad(rep, name + '/slot', sk[0][0].loc, 'the list starts at %s, not at the requested link' % sym.show(first))
                n2 = strip(nxt)
                if not (n2[0] == 'call' and n2[1].endswith('::Link') and strip(n2[3][0]) == ('c', 0) and n2[2] == strip(rd[0][0].obj)):
                    bad(rep, name + '/next', sk[0][0].loc, 'the next block is taken from %s, not from link 0 of the block just read' % sym.show(nxt))
                if not any(nm(e) in ('emplace_back', 'push_back') and l for e, g, l in evs):
                    bad(rep, name + '/keep', loc, 'a block that was read is not kept')


def check_numbers(db, rep):
    """number primitives: byte order follows the file, short transfers are errors"""
    for name, io in (('ReadNumber', 'sgetn'), ('WriteNumber', 'sputn')):
        for f in funcs(db, P + name):
            if not f.get('ta'):
                continue
            rep.analysed(f)
            rep.count('number_primitives')
            e = sym.Engine(db, lambda fid, g, d: not re.search(r'::(IsBigEndian)$', g['n']) and not re.search(r'(Big|Little)Buffer', g['n']))
            t = e.summarize(f)
            evs = layout.flatten(t)[0]
            key = '%s<%s>' % (name, f['ta'][-1])
            loc = (f['file'], f['line'])
            ios = [(x, g) for x, g, l in evs if x.k == 'call' and nm(x) == io]
            if not ios:
                bad(rep, key, loc, '%s transfers no bytes' % key)
                continue
            decl = {}
            for x, g, l in evs:
                if x.k in ('decl', 'ctor') and x.obj is not None and 'Buffer' in str(x.name):
                    decl[x.obj] = (x, g)
            cov = ('F',)
            for x, g in ios:
                cov = f_or(cov, g)
                locs = sym.find_all(x.args[0], lambda y: y[0] == 'loc')
                ty = next((l2[2] for l2 in locs if 'Buffer' in str(l2[2])), None)
                if ty is None:
                    continue
                be = [a for a in sym.atoms(g) if sym.contains(a, lambda y: isinstance(y, tuple) and y[:1] == ('call',) and y[1].endswith('::IsBigEndian') and y[2] == ('this',))]
                if not be:
                    bad(rep, key + '/order', x.loc, '%s ignores the byte order of the file' % key)
                    continue
                big = sym.implies(g, ('A', be[0])) is not False
                if big != ('BigBuffer' in ty):
                    bad(rep, key + '/order', x.loc, '%s uses %s when the file is %s endian' % (key, ty.split('<')[0], 'big' if big else 'little'))
            if sym.implies(('T',), cov) is False:
                bad(rep, key + '/skip', loc, '%s transfers bytes only when %s' % (key, sym.fshow(cov)))
            if not any(n[0] == 'throw' for n in sym.walk(t)):
                bad(rep, key + '/short', loc, '%s does not report a short transfer' % key)
    for f in db.funcs.values():
        if re.search(r'(Big|Little)Buffer', f['n']):
            rep.count('byte_order_helpers')
