"""Every block stores each child in its specified link slot, in the writer, the
reader and the cross-reference resolver."""
import re
from .. import sym, layout, links, spec
from ..facts import AnalysisError
from ..sym import fand, f_or, fnot, strip
from .layout_rule import nnf_project
from . import prim_rule

# class -> slot -> (roles, need)   need: w = written, r = read/resolved,
# a = (re)written also when the block is already on file (children are appended)
T4 = {
    'Hd4Block': {'0': ('dg_list_', 'wra'), '1': ('fh_list_', 'wra'), '2': ('ch_list_', 'wra'), '3': ('at_list_', 'wra'),
                 '4': ('ev_list_', 'wra'), '5': ('md_comment_', 'wra')},
    'Fh4Block': {'0': ('next', ''), '1': ('md_comment_', 'wr')},
    'Ch4Block': {'0': ('next', ''), '1': ('ch_list_', 'wr'), '2': ('name_', 'wr'), '3': ('md_comment_', 'wr'),
                 '4+3*i': ('element_list_[*].data_group', 'wr'), '5+3*i': ('element_list_[*].channel_group', 'wr'), '6+3*i': ('element_list_[*].channel', 'wr')},
    'At4Block': {'0': ('next', ''), '1': ('filename_', 'wr'), '2': ('file_type_', 'wr'), '3': ('md_comment_', 'wr')},
    'Ev4Block': {'0': ('next', ''), '1': ('parent_event_', 'wr'), '2': ('range_event_', 'wr'), '3': ('name_', 'wr'), '4': ('md_comment_', 'wr'),
                 '5+i': ('scope_list_[*]', 'wr'), '5+i+length_m_': ('attachment_list_[*]', 'wr'), '5+length_m_+length_n_': ('group_name_', 'wr')},
    'Dg4Block': {'0': ('next', ''), '1': ('cg_list_', 'wra'), '2': ('block_list_|block_list_[*]|new:Dt4Block|pos', 'wra'), '3': ('md_comment_', 'wra')},
    'Cg4Block': {'0': ('next', ''), '1': ('cn_list_', 'wra'), '2': ('acquisition_name_', 'wra'), '3': ('si_block_', 'wra'), '4': ('sr_list_', 'wra'),
                 '5': ('md_comment_', 'wra')},
    'Si4Block': {'0': ('name_', 'wr'), '1': ('path_', 'wr'), '2': ('md_comment_', 'wr')},
    'Cn4Block': {'0': ('next', ''), '1': ('cx_list_|cx_list_[*]', 'w'), '2': ('name_', 'wr'), '3': ('si_block_', 'wr'), '4': ('cc_block_', 'wr'),
                 '5': ('block_list_[*]|zero|new:Sd4Block|new:Dz4Block|new:Hl4Block|position|pos|vlsd_record_id_|mlsd_channel_|cg', 'wr'),
                 '6': ('unit_', 'wr'), '7': ('md_comment_', 'wr'), '8+i': ('attachment_list_[*]', 'w'),
                 '8+NATT': ('default_x_.data_group', 'w'), '9+NATT': ('default_x_.channel_group', 'w'), '10+NATT': ('default_x_.channel', 'w')},
    'Cc4Block': {'0': ('name_', 'wr'), '1': ('unit_', 'wr'), '2': ('md_comment_', 'wr'), '3': ('cc_block_', 'wr'), '4+i': ('ref_list_[*]', 'wr')},
    'Sr4Block': {'0': ('next', ''), '1': ('block_list_|block_list_[*]', 'r')},
    'Dl4Block': {'0': ('next', ''), '1+i': ('block_list_[*]', 'wr')},
    'Hl4Block': {'0': ('block_list_|block_list_[*]', 'wr')},
    'Ld4Block': {'0': ('next', ''), '1+i': ('block_list_[*]', 'r')},
}
T3 = {
    'Hd3Block': {'0': ('dg_list_[*]', 'wr'), '1': ('comment_', 'wr'), '2': ('pr_block_', 'wr')},
    'Dg3Block': {'0': ('next', 'wr'), '1': ('cg_list_[*]', 'wr'), '2': ('tr_block_', 'wr'), '3': ('block_list_[*]|pos|cg_list_[*]', 'wr')},
    'Cg3Block': {'0': ('next', 'wr'), '1': ('cn_list_[*]', 'wr'), '2': ('comment_', 'wr'), '3': ('sr_list_[*]', 'r')},
    'Cn3Block': {'0': ('next', 'wr'), '1': ('cc_block_', 'wr'), '2': ('ce_block_', 'wr'), '3': ('cd_block_', 'wr'), '4': ('comment_', 'wr'),
                 '5': ('long_name_', 'r'), '6': ('display_name_', 'r')},
    'Tr3Block': {'0': ('comment_', 'wr')},
    'Sr3Block': {'0': ('next', 'wr'), '1': ('block_list_[*]|pos', 'wr')},
}
# number of link slots a writer reserves
COUNT = {'Hd4Block': ['6'], 'Fh4Block': ['2'], 'Ch4Block': ['4+3*nof_elements_', '4+3*size(element_list_)'], 'At4Block': ['4'],
         'Ev4Block': ['5+(!group_name_.empty() ? 1 : 0)+length_m_+length_n_'], 'Dg4Block': ['4'],
         'Cg4Block': ['0+(((flags_ & 8) != 0) ? 7 : 6)', '6+(((flags_ & 8) != 0) ? 1 : 0)'], 'Si4Block': ['3'],
         'Cn4Block': ['8+(((flags_ & 4096) != 0) ? 3 : 0)+nof_attachments_', '8+(((flags_ & 4096) != 0) ? 3 : 0)+size(attachment_list_)'],
         'Cc4Block': ['4+nof_references_', '4+size(ref_list_)'], 'Dl4Block': ['1+size(block_list_)', '1+nof_blocks_'], 'Hl4Block': ['1'],
         'Hd3Block': ['3'], 'Dg3Block': ['4'], 'Cg3Block': ['3'], 'Cn3Block': ['5'], 'Tr3Block': ['1'], 'Sr3Block': ['2']}

ALIAS = [('size(attachment_list_)', 'NATT'), ('nof_attachments_', 'NATT'), ('size(element_list_)', 'nof_elements_'), ('size(ref_list_)', 'nof_references_'),
         ('size(scope_list_)', 'length_m_')]


def norm_slot(cls, s):
    if cls == 'Cn4Block':
        for a, b in ALIAS[:2]:
            s = s.replace(a, b)
    if cls == 'Ev4Block':
        s = s.replace('size(scope_list_)', 'length_m_').replace('size(attachment_list_)', 'length_n_')
        if s == '-1+size(link_list_)':
            s = '5+length_m_+length_n_'
    if s == '-1+size(link_list_)':
        return s
    return s


def role_class(r):
    """canonical role names"""
    if r in ('=0',):
        return 'zero'
    m = re.match(r'new (?:[\w:]*::)?(\w+)$', r)
    if m:
        return 'new:' + m.group(1)
    if re.match(r'GetFilePosition\(', r):
        return 'pos'
    return r


def role_ok(role, allowed):
    """True / False / None (no information)"""
    r = role_class(role)
    if r == '?' or r.startswith('$') or r.startswith('?'):
        return None
    base = lambda x: x[:-3] if x.endswith('[*]') else x
    for a in allowed.split('|'):
        if base(r) == base(a) or base(r).endswith('.' + base(a)):
            return True
        if a == 'cg' and re.match(r'cg', r):
            return True
        if a == 'next' and r.endswith('list_[*]'):
            return True
    return False


PLAIN = ('c', 'fld', 'op', 'un', 's')


def unrelated(atom, e):
    """plain condition on the block's own scalar state that is not about this child"""
    vals = [x for x in atom[1:] if isinstance(x, tuple)]
    names = set()
    for v in vals:
        if sym.contains(v, lambda y: y[0] in ('call', 'opq', 'loc', 'new', 'lv', 'ite', 'at', 'parm', 'g', 'iter', 'lam')):
            return False
        for x in sym.find_all(v, lambda y: y[0] == 'fld'):
            names.add(x[2])
    root = e.role.split('[')[0].split('.')[0]
    return bool(names) and not (names & {root, 'link_list_', 'file_position_', 'flags_', 'type_', 'storage_', 'original_size_', 'compress_data_', 'nof_attachments_', 'name_'})


def check(db, rep, which):
    table = T4 if which == 4 else T3
    P = 'mdf::detail::'
    seen = {}
    for f in list(db.funcs.values()):
        c = f.get('cls')
        if not c or not c.startswith('mdf::detail') or not f['file'].startswith('mdflib/'):
            continue
        base = f['n'].split('::')[-1]
        if base in ('GetBlockProperty', 'WriteLink4List', 'ReadLink4List', 'ReadTx4', 'ReadTx3', 'WriteTx4', 'WriteMdComment', 'ReadMdComment', 'WriteBlock4', 'UpdateLink'):
            continue
        if c == P + 'DataListBlock' or not (touches_links(db, f) or 'mdf::detail::MdfBlock' in db.bases(c)):
            continue
        evs, tree = links.events(db, c, f)
        mine = [e for e in evs if e.cls and e.cls.split('::')[-1] in table]
        if mine:
            rep.analysed(f)
        for e in mine:
            cls = e.cls.split('::')[-1]
            slot = norm_slot(cls, e.slot)
            nm = '%s::%s' % (c.split('::')[-1], base)
            if e.d == 'n':
                rep.count('link_section_sizes')
                if e.slot not in COUNT.get(cls, [e.slot]) and own(e, c):
                    rep.violate('link.count', '%s/%s' % (nm, cls), e.eff.loc, '%s reserves %s link slots in %s, the block has %s' % (nm, e.slot, cls, ' or '.join(COUNT[cls])))
                continue
            if '?' in slot or not re.match(r'^-?\d', slot) or re.search(r'index', slot):
                continue
            rep.count('link_accesses')
            spec = table[cls]
            if slot not in spec:
                # a known role in the wrong slot, or a slot that does not exist
                rep.violate('link.slot', '%s/%s[%s]' % (nm, cls, slot), e.eff.loc, '%s uses link slot %s of %s for %s; the block has no such slot' % (nm, slot, cls, e.role))
                continue
            ok = role_ok(e.role, spec[slot][0])
            if ok is False:
                rep.violate('link.role', '%s/%s[%s]' % (nm, cls, slot), e.eff.loc,
                            '%s %s %s in link slot %s of %s, which holds %s' % (nm, 'looks for' if e.d in 'rf' else 'stores', e.role, slot, cls, spec[slot][0]))
                continue
            seen.setdefault((cls, slot), []).append((e, c))
    for cls, spec in table.items():
        if P + cls not in db.classes:
            raise AnalysisError('block class %s not found' % cls)
        for slot, (roles, need) in spec.items():
            evs = seen.get((cls, slot), [])
            rep.count('link_slots')
            loc = (db.classes[P + cls]['file'], db.classes[P + cls]['line'])
            w = [e for e, c in evs if e.d in 'wu']
            r = [e for e, c in evs if e.d in 'rf']
            if 'w' in need and not w:
                rep.violate('link.unwritten', '%s[%s]' % (cls, slot), loc, '%s: nothing writes %s into link slot %s any more' % (cls, roles, slot))
            if 'r' in need and not r:
                rep.violate('link.unread', '%s[%s]' % (cls, slot), loc, '%s: nothing reads %s from link slot %s any more' % (cls, roles, slot))
            ownw = [e for e, c in evs if e.d in 'wu' and c == P + cls and e.fn['n'].endswith('::Write')]
            if ownw:
                g = ('F',)
                for e in ownw:
                    g = f_or(g, nnf_project(e.guard, lambda a: unrelated(a, e)))
                if len(sym.atoms(g)) <= 12 and sym.implies(('T',), g) is False:
                    rep.violate('link.guard', '%s[%s]' % (cls, slot), ownw[0].eff.loc, '%s::Write stores %s only when %s' % (cls, roles, sym.fshow(g)))
                if 'a' in need:
                    g = ('F',)
                    for e in ownw:
                        g = f_or(g, nnf_project(e.guard, is_update))
                    if sym.implies(('T',), g) is False:
                        rep.violate('link.update', '%s[%s]' % (cls, slot), ownw[0].eff.loc,
                                    '%s::Write stores %s only when %s: children added to a block that is already on file are lost' % (cls, roles, sym.fshow(g)))
            rep.sample('%s[%s] = %s (%d writes, %d reads)' % (cls, slot, roles.split('|')[0], len(w), len(r)))


def is_update(a):
    fp = ('fld', ('this',), 'file_position_')
    return a in (('<', ('c', 0), fp), ('nz', fp))


def own(e, c):
    return e.cls == c


LN = re.compile(r'Link|MdComment|Tx[34]|WriteBlock4|FilePosition|link_list_')


def touches_links(db, f):
    """cheap pre-filter: the function (not its callees) mentions a link primitive"""
    r = f.get('_lnk')
    if r is None:
        r = bool(LN.search(repr(f.get('body'))))
        f['_lnk'] = r
    return r


# ---- composition (array) block: variable link section --------------------
CA_ORDER = [('data_links_', 'storage_ == 2'), ('dynamic_size_list_', 'flags_ & 1'), ('input_quantity_list_', 'flags_ & 2'), ('output_quantity_', 'flags_ & 4'),
            ('comparison_quantity_', 'flags_ & 8'), ('axis_conversion_list_', 'flags_ & 16'), ('axis_list_', 'flags_ & 16 && !(flags_ & 32)')]


def check_ca(db, rep):
    from ..spec import specialise
    from .layout_rule import guard_holds
    q = 'mdf::detail::Ca4Block'
    names = [r for r, _ in CA_ORDER]
    for meth in ('Write', 'FindAllReferences'):
        fs = db.own_method(q, meth)
        if not fs:
            fs = db.own_method(q, 'Read')
        if not fs:
            raise AnalysisError('Ca4Block::%s not found' % meth)
        f = fs[0]
        rep.analysed(f)
        tree0 = layout.summary(db, q, f)
        for flags in range(64):
            for st in (0, 1, 2):
                sc = {'flags_': flags, 'storage_': st}
                m = {('fld', ('this',), k): ('c', v) for k, v in sc.items()}
                m[('fld', ('this',), 'file_position_')] = ('c', 0)
                tree = specialise(tree0, m)
                got = []
                loc = None
                for ef in sym.effects(tree):
                    r = None
                    if meth == 'Write':
                        if ef.k == 'call' and ef.name.endswith('::UpdateLink') and len(ef.args) > 2:
                            r = [x[2] for x in sym.find_all(ef.args[2], lambda y: y[0] == 'fld' and y[1] == ('this',)) if x[2] in names]
                        if ef.k == 'call' and ef.name == 'mdf::detail::MdfBlock::Write':
                            break
                    elif ef.k == 'set' and ef.obj is not None:
                        if ef.val is not None and ef.val[0] == 'null':
                            continue
                        r = [x[2] for x in sym.find_all(ef.obj, lambda y: y[0] == 'fld' and y[1] == ('this',)) if x[2] in names]
                    if r:
                        loc = ef.loc
                        if not got or got[-1] != r[0]:
                            got.append(r[0])
                want = [n for n, g in CA_ORDER if guard_holds(g, sc)]
                rep.count('array_link_configurations')
                if got != want:
                    rep.violate('link.array', 'Ca4Block::' + meth, loc or (f['file'], f['line']),
                                'Ca4Block::%s: with flags=%d storage=%d the link section holds %s, the layout requires %s' % (meth, flags, st, ', '.join(got) or 'nothing', ', '.join(want) or 'nothing'))
                    return
        # triple order: data group, channel group, channel at +0, +1, +2
        evs, _ = links.events(db, q, f)
        for e in evs:
            m = re.search(r'\.(DataGroup|ChannelGroup|Channel)$', e.role)
            if m and e.d in 'uf':
                rep.count('array_reference_links')
                c = int(re.match(r'-?\d+', e.slot).group(0))
                want = {'DataGroup': 0, 'ChannelGroup': 1, 'Channel': 2}[m.group(1)]
                if (c - want) % 3 != 0 and (c - want - 1) % 3 != 0 or c not in (want, want + 1):
                    rep.violate('link.triple', 'Ca4Block::%s/%s' % (meth, e.role), e.eff.loc, 'Ca4Block::%s: %s uses triple offset %d, must be %d' % (meth, e.role, c, want))


def guard_at(g, i, k):
    """guard with the index i fixed to k"""
    def fn(a):
        if not sym.contains(a, lambda y: y == i):
            return ('A', a)
        b = sym.subst(a, {i: ('c', k)})
        if a[0] == 'nz':
            return sym.truth(spec.reduce(b[1], {}))
        if a[0] in ('==', '<') and len(b) == 3:
            return sym.truth(sym.mkop(a[0], spec.reduce(b[1], {}), spec.reduce(b[2], {})))
        return ('A', a)
    return sym.fmap(g, fn)


def check_chains(db, rep):
    """MDF3 lists: the first element hangs on the parent, every other on its predecessor"""
    P = 'mdf::detail::'
    for c in sorted(db.classes):
        if not re.match(r'mdf::detail::[A-Z][a-z]3Block$', c):
            continue
        for f in list(db.funcs.values()):
            if f.get('cls') != c or f['n'].split('::')[-1] != 'Write':
                continue
            evs, tree = links.events(db, c, f)
            heads, tails = {}, {}
            for e in evs:
                if e.d != 'u': continue
                t = links.pos_target(e.eff.args[2])
                t = strip(t) if t is not None else None
                if t is None or t[0] != 'at' or not sym.contains(t[2], lambda y: y[0] == 'lv'):
                    continue
                L, i = t[1], t[2]
                if e.owner == ('this',):
                    if sym.contains(strip(e.eff.args[1]), lambda y: y == i): continue
                    rep.count('list heads'); heads[L] = e
                    if guard_at(e.guard, i, 1) != ('F',) and sym.implies(guard_at(e.guard, i, 1), ('F',)) is False:
                        rep.violate('link.head', '%s/%s' % (c.split('::')[-1], sym.show(L)), e.eff.loc, '%s::Write lets elements of %s other than the first overwrite the link to the list' % (c, sym.show(L)))
                    continue
                o = strip(e.owner)
                if o[0] == 'call' and o[1].split('::')[-1] in ('front', 'back') and strip(o[2]) == L:
                    o = ('at', L, ('c', 0) if o[1].endswith('front') else ('opq', 'last'))
                if o[0] == 'at' and o[1] == L:
                    rep.count('list links'); tails[L] = e
                    if prim_rule.add(i, ('c', -1)) != o[2] and not prim_rule.eq(o[2], prim_rule.add(i, ('c', -1))):
                        rep.violate('link.chain', '%s/%s' % (c.split('::')[-1], sym.show(L)), e.eff.loc, '%s::Write chains element i of %s to %s, not to its predecessor' % (c, sym.show(L), sym.show(e.owner)))
                    elif guard_at(e.guard, i, 1) == ('F',) or guard_at(e.guard, i, 2) == ('F',):
                        rep.violate('link.chain', '%s/%s/cond' % (c.split('::')[-1], sym.show(L)), e.eff.loc, '%s::Write leaves some elements of %s unchained' % (c, sym.show(L)))
                elif o[0] == 'at':
                    rep.violate('link.chain', '%s/%s/list' % (c.split('::')[-1], sym.show(L)), e.eff.loc, '%s::Write stores the position of an element of %s in %s' % (c, sym.show(L), sym.show(e.owner)))
                else:
                    rep.count('list links'); tails[L] = e
            for L, e in heads.items():
                if L not in tails and not sym.show(L).endswith('block_list_'):
                    rep.violate('link.chain', '%s/%s/none' % (c.split('::')[-1], sym.show(L)), e.eff.loc, '%s::Write does not chain the elements of %s' % (c, sym.show(L)))
