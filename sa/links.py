"""Which child a block stores in which link slot: events extracted from the
writers, readers and resolvers (helpers inlined)."""
import re
from . import sym, layout
from .sym import strip, truth, fand, fnot

BLOCK = re.compile(r'^mdf::detail::([A-Z][a-z][34]Block|DataListBlock|IdBlock)$')


def elem_type(t):
    """class named by a field / parameter type, looking through containers and pointers"""
    t = re.sub(r'\bconst\b|\bclass\b|\bstruct\b', '', t or '').strip()
    m = re.search(r'((?:mdf|util)::[\w:]+)\s*(?:\*|&|,|>|$)', t)
    return m.group(1) if m else None


class Typer:
    def __init__(self, db, f, cls):
        self.db, self.f, self.cls = db, f, cls

    def of(self, v):
        v0 = v
        if v[0] == 'cast':
            t = elem_type(v[1].replace('dyn ', '').replace('bit ', ''))
            return t or self.of(v[2])
        if v[0] == 'this':
            return self.cls
        if v[0] == 'new':
            return v[1]
        if v[0] == 'loc':
            return elem_type(v[2])
        if v[0] == 'parm':
            for p in self.f['p']:
                if p.get('n') == v[1]:
                    return elem_type(p['t'])
            return None
        if v[0] == 'fld':
            c = self.of(v[1])
            if c is None:
                return None
            fs = self.db.all_fields(c)
            for x in fs:
                if x['n'] == v[2]:
                    return elem_type(x['t'])
            return None
        if v[0] == 'at':
            return self.of(v[1])
        if v[0] == 'ite':
            return self.of(v[2]) or self.of(v[3])
        if v[0] == 'call':
            n = v[1].split('::')[-1]
            if n in ('get', 'front', 'back', 'release', 'begin', 'end', 'at') and v[2] is not None:
                return self.of(v[2])
            return None
        return None


def link_of(v):
    """(owner, slot) when v is the value of a link slot"""
    s = strip(v)
    for x in sym.find_all(s, lambda y: y[0] == 'at' and y[1][0] == 'fld' and y[1][2] == 'link_list_'):
        return x[1][1], x[2]
    for x in sym.find_all(s, lambda y: y[0] == 'call' and y[1].endswith('::Link') and y[2] is not None):
        return x[2], x[3][0]
    return None


def slot_str(s, owner):
    """canonical linear form, relative to the owner block"""
    s = strip(s)
    terms, c = [], 0
    for t in terms_of(s):
        if t[0] == 'c':
            c += t[1]
        else:
            terms.append(t)
    out = []
    for t in terms:
        out.append(term_str(t, owner))
    out.sort()
    return '+'.join([str(c)] + out)


def terms_of(s):
    if s[0] == 'op' and s[1] == '+':
        return terms_of(s[2]) + terms_of(s[3])
    return [s]


def term_str(t, owner):
    if t[0] == 'op' and t[1] == '*':
        a, b = t[2], t[3]
        if a[0] == 'c':
            a, b = b, a
        return '%s*%s' % (b[1] if b[0] == 'c' else term_str(b, owner), term_str(a, owner))
    if t[0] == 'lv':
        return 'i'
    if t[0] == 'opq':
        return '?'
    m = sym.subst(t, {owner: ('this',)}) if owner is not None else t
    return layout.field_key(m)


class Ev:
    def __init__(self, d, owner, cls, slot, role, eff, guard, loops, fn):
        self.d, self.owner, self.cls, self.slot, self.role = d, owner, cls, slot, role
        self.eff, self.guard, self.loops, self.fn = eff, guard, loops, fn

    def __repr__(self):
        return '%s %s[%s] = %s' % (self.d, (self.cls or '?').split('::')[-1], self.slot, self.role)


def rel(v, owner):
    v = strip(v)
    m = sym.subst(v, {owner: ('this',)}) if owner not in (None, ('this',)) else v
    return layout.field_key(m)


POSOF = re.compile(r'::(FilePosition|Index)$')


def pos_target(v):
    """the block whose position v is"""
    v = strip(v)
    if v[0] == 'ite':
        for x in (v[2], v[3]):
            r = pos_target(x)
            if r is not None:
                return r
        return None
    if v[0] == 'fld' and v[2] == 'file_position_':
        return v[1]
    if v[0] == 'call' and POSOF.search(v[1]):
        return v[2]
    return None


def events(db, cls, f):
    tree = layout.summary(db, cls, f)
    ty = Typer(db, f, cls)
    fl, _ = layout.flatten(tree)
    dest = layout.destinations(tree)
    out = []
    fls = [x for x in fl]
    for i, (ef, g, loops) in enumerate(fls):
        if ef.k == 'call':
            nm = ef.name.split('::')[-1]
            ow = ef.obj
            if nm == 'WriteLink4List':
                out.append(Ev('w', ow, ty.of(ow), slot_str(ef.args[2], ow), rel(ef.args[1], ow), ef, g, loops, f))
            elif nm == 'ReadLink4List':
                out.append(Ev('r', ow, ty.of(ow), slot_str(ef.args[2], ow), rel(ef.args[1], ow), ef, g, loops, f))
            elif nm == 'WriteTx4':
                out.append(Ev('w', ow, ty.of(ow), slot_str(ef.args[1], ow), rel(ef.args[2], ow), ef, g, loops, f))
            elif nm == 'WriteMdComment':
                out.append(Ev('w', ow, ty.of(ow), slot_str(ef.args[1], ow), 'md_comment_', ef, g, loops, f))
            elif nm == 'ReadMdComment':
                out.append(Ev('r', ow, ty.of(ow), slot_str(ef.args[1], ow), 'md_comment_', ef, g, loops, f))
            elif nm == 'WriteBlock4':
                out.append(Ev('w', ow, ty.of(ow), slot_str(ef.args[2], ow), rel(ef.args[1], ow), ef, g, loops, f))
            elif nm == 'UpdateLink':
                t = pos_target(ef.args[2])
                role = rel(t, ow) if t is not None else rel(ef.args[2], ow)
                if t is not None and strip(t)[0] in ('loc', 'new'):
                    role = temp_role(fls, i, strip(t), ow, ty)
                out.append(Ev('u', ow, ty.of(ow), slot_str(ef.args[1], ow), role, ef, g, loops, f))
            elif nm in ('ReadTx4', 'ReadTx3'):
                out.append(Ev('r', ow, ty.of(ow), slot_str(ef.args[1], ow), sink_of_call(fls, i, ef, ow, dest), ef, g, loops, f))
            elif nm == 'SetFilePosition' and len(ef.args) > 1:
                lk = link_of(ef.args[1])
                for lp in loops:
                    iv = lp.get('init', {}).get(strip(ef.args[1]))
                    if iv is not None:
                        lk = link_of(iv)
                if lk:
                    role = None
                    for ef2, g2, l2 in fls[i + 1:i + 40]:
                        if ef2.k == 'call' and ef2.name.split('::')[-1] in ('Read', 'ReadData', 'ReadBlockType') and ef2.obj is not None:
                            o = strip(ef2.obj)
                            role = layout.dkey(sym.subst(o, {lk[0]: ('this',)}) if lk[0] != ('this',) else o, dest)
                            if ef2.name.split('::')[-1] != 'ReadBlockType':
                                break
                        if ef2.k == 'call' and ef2.name.split('::')[-1] == 'SetFilePosition':
                            break
                    out.append(Ev('r', lk[0], ty.of(lk[0]), slot_str(lk[1], lk[0]), role or '?', ef, g, loops, f))
            elif nm == 'SetLink':
                t = pos_target(ef.args[1])
                role = rel(t, ow) if t is not None else rel(ef.args[1], ow)
                out.append(Ev('w', ow, ty.of(ow), slot_str(ef.args[0], ow), role, ef, g, loops, f))
            elif nm in ('Find', 'FindBlock') and ef.args:
                lk = link_of(ef.args[0])
                if lk:
                    role = sink_of_call(fls, i, ef, lk[0], dest)
                    out.append(Ev('f', lk[0], ty.of(lk[0]), slot_str(lk[1], lk[0]), role, ef, g, loops, f))
            elif nm == 'resize' and ef.obj is not None and ef.obj[0] == 'fld' and ef.obj[2] == 'link_list_':
                out.append(Ev('n', ef.obj[1], ty.of(ef.obj[1]), slot_str(ef.args[0], ef.obj[1]), 'count', ef, g, loops, f))
        elif ef.k == 'lset' and loops and ef.val is not None and link_of(ef.val):
            lk = link_of(ef.val)
            if strip(lk[0])[0] in ('new', 'loc'):
                out.append(Ev('r', lk[0], ty.of(lk[0]), slot_str(lk[1], lk[0]), 'next', ef, g, loops, f))
        elif ef.k == 'set' and ef.obj is not None and ef.obj[0] == 'at' and ef.obj[1][0] == 'fld' and ef.obj[1][2] == 'link_list_':
            ow = ef.obj[1][1]
            t = pos_target(ef.val)
            role = rel(t, ow) if t is not None else rel(ef.val, ow)
            out.append(Ev('w', ow, ty.of(ow), slot_str(ef.obj[2], ow), role, ef, g, loops, f))
    return out, tree


def sink_of_call(fl, i, ef, owner, dest):
    """member that receives the result of call effect number i"""
    want = strip(('call', ef.name, ef.obj, tuple(ef.args)))
    has = lambda v: v is not None and sym.contains(strip(v), lambda x: x == want)
    roles = []
    for ef2, g, l in fl[i + 1:i + 60]:
        if ef2.k == 'set' and has(ef2.val):
            o = strip(ef2.obj)
            if layout.contains_this_or(o, owner):
                roles.append(rel(o, owner))
            else:
                k = layout.dkey(o, dest)
                roles.append(k.replace(rel(owner, None) + '.', '') if owner != ('this',) else k)
        elif ef2.k == 'call' and ef2.obj is not None and ef2.name.split('::')[-1] in ('push_back', 'emplace_back', 'operator='):
            if any(has(a) for a in ef2.args):
                roles.append(rel(ef2.obj, owner) + '[*]')
        elif ef2.k == 'call' and ef2.obj is not None and ef2.name.startswith('mdf::') and any(has(a) for a in ef2.args):
            roles.append(rel(ef2.obj, owner) + '.' + ef2.name.split('::')[-1])
    return roles[0] if roles else '?'


def temp_role(fl, i, loc, owner, ty):
    """UpdateLink with the position of a temporary TX/.. block: what was put into it"""
    for ef2, g, l in reversed(fl[:i]):
        if ef2.k in ('decl', 'ctor') and ef2.obj is not None and strip(ef2.obj) == loc and ef2.args:
            return rel(ef2.args[0], owner)
        if ef2.k == 'call' and ef2.obj is not None and strip(ef2.obj) == loc and ef2.name.split('::')[-1] in ('Text', 'TxComment'):
            return rel(ef2.args[0], owner)
    return rel(loc, owner)
