"""Serialisation layout extraction: the ordered, guarded sequence of fields a
block's reader consumes / writer produces, with helpers inlined."""
import re
from . import sym
from .sym import strip, show, truth, fand, fnot, f_or

# primitives of the serialisation layer that become tokens
PRIM = re.compile(r'(^|::)(ReadNumber|WriteNumber|ReadByte|WriteByte|WriteBytes|ReadStr|WriteStr|ReadBool|WriteBool|StepFilePosition|'
                  r'ReadHeader4|ReadHeader3|ReadLinks3|ReadTx3|ReadTx4|ReadMdComment|WriteMdComment|WriteTx4|WriteTx3|UpdateLink|UpdateBlockSize|'
                  r'ReadLink4List|WriteLink4List|WriteBlock4|GetFilePosition|SetFilePosition|SetFirstFilePosition|SetLastFilePosition|Update|'
                  r'ReadBlock|ReadBool|SetLink|Init|FindBlock)$')


def inline_policy(db):
    def pol(fid, f, depth):
        n = f['n']
        if PRIM.search(n):
            return False
        if n == 'mdf::detail::MdfBlock::Write' or n == 'mdf::detail::MdfBlock::Read':
            return False
        base = n.split('::')[-1]
        if base in ('Read', 'Write', 'ReadData', 'WriteData', 'ReadEverything', 'Find', 'GetBlockProperty', 'ToXml', 'FromXml', 'ToString'):
            # nested block / timestamp objects keep their own layout
            return False
        if 'LogStream' in n or 'MdfLog' in n or n.startswith('util::'):
            return False
        return True
    return pol


class Tok:
    def __init__(self, kind, typ, key, guard, loops, eff, arg=None):
        self.kind = kind; self.typ = typ; self.key = key; self.guard = guard
        self.loops = loops; self.eff = eff; self.arg = arg

    def __repr__(self):
        return '%s<%s> %s%s%s' % (self.kind, self.typ, self.key, ''.join(' in[%s]' % l for l in self.loops), '' if self.guard == ('T',) else '  if ' + sym.fshow(self.guard))


def flatten(tree, guard=('T',), loops=(), out=None, sets=None):
    """linearise an effect tree into (eff, guard, loops); returns (list, alive-guard)"""
    if out is None:
        out = []
    alive = guard
    for x in tree:
        k = x[0]
        if alive == ('F',):
            break
        if k == 'eff':
            out.append((x[1], alive, loops))
        elif k == 'if':
            c = truth(x[1])
            _, a = flatten(x[2], fand(alive, c), loops, out)
            _, b = flatten(x[3], fand(alive, fnot(c)), loops, out)
            # keep formulas small when both branches fall through
            if a == fand(alive, c) and b == fand(alive, fnot(c)):
                pass
            else:
                alive = f_or(a, b)
        elif k == 'scope':
            _, alive = flatten(x[1], alive, loops, out)
        elif k == 'inl':
            flatten(x[2], alive, loops, out)
        elif k == 'loop':
            flatten(x[2], alive, loops + (x[1],), out)
        elif k == 'switch':
            sel = strip(x[1])
            prev_fall = ('F',)
            rest = ('T',)
            alls = [l for g in x[2] for l in g[0] if l != 'default']
            al = ('F',)
            for labels, body, falls in x[2]:
                g = ('F',)
                for l in labels:
                    if l == 'default':
                        d = ('T',)
                        for o in alls:
                            d = fand(d, fnot(case_atom(sel, o)))
                        g = f_or(g, d)
                    else:
                        g = f_or(g, case_atom(sel, l))
                gg = fand(alive, g)
                if falls:
                    gg = f_or(gg, prev_fall)
                _, e = flatten(body, gg, loops, out)
                prev_fall = e if not sym.terminates(body) else ('F',)
                if sym.ret_all(body):
                    pass
            if any(sym.ret_all(g[1]) for g in x[2]):
                # some cases return: conservative guard = not those cases
                for labels, body, falls in x[2]:
                    if sym.ret_all(body):
                        for l in labels:
                            if l != 'default':
                                alive = fand(alive, fnot(case_atom(sel, l)))
        elif k == 'try':
            _, alive2 = flatten(x[1], alive, loops, out)
            for h in x[2]:
                flatten(h[1], fand(alive, ('A', ('caught', ('s', str(h[0]))))), loops, out)
            alive = alive2
        elif k in ('ret', 'throw', 'brk', 'cont'):
            alive = ('F',)
    return out, alive


def case_atom(sel, l):
    if isinstance(l, tuple):
        return fand(fnot(sym._lt(sel, ('c', l[0]))), fnot(sym._lt(('c', l[1]), sel)))
    if l == 0:
        return fnot(truth(sel))
    return ('A', ('==',) + tuple(sorted((sel, ('c', l)), key=repr)))


def numtype(eff, db):
    f = db.funcs.get(eff.fid)
    if f and f.get('ta'):
        return f['ta'][-1]
    m = re.search(r'<([^<>]*(?:<.*>)?)>\(', eff.fid or '')
    return m.group(1) if m else '?'


NUM_R, NUM_W = 'ReadNumber', 'WriteNumber'


def field_key(v, loops=()):
    """canonical spelling of the field a value denotes: 'a_.b' / 'list_[*]'"""
    v = strip(v)
    if v[0] == 'ite':
        # list[i] or a default outside the list / optional objects
        for x in (v[2], v[3]):
            if x[0] not in ('c', 'null', 's'):
                return field_key(x, loops)
    if v[0] == 'fld':
        b = v[1]
        if b == ('this',):
            return v[2]
        return field_key(b, loops) + '.' + v[2]
    if v[0] == 'at':
        return field_key(v[1], loops) + '[*]'
    if v[0] == 'c':
        return '=%s' % v[1]
    if v[0] == 's':
        return '=%r' % v[1]
    if v[0] == 'call':
        n = v[1].split('::')[-1]
        if n in ('size', 'length') and v[2] is not None:
            return 'size(%s)' % field_key(v[2], loops)
        if n in ('get', 'data', 'c_str') and v[2] is not None:
            return field_key(v[2], loops)
        return '%s(%s)' % (n, ','.join(([field_key(v[2])] if v[2] else []) + [field_key(a) for a in v[3]]))
    if v[0] == 'loc':
        return '$' + v[3]
    if v[0] == 'this':
        return 'this'
    if v[0] == 'op':
        return '(%s %s %s)' % (field_key(v[2]), v[1], field_key(v[3]))
    if v[0] == 'lv':
        return 'i'
    if v[0] == 'opq':
        return '?'
    return show(v)


REPOS = re.compile(r'(ReadTx4|ReadTx3|ReadMdComment|SetFilePosition|SetFirstFilePosition|SetLastFilePosition|ReadLink4List|ReadBlock)$')


def destinations(tree):
    """where local values end up: local -> member names"""
    dest = {}
    for ef in sym.effects(tree):
        if ef.k == 'set' and ef.val is not None:
            for loc in sym.find_all(ef.val, lambda x: x[0] in ('loc', 'new')):
                if contains_this(ef.obj):
                    dest.setdefault(loc, []).append(field_key(ef.obj))
        if ef.k == 'call' and ef.name.split('::')[-1] in ('push_back', 'emplace_back', 'insert', 'emplace') and ef.obj is not None:
            for a in ef.args:
                for loc in sym.find_all(a, lambda x: x[0] in ('loc', 'new')):
                    if contains_this(ef.obj):
                        dest.setdefault(loc, []).append(field_key(ef.obj) + '[*]')
    return dest


def token(db, ef, d, dest):
    """the serialisation token of one call effect, or None"""
    if ef.k != 'call':
        return None
    nm = ef.name.split('::')[-1]
    T = lambda kind, typ, key, arg=None: Tok(kind, typ, key, ('T',), (), ef, arg)
    if d == 'w':
        if ef.name == 'mdf::detail::MdfBlock::Write' and is_this(ef.obj):
            return T('hdr', '', '')
        if nm == 'WriteNumber':
            return T('num', numtype(ef, db), field_key(ef.args[1]), ef.args[1])
        if nm == 'WriteBool':
            return T('num', 'bool16', field_key(ef.args[1]), ef.args[1])
        if nm == 'WriteBytes':
            return T('pad', '', field_key(ef.args[1]), ef.args[1])
        if nm == 'WriteByte':
            return T('bytes', '', field_key(ef.args[1]), ef.args[1])
        if nm == 'WriteStr':
            return T('str', field_key(ef.args[2]) if len(ef.args) > 2 else '', field_key(ef.args[1]), ef.args[1])
        if nm == 'UpdateBlockSize':
            return T('end', '', '')
        if nm == 'SetFilePosition':
            return T('seek', '', field_key(ef.args[1]), ef.args[1])
        if nm == 'Write' and ef.obj is not None and not is_this(ef.obj):
            return T('sub', nm, field_key(ef.obj))
        if nm == 'sputn':
            return T('raw', '', field_key(ef.args[0]))
        return None
    if nm in ('ReadHeader4', 'ReadHeader3', 'ReadLinks3'):
        return T('hdr', nm, field_key(ef.args[-1]) if len(ef.args) > 1 else '')
    if nm == 'ReadNumber':
        return T('num', numtype(ef, db), dkey(ef.args[1], dest), ef.args[1])
    if nm == 'ReadBool':
        return T('num', 'bool16', dkey(ef.args[1], dest), ef.args[1])
    if nm == 'ReadByte':
        return T('bytes', field_key(ef.args[2]), dkey(ef.args[1], dest), ef.args[1])
    if nm == 'ReadStr':
        return T('str', field_key(ef.args[2]), dkey(ef.args[1], dest))
    if nm == 'StepFilePosition':
        return T('pad', '', field_key(ef.args[1]))
    if REPOS.search(nm):
        return T('seek', nm, field_key(ef.args[-1]))
    if nm == 'Read' and ef.obj is not None and not is_this(ef.obj):
        return T('sub', nm, field_key(ef.obj))
    if nm == 'sgetn':
        return T('raw', '', field_key(ef.args[0]))
    return None


def summary(db, cls, fn):
    eng = sym.Engine(db, inline_policy(db))
    return eng.summarize(fn, this_cls=cls)


def sequence(db, tree, d, dest, conds=(), loops=(), out=None):
    """ordered tokens of a (specialised) tree; undecided conditions stay on the token"""
    if out is None:
        out = []
    for x in tree:
        k = x[0]
        if k == 'eff':
            t = token(db, x[1], d, dest)
            if t is not None:
                t.loops = loops; t.conds = conds
                out.append(t)
        elif k == 'if':
            c = truth(x[1])
            sequence(db, x[2], d, dest, conds + (c,), loops, out)
            sequence(db, x[3], d, dest, conds + (fnot(c),), loops, out)
        elif k == 'scope':
            sequence(db, x[1], d, dest, conds, loops, out)
        elif k == 'inl':
            sequence(db, x[2], d, dest, conds, loops, out)
        elif k == 'loop':
            sequence(db, x[2], d, dest, conds, loops + (x[1],), out)
        elif k == 'switch':
            sel = strip(x[1])
            alls = [l for g in x[2] for l in g[0] if l != 'default']
            for labels, body, falls in x[2]:
                g = ('F',)
                for l in labels:
                    if l == 'default':
                        dd = ('T',)
                        for o in alls:
                            dd = fand(dd, fnot(case_atom(sel, o)))
                        g = f_or(g, dd)
                    else:
                        g = f_or(g, case_atom(sel, l))
                sequence(db, body, d, dest, conds + (g,), loops, out)
        elif k == 'try':
            sequence(db, x[1], d, dest, conds, loops, out)
    return out


def dkey(t, dest):
    t = strip(t)
    d = dest.get(t)
    if t[0] in ('loc', 'new') and d:
        return '|'.join(sorted(set(d)))
    if t[0] == 'fld':
        b = dkey(t[1], dest)
        return t[2] if b == 'this' else b + '.' + t[2]
    if t[0] == 'at':
        return dkey(t[1], dest) + '[*]'
    return field_key(t)


def is_this(o):
    return o == ('this',)


def contains_this(v):
    return sym.contains(v, lambda x: x == ('this',))


def contains_this_or(v, owner):
    return sym.contains(v, lambda x: x == ('this',) or x == owner)
