"""Every byte a block writer puts into its block is counted in the block size it declares."""
import re
from .. import sym, layout, linear
from ..facts import AnalysisError
from ..sym import strip

SINK = re.compile(r'(basic_streambuf<.*>::(sputn|sputc))$|^(std::)?(fwrite|fputc|fputs)$')
STEP = re.compile(r'::StepFilePosition$')
CHILD = re.compile(r'::(UpdateLink|UpdateBlockSize)$')
ALIGN = re.compile(r'::(SetLastFilePosition|SetFilePosition)$')


def calls_in(body):
    stack = [body]
    while stack:
        x = stack.pop()
        if isinstance(x, list):
            stack.extend(x)
        elif isinstance(x, dict):
            if x.get('k') in ('Call', 'MCall', 'OpCall', 'Ctor') and x.get('f'):
                yield x
            stack.extend(v for v in x.values() if isinstance(v, (dict, list)))


class Counted:
    """which callees put bytes at the current position of the block being written"""

    def __init__(self, db):
        self.db = db
        self.base = [i for i, f in db.funcs.items() if f['n'] == 'mdf::detail::MdfBlock::Write']
        if not self.base:
            raise AnalysisError('MdfBlock::Write not found')
        self.ov = set()
        for b in self.base:
            self.ov |= db.overriders.get(b, set())
        cg = {}
        for i, f in db.funcs.items():
            if not f['file'].startswith('mdflib/'):
                continue
            cg[i] = [(c['f'], c) for c in calls_in(f.get('body'))]
        name = lambda fid: (db.funcs.get(fid) or db.decls.get(fid) or {}).get('n', fid.split('(')[0])
        self.name = name
        writer, child = set(), set()
        for i in cg:
            for c, n in cg[i]:
                if SINK.search(strip_targs(name(c))) or STEP.search(name(c)):
                    writer.add(i)
        for i in self.ov:
            if any(c in self.base and not n.get('virt') for c, n in cg.get(i, ())):
                child.add(i)
        for i in cg:
            if CHILD.search(name(i)):
                child.add(i)
        ch = True
        while ch:
            ch = False
            for i in cg:
                for c, n in cg[i]:
                    if i not in child and (c in child or n.get('virt') and c in self.base):
                        child.add(i); ch = True
                    if i not in writer and c in writer:
                        writer.add(i); ch = True
        self.writer, self.child = writer, child
        self.cg = cg

    def __call__(self, fid, node=None):
        nm = strip_targs(self.name(fid))
        if SINK.search(nm) or STEP.search(nm):
            return True
        if node is not None and node.get('virt') and (fid in self.base or fid in self.ov and (fid in self.child or self.db.overriders.get(fid, set()) & self.child)):
            return False
        if fid in self.child or ALIGN.search(nm):
            return False
        return fid in self.writer


def strip_targs(n):
    return n


def leaf(v):
    """bytes behind a stream primitive's own result (a short write throws)"""
    if v[0] == 'call':
        if re.search(r'::sputn$', v[1]) and len(v[3]) == 2:
            return v[3][1] if v[3][1][0] != 'call' or not re.search(r'::sputn$', v[3][1][1]) else None
        if re.search(r'::sputc$', v[1]):
            return 1
        if re.search(r'::StepFilePosition$', v[1]):
            return v[3][-1]
    return None


class SizeCmp(linear.Cmp):
    def count(self, lp):
        """number of iterations as linear form, for loops over an index or a container"""
        if lp.get('range') is not None:
            return self.lin(('call', 'std::size', strip(lp['range']), ()))
        c = lp.get('cond')
        if c is None:
            return None
        c = strip(c)
        if c[0] == 'op' and c[1] in ('<', '!=') and c[2] == ('lv', lp['id']) and not sym.contains(c[3], lambda y: y[0] == 'lv'):
            return self.lin(c[3])
        return None


def check_counts(db, rep):
    cnt = Counted(db)
    todo = [i for i in cnt.ov if i in cnt.writer] + list(cnt.base)
    seen = set(todo)
    while todo:
        i = todo.pop()
        for c, n in cnt.cg.get(i, ()):
            if c in db.funcs and c not in seen and c in cnt.writer and c not in cnt.child and not ALIGN.search(cnt.name(c)):
                seen.add(c); todo.append(c)
    nblocks = 0
    for fid in sorted(seen):
        f = db.funcs[fid]
        if re.search(r'::StepFilePosition$', f['n']):
            continue
        eng = sym.Engine(db, lambda fid, g, depth: not (fid in cnt.writer or fid in cnt.child or layout.PRIM.search(g['n']) or 'Log' in g['n'] or g['n'].startswith('util::')))
        eng.ghost = cnt
        tree = eng.summarize(f, this_cls=f.get('cls'))
        rep.analysed(f)
        cmp = SizeCmp(eng.loops, leaf)
        short = '::'.join(f['n'].split('::')[-2:])
        if fid in cnt.child:
            for e in sym.effects(tree):
                if e.k == 'call' and e.name.endswith('::UpdateBlockSize'):
                    nblocks += 1
                    judge(rep, cmp, short, e.args[-1], e.val, e.loc, 'stores as block length')
        elif f.get('ret') != 'void':
            for e in sym.effects(tree):
                if e.k == 'gret' and e.args[0] is not None and not e.stack:
                    if e.val == ('c', 0) and fid in cnt.ov:
                        continue        # already on file: nothing is written
                    judge(rep, cmp, short, e.args[0], e.val, e.loc, 'returns as byte count')
    rep.count('blocks_with_measured_length', nblocks)
    return cnt


def judge(rep, cmp, short, v, g, loc, what):
    r = cmp.equal(v, g)
    if r is True:
        rep.count('size_obligations')
    elif r is None:
        rep.count('size_unresolved')
    else:
        rep.count('size_obligations')
        d = cmp.witness
        rep.violate('size.count', short, loc, '%s: the value it %s is not the number of bytes written: difference %s' %
                    (short, what, ' '.join('%+d*%s' % (c, '*'.join(sym.show(x)[:60] for x in a) or '1') for a, c in d.t.items())))


# blocks whose declared length is computed up front (no measured update)
def check_declared(db, rep, cnt):
    from .. import spec
    from .layout_rule import TY, WIDTH, local_sizes
    FPOS = ('fld', ('this',), 'file_position_')
    n = 0
    for fid in sorted(cnt.ov & cnt.writer & cnt.child):
        f = db.funcs[fid]
        eng = sym.Engine(db, lambda i, g, depth: not (i in cnt.writer or i in cnt.child or layout.PRIM.search(g['n']) or 'Log' in g['n'] or g['n'].startswith('util::')))
        eng.ghost = cnt
        tree = eng.summarize(f, this_cls=f.get('cls'))
        m = {FPOS: ('c', 0)}
        tree = spec.specialise(tree, m, m)
        effs = list(sym.effects(tree))
        if any(e.k == 'call' and e.name.endswith('::UpdateBlockSize') for e in effs):
            continue
        hdr = next((i for i, e in enumerate(effs) if e.k == 'call' and e.fid in cnt.base), None)
        if hdr is None:
            continue
        short = '::'.join(f['n'].split('::')[-2:])
        if not short.split('::')[0].endswith('Block'):
            continue
        mdf4 = not short.split('::')[0].endswith('3Block')
        decl = [e for e in effs[:hdr] if e.k == 'set' and e.obj in (('fld', ('this',), 'block_size_'), ('fld', ('this',), 'block_length_'))]
        rep.analysed(f)
        if not decl:
            rep.violate('size.declared', short, (f['file'], f['line']), '%s neither computes nor measures the length it declares' % short)
            continue
        want_fld = 'block_length_' if mdf4 else 'block_size_'
        if decl[-1].obj[2] != want_fld:
            rep.violate('size.declared', short + '/field', decl[-1].loc, '%s sets %s, the header writer emits %s' % (short, decl[-1].obj[2], want_fld))
            continue
        links = ('c', 0)
        for e in effs[:hdr]:
            if e.k == 'call' and e.obj == ('fld', ('this',), 'link_list_'):
                if e.name.endswith('::resize'):
                    links = e.args[0]
                elif e.name.endswith('::clear'):
                    links = ('c', 0)
        alias = {}
        for e in effs:
            if e.k == 'set' and e.obj and e.obj[0] == 'fld' and e.obj[1] == ('this',) and e.val is not None:
                v = strip(e.val)
                if v[0] == 'call' and v[1].endswith('::size'):
                    alias[e.obj] = ('call', 'std::size', v[2], ())
        sizes = local_sizes(tree)

        def lf(v, links=links, alias=alias, sizes=sizes, mdf4=mdf4):
            x = leaf(v)
            if x is not None:
                return x
            if v in alias:
                return alias[v]
            if v[0] == 'call':
                b = v[1].split('::')[-1]
                if v[1] in ('mdf::detail::MdfBlock::Write',) and v[2] == ('this',):
                    return sym.mkop('+', ('c', 24 if mdf4 else 4), sym.mkop('*', strip(links), ('c', 8 if mdf4 else 4)))
                if b == 'WriteStr':
                    return v[3][2]
                if b == 'WriteBytes':
                    return v[3][1]
                if b == 'WriteBool':
                    return 2
                if b == 'WriteByte':
                    a = strip(v[3][1])
                    return sizes.get(a) if a in sizes else ('call', 'std::size', a, ())
                if b in ('size', 'length') and v[1] != 'std::size' and v[2] is not None:
                    return ('call', 'std::size', strip(v[2]), ())
                if b == 'WriteNumber':
                    w = wnum.get(strip((v[2], v[3])))
                    return w
            return None
        wnum = {}
        for e in effs:
            if e.k == 'call' and e.name.endswith('::WriteNumber'):
                for a in alternatives(strip((e.obj, e.args))):
                    wnum[a] = WIDTH.get(TY.get(layout.numtype(e, db)))
        lps = {k: dict(lp, end={i: spec.reduce(x, m) for i, x in lp['end'].items()}, before={i: spec.reduce(x, m) for i, x in lp['before'].items()}) for k, lp in eng.loops.items()}
        rets = [e for e in effs if e.k == 'gret' and not e.stack]
        for e in rets:
            g = spec.reduce(e.val, m)
            if g == ('c', 0):
                continue
            n += 1
            cmp = SizeCmp(lps, lf)
            r = cmp.equal(strip(spec.reduce(decl[-1].val, m)), strip(g))
            if r is None:
                rep.count('size_unresolved')
            else:
                rep.count('size_obligations')
            if r is False:
                d = cmp.witness
                rep.violate('size.declared', short, decl[-1].loc, '%s declares a length that differs from the bytes it writes by %s' %
                            (short, ' '.join('%+d*%s' % (c, '*'.join(sym.show(x)[:60] for x in a) or '1') for a, c in d.t.items())))
    rep.count('blocks_with_declared_length', n)


def alternatives(v, cap=64):
    """v with every conditional value resolved either way"""
    cs = linear.split_conds(v, [])
    if not cs or cap <= 0:
        return [v]
    out = [v]
    for x in ((True, False) if cs[0][0] == 'c' else range(cs[0][2])):
        out += alternatives(linear.pick(v, cs[0], x), cap // 2)
    return out
