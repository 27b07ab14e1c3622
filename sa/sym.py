"""Effect-summary engine.

Turns a function of the extracted program into a structured *effect tree*:
every call / assignment / container access in evaluation order, with local
variables forward-substituted, pure helper functions folded away and repository
helpers inlined.  No path is executed and no solver is involved: branches stay
branches, loops stay loops (variables a loop changes become opaque in it).

Values are hashable tuples:
  ('c',v) ('s',str) ('null',) ('this',) ('parm',name) ('loc',uid,type,name)
  ('fld',base,name) ('at',base,index) ('op',op,a,b) ('un',op,a)
  ('call',name,obj,args) ('cast',type,e) ('new',type,uid) ('ite',c,a,b)
  ('lv',uid) loop counter, ('iter',container,pos), ('opq',tag...) unknown
  ('lam',uid)  ('ctor',cls,args) ('init',args) ('g',id) global ('fn',id)
"""
import re

from . import facts


class Eff:
    __slots__ = ('k', 'name', 'obj', 'args', 'val', 'loc', 'node', 'fid', 'stack')

    def __init__(self, k, name=None, obj=None, args=(), val=None, loc=None, node=None, fid=None, stack=()):
        self.k = k; self.name = name; self.obj = obj; self.args = args
        self.val = val; self.loc = loc; self.node = node; self.fid = fid; self.stack = stack

    def __repr__(self):
        return 'Eff(%s %s obj=%s args=%s val=%s @%s)' % (self.k, self.name, show(self.obj), [show(a) for a in self.args], show(self.val), self.loc)


# tree nodes are tuples:
#  ('eff', Eff) ('if', cond, [then], [else], loc) ('loop', info, [body], loc)
#  ('switch', sel, [(labels, [stmts])...], loc) ('ret', val, loc) ('brk',) ('cont',)
#  ('try', [body], [(type,[handler])], loc) ('inl', fid, [body], loc, name)
#  ('throw', loc) ('scope', [body], [locals])

UNSIGNED = re.compile(r'^(const )?(unsigned|bool|char16|std::size_t)')


def show(v, d=0):
    if v is None:
        return '-'
    if not isinstance(v, tuple):
        return str(v)
    if d > 12:
        return '...'
    k = v[0]
    s = lambda x: show(x, d + 1)
    if k == 'c': return str(v[1])
    if k == 's': return repr(v[1])
    if k == 'null': return 'nullptr'
    if k == 'this': return 'this'
    if k == 'parm': return v[1]
    if k == 'loc': return v[3]
    if k == 'fld': return (s(v[1]) + '.' if v[1] != ('this',) else '') + v[2]
    if k == 'at': return '%s[%s]' % (s(v[1]), s(v[2]))
    if k == 'op': return '(%s %s %s)' % (s(v[2]), v[1], s(v[3]))
    if k == 'un': return '%s%s' % (v[1], s(v[2]))
    if k == 'call': return '%s%s(%s)' % (s(v[2]) + '.' if v[2] else '', v[1].split('::')[-1], ', '.join(s(a) for a in v[3]))
    if k == 'cast': return '(%s)%s' % (v[1], s(v[2]))
    if k == 'new': return 'new ' + str(v[1])
    if k == 'ite': return '(%s ? %s : %s)' % (s(v[1]), s(v[2]), s(v[3]))
    if k == 'lv': return 'i%s' % v[1]
    if k == 'ctor': return '%s(%s)' % (v[1].split('::')[-1], ', '.join(s(a) for a in v[2]))
    if k == 'init': return '{%s}' % ', '.join(s(a) for a in v[1])
    if k == 'g': return str(v[1])
    if k == 'iter': return 'iter(%s,%s)' % (s(v[1]), s(v[2]))
    return '<%s>' % ' '.join(str(x) if not isinstance(x, tuple) else s(x) for x in v)


def short(t):
    t = re.sub(r'\bconst ', '', t or '')
    return t.replace(' &', '').replace('&', '').strip()


def is_unsigned(t):
    t = short(t)
    return bool(re.match(r'^(unsigned|bool$)', t)) or t.endswith('*')


def type_bits(t):
    t = short(t)
    return {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16,
            'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64,
            'float': 32, 'double': 64}.get(t)


NEG = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '>': '<=', '<=': '>'}
SWAP = {'==': '==', '!=': '!=', '<': '>', '>': '<', '<=': '>=', '>=': '<='}
COMM = {'+', '*', '&', '|', '^', '==', '!='}


def mkop(op, a, b):
    if a[0] == 'c' and b[0] == 'c' and all(isinstance(x[1], (int, float)) for x in (a, b)):
        x, y = a[1], b[1]
        try:
            if op == '+': return ('c', x + y)
            if op == '-': return ('c', x - y)
            if op == '*': return ('c', x * y)
            if op == '/' and y: return ('c', x // y if isinstance(x, int) and isinstance(y, int) and x >= 0 and y > 0 else x / y)
            if op == '%' and y: return ('c', x % y)
            if op == '<<': return ('c', x << y)
            if op == '>>': return ('c', x >> y)
            if op == '&': return ('c', x & y)
            if op == '|': return ('c', x | y)
            if op == '^': return ('c', x ^ y)
            if op in NEG:
                return ('c', int({'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]))
        except TypeError:
            pass
    # linear normalisation of + and * with constants
    if op == '-' and b[0] == 'c' and isinstance(b[1], int):
        return mkop('+', a, ('c', -b[1]))
    if op == '+':
        terms, c = [], 0
        for x in (a, b):
            for t in (_sum_terms(x)):
                if t[0] == 'c' and isinstance(t[1], int):
                    c += t[1]
                else:
                    terms.append(t)
        if not any(t[0] in ('s',) or (t[0] == 'c' and isinstance(t[1], str)) for t in terms):
            terms.sort(key=repr)
            out = None
            for t in terms:
                out = t if out is None else ('op', '+', out, t)
            if out is None:
                return ('c', c)
            if c:
                out = ('op', '+', out, ('c', c))
            return out
    if op == '*':
        if b[0] != 'c' and a[0] == 'c':
            a, b = b, a
        if b == ('c', 1): return a
        if b == ('c', 0): return b
        if b[0] == 'c' and a[0] == 'op' and a[1] == '+':
            return mkop('+', mkop('*', a[2], b), mkop('*', a[3], b))
    if op in COMM and repr(a) > repr(b) and b[0] != 'c' or (op in COMM and a[0] == 'c'):
        a, b = b, a
    return ('op', op, a, b)


def _sum_terms(x):
    if x[0] == 'op' and x[1] == '+':
        return _sum_terms(x[2]) + _sum_terms(x[3])
    return [x]


def scalar_type(t, db):
    t = t or ''
    return bool(re.match(r'^(const )?(unsigned |signed )?(char|short|int|long|float|double|bool)( int| long)*( const)?$', t)) or t.endswith('*') or t.endswith('*const') or short(t) in db.enums


def strip(v):
    """remove casts everywhere"""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == 'cast':
        return strip(v[2])
    return tuple(strip(x) if isinstance(x, tuple) else x for x in v)


def subst(v, m):
    if not isinstance(v, tuple):
        return v
    if v in m:
        return m[v]
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in v)


def contains(v, pred):
    if not isinstance(v, tuple):
        return False
    if v and pred(v):
        return True
    return any(contains(x, pred) for x in v if isinstance(x, tuple))


def find_all(v, pred, out=None):
    if out is None:
        out = []
    if isinstance(v, tuple):
        if v and pred(v):
            out.append(v)
        for x in v:
            if isinstance(x, tuple):
                find_all(x, pred, out)
    return out


_SZ = {}
_KEEP = []


def vsize(v, cap=3000):
    if not isinstance(v, tuple):
        return 1
    r = _SZ.get(id(v))
    if r is not None:
        return r
    n = 1
    for x in v:
        n += vsize(x) if isinstance(x, tuple) else 1
    _SZ[id(v)] = n
    _KEEP.append(v)
    return n


def truth(v):
    """normalise a value used as a condition -> boolean formula
       ('T',) ('F',) ('A',atom) ('not',f) ('and',f,g) ('or',f,g)"""
    v0 = v
    if v[0] == 'cast':
        return truth(v[2])
    if v[0] == 'c':
        return ('T',) if v[1] else ('F',)
    if v[0] == 'null':
        return ('F',)
    if v[0] == 'un' and v[1] == '!':
        return fnot(truth(v[2]))
    if v[0] == 'op':
        op, a, b = v[1], v[2], v[3]
        if op == '&&': return fand(truth(a), truth(b))
        if op == '||': return f_or(truth(a), truth(b))
        if op in NEG:
            za, zb = a in (('c', 0), ('null',)), b in (('c', 0), ('null',))
            if op in ('==', '!='):
                if za or zb:
                    f = truth(b if za else a) if not (za and zb) else ('F',)
                    return fnot(f) if op == '==' else f
                if b[0] == 'c' and b[1] == 1 and _is_bool(a):
                    return truth(a) if op == '==' else fnot(truth(a))
                f = ('A', ('==', ) + tuple(sorted((strip(a), strip(b)), key=repr)))
                return f if op == '==' else fnot(f)
            if op == '<': return _lt(a, b)
            if op == '>': return _lt(b, a)
            if op == '<=': return fnot(_lt(b, a))
            if op == '>=': return fnot(_lt(a, b))
    if v[0] == 'call' and v[1].endswith('::empty') and v[2] is not None:
        return fnot(('A', ('nz', ('call', 'size', strip(v[2]), ()))))
    if v[0] == 'call' and v[1].endswith('::size') and v[2] is not None:
        return ('A', ('nz', ('call', 'size', strip(v[2]), ())))
    if v[0] == 'ite':
        c = truth(v[1])
        return f_or(fand(c, truth(v[2])), fand(fnot(c), truth(v[3])))
    return ('A', ('nz', canon(strip(v))))


def _is_bool(a):
    return a[0] == 'op' and a[1] in NEG or a[0] == 'un' and a[1] == '!'


def canon(v):
    """canonical names for container size()/empty()"""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == 'call' and isinstance(v[1], str) and re.search(r'::(size|length)$', v[1]) and v[2] is not None and not v[3]:
        return ('call', 'size', canon(strip(v[2])), ())
    return tuple(canon(x) if isinstance(x, tuple) else x for x in v)


def _lt(a, b):
    a, b = canon(strip(a)), canon(strip(b))
    if a == ('c', 0) and (b[0] == 'call' and b[1] == 'size' or b[0] == 'op' and b[1] == '&' or b[0] == 'un' and b[1] == 'u'):
        return ('A', ('nz', b))
    if a[0] == 'c' and b[0] == 'c':
        return ('T',) if a[1] < b[1] else ('F',)
    # x < 1 (unsigned size) == !nz
    if b == ('c', 1) and a[0] == 'call' and a[1] == 'size':
        return fnot(('A', ('nz', a)))
    return ('A', ('<', a, b))


def fnot(f):
    if f[0] == 'T': return ('F',)
    if f[0] == 'F': return ('T',)
    if f[0] == 'not': return f[1]
    return ('not', f)


def fand(a, b):
    if a[0] == 'F' or b[0] == 'F': return ('F',)
    if a[0] == 'T': return b
    if b[0] == 'T': return a
    if a == b: return a
    if a == fnot(b): return ('F',)
    return ('and', a, b)


def f_or(a, b):
    if a[0] == 'T' or b[0] == 'T': return ('T',)
    if a[0] == 'F': return b
    if b[0] == 'F': return a
    if a == b: return a
    if a == fnot(b): return ('T',)
    return ('or', a, b)


def atoms(f, out=None):
    if out is None:
        out = []
    if f[0] == 'A':
        if f[1] not in out:
            out.append(f[1])
    else:
        for x in f[1:]:
            if isinstance(x, tuple):
                atoms(x, out)
    return out


def feval(f, m):
    k = f[0]
    if k == 'T': return True
    if k == 'F': return False
    if k == 'A': return m[f[1]]
    if k == 'not': return not feval(f[1], m)
    if k == 'and': return feval(f[1], m) and feval(f[2], m)
    return feval(f[1], m) or feval(f[2], m)


def fmap(f, fn):
    """replace atoms: fn(atom)-> formula"""
    k = f[0]
    if k == 'A': return fn(f[1])
    if k == 'not': return fnot(fmap(f[1], fn))
    if k == 'and': return fand(fmap(f[1], fn), fmap(f[2], fn))
    if k == 'or': return f_or(fmap(f[1], fn), fmap(f[2], fn))
    return f


def project(f, keep):
    """existentially project away the atoms not accepted by keep(atom)"""
    for a in atoms(f):
        if not keep(a):
            f = f_or(fmap(f, lambda x: ('T',) if x == a else ('A', x)), fmap(f, lambda x: ('F',) if x == a else ('A', x)))
    return f


def implies(f, g):
    at = atoms(f)
    for a in atoms(g):
        if a not in at:
            at.append(a)
    if len(at) > 14:
        return None
    for i in range(1 << len(at)):
        m = {a: bool(i >> n & 1) for n, a in enumerate(at)}
        if not _consistent(m):
            continue
        if feval(f, m) and not feval(g, m):
            return False
    return True


def _consistent(m):
    """integer theory for atoms ('==',x,c): at most one constant true per x; (nz x)/(x == c)"""
    seen = {}
    for a, v in m.items():
        if a[0] == '==' and v:
            x, c = (a[2], a[1]) if a[1][0] == 'c' else (a[1], a[2])
            if c[0] in ('c', 's'):
                if x in seen and seen[x] != c:
                    return False
                seen[x] = c
                if c[0] == 'c' and c[1] != 0 and m.get(('nz', x)) is False:
                    return False
    # order atoms with constants: find an integer satisfying per-variable bounds
    lo, hi, ne, eq = {}, {}, {}, {}
    for a, v in m.items():
        if a[0] == '<':
            x, y = a[1], a[2]
            if y[0] == 'c' and isinstance(y[1], int):
                if v: hi[x] = min(hi.get(x, 1 << 70), y[1] - 1)
                else: lo[x] = max(lo.get(x, -(1 << 70)), y[1])
            elif x[0] == 'c' and isinstance(x[1], int):
                if v: lo[y] = max(lo.get(y, -(1 << 70)), x[1] + 1)
                else: hi[y] = min(hi.get(y, 1 << 70), x[1])
        if a[0] == '==' and (a[1][0] == 'c' or a[2][0] == 'c'):
            x, c = (a[2], a[1]) if a[1][0] == 'c' else (a[1], a[2])
            if isinstance(c[1], int):
                if v: lo[x] = max(lo.get(x, -(1 << 70)), c[1]); hi[x] = min(hi.get(x, 1 << 70), c[1])
                else: ne.setdefault(x, set()).add(c[1])
        if a[0] == 'nz':
            x = a[1]
            if not v:
                lo[x] = max(lo.get(x, -(1 << 70)), 0); hi[x] = min(hi.get(x, 1 << 70), 0)
            else:
                ne.setdefault(x, set()).add(0)
    for x in set(lo) | set(hi):
        l, h = lo.get(x, -(1 << 70)), hi.get(x, 1 << 70)
        if l > h:
            return False
        if h - l < 64 and all(n in ne.get(x, ()) for n in range(l, h + 1)):
            return False
    return True


def equiv(f, g):
    a, b = implies(f, g), implies(g, f)
    if a is None or b is None:
        return None
    return a and b


def fshow(f):
    k = f[0]
    if k in 'TF': return k
    if k == 'A':
        a = f[1]
        if a[0] == 'nz': return show(a[1])
        if a[0] == 'caught': return 'caught'
        return '%s %s %s' % (show(a[1]), a[0], show(a[2]))
    if k == 'not': return '!(%s)' % fshow(f[1])
    return '(%s %s %s)' % (fshow(f[1]), {'and': '&&', 'or': '||'}[k], fshow(f[2]))


class Engine:
    def __init__(self, db, inline=None, max_depth=10, keep_fields=True):
        self.db = db
        self.inline = inline or (lambda fid, f, depth: True)
        self.max_depth = max_depth
        self.uid = 0
        self.lambdas = {}
        self.this_cls = None
        self.nodes = 0
        self.ghost = None       # callee predicate: its result is added to the ghost counter '$w'
        self.loops = {}
        self.exact = False      # keep all numeric conversions, floating literals stay floating
        self.track = ()         # members whose stored value is forgotten by name: reads after a store differ from reads before

    def fresh(self):
        self.uid += 1
        return self.uid

    # ---------------------------------------------------------------- entry
    def summarize(self, f, this_cls=None, args=None):
        """effect tree of function f (dict from db.funcs)"""
        self.this_cls = this_cls or f.get('cls')
        env = {}
        for i, p in enumerate(f['p']):
            env[p['id']] = args[i] if args else ('parm', p['name'] if 'name' in p else p['n'])
        if self.ghost:
            env['$w'] = ('c', 0)
        ctx = Ctx(self, f, env, ('this',), (), {('this',): self.this_cls})
        out = []
        for ini in f.get('inits', ()):
            v = ctx.ev(ini['e'], out) if ini.get('e') else None
            if 'm' in ini:
                out.append(('eff', Eff('set', ini['n'], ('fld', ('this',), ini['n']), (), v, (f['file'], ini['l']), ini, None, ())))
        ctx.stmt(f['body'], out)
        return out

    def dyn_class(self, ctx, obj):
        return ctx.cls.get(obj)


class Ctx:
    def __init__(self, eng, f, env, this, stack, cls):
        self.e = eng; self.f = f; self.env = env; self.this = this
        self.stack = stack; self.cls = cls; self.db = eng.db
        self.file = f['file']

    def loc(self, n):
        return (self.file, n.get('l', 0))

    # ------------------------------------------------------------ statements
    def stmt(self, s, out):
        if s is None:
            return
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m:
            m(s, out)
        else:
            self.ev(s, out)

    def s_Block(self, s, out):
        locs = []
        body = []
        for x in s['s']:
            self.stmt(x, body)
            if x['k'] == 'Decl':
                for d in x['d']:
                    if 'id' in d and self.env.get(d['id'], (None,))[0] == 'loc':
                        locs.append(self.env[d['id']])
        if locs:
            out.append(('scope', body, locs))
        else:
            out.extend(body)

    def s_Decl(self, s, out):
        for d in s['d']:
            self.var(d, out)

    def var(self, d, out):
        init = d.get('init')
        t = d.get('t') or ''
        v = None
        if init is not None:
            v = self.ev(init, out)
        ref = t.endswith('&')
        scalar = scalar_type(t, self.db)
        if 'bind' in d:
            for i, b in enumerate(d['bind']):
                self.env[b['id']] = ('fld', v, '#%d' % i) if v is not None else ('opq', 'bind', self.e.fresh())
            return
        if v is None:
            v = ('loc', self.e.fresh(), short(t), d['n'])
            if not scalar:
                out.append(('eff', Eff('decl', short(t), v, (), None, self.loc(d), d, None, self.stack)))
        elif not ref and not scalar:
            it = v[0] in ('ctor', 'init') or (init.get('k') == 'Ctor' and not init.get('copy'))
            if it and not (v[0] == 'ctor' and len(v[2]) == 1 and 'basic_string' in v[1]):
                args = v[2] if v[0] == 'ctor' else (v,)
                obj = ('loc', self.e.fresh(), short(t), d['n'])
                fid = init.get('f')
                out.append(('eff', Eff('decl', short(t), obj, args, v, self.loc(d), d, fid, self.stack)))
                cn = short(t)
                if cn in self.db.classes:
                    self.cls[obj] = cn
                v = obj
        self.env[d['id']] = v
        if not ref and scalar and v[0] not in ('loc',) and self.pathlike(v):
            pass

    def pathlike(self, v):
        return v[0] in ('fld', 'at')

    def s_If(self, s, out):
        if s.get('i'):
            self.stmt(s['i'], out)
        if s.get('cvd'):
            self.stmt(s['cvd'], out)
        c = self.ev(s['c'], out)
        if c[0] == 'c':
            self.stmt(s['a'] if c[1] else s.get('b'), out)
            return
        a, b = [], []
        e0 = dict(self.env)
        self.stmt(s['a'], a)
        ea = self.env
        self.env = dict(e0)
        if s.get('b'):
            self.stmt(s['b'], b)
        eb = self.env
        ta, tb = terminates(a), terminates(b)
        if ta and not tb: self.env = eb
        elif tb and not ta: self.env = ea
        else:
            m = {}
            for key in e0:
                x, y = ea.get(key), eb.get(key)
                if x is y or x == y:
                    m[key] = x
                elif x is None or y is None or vsize(x) + vsize(y) + vsize(c) > 1500:
                    m[key] = ('opq', 'phi', self.e.fresh(), key)
                else:
                    m[key] = ('ite', c, x, y)
            self.env = m
        out.append(('if', c, a, b, self.loc(s)))

    def assigned(self, s, acc):
        """local ids assigned (or incremented / address-taken) in statement s"""
        stack = [s]
        while stack:
            n = stack.pop()
            if isinstance(n, list):
                stack.extend(n); continue
            if not isinstance(n, dict):
                continue
            k = n.get('k')
            if k == 'Bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                self._lv(n['a'], acc)
            elif k == 'Un' and n['op'] in ('++', '--', 'post++', 'post--', '&'):
                self._lv(n['e'], acc)
            elif k == 'OpCall' and n.get('op', '').endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') or k == 'OpCall' and n.get('op') in ('++', '--'):
                if n['a']:
                    self._lv(n['a'][0], acc)
            elif k in ('Call', 'MCall', 'Ctor', 'OpCall'):
                f = self.db.decls.get(n.get('f') or '')
                ps = [p['t'] for p in f['p']] if f else None
                for i, a in enumerate(n.get('a', ())):
                    if a and a.get('k') == 'Ref' and a.get('dk') in ('var', 'parm'):
                        if ps is not None and i < len(ps):
                            if ps[i].endswith('&') and not ps[i].startswith('const '):
                                self._lv(a, acc)
            for v in n.values():
                if isinstance(v, (dict, list)):
                    stack.append(v)
        return acc

    def _lv(self, n, acc):
        while n and n.get('k') == 'Cast':
            n = n['e']
        if n and n.get('k') == 'Ref' and n.get('dk') in ('var', 'parm'):
            acc.add(n['id'])

    def rebindable(self, i):
        """can the environment entry of local i change by assignment? (references and
        class objects keep their identity)"""
        if self.is_ref.get(i):
            return False
        v = self.env.get(i)
        if v is not None and v[0] in ('loc', 'new') and v[0] == 'loc' and not scalar_type(v[2], self.db):
            return False
        return True

    def loop(self, s, cond, inc, body, out, pre=None, first=None, kind='loop'):
        lid = self.e.fresh()
        asg = {i for i in self.assigned([cond, inc, body], set()) if self.rebindable(i)}
        if self.e.ghost and '$w' in self.env and self.ghost_calls([cond, inc, body]):
            asg.add('$w')
        before = dict(self.env)
        info = {'id': lid, 'kind': kind, 'ind': None}
        for i in asg:
            if i in self.env:
                v = self.env[i]
                # induction variable: starts anywhere, only ++ in inc / body end
                st = self.step_of(i, inc, body)
                if st == 1 and v is not None and v[0] == 'c' and v[1] == 0:
                    self.env[i] = ('lv', lid)
                elif st == 1 and v is not None and v[0] == 'call' and re.search(r'::c?begin$', v[1]):
                    self.env[i] = ('iter', v[2], ('lv', lid))
                elif st is not None and v is not None:
                    self.env[i] = mkop('+', v, mkop('*', ('lv', lid), ('c', st)))
                    if v[0] in ('loc', 'opq'):
                        self.env[i] = ('opq', 'loopvar', lid, i)
                else:
                    self.env[i] = ('opq', 'loopvar', lid, i)
                if self.env[i][0] == 'opq' and v is not None:
                    info.setdefault('init', {})[self.env[i]] = v
        b = []
        c = None
        if cond is not None and kind != 'do':
            c = self.ev(cond, b)
        if pre:
            pre(lid)
        self.stmt(body, b)
        if inc is not None:
            self.ev(inc, b)
        if cond is not None and kind == 'do':
            c = self.ev(cond, b)
        info['cond'] = c
        info['end'] = {i: self.env.get(i) for i in asg if i in before}
        info['before'] = {i: before[i] for i in asg if i in before}
        self.e.loops[lid] = info
        for i in asg:
            if i in before:
                self.env[i] = ('opq', 'after', lid, i)
        for i in list(self.env):
            if i not in before:
                pass
        out.append(('loop', info, b, self.loc(s)))
        return info

    def ghost_calls(self, n):
        stack = [n]
        while stack:
            x = stack.pop()
            if isinstance(x, list):
                stack.extend(x)
            elif isinstance(x, dict):
                if x.get('k') in ('Call', 'MCall') and x.get('f') and self.e.ghost(x['f'], x):
                    return True
                stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
        return False

    def step_of(self, vid, inc, body):
        """constant step if the variable is changed exactly once per iteration by
        a constant, unconditionally; else None"""
        changes = []
        def walk(n, cond):
            if isinstance(n, list):
                for x in n: walk(x, cond)
                return
            if not isinstance(n, dict):
                return
            k = n.get('k')
            if k == 'Un' and n['op'] in ('++', '--', 'post++', 'post--') and n['e'].get('id') == vid and n['e'].get('k') == 'Ref':
                changes.append((1 if '++' in n['op'] else -1, cond)); return
            if k == 'OpCall' and n.get('op') in ('++', '--') and n['a'] and n['a'][0].get('id') == vid:
                changes.append((1 if '++' in n['op'] else -1, cond)); return
            if k == 'Bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
                a = n['a']
                if a.get('k') == 'Ref' and a.get('id') == vid:
                    cv = n['b'].get('cv')
                    if n['op'] == '+=' and cv is not None: changes.append((cv, cond))
                    elif n['op'] == '-=' and cv is not None: changes.append((-cv, cond))
                    else: changes.append((None, cond))
            if k in ('Call', 'MCall', 'Ctor', 'OpCall'):
                acc = set()
                self.assigned([dict(n)], acc)
                direct = set()
                f = self.db.decls.get(n.get('f') or '')
                if f:
                    for i, a in enumerate(n.get('a', ())):
                        if a and a.get('k') == 'Ref' and a.get('id') == vid and i < len(f['p']) and f['p'][i]['t'].endswith('&') and not f['p'][i]['t'].startswith('const '):
                            changes.append((None, cond))
            if k == 'Un' and n['op'] == '&' and n['e'].get('k') == 'Ref' and n['e'].get('id') == vid:
                changes.append((None, cond))
            c2 = cond or k in ('If', 'Switch', 'For', 'While', 'Do', 'ForRange', 'Cond')
            for kk, v in n.items():
                if isinstance(v, (dict, list)):
                    walk(v, c2)
        walk(inc, False)
        # top level statements of the body only count as unconditional
        walk(body, False)
        has_cont = contains_kind(body, 'Continue')
        if len(changes) == 1 and changes[0][0] is not None and not changes[0][1]:
            if has_cont and inc is None:
                return None
            return changes[0][0]
        return None

    def s_For(self, s, out):
        if s.get('i'):
            self.stmt(s['i'], out)
        self.loop(s, s.get('c'), s.get('n'), s['b'], out, kind='for')

    def s_While(self, s, out):
        body = s['b']
        if s.get('cvd'):
            body = {'k': 'Block', 'l': s['l'], 's': [s['cvd'], body]}
            self.loop(s, None, None, body, out, kind='while')
            return
        self.loop(s, s.get('c'), None, body, out, kind='while')

    def s_Do(self, s, out):
        self.loop(s, s.get('c'), None, s['b'], out, kind='do')

    def s_ForRange(self, s, out):
        r = self.ev(s['r'], out)
        v = s['v']
        holder = {}
        def pre(lid):
            el = ('at', r, ('lv', lid))
            if 'bind' in v:
                for i, b in enumerate(v['bind']):
                    self.env[b['id']] = ('fld', el, '#%d' % i)
            else:
                self.env[v['id']] = el
        info = self.loop(s, None, None, s['b'], out, pre=pre, kind='range')
        info['range'] = r
        info['var_t'] = v.get('t')

    def s_Switch(self, s, out):
        if s.get('i'):
            self.stmt(s['i'], out)
        c = self.ev(s['c'], out)
        groups = []   # (labels, stmts)
        body = s['b']
        items = body['s'] if body and body['k'] == 'Block' else [body]
        cur = None
        e0 = dict(self.env)
        envs = []
        for x in items:
            labels = []
            while x is not None and x['k'] in ('Case', 'Default'):
                if x['k'] == 'Case':
                    hi = x.get('hi', {}).get('cv') if x.get('hi') else None
                    labels.append((x.get('cv'), hi) if hi is not None else x.get('cv'))
                else:
                    labels.append('default')
                x = x['s']
            if labels:
                if cur is not None and cur[1] and not terminates(cur[1], True):
                    falls = cur
                else:
                    falls = None
                if cur is not None:
                    envs.append(self.env)
                cur = (labels, [], [falls is not None])
                groups.append(cur)
                self.env = dict(e0) if not (falls) else self.env
            if x is not None:
                if cur is None:
                    cur = ([], [], [False]); groups.append(cur)
                self.stmt(x, cur[1])
        if cur is not None:
            envs.append(self.env)
        # merge
        m = {}
        sid = self.e.fresh()
        has_def = any('default' in g[0] for g in groups)
        live = []
        for i, (e, g) in enumerate(zip(envs, groups)):
            if leaves_fn(g[1]) or i + 1 < len(groups) and groups[i + 1][2][0]: continue
            if nested_brk(g[1]):
                e = {q: (v if v == e0.get(q) else ('opq', 'switch', sid, q)) for q, v in e.items()}
            live.append(e)
        if not has_def:
            live.append(e0)
        for key in e0:
            vals = []
            for e in live:
                if e.get(key) not in vals:
                    vals.append(e.get(key))
            if len(vals) == 1: m[key] = vals[0]
            elif not vals: m[key] = e0[key]
            else: m[key] = ('opq', 'switch', sid, tuple(e.get(key) for e in live))
        self.env = m
        out.append(('switch', c, [(g[0], g[1], g[2][0]) for g in groups], self.loc(s)))

    def s_Case(self, s, out):
        self.stmt(s['s'], out)
    s_Default = s_Case
    s_Label = s_Case

    def s_Break(self, s, out): out.append(('brk', self.loc(s)))
    def s_Continue(self, s, out): out.append(('cont', self.loc(s)))
    def s_Null(self, s, out): pass

    def s_Return(self, s, out):
        v = self.ev(s['e'], out) if s.get('e') else None
        if self.e.ghost and '$w' in self.env:
            out.append(('eff', Eff('gret', '$w', None, (v,), self.env['$w'], self.loc(s), s, None, self.stack)))
        out.append(('ret', v, self.loc(s)))

    def s_Try(self, s, out):
        b = []
        e0 = dict(self.env)
        self.stmt(s['b'], b)
        e1 = self.env
        hs = []
        asg = self.assigned(s['b'], set())
        merged = dict(e1)
        for h in s['h']:
            self.env = dict(e0)
            for i in asg:
                if i in self.env and self.env[i][0] != 'loc':
                    self.env[i] = ('opq', 'try', self.e.fresh(), i)
            hb = []
            if h.get('v'):
                self.env[h['v']['id']] = ('loc', self.e.fresh(), h.get('t') or '', h['v']['n'])
            self.stmt(h['b'], hb)
            if not terminates(hb):
                for key in list(merged):
                    if merged[key] != self.env.get(key) and key in e0:
                        merged[key] = ('opq', 'tryphi', self.e.fresh(), (merged[key], self.env.get(key)))
            hs.append((h.get('t'), hb))
        self.env = merged
        out.append(('try', b, hs, self.loc(s)))

    def s_OtherStmt(self, s, out):
        for x in s.get('a', ()):
            self.stmt(x, out)

    # ------------------------------------------------------------ expressions
    def ev(self, n, out):
        if n is None:
            return ('opq', 'none')
        self.e.nodes += 1
        k = n['k']
        if k in ('Int', 'Bool'):
            return ('c', n['cv'])
        if 'cv' in n and k not in ('Ref',):
            return ('c', n['cv'])
        return getattr(self, 'e_' + k, self.e_other)(n, out)

    def e_other(self, n, out):
        vs = []
        for key, v in n.items():
            if isinstance(v, dict) and 'k' in v:
                vs.append(self.ev(v, out))
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict) and 'k' in x:
                        if x['k'] in ('Block', 'Decl', 'If', 'For', 'While', 'Return'):
                            self.stmt(x, out)
                        else:
                            vs.append(self.ev(x, out))
        return ('opq', n['k'] + n.get('sc', ''), self.e.fresh(), tuple(vs))

    def e_Float(self, n, out): return ('c', float(n['v']) if self.e.exact else n['v'])
    def e_Str(self, n, out): return ('s', n['v'])
    def e_NullPtr(self, n, out): return ('null',)
    def e_This(self, n, out): return self.this
    def e_ZeroInit(self, n, out): return ('c', 0)
    def e_Sizeof(self, n, out): return ('c', n['cv']) if 'cv' in n else ('opq', 'sizeof')

    def e_Ref(self, n, out):
        dk = n['dk']
        if dk == 'enum':
            return ('c', n['cv'])
        if dk in ('var', 'parm'):
            v = self.env.get(n['id'])
            if v is None:
                return ('loc', n['id'], short(n.get('t')), n['n'])
            return v
        if dk == 'func':
            return ('fn', n['id'])
        if 'cv' in n:
            return ('c', n['cv'])
        g = self.db.globals.get(n['id'])
        if g and g.get('init') and g['init'].get('k') == 'Str' and 'const' in (g.get('t') or ''):
            return ('s', g['init']['v'])
        if g and g.get('init') and g['init'].get('k') == 'Float' and 'const' in (g.get('t') or ''):
            return ('c', g['init']['v'])
        return ('g', n['id'])

    def e_Member(self, n, out):
        b = self.ev(n['b'], out)
        b = self.deref(b)
        if self.e.track and n['n'] in self.e.track and b == ('this',) and '$f' + n['n'] in self.env:
            return self.env['$f' + n['n']]
        return ('fld', b, n['n'])

    def e_MemFn(self, n, out):
        return ('opq', 'memfn', n['n'])

    def deref(self, b):
        """object designated by a pointer-ish value; pointers and objects share paths"""
        while True:
            if b[0] == 'cast':
                b = b[2]
            elif b[0] == 'un' and b[1] in ('*', '&'):
                b = b[2]
            elif b[0] == 'call' and b[2] is not None and re.search(r'(unique_ptr|shared_ptr).*::(get|operator->|operator\*)$', b[1]):
                b = b[2]
            elif b[0] == 'call' and re.search(r'::(move|forward|addressof)(<.*>)?$', b[1]) and b[1].startswith('std::') and len(b[3]) == 1 and b[2] is None:
                b = b[3][0]
            else:
                return b

    def e_Cast(self, n, out):
        v = self.ev(n['e'], out)
        ck = n['ck']
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'NoOp', 'BaseToDerived', 'LValueToRValue', 'ConstructorConversion'):
            return v
        if ck == 'Dynamic':
            return ('cast', 'dyn ' + short(n['t']), v)
        if self.e.exact and ck in ('IntegralCast', 'FloatingToIntegral', 'IntegralToFloating', 'FloatingCast'):
            if v[0] == 'c' and ck == 'IntegralToFloating': return ('c', float(v[1]))
            if v[0] == 'c' and ck in ('IntegralCast', 'FloatingCast'): return v
            return ('cast', short(n['t']), v)
        if ck in ('IntegralCast', 'FloatingToIntegral', 'IntegralToFloating', 'FloatingCast'):
            if v[0] == 'c' and ck == 'IntegralCast':
                return v
            src = type_bits((n['e'] or {}).get('t'))
            dst = type_bits(n['t'])
            if ck == 'IntegralCast' and src and dst and dst >= src:
                return v
            if ck == 'IntegralToFloating' or ck == 'FloatingCast' and src and dst and dst >= src:
                return v
            return ('cast', short(n['t']), v)
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return ('op', '!=', v, ('c', 0)) if ck == 'IntegralToBoolean' else v
        if ck == 'BitCast' or ck == 'LValueBitCast':
            return ('cast', 'bit ' + short(n['t']), v)
        return v

    def e_Un(self, n, out):
        op = n['op']
        v = self.ev(n['e'], out)
        if op in ('++', '--', 'post++', 'post--'):
            new = mkop('+', v, ('c', 1 if '++' in op else -1))
            self.assign(n['e'], new, out, n, op)
            return v if op.startswith('post') else new
        if op == '*':
            if v[0] == 'iter':
                return ('at', v[1], v[2])
            return self.deref(v) if v[0] in ('un', 'cast') or True else v
        if op == '&':
            return v
        if op == '!':
            if v[0] == 'un' and v[1] == '!':
                return v[2]
            return ('un', '!', v)
        if op == '-' and v[0] == 'c':
            return ('c', -v[1])
        if op == '+':
            return v
        return ('un', op, v)

    def assign(self, lhs, val, out, n, op='='):
        x = lhs
        while x and x.get('k') == 'Cast':
            x = x['e']
        if x.get('k') == 'Ref' and x.get('dk') in ('var', 'parm'):
            cur = self.env.get(x['id'])
            t = None
            d = self.var_type(x)
            if cur is not None and cur[0] in ('fld', 'at', 'loc', 'new') and (self.is_ref.get(x['id'])):
                out.append(('eff', Eff('set', op, cur, (), val, self.loc(n), n, None, self.stack)))
                return
            if vsize(val) > 600:
                val = ('opq', 'big', self.e.fresh())
            self.env[x['id']] = val
            out.append(('eff', Eff('lset', x['n'], ('opq', 'local', x['n']), (), val, self.loc(n), n, None, self.stack)))
            return
        tgt = self.ev_lv(lhs, out)
        if self.e.track and tgt[0] == 'opq' and tgt[1] == 'stored': tgt = ('fld', ('this',), tgt[2])
        out.append(('eff', Eff('set', op, tgt, (), val, self.loc(n), n, None, self.stack)))
        if self.e.track and tgt[0] == 'fld' and tgt[1] == ('this',) and tgt[2] in self.e.track:
            self.env['$f' + tgt[2]] = ('opq', 'stored', tgt[2], self.e.fresh())

    def var_type(self, x):
        return x.get('t')

    @property
    def is_ref(self):
        if not hasattr(self, '_isref'):
            self._isref = {}
            for p in self.f['p']:
                if p['t'].endswith('&'):
                    self._isref[p['id']] = True
            stack = [self.f['body']]
            while stack:
                n = stack.pop()
                if isinstance(n, list):
                    stack.extend(n)
                elif isinstance(n, dict):
                    if n.get('k') == 'Var' and (n.get('t') or '').endswith('&') and 'id' in n:
                        self._isref[n['id']] = True
                    if n.get('k') == 'Var' and (n.get('t') or '').endswith('&'):
                        for b in n.get('bind', ()):
                            self._isref[b['id']] = True
                    if n.get('k') == 'Lambda':
                        for p in n['p']:
                            if p['t'].endswith('&'):
                                self._isref[p['id']] = True
                    stack.extend(v for v in n.values() if isinstance(v, (dict, list)))
        return self._isref

    def ev_lv(self, n, out):
        return self.ev(n, [])

    def e_Bin(self, n, out):
        op = n['op']
        if op == ',':
            self.ev(n['a'], out)
            return self.ev(n['b'], out)
        if op in ('&&', '||'):
            a = self.ev(n['a'], out)
            sub = []
            e0 = dict(self.env)
            b = self.ev(n['b'], sub)
            for key in e0:
                if self.env.get(key) != e0[key]:
                    self.env[key] = ('opq', 'sc', self.e.fresh())
            if a[0] == 'c':
                if bool(a[1]) == (op == '&&'):
                    out.extend(sub)
                    return b
                return ('c', int(op == '||'))
            if sub:
                c = a if op == '&&' else ('un', '!', a)
                out.append(('if', c, sub, [], self.loc(n)))
            if b[0] == 'c':
                if bool(b[1]) == (op == '&&'): return a
            return ('op', op, a, b)
        if op == '=':
            v = self.ev(n['b'], out)
            self.ev_side(n['a'], out)
            self.assign(n['a'], v, out, n, op)
            return v
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            a = self.ev(n['a'], out)
            b = self.ev(n['b'], out)
            v = mkop(op[:-1], a, b)
            self.assign(n['a'], v, out, n, op)
            return v
        a = self.ev(n['a'], out)
        b = self.ev(n['b'], out)
        if op == '<' or op == '>':
            z, o, ot = (a, b, (n['b'] or {})) if op == '<' else (b, a, (n['a'] or {}))
            if z == ('c', 0) and is_unsigned(ot.get('t', '')):
                return ('op', '!=', o, ('c', 0))
        return mkop(op, a, b)

    def ev_side(self, n, out):
        """side effects in the designator of an assignment (index expressions...)"""
        if n and n.get('k') in ('Index', 'OpCall', 'Member', 'Un', 'MCall', 'Call', 'Cast'):
            tmp = []
            self.ev(n, tmp)
            out.extend(tmp)

    def e_Cond(self, n, out):
        c = self.ev(n['c'], out)
        if c[0] == 'c':
            return self.ev(n['a'] if c[1] else n['b'], out)
        a, b = [], []
        e0 = dict(self.env)
        va = self.ev(n['a'], a)
        ea = self.env
        self.env = dict(e0)
        vb = self.ev(n['b'], b)
        for key in e0:
            x, y = ea.get(key), self.env.get(key)
            if x is not y and x != y:
                self.env[key] = ('ite', c, x, y) if x is not None and y is not None else ('opq', 'phi', self.e.fresh(), key)
        if a or b:
            out.append(('if', c, a, b, self.loc(n)))
        if va == vb:
            return va
        return ('ite', c, va, vb)

    def e_Index(self, n, out):
        b = self.deref(self.ev(n['b'], out))
        i = self.ev(n['i'], out)
        out.append(('eff', Eff('index', '[]', b, (i,), None, self.loc(n), n, None, self.stack)))
        return ('at', b, strip(i))

    def e_Init(self, n, out):
        vs = tuple(self.ev(x, out) for x in n['a'])
        if len(vs) == 1 and type_bits(n.get('t')):
            return vs[0]
        return ('init', vs)

    def e_Throw(self, n, out):
        if n.get('e'):
            self.ev(n['e'], out)
        out.append(('throw', self.loc(n)))
        return ('opq', 'throw')

    def e_New(self, n, out):
        args = ()
        v0 = None
        if n.get('size'):
            v0 = self.ev(n['size'], out)
        if n.get('init'):
            v = self.ev(n['init'], out)
            args = v[2] if v[0] == 'ctor' else (v,)
        v = ('new', n['nt'], self.e.fresh())
        if n['nt'] in self.db.classes:
            self.cls[v] = n['nt']
        out.append(('eff', Eff('new', n['nt'], v, args, v0, self.loc(n), n, (n.get('init') or {}).get('f'), self.stack)))
        return v

    def e_Delete(self, n, out):
        v = self.ev(n['e'], out)
        out.append(('eff', Eff('delete', None, v, (), None, self.loc(n), n, None, self.stack)))
        return ('opq', 'void')

    def e_Lambda(self, n, out):
        u = self.e.fresh()
        self.e.lambdas[u] = (n, self)
        return ('lam', u)

    def e_Ctor(self, n, out):
        args = [self.ev(a, out) for a in n['a']]
        c = n['c']
        if n.get('copy') and len(args) == 1:
            return args[0]
        if c.startswith('std::basic_string<') and len(args) >= 1 and args[0][0] == 's':
            return args[0]
        if re.search(r'std::(basic_string_view|function|optional)', c) and len(args) >= 1:
            return args[0]
        if re.search(r'^std::(unique_ptr|shared_ptr)', c) and len(args) >= 1:
            return args[0]
        if c.startswith('std::basic_string<') and not args:
            return ('s', '')
        f = n.get('f')
        out.append(('eff', Eff('ctor', c, None, tuple(args), None, self.loc(n), n, f, self.stack)))
        return ('ctor', c, tuple(args))

    def e_OpCall(self, n, out):
        op = n['op']
        a = n['a']
        nm = n.get('n', 'operator' + op)
        f = self.db.funcs.get(n.get('f') or '')
        if f:
            obj = None
            rest = a
            if f.get('cls'):
                obj = self.deref(self.ev(a[0], out)); rest = a[1:]
            return self.do_call(n, nm, obj, rest, out)
        if op == '=':
            v = self.ev(a[1], out)
            x = a[0]
            if x.get('k') == 'Ref' and x.get('dk') in ('var', 'parm') and not (self.is_ref.get(x['id']) or (self.env.get(x['id']) or ('',))[0] == 'loc'):
                self.assign(x, v, out, n)
            else:
                tgt = self.deref(self.ev(x, out))
                if x.get('k') == 'Ref' and x.get('dk') in ('var', 'parm') and not self.is_ref.get(x['id']) and not re.match(r'^std::(vector|map|list|deque|basic_o|basic_i|basic_f)', short(x.get('t'))):
                    self.env[x['id']] = v
                    out.append(('eff', Eff('lset', x['n'], tgt, (), v, self.loc(n), n, n.get('f'), self.stack)))
                else:
                    out.append(('eff', Eff('set', '=', tgt, (), v, self.loc(n), n, n.get('f'), self.stack)))
            return v
        if op in ('++', '--') and a:
            v = self.ev(a[0], out)
            if v[0] == 'iter':
                return v
            new = ('op', '+', v, ('c', 1 if op == '++' else -1))
            self.assign(a[0], new, out, n, op)
            return v
        if op == '()' :
            fn = self.ev(a[0], out)
            args = [self.ev(x, out) for x in a[1:]]
            if fn[0] == 'lam':
                return self.inline_lambda(fn, args, out, n)
            out.append(('eff', Eff('call', 'operator()', fn, tuple(args), None, self.loc(n), n, n.get('f'), self.stack)))
            return ('call', 'operator()', fn, tuple(args))
        vs = [self.ev(x, out) for x in a]
        if op == '[]':
            b = self.deref(vs[0])
            out.append(('eff', Eff('index', nm, b, (vs[1],), None, self.loc(n), n, n.get('f'), self.stack)))
            return ('at', b, strip(vs[1]))
        if op in ('->', '*') and len(vs) == 1:
            if vs[0][0] == 'iter':
                return ('at', vs[0][1], vs[0][2])
            return self.deref(vs[0]) if re.search(r'_ptr<', nm) else ('un', '*', vs[0])
        if op in NEG and len(vs) == 2:
            if vs[0][0] == 'iter' or vs[1][0] == 'iter':
                return ('op', op, vs[0], vs[1])
            return mkop(op, vs[0], vs[1])
        if op == '!':
            return ('un', '!', vs[0])
        if op in ('+', '-') and len(vs) == 2 and 'string' not in nm:
            return mkop(op, vs[0], vs[1])
        out.append(('eff', Eff('call', nm, vs[0] if vs else None, tuple(vs[1:]), None, self.loc(n), n, n.get('f'), self.stack)))
        if op == '<<' or op == '>>':
            return vs[0]
        if op.endswith('=') and len(vs) == 2:
            x = a[0]
            if x.get('k') == 'Ref' and x.get('dk') in ('var', 'parm') and not self.is_ref.get(x['id']):
                self.env[x['id']] = ('op', op[:-1], vs[0], vs[1])
        return ('call', nm, None, tuple(vs))

    def e_Call(self, n, out):
        nm = n.get('n')
        if nm is None:
            fn = self.ev(n.get('fe'), out)
            args = [self.ev(x, out) for x in n['a']]
            if fn[0] == 'lam':
                return self.inline_lambda(fn, args, out, n)
            out.append(('eff', Eff('call', '<indirect>', fn, tuple(args), None, self.loc(n), n, None, self.stack)))
            return ('call', '<indirect>', fn, tuple(args))
        if nm in ('std::move', 'std::forward', 'std::as_const') and len(n['a']) == 1:
            return self.ev(n['a'][0], out)
        if nm in ('std::begin', 'std::cbegin', 'std::end', 'std::cend', 'std::size') and len(n['a']) == 1:
            v = self.deref(self.ev(n['a'][0], out))
            return ('call', nm, v, ())
        if nm == 'std::for_each' and len(n['a']) == 3:
            tmp = []
            b0, e0, fn = [self.ev(a, tmp) for a in n['a']]
            if fn[0] == 'lam' and b0[0] == 'call' and b0[1].endswith('begin') and b0[2] is not None:
                lam, ctx = self.e.lambdas[fn[1]]
                rng = b0[2]
                if lam['p'] and ctx is self:
                    holder = {'l': n['l']}
                    def pre(lid):
                        self.env[lam['p'][0]['id']] = ('at', rng, ('lv', lid))
                    info = self.loop(holder, None, None, lam['b'], out, pre=pre, kind='range')
                    info['range'] = rng
                    return ('opq', 'for_each')
        if nm in ('std::make_unique', 'std::make_shared'):
            args = tuple(self.ev(a, out) for a in n['a'])
            m = re.match(r'^std::(?:unique|shared)_ptr<(.*?)(?:, std::default_delete<.*)?>$', n.get('t') or '')
            ct = m.group(1) if m else '?'
            v = ('new', ct, self.e.fresh())
            if ct in self.db.classes:
                self.cls[v] = ct
            out.append(('eff', Eff('new', ct, v, args, None, self.loc(n), n, n.get('f'), self.stack)))
            return v
        return self.do_call(n, nm, None, n['a'], out)

    def e_MCall(self, n, out):
        nm = n.get('n', '<memptr>')
        o = self.ev(n['o'], out) if n.get('o') else None
        if o is not None and re.search(r'^std::(unique_ptr|shared_ptr|__shared_ptr).*::(get|operator bool)$', nm):
            return self.deref(o)
        if o is not None:
            if not re.search(r'_ptr<.*::(get|reset|release|swap|use_count|unique|operator bool)$', nm):
                o = self.deref(o)
        return self.do_call(n, nm, o, n['a'], out)

    def inline_lambda(self, fn, args, out, n):
        lam, ctx = self.e.lambdas[fn[1]]
        if len(self.stack) > self.e.max_depth:
            out.append(('eff', Eff('call', '<lambda>', fn, tuple(args), None, self.loc(n), n, None, self.stack)))
            return ('opq', 'lam', self.e.fresh())
        body = []
        env_keep = dict(self.env) if ctx is not self else None
        host = ctx
        save = dict(host.env)
        for p, a in zip(lam['p'], args):
            host.env[p['id']] = a
        st = host.stack
        host.stack = self.stack + (('<lambda>', self.loc(n)),)
        host.stmt(lam['b'], body)
        host.stack = st
        rv = ret_value(body)
        # keep assignments to captured locals
        for kk in list(host.env):
            if kk not in save:
                del host.env[kk]
        if body:
            out.append(('inl', '<lambda>', body, self.loc(n), '<lambda>'))
        return rv if rv is not None else ('opq', 'lamret', self.e.fresh())

    PURE = re.compile(r'::(size|length|empty|begin|end|cbegin|cend|rbegin|rend|back|front|c_str|data|get|at|find|count|good|is_open|value|has_value|str|substr|second|first|eof|fail|load|joinable|owns_lock|tellg|capacity|max|min|operator bool|exists|file_size)$')

    def do_call(self, n, nm, obj, argn, out):
        fid = n.get('f')
        args = tuple(self.ev(a, out) for a in argn)
        tgt = fid
        f = self.db.funcs.get(fid or '')
        if n.get('virt') and fid:
            dc = self.cls.get(obj) if obj is not None else None
            if obj == self.this and dc is None:
                dc = None
            if dc:
                tgt = self.final_overrider(fid, dc)
                f = self.db.funcs.get(tgt)
            else:
                ov = self.db.overriders.get(fid, ())
                if ov:
                    f = None
        depth = len(self.stack)
        if f is not None and depth < self.e.max_depth and not any(s[0] == tgt for s in self.stack) and f is not self.f and self.e.inline(tgt, f, depth):
            return self.inline_call(n, f, tgt, obj, args, out)
        # plain local scalars handed over by non-const reference: pass their identity,
        # the callee determines their value from here on
        d = self.db.decls.get(fid or '')
        if d:
            al = list(args)
            for i, (p, a) in enumerate(zip(d['p'], argn)):
                if p['t'].endswith('&') and not p['t'].startswith('const ') and a and a.get('k') == 'Ref' and a.get('dk') in ('var', 'parm') and not self.is_ref.get(a['id']):
                    cur = self.env.get(a['id'])
                    if cur is None or cur[0] != 'loc':
                        al[i] = ('loc', self.e.fresh(), short(a.get('t')), a['n'])
                        self.env[a['id']] = al[i]
            args = tuple(al)
        out.append(('eff', Eff('call', nm, obj, args, self.env.get('$w') if self.e.ghost else None, self.loc(n), n, tgt or fid, self.stack)))
        if self.e.ghost and '$w' in self.env and fid and self.e.ghost(fid, n):
            self.env['$w'] = mkop('+', self.env['$w'], ('call', nm, obj, args))
        for a in args:
            if a[0] == 'lam':
                lam, ctx = self.e.lambdas[a[1]]
                for i in self.assigned(lam['b'], set()):
                    if i in self.env and self.rebindable(i):
                        self.env[i] = ('opq', 'lam', self.e.fresh(), i)
        if nm and nm.startswith('std::') and self.PURE.search(nm):
            return ('call', nm, obj, args)
        d = self.db.decls.get(fid or '')
        if d is not None and d.get('const') or n.get('mc'):
            return ('call', nm, obj, args)
        return ('call', nm, obj, args)

    def final_overrider(self, fid, cls):
        cand = self.db.overriders.get(fid, set()) | {fid}
        for c in [cls] + self.db.bases(cls):
            for i in cand:
                d = self.db.decls.get(i)
                if d and d.get('cls') == c:
                    return i
        return fid

    def inline_call(self, n, f, fid, obj, args, out):
        env = {}
        for p, a in zip(f['p'], args):
            env[p['id']] = a
        cls = self.cls
        ctx = Ctx(self.e, f, env, obj if obj is not None else ('this',), self.stack + ((fid, self.loc(n)),), cls)
        if obj is not None and obj not in cls and obj[0] in ('loc', 'new', 'ctor') and f.get('cls'):
            pass
        body = []
        ctx.stmt(f['body'], body)
        rv = ret_value(body)
        # by-reference scalar out parameters assigned in the callee
        for p, a, an in zip(f['p'], args, n.get('a', ())[-len(f['p']):] if f['p'] else ()):
            if p['t'].endswith('&') and not p['t'].startswith('const ') and an and an.get('k') == 'Ref' and an.get('dk') in ('var', 'parm'):
                if not self.is_ref.get(an['id']) and self.assigned(f['body'], set()) & {p['id']}:
                    self.env[an['id']] = ('opq', 'out', self.e.fresh(), f['n'], an['n'])
        if body and not (len(body) == 1 and body[0][0] == 'ret'):
            out.append(('inl', fid, body, self.loc(n), f['n'], ('call', f['n'], obj, args)))
        if rv is None or contains(rv, lambda x: x[0] == 'opq'):
            rv = ('call', f['n'], obj, args)
        return rv


def terminates(body, brk=False):
    """does the statement list always leave (return/throw/break/continue)?"""
    for x in body:
        k = x[0]
        if k in ('ret', 'throw', 'cont'):
            return True
        if k == 'brk':
            return True
        if k == 'scope' and terminates(x[1], brk):
            return True
        if k == 'if' and x[2] and x[3] and terminates(x[2], brk) and terminates(x[3], brk):
            return True
        if k == 'try' and terminates(x[1], brk) and all(terminates(h[1], brk) for h in x[2]):
            return True
        if k == 'switch' and any('default' in g[0] for g in x[2]) and all(ret_all(g[1]) for g in x[2]):
            return True
    return False


def leaves_fn(body):
    """never reaches the statement after the enclosing switch"""
    for x in body:
        if x[0] in ('ret', 'throw', 'cont'): return True
        if x[0] == 'brk': return False
        if x[0] == 'scope' and leaves_fn(x[1]): return True
        if x[0] == 'if' and x[2] and x[3] and leaves_fn(x[2]) and leaves_fn(x[3]): return True
        if x[0] in ('scope', 'if', 'try') and nested_brk([x], 0): return False
    return False


def nested_brk(body, top=1):
    """a break of the enclosing switch below an if or try"""
    for x in body:
        if x[0] == 'brk' and not top: return True
        if x[0] == 'scope' and nested_brk(x[1], top): return True
        if x[0] == 'if' and (nested_brk(x[2], 0) or nested_brk(x[3], 0)): return True
        if x[0] == 'try' and (nested_brk(x[1], 0) or any(nested_brk(h[1], 0) for h in x[2])): return True
    return False


def ret_all(body):
    for x in body:
        if x[0] in ('ret', 'throw'):
            return True
        if x[0] == 'scope' and ret_all(x[1]):
            return True
        if x[0] == 'if' and x[2] and x[3] and ret_all(x[2]) and ret_all(x[3]):
            return True
    return False


def ret_value(body):
    """value returned by a statement list when it can be expressed, else None"""
    for i, x in enumerate(body):
        k = x[0]
        if k == 'ret':
            return x[1]
        if k == 'throw':
            return ('opq', 'throw')
        if k == 'scope':
            r = ret_value(x[1] + body[i + 1:])
            return r
        if k == 'if':
            if has_ret(x[2]) or has_ret(x[3]):
                a = ret_value(x[2] + body[i + 1:])
                b = ret_value(x[3] + body[i + 1:])
                if a is None or b is None:
                    return None
                return a if a == b else ('ite', x[1], a, b)
        elif k == 'switch':
            if any(has_ret(g[1]) for g in x[2]):
                rest = ret_value(body[i + 1:])
                cases = []
                for g in x[2]:
                    r = ret_value(g[1])
                    if r is None:
                        r = rest
                    cases.append((tuple(map(str, g[0])), r))
                if any(c[1] is None for c in cases):
                    return None
                return ('sw', x[1], tuple(cases), rest)
        elif k in ('loop', 'try'):
            sub = x[2] if k == 'loop' else x[1]
            if has_ret(sub) or (k == 'try' and any(has_ret(h[1]) for h in x[2])):
                return None
    return None


def has_ret(body):
    for x in body:
        k = x[0]
        if k == 'ret': return True
        if k == 'scope' and has_ret(x[1]): return True
        if k == 'if' and (has_ret(x[2]) or has_ret(x[3])): return True
        if k == 'loop' and has_ret(x[2]): return True
        if k == 'switch' and any(has_ret(g[1]) for g in x[2]): return True
        if k == 'try' and (has_ret(x[1]) or any(has_ret(h[1]) for h in x[2])): return True
    return False


def contains_kind(n, kind):
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, list):
            stack.extend(x)
        elif isinstance(x, dict):
            if x.get('k') == kind:
                return True
            stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
    return False


def walk(body):
    """all nodes of an effect tree, preorder"""
    for x in body:
        yield x
        k = x[0]
        if k == 'if':
            yield from walk(x[2]); yield from walk(x[3])
        elif k in ('loop', 'inl'):
            yield from walk(x[2])
        elif k == 'scope':
            yield from walk(x[1])
        elif k == 'switch':
            for g in x[2]:
                yield from walk(g[1])
        elif k == 'try':
            yield from walk(x[1])
            for h in x[2]:
                yield from walk(h[1])


def effects(body):
    for x in walk(body):
        if x[0] == 'eff':
            yield x[1]


def dump(body, ind=0, out=None, skip=()):
    top = out is None
    if top:
        out = []
    p = '  ' * ind
    for x in body:
        k = x[0]
        if k == 'eff':
            if x[1].k in skip:
                continue
            out.append('%s%s %s obj=%s (%s) val=%s  @%s:%s' % (p, x[1].k, (x[1].name or '')[-40:], show(x[1].obj), ', '.join(show(a) for a in x[1].args), show(x[1].val), x[1].loc[0].split('/')[-1], x[1].loc[1]))
        elif k == 'if':
            out.append('%sIF %s' % (p, show(x[1]))); dump(x[2], ind + 1, out, skip)
            if x[3]:
                out.append(p + 'ELSE'); dump(x[3], ind + 1, out, skip)
        elif k == 'loop':
            out.append('%sLOOP %s cond=%s range=%s' % (p, x[1]['kind'], show(x[1].get('cond')), show(x[1].get('range')))); dump(x[2], ind + 1, out, skip)
        elif k == 'inl':
            out.append('%sINLINE %s' % (p, x[4])); dump(x[2], ind + 1, out, skip)
        elif k == 'scope':
            out.append('%sSCOPE %s' % (p, [l[3] for l in x[2]])); dump(x[1], ind + 1, out, skip)
        elif k == 'switch':
            out.append('%sSWITCH %s' % (p, show(x[1])))
            for g in x[2]:
                out.append('%s case %s' % (p, g[0])); dump(g[1], ind + 1, out, skip)
        elif k == 'try':
            out.append(p + 'TRY'); dump(x[1], ind + 1, out, skip)
            for h in x[2]:
                out.append('%sCATCH %s' % (p, h[0])); dump(h[1], ind + 1, out, skip)
        elif k == 'ret':
            out.append('%sRET %s' % (p, show(x[1])))
        else:
            out.append(p + k)
    if top:
        return '\n'.join(out)


def call_args(n):
    return n.get('a', ())
