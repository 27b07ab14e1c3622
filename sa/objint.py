"""Abstract interpretation of object-level code over a domain of tokens.

A number that the code may hold is a token (Num) that stands for every number; a text is a Python string whose
private-use characters are tokens that stand for any text.  A comparison of a token with a constant is a decision that is
explored both ways (only those that some value of the token allows).  Library containers, strings, streams and smart
pointers are modelled; functions of the repository are followed through their bodies."""
import re, itertools
from .facts import AnalysisError


PYERR = (AttributeError, TypeError, KeyError, IndexError, ValueError, OverflowError, ZeroDivisionError, AssertionError)    # a value the models do not know


class Stuck(Exception):
    pass


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v): self.v = v


class CThrow(Exception):
    def __init__(self, t): self.t = t


class Cell:
    __slots__ = ('v',)

    def __init__(self, v=None): self.v = v


class Obj:
    __slots__ = ('cls', 'f')

    def __init__(self, cls, f=None): self.cls, self.f = cls, f if f is not None else {}
    def __repr__(self): return '<%s>' % self.cls.split('::')[-1]


class Vec:
    __slots__ = ('items', 'kind')

    def __init__(self, items=None, kind='vector'): self.items, self.kind = items if items is not None else [], kind
    def __repr__(self): return 'Vec%r' % [c.v for c in self.items]


class MapV:
    __slots__ = ('items', 'ordered', 'rev')

    def __init__(self, items=None, ordered=True): self.items, self.ordered = items if items is not None else [], ordered
    def __repr__(self): return 'Map%r' % [(c.v.f['first'].v, c.v.f['second'].v) for c in self.items]


class Opt:
    __slots__ = ('c',)

    def __init__(self, c=None): self.c = c
    def __repr__(self): return 'Opt(%r)' % (self.c.v if self.c else None)


class Ptr:
    __slots__ = ('c', 'i')

    def __init__(self, c, i=None): self.c, self.i = c, i        # i: index in the container held by the cell
    def __repr__(self): return 'Ptr(%r)' % (self.c.v,)


class _Null:
    def __repr__(self): return 'NULL'


NULL = _Null()


class It:
    __slots__ = ('c', 'i', 'rev')

    def __init__(self, c, i, rev=False): self.c, self.i, self.rev = c, i, rev


class Lam:
    __slots__ = ('n', 'env', 'this')

    def __init__(self, n, env, this): self.n, self.env, self.this = n, env, this


class Fn:
    __slots__ = ('id', 'name')

    def __init__(self, id, name): self.id, self.name = id, name


class Stream:
    __slots__ = ('buf', 'pos', 'prec', 'fail', 'fixed', 'hexa')

    def __init__(self, buf=''): self.buf, self.pos, self.prec, self.fail, self.fixed, self.hexa = buf, 0, 6, False, False, False


class Num:
    """token for an arbitrary number; ty in 'iuf'; k identifies it"""
    __slots__ = ('k', 'ty')

    def __init__(self, k, ty): self.k, self.ty = k, ty
    def __eq__(self, o): return isinstance(o, Num) and self.k == o.k
    def __hash__(self): return hash(self.k)
    def __repr__(self): return 'Num(%s)' % (self.k,)


class Opaque:
    __slots__ = ('n',)

    def __init__(self, n=''): self.n = n
    def __repr__(self): return 'Opaque(%s)' % self.n


class Texts:
    """private-use characters <-> what they stand for"""
    def __init__(self): self.t, self.c = {}, {}

    def ch(self, tok):
        if tok not in self.t:
            x = chr(0xE000 + len(self.t))
            self.t[tok] = x
            self.c[x] = tok
        return self.t[tok]


def head(t):
    t = (t or '').replace('const ', '').strip().rstrip('&').strip()
    return t.split('<')[0].strip()


def split_args(t):
    i = t.find('<')
    if i < 0: return []
    out, d, cur = [], 0, ''
    for ch in t[i + 1:t.rfind('>')]:
        if ch in '<(': d += 1
        if ch in '>)': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out


def base_name(n):
    """name of the method without its class, template arguments removed"""
    d, cut = 0, 0
    m = re.search(r'operator\s*(<<|<=|<|>>|>=|>|->|bool|.*)$', n)
    if m and '::operator' in n: return 'operator' + m.group(1) if not m.group(1).strip().startswith('basic') else 'operator conv'
    for i, ch in enumerate(n):
        if ch == '<': d += 1
        elif ch == '>': d -= 1
        elif ch == ':' and d == 0: cut = i + 1
    return n[cut:].split('<')[0]


CONT = {'std::vector': 'vector', 'std::deque': 'deque', 'std::list': 'list', 'std::array': 'array', 'std::stack': 'stack', 'std::set': 'set', 'std::initializer_list': 'vector'}
MAPS = {'std::map': True, 'std::unordered_map': False, 'std::multimap': True}
STR = ('std::basic_string', 'std::basic_string_view', 'std::string', 'std::string_view', 'std::__cxx11::basic_string')
PTRS = ('std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr')
INTS = {'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'wchar_t'}
BITS = {'bool': (1, 0), 'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1),
        'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0)}


def strip(t): return re.sub(r'\bconst\b', '', t or '').strip().rstrip('&').strip()


class Interp:
    limit = 4000000

    def __init__(self, db, texts=None, hook=None, trail=None):
        self.db, self.tx, self.hook = db, texts or Texts(), hook
        self.frames = []
        self.gone = set()              # (environment, variable) of blocks that were left
        self.trail = trail if trail is not None else []      # preset decisions [(key, bool)]
        self.pos = 0
        self.forks = []                                      # (index, key) where the other side was possible
        self.cons = {}                                       # token -> [(op, const, bool)]
        self.nofork = lambda tok: False
        self.env, self.this, self.line, self.file = {}, None, 0, ''
        self.globals = {}
        self.steps, self.depth = 0, 0
        self.used = set()
        self.skipped = set()

    # -- decisions
    def sat(self, tok, extra):
        cs = self.cons.get(tok.k, []) + [extra]
        cand = set()
        for op, c, _ in cs:
            for d in (-1, 0, 1) if tok.ty != 'f' else (-1, -0.5, 0, 0.5, 1): cand.add(c + d)
        cand |= {123456789, 977} | ({-977} if tok.ty != 'u' else set())
        if tok.ty == 'u': cand = {x for x in cand if x >= 0}
        return any(all(self._cmp(op, x, c) == b for op, c, b in cs) for x in cand)

    @staticmethod
    def _cmp(op, a, b):
        return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]

    def decide(self, tok, op, c):
        t, f = self.sat(tok, (op, c, True)), self.sat(tok, (op, c, False))
        if t and f:
            if self.pos < len(self.trail): v = self.trail[self.pos]
            else:
                v = op not in ('==', '<', '<=')
                self.trail.append(v)
                if not self.nofork(tok): self.forks.append(self.pos)
            self.pos += 1
        else: v = t
        self.cons.setdefault(tok.k, []).append((op, c, v))
        return v

    def choice(self, default=True):
        """a decision of the environment; both outcomes are explored"""
        if self.pos < len(self.trail): v = self.trail[self.pos]
        else:
            v = default
            self.trail.append(v)
            self.forks.append(self.pos)
        self.pos += 1
        return v

    def same_num(self, a, b):
        """equal under the decisions taken"""
        if isinstance(a, Num) and isinstance(b, Num): return a.k == b.k
        if isinstance(b, Num): a, b = b, a
        if isinstance(a, Num): return not self.sat(a, ('==', b, False)) if isinstance(b, (int, float)) else False
        return a == b

    def truth(self, v):
        if isinstance(v, Cell): v = v.v
        if isinstance(v, bool): return v
        if isinstance(v, (int, float)): return v != 0
        if isinstance(v, Num): return self.decide(v, '!=', 0)
        if v is NULL or v is None: return False
        if isinstance(v, Opt): return v.c is not None
        if isinstance(v, Stream): return not v.fail
        if isinstance(v, (Ptr, Lam, Fn, It, str, Vec, Obj)): return True
        raise Stuck('truth of %r' % (v,))

    # -- values
    def copy(self, v):
        if isinstance(v, Obj): return Obj(v.cls, {k: Cell(self.copy(c.v)) for k, c in v.f.items()})
        if isinstance(v, Vec): return Vec([Cell(self.copy(c.v)) for c in v.items], v.kind)
        if isinstance(v, MapV): return MapV([Cell(self.copy(c.v)) for c in v.items], v.ordered)
        if isinstance(v, Opt): return Opt(Cell(self.copy(v.c.v)) if v.c else None)
        if isinstance(v, Stream):
            s = Stream(v.buf); s.pos, s.prec, s.fail = v.pos, v.prec, v.fail
            return s
        if isinstance(v, It): return It(v.c, v.i, v.rev)
        return v

    def default(self, t):
        t = strip(t)
        if t.endswith('*') or t == 'std::nullptr_t': return NULL
        if re.search(r'\[\d*\]$', t):
            return '' if t.startswith('char') else Vec([Cell(self.default(t[:t.rfind('[')])) for _ in range(int(re.search(r'\[(\d*)\]$', t).group(1) or 0))], 'array')
        h = head(t)
        if t == 'bool': return False
        if t in INTS or t.startswith('enum ') or t in self.db.enums: return 0
        if t in ('float', 'double'): return 0.0
        if h in STR: return ''
        if h == 'std::array':
            a = split_args(t)
            return Vec([Cell(self.default(a[0])) for _ in range(int(re.sub(r'\D', '', a[1]) or 0))], 'array')
        if h in CONT: return Vec([], CONT[h])
        if h in MAPS: return MapV([], MAPS[h])
        if h == 'std::optional': return Opt()
        if h in PTRS: return NULL
        if h == 'std::function': return NULL
        if h == 'std::pair':
            a = split_args(t)
            return Obj('std::pair', {'first': Cell(self.default(a[0])), 'second': Cell(self.default(a[1]))})
        if 'stringstream' in h or h in ('std::basic_ostream', 'std::ostream'): return Stream()
        if h == 'std::atomic': return self.default(split_args(t)[0])
        if t in self.db.classes: return self.new(t)
        return Opaque(t)

    def new(self, cls, fid=None, args=()):
        o = Obj(cls)
        for c in [cls] + list(self.db.bases(cls)):
            for fl in self.db.classes.get(c, {}).get('fields', ()):
                o.f.setdefault(fl['n'], Cell(None))
        self.init_obj(o, cls, fid, args)
        return o

    def init_obj(self, o, cls, fid, args):
        """run the constructor of cls on o (args: cells)"""
        f = self.db.funcs.get(fid or '')
        if f is None and fid is None:
            for i in self.db.by_name.get(cls + '::' + cls.split('::')[-1], ()):
                g = self.db.funcs[i]
                if not g['p']: f = g
        done = set()
        save = (self.env, self.this, self.line, self.file)
        self.env, self.this = {}, Cell(o)
        if f is not None:
            self.file = f['file']
            for p, c in zip(f['p'], args): self.env[p['id']] = c
        try:
            ini = (f or {}).get('inits') or ()
            for i in ini:
                if i.get('base'):
                    done.add(i['base'])
                    e = i.get('e')
                    if e is not None and e.get('k') == 'Ctor':
                        self.init_obj(o, i['base'], e.get('f'), self.params(e.get('f'), e['a']))
            for b in self.db.classes.get(cls, {}).get('bases', ()):
                if b not in done and b in self.db.classes and not any(i.get('deleg') for i in ini): self.init_obj(o, b, None, ())
            for i in ini:
                if i.get('deleg') and i['e'].get('k') == 'Ctor':
                    self.init_obj(o, cls, i['e'].get('f'), self.params(i['e'].get('f'), i['e']['a']))
                    done.add('deleg')
            named = {i.get('n') or i.get('m'): i for i in ini if not i.get('base')}
            for fl in (self.db.classes.get(cls, {}).get('fields', ()) if 'deleg' not in done else ()):
                i = named.get(fl['n'])
                if i is not None and i.get('e') is not None: v = self.init_value(i['e'], fl['t'])
                elif fl.get('init') is not None: v = self.init_value(fl['init'], fl['t'])
                else: v = self.default(fl['t'])
                o.f[fl['n']].v = v
            if f is not None and f.get('body'):
                try: self.st(f['body'])
                except _Return: pass
        finally:
            self.env, self.this, self.line, self.file = save

    def init_value(self, e, t):
        if t.endswith('&'): return self.ev(e)
        if e.get('k') in ('ZeroInit', 'ValueInit'): return self.default(t)
        if e.get('k') == 'Init' and not e['a']: return self.default(t)
        if e.get('k') == 'Init' and len(e['a']) == 1 and (strip(t) in INTS or strip(t) in self.db.enums or strip(t) in ('bool', 'double', 'float') or strip(t).endswith('*')):
            return self.conv(self.ev(e['a'][0]), t)
        v = self.ev(e)
        if isinstance(v, list): v = self.from_list(v, t)
        return self.conv(self.copy(v), t)

    def conv(self, v, t):
        t = strip(t)
        if isinstance(v, bool):
            return v if t == 'bool' or t not in BITS and t not in ('float', 'double') else int(v)
        if t == 'bool' and isinstance(v, (int, float)): return v != 0
        if t == 'bool' and isinstance(v, Num): return self.decide(v, '!=', 0)
        if t in BITS and isinstance(v, (int, float)):
            w, s = BITS[t]
            if w == 8 and v >= 0xE000: return v            # a character of a token
            v = int(v) & ((1 << w) - 1)
            return v - (1 << w) if s and v >> (w - 1) else v
        if t in ('float', 'double') and isinstance(v, int): return float(v)
        if t == 'float' and isinstance(v, Num) and v.ty == 'f': return v if v.k[0] == 'f32' else Num(('f32', v.k), 'f')
        if t in BITS and isinstance(v, Num):
            if v.ty == 'f': return Num(('trunc', v.k), 'i')
            w = BITS[t][0]
            if w < 64 and v.k[0] == 'tok' and len(v.k) > 2 and v.k[2] > w: return Num(('cut', v.k, w), 'u')
            return v
        if t in ('float', 'double') and isinstance(v, Num) and v.ty != 'f': return Num(('flt', v.k), 'f')
        if head(t) == 'std::optional' and not isinstance(v, Opt):
            if isinstance(v, Opaque): return Opt()
            return Opt(Cell(v))
        return v

    def from_list(self, items, t):
        t = strip(t)
        h = head(t)
        if h in MAPS: 
            m = MapV([], MAPS[h])
            for x in items:
                p = x if isinstance(x, Obj) else self.from_list(x, 'std::pair<%s, %s>' % tuple(split_args(t)[:2]))
                self.map_put(m, p.f['first'].v, p.f['second'].v)
            return m
        if h == 'std::pair':
            a = split_args(t)
            return Obj('std::pair', {'first': Cell(self.conv(self.copy(items[0]), a[0])), 'second': Cell(self.conv(self.copy(items[1]), a[1]))})
        if h in CONT or t.endswith(']'):
            if len(items) == 1 and isinstance(items[0], list): items = items[0]
            e = split_args(t)[0] if '<' in t else t[:t.rfind('[')]
            if len(items) == 1 and isinstance(items[0], Vec) and head(e) not in CONT: return items[0]
            v = Vec([Cell(self.from_list(x, e) if isinstance(x, list) else self.conv(self.copy(x), e)) for x in items], CONT.get(h, 'array'))
            if h == 'std::array':
                n = int(re.sub(r'\D', '', split_args(t)[1]))
                while len(v.items) < n: v.items.append(Cell(self.default(e)))
            return v
        if t in self.db.classes and not self.db.classes[t].get('bases'):
            o = self.new(t)
            for fl, x in zip(self.db.classes[t]['fields'], items): o.f[fl['n']].v = self.from_list(x, fl['t']) if isinstance(x, list) else self.conv(self.copy(x), fl['t'])
            return o
        if len(items) == 1: return items[0]
        if not items: return self.default(t)
        return items

    # -- containers
    def map_find(self, m, k):
        for i, c in enumerate(m.items):
            if self.eq(c.v.f['first'].v, k): return i
        return None

    def map_put(self, m, k, v, over=False):
        i = self.map_find(m, k)
        if i is not None:
            if over: m.items[i].v.f['second'].v = v
            return i, False
        c = Cell(Obj('std::pair', {'first': Cell(k), 'second': Cell(v)}))
        m.items.append(c)
        if m.ordered:
            try: m.items.sort(key=lambda c: c.v.f['first'].v)
            except TypeError: pass
        return next(j for j, x in enumerate(m.items) if x is c), True

    def eq(self, a, b):
        if isinstance(a, Cell): a = a.v
        if isinstance(b, Cell): b = b.v
        if isinstance(a, Num) or isinstance(b, Num):
            if isinstance(a, Num) and isinstance(b, Num): return a.k == b.k
            if isinstance(b, Num): a, b = b, a
            if isinstance(b, (int, float)): return self.decide(a, '==', b)
            raise Stuck('compare %r %r' % (a, b))
        if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)): return a == b
        if a is NULL or b is NULL: return a is b
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.c is b.c and a.i == b.i
        if isinstance(a, It) and isinstance(b, It): return a.i == b.i and a.rev == b.rev
        if isinstance(a, Opt) or isinstance(b, Opt):
            av = a.c.v if isinstance(a, Opt) and a.c else a
            bv = b.c.v if isinstance(b, Opt) and b.c else b
            if isinstance(av, Opt) or isinstance(bv, Opt): return isinstance(av, Opt) and isinstance(bv, Opt)
            return self.eq(av, bv)
        if isinstance(a, Vec) and isinstance(b, Vec): return len(a.items) == len(b.items) and all(self.eq(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Obj) and isinstance(b, Obj):
            for op, neg in (('==', False), ('<', True)):
                for c in [a.cls] + list(self.db.bases(a.cls)):
                    for i in self.db.by_name.get(c + '::operator' + op, ()):
                        f = self.db.funcs[i]
                        if strip(f['p'][0]['t']) in [b.cls] + list(self.db.bases(b.cls)):
                            x = self.call(f, Cell(a), [Cell(b)])
                            if not neg: return self.truth(x)
                            return not self.truth(x) and not self.truth(self.call(f, Cell(b), [Cell(a)]))
        raise Stuck('== of %r %r' % (a, b))

    def elems(self, v):
        """cells of the elements in iteration order"""
        if isinstance(v, str): return [Cell(self.chr(c)) for c in v]
        if isinstance(v, (Vec, MapV)): return v.items
        if isinstance(v, Obj) and 'items' in v.f: return v.f['items'].v.items
        raise Stuck('elements of %r' % (v,))

    @staticmethod
    def chr(c):
        o = ord(c)
        return o - 256 if 128 <= o < 256 else o

    def deref(self, p):
        if isinstance(p, Ptr):
            if p.i is None: return p.c
            v = p.c.v
            if isinstance(v, str): return Cell(self.chr(v[p.i]) if p.i < len(v) else 0)
            return self.elems(v)[p.i]
        if isinstance(p, It):
            e = self.elems(p.c.v)
            i = len(e) - 1 - p.i if p.rev else p.i
            if not 0 <= i < len(e): raise Stuck('iterator outside')
            return e[i]
        if isinstance(p, Opt):
            if p.c is None: raise Stuck('empty optional used')
            return p.c
        if isinstance(p, str): return Cell(self.chr(p[0]) if p else 0)
        if isinstance(p, Obj): return Cell(p)
        if p is NULL: raise Stuck('null dereferenced')
        raise Stuck('deref of %r' % (p,))

    # -- expressions
    def tick(self, n):
        self.steps += 1
        if self.steps > self.limit: raise Stuck('too many steps')
        if n.get('l') and n['l']: self.line = n['l']

    def ev(self, n):
        v = self.raw(n)
        return v.v if isinstance(v, Cell) else v

    def lv(self, n):
        v = self.raw(n)
        return v if isinstance(v, Cell) else Cell(v)

    def raw(self, n):
        """a Cell for an lvalue, otherwise the value"""
        self.tick(n)
        m = getattr(self, 'e_' + n['k'], None)
        if m is None: raise Stuck('expression ' + n['k'])
        return m(n)

    def e_Int(self, n): return n['cv'] if 'cv' in n else int(n['v'])
    def e_Bool(self, n): return bool(n['cv'] if 'cv' in n else n['v'])
    def e_Char(self, n): return n['cv'] if 'cv' in n else n['v']
    def e_Float(self, n): return float(n['v'])
    def e_Str(self, n): return n['v']
    def e_NullPtr(self, n): return NULL
    def e_This(self, n): return Ptr(self.this)
    def e_ZeroInit(self, n): return self.default(n.get('t'))
    e_ValueInit = e_ZeroInit
    def e_Paren(self, n): return self.raw(n['e'])
    def e_Sizeof(self, n): return n.get('cv', n.get('v', 0))
    def e_DefaultArg(self, n): return self.raw(n['e'])

    def e_Ref(self, n):
        dk = n.get('dk')
        if dk in ('var', 'parm', 'binding') or n['id'] in self.env:
            if n['id'] in self.env: return self.env[n['id']]
            if 'cv' in n: return n['cv']
            raise Stuck('unbound ' + str(n.get('n')))
        if dk == 'enum': return n['cv']
        if dk in ('global', 'smember', 'static'):
            if n['id'] not in self.globals:
                g = self.db.globals.get(n['id'])
                if g is None or g.get('init') is None:
                    if 'cv' in n: return n['cv']
                    if n.get('n') in ('endl',): return Fn('endl', 'endl')
                    raise Stuck('global ' + str(n.get('n')))
                self.globals[n['id']] = Cell(self.init_value(g['init'], g['t']))
            return self.globals[n['id']]
        if dk == 'func': return Fn(n.get('id') or n.get('f'), n.get('n'))
        if 'cv' in n: return n['cv']
        raise Stuck('reference ' + str(n.get('n')))

    def e_Member(self, n):
        b = self.ev(n['b'])
        if isinstance(b, (Ptr, It)): b = self.deref(b).v
        if isinstance(b, Obj):
            if n['n'] in b.f: return b.f[n['n']]
            b.f[n['n']] = Cell(self.default(n.get('t')))
            return b.f[n['n']]
        if n.get('id') in self.db.globals: return self.e_Ref(dict(n, dk='global'))
        raise Stuck('member %s of %r' % (n.get('n'), b))

    def e_Index(self, n): return self.index(self.ev(n['b']), self.ev(n['i']))

    def index(self, b, i):
        if isinstance(b, Ptr) and b.i is None and isinstance(b.c.v, (str, Vec)): b = b.c.v
        if isinstance(b, Ptr) and b.i is not None: return self.deref(Ptr(b.c, b.i + i))
        if not isinstance(i, int): 
            if isinstance(b, MapV): pass
            else: raise Stuck('index %r' % (i,))
        if isinstance(b, str):
            if i > len(b) or i < 0: raise Stuck('index outside of a text')
            return self.chr(b[i]) if i < len(b) else 0
        if isinstance(b, Vec):
            if not 0 <= i < len(b.items): raise Stuck('index outside')
            return b.items[i]
        raise Stuck('index of %r' % (b,))

    def e_Cond(self, n): return self.raw(n['a'] if self.truth(self.ev(n['c'])) else n['b'])

    def e_Cast(self, n):
        v = self.raw(n['e'])
        if isinstance(v, Cell) and (n.get('t') or '').endswith('&'): return v
        x = v.v if isinstance(v, Cell) else v
        t = strip(n.get('t') or '')
        if t in BITS or t in ('float', 'double') or t in self.db.enums:
            if isinstance(x, (int, float, Num)): return self.conv(x, t)
        if n.get('ck') == 'Dynamic':
            if isinstance(x, Ptr) and isinstance(x.c.v, Obj):
                c = t.rstrip('* ')
                return x if c == x.c.v.cls or c in self.db.bases(x.c.v.cls) else NULL
        return v

    def e_Lambda(self, n): return Lam(n, dict(self.env), self.this)

    def e_New(self, n):
        e = n.get('init')
        return Ptr(Cell(self.ev(e) if e else self.default(n.get('nt'))))

    def e_Throw(self, n):
        t = (n.get('e') or {}).get('t') or ''
        raise CThrow(strip(t))

    def e_Delete(self, n): return None
    def e_Typeid(self, n): return 'typeid ' + strip(n['at']) if isinstance(n.get('at'), str) else Opaque('typeid')
    def e_MemFn(self, n): return Opaque('memfn')

    def e_Un(self, n):
        op = n['op']
        post = op.startswith('post')
        if post: op = op[4:]
        if op == '*': return self.deref(self.ev(n['e']))
        if op == '&':
            if n['e'].get('k') == 'Ref' and n['e'].get('dk') == 'func': return self.ev(n['e'])
            if n['e'].get('k') == 'Index':
                b = self.lv(n['e']['b'])
                return Ptr(b, self.ev(n['e']['i']))
            return Ptr(self.lv(n['e']))
        if op in ('++', '--'):
            c = self.lv(n['e'])
            old = c.v
            c.v = self.step(old, 1 if op == '++' else -1)
            return old if post else c
        v = self.ev(n['e'])
        if op == '!': return not self.truth(v)
        if op == '-':
            if isinstance(v, Num): return Num(('neg', v.k), v.ty)
            return -v
        if op == '+': return v
        if op == '~': return self.conv(~v, n.get('t'))
        raise Stuck('unary ' + op)

    def step(self, v, d):
        if isinstance(v, It): return It(v.c, v.i + d, v.rev)
        if isinstance(v, Ptr): return Ptr(v.c, (v.i or 0) + d)
        if isinstance(v, str):
            if d == 1: return v[1:]
        if isinstance(v, Vec) and d == 1: return Ptr(Cell(v), 1)
        if isinstance(v, (int, float)): return v + d
        if isinstance(v, Num): return Num(('+', v.k, d), v.ty)
        raise Stuck('step of %r' % (v,))

    def e_Bin(self, n):
        op = n['op']
        if op == '&&': return self.truth(self.ev(n['a'])) and self.truth(self.ev(n['b']))
        if op == '||': return self.truth(self.ev(n['a'])) or self.truth(self.ev(n['b']))
        if op == ',':
            self.ev(n['a'])
            return self.raw(n['b'])
        if op == '=':
            v = self.ev(n['b'])
            c = self.lv(n['a'])
            c.v = self.conv(self.copy(v), n.get('t'))
            return c
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            c = self.lv(n['a'])
            c.v = self.conv(self.binop(op[:-1], c.v, self.ev(n['b'])), n['a'].get('t'))
            return c
        return self.conv(self.binop(op, self.ev(n['a']), self.ev(n['b'])), n.get('t')) if op not in ('==', '!=', '<', '>', '<=', '>=') else self.binop(op, self.ev(n['a']), self.ev(n['b']))

    def binop(self, op, a, b):
        if op == '==': return self.eq(a, b)
        if op == '!=': return not self.eq(a, b)
        if op in ('<', '>', '<=', '>='):
            if isinstance(a, Num) and isinstance(b, (int, float)): return self.decide(a, op, b)
            if isinstance(b, Num) and isinstance(a, (int, float)): return self.decide(b, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op], a)
            if isinstance(a, It): return self._cmp(op, a.i, b.i)
            if isinstance(a, (int, float)) and isinstance(b, (int, float)) or isinstance(a, str) and isinstance(b, str): return self._cmp(op, a, b)
            raise Stuck('%s of %r %r' % (op, a, b))
        if isinstance(a, It) and isinstance(b, It) and op == '-': return a.i - b.i
        if isinstance(a, It) and isinstance(b, int): return It(a.c, a.i + (b if op == '+' else -b), a.rev)
        if isinstance(a, Ptr) and isinstance(b, int): return Ptr(a.c, (a.i or 0) + (b if op == '+' else -b))
        if isinstance(a, str) and isinstance(b, int) and op == '+': return a[b:]
        if isinstance(a, Vec) and isinstance(b, int) and op in ('+', '-'): return Ptr(Cell(a), b if op == '+' else -b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == '-' and a.c.v is b.c.v: return (a.i or 0) - (b.i or 0)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if op == '+': return a + b
            if op == '-': return a - b
            if op == '*': return a * b
            if op == '/':
                if isinstance(a, float) or isinstance(b, float): return a / b if b else float('inf')
                if b == 0: raise Stuck('division by zero')
                q = abs(a) // abs(b)
                return q if (a < 0) == (b < 0) else -q
            if op == '%': return a - b * (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
            if op == '&': return a & b
            if op == '|': return a | b
            if op == '^': return a ^ b
            if op == '<<': return a << b
            if op == '>>': return a >> b
        if isinstance(a, (Num, int, float)) and isinstance(b, (Num, int, float)):
            ka = a.k if isinstance(a, Num) else a
            kb = b.k if isinstance(b, Num) else b
            ty = 'f' if 'f' in (getattr(a, 'ty', ''), getattr(b, 'ty', '')) or isinstance(a, float) or isinstance(b, float) else 'i'
            return Num((op, ka, kb), ty)
        raise Stuck('%s of %r %r' % (op, a, b))

    def e_Init(self, n):
        a = [self.raw(x) for x in n['a']]
        a = [x.v if isinstance(x, Cell) else x for x in a]
        t = n.get('t') or ''
        if t and t != 'void' and 'initializer_list' not in t: return self.from_list(a, t)
        return a

    e_InitList = e_Init

    # -- calls
    def params(self, fid, nodes):
        f = self.db.funcs.get(fid or '') or self.db.decls.get(fid or '')
        ps = f['p'] if f else []
        out = []
        for i, a in enumerate(nodes):
            t = ps[i]['t'] if i < len(ps) else ''
            if t.endswith('&'): out.append(self.lv(a))
            else:
                v = self.ev(a)
                if isinstance(v, list): v = self.from_list(v, t)
                out.append(Cell(self.conv(self.copy(v), t) if t else v))
        return out

    def call(self, f, this, cells):
        if self.depth > 60: raise Stuck('depth')
        self.used.add(f['id'])
        save = (self.env, self.this, self.line, self.file)
        self.env, self.this, self.file = {}, this, f['file']
        for p, c in zip(f['p'], cells): self.env[p['id']] = c
        self.depth += 1
        self.frames.append(self.env)
        if self.gone: self.gone = {x for x in self.gone if x[0] != id(self.env)}
        try:
            try: self.st(f['body'])
            except _Return as r: return self.ret(r.v, f.get('ret'))
            except PYERR as e: raise Stuck('%s: %s' % (type(e).__name__, e))
            return None
        finally:
            self.depth -= 1
            self.frames.pop()
            self.env, self.this, self.line, self.file = save

    def ret(self, v, t):
        t = t or ''
        if t.endswith('&'): return v if isinstance(v, Cell) else Cell(v)
        x = v.v if isinstance(v, Cell) else v
        if isinstance(x, list): return self.from_list(x, t)
        return self.conv(self.copy(x) if isinstance(v, Cell) else x, t)

    def e_Ctor(self, n):
        t = strip(n.get('t') or '')
        c = n['c']
        a = [x for x in n['a'] if not ('allocator' in (x.get('c') or '') and x.get('k') == 'Ctor')]
        if n.get('copy') and len(a) == 1:
            v = self.ev(a[0])
            return self.copy(v) if not (isinstance(v, list)) else self.from_list(v, t)
        h = head(t) or c
        if h in STR or c in STR: return self.new_str([self.ev(x) for x in a])
        if 'ostringstream' in h or 'istringstream' in h or 'stringstream' in h:
            vs = [self.ev(x) for x in a]
            return Stream(vs[0] if vs and isinstance(vs[0], str) else '')
        if h in CONT or h in MAPS or h == 'std::pair':
            vs = [self.ev(x) for x in a]
            vs = [v for v in vs if not isinstance(v, Opaque)]
            if not vs: return self.default(t)
            if h == 'std::pair': return self.from_list(vs, t)
            if isinstance(vs[0], (Vec, MapV)) and len(vs) == 1: return self.copy(vs[0])
            if isinstance(vs[0], list): return self.from_list(vs[0], t)
            if isinstance(vs[0], It): return Vec([Cell(self.copy(x.v)) for x in self.elems(vs[0].c.v)[vs[0].i:vs[1].i]], CONT[h])
            if len(vs) == 2 and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr) and vs[0].c is vs[1].c and h in CONT:
                e = self.elems(vs[0].c.v)
                lo, hi = vs[0].i or 0, vs[1].i or 0
                if not 0 <= lo <= hi <= len(e): raise Stuck('range outside')
                return Vec([Cell(self.copy(x.v)) for x in e[lo:hi]], CONT[h])
            if isinstance(vs[0], int) and h in CONT: return Vec([Cell(self.copy(vs[1]) if len(vs) > 1 else self.default(split_args(t)[0])) for _ in range(vs[0])], CONT[h])
            raise Stuck('construction of ' + t)
        if h == 'std::optional':
            vs = [self.ev(x) for x in a]
            if not vs or isinstance(vs[0], Opaque): return Opt()
            return vs[0] if isinstance(vs[0], Opt) else Opt(Cell(self.copy(vs[0])))
        if h in PTRS or h == 'std::function':
            vs = [self.ev(x) for x in a]
            return vs[0] if vs else NULL
        if 'iterator' in h or 'iterator' in c:
            return self.ev(a[0]) if a else Opaque('it')
        if c in self.db.classes or t in self.db.classes:
            cls = c if c in self.db.classes else t
            r = self.hook('ctor', cls, n, self) if self.hook else None
            if r is not None: return r
            return self.new(cls, n.get('f'), self.params(n.get('f'), a))
        if self.hook:
            r = self.hook('ctor', h, n, self)
            if r is not None: return r
        for x in a: self.ev(x)
        return Opaque(t or c)

    def new_str(self, vs):
        vs = [v for v in vs if not isinstance(v, Opaque)]
        if not vs: return ''
        v = vs[0]
        if isinstance(v, It):
            return v.c.v[v.i:vs[1].i]
        if isinstance(v, Ptr):
            if v.i is None: v = v.c.v
            else: v = v.c.v[v.i:]
        if isinstance(v, int) and len(vs) == 2: return chr(vs[1]) * v
        if v is NULL: raise Stuck('text from a null pointer')
        if isinstance(v, str):
            if len(vs) == 3 and isinstance(vs[1], int): return v[vs[1]:vs[1] + vs[2]]
            if len(vs) == 2 and isinstance(vs[1], int): return v[:vs[1]]
            return v
        if isinstance(v, list): return ''.join(chr(x) for x in v)
        raise Stuck('text from %r' % (v,))

    def e_Call(self, n):
        nm = n.get('n') or ''
        b = base_name(nm)
        if self.hook:
            r = self.hook('call', b, n, self)
            if r is not None: return r
        f = self.db.funcs.get(n.get('f') or '')
        if f is not None and f.get('body') is not None and not nm.startswith('std::'):
            if nm.startswith('Platform::') or '::Platform::' in nm:
                m = getattr(self, 'f_' + b, None)
                if m: return m([self.ev(x) for x in n['a']], n)
            return self.call(f, self.this, self.params(n['f'], n['a']))
        m = getattr(self, 'f_' + b, None)
        if m is not None:
            if b in ('move', 'forward', 'swap', 'exchange', 'as_const', 'getline', 'begin', 'end', 'cbegin', 'cend', 'size', 'empty'): return m([self.raw(x) for x in n['a']], n)
            return m([self.ev(x) for x in n['a']], n)
        if n.get('fe') is not None:
            return self.apply(self.ev(n['fe']), [self.lv(x) for x in n['a']])
        raise Stuck('call of ' + nm)

    # models of library functions
    def f_move(self, a, n): return a[0]
    f_forward = f_as_const = f_move
    def f_holds_alternative(self, a, n):
        t = n['f'].split('<', 1)[1].split(',')[0]
        x = a[0]
        fl = isinstance(x, float) or isinstance(x, Num) and x.ty == 'f'
        if t in ('float', 'double'): return fl
        if t in INTS: return not fl and isinstance(x, (int, Num))
        raise Stuck('holds_alternative<%s>' % t)

    def f_get(self, a, n):
        if 'std::variant' not in n['f']: raise Stuck('call of std::get')
        return a[0]

    def f_make_unique(self, a, n):
        t = strip(n.get('t') or '')
        cls = split_args(t)[0] if '<' in t else ''
        cls = strip(cls)
        if cls not in self.db.classes: raise Stuck('make_unique of ' + cls)
        args = [Cell(x) for x in a]
        fid = self.pick_ctor(cls, args)
        return Ptr(Cell(self.new(cls, fid, args)))
    f_make_shared = f_make_unique

    def pick_ctor(self, cls, args):
        c = []
        for i in self.db.by_name.get(cls + '::' + cls.split('::')[-1], ()):
            f = self.db.funcs[i]
            if len(f['p']) == len(args) and not (len(args) == 1 and strip(f['p'][0]['t']) == cls): c.append((i, f))
        def ok(f):
            for p, x in zip(f['p'], args):
                t = strip(p['t']); v = x.v
                if isinstance(v, str) and not (head(t) in STR or t.endswith('*')): return False
                if isinstance(v, (int, float, Num)) and (head(t) in STR or t.endswith('*')): return False
                if isinstance(v, Obj) and t not in (v.cls,) and t not in self.db.bases(v.cls): return False
            return True
        c2 = [x for x in c if ok(x[1])]
        if not c2 and args: raise Stuck('constructor of ' + cls)
        for p, x in (zip(c2[0][1]['p'], args) if c2 else ()):
            if not p['t'].endswith('&'): x.v = self.copy(x.v)
        return c2[0][0] if c2 else None

    def fmt(self, v, prec=6, fixed=False, hexa=False):
        if isinstance(v, bool): return '1' if v else '0'
        if isinstance(v, int): return '%x' % v if hexa else str(v)
        if isinstance(v, float): return '%.*g' % (prec, v)
        if isinstance(v, Num):
            if v.ty != 'f': return self.tx.ch(('hex' if hexa else 'dec', v))
            return self.tx.ch(('flt', v, prec, fixed))
        raise Stuck('format of %r' % (v,))

    def parse(self, s, ty):
        """number at the start of the text: (value, chars used) or None"""
        i = 0
        while i < len(s) and s[i] in ' \t\n\r': i += 1
        if i < len(s) and s[i] in self.tx.c:
            tok = self.tx.c[s[i]]
            if tok[0] == 'dec': return (tok[1] if ty != 'f' else Num(('flt', tok[1].k), 'f')), i + 1
            if tok[0] == 'flt':
                v = tok[1]
                if ty == 'f': return (v if tok[2] >= 17 and not tok[3] else Num(('rounded', v.k, tok[2], tok[3]), 'f')), i + 1
                return Num(('trunc', v.k), 'i'), i + 1
            return None
        m = re.match(r'[+-]?\d+' if ty != 'f' else r'[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+)', s[i:])
        if not m: return None
        return (int(m.group()) if ty != 'f' else float(m.group())), i + m.end()

    def f_to_string(self, a, n):
        v = a[0]
        if isinstance(v, Num) and v.ty == 'f': return self.fmt(v, 6, True)
        if isinstance(v, float): return '%f' % v
        return self.fmt(v)

    def stox(self, a, ty):
        s = a[0]
        base = a[2] if len(a) > 2 else 10
        if base == 16:
            t = s[2:] if s[:2] in ('0x', '0X') else s
            if t and t[0] in self.tx.c and self.tx.c[t[0]][0] == 'hex': return self.tx.c[t[0]][1]
            m = re.match(r'[0-9a-fA-F]+', t)
            if m: return int(m.group(), 16)
            raise CThrow('std::invalid_argument')
        r = self.parse(s, ty)
        if r is None: raise CThrow('std::invalid_argument')
        return r[0]

    def f_stoll(self, a, n): return self.stox(a, 'i')
    f_stoi = f_stol = f_stoul = f_stoull = f_stoll
    def f_stod(self, a, n): return self.stox(a, 'f')
    f_stof = f_stod
    def f_atoi(self, a, n):
        try: return self.stox(a, 'i')
        except CThrow: return 0
    f_atoll = f_atol = f_atoi

    def f_stricmp(self, a, n): return 0 if a[0].lower() == a[1].lower() else (1 if a[0].lower() > a[1].lower() else -1)
    f_strcasecmp = f_stricmp
    def f_strnicmp(self, a, n): return self.f_stricmp([a[0][:a[2]], a[1][:a[2]]], n)
    f_strncasecmp = f_strnicmp
    def f_strcmp(self, a, n): return 0 if a[0] == a[1] else (1 if a[0] > a[1] else -1)
    def f_strlen(self, a, n): return len(a[0])
    def f_strchr(self, a, n):
        i = a[0].find(chr(a[1]))
        return a[0][i:] if i >= 0 else NULL
    def f_strstr(self, a, n):
        i = a[0].find(a[1])
        return a[0][i:] if i >= 0 else NULL
    def f_isspace(self, a, n): return int(a[0] in (32, 9, 10, 11, 12, 13))
    f_iswspace = f_isspace
    def f_isdigit(self, a, n): return int(48 <= a[0] <= 57)
    def f_tolower(self, a, n): return ord(chr(a[0]).lower()) if 0 <= a[0] < 128 else a[0]
    def f_toupper(self, a, n): return ord(chr(a[0]).upper()) if 0 <= a[0] < 128 else a[0]
    def f_setprecision(self, a, n): return ('setprecision', a[0])
    def f_max(self, a, n):
        if not a: return {'double': 1.7976931348623157e308}.get(strip(n.get('t')), (1 << 64) - 1)
        if isinstance(a[0], (int, float)) and isinstance(a[1], (int, float)): return max(a)
        return a[0] if self.truth(self.binop('>=', a[0], a[1])) else a[1]
    def f_min(self, a, n):
        if isinstance(a[0], (int, float)) and isinstance(a[1], (int, float)): return min(a)
        return a[0] if self.truth(self.binop('<=', a[0], a[1])) else a[1]
    def f_make_optional(self, a, n): return Opt(Cell(self.copy(a[0]))) if a else Opt()

    def f_make_pair(self, a, n): return Obj('std::pair', {'first': Cell(self.copy(a[0])), 'second': Cell(self.copy(a[1]))})

    def f_snprintf(self, a, n):
        fmt = a[2]
        out, args = '', list(a[3:])
        i = 0
        for m in re.finditer(r'%[-0-9.]*(ll|l|z|h|hh)?([a-zA-Z%])', fmt):
            out += fmt[i:m.start()]
            i = m.end()
            if m.group(2) == '%': out += '%'; continue
            v = args.pop(0)
            if m.group(2) in 'xX': out += self.fmt(v, hexa=True) if not isinstance(v, int) else ('%x' if m.group(2) == 'x' else '%X') % v
            elif m.group(2) in 'diu': out += self.fmt(v)
            elif m.group(2) == 's': out += v
            elif m.group(2) in 'fFeEgG':
                p = re.search(r'\.(\d+)', m.group(0))
                out += self.fmt(v, int(p.group(1)) if p else 6, m.group(2) in 'fF')
            else: raise Stuck('snprintf ' + m.group(0))
        out += fmt[i:]
        dst = self.lv(n['a'][0])
        if isinstance(dst.v, Ptr): dst = dst.v.c
        dst.v = out
        return len(out)
    f_sprintf = lambda self, a, n: self.f_snprintf([a[0], 1 << 30] + list(a[1:]), n)

    def span(self, a, b):
        e = self.elems(a.c.v)
        if a.rev: return [(len(e) - 1 - i, e[len(e) - 1 - i]) for i in range(a.i, b.i)]
        return [(i, e[i]) for i in range(a.i, b.i)]

    def f_find_if(self, a, n):
        for k, (i, c) in enumerate(self.span(a[0], a[1])):
            if self.truth(self.apply(a[2], [c])): return It(a[0].c, a[0].i + k, a[0].rev)
        return It(a[1].c, a[1].i, a[1].rev)

    def f_find(self, a, n):
        for k, (i, c) in enumerate(self.span(a[0], a[1])):
            if self.eq(c.v, a[2]): return It(a[0].c, a[0].i + k, a[0].rev)
        return It(a[1].c, a[1].i, a[1].rev)

    def f_any_of(self, a, n): return any(self.truth(self.apply(a[2], [c])) for i, c in self.span(a[0], a[1]))
    def f_none_of(self, a, n): return not self.f_any_of(a, n)
    def f_all_of(self, a, n): return all(self.truth(self.apply(a[2], [c])) for i, c in self.span(a[0], a[1]))
    def f_count_if(self, a, n): return sum(self.truth(self.apply(a[2], [c])) for i, c in self.span(a[0], a[1]))
    def f_for_each(self, a, n):
        for i, c in self.span(a[0], a[1]): self.apply(a[2], [c])
        return a[2]

    def f_transform(self, a, n):
        src, dst = a[0], a[2]
        vals = [self.apply(a[3], [c]) for i, c in self.span(a[0], a[1])]
        vals = [v.v if isinstance(v, Cell) else v for v in vals]
        if isinstance(dst, It) and isinstance(dst.c.v, str):
            s = dst.c.v
            dst.c.v = s[:dst.i] + ''.join(chr(x) for x in vals) + s[dst.i + len(vals):]
        elif isinstance(dst, tuple) and dst[0] == 'back':
            for v in vals: self.v_push_back(dst[1], [v])
        elif isinstance(dst, It):
            for k, v in enumerate(vals): self.elems(dst.c.v)[dst.i + k].v = v
        else: raise Stuck('transform')
        return dst

    def f_copy(self, a, n):
        for i, c in self.span(a[0], a[1]): self.v_push_back(a[2][1], [self.copy(c.v)])
        return a[2]
    def f_back_inserter(self, a, n): return ('back', self.lv(n['a'][0]))
    def f_distance(self, a, n): return a[1].i - a[0].i
    def f_next(self, a, n): return It(a[0].c, a[0].i + (a[1] if len(a) > 1 else 1), a[0].rev)
    def f_begin(self, a, n): return It(a[0] if isinstance(a[0], Cell) else Cell(a[0]), 0)
    f_cbegin = f_begin
    def f_end(self, a, n): return It(a[0] if isinstance(a[0], Cell) else Cell(a[0]), len(self.elems(a[0].v if isinstance(a[0], Cell) else a[0])))
    f_cend = f_end

    def apply(self, fn, cells):
        if isinstance(fn, Ptr): fn = fn.c.v
        if isinstance(fn, Lam):
            n = fn.n
            save = (self.env, self.this, self.line)
            self.env, self.this = dict(fn.env), fn.this
            for p, c in zip(n['p'], cells):
                self.env[p['id']] = c if p['t'].endswith('&') else Cell(self.conv(self.copy(c.v), p['t']))
            self.depth += 1
            try:
                try: self.st(n['b'])
                except _Return as r: return self.ret(r.v, n.get('ret'))
                return None
            finally:
                self.depth -= 1
                self.env, self.this, self.line = save
        if isinstance(fn, Fn):
            f = self.db.funcs.get(fn.id or '')
            if f is None:
                ids = self.db.by_name.get(fn.name or '', [])
                f = self.db.funcs.get(ids[0]) if ids else None
            if f is not None: return self.call(f, None, [c if p['t'].endswith('&') else Cell(self.copy(c.v)) for p, c in zip(f['p'], cells)])
            m = getattr(self, 'f_' + base_name(fn.name or ''), None)
            if m: return m([c.v for c in cells], {})
        if self.hook:
            r = self.hook('apply', fn, cells, self)
            if r is not None: return r
        raise Stuck('application of %r' % (fn,))

    # -- member calls
    def e_MCall(self, n):
        nm = n.get('n') or ''
        b = base_name(nm)
        oc = self.raw(n['o'])
        o = oc.v if isinstance(oc, Cell) else oc
        if not isinstance(oc, Cell): oc = Cell(o)
        if isinstance(o, Ptr) and not any(nm.startswith(p) for p in PTRS + ('std::__shared_ptr',)):
            oc = self.deref(o); o = oc.v
            if isinstance(o, Ptr) and nm.startswith('mdf') : oc = self.deref(o); o = oc.v
        if self.hook:
            r = self.hook('method', (b, oc), n, self)
            if r is not None: return r
        if isinstance(o, Obj) and not nm.startswith('std::'):
            fid = n.get('f')
            if n.get('virt'): fid = self.overrider(fid, o.cls)
            f = self.db.funcs.get(fid or '')
            if f is None or f.get('body') is None: raise Stuck('no body of ' + nm)
            return self.call(f, oc, self.params(fid, n['a']))
        if o is NULL and not nm.startswith('std::'): raise Stuck('call through a null pointer')
        if isinstance(o, Opaque):
            for x in n['a']: self.ev(x)
            return o
        return self.method(oc, b, n)

    def overrider(self, fid, cls):
        cand = self.db.overriders.get(fid, set()) | {fid}
        for c in [cls] + list(self.db.bases(cls)):
            for i in cand:
                d = self.db.decls.get(i)
                if d and d.get('cls') == c: return i
        return fid

    def method(self, oc, b, n):
        o = oc.v
        if isinstance(o, str): p = 's_'
        elif isinstance(o, Vec): p = 'v_'
        elif isinstance(o, MapV): p = 'm_'
        elif isinstance(o, Opt): p = 'o_'
        elif isinstance(o, Stream): p = 'st_'
        elif isinstance(o, It): p = 'it_'
        elif isinstance(o, Ptr) or o is NULL or isinstance(o, (Lam, Fn)): p = 'p_'
        else: raise Stuck('method %s of %r' % (b, o))
        b = {'operator bool': 'bool', 'operatorbool': 'bool', 'operator conv': 'conv'}.get(b, b)
        m = getattr(self, p + b, None)
        if m is None: raise Stuck('method %s of %r' % (b, o))
        a = [self.raw(x) for x in n['a']]
        a = [x.v if isinstance(x, Cell) else x for x in a]
        self.cur = n
        return m(oc, a)

    # text
    def s_empty(self, c, a): return not c.v
    def s_size(self, c, a): return len(c.v)
    s_length = s_size
    def s_c_str(self, c, a): return c.v
    s_data = s_conv = s_str = s_c_str
    def s_clear(self, c, a): c.v = ''
    def s_front(self, c, a): return self.chr(c.v[0]) if c.v else 0
    def s_back(self, c, a): return self.chr(c.v[-1])
    def s_at(self, c, a):
        if not 0 <= a[0] < len(c.v): raise CThrow('std::out_of_range')
        return self.chr(c.v[a[0]])
    def s_shrink_to_fit(self, c, a): return None
    def s_substr(self, c, a):
        if a and a[0] > len(c.v): raise CThrow('std::out_of_range')
        return c.v[(a[0] if a else 0):][:a[1] if len(a) > 1 else None] if not (len(a) > 1 and a[1] >= (1 << 63)) else c.v[a[0]:]
    def s_find(self, c, a):
        i = c.v.find(a[0] if isinstance(a[0], str) else chr(a[0]), *(a[1:2]))
        return i if i >= 0 else (1 << 64) - 1
    def s_rfind(self, c, a):
        i = c.v.rfind(a[0] if isinstance(a[0], str) else chr(a[0]))
        return i if i >= 0 else (1 << 64) - 1
    def s_find_first_of(self, c, a):
        s = a[0] if isinstance(a[0], str) else chr(a[0])
        for i, x in enumerate(c.v):
            if x in s: return i
        return (1 << 64) - 1
    def s_find_first_not_of(self, c, a):
        s = a[0] if isinstance(a[0], str) else chr(a[0])
        for i, x in enumerate(c.v):
            if x not in s: return i
        return (1 << 64) - 1
    def s_find_last_not_of(self, c, a):
        s = a[0] if isinstance(a[0], str) else chr(a[0])
        for i in range(len(c.v) - 1, -1, -1):
            if c.v[i] not in s: return i
        return (1 << 64) - 1
    def s_compare(self, c, a): return self.f_strcmp([c.v, a[0]], None)
    def s_append(self, c, a): c.v += self.new_str(a) if not (isinstance(a[0], int)) else chr(a[1]) * a[0]; return c
    def s_assign(self, c, a): c.v = self.new_str(a); return c
    def s_push_back(self, c, a): c.v += chr(a[0] % 256 if -128 <= a[0] < 0 else a[0])
    def s_pop_back(self, c, a): c.v = c.v[:-1]
    def s_reserve(self, c, a): pass
    def s_resize(self, c, a): c.v = c.v[:a[0]] + (chr(a[1]) if len(a) > 1 else '\0') * (a[0] - len(c.v))
    def s_begin(self, c, a): return It(c, 0)
    s_cbegin = s_begin
    def s_end(self, c, a): return It(c, len(c.v))
    s_cend = s_end
    def s_rbegin(self, c, a): return It(c, 0, True)
    s_crbegin = s_rbegin
    def s_rend(self, c, a): return It(c, len(c.v), True)
    s_crend = s_rend
    def s_erase(self, c, a):
        if isinstance(a[0], It):
            i, j = a[0].i, a[1].i if len(a) > 1 else a[0].i + 1
        else: i, j = a[0], (a[0] + a[1] if len(a) > 1 and a[1] < 1 << 62 else len(c.v))
        c.v = c.v[:i] + c.v[j:]
        return It(c, i)
    def s_insert(self, c, a):
        if isinstance(a[0], int) and isinstance(a[1], str): c.v = c.v[:a[0]] + a[1] + c.v[a[0]:]; return c
        raise Stuck('insert')
    def s_replace(self, c, a):
        if isinstance(a[0], int) and isinstance(a[2], str): c.v = c.v[:a[0]] + a[2] + c.v[a[0] + a[1]:]; return c
        raise Stuck('replace')
    def it_base(self, c, a):
        it = c.v
        return It(it.c, len(self.elems(it.c.v)) - it.i)

    # sequences
    def v_empty(self, c, a): return not c.v.items
    def v_size(self, c, a): return len(c.v.items)
    def v_clear(self, c, a): c.v.items = []
    def v_reserve(self, c, a): pass
    v_shrink_to_fit = v_reserve
    def v_push_back(self, c, a):
        t = split_args(strip(self.cur.get('o', {}).get('t') or ''))
        v = a[0]
        if isinstance(v, list): v = self.from_list(v, t[0] if t else '')
        c.v.items.append(Cell(self.conv(self.copy(v), t[0] if t else '')))
        return c.v.items[-1]
    def v_emplace_back(self, c, a):
        t = split_args(strip(self.cur['o'].get('t') or ''))
        e = strip(t[0]) if t else ''
        if e in self.db.classes and not (len(a) == 1 and isinstance(a[0], Obj) and (a[0].cls == e or e in self.db.bases(a[0].cls))):
            cs = [Cell(x) for x in a]
            v = self.new(e, self.pick_ctor(e, cs), cs)
        elif head(e) == 'std::pair' and len(a) == 2: v = self.from_list(a, e)
        elif head(e) in STR: v = self.new_str(a)
        else: v = self.copy(a[0]) if a else self.default(e)
        c.v.items.append(Cell(self.conv(v, e)))
        return c.v.items[-1]
    def v_push(self, c, a): return self.v_push_back(c, a)
    def v_pop(self, c, a): c.v.items.pop()
    def v_top(self, c, a): return c.v.items[-1]
    def v_pop_back(self, c, a): c.v.items.pop()
    def v_push_front(self, c, a): c.v.items.insert(0, Cell(self.copy(a[0])))
    def v_front(self, c, a): return c.v.items[0]
    def v_back(self, c, a): return c.v.items[-1]
    def v_data(self, c, a): return Ptr(c, 0)
    def v_at(self, c, a):
        if not 0 <= a[0] < len(c.v.items): raise CThrow('std::out_of_range')
        return c.v.items[a[0]]
    def v_begin(self, c, a): return It(c, 0)
    v_cbegin = v_begin
    def v_end(self, c, a): return It(c, len(c.v.items))
    v_cend = v_end
    def v_rbegin(self, c, a): return It(c, 0, True)
    v_crbegin = v_rbegin
    def v_rend(self, c, a): return It(c, len(c.v.items), True)
    v_crend = v_rend
    def v_erase(self, c, a):
        j = a[1].i if len(a) > 1 else a[0].i + 1
        del c.v.items[a[0].i:j]
        return It(c, a[0].i)
    def v_insert(self, c, a):
        if len(a) == 3 and isinstance(a[1], It):
            c.v.items[a[0].i:a[0].i] = [Cell(self.copy(x.v)) for i, x in self.span(a[1], a[2])]
            return It(c, a[0].i)
        if isinstance(a[0], It) and len(a) == 2:
            c.v.items.insert(a[0].i, Cell(self.copy(a[1])))
            return It(c, a[0].i)
        if c.v.kind == 'set':
            if not any(self.eq(x.v, a[0]) for x in c.v.items):
                c.v.items.append(Cell(a[0])); c.v.items.sort(key=lambda x: x.v)
            return Opaque()
        raise Stuck('insert')
    def v_emplace(self, c, a): return self.v_insert(c, a)
    def v_resize(self, c, a):
        t = split_args(strip(self.cur['o'].get('t') or ''))
        while len(c.v.items) > a[0]: c.v.items.pop()
        while len(c.v.items) < a[0]: c.v.items.append(Cell(self.copy(a[1]) if len(a) > 1 else self.default(t[0])))
    def v_fill(self, c, a):
        for x in c.v.items: x.v = self.copy(a[0])
    def v_find(self, c, a):
        for i, x in enumerate(c.v.items):
            if self.eq(x.v, a[0]): return It(c, i)
        return It(c, len(c.v.items))
    def v_count(self, c, a): return sum(self.eq(x.v, a[0]) for x in c.v.items)

    # maps
    def m_empty(self, c, a): return not c.v.items
    def m_size(self, c, a): return len(c.v.items)
    def m_clear(self, c, a): c.v.items = []
    def m_find(self, c, a):
        i = self.map_find(c.v, a[0])
        return It(c, len(c.v.items) if i is None else i)
    def m_count(self, c, a): return int(self.map_find(c.v, a[0]) is not None)
    def m_contains(self, c, a): return self.map_find(c.v, a[0]) is not None
    def m_begin(self, c, a): return It(c, 0)
    m_cbegin = m_begin
    def m_end(self, c, a): return It(c, len(c.v.items))
    m_cend = m_end
    def m_at(self, c, a):
        i = self.map_find(c.v, a[0])
        if i is None: raise CThrow('std::out_of_range')
        return c.v.items[i].v.f['second']
    def m_insert(self, c, a, over=False):
        x = a[0]
        if isinstance(x, list):
            t = split_args(strip(self.cur['o'].get('t') or ''))
            x = self.from_list(x, 'std::pair<%s, %s>' % (t[0], t[1]))
        if not isinstance(x, Obj): raise Stuck('insert %r' % (x,))
        i, new = self.map_put(c.v, self.copy(x.f['first'].v), self.copy(x.f['second'].v), over)
        return Obj('std::pair', {'first': Cell(It(c, i)), 'second': Cell(new)})
    def m_emplace(self, c, a):
        if len(a) == 1: return self.m_insert(c, a)
        t = split_args(strip(self.cur['o'].get('t') or ''))
        v = a[1]
        e = strip(t[1])
        if e in self.db.classes and not isinstance(v, Obj):
            cs = [Cell(x) for x in a[1:]]
            v = self.new(e, self.pick_ctor(e, cs), cs)
        i, new = self.map_put(c.v, self.copy(a[0]), self.conv(self.copy(v), e))
        return Obj('std::pair', {'first': Cell(It(c, i)), 'second': Cell(new)})
    m_try_emplace = m_emplace
    def m_insert_or_assign(self, c, a):
        i, new = self.map_put(c.v, self.copy(a[0]), self.copy(a[1]), True)
        return Obj('std::pair', {'first': Cell(It(c, i)), 'second': Cell(new)})
    def m_erase(self, c, a):
        if isinstance(a[0], It): del c.v.items[a[0].i]; return It(c, a[0].i)
        i = self.map_find(c.v, a[0])
        if i is not None: del c.v.items[i]
        return int(i is not None)

    # optional
    def o_has_value(self, c, a): return c.v.c is not None
    def o_bool(self, c, a): return c.v.c is not None
    def o_value(self, c, a):
        if c.v.c is None: raise CThrow('std::bad_optional_access')
        return c.v.c
    def o_value_or(self, c, a): return c.v.c.v if c.v.c else a[0]
    def o_reset(self, c, a): c.v = Opt()
    def o_emplace(self, c, a):
        c.v = Opt(Cell(self.copy(a[0])))
        return c.v.c

    # pointers
    def p_get(self, c, a): return c.v
    def p_bool(self, c, a): return c.v is not NULL
    def p_reset(self, c, a): c.v = a[0] if a else NULL
    def p_release(self, c, a):
        v = c.v
        c.v = NULL
        return v

    # streams
    def st_str(self, c, a):
        if a: c.v = Stream(a[0]); return None
        return c.v.buf
    def st_good(self, c, a): return not c.v.fail
    def st_fail(self, c, a): return c.v.fail
    def st_bool(self, c, a): return not c.v.fail
    def st_eof(self, c, a): return c.v.pos >= len(c.v.buf)
    def st_precision(self, c, a):
        p = c.v.prec
        if a: c.v.prec = a[0]
        return p
    def st_flush(self, c, a): return c
    def st_imbue(self, c, a): return Opaque()
    def st_clear(self, c, a): c.v.fail = False

    def out(self, c, v):
        s = c.v
        if isinstance(v, Cell): v = v.v
        if isinstance(v, str): s.buf += v
        elif isinstance(v, tuple):
            if v[0] == 'setprecision': s.prec = v[1]
        elif isinstance(v, Fn):
            if v.name and v.name.split('::')[-1].startswith('endl'): s.buf += '\n'
            elif v.name and v.name.split('::')[-1] in ('fixed',): s.fixed = True
            elif v.name and v.name.split('::')[-1] in ('scientific',): s.fixed = False
            elif v.name and v.name.split('::')[-1] in ('hex',): s.hexa = True
            elif v.name and v.name.split('::')[-1] in ('dec', 'flush', 'defaultfloat'): s.hexa = False
            else: raise Stuck('manipulator ' + str(v.name))
        elif isinstance(v, (Num, int, float)): s.buf += self.fmt(v, s.prec, s.fixed, s.hexa)
        elif isinstance(v, Vec): s.buf += ''.join(chr(x.v) for x in v.items)
        else: raise Stuck('output of %r' % (v,))
        return c

    def e_OpCall(self, n):
        op, a = n['op'], n['a']
        if op == '<<':
            l = self.raw(a[0])
            lc = l if isinstance(l, Cell) else Cell(l)
            if isinstance(lc.v, Stream):
                t = strip(a[1].get('t') or '')
                v = self.raw(a[1])
                x = v.v if isinstance(v, Cell) else v
                if isinstance(x, int) and not isinstance(x, bool) and t in ('char', 'signed char', 'unsigned char'): x = chr(x % 256 if x < 0 else x)
                return self.out(lc, x)
            if isinstance(lc.v, Opaque):
                return lc
        if op == '>>':
            lc = self.lv(a[0])
            if isinstance(lc.v, Stream):
                s = lc.v
                d = self.lv(a[1])
                t = strip(a[1].get('t') or '')
                if head(t) in STR:
                    m = re.match(r'\s*(\S+)', s.buf[s.pos:])
                    if m: d.v = m.group(1); s.pos += m.end()
                    else: s.fail = True
                    return lc
                r = self.parse(s.buf[s.pos:], 'f' if t in ('float', 'double') else 'i')
                if r is None: s.fail = True; d.v = self.default(t)
                else: d.v = self.conv(r[0], t); s.pos += r[1]
                return lc
        if op == '()':
            fn = self.ev(a[0])
            return self.apply(fn, [self.lv(x) for x in a[1:]])
        if self.hook:
            r = self.hook('op', op, n, self)
            if r is not None: return r
        f = self.db.funcs.get(n.get('f') or '')
        if f is not None and f.get('body') is not None and not (n.get('n') or '').startswith('std::') and not (n.get('n') or '').startswith('__gnu'):
            if f.get('cls'):
                oc = self.lv(a[0])
                if isinstance(oc.v, Ptr): oc = oc.v.c
                return self.call(f, oc, self.params(n['f'], a[1:]))
            return self.call(f, None, self.params(n['f'], a))
        if op == '=':
            c = self.lv(a[0])
            v = self.raw(a[1])
            x = v.v if isinstance(v, Cell) else v
            t = a[0].get('t') or ''
            if isinstance(x, list): x = self.from_list(x, t)
            if isinstance(x, Ptr) and isinstance(c.v, str): x = x.c.v
            if isinstance(x, int) and head(t) in STR: x = chr(x)
            if head(t) == 'std::optional':
                if isinstance(x, Opaque): c.v = Opt(); return c
                if not isinstance(x, Opt): x = Opt(Cell(self.conv(self.copy(x), split_args(strip(t))[0])))
            c.v = self.copy(x)
            return c
        if op == '+=':
            c = self.lv(a[0])
            v = self.ev(a[1])
            if isinstance(c.v, str): c.v += v if isinstance(v, str) else chr(v)
            else: c.v = self.binop('+', c.v, v)
            return c
        if op == '[]':
            b, i = self.lv(a[0]), self.ev(a[1])
            if isinstance(b.v, MapV):
                k = self.map_find(b.v, i)
                if k is None:
                    t = split_args(strip(a[0].get('t') or ''))
                    k, _ = self.map_put(b.v, self.copy(i), self.default(t[1]))
                return b.v.items[k].v.f['second']
            return self.index(b.v, i)
        if op == '->':
            v = self.ev(a[0])
            if isinstance(v, (It, Opt)): return Ptr(self.deref(v))
            return v
        if op == '*' and len(a) == 1: return self.deref(self.ev(a[0]))
        if op in ('++', '--'):
            c = self.lv(a[0])
            old = c.v
            c.v = self.step(old, 1 if op == '++' else -1)
            return old if len(a) > 1 else c
        if op in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '|', '&', '^'):
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, str) or isinstance(y, str):
                sx = x if isinstance(x, str) else chr(x) if isinstance(x, int) else x.c.v if isinstance(x, Opt) and x.c else None
                sy = y if isinstance(y, str) else chr(y) if isinstance(y, int) else y.c.v if isinstance(y, Opt) and y.c else None
                if op == '+': return sx + sy
                if op in ('==', '!='): return (sx == sy) == (op == '==')
                return self._cmp(op, sx, sy)
            if op in ('|', '&', '^') and (isinstance(x, Opaque) or isinstance(y, Opaque)): return Opaque()
            return self.binop(op, x, y)
        if op == '!': return not self.truth(self.ev(a[0]))
        raise Stuck('operator ' + op)

    # -- statements
    def st(self, s):
        if s is None: return
        self.steps += 1
        if self.steps > self.limit: raise Stuck('too many steps')
        m = getattr(self, 's_' + s['k'] if s['k'] in STMT else '', None)
        if m is None or s['k'] not in STMT:
            self.raw(s)
        else: m(s)

    def s_Block(self, s):
        try:
            for x in s['s']: self.st(x)
        finally:
            for x in s['s']:
                if isinstance(x, dict) and x.get('k') == 'Decl': self.gone.update((id(self.env), v['id']) for v in x['d'] if v.get('id') is not None)

    def s_Null(self, s): pass

    def s_Decl(self, s):
        for v in s['d']: self.bind(v, v.get('init'))

    def bind(self, v, init, cell=None):
        t = v.get('t') or ''
        if cell is not None:
            c = cell if t.endswith('&') else Cell(self.conv(self.copy(cell.v), t))
        elif init is None: c = Cell(self.default(t))
        elif t.endswith('&'): c = self.lv(init)
        else:
            x = self.init_value(init, t)
            c = Cell(x)
        if v.get('id') is not None:
            self.env[v['id']] = c
            self.gone.discard((id(self.env), v['id']))
        bs = v.get('bind') or v.get('bindings')
        if bs:
            o = c.v
            if isinstance(o, Obj) and o.cls == 'std::pair': cells = [o.f['first'], o.f['second']]
            elif isinstance(o, Vec): cells = o.items
            elif isinstance(o, Obj): cells = list(o.f.values())
            else: raise Stuck('structured binding')
            for b, x in zip(bs, cells): self.env[b['id'] if isinstance(b, dict) else b] = x

    def s_If(self, s):
        if s.get('i'): self.st(s['i'])
        c = self.cond(s)
        if c: self.st(s['a'])
        elif s.get('b'): self.st(s['b'])

    def cond(self, s):
        if s.get('cvd'): self.st(s['cvd'])
        return self.truth(self.ev(s['c']))

    def loop(self, cond, body, inc, do=False):
        n = 0
        while True:
            if not (do and n == 0) and cond is not None and not self.truth(self.ev(cond)): return
            n += 1
            if n > 5000: raise Stuck('loop')
            try: self.st(body)
            except _Break: return
            except _Continue: pass
            if inc is not None: self.raw(inc)

    def s_For(self, s):
        if s.get('i'): self.st(s['i'])
        self.loop(s.get('c'), s['b'], s.get('inc') or s.get('n'))

    def s_While(self, s): self.loop(s['c'], s['b'], None)
    def s_Do(self, s): self.loop(s['c'], s['b'], None, do=True)

    def s_ForRange(self, s):
        if s.get('i'): self.st(s['i'])
        r = self.lv(s['r'])
        v = r.v.c.v if isinstance(r.v, Ptr) else r.v
        i = 0
        while True:
            e = self.elems(v)
            if i >= len(e): break
            self.bind(s['v'], None, e[i])
            i += 1
            try: self.st(s['b'])
            except _Break: break
            except _Continue: pass

    def s_Switch(self, s):
        if s.get('i'): self.st(s['i'])
        v = self.ev(s['c'])
        flat = []

        def lay(x):
            if x is None: return
            if x['k'] == 'Case': flat.append(('case', x.get('cv'), x.get('hi', {}).get('cv') if x.get('hi') else None)); lay(x['s'])
            elif x['k'] == 'Default': flat.append(('default',)); lay(x['s'])
            else: flat.append(('st', x))
        for x in s['b']['s'] if s['b']['k'] == 'Block' else [s['b']]: lay(x)
        start = None
        for i, x in enumerate(flat):
            if x[0] == 'case':
                if isinstance(v, Num): hit = self.decide(v, '==', x[1])
                else: hit = x[1] == v or x[2] is not None and x[1] <= v <= x[2]
                if hit: start = i; break
        if start is None:
            for i, x in enumerate(flat):
                if x[0] == 'default': start = i
        if start is None: return
        try:
            for x in flat[start:]:
                if x[0] == 'st': self.st(x[1])
        except _Break: pass

    def s_Break(self, s): raise _Break()
    def s_Continue(self, s): raise _Continue()
    def s_Return(self, s): raise _Return(self.raw(s['e']) if s.get('e') is not None else None)

    def s_Try(self, s):
        try: self.st(s['b'])
        except CThrow as e:
            for h in s['h']:
                t = strip(h.get('t') or '')
                if t in ('', '...', 'std::exception', e.t):
                    if h.get('v') and h['v'].get('id') is not None: self.env[h['v']['id']] = Cell(Opaque('exception'))
                    self.st(h['b'])
                    return
            raise

    def s_Label(self, s): self.st(s['s'])


STMT = {'Block', 'Null', 'Decl', 'If', 'For', 'While', 'Do', 'ForRange', 'Switch', 'Break', 'Continue', 'Return', 'Try', 'Label'}


def explore(make, limit=200):
    """run make(trail) -> (interp) for every sequence of decisions; yields interps"""
    todo, n = [[]], 0
    while todo:
        tr = todo.pop()
        I = make(list(tr))
        yield I
        n += 1
        if n >= limit: return
        for p in I.forks:
            if p >= len(tr): todo.append(I.trail[:p] + [not I.trail[p]])
