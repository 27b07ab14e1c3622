"""Runs the clang-based extractor over the repository's current working tree and
loads the resulting program facts."""
import glob, hashlib, json, os, pickle, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
RES = '/usr/lib/llvm-18/lib/clang/18'

COMMON = ['-w', '-Wno-invalid-constexpr', '-resource-dir', RES, '-DNDEBUG', '-I%s/include' % REPO]
GROUPS = [  # (glob, extra flags)
    ('mdflib/src/*.cpp', ['-std=gnu++17', '-DXML_STATIC']),
    ('mdflibrary/src/MdfExport.cpp', ['-std=gnu++17', '-Dmdflibrary_EXPORTS']),
    ('mdf2csv/src/*.cpp', ['-std=gnu++20']),
    ('python/src/*.cpp', ['-std=c++20', '-isystem', '/usr/include/python3.12']),
]


class AnalysisError(Exception):
    """The analysis cannot give an answer (build failure, vanished anchor)."""


def _extractor():
    src = os.path.join(VERIF, 'extractor', 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    for d in (os.path.join(VERIF, 'extractor', 'bin'), os.path.join(tempfile.gettempdir(), 'verif_extractor')):
        exe = os.path.join(d, 'extract-' + h)
        if os.path.exists(exe):
            return exe
    for d in (os.path.join(VERIF, 'extractor', 'bin'), os.path.join(tempfile.gettempdir(), 'verif_extractor')):
        try:
            os.makedirs(d, exist_ok=True)
            exe = os.path.join(d, 'extract-' + h)
            tmp = exe + '.%d' % os.getpid()
            r = subprocess.run(['bash', os.path.join(VERIF, 'extractor', 'build.sh'), tmp], capture_output=True, text=True)
            if r.returncode == 0:
                os.rename(tmp, exe)
                return exe
            err = r.stderr
        except OSError as e:
            err = str(e)
    raise AnalysisError('cannot build extractor: ' + err[-2000:])


INST = os.path.join(VERIF, 'extractor', 'inst.cpp')   # instantiates public templates


def tu_list():
    out = []
    for g, flags in GROUPS:
        for f in sorted(glob.glob(os.path.join(REPO, g))):
            out.append((f, COMMON + flags))
    out.append((INST, COMMON + GROUPS[0][1]))
    return out


def tree_hash():
    h = hashlib.sha256()
    src = os.path.join(VERIF, 'extractor', 'extract.cpp')
    h.update(open(src, 'rb').read())
    h.update(open(os.path.abspath(__file__), 'rb').read())
    h.update(open(INST, 'rb').read())
    fs = []
    for d in ('mdflib', 'include', 'mdflibrary', 'mdf2csv', 'python'):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            for f in files:
                if f.endswith(('.cpp', '.h', '.hpp', '.c', '.inl')):
                    fs.append(os.path.join(root, f))
    for f in sorted(fs):
        h.update(f.encode()); h.update(b'\0'); h.update(open(f, 'rb').read()); h.update(b'\0')
    return h.hexdigest()


def _cache_dir():
    return os.environ.get('VERIF_CACHE', os.path.join(VERIF, 'extractor', 'bin', 'cache'))


def _header_hash():
    """everything but the translation unit itself that its facts depend on"""
    h = hashlib.sha256()
    h.update(open(os.path.join(VERIF, 'extractor', 'extract.cpp'), 'rb').read())
    fs = []
    for d in ('mdflib', 'include', 'mdflibrary', 'mdf2csv', 'python'):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            fs += [os.path.join(root, f) for f in files if f.endswith(('.h', '.hpp', '.inl'))]
    for f in sorted(fs):
        h.update(f.encode()); h.update(b'\0'); h.update(open(f, 'rb').read()); h.update(b'\0')
    return h.hexdigest()


def _run_tu(exe, tmp, i, f, flags, hh):
    key = hashlib.sha256(repr((hh, f, flags, open(f, 'rb').read())).encode()).hexdigest()[:32]
    cf = os.path.join(_cache_dir(), 'tu-' + key + '.json')
    if os.path.exists(cf):
        try:
            d = json.load(open(cf))
            os.utime(cf)
            return (f, d, '')
        except (OSError, ValueError):
            pass
    out = os.path.join(tmp, '%d.json' % i)
    r = subprocess.run([exe, REPO, out, f, '--'] + flags, capture_output=True, text=True, cwd=tmp)
    if not os.path.exists(out):
        return (f, None, r.stderr[-1500:])
    d = json.load(open(out))
    err = r.stderr[-1500:] if d['errors'] or r.returncode else ''
    if not err:
        try:
            os.makedirs(_cache_dir(), exist_ok=True)
            t = cf + '.%d' % os.getpid()
            shutil.copyfile(out, t)
            os.rename(t, cf)
        except OSError:
            pass
    os.unlink(out)
    return (f, d, err)


class DB:
    def __init__(self):
        self.funcs = {}     # id -> function (with body)
        self.decls = {}     # id -> declaration info
        self.classes = {}   # qualified name -> class
        self.enums = {}
        self.globals = {}
        self.tus = []
        self.by_name = {}   # qualified name -> [ids]
        self.overriders = {}  # id -> set(ids)
        self.subclasses = {}

    def finish(self):
        for i, f in self.funcs.items():
            self.by_name.setdefault(f['n'], []).append(i)
        direct = {}
        for i, d in self.decls.items():
            for o in d.get('ov', ()):
                direct.setdefault(o, set()).add(i)
        def clo(i, seen):
            for j in direct.get(i, ()):
                if j not in seen:
                    seen.add(j); clo(j, seen)
            return seen
        for i in direct:
            self.overriders[i] = clo(i, set())
        dsub = {}
        for n, c in self.classes.items():
            for b in c['bases']:
                dsub.setdefault(b, set()).add(n)
        def clo2(n, seen):
            for m in dsub.get(n, ()):
                if m not in seen:
                    seen.add(m); clo2(m, seen)
            return seen
        for n in list(dsub):
            self.subclasses[n] = clo2(n, set())

    # ---- helpers
    def bases(self, cls):
        """all transitive base classes"""
        out, todo = [], [cls]
        while todo:
            c = self.classes.get(todo.pop())
            if not c:
                continue
            for b in c['bases']:
                if b not in out:
                    out.append(b); todo.append(b)
        return out

    def method(self, cls, name):
        """functions with a body named name in class cls (or its bases)"""
        for c in [cls] + self.bases(cls):
            ids = self.by_name.get(c + '::' + name)
            if ids:
                return [self.funcs[i] for i in ids]
        return []

    def own_method(self, cls, name):
        return [self.funcs[i] for i in self.by_name.get(cls + '::' + name, [])]

    def all_fields(self, cls):
        out = []
        for c in [cls] + self.bases(cls):
            if c in self.classes:
                out += self.classes[c]['fields']
        return out

    def targets(self, call):
        """possible callee ids of a call node (virtual dispatch via class hierarchy)"""
        f = call.get('f')
        if not f:
            return []
        out = [f]
        if call.get('virt'):
            out += sorted(self.overriders.get(f, ()))
        return out


def _resolve(node, types):
    """replace type indexes by strings"""
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            for k in ('t', 'ret', 'nt', 'at', 'base'):
                v = n.get(k)
                if isinstance(v, int):
                    n[k] = types[v]
            ta = n.get('ta')
            if isinstance(ta, list):
                n['ta'] = [types[x] if isinstance(x, int) else x for x in ta]
            for v in n.values():
                if isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(n, list):
            for v in n:
                if isinstance(v, (dict, list)):
                    stack.append(v)


def _load_raw():
    exe = _extractor()
    tus = tu_list()
    db = DB()
    hh = _header_hash()
    with tempfile.TemporaryDirectory(prefix='verif_facts_') as tmp:
        with ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(lambda a: _run_tu(exe, tmp, a[0], a[1][0], a[1][1], hh), enumerate(tus)))
    for f, d, err in res:
        if (d is None or err) and f == INST: continue
        if d is None or err:
            raise AnalysisError('extraction failed for %s: %s' % (f, err))
        types = d['types']
        for lst, dst in (('classes', db.classes), ('enums', db.enums)):
            for x in d[lst]:
                if x['n'] not in dst:
                    _resolve(x, types); dst[x['n']] = x
        for x in d['globals']:
            if x['id'] not in db.globals or ('init' in x and 'init' not in db.globals[x['id']]):
                _resolve(x, types); db.globals[x['id']] = x
        for x in d['decls']:
            if x['id'] not in db.decls:
                _resolve(x, types); db.decls[x['id']] = x
        for x in d['funcs']:
            if x['id'] not in db.funcs:
                _resolve(x, types); db.funcs[x['id']] = x
        db.tus.append(os.path.relpath(f, REPO))
    db.finish()
    return db


_db = None


def load():
    global _db
    if _db is not None:
        return _db
    import gc
    gc.disable()
    h = tree_hash()
    cdir = _cache_dir()
    cf = os.path.join(cdir, h + '.pkl')
    if os.path.exists(cf):
        try:
            _db = pickle.load(open(cf, 'rb'))
            return _db
        except Exception:
            pass
    _db = _load_raw()
    try:
        os.makedirs(cdir, exist_ok=True)
        old = sorted(glob.glob(os.path.join(cdir, '*.pkl')), key=os.path.getmtime)
        for o in old[:-3]:
            os.unlink(o)
        old = sorted(glob.glob(os.path.join(cdir, 'tu-*.json')), key=os.path.getmtime)
        for o in old[:-400]:
            os.unlink(o)
        t = cf + '.%d' % os.getpid()
        pickle.dump(_db, open(t, 'wb'), protocol=4)
        os.rename(t, cf)
    except OSError:
        pass
    return _db
