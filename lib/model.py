"""Loads the resolved AST of /repo's current sources (exported by build/rcx)
into one linked program.  No rule lives here."""
import glob, hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RC_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class AnalysisBroken(Exception):
    """The analysis could not be carried out (vanished anchor, parse error)."""


def _ensure_tool():
    subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh')], check=True,
                   stdout=sys.stderr)


CORE_FLAGS = ['-std=c++11', '-w', '-I%s/include' % REPO, '-I%s/src' % REPO]
EXTRA_FLAGS = ['-I%s/extras/%s/include' % (REPO, x)
               for x in ('boost', 'boost_test', 'catch', 'doctest', 'gmock', 'gtest')]


def units():
    """(name, file, flags) for every translation unit that is analysed."""
    us = []
    for f in sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True)):
        us.append((os.path.relpath(f, REPO), f, CORE_FLAGS))
    us.append(('probe/core', VERIF + '/probe/core.cpp', CORE_FLAGS))
    for f in sorted(glob.glob(VERIF + '/probe/p_*.cpp')):
        us.append(('probe/' + os.path.basename(f)[:-4], f, CORE_FLAGS))
    for f in sorted(glob.glob(VERIF + '/probe/x_*.cpp')):
        std = '-std=c++20' if 'doctest' in f else '-std=c++17'
        us.append(('probe/' + os.path.basename(f)[:-4], f,
                   [std] + CORE_FLAGS[1:] + EXTRA_FLAGS))
    return us


def _tree_hash():
    h = hashlib.sha256()
    fs = []
    for d in (REPO + '/include', REPO + '/src', REPO + '/extras', VERIF + '/probe',
              VERIF + '/tool'):
        for r, _, n in os.walk(d):
            for x in n:
                if x.endswith(('.h', '.hpp', '.cpp')) and '/test' not in r:
                    fs.append(os.path.join(r, x))
    for f in sorted(fs):
        h.update(f.encode())
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]


def export():
    """Runs the exporter over the current tree; returns {unit: json path}."""
    _ensure_tool()
    key = _tree_hash()
    base = os.path.join(BUILD, 'cache')
    out = os.path.join(base, key)
    us = units()
    paths = {n: os.path.join(out, n.replace('/', '__') + '.json') for n, _, _ in us}
    if not os.path.exists(out + '/done'):
        os.makedirs(base, exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        os.makedirs(tmp, exist_ok=True)

        def one(u):
            n, f, fl = u
            o = os.path.join(tmp, n.replace('/', '__') + '.json')
            r = subprocess.run([BUILD + '/rcx', o, '%s/:%s/probe/' % (REPO, VERIF), '--']
                               + fl + [f], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            errs = [l for l in r.stdout.splitlines() if ' error: ' in l]
            bad = [l for l in errs if l.startswith(REPO + '/src/') or 'fatal error' in l]
            return n, bad, errs, os.path.exists(o)
        us2 = sorted(us, key=lambda u: not u[0].startswith('probe'))
        diags = {}
        with ThreadPoolExecutor(8) as ex:
            for n, bad, errs, ok in ex.map(one, us2):
                if n.startswith(('probe/x_', 'probe/p_')) and (bad or errs):
                    # an adapter or special probe that does not compile: only
                    # the rules that analyse it are concerned
                    diags[n] = bad + errs
                    if os.path.exists(os.path.join(tmp, n.replace('/', '__') + '.json')):
                        os.remove(os.path.join(tmp, n.replace('/', '__') + '.json'))
                    continue
                if bad or not ok:
                    raise AnalysisBroken('cannot parse %s: %s' % (n, bad[:3] or errs[:3]))
                if errs:
                    diags[n] = errs
        json.dump(diags, open(tmp + '/diags', 'w'))
        open(tmp + '/done', 'w').write('ok')
        try:
            os.rename(tmp, out)
        except OSError:
            out = tmp
            paths = {n: os.path.join(out, os.path.basename(p)) for n, p in paths.items()}
        # keep only the newest few exports (never one that may be in use)
        def age(d):
            try:
                return time.time() - os.path.getmtime(d)
            except OSError:
                return 0
        olds = sorted(((age(d), d) for d in glob.glob(base + '/*') if d != out), reverse=True)
        for a, d in olds[:-8]:
            if a > 600:
                subprocess.run(['rm', '-rf', d])
    return paths


_GQ = {}


def generic(q):
    """Qualified name with every template argument list removed."""
    r = _GQ.get(q)
    if r is not None:
        return r
    out, depth, i = [], 0, 0
    while i < len(q):
        if depth == 0 and q.startswith('operator', i) and (i == 0 or not q[i - 1].isalnum()):
            j = i + 8
            while j < len(q) and q[j] in '<>=-!':
                j += 1
            if q[i + 8:j].startswith(('<<', '->', '<=', '>=', '>>', '<', '>', '==', '!=', '-', '=')):
                op = q[i + 8:j]
                # "operator<<<T>" style names: keep the longest real operator
                for o in ('->', '<<=', '>>=', '<<', '>>', '<=', '>=', '==', '!=', '<', '>',
                          '--', '-=', '-', '=', '!'):
                    if op.startswith(o):
                        out.append('operator' + o)
                        i += 8 + len(o)
                        break
                else:
                    out.append('operator')
                    i += 8
                continue
        c = q[i]
        if c == '<':
            depth += 1
        elif c == '>' and q[i - 1] != '-':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    r = _GQ[q] = ''.join(out)
    return r


class Decl:
    __slots__ = ('tu', 'd', 'id', 'k', 'q', 'n', 'file', 'line', '_fq')

    @property
    def g(self):
        return generic(self.q)

    def __init__(self, tu, d):
        self.tu = tu
        self.d = d
        self.id = d['id']
        self.k = d['k']
        self.q = d.get('q', '')
        self.n = d.get('n', '')
        f = d.get('bf', d.get('f'))
        self.file = tu.files[f] if f is not None else ''
        self.line = d.get('bl', d.get('l', 0))

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def body(self):
        return self.d.get('body')

    @property
    def inrepo(self):
        return self.file.startswith(REPO + '/')

    @property
    def inprobe(self):
        return self.file.startswith(VERIF + '/probe/')

    @property
    def rec(self):
        r = self.d.get('rec')
        return self.tu.decl(r) if r is not None else None

    @property
    def params(self):
        return [self.tu.decl(p) for p in self.d.get('params', [])]

    @property
    def loc(self):
        return '%s:%d' % (self.file.replace(REPO + '/', ''), self.line)

    @property
    def key(self):
        """TU independent identity for fields, records, globals."""
        if self.k == 'Field':
            r = self.rec
            if r is not None and not r.get('lambda') and 'anonymous' not in r.q \
                    and 'lambda at' not in r.q:
                return r.q + '::' + (self.n or '#%d' % self.d.get('idx', 0))
            return '%s#%d::%d' % (self.tu.name, self.d.get('rec', -1), self.d.get('idx', 0))
        return '%s#%d' % (self.tu.name, self.id)

    def type(self, k='t'):
        return self.tu.type(self.d.get(k))

    def __repr__(self):
        return '<%s %s @%s>' % (self.k, self.q, self.loc)


class Type:
    __slots__ = ('tu', 'd', 's', 'k')

    def __init__(self, tu, d):
        self.tu = tu
        self.d = d
        self.s = d['s']
        self.k = d['k']

    @property
    def to(self):
        return self.tu.type(self.d.get('to'))

    @property
    def rec(self):
        return self.tu.decl(self.d['rec']) if self.k == 'rec' else None

    @property
    def const(self):
        return bool(self.d.get('const'))

    def strip(self):
        t = self
        while t.k in ('lref', 'rref'):
            t = t.to
        return t

    def __repr__(self):
        return '<T %s>' % self.s


class TU:
    def __init__(self, name, path):
        self.name = name
        j = json.load(open(path))
        self.files = j['files']
        self.types = {t['id']: Type(self, t) for t in j['types'] + j['types2']}
        self.decls = {d['id']: Decl(self, d) for d in j['decls'] + j['decls2']}
        self.patterns = j['patterns']

    def decl(self, i):
        return self.decls.get(i) if i is not None else None

    def type(self, i):
        return self.types.get(i) if i is not None else None


def walk(n, pre=None):
    """Every statement/expression node below n (preorder)."""
    if isinstance(n, list):
        for x in n:
            yield from walk(x)
        return
    if not isinstance(n, dict):
        return
    if 'k' in n:
        yield n
    for k, v in n.items():
        if isinstance(v, (dict, list)) and k not in ('bytes',):
            yield from walk(v)


class Program:
    def __init__(self, names=None):
        paths = export()
        self.tus = {}
        self.diags = json.load(open(os.path.join(os.path.dirname(list(paths.values())[0]),
                                                 'diags')))
        for n, p in paths.items():
            if not os.path.exists(p):
                continue
            # by default everything but the special probes
            if not n.startswith(('probe/x_', 'probe/p_')) if names is None else \
                    any(n.startswith(x) for x in names):
                self.tus[n] = TU(n, p)
        self.defs = {}       # mangled -> Decl with body
        self.lambdas = {}    # (tu name, rec id) -> captures
        self.byq = {}        # qualified name -> [Decl with body]
        self.overriders = {}  # mangled of overridden -> [Decl]
        self.functions = []  # every function with body in /repo (unique by mangled name)
        for tu in self.tus.values():
            for d in tu.decls.values():
                if d.k in ('Function', 'Method', 'Ctor', 'Dtor', 'Conv'):
                    m = d.get('m')
                    if d.body is not None:
                        first = m is None or m not in self.defs
                        if m is not None:
                            self.defs.setdefault(m, d)
                        if first:
                            self.functions.append(d)
                            self.byq.setdefault(d.q, []).append(d)
        for tu in self.tus.values():
            for d in tu.decls.values():
                for root in [d.get('body')] + [i['e'] for i in d.get('inits', [])] + \
                        ([d.get('init')] if d.get('init') else []):
                    if root is None:
                        continue
                    for n in walk(root):
                        if n['k'] == 'LambdaExpr':
                            self.lambdas[(tu.name, n['rec'])] = (n['caps'], d)
                for o in d.get('overrides', []):
                    od = tu.decl(o)
                    key = od.get('m') or od.key
                    self.overriders.setdefault(key, {})[d.get('m') or d.key] = d

    def resolve(self, d):
        """The definition of function d (same TU or another one)."""
        if d is None:
            return None
        if d.body is not None:
            return d
        m = d.get('m')
        return self.defs.get(m, d) if m else d

    def all_overriders(self, d, seen=None):
        out, work, seen = [], [d], set()
        while work:
            x = work.pop()
            key = x.get('m') or x.key
            if key in seen:
                continue
            seen.add(key)
            for y in self.overriders.get(key, {}).values():
                out.append(self.resolve(y))
                work.append(y)
        return out

    def find(self, q, allow_none=False, repo=True):
        """All bodies of functions with the given qualified name."""
        r = [d for d in self.byq.get(q, []) if d.inrepo or not repo]
        if not r and not allow_none:
            raise AnalysisBroken('anchor %s: no analysed body' % q)
        return r

    def decls(self, kind):
        for tu in self.tus.values():
            for d in tu.decls.values():
                if d.k == kind:
                    yield d


def nodeloc(tu, n):
    f = n.get('f')
    return '%s:%d' % (tu.files[f].replace(REPO + '/', '') if f is not None else '?',
                      n.get('l', 0))
