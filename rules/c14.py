"""C14: the result of a run is a function of its configuration.  Three dataflow
arguments over the whole resolved program: no source of variation outside the
loading of the configuration, no state surviving from one call to the next, no
read of memory that was never written or of operands without an order."""
from rcbase import *
from effects import Effects, chaintext

TITLE = 'Runs with equal configuration and seed are identical: no hidden input'

SOURCES = {
    'rand', 'srand', 'random', 'rand_r', 'drand48', 'lrand48', 'mrand48', 'time', 'clock',
    'gettimeofday', 'clock_gettime', 'times', 'getrandom', 'getentropy', 'getpid', 'gettid',
    'getppid', 'pthread_self', 'getenv', 'secure_getenv', 'localtime', 'gmtime', 'tmpnam', 'mktemp',
    'mkstemp', 'gethostname', 'getcwd', 'setlocale', 'uname', 'rdtsc', '__rdtsc',
    '__builtin_ia32_rdtsc', '__builtin_readcyclecounter', 'arc4random', '__builtin_frame_address',
    '__builtin_return_address', 'timespec_get', 'ftime', 'hardware_concurrency',
}
SCALAR = ('builtin', 'ptr', 'enum')
PURE_NS = ('rc::gen::', 'rc::shrink::', 'rc::shrinkable::', 'rc::seq::', 'rc::fn::', 'rc::Gen::',
           'rc::Shrinkable::', 'rc::Seq::', 'rc::Random::', 'rc::newtype', 'rc::state::')
ENGINE = ('rc::detail::testProperty', 'rc::detail::reproduceProperty', 'rc::detail::searchProperty',
          'rc::detail::shrinkTestCase')


def roots(f):
    return [f.body] + [i.get('e') for i in f.get('inits') or []]


def source(tu, n, callee):
    """A value that differs between runs of the same program."""
    k = n['k']
    if k in ('CastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr', 'ImplicitCastExpr',
             'CXXFunctionalCastExpr', 'CXXStaticCastExpr') and n.get('ck') == 'PointerToIntegral':
        return 'the value of an address'
    if callee is None:
        d = tu.decl(n['d']) if isinstance(n.get('d'), int) else None
        if d is None or k not in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr',
                                  'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return None
        callee = d
    if callee.inrepo:
        return None
    q = callee.g
    if callee.n in SOURCES and q in (callee.n, 'std::' + callee.n):
        return q
    if q.startswith('std::random_device::'):
        return q
    if callee.n == 'now' and q.startswith('std::chrono::'):
        return q
    if q.startswith('std::this_thread::') or q == 'std::thread::get_id':
        return q
    if q.startswith('std::hash::') and callee.rec is not None and '*' in callee.rec.q:
        return q + ' of a pointer'
    return None


def sources(rep, P):
    eff = Effects(P, source)
    cfg = P.find('rc::detail::configuration')[0]
    key = eff.key
    inside = set()
    todo = [cfg]
    while todo:
        f = todo.pop()
        if key(f) in inside:
            continue
        inside.add(key(f))
        todo += [t for t, _ in eff.direct(f)[1]]
    stop = Effects(P, source, stop=lambda d: key(d) == key(cfg))
    n = 0
    seeds = 0
    for f in P.functions:
        if not f.inrepo or f.body is None:
            continue
        n += 1
        leafs = eff.direct(f)[0]
        if key(f) in inside:
            seeds += len(leafs)
            continue
        for label, w in leafs[:1]:
            rep.check(False, w, '%s consults %s' % (f.q[:80], label))
    if not seeds:
        raise AnalysisBroken('no source of random seeds in the loading of the configuration')
    rep.need(n, 1000, 'functions')
    rep.check(True, 'src', '', '%d functions: sources of variation only below configuration()' % n)
    # ... and the configuration is not consulted by generators or the engine
    back, names = {}, {}
    for f in P.functions:
        if f.body is not None:
            for t, w in eff.direct(f)[1]:
                back.setdefault(key(t), []).append((f, w))
    tainted = {key(cfg): None}
    todo = [cfg]
    while todo:
        t = todo.pop(0)
        for f, w in back.get(key(t), []):
            if key(f) not in tainted:
                tainted[key(f)] = (t, w)
                todo.append(f)
    m = 0
    seen = set()
    for f in P.functions:
        g = f.g
        if not f.inrepo or f.body is None:
            continue
        ps = [p.type().strip() for p in f.params]
        if not (g.startswith(PURE_NS) or g in ENGINE or
                any(p.k == 'rec' and p.rec.g == 'rc::Random' for p in ps)):
            continue
        m += 1
        if key(f) in tainted and key(f) not in inside:
            chain, x = [], f
            while tainted[key(x)] is not None:
                t, w = tainted[key(x)]
                chain.append((x.q, w))
                x = t
            if chain[-1][1] not in seen:
                seen.add(chain[-1][1])
                rep.check(False, chain[-1][1], '%s depends on the global configuration(): %s'
                          % (g, chaintext(chain)))
    rep.need(m, 500, 'engine and generator functions')
    rep.check(True, 'src', '', '%d functions of the engine and the generators take everything '
              'from their arguments' % m)
    rep.count('functions', n)


def stateless(t):
    if t.k != 'rec' or t.rec is None:
        return False
    r = t.rec
    if r.get('fields'):
        return False
    return all(stateless(r.tu.type(b)) if isinstance(b, int) else True
               for b in r.get('bases', []) if isinstance(b, int))


SCOPED = ('rc::detail::ImplicitScope', 'rc::detail::ImplicitParam')


def fnptr(t):
    while t.k == 'array':
        t = t.to
    return t.k == 'ptr' and t.to is not None and t.to.k == 'fn'


def pointee(t):
    """Type a static handle gives write access to, or None."""
    if t.k == 'ptr':
        p = t.to
        return p if p is not None and not p.const and p.k != 'fn' else None
    return None


def statics(rep, P):
    """No variable with static storage is written after its initialisation."""
    seen = set()
    cnt = 0
    for f in P.functions:
        if not f.inrepo or f.body is None:
            continue
        tu = f.tu
        # parents
        for root in roots(f):
            if root is None:
                continue
            stack = [(root, [])]
            while stack:
                n, up = stack.pop()
                if isinstance(n, list):
                    stack += [(x, up) for x in n]
                    continue
                if not isinstance(n, dict):
                    continue
                up2 = up + [n] if 'k' in n else up
                for k, v in n.items():
                    if isinstance(v, (dict, list)) and k != 'bytes':
                        stack.append((v, up2))
                if n.get('k') not in ('DeclRefExpr', 'MemberExpr'):
                    continue
                d = tu.decl(n.get('d'))
                if d is None or d.k not in ('Var', 'VarTemplateSpecialization') or \
                        d.get('st') in (None, 'local') or not d.inrepo:
                    continue
                cnt += 1
                t = d.type()
                if t.const or d.get('constexpr') or stateless(t):
                    continue
                if t.k in ('lref', 'rref') and t.to.const:
                    continue
                if d.rec is not None and d.rec.g in SCOPED or \
                        any(d.q.startswith(x) for x in SCOPED):
                    continue
                if not readonly(up2):
                    w = (nodeloc(tu, n), d.q)
                    if w not in seen:
                        seen.add(w)
                        rep.check(False, nodeloc(tu, n), '%s keeps state in %s, which outlives the '
                                  'call' % (f.q[:80], d.q))
    rep.count('static variables', cnt)
    if not cnt:
        raise AnalysisBroken('no variable with static storage referenced')
    # initialisers
    ns = 0
    dup = set()
    for tu in P.tus.values():
        for d in tu.decls.values():
            if d.k != 'Var' or d.get('st') not in ('static_local', 'thread') or not d.inrepo:
                continue
            ns += 1
            t = d.type()
            if d.loc in dup:
                continue
            dup.add(d.loc)
            for n in walk(d.get('init') or {}):
                if n['k'] == 'CXXThisExpr' or n['k'] == 'DeclRefExpr' and n.get('d') is not None \
                        and (lambda x: x is not None and x.k in ('Var', 'Parm') and
                             x.get('st') in ('local', None) and not own(x, d))(tu.decl(n['d'])):
                    rep.check(False, nodeloc(tu, n), 'the static local %s is initialised from what '
                              'the first call was given' % d.n)
            p = t
            if t.k == 'rec' and t.rec is not None and t.rec.g in (
                    'std::shared_ptr', 'std::unique_ptr'):
                inner = t.s.split('<', 1)[1] if '<' in t.s else t.s
                rep.check(inner.startswith(('const ', 'rc::detail::TestListener')), d.loc,
                          'the static %s gives every call access to the same object' % d.n)
            elif pointee(p) is not None and not fnptr(p):
                rep.check(False, d.loc, 'the static pointer %s gives every call access to the same '
                          'object' % d.n)
            if d.get('st') == 'thread':
                rep.check(t.const, d.loc, 'thread local variable %s' % d.n)
    rep.need(ns, 10, 'static locals')
    rep.check(True, 'include', '', '%d static locals: initialised from constants, '
              'never written' % ns)


def own(x, d):
    """x is declared within the initialiser (parameter or local of a lambda)."""
    fx, fd = x.get('fn'), d.get('fn')
    return fx is not None and fx != fd


def readonly(up):
    """The reference up[-1] is only read."""
    for i in range(len(up) - 2, -1, -1):
        p, c = up[i], up[i + 1]
        k = p['k']
        if k == 'ParenExpr':
            continue
        if p.get('ck') == 'LValueToRValue':
            return True
        if p.get('ck') in ('ArrayToPointerDecay', 'NoOp', 'FunctionToPointerDecay'):
            continue
        if k == 'ArraySubscriptExpr':
            continue
        if k == 'MemberExpr' and not p.get('arrow'):
            continue
        return False
    return False


def hidden(rep, P):
    """Nothing changes behind a const interface."""
    n = 0
    seen = set()
    for tu in P.tus.values():
        for d in tu.decls.values():
            if d.k == 'Field' and d.inrepo:
                n += 1
                if d.get('mutable') and d.loc not in seen:
                    seen.add(d.loc)
                    rep.check(False, d.loc, 'the mutable member %s lets const operations (generating, '
                              'shrinking) depend on earlier ones' % d.q)
    m = 0
    for f in P.functions:
        if not f.inrepo or f.body is None:
            continue
        m += 1
        for nd in walk(roots(f)):
            if nd['k'] == 'CXXConstCastExpr':
                t, s = f.tu.type(nd.get('t')), f.tu.type(nd['c'][0].get('t'))
                a, b = t.strip(), s.strip()
                if a.k == 'ptr':
                    a, b = a.to, b.to
                if b is not None and b.const and not a.const:
                    w = nodeloc(f.tu, nd)
                    if w not in seen:
                        seen.add(w)
                        rep.check(False, w, '%s writes through a const interface' % f.q[:80])
    rep.need(n, 50, 'data members')
    rep.check(True, 'include', '', '%d data members: none mutable; no const is cast '
              'away in %d functions' % (n, m))


# ------------------------------------------------------- uninitialised -----

class Unset:
    """Definite assignment of scalars and of the scalar members that default
    construction leaves without a value."""

    def __init__(self, P, rep):
        self.P = P
        self.rep = rep
        self.seen = set()
        self.vars = 0
        self.reads = 0

    def leaves(self, ctor, depth=0):
        c = self.P.resolve(ctor)
        r = c.rec
        if r is None or not (r.inrepo or r.inprobe) or depth > 6:
            return []
        if any('deleg' in i for i in c.get('inits') or []):
            return []
        inits = {}
        for i in c.get('inits') or []:
            if 'field' in i:
                inits[c.tu.decl(i['field']).n] = i
        out = []
        body = self.assigned_body(c)
        for fid in r.get('fields') or []:
            fd = r.tu.decl(fid)
            t = fd.type()
            i = inits.get(fd.n)
            if t.k in SCALAR:
                if i is None and fd.get('init') is None and fd.n not in body:
                    out.append((fd.n,))
            elif t.k == 'rec' and t.rec is not None and i is not None:
                e = i.get('e')
                if isinstance(e, dict) and self.plain(e) and t.rec.g == 'std::array':
                    if fd.n not in body and 'rec' not in (t.rec.tu.decl(
                            t.rec.get('fields')[0]).type().to.k,) if t.rec.get('fields') else True:
                        out.append((fd.n,))
                elif isinstance(e, dict) and self.plain(e):
                    out += [(fd.n,) + p for p in self.leaves(c.tu.decl(e['d']), depth + 1)]
        return out

    def assigned_body(self, c):
        """Members the body of a constructor assigns unconditionally."""
        out = set()
        b = c.body
        for s in (b.get('c') or []) if isinstance(b, dict) and b.get('k') == 'CompoundStmt' else []:
            while s is not None and s.get('k') == 'ExprWithCleanups':
                s = s['c'][0]
            if s is not None and s.get('k') in ('BinaryOperator', 'CXXOperatorCallExpr') and \
                    s.get('op') == '=':
                for n in s['c']:
                    if n['k'] == 'MemberExpr' and n['c'] and n['c'][0]['k'] == 'CXXThisExpr':
                        out.add(c.tu.decl(n['d']).n)
                        break
        return out

    @staticmethod
    def plain(e):
        return e['k'] == 'CXXConstructExpr' and not e.get('c') and not e.get('zero') and \
            not e.get('list') and e.get('d') is not None

    # state: {var id: frozenset(paths)} or None when unreachable
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, frozenset()) | v
        return out

    def path(self, n):
        """(var id, member path) of an lvalue rooted in a local."""
        ms = []
        while True:
            k = n['k']
            if k == 'ParenExpr' or n.get('ck') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase') \
                    and n.get('c'):
                n = n['c'][0]
            elif k == 'MemberExpr' and not n.get('arrow') and n.get('c'):
                d = self.f.tu.decl(n['d'])
                if d is None or d.k != 'Field':
                    return None
                ms.append(d.n)
                n = n['c'][0]
            elif k == 'DeclRefExpr' and n.get('d') in self.st_vars:
                return n['d'], tuple(reversed(ms))
            else:
                return None

    def assign(self, st, p):
        v, pre = p
        if v in st:
            st[v] = frozenset(x for x in st[v] if x[:len(pre)] != pre)

    def read(self, st, p, n):
        v, pre = p
        bad = [x for x in st.get(v, ()) if x[:len(pre)] == pre or pre[:len(x)] == x]
        self.reads += 1
        if bad:
            d = self.f.tu.decl(v)
            w = nodeloc(self.f.tu, n)
            name = '.'.join((d.n,) + tuple(bad[0]))
            if (w, name) not in self.seen:
                self.seen.add((w, name))
                self.rep.check(False, w, '%s reads %s, which has not been given a value on some path'
                               % (self.f.q[:80], name))
            self.assign(st, p)

    def refarg(self, tu, d, i):
        """Parameter i may assign its argument."""
        if d is None:
            return False
        ps = d.params
        if i >= len(ps):
            return False
        t = ps[i].type()
        return t.k == 'lref' and not t.to.const

    def expr(self, st, n):
        if st is None or not isinstance(n, dict):
            return st
        k = n.get('k')
        tu = self.f.tu
        if k is None:
            return st
        if k in ('DeclRefExpr', 'MemberExpr'):
            p = self.path(n)
            if p is not None:
                self.read(st, p, n)
                return st
        if k == 'BinaryOperator' and n['op'] in ('&&', '||'):
            st = self.expr(st, n['c'][0])
            b = self.expr(dict(st), n['c'][1]) if st is not None else None
            return self.join(st, b)
        if k == 'ConditionalOperator':
            st = self.expr(st, n['c'][0])
            if st is None:
                return None
            return self.join(self.expr(dict(st), n['c'][1]), self.expr(dict(st), n['c'][2]))
        if k == 'BinaryOperator' and n['op'] == '=':
            st = self.expr(st, n['c'][1])
            p = self.path(n['c'][0])
            if st is not None and p is not None:
                self.assign(st, p)
                return st
            return self.expr(st, n['c'][0])
        if k == 'UnaryOperator' and n.get('op') == '&':
            p = self.path(n['c'][0])
            if p is not None:
                self.assign(st, p)
                return st
        if k == 'CXXThrowExpr':
            for c in n.get('c') or []:
                st = self.expr(st, c)
            return None
        if k == 'LambdaExpr':
            for c in n.get('caps', []):
                if c.get('kind') == 'copy' and c.get('init') is not None:
                    st = self.expr(st, c['init'])
                elif c.get('kind') == 'ref' and c.get('d') in self.st_vars:
                    self.assign(st, (c['d'], ()))
            return st
        if k in ('UnaryExprOrTypeTraitExpr', 'CXXNoexceptExpr', 'CXXTypeidExpr'):
            return st
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr',
                 'CXXTemporaryObjectExpr'):
            d = tu.decl(n['d']) if isinstance(n.get('d'), int) else None
            cs = list(n.get('c') or [])
            later = []
            if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
                head, args = cs[0], cs[1:]
                if k == 'CXXMemberCallExpr':
                    # head: MemberExpr(object)
                    o = head
                    while o['k'] == 'ParenExpr':
                        o = o['c'][0]
                    obj = o['c'][0] if o['k'] == 'MemberExpr' and o.get('c') else None
                    if obj is not None:
                        p = self.path(obj) if not o.get('arrow') else None
                        if p is not None and d is not None and not d.get('constm'):
                            later.append(p)
                        else:
                            st = self.expr(st, obj)
                elif k == 'CXXOperatorCallExpr':
                    if d is not None and d.k in ('Method', 'Conv') and args:
                        p = self.path(args[0])
                        if p is not None and not d.get('constm'):
                            later.append(p)
                            args = args[1:]
                        off = 0
                        if p is None or d.get('constm'):
                            st = self.expr(st, args[0])
                            args = args[1:]
                    # free operators: arguments are parameters
                else:
                    if d is None:
                        st = self.expr(st, head)
            else:
                args = cs
            for i, a in enumerate(args):
                if st is None:
                    return None
                p = self.path(a)
                if p is not None and self.refarg(tu, d, i) and \
                        not (d.n in ('move', 'forward') and d.q.startswith('std::')):
                    later.append(p)
                    continue
                st = self.expr(st, a)
            if st is not None:
                for p in later:
                    self.assign(st, p)
                if d is not None and d.get('noreturn') or \
                        d is not None and d.q in ('std::exit', 'exit', 'abort', 'std::abort',
                                                  'std::terminate'):
                    return None
            return st
        for c in n.get('c') or []:
            st = self.expr(st, c)
        for kk in ('init', 'pargs'):
            v = n.get(kk)
            if isinstance(v, dict):
                st = self.expr(st, v)
            elif isinstance(v, list):
                for x in v:
                    st = self.expr(st, x)
        return st

    def decl(self, st, n):
        tu = self.f.tu
        for v in n.get('decls') or []:
            if st is None:
                return None
            d = tu.decl(v['d'])
            if d.get('st') != 'local':
                continue
            t = d.type()
            e = v.get('init')
            if e is None:
                if t.k in SCALAR:
                    self.st_vars.add(d.id)
                    self.vars += 1
                    st[d.id] = frozenset([()])
                continue
            if self.plain(e):
                l = self.leaves(tu.decl(e['d']))
                if l:
                    self.st_vars.add(d.id)
                    self.vars += 1
                    st[d.id] = frozenset(l)
                continue
            if t.k == 'lref' and not t.to.const:
                p = self.path(e)
                if p is not None:
                    self.assign(st, p)
                    continue
            st = self.expr(st, e)
        return st

    def stmt(self, st, n, brk, cont):
        if st is None or not isinstance(n, dict):
            return st
        k = n.get('k')
        if k == 'CompoundStmt':
            for c in n.get('c') or []:
                if isinstance(c, dict) and c.get('k') in ('CaseStmt', 'DefaultStmt'):
                    st = self.stmt(st, c, brk, cont)
                else:
                    st = self.stmt(st, c, brk, cont)
            return st
        if k == 'DeclStmt':
            return self.decl(st, n)
        if k == 'ReturnStmt':
            for c in n.get('c') or []:
                st = self.expr(st, c)
            return None
        if k == 'BreakStmt':
            brk.append(st)
            return None
        if k == 'ContinueStmt':
            cont.append(st)
            return None
        if k == 'GotoStmt':
            return None
        if k == 'IfStmt':
            st = self.stmt(st, n.get('init'), brk, cont)
            st = self.stmt(st, n.get('cvar'), brk, cont)
            st = self.expr(st, n['cond'])
            if st is None:
                return None
            a = self.stmt(dict(st), n['then'], brk, cont)
            b = self.stmt(dict(st), n.get('else'), brk, cont) if n.get('else') else st
            return self.join(a, b)
        if k in ('WhileStmt', 'ForStmt', 'CXXForRangeStmt'):
            for x in ('init', 'range', 'begin', 'end'):
                if n.get(x):
                    st = self.stmt(st, n[x], brk, cont)
            if st is None:
                return None
            b2, c2 = [], []
            st = self.stmt(st, n.get('cvar'), b2, c2)
            forever = n.get('cond') is None or n['cond'].get('cv') == '1' or n['cond'].get('v') == '1'
            if n.get('cond') is not None:
                st = self.expr(st, n['cond'])
            if st is None:
                return None
            s = dict(st)
            s = self.stmt(s, n.get('var'), b2, c2)
            s = self.stmt(s, n.get('body'), b2, c2)
            for x in c2:
                s = self.join(s, x)
            if n.get('inc') is not None and s is not None:
                self.expr(s, n['inc'])
            out = None if forever else st
            for x in b2:
                out = self.join(out, x)
            return out
        if k == 'DoStmt':
            b2, c2 = [], []
            s = self.stmt(st, n['body'], b2, c2)
            for x in c2:
                s = self.join(s, x)
            s = self.expr(s, n['cond'])
            for x in b2:
                s = self.join(s, x)
            return s
        if k == 'SwitchStmt':
            st = self.stmt(st, n.get('init'), brk, cont)
            st = self.stmt(st, n.get('cvar'), brk, cont)
            st = self.expr(st, n['cond'])
            if st is None:
                return None
            b2 = []
            cur, default = None, False
            body = n['body'].get('c') or [] if n['body'].get('k') == 'CompoundStmt' else [n['body']]
            for c in body:
                while isinstance(c, dict) and c.get('k') in ('CaseStmt', 'DefaultStmt'):
                    default = default or c['k'] == 'DefaultStmt'
                    cur = self.join(cur, dict(st))
                    c = c.get('sub')
                if cur is not None:
                    cur = self.stmt(cur, c, b2, cont)
            if not default and not self.exhaustive(n, body):
                cur = self.join(cur, st)
            for x in b2:
                cur = self.join(cur, x)
            return cur
        if k == 'CXXTryStmt':
            a = self.stmt(dict(st), n['body'], brk, cont)
            for h in n['handlers']:
                a = self.join(a, self.stmt(dict(st), h.get('body'), brk, cont))
            return a
        if k in ('CaseStmt', 'DefaultStmt'):
            return self.stmt(st, n.get('sub'), brk, cont)
        if k == 'NullStmt':
            return st
        return self.expr(st, n)

    def exhaustive(self, n, body):
        c = n['cond']
        while c.get('ck') == 'IntegralCast' or c['k'] == 'ParenExpr':
            c = c['c'][0]
        t = self.f.tu.type(c.get('t'))
        if t is None or t.k != 'enum':
            return False
        e = self.f.tu.decl(t.d.get('enum')) if t.d.get('enum') is not None else None
        if e is None:
            return False
        have = {x['lhs'].get('cv') for b in body for x in walk(b) if x['k'] == 'CaseStmt'}
        return all(str(x['v']) in have for x in e.get('consts', []))

    def function(self, f):
        self.f = f
        self.st_vars = set()
        self.stmt({}, f.body, [], [])


def uninit(rep, P):
    u = Unset(P, rep)
    n = 0
    for f in P.functions:
        if f.inrepo and f.body is not None:
            n += 1
            u.function(f)
    rep.need(u.vars, 10, 'locals without initial value')
    rep.check(True, 'src', '', '%d scalars and members left unset by their declaration, each given a value before '
              'every read (%d reads)' % (u.vars, u.reads))
    # constructors
    m = 0
    seen = set()
    for f in P.functions:
        if f.k != 'Ctor' or not f.inrepo or f.get('defaulted') or f.get('implicit') or \
                f.body is None or f.rec is None:
            continue
        if f.get('copyctor') or f.get('movector'):
            pass
        m += 1
        for p in u.leaves(f):
            if f.rec.g in STORAGE and p[0] in STORAGE[f.rec.g]:
                continue
            w = (f.loc, p)
            if w not in seen:
                seen.add(w)
                rep.check(False, f.loc, 'the constructor %s leaves %s without a value'
                          % (f.g, '.'.join(p)))
    rep.need(m, 100, 'constructors')
    rep.check(True, 'include', '', '%d user written constructors give every scalar '
              'member a value' % m)


STORAGE = {}


# --------------------------------------------------------- unsequenced -----

def unsequenced(rep, P):
    n = 0
    seen = set()
    for f in P.functions:
        if not f.inrepo or f.body is None:
            continue
        tu = f.tu

        def key(x):
            ms = []
            while True:
                k = x['k']
                if k == 'ParenExpr' or x.get('ck') in ('NoOp', 'LValueToRValue', 'DerivedToBase',
                                                       'UncheckedDerivedToBase'):
                    x = x['c'][0]
                elif k == 'MemberExpr' and x.get('c'):
                    ms.append(x['d'])
                    x = x['c'][0]
                elif k == 'DeclRefExpr':
                    return (x.get('d'),) + tuple(reversed(ms))
                elif k == 'CXXThisExpr':
                    return ('this',) + tuple(reversed(ms))
                else:
                    return None

        def nodes(x):
            if isinstance(x, list):
                for y in x:
                    yield from nodes(y)
            elif isinstance(x, dict):
                if x.get('k') == 'LambdaExpr':
                    for c in x.get('caps', []):
                        yield from nodes(c.get('init'))
                    return
                if x.get('k') in ('UnaryExprOrTypeTraitExpr', 'CXXNoexceptExpr'):
                    return
                if 'k' in x:
                    yield x
                for k, v in x.items():
                    if isinstance(v, (dict, list)) and k != 'bytes':
                        yield from nodes(v)

        def muts(x):
            out = set()
            for y in nodes(x):
                k = y['k']
                o = None
                if k == 'CXXMemberCallExpr':
                    d = tu.decl(y['d']) if isinstance(y.get('d'), int) else None
                    if d is not None and d.inrepo and not d.get('constm') and not d.get('static'):
                        h = y['c'][0]
                        while h['k'] == 'ParenExpr':
                            h = h['c'][0]
                        o = h['c'][0] if h.get('c') else None
                elif k == 'UnaryOperator' and y.get('op') in ('++', '--'):
                    o = y['c'][0]
                elif k in ('BinaryOperator', 'CompoundAssignOperator') and \
                        (y.get('op') == '=' or y.get('op', '').endswith('=') and
                         y['op'] not in ('==', '!=', '<=', '>=')):
                    o = y['c'][0]
                elif k == 'CXXOperatorCallExpr' and y.get('op') in ('++', '--', '=', '+=', '-='):
                    o = y['c'][1]
                if o is not None:
                    kk = key(o)
                    if kk is not None and kk != ('this',):
                        out.add(kk)
            return out

        def refs(x):
            out = set()
            for y in nodes(x):
                if y['k'] in ('DeclRefExpr', 'MemberExpr'):
                    kk = key(y)
                    if kk is not None:
                        out.add(kk)
            return out

        for root in roots(f):
            for c in walk(root):
                k = c['k']
                if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
                    ops = list(c.get('c') or [])[1:] if k != 'CXXMemberCallExpr' else \
                        list(c.get('c') or [])
                    if k == 'CXXOperatorCallExpr' and c.get('op') in ('=', '&&', '||', ','):
                        continue
                elif k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                    if c.get('list'):
                        continue
                    ops = list(c.get('c') or [])
                elif k == 'BinaryOperator' and c.get('op') not in ('=', '&&', '||', ','):
                    ops = list(c.get('c') or [])
                else:
                    continue
                if len(ops) < 2:
                    continue
                n += 1
                ms = [muts(o) for o in ops]
                if not any(ms):
                    continue
                rs = [refs(o) for o in ops]
                for i, m in enumerate(ms):
                    for x in m:
                        for j, r in enumerate(rs):
                            if i != j and any(y[:len(x)] == x or x[:len(y)] == y and len(y) > 0 and
                                              y != ('this',) for y in r | ms[j]):
                                w = nodeloc(tu, c)
                                if w not in seen:
                                    seen.add(w)
                                    d = tu.decl(x[-1]) if isinstance(x[-1], int) else None
                                    rep.check(False, w, '%s changes %s in one operand and uses it in '
                                              'another: the order is up to the compiler'
                                              % (f.q[:80], d.n if d is not None else x))
    rep.need(n, 1000, 'calls and operators')
    rep.check(True, 'src', '', '%d calls and operators with several operands: '
              'no operand changes what another one uses' % n)


def run(rep, tier):
    P = M.Program(['probe/', 'src/'])
    rep.rule('a call that yields something different in another run (random device, clock, '
             'environment, thread or process id, address value) is reachable from configuration() '
             'only, and configuration() from no generator, sequence, shrinkable or engine function')
    sources(rep, P)
    rep.rule('no variable with static storage is written after initialisation (except the scoped '
             'implicit parameters, C24), none is initialised from the arguments of the first call or '
             'hands out a mutable object')
    statics(rep, P)
    rep.rule('no mutable data member, no const_cast that removes const')
    hidden(rep, P)
    rep.rule('definite assignment: scalars, and scalar members a default constructor leaves unset, '
             'are assigned on every path before they are read')
    uninit(rep, P)
    rep.rule('no operand of a call or operator changes an object another operand uses')
    unsequenced(rep, P)
    rep.assume.append('user supplied callables, operator<< and custom generators are deterministic')
