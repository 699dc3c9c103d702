"""Path-sensitive abstract interpreter over the resolved AST.

Domain: value numbers (uninterpreted terms), a store of abstract locations,
syntactic branch facts and an event trace.  Loops are summarised by havocking
every location their body may change and interpreting one generic iteration;
no path is ever handed to a solver and nothing is executed.

Values
  ('c', v)                constant (int / str / None for null)
  ('sym', name)           unknown
  ('app', op, args...)    uninterpreted application
  ('S', base, overrides)  record value: overrides is a tuple of (elem, value)
  ('&', loc)              address of an abstract location
  ('fn', decl)            function designator / pointer to function
Locations
  ('L', base, path)       base: ('v', frame, key) local, ('h', n) temporary/heap,
                          ('g', key) global, ('D', value) target of unknown pointer
"""
from model import generic, nodeloc, AnalysisBroken, walk

NULL = ('c', 0)
UNIT = ('c', 'void')


def C(v):
    return ('c', v)


def quot(x, y):
    """Quotient of integers, towards zero."""
    q = abs(x) // abs(y)
    return q if (x < 0) == (y < 0) else -q


def app(op, *a):
    return ('app', op) + a


def show(v, depth=0):
    if depth > 6:
        return '...'
    if not isinstance(v, tuple) or not v:
        return str(v)
    t = v[0]
    if t == 'c':
        return repr(v[1]) if isinstance(v[1], str) else str(v[1])
    if t == 'sym':
        return str(v[1])
    if t == 'app':
        return '%s(%s)' % (v[1], ', '.join(show(x, depth + 1) for x in v[2:]))
    if t == 'S':
        return '{%s|%s}' % (show(v[1], depth + 1),
                            ', '.join('%s=%s' % (short(k), show(x, depth + 1)) for k, x in v[2]))
    if t == '&':
        return '&' + showloc(v[1])
    if t == 'fn':
        return getattr(v[1], 'q', str(v[1]))
    if t == 'L':
        return showloc(v)
    return str(v)


def short(k):
    if isinstance(k, tuple):
        return ':'.join(str(x) for x in k)
    return str(k).split('::')[-1]


def showloc(l):
    b = l[1]
    s = {'v': lambda: str(b[2][1] if isinstance(b[2], tuple) else b[2]),
         'h': lambda: 'tmp%s' % b[1], 'g': lambda: str(b[1]),
         'D': lambda: '*(%s)' % show(b[1])}[b[0]]()
    for e in l[2]:
        s += '.' + short(e)
    return s


def member_class(d):
    """Class of a member function, with its template arguments."""
    return d.q[:-len('::' + d.n)] if d.q.endswith('::' + d.n) else d.q.rsplit('::', 1)[0]


class Event:
    __slots__ = ('kind', 'name', 'q', 'decl', 'recv', 'recvloc', 'args', 'arglocs', 'ret',
                 'where', 'extra', 'facts')

    def __init__(self, kind, name, where, q='', decl=None, recv=None, recvloc=None, args=(),
                 arglocs=(), ret=None, extra=None):
        self.kind = kind
        self.name = name
        self.where = where
        self.q = q
        self.decl = decl
        self.recv = recv
        self.recvloc = recvloc
        self.args = args
        self.arglocs = arglocs
        self.ret = ret
        self.extra = extra

    def __repr__(self):
        return '%s %s(%s)%s @%s' % (self.kind, self.q or self.name,
                                    ', '.join(show(a) for a in self.args),
                                    ' on ' + show(self.recv) if self.recv is not None else '',
                                    self.where)


class State:
    __slots__ = ('env', 'facts', 'trace', 'temps', 'dom')

    def __init__(self):
        self.env = {}
        self.facts = {}
        self.trace = None    # cons list (event, rest)
        self.temps = ()      # pending temporaries with destructors
        self.dom = {}        # rule specific abstract state

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.temps = self.temps
        s.dom = dict(self.dom)
        return s

    def emit(self, ev):
        self.trace = (ev, self.trace)

    def events(self):
        out, t = [], self.trace
        while t is not None:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out


class Frame:
    __slots__ = ('id', 'fn', 'this', 'tu', 'closure', 'capmap', 'depth', 'exc', 'loopidx')
    N = 0

    def __init__(self, fn, this, depth):
        Frame.N += 1
        self.id = Frame.N
        self.fn = fn
        self.this = this
        self.tu = fn.tu
        self.closure = None
        self.capmap = {}
        self.depth = depth
        self.exc = []


class Throw:
    __slots__ = ('tag', 'val')

    def __init__(self, tag, val):
        self.tag = tag
        self.val = val

    def __repr__(self):
        return 'Throw(%s)' % (self.tag,)


def targs(r):
    """Type arguments of a template instance."""
    out = []
    for x in r.get('targs') or []:
        for y in (x if isinstance(x, list) else [x]):
            ty = r.tu.type(y) if isinstance(y, int) else None
            if ty is not None:
                out.append(ty)
    return out


class Budget(AnalysisBroken):
    pass


class Endless(Budget):
    pass


CMP = {'<', '>', '<=', '>=', '==', '!='}
ARITH = {'+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^'}


def norm_cmp(op, a, b):
    """-> (term, positive)"""
    if op == '>':
        return norm_cmp('<', b, a)
    if op == '>=':
        t, p = norm_cmp('<', a, b)
        return t, not p
    if op == '<=':
        t, p = norm_cmp('<', b, a)
        return t, not p
    if op == '!=':
        t, p = norm_cmp('==', a, b)
        return t, not p
    if op == '==':
        if repr(b) < repr(a):
            a, b = b, a
        if a[0] != 'c' and b[0] == 'c':
            a, b = b, a
    return app(op, a, b), True


def above(v):
    """v = x + k with k >= 0"""
    if v[:2] == ('app', '+') and v[3][0] == 'c' and isinstance(v[3][1], int) and v[3][1] >= 0:
        return v[2], v[3][1]
    return v, 0


def negate(v):
    if v[0] == 'c':
        return C(0 if v[1] else 1)
    if v[0] == 'app' and v[1] == '!':
        return v[2]
    return app('!', v)


class Interp:
    """One interpretation session; subclass or pass hooks to specialise."""

    # Classes whose members are modelled or left uninterpreted (never inlined).
    OPAQUE = ()
    MAXDEPTH = 24
    MAXREC = 2
    STATICINIT = False      # function local statics hold the value of their initialiser
    MAXPATHS = 40000

    def __init__(self, prog):
        self.P = prog
        self.n = 0
        self.steps = 0
        self.loops = []        # per loop: (where, head state, [back states])
        self.inlined = set()
        self.opaque_seen = set()
        self.unknown = set()
        self.recstack = []

    # ---- customisation points -------------------------------------------
    def model(self, st, fr, name, d, node, recvloc, args):
        """Return a list of (state, value-or-Throw) or None to fall through.
        args: list of (kind, value) where kind 'l' -> ('&', loc), 'v' -> value."""
        return None

    def throws(self, st, fr, name, d, node):
        """Exception tags an opaque call may raise."""
        return ()

    def inline(self, d, depth):
        if d.body is None or not (d.inrepo or d.inprobe):
            return False
        return True

    def fresh_call(self, name, d):
        """True: every call yields a new unknown (impure)."""
        return d is None or d.inprobe

    def on_dtor(self, st, fr, d, loc, where):
        return None

    # ---- exception type matching ----------------------------------------
    ANCEST = {
        'std::runtime_error': ('std::exception',),
        'std::logic_error': ('std::exception',),
        'rc::GenerationFailure': ('std::exception',),
    }

    def exc_matches(self, tag, ht):
        """Does a handler for type ht catch an exception with this tag?
        -> True / False / None (maybe)"""
        t = ht.strip()
        if t.k == 'rec':
            r = t.rec
            name = r.q
            if tag == name or tag == t.s.replace('const ', '', 1):
                return True
            if isinstance(tag, str):
                anc = self.ANCEST.get(tag)
                if anc is not None and name in anc:
                    return True
                td = self.rec_by_name(tag)
                if td is not None:
                    return name in self.bases(td)
            return False
        return tag == t.s

    def rec_by_name(self, q):
        if not hasattr(self.P, '_recidx'):
            idx = {}
            for r in self.P.decls('Record'):
                if 'fields' in r.d:
                    idx.setdefault(r.q, r)
            self.P._recidx = idx
        return self.P._recidx.get(q)

    def bases(self, r, out=None):
        out = set() if out is None else out
        for b in r.get('bases', []):
            bt = r.tu.type(b)
            if bt.rec is not None:
                out.add(bt.rec.q)
                self.bases(bt.rec, out)
        return out

    # ---- values and locations -------------------------------------------
    def sym(self, hint):
        self.n += 1
        return ('sym', '%s#%d' % (hint, self.n))

    def tmp(self, st, val, hint=''):
        self.n += 1
        loc = ('L', ('h', '%d%s' % (self.n, hint)), ())
        st.env[loc[1]] = val
        return loc

    def sub(self, loc, elem):
        return ('L', loc[1], loc[2] + (elem,))

    def proj(self, val, elem):
        while True:
            if val[0] == 'S':
                for k, v in val[2]:
                    if k == elem:
                        return v
                    if isinstance(elem, tuple) and elem[0] == 'idx' and isinstance(k, tuple) and \
                            k[0] == 'idx' and not (k[1][0] == elem[1][0] == 'c'):
                        return app('.', val, elem)      # may be the same element
                val = val[1]
                continue
            return app('.', val, elem)

    def upd(self, val, path, new):
        if not path:
            return new
        e = path[0]
        inner = self.upd(self.proj(val, e), path[1:], new)
        if val[0] == 'S':
            ov = tuple((k, v) for k, v in val[2] if k != e) + ((e, inner),)
            return ('S', val[1], ov)
        return ('S', val, ((e, inner),))

    def base_value(self, st, base):
        v = st.env.get(base)
        if v is None:
            if base[0] == 'D':
                v = app('deref', base[1])
            elif base[0] == 'g':
                v = ('sym', 'global:%s' % (base[1],))
            else:
                v = ('sym', 'uninit:%s' % (base[-1],))
        return v

    def load(self, st, loc):
        v = self.base_value(st, loc[1])
        for e in loc[2]:
            v = self.proj(v, e)
        return v

    def store(self, st, loc, val, where=None):
        st.env[loc[1]] = self.upd(self.base_value(st, loc[1]), loc[2], val)

    def deref(self, v):
        if v[0] == '&':
            return v[1]
        return ('L', ('D', v), ())

    # ---- facts -----------------------------------------------------------
    def decide(self, st, v):
        """True / False / None for a boolean value under the current facts."""
        if v[0] == 'c':
            if isinstance(v[1], str):
                return True
            return bool(v[1])
        if v[0] == '&' or v[0] == 'fn':
            return True
        if v[0] == 'app' and v[1] == '!':
            r = self.decide(st, v[2])
            return None if r is None else not r
        f = st.facts.get(v)
        if f is not None:
            return f
        if v[0] == 'app' and v[1] == '==':
            a, b = v[2], v[3]
            if a == b:
                return True
            if a[0] == 'c' and b[0] == 'c':
                return a[1] == b[1]
            if a[0] == 'c':
                k = st.facts.get(('val', b))
                if k is not None:
                    return k == a[1]
                ex = st.facts.get(('not', b))
                if ex and a[1] in ex:
                    return False
                if a == NULL:
                    # x == 0 is decided by the truth value of x
                    f = st.facts.get(b)
                    if f is not None:
                        return not f
        if v[0] == 'app' and v[1] == '<':
            a, b = v[2], v[3]
            if a == b:
                return False
            if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], int) and isinstance(b[1], int):
                return a[1] < b[1]
            ka = a[1] if a[0] == 'c' else st.facts.get(('val', a))
            kb = b[1] if b[0] == 'c' else st.facts.get(('val', b))
            if isinstance(ka, int) and isinstance(kb, int):
                return ka < kb
            if st.facts.get(app('<', b, a)) is True:
                return False
            (xa, ka), (xb, kb) = above(a), above(b)
            if xa == xb and xa[:2] == ('app', 'size'):
                return ka < kb      # sizes are far from overflowing
        k = st.facts.get(('val', v))
        if k is not None:
            return bool(k)
        e = st.facts.get(app('==', NULL, v))
        if e is not None:
            return not e
        return None

    def assume(self, st, v, truth):
        """Adds a fact; returns False when it contradicts known facts."""
        r = self.decide(st, v)
        if r is not None:
            return r == truth
        if v[0] == 'app' and v[1] == '!':
            return self.assume(st, v[2], not truth)
        st.facts[v] = truth
        if v[0] == 'app' and v[1] == '==' and v[2][0] == 'c':
            x = v[3]
            if truth:
                st.facts[('val', x)] = v[2][1]
            else:
                ex = st.facts.get(('not', x), frozenset()) | {v[2][1]}
                st.facts[('not', x)] = ex
                dom = self.domain_of(x)
                if dom is not None:
                    left = [d for d in dom if d not in ex]
                    if not left:
                        return False
                    if len(left) == 1:
                        st.facts[('val', x)] = left[0]
        return True

    def domain_of(self, v):
        """Finite domain of an enum valued term, when known."""
        return self.enumdom.get(v)

    enumdom = {}

    def truth(self, v):
        return v

    # ---- expression evaluation ------------------------------------------
    def tick(self):
        self.steps += 1
        if self.steps > 3000000:
            raise Budget('interpretation budget exhausted')

    def seq(self, st, fr, nodes, f):
        """Evaluate nodes left to right; f(node) -> evaluator."""
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vals in res:
                if isinstance(vals, Throw):
                    nxt.append((s, vals))
                    continue
                for s2, v in f(s, fr, n):
                    nxt.append((s2, v if isinstance(v, Throw) else vals + [v]))
            res = nxt
            if len(res) > self.MAXPATHS:
                raise Budget('too many paths')
        return res

    def rv(self, st, fr, n):
        """Evaluate to a value (lvalues are loaded)."""
        self.tick()
        if n is None:
            return [(st, UNIT)]
        if n.get('vk') in ('l', 'x'):
            out = []
            for s, v in self.ev(st, fr, n):
                if isinstance(v, Throw):
                    out.append((s, v))
                else:
                    out.append((s, self.load(s, v[1]) if v[0] == '&' else v))
            return out
        return self.ev(st, fr, n)

    def lv(self, st, fr, n):
        """Evaluate a glvalue to ('&', loc); prvalues are materialised."""
        out = []
        for s, v in self.ev(st, fr, n):
            if isinstance(v, Throw):
                out.append((s, v))
            elif n.get('vk') in ('l', 'x'):
                out.append((s, v if v[0] == '&' else ('&', self.deref(v))))
            else:
                out.append((s, ('&', self.tmp(s, v))))
        return out

    def cond(self, st, fr, n):
        """Evaluate a condition: list of (state, bool or Throw)."""
        k = n['k']
        if k == 'BinaryOperator' and n['op'] in ('&&', '||'):
            a, b = n['c']
            out = []
            for s, r in self.cond(st, fr, a):
                if isinstance(r, Throw) or r == (n['op'] == '||'):
                    out.append((s, r))
                else:
                    out.extend(self.cond(s, fr, b))
            return out
        if k == 'UnaryOperator' and n['op'] == '!':
            return [(s, r if isinstance(r, Throw) else not r)
                    for s, r in self.cond(st, fr, n['c'][0])]
        if k in ('ExprWithCleanups',) or (k == 'ImplicitCastExpr' and n.get('ck') in
                                          ('IntegralToBoolean', 'NoOp', 'LValueToRValue')
                                          and n['c'][0].get('vk') == 'pr'):
            if k == 'ExprWithCleanups':
                mark = len(st.temps)
                out = []
                for s, r in self.cond(st, fr, n['c'][0]):
                    out.extend(self.end_temps(s, fr, mark, r))
                return out
            return self.cond(st, fr, n['c'][0])
        out = []
        for s, v in self.rv(st, fr, n):
            if isinstance(v, Throw):
                out.append((s, v))
                continue
            out.extend(self.branch(s, v))
        return out

    def branch(self, s, v):
        r = self.decide(s, v)
        if r is not None:
            return [(s, r)]
        out = []
        a, b = s.fork(), s
        if self.assume(a, v, True):
            out.append((a, True))
        if self.assume(b, v, False):
            out.append((b, False))
        return out

    def end_temps(self, s, fr, mark, r):
        """Run destructors of temporaries created since mark."""
        todo = s.temps[mark:]
        s.temps = s.temps[:mark]
        res = [s]
        for d, loc, where in reversed(todo):
            nxt = []
            for x in res:
                nxt.extend(self.run_dtor(x, fr, d, loc, where))
            res = nxt
        return [(x, r) for x in res]

    def run_dtor(self, st, fr, d, loc, where):
        r = self.on_dtor(st, fr, d, loc, where)
        if r is not None:
            return r
        d = self.P.resolve(d)
        if d.get('implicit') or d.get('defaulted') or not self.inline(d, fr.depth + 1) \
                or self.is_opaque(d):
            return [st]
        out = []
        for s, v in self.call(st, fr, d, loc, [], where):
            if isinstance(v, Throw):
                s.emit(Event('escape', 'dtor-throw', where, d.q, d))
                if not d.get('nothrow'):
                    s.dom['dtor-throw'] = v
            out.append(s)
        return out

    @staticmethod
    def dtor_outcome(s, o):
        """The outcome of leaving a scope once its destructors have run."""
        if 'dtor-throw' not in s.dom:
            return o
        s.dom = dict(s.dom)
        v = s.dom.pop('dtor-throw')
        return ('throw', v.tag, v.val)

    def is_opaque(self, d):
        g = d.g
        for p in self.OPAQUE:
            if g == p or (p.endswith('::') and g.startswith(p)):
                return True
        return False

    def ev(self, st, fr, n):
        self.tick()
        k = n['k']
        m = getattr(self, 'e_' + k, None)
        if m is not None:
            if 'cv' in n and n.get('vk') == 'pr' and k not in ('CallExpr', 'CXXMemberCallExpr',
                                                               'CXXOperatorCallExpr'):
                return [(st, C(int(n['cv'])))]
            return m(st, fr, n)
        if 'cv' in n:
            return [(st, C(int(n['cv'])))]
        self.unknown.add(k)
        return [(st, self.sym(k))]

    # -- leaves
    def e_IntegerLiteral(self, st, fr, n):
        return [(st, C(int(n['v'])))]

    e_CharacterLiteral = e_IntegerLiteral
    e_CXXBoolLiteralExpr = e_IntegerLiteral

    def e_FloatingLiteral(self, st, fr, n):
        return [(st, app('float', C(n['v'])))]

    def e_StringLiteral(self, st, fr, n):
        return [(st, C(n.get('v', '')))]

    def e_PredefinedExpr(self, st, fr, n):
        return [(st, C('__func__'))]

    def e_CXXNullPtrLiteralExpr(self, st, fr, n):
        return [(st, NULL)]

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXScalarValueInitExpr(self, st, fr, n):
        return [(st, C(0))]

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_SizeOfPackExpr(self, st, fr, n):
        return [(st, C(int(n.get('cv', 0))))]

    def e_UnaryExprOrTypeTraitExpr(self, st, fr, n):
        return [(st, C(int(n['cv'])) if 'cv' in n else self.sym('sizeof'))]

    def e_SourceLocExpr(self, st, fr, n):
        return [(st, ('sym', 'srcloc'))]

    def e_CXXTypeidExpr(self, st, fr, n):
        return [(st, ('&', ('L', ('g', 'typeid:%s' % fr.tu.type(n.get('tt')).s), ())))]

    def e_CXXThisExpr(self, st, fr, n):
        if fr.closure is not None and fr.capmap.get('this') is not None:
            f, kind = fr.capmap['this']
            if kind == 'starthis':
                return [(st, ('&', self.sub(fr.closure, f)))]
            return [(st, self.load(st, self.sub(fr.closure, f)))]
        return [(st, ('&', fr.this) if fr.this is not None else ('sym', 'this'))]

    def varbase(self, fr, d):
        st = d.get('st')
        if d.k == 'Parm' or st == 'local':
            return ('v', fr.id, (d.id, d.n))
        return ('g', '%s::%s' % (d.q, d.n) if d.get('st') == 'static_local' else d.q)

    def e_DeclRefExpr(self, st, fr, n):
        d = fr.tu.decl(n['d'])
        if d.k == 'EnumConst':
            return [(st, C(int(d.get('v'))))]
        if d.k in ('Function', 'Method', 'Ctor', 'Conv'):
            return [(st, ('fn', d))]
        if n.get('cap') and d.id in fr.capmap:
            f, kind = fr.capmap[d.id]
            loc = self.sub(fr.closure, f)
            if kind == 'ref':
                return [(st, ('&', self.deref(self.load(st, loc))))]
            t = fr.tu.type(d.get('t'))
            return [(st, ('&', loc))]
        loc = ('L', self.varbase(fr, d), ())
        t = fr.tu.type(d.get('t')) if d.get('t') is not None else None
        if t is not None and t.k in ('lref', 'rref'):
            v = st.env.get(loc[1])
            if v is None:
                return [(st, ('&', ('L', ('D', ('sym', d.n)), ())))]
            return [(st, ('&', self.deref(v)))]
        return [(st, ('&', loc))]

    def e_MemberExpr(self, st, fr, n):
        d = fr.tu.decl(n['d'])
        base = n['c'][0]
        if d.k == 'Var':     # static member
            return [(st, ('&', ('L', ('g', d.q), ())))]
        if d.k != 'Field':
            return [(st, ('fn', d))]
        out = []
        f = self.rv if n.get('arrow') else self.lv
        for s, v in f(st, fr, base):
            if isinstance(v, Throw):
                out.append((s, v))
                continue
            loc = self.sub(self.deref(v), d.key)
            t = d.type()
            if t is not None and t.k in ('lref', 'rref'):
                out.append((s, ('&', self.deref(self.load(s, loc)))))
            else:
                out.append((s, ('&', loc)))
        return out

    # -- wrappers
    def e_ExprWithCleanups(self, st, fr, n):
        mark = len(st.temps)
        out = []
        for s, v in self.ev(st, fr, n['c'][0]):
            out.extend(self.end_temps(s, fr, mark, v))
        return out

    def e_CXXBindTemporaryExpr(self, st, fr, n):
        out = []
        for s, v in self.ev(st, fr, n['c'][0]):
            if not isinstance(v, Throw) and n.get('dtor') is not None:
                s.dom['lasttmp'] = (v, n['dtor'], nodeloc(fr.tu, n), id(n))
            out.append((s, v))
        return out

    def e_MaterializeTemporaryExpr(self, st, fr, n):
        out = []
        c = n['c'][0]
        for s, v in self.ev(st, fr, c):
            if isinstance(v, Throw):
                out.append((s, v))
                continue
            if c.get('vk') in ('l', 'x') and v[0] == '&':
                out.append((s, v))
                continue
            loc = self.tmp(s, v)
            x = c
            while x['k'] in ('ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr') \
                    and x.get('ck') in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion'):
                x = x['c'][0]
            if x['k'] == 'CXXBindTemporaryExpr' and x.get('dtor') is not None \
                    and n.get('ext') is None:
                s.temps = s.temps + ((fr.tu.decl(x['dtor']), loc, nodeloc(fr.tu, n)),)
            out.append((s, ('&', loc)))
        return out

    def e_CXXStdInitializerListExpr(self, st, fr, n):
        return [(s, v if isinstance(v, Throw) else app('initlist', v))
                for s, v in self.rv(st, fr, n['c'][0])]

    def e_InitListExpr(self, st, fr, n):
        t = fr.tu.type(n['t'])
        out = []
        if len(n['c']) == 1 and t.k == 'rec':   # {x} of x's own type is x
            c = fr.tu.type(n['c'][0].get('t'))
            if c is not None and c.k == 'rec' and c.rec.q == t.rec.q:
                return self.ev(st, fr, n['c'][0])
        for s, vs in self.seq(st, fr, n['c'], self.rv):
            if isinstance(vs, Throw):
                out.append((s, vs))
            elif t.k == 'rec' and not t.rec.get('union'):
                fs = [fr.tu.decl(f).key for f in t.rec.get('fields', [])]
                out.append((s, ('S', ('sym', 'agg:' + t.s), tuple(zip(fs, vs)))))
            elif t.k == 'array':
                out.append((s, ('S', ('sym', 'array'),
                                tuple((('idx', C(i)), v) for i, v in enumerate(vs)))))
            elif len(vs) == 1:
                out.append((s, vs[0]))
            else:
                out.append((s, app('init', *vs) if vs else C(0)))
        return out

    def e_ImplicitCastExpr(self, st, fr, n):
        ck = n.get('ck')
        c = n['c'][0]
        if ck == 'LValueToRValue':
            return self.rv(st, fr, c)
        if ck in ('UserDefinedConversion', 'ConstructorConversion'):
            return self.ev(st, fr, c)
        if ck == 'NullToPointer':
            return [(st, NULL)]
        if ck == 'ToVoid':
            return [(s, v if isinstance(v, Throw) else UNIT) for s, v in self.ev(st, fr, c)]
        if ck in ('ArrayToPointerDecay',):
            out = []
            for s, v in self.ev(st, fr, c):
                if not isinstance(v, Throw) and v[0] == '&':
                    v = ('&', self.sub(v[1], ('idx', C(0))))
                out.append((s, v))
            return out
        if ck == 'FunctionToPointerDecay':
            return self.ev(st, fr, c)
        out = []
        for s, v in self.ev(st, fr, c):
            if isinstance(v, Throw):
                out.append((s, v))
            elif ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean',
                        'MemberPointerToBoolean'):
                if v[0] == 'c' and not isinstance(v[1], str):
                    v = C(1 if v[1] else 0)
                elif v[0] == '&':
                    v = C(1)
                out.append((s, v))
            elif ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
                out.append((s, app(ck, v)))
            elif ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'NoOp',
                        'BitCast', 'LValueBitCast', 'Dynamic', 'IntegralCast',
                        'AddressSpaceConversion', 'ConstructorConversion'):
                if ck == 'IntegralCast':
                    self.cur = s
                    v = self.int_cast(fr, n, c, v)
                out.append((s, v))
            else:
                out.append((s, v))
        return out

    def int_cast(self, fr, n, c, v):
        return v

    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_CXXDynamicCastExpr(self, st, fr, n):
        t = fr.tu.type(n['t'])
        out = []
        for s, v in self.ev(st, fr, n['c'][0]):
            out.append((s, v if isinstance(v, Throw) else app('dynamic_cast:' + t.s, v)))
        return out

    # -- operators
    def e_UnaryOperator(self, st, fr, n):
        op = n['op']
        c = n['c'][0]
        out = []
        if op == '&':
            m = c
            while m['k'] == 'ParenExpr':
                m = m['c'][0]
            md = fr.tu.decl(m['d']) if m['k'] == 'DeclRefExpr' else None
            if md is not None and md.k == 'Field':
                return [(st, app('memptr', C(md.key)))]
            if md is not None and md.k == 'Method' and not md.get('static'):
                return [(st, ('fn', md))]
            for s, v in self.lv(st, fr, c):
                if not isinstance(v, Throw) and not v[1][2] and v[1][1][0] == 'D' and \
                        v[1][1][1][0] == 'fn':
                    v = v[1][1][1]
                out.append((s, v))
            return out
        if op == '*':
            for s, v in self.rv(st, fr, c):
                out.append((s, v if isinstance(v, Throw) else
                            (v if v[0] == 'fn' else ('&', self.deref(v)))))
            return out
        if op in ('++', '--'):
            for s, v in self.lv(st, fr, c):
                if isinstance(v, Throw):
                    out.append((s, v))
                    continue
                old = self.load(s, v[1])
                new = self.arith('+' if op == '++' else '-', old, C(1))
                self.write(s, fr, n, v[1], new)
                out.append((s, old if n.get('post') else v))
            return out
        if op == '!':
            for s, r in self.rv(st, fr, c):
                out.append((s, r if isinstance(r, Throw) else negate(r)))
            return out
        for s, v in self.rv(st, fr, c):
            if isinstance(v, Throw):
                out.append((s, v))
            elif op == '-' and v[0] == 'c' and isinstance(v[1], int):
                out.append((s, C(-v[1])))
            elif op == '+':
                out.append((s, v))
            else:
                out.append((s, self.unary(fr, n, op, v)))
        return out

    def unary(self, fr, n, op, v):
        return app('u' + op, v)

    def write(self, st, fr, n, loc, val):
        self.store(st, loc, val, n)

    def arith(self, op, a, b):
        if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], int) and isinstance(b[1], int):
            x, y = a[1], b[1]
            try:
                if op == '+':
                    return C(x + y)
                if op == '-':
                    return C(x - y)
                if op == '*':
                    return C(x * y)
                if op == '/':
                    return C(quot(x, y))
                if op == '%':
                    return C(x - y * quot(x, y))
                if op == '<<' and y < 128:
                    return C(x << y)
                if op == '>>':
                    return C(x >> y)
                if op == '&':
                    return C(x & y)
                if op == '|':
                    return C(x | y)
                if op == '^':
                    return C(x ^ y)
            except ZeroDivisionError:
                pass
        if op in ('+', '-', '<<', '>>', '|', '^') and b == C(0):
            return a
        if a == C(0) and op in ('<<', '>>'):
            return a
        if op in ('+', '|', '^') and a == C(0):
            return b
        if op in ('+', '*') and a[0] == 'c' and b[0] != 'c':
            a, b = b, a
        # (x + c1) +- c2
        if op in ('+', '-') and b[0] == 'c' and isinstance(b[1], int) and a[0] == 'app' \
                and a[1] in ('+', '-') and a[3][0] == 'c' and isinstance(a[3][1], int):
            k = (a[3][1] if a[1] == '+' else -a[3][1]) + (b[1] if op == '+' else -b[1])
            if k == 0:
                return a[2]
            return app('+', a[2], C(k)) if k > 0 else app('-', a[2], C(-k))
        # (x + y) - x
        if op == '-' and a[0] == 'app' and a[1] == '+':
            if a[2] == b:
                return a[3]
            if a[3] == b:
                return a[2]
        if op == '-' and a == b:
            return C(0)
        return app(op, a, b)

    def binop(self, op, a, b):
        if op in CMP:
            t, pos = norm_cmp(op, a, b)
            r = self.decide0(t)
            if r is not None:
                return C(1 if r == pos else 0)
            return t if pos else negate(t)
        return self.arith(op, a, b)

    def decide0(self, t):
        e = State()
        return self.decide(e, t)

    BOOLOPS = {'==': lambda x, y: x == y, '!=': lambda x, y: x != y, '^': lambda x, y: x != y,
               '&': lambda x, y: x and y, '|': lambda x, y: x or y}

    @staticmethod
    def bare(n):
        """Strips conversions of a boolean to an integer."""
        while n['k'] == 'ImplicitCastExpr' and n.get('ck') in ('IntegralCast', 'NoOp'):
            n = n['c'][0]
        return n

    def e_BinaryOperator(self, st, fr, n):
        op = n['op']
        a, b = n['c']
        if op in ('&&', '||'):
            out = []
            for s, r in self.cond(st, fr, n):
                out.append((s, r if isinstance(r, Throw) else C(1 if r else 0)))
            return out
        if op == ',':
            out = []
            for s, v in self.ev(st, fr, a):
                if isinstance(v, Throw):
                    out.append((s, v))
                else:
                    out.extend(self.ev(s, fr, b))
            return out
        if op == '=':
            out = []
            for s, v in self.rv(st, fr, b):
                if isinstance(v, Throw):
                    out.append((s, v))
                    continue
                for s2, l in self.lv(s, fr, a):
                    if isinstance(l, Throw):
                        out.append((s2, l))
                        continue
                    self.write(s2, fr, n, l[1], v)
                    out.append((s2, l))
            return out
        out = []
        if op in self.BOOLOPS and self.isbool(fr, a) and self.isbool(fr, b) and \
                'CXXBoolLiteralExpr' not in (self.bare(a)['k'], self.bare(b)['k']):
            f = self.BOOLOPS[op]
            for s, x in self.cond(st, fr, self.bare(a)):
                if isinstance(x, Throw):
                    out.append((s, x))
                    continue
                for s2, y in self.cond(s, fr, self.bare(b)):
                    out.append((s2, y if isinstance(y, Throw) else C(1 if f(x, y) else 0)))
            return out
        if op in ('.*', '->*'):
            for s, l, p in self.member_pointer(st, fr, n):
                if isinstance(l, Throw):
                    out.append((s, l))
                elif p[0] == 'app' and p[1] == 'memptr':
                    out.append((s, ('&', self.sub(l, p[2][1]))))
                else:
                    out.append((s, ('&', self.sub(l, ('.*', p)))))
            return out
        for s, vs in self.seq(st, fr, [a, b], self.rv):
            if isinstance(vs, Throw):
                out.append((s, vs))
                continue
            x, y = vs
            t = fr.tu.type(a.get('t'))
            if t is not None and t.k == 'ptr' and op in ('+', '-') and x[0] == '&' \
                    and x[1][2] and isinstance(x[1][2][-1], tuple) and x[1][2][-1][0] == 'idx':
                e = x[1][2][-1]
                out.append((s, ('&', ('L', x[1][1], x[1][2][:-1] +
                                      (('idx', self.arith(op, e[1], y)),)))))
                continue
            self.on_binop(s, fr, n, op, x, y)
            if op in ('==', '!=') and self.isbool(fr, a) and self.isbool(fr, b):
                c, v = (y, x) if y[0] == 'c' else (x, y)
                if c[0] == 'c' and v[0] != 'c':     # b == true is b
                    out.append((s, v if bool(c[1]) == (op == '==') else negate(v)))
                    continue
            out.append((s, self.binop(op, x, y)))
        return out

    def isbool(self, fr, n):
        while n['k'] in ('ImplicitCastExpr', 'ParenExpr'):
            if fr.tu.type(n.get('t')).s == 'bool':
                return True
            n = n['c'][0]
        t = fr.tu.type(n.get('t'))
        return t is not None and t.s in ('bool', 'const bool')

    def member_pointer(self, st, fr, n):
        """[(state, object location / Throw, member pointer value)] of .* or ->*"""
        a, b = n['c']
        out = []
        for s, o in (self.rv if n['op'] == '->*' else self.lv)(st, fr, a):
            if isinstance(o, Throw):
                out.append((s, o, None))
                continue
            for s2, p in self.rv(s, fr, b):
                if isinstance(p, Throw):
                    out.append((s2, p, None))
                else:
                    while p[0] == 'S' and not p[2]:
                        p = p[1]
                    out.append((s2, self.deref(o), p))
        return out

    def on_binop(self, st, fr, n, op, x, y):
        pass

    def e_CompoundAssignOperator(self, st, fr, n):
        op = n['op'][:-1]
        a, b = n['c']
        out = []
        for s, v in self.rv(st, fr, b):
            if isinstance(v, Throw):
                out.append((s, v))
                continue
            for s2, l in self.lv(s, fr, a):
                if isinstance(l, Throw):
                    out.append((s2, l))
                    continue
                old = self.load(s2, l[1])
                self.on_binop(s2, fr, n, op, old, v)
                self.write(s2, fr, n, l[1], self.arith(op, old, v))
                out.append((s2, l))
        return out

    def e_ConditionalOperator(self, st, fr, n):
        c, a, b = n['c']
        out = []
        for s, r in self.cond(st, fr, c):
            if isinstance(r, Throw):
                out.append((s, r))
                continue
            x = a if r else b
            if n.get('vk') == 'pr':
                out.extend(self.rv(s, fr, x))
            else:
                out.extend(self.lv(s, fr, x))
        return out

    def e_ArraySubscriptExpr(self, st, fr, n):
        a, b = n['c']
        out = []
        for s, vs in self.seq(st, fr, [a, b], self.rv):
            if isinstance(vs, Throw):
                out.append((s, vs))
                continue
            x, y = vs
            if x[0] == '&' and x[1][2] and isinstance(x[1][2][-1], tuple) \
                    and x[1][2][-1][0] == 'idx':
                e = x[1][2][-1]
                out.append((s, ('&', ('L', x[1][1], x[1][2][:-1] +
                                      (('idx', self.arith('+', e[1], y)),)))))
            else:
                out.append((s, ('&', self.sub(self.deref(x), ('idx', y)))))
        return out

    def e_ArrayInitLoopExpr(self, st, fr, n):
        return self.rv(st, fr, n['c'][0]) if n.get('c') else [(st, self.sym('arr'))]

    def e_ArrayInitIndexExpr(self, st, fr, n):
        return [(st, self.sym('i'))]

    # -- objects
    def e_LambdaExpr(self, st, fr, n):
        res = [(st, [])]
        for c in n['caps']:
            nxt = []
            for s, ov in res:
                if isinstance(ov, Throw):
                    nxt.append((s, ov))
                    continue
                fkey = fr.tu.decl(c['field']).key if c.get('field') is not None else ('cap', c.get('d'))
                kind = c.get('kind')
                i = c.get('init')
                if kind in ('this', 'ref') and i is not None:
                    r = self.lv(s, fr, i) if kind == 'ref' else self.rv(s, fr, i)
                elif i is not None:
                    r = self.rv(s, fr, i)
                else:
                    r = [(s, self.sym('cap'))]
                for s2, v in r:
                    nxt.append((s2, v if isinstance(v, Throw) else ov + [(fkey, v)]))
            res = nxt
        rec = fr.tu.decl(n['rec'])
        return [(s, v if isinstance(v, Throw) else
                 ('S', ('lambda', fr.tu.name, n['rec'], n['opfn']), tuple(v))) for s, v in res]

    def e_CXXNewExpr(self, st, fr, n):
        t = fr.tu.type(n['at'])
        out = []
        for s, pv in self.seq(st, fr, n.get('pargs', []), self.rv):
            if isinstance(pv, Throw):
                out.append((s, pv))
                continue
            r = self.rv(s, fr, n['init']) if n.get('init') else [(s, ('sym', 'new:' + t.s))]
            for s2, v in r:
                if isinstance(v, Throw):
                    out.append((s2, v))
                    continue
                if n.get('placement') and pv:
                    loc = self.deref(pv[0])
                    self.store(s2, loc, v)
                    s2.emit(Event('placement', 'new', nodeloc(fr.tu, n), recvloc=loc, args=(v,),
                                  extra=t.s))
                    out.append((s2, ('&', loc)))
                else:
                    loc = self.tmp(s2, v, 'new')
                    s2.emit(Event('new', 'new', nodeloc(fr.tu, n), recvloc=loc, args=(v,),
                                  extra=t.s))
                    out.append((s2, ('&', loc)))
        return out

    def e_CXXDeleteExpr(self, st, fr, n):
        out = []
        for s, v in self.rv(st, fr, n['c'][0]):
            if not isinstance(v, Throw):
                s.emit(Event('delete', 'delete', nodeloc(fr.tu, n), args=(v,)))
                v = UNIT
            out.append((s, v))
        return out

    def e_CXXThrowExpr(self, st, fr, n):
        if not n.get('c') or n['c'][0] is None:
            cur = fr.exc[-1] if fr.exc else Throw('unknown', ('sym', 'exc'))
            st.emit(Event('throw', 'rethrow', nodeloc(fr.tu, n), args=(cur.val,), extra=cur.tag))
            return [(st, Throw(cur.tag, cur.val))]
        t = fr.tu.type(n['c'][0]['t'])
        out = []
        for s, v in self.rv(st, fr, n['c'][0]):
            if isinstance(v, Throw):
                out.append((s, v))
                continue
            tag = t.rec.q if t.k == 'rec' else t.s
            s.emit(Event('throw', 'throw', nodeloc(fr.tu, n), args=(v,), extra=tag))
            out.append((s, Throw(tag, v)))
        return out

    def e_CXXConstructExpr(self, st, fr, n):
        d = fr.tu.decl(n['d'])
        t = fr.tu.type(n['t'])
        if n.get('elide') and n['c']:
            return self.rv(st, fr, n['c'][0])
        args = n.get('c', [])
        trivial_copy = (d.get('copyctor') or d.get('movector')) and args
        if trivial_copy:
            return self.copy_object(st, fr, n, d, t, args[0])
        dd = self.P.resolve(d)
        out = []
        for s, avs in self.args(st, fr, d, args):
            if isinstance(avs, Throw):
                out.append((s, avs))
                continue
            name = t.rec.g if t.k == 'rec' else t.s
            m = self.model(s, fr, 'ctor:' + name, d, n, None, avs)
            if m is None:
                m = self.std_ctor(s, fr, name, d, n, avs)
            if m is not None:
                out.extend(m)
                continue
            if dd.get('inits') is not None and self.inline(dd, fr.depth + 1) \
                    and not self.is_opaque(dd):
                out.extend(self.construct(s, fr, dd, t, avs, nodeloc(fr.tu, n)))
                continue
            if d.get('defaulted') or d.get('implicit') or d.get('trivial'):
                # implicit default constructor of a repository record
                out.append((s, ('S', ('sym', 'default:' + t.s), ())))
                continue
            vals = [self.snapval(s, self.valof(s, a)) for a in avs]
            self.movedfrom(s, fr, d, avs, args)
            out.extend(self.opaque(s, fr, 'ctor:' + name, d, n, None, avs,
                                   app('ctor:' + name, *vals)))
        return out

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXInheritedCtorInitExpr(self, st, fr, n):
        return [(st, self.sym('inherited'))]

    def copy_object(self, st, fr, n, d, t, a):
        dd = self.P.resolve(d)
        out = []
        for s, l in self.lv(st, fr, a):
            if isinstance(l, Throw):
                out.append((s, l))
                continue
            name = t.rec.g if t.k == 'rec' else t.s
            nm = ('move:' if d.get('movector') else 'copy:') + name
            m = self.model(s, fr, nm, d, n, None, [('l', l)])
            if m is not None:
                out.extend(m)
                continue
            if not (d.get('defaulted') or d.get('implicit')) and dd.get('inits') is not None \
                    and self.inline(dd, fr.depth + 1) and not self.is_opaque(dd):
                out.extend(self.construct(s, fr, dd, t, [('l', l)], nodeloc(fr.tu, n)))
                continue
            v = self.load(s, l[1])
            if d.get('movector') and not self.trivially_copyable(t):
                self.store(s, l[1], app('movedfrom', v))
            out.append((s, v))
        return out

    def trivially_copyable(self, t):
        return t.k != 'rec' or bool(t.rec.get('trivcopy'))

    def construct(self, st, fr, dd, t, avs, where):
        """Inline a constructor: returns the record value."""
        loc = self.tmp(st, ('S', ('sym', 'obj:' + t.s), ()), ':' + t.s)
        out = []
        for s, v in self.call(st, fr, dd, loc, avs, where):
            out.append((s, v if isinstance(v, Throw) else self.load(s, loc)))
            if not isinstance(v, Throw):
                s.env[loc[1]] = self.load(s, loc)
        return out

    def std_ctor(self, st, fr, name, d, n, avs):
        if name in ('std::basic_string', 'std::string') and len(avs) == 2 \
                and self.valof(st, avs[0])[0] == 'c':
            return [(st, app('ctor:std::basic_string', self.valof(st, avs[0])))]
        if name == 'std::allocator':
            return [(st, ('sym', 'alloc'))]
        if name == 'std::pair' and len(avs) == 2:
            vs = [self.valof(st, a) for a in avs]
            self.movedfrom(st, fr, d, avs, n['c'])
            return [(st, ('S', ('sym', 'pair'), (('std::pair::first', vs[0]),
                                                 ('std::pair::second', vs[1]))))]
        return None

    # -- calls
    def args(self, st, fr, d, nodes):
        """Evaluate call arguments according to the parameter types."""
        ps = [p.type() for p in d.params] if d is not None else []

        def one(i):
            def f(s, fr, n):
                pt = ps[i] if i < len(ps) else None
                if pt is not None and pt.k in ('lref', 'rref') or \
                        (pt is None and n.get('vk') in ('l', 'x')):
                    return [(s2, v if isinstance(v, Throw) else ('l', v))
                            for s2, v in self.lv(s, fr, n)]
                return [(s2, v if isinstance(v, Throw) else ('v', v))
                        for s2, v in self.rv(s, fr, n)]
            return f
        res = [(st, [])]
        for i, n in enumerate(nodes):
            nxt = []
            for s, vals in res:
                if isinstance(vals, Throw):
                    nxt.append((s, vals))
                    continue
                for s2, v in one(i)(s, fr, n):
                    nxt.append((s2, v if isinstance(v, Throw) else vals + [v]))
            res = nxt
        return res

    def valof(self, st, a):
        if a[0] == 'l':
            return self.load(st, a[1][1])
        return a[1]

    def snapval(self, st, v):
        """What an uninterpreted callee sees of an argument."""
        return v

    def movedfrom(self, st, fr, d, avs, nodes):
        """Opaque callee: rvalue-reference arguments are consumed, non-const
        lvalue references may be modified."""
        ps = [p.type() for p in d.params] if d is not None else []
        for i, a in enumerate(avs):
            if a[0] != 'l' or i >= len(ps):
                continue
            pt = ps[i]
            if pt.k == 'rref' and not pt.to.const and not self.trivially_copyable(pt.to):
                self.store(st, a[1][1], app('movedfrom', self.load(st, a[1][1])))

    def callee(self, fr, n):
        return fr.tu.decl(n['d']) if n.get('d') is not None else None

    def e_CXXMemberCallExpr(self, st, fr, n):
        d = self.callee(fr, n)
        ce, argn = n['c'][0], n['c'][1:]
        while ce['k'] in ('ImplicitCastExpr',):
            ce = ce['c'][0]
        out = []
        if ce['k'] == 'MemberExpr':
            f = self.rv if ce.get('arrow') else self.lv
            for s, o in f(st, fr, ce['c'][0]):
                if isinstance(o, Throw):
                    out.append((s, o))
                    continue
                out.extend(self.dispatch(s, fr, n, d, self.deref(o), argn, bool(n.get('virt'))))
            return out
        while ce['k'] == 'ParenExpr':
            ce = ce['c'][0]
        if ce['k'] == 'BinaryOperator' and ce.get('op') in ('.*', '->*'):
            for s, l, p in self.member_pointer(st, fr, ce):
                if isinstance(l, Throw):
                    out.append((s, l))
                else:
                    out.extend(self.dispatch(s, fr, n, p[1] if p[0] == 'fn' else None, l, argn,
                                             p[0] == 'fn' and bool(p[1].get('virt'))))
            return out
        for s, o in self.ev(st, fr, ce):      # pointer to member
            if isinstance(o, Throw):
                out.append((s, o))
            else:
                out.extend(self.dispatch(s, fr, n, None, None, argn, False))
        return out

    def e_CXXOperatorCallExpr(self, st, fr, n):
        d = self.callee(fr, n)
        argn = n['c'][1:]
        if d is not None and d.k in ('Method', 'Conv'):
            out = []
            for s, o in self.lv(st, fr, argn[0]):
                if isinstance(o, Throw):
                    out.append((s, o))
                    continue
                out.extend(self.dispatch(s, fr, n, d, o[1], argn[1:], False))
            return out
        return self.dispatch(st, fr, n, d, None, argn, False)

    def e_CallExpr(self, st, fr, n):
        d = self.callee(fr, n)
        if d is not None:
            return self.dispatch(st, fr, n, d, None, n['c'][1:], False)
        out = []
        for s, f in self.rv(st, fr, n['c'][0]):
            if isinstance(f, Throw):
                out.append((s, f))
                continue
            if f[0] == 'app' and f[1] == 'deref' and f[2][0] == 'fn':   # a reference to a function
                f = f[2]
            elif f[0] == '&' and not f[1][2] and f[1][1][0] == 'D' and f[1][1][1][0] == 'fn':
                f = f[1][1][1]
            if f[0] == 'fn':
                out.extend(self.dispatch(s, fr, n, f[1], None, n['c'][1:], False))
            elif (es := self.entries(f)) is not None:
                for i, e in es:
                    s2 = s.fork()
                    if self.assume(s2, self.binop('==', f[3][1], C(i)), True):
                        out.extend(self.dispatch(s2, fr, n, e[1], None, n['c'][1:], False))
            elif f[0] == '&':
                out.extend(self.dispatch(s, fr, n, None, f[1], n['c'][1:], False))
            else:
                out.extend(self.dispatch(s, fr, n, None, self.deref(f), n['c'][1:], False))
        return out

    def entries(self, f):
        """The functions of a table that f is an element of."""
        if f[0] == 'app' and f[1] == '.' and isinstance(f[3], tuple) and f[3][0] == 'idx' and \
                f[2][0] == 'S' and f[2][1] == ('sym', 'array') and all(
                    isinstance(k, tuple) and k[0] == 'idx' and k[1][0] == 'c' and v[0] == 'fn'
                    for k, v in f[2][2]):
            return [(k[1][1], v) for k, v in f[2][2]]
        return None

    def dispatch(self, st, fr, n, d, recv, argn, virt):
        out = []
        for s, avs in self.args(st, fr, d, argn):
            if isinstance(avs, Throw):
                out.append((s, avs))
                continue
            out.extend(self.invoke(s, fr, n, d, recv, avs, virt))
        return out

    def invoke(self, st, fr, n, d, recv, avs, virt):
        where = nodeloc(fr.tu, n)
        g = d.g if d is not None else '<indirect>'
        m = self.model(st, fr, g, d, n, recv, avs)
        if m is not None:
            return m
        m = self.std_model(st, fr, g, d, n, recv, avs)
        if m is not None:
            return m
        if virt and recv is not None:
            dv = self.devirt(st, d, recv)
            if dv is not None:
                d, virt = dv, False
        # calling a lambda value
        if d is not None and recv is not None and d.n == 'operator()':
            dd = self.P.resolve(d)
            if dd.body is not None and self.inline(dd, fr.depth + 1) and not self.is_opaque(dd):
                return self.call(st, fr, dd, recv, avs, where)
        if d is not None and not virt:
            dd = self.P.resolve(d)
            if (d.get('copyassign') or d.get('moveassign')) and recv is not None and avs and \
                    (d.get('defaulted') or d.get('implicit') or d.get('trivial') or
                     dd.body is None or self.is_opaque(dd)):
                v = self.valof(st, avs[0])
                if d.get('moveassign') and avs[0][0] == 'l':
                    self.store(st, avs[0][1][1], app('movedfrom', v))
                st.emit(Event('assign', g, where, d.q, d, recvloc=recv, args=(v,),
                              extra='move' if d.get('moveassign') else 'copy'))
                self.write(st, fr, n, recv, v)
                return [(st, ('&', recv))]
            if dd.body is not None and self.inline(dd, fr.depth + 1) and not self.is_opaque(dd) \
                    and fr.depth < self.MAXDEPTH and self.recstack.count(self.fkey(dd)) < self.MAXREC:
                return self.call(st, fr, dd, recv, avs, where)
        return self.opaque(st, fr, g, d, n, recv, avs)

    def devirt(self, st, d, recv):
        """The final overrider when the object was constructed here."""
        v = self.load(st, recv)
        while v[0] == 'S' and v[1][0] == 'S':
            v = v[1]
        if v[0] != 'S' or v[1][0] != 'sym' or not v[1][1].startswith(('obj:', 'default:')):
            return None
        name = v[1][1].split(':', 1)[1]
        if d.rec is not None and name in (self.rec_type_name(d.rec), member_class(d)):
            return self.P.resolve(d)
        os = self.pick(v, [o for o in self.P.all_overriders(d) if o.rec is not None and
                           name in (self.rec_type_name(o.rec), member_class(o))])
        return os[0] if os else None

    def pick(self, v, cands):
        """Of methods of classes of the same name (they are told apart by a
        lambda given as template argument) those of the class of v."""
        if len(cands) < 2:
            return cands
        held = set()

        def lambdas(x):
            if isinstance(x, tuple):
                if len(x) >= 3 and x[0] == 'lambda':
                    held.add((x[1], x[2]))
                    return
                for y in x:
                    lambdas(y)
        lambdas(v)

        def closure(t, depth=0):
            t = t.strip()
            if t.k != 'rec' or t.rec is None or depth > 6:
                return set()
            r = {(t.tu.name, t.rec.id)}
            for y in targs(t.rec):
                r |= closure(y, depth + 1)
            return r
        sc = [len(held & set().union(*[closure(y) for y in targs(o.rec)] or [set()]))
              for o in cands]
        return [o for o, k in zip(cands, sc) if k == max(sc)]

    def rec_type_name(self, r):
        return r.q

    def fkey(self, d):
        return d.get('m') or d.key

    def opaque(self, st, fr, g, d, n, recv, avs, ret=None):
        where = nodeloc(fr.tu, n)
        self.opaque_seen.add(g)
        recvval = self.load(st, recv) if recv is not None else None
        vals = tuple(self.snapval(st, self.valof(st, a)) for a in avs)
        constm = d is not None and (d.get('constm') or d.get('static') or
                                    d.k in ('Function', 'Ctor'))
        ev = Event('call', g, where, d.q if d is not None else g, d, recvval, recv, vals,
                   tuple(a[1][1] if a[0] == 'l' else None for a in avs))
        t = fr.tu.type(n.get('t'))
        if ret is None:
            if t is not None and t.d.get('void'):
                ret = UNIT
            elif self.fresh_call(g, d):
                self.n += 1
                ret = app('ret:' + g, ('c', 'id%d' % self.n))
            else:
                key = (recvval,) if recvval is not None else ()
                ret = app(g, *(key + vals))
        ev.ret = ret
        if t is not None and t.k == 'enum':
            ed = fr.tu.decl(t.d['d'])
            self.enumdom = dict(self.enumdom)
            self.enumdom[ret] = [c['v'] for c in ed.get('consts', [])]
        st.emit(ev)
        out = []
        for tag in self.throws(st, fr, g, d, n):
            s2 = st.fork()
            self.n += 1
            out.append((s2, Throw(tag, ('sym', 'exc:%s#%d' % (tag, self.n)))))
        if recv is not None and not constm:
            self.write(st, fr, n, recv, app('mut:' + g, recvval, *vals))
        self.clobber(st, fr, g, d, avs)
        isref = n.get('vk') in ('l', 'x')
        if isref and not (ret[0] == '&'):
            # a reference into the receiver (operator[], front, ...) or unknown
            loc = self.ref_result(st, g, recv, recvval, vals, avs, ret)
            out.append((st, ('&', loc)))
        else:
            out.append((st, ret))
        return out

    def ref_result(self, st, g, recv, recvval, vals, avs, ret):
        nm = g.split('::')[-1]
        if recv is not None and nm in ('operator[]', 'at', 'front', 'back', 'operator*', 'top'):
            return self.sub(recv, (nm,) + vals) if nm not in ('operator*',) else \
                self.sub(recv, ('*',))
        if recv is not None and nm.startswith('operator') and nm in (
                'operator=', 'operator+=', 'operator<<', 'operator++', 'operator--'):
            return recv
        if nm in ('operator<<', 'operator>>') and avs and avs[0][0] == 'l':
            return avs[0][1][1]
        if nm == 'get' and avs and avs[0][0] == 'l':
            return self.sub(avs[0][1][1], (g,))
        return ('L', ('D', ret), ())

    def clobber(self, st, fr, g, d, avs):
        ps = [p.type() for p in d.params] if d is not None else []
        for i, a in enumerate(avs):
            if a[0] != 'l' or i >= len(ps):
                continue
            pt = ps[i]
            if pt.to is None or pt.to.const:
                continue
            old = self.load(st, a[1][1])
            if pt.k == 'lref':
                rest = tuple(self.valof(st, b) for j, b in enumerate(avs) if j != i) \
                    if g.endswith(('operator<<', 'operator>>')) else ()
                self.store(st, a[1][1], app('mod:' + g, old, *rest))
            elif pt.k == 'rref' and not self.trivially_copyable(pt.to):
                self.store(st, a[1][1], app('movedfrom', old))

    IDENT = {'std::move', 'std::forward', 'std::addressof', 'std::__addressof', 'std::ref',
             'std::cref', 'std::as_const'}

    def std_model(self, st, fr, g, d, n, recv, avs):
        if g in self.IDENT and avs:
            a = avs[0]
            return [(st, a[1] if a[0] == 'l' else a[1])]
        m = self.iter_model(st, fr, g, d, n, recv, avs)
        if m is not None:
            return m
        if recv is not None and g.startswith('std::vector::') and not avs and \
                g.split('::')[-1] in ('size', 'empty'):
            it = self.items(self.load(st, recv))
            if it is not None:
                return [(st, C(len(it) if g.endswith('size') else int(not it)))]
        if g == 'std::make_pair' and len(avs) == 2:
            vs = [self.valof(st, a) for a in avs]
            for i, a in enumerate(avs):
                p = d.params[i].type()
                if a[0] == 'l' and p.k == 'rref' and not self.trivially_copyable(p.to):
                    self.store(st, a[1][1], app('movedfrom', vs[i]))
            return [(st, ('S', ('sym', 'pair'), (('std::pair::first', vs[0]),
                                                 ('std::pair::second', vs[1]))))]
        if recv is not None and g.startswith('std::') and g.endswith('::clear') and not avs:
            st.emit(Event('call', g, nodeloc(fr.tu, n), d.q, d, self.load(st, recv), recv,
                          ret=UNIT))
            self.write(st, fr, n, recv, app('empty'))
            return [(st, UNIT)]
        if g == 'std::swap' and len(avs) == 2 and avs[0][0] == 'l' and avs[1][0] == 'l':
            x, y = self.valof(st, avs[0]), self.valof(st, avs[1])
            self.store(st, avs[0][1][1], y)
            self.store(st, avs[1][1][1], x)
            return [(st, UNIT)]
        return None

    def call(self, st, fr, d, this, avs, where):
        """Inline function d."""
        d = self.P.resolve(d)
        if d.k == 'Method' and d.rec is not None and d.rec.get('lambda') and this is not None:
            # closure types of different instantiations print alike: take the
            # function of the closure that is actually stored here
            v = self.load(st, this)
            while v[0] == 'S':
                v = v[1]
            if v[0] == 'lambda' and d.n == 'operator()':
                tu = self.P.tus[v[1]]
                d = tu.decl(v[3])
        self.inlined.add(d)
        nf = Frame(d, this, fr.depth + 1 if fr is not None else 0)
        nf.exc = list(fr.exc) if fr is not None else []
        if d.k in ('Method', 'Conv') and d.rec is not None and d.rec.get('lambda'):
            caps = self.P.lambdas.get((d.tu.name, d.rec.id))
            nf.closure = this
            if caps is not None:
                for c in caps[0]:
                    f = d.tu.decl(c['field']).key if c.get('field') is not None else ('cap', c.get('d'))
                    if c.get('kind') in ('this', 'starthis'):
                        nf.capmap['this'] = (f, c['kind'])
                    else:
                        nf.capmap[c['d']] = (f, c['kind'])
        for i, p in enumerate(d.params):
            t = p.type()
            if i < len(avs):
                a = avs[i]
                if t.k in ('lref', 'rref'):
                    v = a[1] if a[0] == 'l' else ('&', self.tmp(st, a[1]))
                else:
                    v = self.valof(st, a)
            else:
                v = ('sym', 'arg:' + p.n)
            st.env[('v', nf.id, (p.id, p.n))] = v
        self.recstack.append(self.fkey(d))
        try:
            res = [(st, None)]
            if d.k == 'Ctor':
                res = self.ctor_inits(st, nf, d, this)
            out = []
            for s, r in res:
                if isinstance(r, Throw):
                    out.append((s, r))
                    continue
                for s2, o in self.ex(s, nf, d.body):
                    for s3, o2 in [(s2, o)]:
                        if o2[0] == 'throw':
                            out.append((s3, Throw(o2[1], o2[2])))
                        elif o2[0] == 'return':
                            out.append((s3, o2[1]))
                        else:
                            out.append((s3, UNIT))
        finally:
            self.recstack.pop()
        for s, _ in out:      # drop the callee's locals
            for k in [k for k in s.env if k[0] == 'v' and k[1] == nf.id]:
                if not self.escapes(s, k):
                    del s.env[k]
        if len(out) > self.MAXPATHS:
            raise Budget('too many paths in %s' % d.q)
        return out

    def escapes(self, s, k):
        return True

    def ctor_inits(self, st, fr, d, this):
        res = [(st, None)]
        for i in d.get('inits', []):
            nxt = []
            for s, r in res:
                if isinstance(r, Throw):
                    nxt.append((s, r))
                    continue
                e = i['e']
                if i.get('deleg') or 'base' in i:
                    for s2, v in self.rv(s, fr, e):
                        if isinstance(v, Throw):
                            nxt.append((s2, v))
                            continue
                        if v[0] == 'S':
                            for k, x in v[2]:
                                self.store(s2, self.sub(this, k), x)
                        nxt.append((s2, None))
                    continue
                fd = d.tu.decl(i['field'])
                ft = fd.type()
                f = self.lv if ft.k in ('lref', 'rref') else self.rv
                for s2, v in f(s, fr, e):
                    if isinstance(v, Throw):
                        nxt.append((s2, v))
                        continue
                    self.write(s2, fr, e, self.sub(this, fd.key), v)
                    nxt.append((s2, None))
            res = nxt
        return res

    # ---- statements ------------------------------------------------------
    N_ = ('normal',)

    def ex(self, st, fr, n):
        """Execute a statement: list of (state, outcome)."""
        self.tick()
        if n is None:
            return [(st, self.N_)]
        m = getattr(self, 's_' + n['k'], None)
        if m is not None:
            return m(st, fr, n)
        mark = len(st.temps)
        out = []
        for s, v in self.ev(st, fr, n):
            for s2, v2 in self.end_temps(s, fr, mark, v):
                out.append((s2, ('throw', v2.tag, v2.val) if isinstance(v2, Throw) else self.N_))
        return out

    def s_NullStmt(self, st, fr, n):
        return [(st, self.N_)]

    def s_CompoundStmt(self, st, fr, n):
        return self.block(st, fr, n['c'])

    def block(self, st, fr, stmts):
        """Sequence with scope exit destructors."""
        live = [(st, self.N_, ())]   # state, outcome, dtors
        for x in stmts:
            nxt = []
            for s, o, ds in live:
                if o[0] != 'normal':
                    nxt.append((s, o, ds))
                    continue
                if x is not None and x['k'] == 'DeclStmt':
                    for s2, o2, ds2 in self.decl(s, fr, x):
                        nxt.append((s2, o2, ds + ds2))
                else:
                    for s2, o2 in self.ex(s, fr, x):
                        nxt.append((s2, o2, ds))
            live = nxt
            if len(live) > self.MAXPATHS:
                raise Budget('too many paths in %s' % fr.fn.q)
        out = []
        for s, o, ds in live:
            res = [s]
            for d, loc, where in reversed(ds):
                r2 = []
                for y in res:
                    r2.extend(self.run_dtor(y, fr, d, loc, where))
                res = r2
            out.extend((y, self.dtor_outcome(y, o)) for y in res)
        return out

    def decl(self, st, fr, x):
        res = [(st, self.N_, ())]
        for d in x['decls']:
            nxt = []
            for s, o, ds in res:
                if o[0] != 'normal':
                    nxt.append((s, o, ds))
                    continue
                nxt.extend((s2, o2, ds + d2) for s2, o2, d2 in self.decl1(s, fr, d))
            res = nxt
        return res

    def decl1(self, st, fr, d):
        v = fr.tu.decl(d['d'])
        loc = ('L', self.varbase(fr, v), ())
        t = v.type()
        where = '%s' % v.loc
        if v.get('st') in ('static_local', 'thread', 'global', 'static_member'):
            i = v.get('init') or d.get('init')
            self.on_static(st, fr, v)
            if i and (self.STATICINIT and v.get('st') == 'static_local' or
                      t.k == 'array' and self.fntable(fr, i)):
                # a table of functions
                out = []
                for s, val in self.rv(st, fr, i):
                    s.env[loc[1]] = val
                    out.append((s, self.N_, ()))
                return out
            return [(st, self.N_, ())]
        dt = ()
        if d.get('dtor') is not None and t.k == 'rec':
            dt = ((fr.tu.decl(d['dtor']), loc, where),)
        if d.get('init') is None:
            st.env[loc[1]] = ('sym', 'uninit:%s' % v.n)
            return [(st, self.N_, dt)]
        mark = len(st.temps)
        f = self.lv if t.k in ('lref', 'rref') else self.rv
        out = []
        for s, val in f(st, fr, d['init']):
            for s2, val2 in self.end_temps(s, fr, mark, val):
                if isinstance(val2, Throw):
                    out.append((s2, ('throw', val2.tag, val2.val), ()))
                else:
                    s2.env[loc[1]] = val2
                    out.append((s2, self.N_, dt))
        return out

    def fntable(self, fr, i):
        if i['k'] != 'InitListExpr':
            return False
        for x in i['c']:
            x = self.strip_casts(x)
            if x['k'] == 'UnaryOperator' and x['op'] == '&':
                x = self.strip_casts(x['c'][0])
            if x['k'] != 'DeclRefExpr' or fr.tu.decl(x['d']).k not in ('Function', 'Method'):
                return False
        return True

    def on_static(self, st, fr, v):
        pass

    def s_DeclStmt(self, st, fr, n):
        return [(s, o) for s, o, _ in self.decl(st, fr, n)]

    def s_ReturnStmt(self, st, fr, n):
        e = n['c'][0] if n.get('c') else None
        if e is None:
            return [(st, ('return', UNIT))]
        rt = fr.fn.tu.type(fr.fn.get('ret'))
        f = self.lv if rt is not None and rt.k in ('lref', 'rref') else self.rv
        mark = len(st.temps)
        out = []
        for s, v in f(st, fr, e):
            for s2, v2 in self.end_temps(s, fr, mark, v):
                out.append((s2, ('throw', v2.tag, v2.val) if isinstance(v2, Throw)
                            else ('return', v2)))
        return out

    def s_BreakStmt(self, st, fr, n):
        return [(st, ('break',))]

    def s_ContinueStmt(self, st, fr, n):
        return [(st, ('continue',))]

    def condvar(self, st, fr, n):
        """Condition variable declaration -> (state, outcome, dtors)."""
        if n.get('init') is not None and n['k'] != 'ForStmt':
            res = self.decl(st, fr, n['init']) if n['init']['k'] == 'DeclStmt' else \
                [(s, o, ()) for s, o in self.ex(st, fr, n['init'])]
        else:
            res = [(st, self.N_, ())]
        if n.get('cvar') is not None:
            out = []
            for s, o, ds in res:
                if o[0] == 'normal':
                    out.extend((s2, o2, ds + d2) for s2, o2, d2 in self.decl(s, fr, n['cvar']))
                else:
                    out.append((s, o, ds))
            res = out
        return res

    def close(self, fr, lst, ds):
        out = []
        for s, o in lst:
            res = [s]
            for d, loc, where in reversed(ds):
                res = [z for y in res for z in self.run_dtor(y, fr, d, loc, where)]
            out.extend((y, self.dtor_outcome(y, o)) for y in res)
        return out

    def s_IfStmt(self, st, fr, n):
        out = []
        for s, o, ds in self.condvar(st, fr, n):
            if o[0] != 'normal':
                out.append((s, o))
                continue
            if 'cond' not in n:
                out.extend(self.ex(s, fr, n['then']))
                continue
            mark = len(s.temps)
            for s2, r in self.cond(s, fr, n['cond']):
                for s2, r in self.end_temps(s2, fr, mark, r):
                    if isinstance(r, Throw):
                        out.extend(self.close(fr, [(s2, ('throw', r.tag, r.val))], ds))
                    elif r:
                        out.extend(self.close(fr, self.ex(s2, fr, n['then']), ds))
                    else:
                        out.extend(self.close(fr, self.ex(s2, fr, n.get('else')), ds))
        return out

    def s_SwitchStmt(self, st, fr, n):
        out = []
        body = n['body']
        stmts = body['c'] if body['k'] == 'CompoundStmt' else [body]
        # flatten: list of (labels, stmt)
        flat = []
        for x in stmts:
            labels = []
            while x is not None and x['k'] in ('CaseStmt', 'DefaultStmt'):
                labels.append('default' if x['k'] == 'DefaultStmt' else x['lhs'])
                x = x['sub']
            flat.append((labels, x))
        for s, o, ds in self.condvar(st, fr, n):
            if o[0] != 'normal':
                out.append((s, o))
                continue
            for s2, v in self.rv(s, fr, n['cond']):
                if isinstance(v, Throw):
                    out.append((s2, ('throw', v.tag, v.val)))
                    continue
                t = fr.tu.type(self.strip_casts(n['cond']).get('t'))
                if t is not None and t.k == 'enum' and v[0] != 'c':
                    ed = fr.tu.decl(t.d['d'])
                    self.enumdom = dict(self.enumdom)
                    self.enumdom[v] = [c['v'] for c in ed.get('consts', [])]
                cur = s2
                targets = []
                dead = False
                for i, (labels, x) in enumerate(flat):
                    for lb in labels:
                        if lb == 'default':
                            continue
                        cv = C(int(lb.get('cv', lb.get('v', 0))))
                        t2 = self.binop('==', cv, v)
                        a = cur.fork()
                        if self.assume(a, t2, True):
                            targets.append((a, i))
                        if not self.assume(cur, t2, False):
                            dead = True
                            break
                    if dead:
                        break
                if not dead:
                    di = [i for i, (ls, x) in enumerate(flat) if 'default' in ls]
                    targets.append((cur, di[0] if di else None))
                for s3, i in targets:
                    if i is None:
                        out.extend(self.close(fr, [(s3, self.N_)], ds))
                        continue
                    res = self.block(s3, fr, [x for _, x in flat[i:]])
                    res = [(y, self.N_ if o2[0] == 'break' else o2) for y, o2 in res]
                    out.extend(self.close(fr, res, ds))
        return out

    def strip_casts(self, n):
        while n['k'] in ('ImplicitCastExpr', 'ExprWithCleanups') and n.get('c'):
            n = n['c'][0]
        return n

    def s_CaseStmt(self, st, fr, n):
        return self.ex(st, fr, n['sub'])

    s_DefaultStmt = s_CaseStmt

    def s_CXXTryStmt(self, st, fr, n):
        out = []
        for s, o in self.ex(st, fr, n['body']):
            if o[0] != 'throw' or o[1] == 'again':
                out.append((s, o))
                continue
            handled = False
            for h in n['handlers']:
                if 'ht' not in h:
                    r = True
                else:
                    ht = fr.tu.type(h['ht'])
                    r = self.exc_matches(o[1], ht)
                if not r:
                    continue
                s2 = s if r is True else s.fork()
                if 'var' in h:
                    v = fr.tu.decl(h['var'])
                    vt = v.type()
                    b = self.varbase(fr, v)
                    s2.env[b] = ('&', self.tmp(s2, o[2])) if vt.k in ('lref', 'rref') else o[2]
                s2.emit(Event('catch', 'catch', '%s:%s' % (fr.fn.file, h['l']), extra=o[1],
                              args=(o[2],)))
                fr.exc.append(Throw(o[1], o[2]))
                out.extend(self.ex(s2, fr, h['body']))
                fr.exc.pop()
                if r is True:
                    handled = True
                    break
            if not handled:
                out.append((s, o))
        return out

    # loops ----------------------------------------------------------------
    def s_WhileStmt(self, st, fr, n):
        return self.loop(st, fr, n, None, n.get('cond'), None, n['body'], n.get('cvar'), False)

    def s_DoStmt(self, st, fr, n):
        return self.loop(st, fr, n, None, n.get('cond'), None, n['body'], None, True)

    def s_ForStmt(self, st, fr, n):
        out = []
        if n.get('init') is None:
            return self.loop(st, fr, n, None, n.get('cond'), n.get('inc'), n['body'],
                             n.get('cvar'), False)
        res = self.decl(st, fr, n['init']) if n['init']['k'] == 'DeclStmt' else \
            [(s, o, ()) for s, o in self.ex(st, fr, n['init'])]
        for s, o, ds in res:
            if o[0] != 'normal':
                out.append((s, o))
                continue
            out.extend(self.close(fr, self.loop(s, fr, n, None, n.get('cond'), n.get('inc'),
                                                n['body'], n.get('cvar'), False), ds))
        return out

    def s_CXXForRangeStmt(self, st, fr, n):
        res = [(st, self.N_)]
        for part in ('init', 'range'):
            if n.get(part) is None:
                continue
            res = [(s2, o2) for s, o in res for s2, o2 in
                   (self.ex(s, fr, n[part]) if o[0] == 'normal' else [(s, o)])]
        out = []
        for s, o in res:
            if o[0] != 'normal':
                out.append((s, o))
                continue
            rv = fr.tu.decl(n['range']['decls'][0]['d'])
            rb = s.env.get(self.varbase(fr, rv))
            rloc = self.deref(rb) if rb is not None else None
            t = rv.type().strip()
            self.arrlen = t.d.get('n') if t.k == 'array' and t.d.get('n', 99) <= 16 else None
            out.extend(self.loop(s, fr, n, (rloc, n['var']), None, None, n['body'], None, False))
        return out

    # containers whose contents are completely known ------------------------
    PUSH = ('push_back', 'emplace_back', 'push', 'emplace')

    def items(self, v):
        """Element values of a container built only by appending to an empty
        one, or None."""
        out = []
        while True:
            if v[0] == 'app' and v[1].startswith('mut:std::'):
                m = v[1].split('::')[-1]
                if m in self.PUSH and len(v) == 4 and v[1].startswith('mut:std::vector'):
                    out.append(v[3])
                    v = v[2]
                    continue
                if m in ('reserve', 'shrink_to_fit'):
                    v = v[2]
                    continue
                if m == 'clear':
                    break
                return None
            if v == app('empty') or (v[0] == 'app' and v[1].startswith('ctor:std::vector')
                                     and len(v) == 2):
                break
            if v[0] == 'S' and not v[2]:
                if v[1][0] == 'sym' and v[1][1].startswith(('default:std::vector',
                                                            'default:std::__cxx11::vector')):
                    break
                v = v[1]
                continue
            if v[0] == 'sym' and v[1].startswith('default:std::vector'):
                break
            return None
        out.reverse()
        return out

    iter_decided = 0
    INDEX = False       # elements of known vectors are only read
    COINDUCTIVE = False # loops that cannot be unrolled: see Laws.loop1
    UNROLL = False      # also unroll loops whose condition is decided outright

    def iter_model(self, st, fr, g, d, n, recv, avs):
        nm = g.split('::')[-1]
        if nm in ('begin', 'cbegin', 'end', 'cend') and g.startswith('std::'):
            loc = recv if recv is not None else (avs[0][1][1] if avs and avs[0][0] == 'l' else None)
            if loc is None:
                return None
            it = self.items(self.load(st, loc))
            if it is None:
                return None
            return [(st, app('iter', ('&', loc), C(0 if 'begin' in nm else len(it))))]
        if self.INDEX and recv is not None and g in ('std::vector::operator[]', 'std::vector::at') \
                and len(avs) == 1:
            k, it = self.valof(st, avs[0]), self.items(self.load(st, recv))
            if it is not None and k[0] == 'c' and isinstance(k[1], int) and 0 <= k[1] < len(it):
                return [(st, ('&', self.tmp(st, it[k[1]])))]
        if g == 'std::for_each' and len(avs) == 3:
            r = self.range_items(st, avs[0], avs[1])
            c = self.callop(d.params[2].type())
            if r is not None and c is not None:
                loc = avs[2][1][1] if avs[2][0] == 'l' else self.tmp(st, avs[2][1])
                sts, out = [st], []
                for x in r:
                    nxt = []
                    for s in sts:
                        for s2, v in self.invoke(s, fr, n, c, loc, [('l', ('&', self.tmp(s, x)))],
                                                 False):
                            if isinstance(v, Throw):
                                out.append((s2, v))
                            else:
                                nxt.append(s2)
                    sts = nxt
                return out + [(s, self.load(s, loc)) for s in sts]
            return None
        if not g.startswith('__gnu_cxx::'):
            return None
        if nm in ('operator!=', 'operator=='):
            vs = ([self.load(st, recv)] if recv is not None else []) + \
                [self.valof(st, a) for a in avs]
            if len(vs) == 2 and all(v[0] == 'app' and v[1] == 'iter' for v in vs) and \
                    vs[0][2] == vs[1][2]:
                self.iter_decided += 1
                return [(st, C(int((vs[0][3] == vs[1][3]) == (nm == 'operator=='))))]
            return None
        if recv is None:
            return None
        v = self.load(st, recv)
        if not (v[0] == 'app' and v[1] == 'iter'):
            return None
        if nm in ('operator++', 'operator--'):
            k = v[3][1] + (1 if nm == 'operator++' else -1)
            self.write(st, fr, n, recv, app('iter', v[2], C(k)))
            return [(st, v if avs else ('&', recv))]
        if nm == 'operator+' and len(avs) == 1:
            k = self.valof(st, avs[0])
            if k[0] == 'c':
                return [(st, app('iter', v[2], C(v[3][1] + k[1])))]
        if nm in ('operator*', 'operator->'):
            it = self.items(self.load(st, v[2][1]))
            if it is not None and 0 <= v[3][1] < len(it):
                return [(st, ('&', self.tmp(st, it[v[3][1]])))]
        return None

    def range_items(self, st, a, b):
        """Elements between two iterators into one known container, or None."""
        x, y = self.valof(st, a), self.valof(st, b)
        if all(v[0] == 'app' and v[1] == 'iter' for v in (x, y)) and x[2] == y[2]:
            it = self.items(self.load(st, x[2][1]))
            if it is not None:
                return it[x[3][1]:y[3][1]]
        return None

    def callop(self, t):
        """The single call operator of a class type (lambda or functor)."""
        t = t.strip()
        if t.k != 'rec':
            return None
        ms = [d for d in t.tu.decls.values() if d.n == 'operator()' and d.k == 'Method' and
              d.rec is not None and d.rec.id == t.rec.id]
        return ms[0] if len(ms) == 1 else None

    def loop(self, st, fr, n, rng, cond, inc, body, cvar, dofirst):
        """Exact unrolling while the loop runs over a container with known
        contents, otherwise: havoc + one generic iteration."""
        where = nodeloc(fr.tu, n)
        if not dofirst and (rng is not None or cond is not None) and cvar is None:
            if not self.COINDUCTIVE:
                return self.unroll(st, fr, n, rng, cond, inc, body, where)
            try:
                return self.unroll(st.fork(), fr, n, rng, cond, inc, body, where)
            except Endless:
                pass
        return self.loop1(st, fr, n, rng, cond, inc, body, cvar, dofirst)

    def unroll(self, st, fr, n, rng, cond, inc, body, where):
        out = []
        if rng is not None:
            rloc, var = rng
            it = self.items(self.load(st, rloc)) if rloc is not None else None
            arr = self.arrlen if rloc is not None else None
            if it is None and arr is None:
                return self.loop1(st, fr, n, rng, cond, inc, body, None, False)
            pend = [st]
            vd = fr.tu.decl(var['decls'][0]['d'])
            vb = self.varbase(fr, vd)
            for i, x in enumerate(it if it is not None else range(arr)):
                nxt = []
                for s in pend:
                    if it is None:      # a built-in array: its elements have places
                        l = self.sub(rloc, ('idx', C(i)))
                        s.env[vb] = ('&', l) if vd.type().k in ('lref', 'rref') else self.load(s, l)
                    else:
                        s.env[vb] = ('&', self.tmp(s, x)) if vd.type().k in ('lref', 'rref') else x
                    for s2, o in self.ex(s, fr, body):
                        if o[0] in ('normal', 'continue'):
                            nxt.append(s2)
                        else:
                            out.append((s2, self.N_ if o[0] == 'break' else o))
                pend = nxt
            return out + [(s, self.N_) for s in pend]
        pend = [st]
        for it in range(33):
            nxt = []
            for s in pend:
                k0 = self.iter_decided
                t = s.fork()
                mark = len(t.temps)
                res = self.cond(t, fr, cond)
                if len(res) != 1 or isinstance(res[0][1], Throw) or \
                        (self.iter_decided == k0 and not
                         (self.UNROLL and len(res[0][0].facts) == len(s.facts))):
                    if it and self.COINDUCTIVE:
                        raise Endless('loop at %s' % where)
                    out.extend(self.loop1(s, fr, n, rng, cond, inc, body, None, False))
                    continue
                t, r = res[0]
                t = self.end_temps(t, fr, mark, r)[0][0]
                if not r:
                    out.append((t, self.N_))
                    continue
                for s2, o in self.ex(t, fr, body):
                    if o[0] in ('normal', 'continue'):
                        for s3, v in (self.ev(s2, fr, inc) if inc is not None else [(s2, UNIT)]):
                            if isinstance(v, Throw):
                                out.append((s3, ('throw', v.tag, v.val)))
                            else:
                                nxt.append(s3)
                    else:
                        out.append((s2, self.N_ if o[0] == 'break' else o))
            pend = nxt
            if not pend:
                return out
            if self.COINDUCTIVE and len(pend) > 16:
                break
        raise Endless('loop over known container does not end at %s' % where)

    def loopname(self, st, fr, n):
        return nodeloc(fr.tu, n)

    def loop1(self, st, fr, n, rng, cond, inc, body, cvar, dofirst):
        where = self.loopname(st, fr, n)
        pre = st.fork()
        havoc = set()
        rounds = 0
        while True:
            rounds += 1
            head = pre.fork()
            self.havoc(head, havoc, where)
            head.emit(Event('loop', 'head', where, extra=id(n)))
            saved = (self.n,)
            backs, exits = self.iterate(head.fork(), fr, n, rng, cond, inc, body, cvar, dofirst,
                                        where)
            new = set(havoc)
            for b in backs:
                for k, v in b.env.items():
                    if k in pre.env or k[0] in ('g', 'D') or k in head.env:
                        hv = head.env.get(k)
                        if hv is None and k not in head.env:
                            if k[0] == 'v' or k[0] == 'h':
                                continue
                            hv = self.base_value(head, k)
                        if v != hv:
                            new |= self.diff(k, (), hv, v)
                for k, v in b.dom.items():
                    if k != 'lasttmp' and head.dom.get(k) != v:
                        self.dom_change(head, b, k, new)
            new = self.minimal(new)
            if new == havoc or rounds > 8:
                if rounds > 8:
                    raise Budget('loop does not stabilise at %s' % where)
                break
            havoc = new
        self.on_loop(fr, n, where, pre, head, backs, exits)
        self.loops.append((where, pre, head, backs, exits))
        return exits

    def dom_change(self, head, back, k, new):
        new.add(('dom', k))

    def minimal(self, ps):
        return {p for p in ps if not any(q != p and q[0] == p[0] and q[0] != 'dom' and
                                         p[1][:len(q[1])] == q[1] for q in ps)}

    def diff(self, k, path, a, b):
        if a == b:
            return set()
        if a[0] == 'S' and b[0] == 'S' and a[1] == b[1] and len(path) < 16:
            out = set()
            keys = {x for x, _ in a[2]} | {x for x, _ in b[2]}
            for e in keys:
                out |= self.diff(k, path + (e,), self.proj(a, e), self.proj(b, e))
            return out
        if b[0] == 'S' and a[0] != 'S' and b[1] == a and len(path) < 16:
            out = set()
            for e, v in b[2]:
                out |= self.diff(k, path + (e,), self.proj(a, e), v)
            return out
        return {(k, path)}

    def havoc(self, st, havoc, where):
        for h in sorted(havoc, key=repr):
            if h[0] == 'dom':
                st.dom[h[1]] = self.dom_top(h[1], st.dom.get(h[1]))
                continue
            k, path = h
            loc = ('L', k, path)
            # stable names: the same loop and location always yield the same symbol
            self.store(st, loc, ('sym', 'loop@%s:%s%s' % (
                where, k[-1][-1] if isinstance(k[-1], tuple) else k[-1],
                ''.join('.' + short(e) for e in path))))

    def dom_top(self, k, v):
        return v

    def on_loop(self, fr, n, where, pre, head, backs, exits):
        pass

    def iterate(self, s0, fr, n, rng, cond, inc, body, cvar, dofirst, where):
        backs, exits = [], []

        def test(s):
            """-> [(state, enter?/Throw, dtors)]"""
            if cvar is not None:
                res = []
                for s2, o, ds in self.decl(s, fr, cvar):
                    if o[0] != 'normal':
                        res.append((s2, Throw(o[1], o[2]), ds))
                        continue
                    mark = len(s2.temps)
                    for s3, r in self.cond(s2, fr, cond):
                        for s3, r in self.end_temps(s3, fr, mark, r):
                            res.append((s3, r, ds))
                return res
            if rng is not None:
                a = s.fork()
                out = []
                rloc, var = rng
                rval = self.load(s, rloc) if rloc is not None else ('sym', 'range')
                self.rangecond(s, rval, False)
                out.append((s, False, ()))
                el = ('sym', 'elem@%s' % where)
                if rloc is not None:
                    eloc = self.sub(rloc, ('elem', where))
                else:
                    eloc = self.tmp(a, el)
                vd = fr.tu.decl(var['decls'][0]['d'])
                vb = self.varbase(fr, vd)
                if vd.type().k in ('lref', 'rref'):
                    a.env[vb] = ('&', eloc)
                else:
                    a.env[vb] = self.load(a, eloc)
                self.rangecond(a, rval, True)
                out.append((a, True, ()))
                return out
            if cond is None:
                return [(s, True, ())]
            mark = len(s.temps)
            res = []
            for s3, r in self.cond(s, fr, cond):
                for s3, r in self.end_temps(s3, fr, mark, r):
                    res.append((s3, r, ()))
            return res

        def run(s, ds):
            for s2, o in self.close(fr, self.ex(s, fr, body), ds):
                if o[0] in ('normal', 'continue'):
                    if inc is not None:
                        for s3, v in self.ev(s2, fr, inc):
                            if isinstance(v, Throw):
                                exits.append((s3, ('throw', v.tag, v.val)))
                            else:
                                yield s3
                    else:
                        yield s2
                elif o[0] == 'break':
                    exits.append((s2, self.N_))
                else:
                    exits.append((s2, o))

        if dofirst:
            for s in run(s0, ()):
                for s2, r, ds in test(s):
                    if isinstance(r, Throw):
                        exits.append((s2, ('throw', r.tag, r.val)))
                    elif r:
                        backs.append(s2)
                    else:
                        exits.append((s2, self.N_))
        else:
            for s, r, ds in test(s0):
                if isinstance(r, Throw):
                    exits.extend(self.close(fr, [(s, ('throw', r.tag, r.val))], ds))
                elif not r:
                    exits.extend(self.close(fr, [(s, self.N_)], ds))
                else:
                    backs.extend(run(s, ds))
        return backs, exits

    def rangecond(self, st, rval, nonempty):
        pass

    # ---- entry -----------------------------------------------------------
    def run(self, d, this=None, args=None, st=None):
        """Interpret function d from an unknown caller.
        -> list of (state, value or Throw)"""
        d = self.P.resolve(d)
        if d.body is None:
            raise AnalysisBroken('no body for %s' % d.q)
        st = st or State()
        avs = []
        for i, p in enumerate(d.params):
            t = p.type()
            if args is not None and i < len(args) and args[i] is not None:
                avs.append(args[i])
            elif t.k in ('lref', 'rref'):
                avs.append(('l', ('&', ('L', ('h', 'arg:' + (p.n or str(i))), ()))))
                st.env.setdefault(('h', 'arg:' + (p.n or str(i))), ('sym', p.n or 'arg%d' % i))
            else:
                avs.append(('v', ('sym', p.n or 'arg%d' % i)))
        if this is None and d.k in ('Method', 'Ctor', 'Dtor', 'Conv') and not d.get('static'):
            this = ('L', ('h', 'this'), ())
            st.env.setdefault(('h', 'this'), ('S', ('sym', 'this'), ()))
        self.steps = 0
        return self.call(st, None, d, this, avs, d.loc)
