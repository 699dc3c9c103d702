"""Equational laws between probe functions.

The handles Gen, Shrinkable and Seq are given their value semantics (verified
by C09/C10): what they hold is embedded by value, so the repository's own
implementation classes are interpreted while arguments stay uninterpreted.
Two probe functions l_x and r_x with the same signature are equal iff on every
pair of paths whose conditions do not contradict each other they yield the same
value number (or throw alike)."""
import re
from rcbase import *

HANDLES = ('rc::Gen', 'rc::Shrinkable', 'rc::Seq')


def known(v):
    """Does the handle value v hold an implementation built here?"""
    while v[0] == 'S':
        if any(not (isinstance(k, str) and k.endswith('::m_name')) for k, _ in v[2]):
            return True
        v = v[1]
    return v[0] == 'sym' and v[1].startswith(('obj:', 'default:'))


def table(out):
    """Outcomes {(conditions, result, effects)} as a function of the conditions it
    depends on: two callables that test the same in another order are equal."""
    atoms = sorted({k for f, r, z in out for k, _ in f}, key=repr)
    if not atoms or len(atoms) > 8 or any(x not in (True, False) for f, r, z in out for _, x in f):
        return out
    fn = {}
    for bits in range(1 << len(atoms)):
        a = {k: bool(bits >> i & 1) for i, k in enumerate(atoms)}
        fn[bits] = frozenset((r, z) for f, r, z in out if all(a[k] == x for k, x in f))
    live = [i for i in range(len(atoms))
            if any(fn[b] != fn[b ^ (1 << i)] for b in fn)]
    return {(frozenset((atoms[i], bool(b >> i & 1)) for i in live), r, z)
            for b in fn for r, z in fn[b]}


class Laws(RC):
    OPAQUE = ('rc::Maybe::', 'rc::detail::Any::')
    MAXDEPTH = 60
    MAXREC = 5
    UNROLL = True
    INDEX = True
    COINDUCTIVE = True
    STATICINIT = True

    def varbase(self, fr, d):
        if d.get('st') == 'static_local':
            return ('g', '%s#%s#%d' % (d.n, d.tu.name, d.id))
        return super().varbase(fr, d)

    def dom_change(self, head, back, k, new):
        pass

    def loop1(self, st, fr, n, rng, cond, inc, body, cvar, dofirst):
        """One generic iteration from an arbitrary loop state.  A path that
        reaches the back edge yields the pseudo outcome 'again' with the state
        of the next iteration, so that a law over one step is a law over any
        number of iterations (induction over the loop)."""
        out = list(super().loop1(st, fr, n, rng, cond, inc, body, cvar, dofirst))
        where, pre, head, backs, exits = self.loops[-1]
        accs = []
        for k, v in head.env.items():
            if k in pre.env:
                for _, path in self.diff(k, (), pre.env[k], v):
                    loc = ('L', k, path)
                    accs.append((loc, self.load(head, loc), self.load(pre, loc)))
        for s, _ in out:
            s.dom['accs'] = s.dom.get('accs', ()) + tuple(accs)
        for s in backs:
            s.dom['accs'] = s.dom.get('accs', ()) + tuple(accs)
            out.append((s, ('throw', 'again', tuple((a, self.load(s, loc))
                                                    for loc, a, _ in accs))))
        return out

    def rangecond(self, st, rval, nonempty):
        st.facts[app('more', norm(rval))] = nonempty

    def diff(self, k, path, a, b):
        if a != b and a == app('emptyseq'):
            return {(k, path)}          # a handle changes as a whole
        return super().diff(k, path, a, b)

    def fresh_call(self, name, d):
        return d is None        # user callables are functions of their arguments

    side = 'l'
    # functions whose laws are stated in terms of their recursive calls
    RECURSIVE = {'rc::shrinkable::all'}

    # functions kept uninterpreted in some laws (their own laws tell what they
    # do): what they are called with is compared, callables by what they do
    summarised = frozenset()
    extdepth = 0

    def ext(self, st, fr, t, v, where):
        t = t.strip()
        op = self.callop(t)
        if op is None or t.rec.g in HANDLES or len(self.recstack) > 40:
            return norm(self.snapval(st, v))
        op = self.P.resolve(op)
        if op.body is None:
            return norm(self.snapval(st, v))
        s0 = st.fork()
        b = ('h', 'callee%d' % self.extdepth)
        self.extdepth += 1
        s0.env[b] = v
        avs = []
        for i, p in enumerate(op.params):
            pt = p.type()
            x = ('sym', '$%d.%d' % (self.extdepth, i))
            if pt.k in ('lref', 'rref'):
                s0.env[('h', x[1])] = x
                avs.append(('l', ('&', ('L', ('h', x[1]), ()))))
            else:
                avs.append(('v', x))
        out = set()
        for s, r in self.call(s0, fr, op, ('L', b, ()), avs, where):
            if isinstance(r, Throw):
                rs = [(s, ('throw', r.tag))]
            else:
                if r[0] == '&':
                    r = self.load(s, r[1])
                r = self.strip(r)
                rs = [(s, r)]
                if r[0] == 'app' and op.get('ret') is not None and \
                        op.tu.type(op.get('ret')).s == 'bool':
                    rs = [(x, C(int(y))) for x, y in self.branch(s, r)]
            for s, r in rs:
                e = Known(s)
                facts = frozenset((norm(k), x) for k, x in s.facts.items()
                                  if k[0] not in ('val', 'not') and st.facts.get(k) != x)
                effects = set()
                for k, x in s.env.items():
                    if k in st.env and st.env[k] != x:
                        o, y = norm(st.env[k], e), norm(x, e)
                        if o != y:
                            effects.add((o, y))
                out.add((facts, norm(r, e), frozenset(effects)))
        self.extdepth -= 1
        out = table(out)
        return ('app', 'callable', tuple(sorted(((tuple(sorted(f, key=repr)), r,
                                                  tuple(sorted(z, key=repr))) for f, r, z in out), key=repr)))

    def model(self, st, fr, g, d, n, recv, avs):
        if g in self.summarised and d is not None:
            where = nodeloc(fr.tu, n)
            vs = [self.ext(st, fr, p.type(), self.valof(st, a), where)
                  for p, a in zip(self.P.resolve(d).params, avs)]
            self.movedfrom(st, fr, d, avs, n['c'])
            return [(st, app(g, *vs))]
        if g in self.RECURSIVE and d is not None and (
                self.side == 'r' or self.fkey(self.P.resolve(d)) in self.recstack):
            return [(st, app(g, *[norm(self.valof(st, a)) for a in avs]))]
        nm = g.split('::')[-1]
        if nm in CMPOPS and g.startswith('laws::') and d is not None and \
                self.P.resolve(d).body is None:
            # comparison operators of user types agree with one another
            vs = ([self.load(st, recv)] if recv is not None else []) + \
                [self.valof(st, a) for a in avs]
            if len(vs) == 2:
                op, swap, neg = CMPOPS[nm]
                r = app(g[:-len(nm)] + op, *[norm(x) for x in (vs[::-1] if swap else vs)])
                return [(st, negate(r) if neg else r)]
        if g == 'laws::assume':
            return [(st, UNIT)] if self.assume(st, self.strip(self.valof(st, avs[0])), True) else []
        if g.endswith('::again'):
            return [(st, Throw('again', tuple(self.valof(st, a) for a in avs)))]
        if g.endswith('::fin'):
            st.dom['fin'] = tuple(self.valof(st, a) for a in avs)
            return [(st, UNIT)]
        if g.startswith(('copy:', 'move:')):
            if g[5:] in HANDLES:
                l = avs[0][1][1]
                v = self.load(st, l)
                if g.startswith('move:') and not any(
                        isinstance(e, tuple) and e[0] == '[]' for e in l[2]):
                    # (use after move is C10's and C12's business)
                    self.store(st, l, app('movedfrom', v))
                return [(st, v)]
            return None
        if g == 'ctor:rc::Seq':
            if not avs or (fr.tu.type(n['c'][0]['t']).k == 'rec' and
                           fr.tu.type(n['c'][0]['t']).rec.q == 'rc::NothingType'):
                return [(st, app('emptyseq'))]
            return None
        if g in ('rc::Seq::operator=', 'rc::Shrinkable::operator=', 'rc::Gen::operator='):
            v = self.valof(st, avs[0])
            if v == NONE or avs[0][0] == 'l' and False:
                v = app('emptyseq')
            if d.get('moveassign') and avs[0][0] == 'l':
                self.store(st, avs[0][1][1], app('movedfrom', v))
            self.write(st, fr, n, recv, v)
            return [(st, ('&', recv))]
        if g == 'rc::Seq::next' and recv is not None:
            v = self.load(st, recv)
            if v == app('emptyseq') or v[0] == 'app' and v[1] == 'movedfrom':
                return [(st, NONE)]
            if not known(v):
                if v[0] == 'app' and v[1] == 'rest' and \
                        st.facts.get(app('has', app('next', v[2]))) is False:
                    return [(st, NONE)]     # an exhausted sequence stays exhausted
                self.store(st, recv, app('rest', v))
                return [(st, app('next', v))]
            return None
        if g == 'rc::Shrinkable::value' and recv is not None:
            v = self.load(st, recv)
            if v[0] == 'app' and v[1] == 'throwing':
                return [(st, Throw(v[2][1], v[3]))]
            if not known(v):
                return [(st, app('value', v))]
            return None
        if g == 'rc::Shrinkable::shrinks' and recv is not None:
            v = self.load(st, recv)
            if v[0] == 'app' and v[1] == 'throwing':
                return [(st, app('emptyseq'))]
            if not known(v):
                return [(st, app('shrinks', v))]
            return None
        if g == 'rc::Gen::operator()' and recv is not None:
            v = self.load(st, recv)
            a = [self.strip(self.valof(st, x)) for x in avs]
            if not known(v):
                return [(st, app('gen', v, *a))]
            # a failing generator yields a shrinkable that throws it (C12)
            out = []
            key = [d.rec.tu.decl(i) for i in self.P.resolve(d).rec.get('fields')][0].key
            p = self.load(st, self.sub(recv, key))
            vd = [x for x in self.P.functions if x.n == 'generate' and x.rec is not None and
                  self.devname(st, p) == member_class(x)]
            vd = self.pick(self.load(st, self.deref(p)), vd)
            if len(vd) != 1:
                raise AnalysisBroken('implementation of %s not found: %s' %
                                     (d.q, self.devname(st, p)))
            for s, r in self.call(st, fr, vd[0], self.deref(p), avs, nodeloc(fr.tu, n)):
                out.append((s, app('throwing', C(r.tag), r.val) if isinstance(r, Throw) else r))
            return out
        if g == 'rc::Random::split' and recv is not None:
            v = self.strip(self.load(st, recv))
            self.store(st, recv, app('rsplit', v))
            return [(st, app('split', v))]
        if g == 'rc::Random::next' and recv is not None:
            v = self.strip(self.load(st, recv))
            self.store(st, recv, app('rnext', v))
            return [(st, app('number', v))]
        if g == 'ctor:rc::Random':
            return [(st, app('random', *[self.valof(st, a) for a in avs]))]
        if g == 'std::make_shared':
            self.n += 1
            b = ('h', 'shared%d' % self.n)
            t = targs(d)[0]
            st.env[b] = app('ctor:' + t.rec.g, *[self.snapval(st, self.valof(st, a)) for a in avs]) \
                if t.rec.g != (t0 := avs and d.params[0].type().strip()) and not (
                    len(avs) == 1 and t0.k == 'rec' and t0.rec.g == t.rec.g) \
                else self.valof(st, avs[0])
            return [(st, ('&', ('L', b, ())))]
        if g == 'ctor:std::shared_ptr' and len(avs) == 1:
            v = self.strip(self.valof(st, avs[0]))
            if v[0] == '&':
                return [(st, v)]
        if nm in ('operator->', 'operator*', 'get') and recv is not None and \
                'shared_ptr' in g.rsplit('::', 1)[0]:
            v = self.strip(self.load(st, recv))
            if v[0] == '&':
                return [(st, v)]
        if g == 'ctor:std::unique_ptr':
            return [(st, self.own(st, avs))]
        if g.startswith('std::unique_ptr::') and recv is not None:
            v = self.load(st, recv)
            while v[0] == 'S' and not v[2] and v[1][0] in ('S', 'c'):
                v = v[1]
            if nm == 'operator bool':
                return [(st, app('set', v) if v != NULL and not known(v) else C(int(v != NULL)))]
            if nm in ('operator->', 'get', 'operator*'):
                return [(st, ('&', self.sub(recv, '*')))]
            if nm == 'reset':
                self.write(st, fr, n, recv, self.own(st, avs))
                return [(st, UNIT)]
        m = self.tuples(st, fr, g, nm, d, n, recv, avs)
        if m is None:
            m = self.containers(st, fr, g, nm, d, n, recv, avs)
        if m is None:
            m = super().model(st, fr, g, d, n, recv, avs)
        return m

    # -- tuples and pairs --------------------------------------------------
    def tuples(self, st, fr, g, nm, d, n, recv, avs):
        if g in ('ctor:std::tuple', 'std::make_tuple'):
            t = fr.tu.type(n['t'])
            ta = targs(t.rec) if t.k == 'rec' else []
            if g == 'ctor:std::tuple' and not avs:
                return [(st, ('S', ('sym', 'tuple'), tuple(
                    (('std::get', i), self.default(x)) for i, x in enumerate(ta))))]
            a = avs
            if len(avs) != len(ta):
                if len(avs) == 1:       # converting from another tuple
                    return [(st, self.valof(st, avs[0]))]
                return None
            vs = [self.valof(st, x) for x in a]
            self.movedfrom(st, fr, d, avs, n['c'][1:] if g == 'std::make_tuple' else n['c'])
            return [(st, ('S', ('sym', 'tuple'), tuple((('std::get', i), v)
                                                       for i, v in enumerate(vs))))]
        if g == 'std::get' and len(avs) == 1 and avs[0][0] == 'l':
            i = d.get('targs')[0]
            i = i['int'] if isinstance(i, dict) and 'int' in i else None
            pt = d.params[0].type().strip()
            if i is None or pt.k != 'rec':
                return None
            e = ('std::get', i)
            if pt.rec.g == 'std::pair':
                e = 'std::pair::' + ('first', 'second')[i]
            elif pt.rec.g == 'std::array':
                e = ('[]', C(i))
            return [(st, ('&', self.sub(avs[0][1][1], e)))]
        return None

    def default(self, t):
        if t.k == 'rec':
            if t.rec.g == 'rc::Seq':
                return app('emptyseq')
            if t.rec.g == 'rc::Maybe':
                return NONE
            return ('sym', 'default:' + t.s)
        return C(0)

    # -- sequences with random access --------------------------------------
    CONT = ('std::vector', 'std::basic_string', 'std::array', 'std::deque')

    def size_of(self, st, loc):
        it = self.items(self.load(st, loc))
        return C(len(it)) if it is not None else app('size', norm(self.load(st, loc)))

    def proj(self, val, elem):
        v = super().proj(val, elem)
        if isinstance(elem, tuple) and elem[0] == '[]' and elem[1][0] == 'c' and \
                v[:2] == ('app', '.'):
            it = self.items(val)
            if it is not None and 0 <= elem[1][1] < len(it):
                return it[elem[1][1]]
        return v

    def items(self, v):
        w = v
        over = {}
        while w[0] == 'S':
            for k, x in w[2]:
                if not (isinstance(k, tuple) and k[0] == '[]' and k[1][0] == 'c'):
                    return super().items(v)
                over.setdefault(k[1][1], x)
            w = w[1]
        if over:
            it = self.items(w)
            if it is None or not all(0 <= k < len(it) for k in over):
                return None
            return [over.get(i, x) for i, x in enumerate(it)]
        if w[0] == 'app' and w[1].startswith('ctor:std::vector') and len(w) >= 3 and \
                w[2][0] == 'app' and w[2][1] == 'initlist':
            a = w[2][2]
            if a[0] == 'S' and a[1] == ('sym', 'array') and \
                    [k for k, _ in a[2]] == [('idx', C(i)) for i in range(len(a[2]))]:
                return [x for _, x in a[2]]
        return super().items(v)

    def containers(self, st, fr, g, nm, d, n, recv, avs):
        loc = recv
        if nm in ('begin', 'end', 'cbegin', 'cend', 'size') and recv is None and g in (
                'std::' + nm,) and avs and avs[0][0] == 'l':
            loc = avs[0][1][1]
            t = d.params[0].type().strip()
            ok = t.k == 'rec' and t.rec.g in self.CONT
        else:
            ok = recv is not None and g.rsplit('::', 1)[0] in self.CONT
        if ok:
            if nm in ('size', 'length'):
                return [(st, self.size_of(st, loc))]
            if nm == 'empty':
                z = self.size_of(st, loc)
                return [(st, self.binop('==', C(0), z))]
            if nm in ('begin', 'cbegin'):
                return [(st, app('iter', ('&', loc), C(0)))]
            if nm in ('end', 'cend'):
                return [(st, app('iter', ('&', loc), self.size_of(st, loc)))]
            if nm in ('operator[]', 'at', 'front', 'back'):
                i = self.strip(self.valof(st, avs[0])) if avs else C(0)
                if nm == 'back':
                    i = self.arith('-', self.size_of(st, loc), C(1))
                return [(st, ('&', self.sub(loc, ('[]', i))))]
        it = None
        if recv is not None:
            it = self.load(st, recv)
            rest = avs
        elif avs:
            it = self.valof(st, avs[0])
            rest = avs[1:]
        if it is not None and it[0] == 'S':
            it = self.strip(it)
        if it is not None and it[0] == 'app' and it[1] == 'iter':
            if nm in ('operator+', 'operator-', 'operator==', 'operator!=', 'operator<') and \
                    len(rest) == 1:
                o = self.strip(self.valof(st, rest[0]))
                if o[0] == 'app' and o[1] == 'iter':
                    if nm == 'operator-':
                        return [(st, self.arith('-', it[3], o[3]))]
                    if True:      # comparing across containers has no meaning
                        if it[3][0] == 'c' and o[3][0] == 'c':
                            self.iter_decided += 1
                        op = nm[8:]
                        return [(st, self.binop(op, it[3], o[3]))]
                elif nm in ('operator+', 'operator-'):
                    return [(st, app('iter', it[2], self.arith(nm[-1], it[3], o)))]
            if nm in ('operator++', 'operator--') and recv is not None:
                self.write(st, fr, n, recv, app('iter', it[2], self.arith(
                    '+' if nm == 'operator++' else '-', it[3], C(1))))
                return [(st, it if avs else ('&', recv))]
            if nm in ('operator*', 'operator->', 'operator[]') and recv is not None:
                l, i = it[2][1], it[3]
                if nm == 'operator[]':
                    i = self.arith('+', i, self.strip(self.valof(st, rest[0])))
                return [(st, ('&', self.sub(l, ('[]', i))))]
        return None

    def e_InitListExpr(self, st, fr, n):
        t = fr.tu.type(n['t'])
        res = super().e_InitListExpr(st, fr, n)
        if t.k != 'rec' or t.rec.g != 'std::array':
            return res
        out = []
        for s, v in res:
            if v[0] == 'S' and len(v[2]) == 1 and v[2][0][1][0] == 'S':
                v = ('S', v[1], tuple((('[]', k[1]), x) for k, x in v[2][0][1][2]))
            out.append((s, v))
        return out

    def snapval(self, st, v):
        """Iterators by what they range over instead of where it is stored."""
        if not isinstance(v, tuple):
            return v
        if v[:2] == ('app', 'iter') and v[2][0] == '&':
            return app('iter', norm(self.load(st, v[2][1])), v[3])
        return tuple(self.snapval(st, x) for x in v)

    def devname(self, st, p):
        v = self.load(st, self.deref(p))
        while v[0] == 'S':
            v = v[1]
        return v[1].split(':', 1)[1] if v[0] == 'sym' and ':' in v[1] else None

    def strip(self, v):
        while v[0] == 'S' and not v[2]:
            v = v[1]
        return v

    def own(self, st, avs):
        if not avs:
            return NULL
        v = self.valof(st, avs[0])
        if v == NULL or v[0] == 'c':
            return NULL
        if v[0] == '&':
            return ('S', ('sym', 'obj:owner'), (('*', self.load(st, v[1])),))
        return v

    def on_dtor(self, st, fr, d, loc, where):
        if d is not None and d.rec is not None and d.rec.g in HANDLES + (
                'rc::Maybe', 'std::unique_ptr'):
            return [st]
        return super().on_dtor(st, fr, d, loc, where)


ITEMS = Laws(None).items


CMPOPS = {'operator!=': ('operator==', False, True), 'operator>': ('operator<', True, False),
          'operator>=': ('operator<', False, True), 'operator<=': ('operator<', True, True),
          'operator==': ('operator==', False, False), 'operator<': ('operator<', False, False)}
EMPTYC = re.compile(r'(default|ctor):std::(__cxx11::)?(vector|set|map|multiset|multimap|unordered_\w+|deque|list|'
                    r'basic_string)\b')


def norm(v, empty=()):
    """Value numbers up to value preserving wrappers (empty: the Maybes known
    to hold nothing)."""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == 'S' and not v[2]:
        return norm(v[1], empty)
    if v and v[0] == 'S' and v[1][0] == 'app' and v[1][1].startswith('ctor:std::vector'):
        it = ITEMS(v)
        if it is not None:      # an element of a vector of known elements was replaced
            return norm(app('ctor:std::vector', app('initlist', (
                'S', ('sym', 'array'), tuple((('idx', C(i)), x) for i, x in enumerate(it)))),
                *v[1][3:]), empty)
    if len(v) == 2 and v[0] in ('sym', 'app') and isinstance(v[1], str) and EMPTYC.match(v[1]):
        return ('app', 'emptycont')
    if v and v[0] == 'app' and isinstance(v[1], str) and v[1].startswith('mut:std::'):
        m = v[1].rsplit('::', 1)[-1]
        if m == 'insert' and len(v) == 6 and v[4] == v[5] and v[4][:2] == ('app', 'iter'):
            return norm(v[2], empty)        # an empty range
        if m == 'insert' and len(v) == 4 and isinstance(empty, dict):
            k = v[3]
            while k[0] == 'S' and k[2] and k[2][0][0] == 'std::pair::first':
                k = k[2][0][1]
            if empty.get(app('==', C(0), app('count', norm(v[2], empty), norm(k, empty)))) == C(0):
                return norm(v[2], empty)    # already there
        if m in ('reserve', 'shrink_to_fit', 'find', 'end', 'begin', 'lower_bound', 'upper_bound'):
            return norm(v[2], empty)
        if m == 'clear':
            return ('app', 'emptycont')
        if m == 'emplace_back' and len(v) == 4:
            v = ('app', v[1][:-12] + 'push_back') + v[2:]
    if v in empty:
        return empty[v] if isinstance(empty, dict) else NONE
    if v and v[0] == 'app' and v[1] == 'rest' and ('app', 'next', v[2]) in empty:
        return ('app', 'emptyseq')      # an exhausted sequence stays exhausted
    if v and v[0] == 'app' and v[1] == 'some':
        w = norm(v[2], empty)
        if w[0] == 'app' and w[1] == '.' and w[3] == '*':   # some(*m) is m (*m presumes it)
            return w[2]
        return ('app', 'some', w)
    v = tuple(norm(x, empty) for x in v)
    if len(v) == 2 and v[0] == 'elem':
        return ('elem', '*')            # whatever the loop is called
    if v[:2] == ('app', 'callable'):
        return v[:2] + (tuple(sorted(((tuple(sorted(f, key=repr)), r, tuple(sorted(z, key=repr)))
                                      for f, r, z in v[2]), key=repr)),)
    if v[:2] == ('app', '<') and v[3] == C(1) and v[2][:1] == ('app',) and \
            v[2][1] in ('size', 'count'):
        v = app('==', C(0), v[2])
    if v[:2] == ('app', '!') and v[2][0] == 'c':
        return C(int(not v[2][1]))
    if len(v) == 4 and v[0] == 'app' and isinstance(v[1], str) and v[1].endswith('operator==') \
            and repr(v[3]) < repr(v[2]):
        v = v[:2] + (v[3], v[2])        # == of user types is symmetric
    if v[:2] == ('app', '.') and v[3] == 'std::pair::second' and v[2][0] == 'app' and \
            re.match(r'std::\w+::(insert|emplace)$', v[2][1]) and len(v[2]) == 4:
        k = v[2][3]                     # inserted iff not there before
        while k[0] == 'S' and k[2] and k[2][0][0] == 'std::pair::first':
            k = k[2][0][1]
        return app('==', C(0), app('count', v[2][2], k))
    if v[:2] == ('app', 'std::operator==') and len(v) == 4 and all(
            x[0] == 'app' and x[1].startswith('std::') for x in v[2:]) and \
            v[2][1].endswith('::end') and v[3][1].endswith('::find') and v[2][2] == v[3][2]:
        return app('==', C(0), app('count', *v[3][2:]))
    if v and v[0] == 'app' and isinstance(v[1], str) and v[1].startswith('std::') and \
            v[1].endswith('::count') and len(v) == 4:
        return app('count', *v[2:])
    return NONE if v == ('app', 'next', ('app', 'emptyseq')) else v


class Known(dict):
    """What the conditions of two paths say about values."""
    def __init__(self, *sts):
        for s in sts:
            for k, b in s.facts.items():
                if k[0] == 'app' and isinstance(b, bool):
                    self[k] = C(int(b))
                    if k[1] == 'has' and not b:
                        self[k[2]] = NONE


def gone(v):
    """Loop state inside a sequence that was replaced by the empty one."""
    w = v
    while w[0] == 'app' and w[1] == '.':
        w = w[2]
    return w if w == ('app', 'emptyseq') else v


RND = ('split', 'rsplit', 'rnext')


def rename_random(v, roots):
    """Random streams up to renaming: only which parts share a stream counts
    (that parts are independent is C15)."""
    seen = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x in roots or (x and x[0] == 'app' and x[1] in RND):
            return ('stream', seen.setdefault(x, len(seen)))
        return tuple(go(y) for y in x)
    return go(v)


def compatible(a, b):
    for k, x in list(a.facts.items()) + list(b.facts.items()):
        # counters are unsigned: 0 < x is x != 0
        if k[0] == 'app' and k[1] == '<' and k[2] == C(0):
            for o in (a, b):
                if o.facts.get(('app', '==', C(0), k[3])) == x:
                    return False
    for k, x in a.facts.items():
        if k in b.facts:
            y = b.facts[k]
            if k[0] == 'not':
                continue
            if x != y:
                return False
        if k[0] == 'val':
            nk = ('not', k[1])
            if nk in b.facts and x in b.facts[nk]:
                return False
    for k, y in b.facts.items():
        if k[0] == 'val' and ('not', k[1]) in a.facts and y in a.facts[('not', k[1])]:
            return False
    return True


def deep(st, v, seen=()):
    """Shrinkables by what they hold instead of where it is stored."""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == '&' and v[1][0] == 'L' and v[1][1] in st.env and not v[1][2] and \
            v[1][1][0] == 'h' and v[1][1] not in seen:
        w = st.env[v[1][1]]
        if w[0] == 'S':
            w = ('S', w[1], tuple((k, x) for k, x in w[2] if not (
                isinstance(x, tuple) and x[0] == 'app' and x[1] == 'ctor:std::atomic')))
        return ('app', 'holds', deep(st, w, seen + (v[1][1],)))
    return tuple(deep(st, x, seen) for x in v)


CHOICE = ('app', 'laws::choice')


class Undecided(Exception):
    """A loop whose state is not understood: neither shown nor refuted."""


def unresolved(v):
    if not isinstance(v, tuple):
        return False
    if len(v) == 2 and v[0] == 'sym' and isinstance(v[1], str) and v[1].startswith('loop@'):
        return True
    return any(unresolved(x) for x in v)


class Checker:
    def __init__(self, P, rep, ns, interp=None):
        self.P = P
        self.rep = rep
        self.interp = interp or Laws
        self.fns = {}
        for f in P.functions:
            if f.q.startswith(ns + '::') and f.inprobe and f.body is not None:
                self.fns.setdefault(f.n, f)
        self.ip = None

    def run(self, f):
        ip = self.interp(self.P)
        ip.side = f.n[0]
        ip.summarised = SUMMARISED.get(f.n[2:], frozenset())
        st = State()
        args = []
        for i, p in enumerate(f.params):
            t = p.type()
            v = ('sym', 'a%d' % i)
            if t.k in ('lref', 'rref'):
                b = ('h', 'a%d' % i)
                st.env[b] = v
                args.append(('l', ('&', ('L', b, ()))))
            else:
                args.append(('v', v))
        self.roots = {('sym', 'a%d' % i) for i, p in enumerate(f.params)
                      if p.type().strip().k == 'rec' and p.type().strip().rec.q == 'rc::Random'}
        res = []
        for s, v in ip.run(f, args=args, st=st):
            if isinstance(v, Throw):
                if v.tag == 'again':
                    v = Throw(v.tag, deep(s, v.val))
            else:
                v = deep(s, v)
            if 'fin' in s.dom:
                s.dom['fin'] = deep(s, s.dom['fin'])
            res.append((s, v))
        self.ip = ip
        self.rep.analysed(ip)
        self.rep.count('paths', len(res))
        return res

    def canonical(self, s, v, init):
        """Outcome of a path in terms of the parameters: the loop state is
        renamed to the parameter it starts from (a parameter of r_ stands for
        loop state with the initial value given in init)."""
        accs = s.dom.get('accs', ())
        ren, order, pair = {}, {}, {}
        if not isinstance(v, Throw) and v[:2] == ('app', 'throwing'):    # a generator that failed (C12)
            v = Throw(v[2][1], v[3])

        def target(i):
            if i[0] == 'sym' and re.match(r'a\d+$', i[1]):
                return i
            return next((('sym', 'a%d' % k) for k, x in init.items() if x == i), None)

        def initval(i):
            n = norm(i)
            i = self.ip.strip(i)
            while i[0] == 'app' and i[1].startswith('mut:'):
                i = self.ip.strip(i[2])
            m = n == EC and EMPTYC.match(i[1])
            return EC + (m.group(3),) if m and EC + (m.group(3),) in init.values() else n
        inits = [(loc, a, initval(i)) for loc, a, i in accs]
        # a loop that holds an element already taken from the sequence, written
        # as in "for (x = q.next(); x; x = q.next())"
        for loc, a, i in inits:
            for loc2, a2, i2 in inits:
                x = i[2] if i[:2] == ('app', 'next') else E if i == NONE else None
                if a not in ren and a2 not in ren and x is not None and target(i) is None and \
                        i2 in (('app', 'rest', x), E if x == E else None):
                    t = target(x)
                    if t is not None and t not in order:
                        ren[a], ren[a2] = app('next', t), app('rest', t)
                        order[t] = (loc2, a2)
                        pair[t] = (a, a2)

        for loc, a, i in inits:
            t = target(i)
            if a not in ren and t is not None and t not in order:
                ren[a] = t
                order[t] = (loc, a)

        def sub(x):
            if not isinstance(x, tuple):
                return x
            if x in ren:
                return ren[x]
            return tuple(sub(y) for y in x)

        def mentions(x, ys):
            return isinstance(x, tuple) and (x in ys or any(mentions(y, ys) for y in x))
        facts, later = {}, {}
        # something that grows from nothing differs from its bound iff it is below
        grow = {y for a, i in ((a, i) for _, a, i in inits) if i == C(0) or i[:2] == EC
                for y in (a, app('size', a))}
        for k, x in list(s.facts.items()):
            k2 = norm(k)
            if k2[:2] == ('app', '==') and k2[2][0] != 'c' and (k2[2] in grow or k2[3] in grow):
                y, z = k2[2:] if k2[2] in grow else k2[:1:-1]
                s = s.fork() if 'grow' not in s.dom else s
                s.dom['grow'] = True
                s.facts = dict(s.facts)
                del s.facts[k]
                s.facts[app('<', y, z)] = not x
        for k, x in s.facts.items():
            if mentions(k, ren):
                later[norm(sub(k))] = x
            elif not mentions(k, order):    # said of the first iteration only
                facts[norm(k)] = x
        facts.update(later)
        for k, x in facts.items():      # an exhausted sequence stays exhausted
            if x is True and k[:2] == ('app', 'has') and k[2][:2] == ('app', 'next') and \
                    k[2][2][:2] == ('app', 'rest') and \
                    facts.get(app('has', app('next', k[2][2][2]))) is False:
                return None
        again = None
        if isinstance(v, Throw) and v.tag == 'again':
            if accs:
                val = {a: norm(sub(x)) for a, x in v.val}
                new = {}
                for a, x in val.items():
                    t = ren.get(a)
                    if t is not None and x != norm(t) and t in order:
                        new[t] = x
                for t, (a, a2) in pair.items():
                    x, y = val.get(a), val.get(a2)
                    if x and y and x[:2] == ('app', 'next') and y == ('app', 'rest', x[2]):
                        if x[2] != t:
                            new[t] = x[2]
                    else:
                        new[t] = app('mismatch', x or UNIT, y or UNIT)
                again = tuple(x for _, x in sorted(new.items(), key=lambda z: int(z[0][1][1:])))
            else:
                again = tuple(norm(x) for x in v.val)
        fin = None
        if 'fin' in s.dom:
            fin = tuple(norm(x) for x in s.dom['fin'])
        elif accs:
            fin = tuple(gone(norm(sub(self.ip.load(s, loc)))) for t, (loc, a) in
                        sorted(order.items(), key=lambda z: int(z[0][1][1:])) if loc[1][0] == 'h' and
                        not str(loc[1][1]).startswith('shared'))
        out = State()
        out.facts = facts
        return out, (v if isinstance(v, Throw) else sub(v)), again, fin, s.dom.get('calls', ())

    def law(self, name, where, text):
        """l_<name> is observationally equal to r_<name> (or, where a loop may
        be written in several ways, to r_<name>_b)."""
        l = self.fns.get('l_' + name)
        rs = [x for x in ('r_' + name, 'r_' + name + '_b') if x in self.fns]
        if l is None or not rs:
            raise AnalysisBroken('law %s not found' % name)
        L = self.run(l)
        msgs = []
        for r in rs:
            try:
                m = self.compare(L, self.run(self.fns[r]), INIT.get(r[2:], {}))
            except Undecided:
                self.rep.count('laws not decided (loop state not related to the parameters)')
                return True
            if m is None:
                msgs = []
                break
            msgs.append(m)
        return self.rep.check(not msgs, where, '%s does not hold: %s' %
                              (text, msgs[0] if msgs else ''), text)

    def compare(self, L, R, init):
        """None if equal on all compatible pairs of paths, else the difference."""
        L = [x for x in (self.canonical(*x, init) for x in L) if x]
        R = [x for x in (self.canonical(*x, init) for x in R) if x]
        keys = sorted({k for r in R for k in r[0].facts if k[:2] == CHOICE}, key=repr)
        for bits in range(1 << len(keys)):
            ch = {k: bool(bits >> i & 1) for i, k in enumerate(keys)}
            rs = [r for r in R if all(r[0].facts.get(k, x) == x for k, x in ch.items())]
            if not keys:
                return self.match(L, rs)
            L2, miss = [], None
            for l in L:
                m = self.match([l], rs, False)
                if m is not None:
                    L2.append(l)
                    miss = m
            L = L2
            if not L:
                return None
        return miss

    def match(self, L, R, need=True):
        n = 0
        for s, v, again, fin, calls in L:
            for s2, w, again2, fin2, calls2 in R:
                if not compatible(s, s2):
                    continue
                n += 1
                e = Known(s, s2)

                def eq(x, y):
                    return x == y or rename_random(norm(x, e), self.roots) == \
                        rename_random(norm(y, e), self.roots)
                if again is not None or again2 is not None:
                    same = again is not None and again2 is not None and eq(again, again2)
                elif isinstance(v, Throw) or isinstance(w, Throw):
                    same = isinstance(v, Throw) and isinstance(w, Throw) and v.tag == w.tag
                else:
                    same = eq(v, w) and (fin2 is None or fin is not None and eq(fin, fin2))
                if not same and unresolved((v, again)):
                    raise Undecided()
                if not (same and eq(calls, calls2)):
                    return '%s instead of %s' % (tell(v, again, fin2 and fin, calls),
                                                 tell(w, again2, fin2, calls2))
        if not n and need:
            raise AnalysisBroken('no compatible paths')
        return None if n else 'an outcome that is none of these'


# loop state that does not start from a parameter: which parameter of r_ stands
# for it, by its initial value
E = ('app', 'emptyseq')
EC = ('app', 'emptycont')
INIT = {'qjoin': {1: E}, 'qmapcat': {2: E}, 'qcycle': {1: E}, 'qlength': {1: C(0)},
        'sfilter_s': {2: app('shrinks', ('sym', 'a0'))},
        'sfilter_r': {2: app('shrinks', ('sym', 'a0'))},
        'sall': {2: app('shrinks', ('sym', 'a0'))},
        'sfindLocalMin': {2: app('shrinks', ('sym', 'a0')), 3: app('value', ('sym', 'a0')), 4: C(0)},
        'eachElement': {2: E, 3: C(0)}, 'genN': {5: EC}, 'mapElems': {5: EC, 6: C(0)},
        'mapShrink': {1: app('shrinks', ('sym', 'a0'))},
        'uniqShrink': {2: app('shrinks', ('sym', 'a1'))},
        'uniqShrinks': {2: EC + ('set',)}, 'arrayS': {3: E, 4: C(0)}, 'msetShrink': {1: E, 2: C(0)}, 'mmapShrink': {1: E, 2: C(0)}, 'vecElems': {4: EC},
        'setElems': {4: EC + ('vector',), 5: EC + ('set',)}, 'vecShrink': {1: E, 2: C(0)}, 'setShrink': {1: app('shrinks', ('sym', 'a0'))},
        'qat': {2: C(0)}, 'qlast': {1: NONE},
        'qlast_b': {1: app('next', ('sym', 'a0')), 2: app('rest', ('sym', 'a0'))}}

GS = frozenset({'rc::gen::detail::generateShrinkables'})
SUMMARISED = {n: GS for n in (
    'mapElems msetElems umsetElems listElems usetElems mmapElems ummapElems uniqElems array arrayN '
    'arrayS wvec wvecwvec wset wsetwset wmmap wmmapwmmap uniqBy uniqByN uniq uniqN avec adeque alist '
    'aflist aset amset auset aumset aarray amap ammap aumap aummap').split()}
SUMMARISED.update({n: frozenset({'rc::shrink::eachElement', 'rc::seq::filter'})
                   for n in ('setShrinks', 'mapShrinks', 'uniqShrinks')})


def tell(v, again=None, fin=None, calls=()):
    if again is not None:
        return 'next iteration with ' + ', '.join(show(x) for x in again)[:300]
    if isinstance(v, Throw):
        return 'exception ' + str(v.tag)
    t = show(norm(v))[:300]
    if calls:
        t += ' after ' + ', '.join(show(norm(x)) for x in calls)[:200]
    if fin:
        t += ' leaving ' + ', '.join(show(x) for x in fin)[:200]
    return t


def decide(rep, ns, table, probe='probe/p_laws', interp=None):
    """table: (function, statement, laws).  Every law is an obligation."""
    P = M.Program([probe, 'src/'])
    if P.diags:
        raise AnalysisBroken('probe does not compile: %s' % list(P.diags.values())[0][:1])
    rep.rule('each equation is decided by interpreting both sides abstractly over uninterpreted '
             'generators, shrinkables, sequences and user functions and comparing results, '
             'exceptions and calls on every pair of paths with compatible conditions; random '
             'streams are compared up to renaming; a loop is compared by one generic iteration: '
             'exits yield the same result and leave the same state, the back edge the same state '
             'for the next iteration')
    ck = Checker(P, rep, ns, interp)
    broken = []
    locs = {}
    for d in P.functions:
        if d.inrepo and d.body is not None:
            locs.setdefault(d.q, d.loc)
            locs.setdefault(d.g, d.loc)
    for fn, text, laws in table:
        where = '%s (%s)' % (locs.get('rc::' + fn) or locs.get(fn) or '?', fn)
        if where.startswith('?'):
            raise AnalysisBroken('function %s not found' % fn)
        for name in laws.split():
            try:
                ck.law(name, where, '%s: %s' % (name, text))
            except AnalysisBroken as e:
                broken.append('%s: %s' % (name, e))
    rep.count('laws', sum(len(t[2].split()) for t in table))
    if broken and not rep.viol:
        raise AnalysisBroken('; '.join(broken[:3]))
    rep.assume += ['user functions depend on nothing but their arguments',
                   'Gen, Shrinkable and Seq have value semantics (C09, C10); exceptions inside '
                   'them are C12']
    return ck


def bound_facts(ip, s, pairs):
    """Conditions, with the value under which the loop goes round again, that
    compare something the round advances: a counter, or the size of a container
    that was added to."""
    def mentions(x, y):
        return x == y or isinstance(x, tuple) and any(mentions(z, y) for z in x)
    for a, b in pairs:
        b = ip.strip(b)
        if b == a:
            continue
        if b[0] == 'app' and b[1] in ('+', '-') and b[2] == a and b[3][0] == 'c' or \
                b[0] == 'app' and b[1].startswith('mut:std::') and \
                b[1].rsplit('::', 1)[1] in ('push_back', 'emplace_back', 'insert', 'emplace'):
            up = b[1] != '-' and (b[1] != '+' or b[3][1] > 0) or b[1] == '-' and b[3][1] < 0
            for k, x in s.facts.items():
                if k[0] != 'app' or k[1] not in ('<', '==') or not mentions(k, a):
                    continue
                small = x if k[1] == '<' and mentions(k[2], a) else not x
                if k[1] == '==' and x is False or k[1] == '<' and small is up:
                    yield k, x


def bounded(rep, table):
    """table: (function, law): the loop in l_<law> is left after finitely many rounds."""
    ck = Checker(M.Program(['probe/p_laws', 'src/']), rep, 'laws')
    for fn, law in table:
        f = ck.fns['l_' + law]
        where = next((d.loc for d in ck.P.functions if d.g == 'rc::' + fn and d.body is not None),
                     '?') + ' (%s)' % fn
        rounds = []
        for s, v in ck.run(f):
            if not isinstance(v, Throw) and v[:2] == ('app', 'throwing'):
                v = Throw(v[2][1], v[3])
            if isinstance(v, Throw) and v.tag == 'again':
                rounds.append((s, set(bound_facts(ck.ip, s, v.val))))
        for s, b in rounds:
            rep.check(any(all(s2.facts.get(k, x) == x for s2, _ in rounds) for k, x in b), where,
                      'tries again without anything bounding the number of tries',
                      'every way round the loop advances a bounded counter')
        rep.count('ways round a retry loop', len(rounds))
        if not rounds:
            raise AnalysisBroken('no retry loop in %s' % fn)
