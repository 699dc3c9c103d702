"""C23: equality and ordering of library values."""
from texts import *
from c24 import Exec
import itertools
import laws

TITLE = 'Values of the library compare equal exactly if all their parts do'


class Eq(Text):
    """Comparisons of parts are atoms; those of the whole are interpreted."""
    BOOLOPS = {}        # truth tables are made of the comparisons of booleans themselves
    whole = None

    def model(self, st, fr, g, d, n, recv, avs):
        nm = g.rsplit('::', 1)[-1]
        if nm in CMPOPS and d is not None:
            m = self.compare(st, fr, nm, d, n, recv, avs)
            if m is not None:
                return m
        if g in ('std::tie', 'std::forward_as_tuple'):
            return [(st, ('S', ('sym', 'tuple'), tuple(
                (('std::get', i), self.valof(st, a)) for i, a in enumerate(avs))))]
        if g.startswith('std::function::') and recv is not None:
            v = norm(self.load(st, recv))
            if nm == 'operator bool':
                return [(st, app('set', v))]
            if nm == 'operator()':
                return [(st, app('called', v))]
        return super().model(st, fr, g, d, n, recv, avs)

    def compare(self, st, fr, nm, d, n, recv, avs):
        ts = [p.type().strip() for p in self.P.resolve(d).params]
        if recv is None and len(ts) == 2 and all(
                t.k == 'rec' and t.rec.q == self.whole for t in ts):
            return None
        vs = ([self.load(st, recv)] if recv is not None else []) + \
            [self.valof(st, a) for a in avs]
        if len(vs) != 2:
            return None
        op, swap, neg = CMPOPS[nm]
        a, b = vs[::-1] if swap else vs
        return [(s, C(int(r != neg))) for s, r in self.atom(st, op[8:], a, b)]

    def atom(self, st, op, a, b):
        """Forks over the outcome of comparing a and b."""
        if a[0] == 'S' and a[1] == ('sym', 'tuple') and b[0] == 'S' and b[1] == a[1]:
            return self.tuple(st, op, [v for _, v in a[2]], [v for _, v in b[2]])
        a, b = norm(a), norm(b)
        if op == '==':
            a, b = sorted((a, b), key=repr)
        return self.branch(st, app('cmp' + op, a, b))

    def tuple(self, st, op, xs, ys):
        if not xs:
            return [(st, op == '==')]
        out = []
        for s, r in self.atom(st, op, xs[0], ys[0]):
            if op == '==':
                out += self.tuple(s, op, xs[1:], ys[1:]) if r else [(s, False)]
            elif r:
                out.append((s, True))
            else:
                for s2, q in self.atom(s, op, ys[0], xs[0]):
                    out += [(s2, False)] if q else self.tuple(s2, op, xs[1:], ys[1:])
        return out

    def binop(self, op, a, b):
        # scalar parts: the same atoms
        if op in CMPOP and a[0] != 'c' and b[0] != 'c':
            o, swap, neg = CMPOP[op]
            a, b = (norm(b), norm(a)) if swap else (norm(a), norm(b))
            if o == '==':
                a, b = sorted((a, b), key=repr)
            t = app('cmp' + o, a, b)
            return negate(t) if neg else t
        return super().binop(op, a, b)


class Vals(Exec):
    """Templates of values; Variant is interpreted, not modelled."""
    MODELS = {k: v for k, v in Exec.MODELS.items() if 'Variant' not in k}

    def model(self, st, fr, g, d, n, recv, avs):
        if g == 'rc::operator==' and d is not None and self.cut and \
                d.params[0].type().strip().rec.g == 'rc::Seq':
            return [(st, app('sameseq', *[norm(self.valof(st, a)) for a in avs]))]
        if g == 'lval::operator==':
            t = '+'.join(p.type().strip().rec.n for p in d.params)
            return self.branches(st, app('equal' + t, *[norm(self.valof(st, a)) for a in avs]))
        return super().model(st, fr, g, d, n, recv, avs)

    def branches(self, st, v):
        return [(s, C(int(r))) for s, r in self.branch(st, v)]

    cut = False


class Shr(Vals):
    cut = True


CMPOP = {k[8:]: (v[0][8:], v[1], v[2]) for k, v in CMPOPS.items()}


def fields(r):
    return [d for d in (r.tu.decl(i) for i in r.get('fields'))]


def land(vs):
    if any(v is False for v in vs):
        return False
    return True if all(v is True for v in vs) else None


def lor(vs):
    if any(v is True for v in vs):
        return True
    return False if all(v is False for v in vs) else None


def lnot(v):
    return None if v is None else not v


class Part:
    def __init__(self, ip, d, a, b):
        st = State()
        self.n = d.n
        self.a = norm(ip.load(st, ip.sub(a, d.key)))
        self.b = norm(ip.load(st, ip.sub(b, d.key)))
        t = d.type().strip()
        self.fn = t.k == 'rec' and t.rec.g == 'std::function'

    def eq(self, facts):
        """Are both equal, given the facts of a path?"""
        def at(op, x, y):
            if op == '==':
                x, y = sorted((x, y), key=repr)
            return facts.get(app('cmp' + op, x, y))
        if self.fn:
            s1, s2 = facts.get(app('set', self.a)), facts.get(app('set', self.b))
            e = at('==', app('called', self.a), app('called', self.b))
            return lor([land([lnot(s1), lnot(s2)]), land([s1, s2, e])])
        e = at('==', self.a, self.b)
        l, g = at('<', self.a, self.b), at('<', self.b, self.a)
        if e is not None:
            return e
        if l or g:
            return False
        return True if l is False and g is False else None

    def lt(self, facts):
        l, g = facts.get(app('cmp<', self.a, self.b)), facts.get(app('cmp<', self.b, self.a))
        if l is not None:
            return l
        e = self.eq(facts)
        if e or g:
            return False
        return True if e is False and g is False else None


def lexicographic(ps, facts):
    r = False
    for p in reversed(ps):
        r = lor([p.lt(facts), land([p.eq(facts), r])])
    return r


def leaves(t):
    """Atoms of a boolean term (None: not a boolean term)."""
    if t[0] == 'c':
        return set()
    if t[0] != 'app':
        return None
    if t[1] in ('!', '&', '|', '^', 'cmp==', '=='):
        subs = [leaves(x) for x in t[2:]]
        if all(x is not None for x in subs):
            return set().union(*subs)
        return {t} if t[1] in ('cmp==', '==') else None
    return {t} if t[1] in ('cmp<', 'set') else None


def value(t, facts):
    if t in facts:
        return facts[t]
    if t[0] == 'c':
        return bool(t[1])
    a = [value(x, facts) for x in t[2:]]
    return {'!': lambda: not a[0], '&': lambda: a[0] and a[1], '|': lambda: a[0] or a[1]}.get(
        t[1], lambda: (a[0] == a[1]) == (t[1] != '^'))()


def expand(facts, v):
    """Assignments of the atoms with the value of v under them."""
    given = {}
    todo = []
    for k, x in facts.items():
        ls = leaves(k)
        if ls is None or ls == {k}:
            given[k] = x
        else:
            todo.append((k, x, ls))
    ls = leaves(v)
    if ls is None:
        raise AnalysisBroken('result of a comparison not understood: %s' % show(v))
    free = sorted(ls.union(*[x[2] for x in todo]) - set(given), key=repr)
    if len(free) > 12:
        raise AnalysisBroken('too many comparisons at once')
    out = []
    for bits in itertools.product((True, False), repeat=len(free)):
        f = dict(given)
        f.update(zip(free, bits))
        if all(value(k, f) == x for k, x, _ in todo):
            out.append((f, value(v, f)))
    return out


def records(rep, P):
    seen = set()
    for f in sorted(P.functions, key=lambda f: f.loc):
        if f.n not in ('operator==', 'operator!=', 'operator<') or f.body is None or not f.inrepo \
                or f.get('targs') or not f.q.startswith('rc::'):
            continue
        ts = [p.type().strip() for p in f.params]
        if f.rec is not None and len(ts) == 1 and not f.rec.get('targs'):
            ts = [None, ts[0]]
            name = f.rec.q
        elif len(ts) == 2:
            name = ts[0].rec.q if ts[0].k == 'rec' else None
        else:
            continue
        if name is None or ts[1].k != 'rec' or ts[1].rec.q != name or \
                not (name.startswith('rc::')) or ts[1].rec.get('targs'):
            continue
        ip = Eq(P)
        ip.whole = name
        r = ip.rec_by_name(name)
        if r is None:
            raise AnalysisBroken('%s is not defined' % name)
        if f.rec is not None:
            a, b = ('L', ('h', 'this'), ()), ('L', ('h', 'arg:' + f.params[0].n), ())
            paths = ip.run(f, this=a)
        else:
            a, b = [('L', ('h', 'arg:%d' % i), ()) for i in range(2)]
            paths = ip.run(f, args=[('l', ('&', a)), ('l', ('&', b))])
        ps = [Part(ip, d, a, b) for d in fields(r)]
        rep.check(len(ps) > 0, f.loc, '%s has no parts' % name, '%s has parts to compare' % name)
        seen.add((name, f.n))
        outs = []
        for s, v in paths:
            if isinstance(v, Throw):
                rep.check(False, f.loc, '%s of %s throws' % (f.n, name))
                continue
            outs += expand({norm(k): y for k, y in s.facts.items()
                            if k[0] == 'app' and y in (True, False)}, norm(ip.strip(v)))
        if f.n == 'operator<':
            good = any(all(lexicographic(o, facts) is x for facts, x in outs)
                       for o in itertools.permutations(ps))
            rep.check(good, f.loc, '%s: operator< is not the lexicographic order of %s' % (
                name, ', '.join(p.n for p in ps)), '%s: operator< orders by every member' % name)
            continue
        for facts, x in outs:
            x = x if f.n == 'operator==' else not x
            es = [p.eq(facts) for p in ps]
            if x:
                for p, e in zip(ps, es):
                    rep.check(e is True, f.loc, '%s: two values %s equal although their %s %s' % (
                        name, 'compare', p.n, 'differ' if e is False else 'may differ'),
                        '%s %s compares %s' % (name, f.n, p.n))
            else:
                rep.check(land(es) is False, f.loc, '%s: two values compare unequal although no '
                          'member was found to differ' % name,
                          '%s %s is unequal only for a member that differs' % (name, f.n))
        rep.count('operators')
        rep.count('paths', len(outs))
    for n in sorted({n for n, _ in seen}):
        rep.count('types')
    return seen


NEED = ['CaseResult', 'Reproduce', 'SuccessResult', 'FailureResult', 'GaveUpResult', 'Error',
        'TestMetadata', 'TestParams', 'Configuration', 'CaseDescription']


def run(rep, tier):
    P = M.Program(['src/', 'probe/core'])
    rep.rule('every operator==, != and < of a library record is interpreted with the comparisons of '
             'parts as atoms: it yields true on a path iff the atoms of that path make every member '
             'equal, and < is the lexicographic order of all members')
    seen = records(rep, P)
    for n in NEED:
        for o in ('operator==', 'operator!='):
            if ('rc::detail::' + n, o) not in seen:
                raise AnalysisBroken('%s of %s not found' % (o, n))
    for o in ('operator==', 'operator!=', 'operator<'):
        if ('rc::Random', o) not in seen:
            raise AnalysisBroken('%s of Random not found' % o)
    for ip, table in ((Vals, LAWS), (Shr, SHRINKABLE)):
        laws.decide(rep, 'lval', table, 'probe/p_values', ip)


MAYBE = 'two Maybes are equal iff both are empty or both hold equal values'
VARIANT = 'two Variants are equal iff they hold the same alternative with equal values'
SEQ = 'two Seqs are equal iff they have the same number of elements and those at the same place ' \
      'are equal'
LAWS = [
    ('operator==', MAYBE, 'maybe maybeNe maybeXY maybeXYNe'),
    ('operator==', VARIANT, 'variantXX variantYY variantXY variantYX variantNeXX variantNeYY '
                            'variantNeXY'),
    ('operator==', SEQ, 'seq seqNe'),
    ('seq::SeqIterator::operator==', 'an iterator of a Seq equals the end iff no element is left, and '
     'walks over the elements in order', 'iterEnd iterNe iterNext iterValue iterSecond iterPost '
                                         'iterPost2'),
]
SHRINKABLE = [
    ('operator==', 'two Shrinkables are equal iff their values and their shrinks are',
     'shrinkable shrinkableNe'),
]
