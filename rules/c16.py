"""C16: generators restricted to some values generate, and shrink to, only those."""
import laws
from laws import *

TITLE = 'Restricted generators yield and shrink to allowed values only, or give up'

LAWS = [
    ('gen::suchThat', 'the first generated value satisfying the predicate, with exactly those '
     'shrinks that satisfy it; GenerationFailure after finitely many tries',
     'suchThat arbSuchThat'),
    ('shrinkable::filter', 'keeps exactly the shrinks that satisfy the predicate, recursively',
     'sfilter_v sfilter_s sfilter_r'),
    ('gen::nonEmpty', 'the values that are not empty', 'nonEmpty arbNonEmpty'),
    ('gen::distinctFrom', 'the values not equal to the given one', 'distinct arbDistinct'),
    ('gen::nonZero', 'the values that are not zero', 'nonZero'),
    ('gen::positive', 'the values above zero', 'positive'),
    ('gen::negative', 'the values below zero', 'negative'),
    ('gen::nonNegative', 'the values not below zero', 'nonNegative'),
]

BOUNDED = [('gen::detail::FilterGen::operator()', 'suchThat'),
           ('gen::detail::generateShrinkables', 'genN')]

ADDS = {'push_back', 'operator+=', 'append', 'insert', 'replace', 'assign'}


def bits_of(t):
    return t.d.get('bits')


class Text(Laws):
    """Characters: drawing random bits is opaque; conversions to fewer bits
    are kept since they may turn another character into NUL."""
    OPAQUE = Laws.OPAQUE + ('rc::detail::BitStream::',)
    summarised = frozenset(
        'rc::shrinkable::shrinkRecur rc::detail::bitStreamOf rc::seq::concat rc::seq::cast '
        'rc::seq::fromContainer rc::seq::just rc::seq::takeWhile rc::shrink::removeChunks '
        'rc::shrink::eachElement rc::seq::filter'.split())

    def __init__(self, P):
        super().__init__(P)
        self.added = []

    def int_cast(self, fr, n, c, v):
        a, b = bits_of(fr.tu.type(c['t'])), bits_of(fr.tu.type(n['t']))
        if a and b and b < a and v[0] != 'c' and b > 1:
            return app('narrow', v)
        return v

    def model(self, st, fr, g, d, n, recv, avs):
        o = g.rsplit('::', 1)
        if recv is not None and o[0] == 'std::basic_string' and o[1] in ADDS and d is not None:
            for p, a in zip(d.params, avs):
                if p.type().strip().k == 'builtin' and 'size_t' not in p.type().s and \
                        (bits_of(p.type().strip()) or 0) <= 32:
                    self.added.append((st, self.strip(self.valof(st, a)), nodeloc(fr.tu, n)))
        return super().model(st, fr, g, d, n, recv, avs)


def nul(ip, s, v):
    """May the character be NUL?  None: not told."""
    v = ip.strip(v)
    if v[0] == 'c':
        return v[1] == 0
    if v[0] == 'app' and v[1] in ('narrow', '%', '&', '>>') or \
            v[0] == 'app' and v[1].endswith(('::next', '::nextWithSize')) or v[0] == 'sym' or \
            v[:2] == ('app', 'number'):
        return ip.decide(s, app('==', C(0), v)) is not False
    return None


def execute(rep, P, f):
    ip = Text(P)
    st = State()
    args = []
    for i, p in enumerate(f.params):
        v = ('sym', 'a%d' % i)
        if p.type().k in ('lref', 'rref'):
            st.env[('h', 'a%d' % i)] = v
            args.append(('l', ('&', ('L', ('h', 'a%d' % i), ()))))
        else:
            args.append(('v', v))
    out = ip.run(f, args=args, st=st)
    rep.analysed(ip)
    rep.count('paths', len(out))
    return ip, out


def leaves(v, names):
    """Arguments of the listed functions anywhere inside v."""
    if not isinstance(v, tuple):
        return
    if v and v[0] == 'app' and v[1] in names:
        yield v
    for x in v:
        yield from leaves(x, names)


def subst(t, val, c):
    if t == val or t[0] == 'sym' and t[1].startswith('$'):
        return c
    if t[0] == 'app':
        return t[:2] + tuple(subst(x, val, c) if isinstance(x, tuple) else x for x in t[2:])
    return t


def text(rep, P, fns, locs):
    # generated characters and strings
    for name, q, shr in (('g_char', 'rc::gen::character', 'rc::shrink::character'),
                         ('g_wchar', 'rc::gen::character', 'rc::shrink::character'),
                         ('g_string', 'rc::gen::detail::StringGen::operator()', None),
                         ('g_wstring', 'rc::gen::detail::StringGen::operator()', None)):
        where = '%s (%s)' % (locs.get(q, '?'), q[4:])
        ip, out = execute(rep, P, fns[name])
        n = 0
        vals = list(ip.added) if shr is None else []
        for s, v in out:
            if isinstance(v, Throw):
                rep.check(v.tag == 'again', where, 'exception %s' % v.tag, 'generates a value')
                continue
            if v[:2] == ('app', 'throwing') and v[2] == C('again'):
                continue
            v = ip.strip(v)
            ok = v[:2] == ('app', 'rc::shrinkable::shrinkRecur')
            if not ok:
                rep.count('results not understood')
                continue
            n += 1
            if shr is not None:
                vals.append((s, v[2], where))
                rep.check(v[3][0] == 'fn' and v[3][1].g == shr or
                          any(True for _ in leaves(v[3], {'rc::seq::takeWhile'})), where,
                          'does not shrink by %s' % shr, 'shrinks as characters do')
            else:
                each = list(leaves(v[3], {'rc::shrink::eachElement'}))
                for x in each:
                    rep.check(x[3][0] == 'fn' and x[3][1].g == 'rc::shrink::character' or
                              any(True for _ in leaves(x[3], {'rc::seq::takeWhile'})), where,
                              'characters are not shrunk by shrink::character',
                              'shrinks each character as characters do')
        for s, v, w in vals:
            r = nul(ip, s, v)
            if r is None:
                rep.count('characters not understood')
                continue
            rep.check(not r, w, "may generate the character '\\0'", 'the character is not NUL')
        rep.count('generated characters', len(vals))
        if not n:
            raise AnalysisBroken('%s yields no shrinkable' % q)
    # their shrinks
    q = 'rc::shrink::character'
    where = '%s (%s)' % (locs.get(q, '?'), q[4:])
    for name in ('g_charS', 'g_wcharS', 'g_char16S'):
        ip, out = execute(rep, P, fns[name])
        val = ('sym', 'a0')
        n = 0
        for s, v in out:
            if isinstance(v, Throw):
                rep.check(False, where, 'exception %s' % v.tag, 'no exception')
                continue
            v = ip.strip(v)
            for x in leaves(v, {'rc::seq::fromContainer'}):
                for y in leaves(x, {'ctor:std::basic_string'}):
                    if y[2][0] == 'c' and isinstance(y[2][1], str):
                        n += 1
                        rep.check('\0' not in y[2][1], where, 'shrinks to NUL',
                                  'the literal characters are not NUL')
            for x in leaves(v, {'rc::seq::just'}):
                for y in x[2:]:
                    n += 1
                    y = ip.strip(y)
                    if y[0] == 'c':
                        rep.check(y[1] != 0, where, "shrinks to '\\0'", 'not NUL')
                    elif y[0] == 'app' and y[1].endswith('tolower'):
                        rep.check(y[2] == val, where, 'shrinks to the lower case of a character '
                                  'converted to fewer bits, which may be NUL',
                                  'lower case of the very character')
                    elif y[0] == 'app' and y[1] == 'narrow':
                        rep.check(False, where, 'shrinks to a character cut to fewer bits, which '
                                  'may be NUL', 'no bits are cut')
            if any(True for _ in leaves(v, {'rc::seq::fromContainer'})):
                # the candidates include every literal character, so the
                # character itself unless it is filtered out
                ok = None
                for x in leaves(v, {'rc::seq::takeWhile', 'rc::seq::filter'}):
                    f = x[-1]
                    if f[:2] == ('app', 'callable'):
                        r = [evalterm(subst(r, val, C(7)), {}) for facts, r, _ in f[2]
                             if all(evalterm(subst(k, val, C(7)), {}) in (None, int(b))
                                    for k, b in facts)]
                        if r and all(y == 0 for y in r):
                            ok = True
                            break
                        if None not in r:
                            ok = False
                rep.check(ok is not None and ok, where, 'a character may shrink to itself',
                          'the character itself is not among its shrinks')
                n += 1
        rep.count('shrunk characters', n)
        if not n:
            raise AnalysisBroken('shrinks of characters not found')


def run(rep, tier):
    decide(rep, 'laws', LAWS)
    P = M.Program(['probe/p_laws', 'src/'])
    bounded(rep, BOUNDED)
    fns = {f.n: f for f in P.functions if f.q.startswith('laws::g_')}
    locs = {}
    for d in P.functions:
        if d.inrepo and d.body is not None:
            locs.setdefault(d.g, d.loc)
    text(rep, P, fns, locs)
    rep.rule('every value that reaches the shrinkable of a character, and every character added to '
             'a generated string, is known not to be zero on its path; shrinks of characters come '
             'from NUL free literals or from the lower case of the unconverted character')
