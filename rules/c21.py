"""C21: input that is not understood is reported."""
from c22 import *
import c22

TITLE = 'Malformed input is reported and never reads or allocates out of bounds'
CX, PX = 'rc::detail::ConfigurationException', 'rc::detail::ParseException'


class Outside(Exception):
    """The input has been left: what follows is anything."""


class Read(Ser):
    """Accesses outside of the input, shifts by too much and memory for as much
    as the input says are noted."""

    def __init__(self, P):
        super().__init__(P)
        self.odd = {}
        self.nul = set()

    def note(self, what, fr=None, n=None):
        if n is None and self.ctx is not None:
            fr, n = self.ctx[:2]
        self.odd.setdefault((nodeloc(fr.tu, n) if n is not None else '', what))

    def load(self, st, loc):
        k = loc[2][-1] if loc[2] else None
        if isinstance(k, tuple) and k[0] in ('[]', 'idx') and (loc[1], loc[2]) not in self.nul:
            i = self.strip(k[1])
            if i[0] == 'c' and isinstance(i[1], int):
                it = self.items(super().load(st, ('L', loc[1], loc[2][:-1])))
                if it is not None and not 0 <= i[1] < len(it):
                    self.note('reads %s' % ('past the end' if i[1] >= 0 else 'in front of the start'),
                              *self.here)
                    raise Outside()
        v = super().load(st, loc)
        if v[:2] == ('app', 'outside'):
            self.note('reads outside of a table', *self.here)
        return v

    here = (None, None)

    def ev(self, st, fr, n):
        if fr is not None:
            self.here = (fr, n)
        return super().ev(st, fr, n)

    def arith(self, op, a, b):
        r = super().arith(op, a, b)
        if r[:2] == ('app', 'overshift'):
            self.note('shifts by %s or more' % show(b))
        return r

    def bounded(self, v):
        v = self.strip(v)
        return v[0] == 'c' or v[:2] == ('app', 'min')

    def model(self, st, fr, g, d, n, recv, avs):
        cls, nm = (g.rsplit('::', 1) + [''])[:2]
        if recv is not None and cls in SEQ + MAPS and nm in ('reserve', 'resize', 'assign') and avs and \
                d is not None and inttype(d.params[0].type()) is not None or \
                g.startswith('ctor:') and g[5:] in SEQ and avs and d is not None and \
                inttype(d.params[0].type()) is not None:
            if not self.bounded(self.valof(st, avs[0])):
                self.note('asks for as much memory as the input says', fr, n)
        if g in ('std::min',) and len(avs) == 2:
            a, b = [self.strip(self.valof(st, x)) for x in avs]
            if (a[0] == 'c') != (b[0] == 'c'):
                return [(st, app('min', a, b))]
        if recv is not None and cls in SEQ[1:3] and nm == 'operator[]':
            i = self.strip(self.valof(st, avs[0]))
            it = self.items(self.load(st, recv))
            if it is not None and i == C(len(it)):
                l = self.sub(recv, ('[]', i))
                self.nul.add((l[1], l[2]))
        return super().model(st, fr, g, d, n, recv, avs)


def runs(rep, ip, f, what, st=None, args=None, allowed=SX):
    """The paths that return; what is noted on the way is reported."""
    out = []
    k = 0
    try:
        rs = ip.run(f, st=st) if args is None else ip.run(f, args=args)
    except Outside:
        k, rs = 1, []
    except Budget as e:
        if 'does not end' not in str(e):
            raise
        rep.check(False, where(f), '%s: %s' % (what, e), 'loops end')
        return out
    for s, x in rs:
        k += 1
        if isinstance(x, Throw):
            rep.check(x.tag in allowed, where(f), '%s: %s escapes' % (what, x.tag),
                      'only %s' % allowed)
        else:
            out.append((s, x))
    for l, o in ip.odd:
        rep.check(False, l or where(f), '%s: %s' % (what, o), 'no access outside')
    rep.check(True, where(f), '', 'no access outside of the input')
    rep.need(k, 1, 'paths of %s' % what)
    rep.analysed(ip)
    return out


def bytes_(ip, n, c='b'):
    st = State()
    b = [chars('%s%d' % (c, i)) for i in range(n)]
    st.env[('h', 'arg:d')] = ip.seqval(b)
    return st, b


def ints(rep, P, f, fixed):
    w, sg = inttype(ret(f))
    need = w // 8 if fixed else (w + 6) // 7
    for n in range(0, need + 3 if not fixed else need + 2):
        ip = Read(P)
        st, b = bytes_(ip, n)
        what = '%s in the %s format from %d arbitrary bytes' % (
            ret(f).s, 'fixed' if fixed else 'compact', n)
        ok = runs(rep, ip, f, what, st)
        if fixed:
            rep.check(bool(ok) == (n >= need), where(f), '%s: %s' % (
                what, 'accepted' if ok else 'rejected'), 'too short is rejected')
        for s, x in ok:
            got = set(ip.final(s, x, w))
            for i in range(n):
                bs = [ip.known(s, y) for y in ip.pat(b[i], 8, False)]
                lost = [y for y in (bs if fixed and i < need else bs[:7] if not fixed else ())
                        if y != ZERO and y not in got]
                rep.check(not lost, where(f), '%s: bit %s of byte %d is lost without notice' % (
                    what, lost and lost[0][3][1] if lost and lost[0][0] == 'app' else '', i),
                    'no bits are lost')
                if not fixed and bs[7] == ZERO:
                    break
            else:
                rep.check(fixed, where(f), '%s: accepted without a last byte' % what,
                          'an end is required')


def ret(f):
    return f.tu.type(f.get('ret'))


def parts(rep, P, fns, tier):
    deep_ = tier == 'thorough'
    lens = {'basic_string': range(0, 5), 'pair': range(0, 7), 'unordered_map': range(0, 6 if deep_ else 5),
            'Random': list(range(30, 38 if deep_ else 36)), 'Reproduce': list(range(34, 40 if deep_ else 39))}
    jobs = []
    for f in [f for f in fns if f.n == 'readAny']:
        t = ret(f).strip()
        k = t.rec.g.rsplit('::', 1)[-1]
        if k not in lens:
            raise AnalysisBroken('readAny of %s' % k)
        jobs += [(f, k, n) for n in lens.pop(k)]
    if lens:
        raise AnalysisBroken('not read: %s' % list(lens))
    f = [f for f in fns if f.n == 'readRange'][0]
    jobs += [(f, 'range', n) for n in range(0, 5)]
    parallel(rep, jobs, lambda r, j: part(r, P, *j))


def part(rep, P, f, k, n):
    ip = Read(P)
    R = ip.state = members(P, 'rc::Random')
    st, b = bytes_(ip, n)
    what = 'a %s from %d arbitrary bytes' % (k, n)
    ok = runs(rep, ip, f, what, st)
    if k == 'basic_string':
        for s, x in ok:
            it = ip.items(norm(deep(s, x)))
            if it is None:
                raise AnalysisBroken('the string read is not understood: %s' % show(x)[:200])
            bs = [ip.known(s, y) for y in ip.pat(b[0], 8, False)]
            if bs[7] == ZERO:       # a length of one byte
                odd = {y for y in alive(ip, s, b[0]) if y != len(it)}
                rep.check(not odd, where(f), '%s: %d characters are accepted for %s' % (
                    what, len(it), sorted(odd)[:3]), 'strings that are cut short are reported')
    if k == 'Random':
        most = limit(P)
        for s, x in ok:
            v = ip.proj(norm(deep(s, x)), R['m_bitsi'])
            # as many bits as there are in a block of bits
            t = Table.of(norm(v), 8, False)
            if t is None:
                bs = ip.pat(v, 8, False)
                t = Table.of(mk(bs), 8, False)
            live = s.dom.get(('live', app('in', *t.ins))) if t else None
            big = [t.vals[i] for i in (live if live is not None else range(len(t.vals)))] if t else [999]
            rep.check(max(big) <= most, where(f), '%s: a generator with %d bits read of %d' % (
                what, max(big), most), 'states of generators are possible')


def limit(P):
    """The number of bits a generator keeps."""
    for d in P.decls('Var'):
        if d.q == 'rc::Random::kBits':
            return 64
    return 64


def strings(rep, P, fns, tier):
    byname = {f.n: f for f in fns}
    # Base64: what is accepted is what base64Encode writes
    alpha = set()
    ip = Ser(P)
    st = State()
    st.env[('h', 'arg:d')] = ip.seqval([chars('b')])
    for s, x in ip.run(byname['base64Text'], st=st):
        t = Table.of(ip.strip(ip.items(deep(s, x))[0]), 8, True)
        if t is None:
            raise AnalysisBroken('the alphabet of Base64 is not understood')
        alpha |= {y & 255 for y in t.vals}
    rep.need(len(alpha), 64, 'characters of Base64')
    f = byname['base64Read']
    for n in range(0, 6):
        ip = Read(P)
        st = State()
        cs = [chars('c%d' % i) for i in range(n)]
        st.env[('h', 'arg:s')] = ip.seqval(cs)
        what = 'Base64 of %d arbitrary characters' % n
        ok = runs(rep, ip, f, what, st, allowed=PX)
        rep.check(not ok or n % 4 != 1, where(f), '%s: accepted though a character is left over' % what,
                  'left over characters are reported')
        for s, x in ok:
            for c in cs:
                odd = alive(ip, s, c) - alpha
                rep.check(not odd, where(f), '%s: %s is accepted' % (what, ', '.join(
                    '\\x%02x' % y for y in sorted(odd)[:4])), 'other characters are reported')
    jobs = [('', n) for n in range(0, 7 if tier == 'thorough' else 5)]
    jobs += [(a, n) for a in ("'", '"', "b='", 'b="') for n in range(0, 4)]
    parallel(rep, jobs, lambda r, j: parsing(r, P, byname['parse'], *j))


def told(ip, s, cs):
    return ', '.join(''.join(chr(y) if 32 < y < 127 else '\\x%02x' % y for y in sorted(
        alive(ip, s, c), key=lambda y: (not 32 < y < 127, y))[:3]) + '...' for c in cs)


MARKS = {ord(x) for x in ' \t\n\v\f\r=\\\'"'}


def parsing(rep, P, f, start, n):
    ip = Read(P)
    st = State()
    cs = [chars('c%d' % i) for i in range(n)]
    st.env[('h', 'arg:s')] = ip.seqval([C(ord(c)) for c in start] + cs)
    what = 'a map from %s%d arbitrary characters' % (start and start + ' and ', n)
    for s, x in runs(rep, ip, f, what, st, allowed=PX):
        it = ip.items(deep(s, x))
        if it is None:
            raise AnalysisBroken('the parsed map is not understood: %s' % show(x)[:200])
        if start:
            rep.check(any(ord(start[-1]) in alive(ip, s, c) for c in cs), where(f),
                      '%s: a quote that is not closed is accepted (%s)' % (what, told(ip, s, cs)),
                      'open quotes are reported')
        kept = set()
        for p in it:
            for z in (ip.FIRST, ip.SECOND):
                kept |= {norm(y) for y in ip.items(norm(ip.proj(p, z))) or ()}
        # (of entries with the same key the last one counts)
        twice = any(k[0] == 'app' and v is True and k[1] == '==' for k, v in s.facts.items())
        for i, c in enumerate(cs):
            a = alive(ip, s, c)
            if a & MARKS or twice:
                continue
            rep.check(c in kept, where(f), '%s: character %d is ignored without notice (%s)' % (
                what, i + 1, told(ip, s, cs)[:200]), 'nothing is ignored')


class Conf2(Conf):
    """Any text of a configuration: each value may be a number or not, with
    something after it or not."""
    KEYS = True

    def fork(self, st, *rs):
        return [(st.fork(), r) for r in rs]

    def model(self, st, fr, g, d, n, recv, avs):
        nm = g.rsplit('::', 1)[-1]
        if g == 'rc::detail::parseMap':
            return self.fork(st, ('sym', 'map'), Throw(PX, ZERO))
        if g == 'rc::detail::stringToReproduceMap':
            return self.fork(st, app('reproduction', norm(self.valof(st, avs[0]))), Throw(PX, ZERO))
        if g == 'std::map::find' and recv is not None:
            k = self.items(self.valof(st, avs[0]))
            if k is not None and all(x[0] == 'c' for x in k):
                name = ''.join(chr(x[1]) for x in k)
                h = ('L', ('h', 'entry:' + name), ())
                st.env[h[1]] = self.seqval([self.pairval(self.seqval(k), app('any', C(name)))])
                return [(st, app('iter', ('&', h), ZERO) if self.KEYS else app('iter', ('&', recv), ONE))]
        if recv is None and g in ('std::end', 'std::cend') or g == 'std::map::end':
            l = recv if recv is not None else avs[0][1][1] if avs[0][0] == 'l' else None
            if l is not None and norm(self.load(st, l)) == ('sym', 'map'):
                return [(st, app('iter', ('&', l), ONE))]
        if nm == 'operator>>' and len(avs) in (1, 2):
            l = recv if recv is not None else avs[0][1][1]
            v = self.strip(self.load(st, l))
            if v[0] == 'app' and v[1] in ('reader', 'after', 'failed'):
                t = avs[-1][1][1] if avs[-1][0] == 'l' else None
                w = inttype(d.params[-1].type()) if t is not None and d is not None else None
                if w is None:       # a manipulator
                    return [(st, ('&', l))]
                out = []
                if v[1] == 'reader':
                    s = st.fork()
                    x = app('number', v[2])
                    self.store(s, t, x if w[0] == 1 else mk(self.pat(x, *w), w[1]))
                    self.store(s, l, app('after', v[2]))
                    out.append((s, ('&', l)))
                s = st.fork()
                self.store(s, t, ZERO)
                self.store(s, l, app('failed', v[2]))
                return out + [(s, ('&', l))]
        if g == 'std::char_traits::eof':
            return [(st, C(-1))]
        if recv is not None and nm in ('fail', 'operator!', 'good', 'operator bool', 'eof', 'peek', 'get'):
            v = self.strip(self.load(st, recv))
            if v[0] == 'app' and v[1] in ('reader', 'after', 'failed'):
                if nm in ('fail', 'operator!', 'operator bool'):
                    return [(st, C(int((v[1] == 'failed') == (nm != 'operator bool'))))]
                out = []
                for end in (True, False):
                    s = st.fork()
                    if v[1] != 'after' or self.assume(s, app('ends', v[2]), end):
                        out.append((s, C(int(end == (nm != 'good'))) if nm in ('eof', 'good') else
                                    C(-1) if end else C(120)))
                return out
        return super().model(st, fr, g, d, n, recv, avs)


class Rep2(Ser):
    """Decoding and reading may fail."""

    def model(self, st, fr, g, d, n, recv, avs):
        if g == 'rc::detail::base64Decode':
            return [(st.fork(), ('sym', 'data')), (st.fork(), Throw(PX, ZERO))]
        if g in ('rc::detail::deserialize', 'rc::deserialize', 'rc::detail::deserializeMap') and len(avs) == 3:
            s = st.fork()
            self.store(s, avs[2][1][1], ('sym', 'entries'))
            return [(s, ('sym', 'at')), (st.fork(), Throw(SX, ZERO))]
        return super().model(st, fr, g, d, n, recv, avs)


class Start(Ser):
    """The configuration string may be there or not, and be right or not."""

    def model(self, st, fr, g, d, n, recv, avs):
        if g == 'rc::detail::getEnvValue':
            return [(st, ('sym', 'params'))]
        if g == 'rc::detail::configFromString':
            return [(st.fork(), ('sym', 'given')), (st.fork(), Throw(CX, ZERO))]
        if g == 'rc::detail::configToMinimalString':
            return [(st, ('sym', 'text'))]
        if g in ('std::exit', 'exit', 'std::abort', 'abort', 'std::_Exit', 'std::quick_exit'):
            return [(st, Throw('exit', self.strip(self.valof(st, avs[0])) if avs else ONE))]
        return super().model(st, fr, g, d, n, recv, avs)


def start(rep, P):
    fs = [f for f in P.functions if f.n == 'loadConfiguration' and f.body is not None]
    rep.need(len(fs), 1, 'functions that read RC_PARAMS')
    f = fs[0]
    ip = Start(P)
    ways = set()
    for s, x in ip.run(f):
        if not isinstance(x, Throw):
            x = norm(deep(s, x))
            ways.add('given' if x == ('sym', 'given') else 'default')
            continue
        ways.add('exit' if x.tag == 'exit' else 'throw')
        if x.tag == 'exit':
            rep.check(x.val[0] != 'c' or x.val[1] not in (0, False), f.loc,
                      'after a configuration string that cannot be read the program succeeds',
                      'an error ends the program with failure')
        else:
            rep.check(False, f.loc, 'RC_PARAMS that cannot be read: %s escapes' % x.tag, 'nothing escapes')
    rep.check('exit' in ways or 'throw' in ways, f.loc, 'a configuration string that cannot be read is not '
              'reported', 'errors are reported')
    rep.check({'given', 'default'} <= ways, f.loc, 'a configuration string is not used', 'RC_PARAMS is used')
    rep.analysed(ip)


def configurations(rep, P, fns):
    start(rep, P)
    byname = {f.n: f for f in fns}
    f = byname['readReproduction']
    ip = Rep2(P)
    k = 0
    for s, x in ip.run(f):
        k += 1
        rep.check(not isinstance(x, Throw) or x.tag == PX, where(f), 'reproduction data that cannot be '
                  'read: %s escapes' % getattr(x, 'tag', ''), 'only ' + PX)
    rep.need(k, 3, 'paths of reading reproduction data')
    rep.analysed(ip)
    f = byname['readConfig']
    recs = {q: Bits(P).rec_by_name(q) for q in ('rc::detail::Configuration', 'rc::detail::TestParams')}
    k = 0
    for keys in (True, False):
        ip = Conf2(P)
        ip.KEYS = keys
        st = State()
        c, leaves = c22.any_of(ip, recs, recs['rc::detail::Configuration'], 'default')
        st.env[('h', 'arg:d')] = c
        st.env[('h', 'arg:s')] = ('sym', 'text')
        for s, x in ip.run(f, st=st):
            k += 1
            if isinstance(x, Throw):
                rep.check(x.tag == CX, where(f), 'a configuration that cannot be read: %s escapes' % x.tag,
                          'only ' + CX)
                continue
            x = norm(deep(s, x))
            for p, name, w in leaves:
                v = norm(get(ip, x, p))
                name = name.split('.', 1)[1]
                if not keys:
                    rep.check(v == norm(get(ip, c, p)), where(f), 'a configuration without %s: it is %s' % (
                        name, show(v)[:80]), 'what is not given stays as it is')
                    continue
                if w is None:
                    rep.check(v[:2] == ('app', 'reproduction'), where(f), '%s is %s' % (name, show(v)[:80]),
                              'what is given is used')
                    continue
                bs = ip.final(s, v, *w)
                src = {y[2][2] if y[2][:2] == ('app', 'wide') else y[2] for y in bs
                       if y[:2] == ('app', 'bit')}
                src = next(iter(src)) if len(src) == 1 else v
                if src[:2] != ('app', 'number'):
                    rep.check(False, where(f), '%s is %s' % (name, show(v)[:80]), 'what is given is used')
                    continue
                rep.check(s.facts.get(app('ends', src[2])) is True, where(f),
                          'a configuration: a number with something after it is accepted for %s' % name,
                          'numbers are read to their end')
                if w[1]:
                    top = bs[-1]
                    neg = top != ZERO and not any(
                        y is True and z == app('<=', ZERO, v) or y is False and z == app('<', v, ZERO)
                        for z, y in s.facts.items())
                    rep.check(not neg, where(f), 'a configuration: a negative number is accepted for %s' % name,
                              'counts are not negative')
        rep.analysed(ip)
    rep.need(k, 3, 'paths of reading a configuration')


def run(rep, tier):
    P = M.Program(['probe/p_serial', 'src/'])
    bad = {k: v for k, v in P.diags.items() if 'p_serial' in k}
    if bad:
        raise AnalysisBroken('probe does not compile: %s' % list(bad.values())[0][:1])
    PROG[:] = [P]
    fns = [f for f in P.functions if f.q.startswith('psr::') and f.body is not None and f.inprobe]
    fs = [(f, f.n == 'readFixed') for f in fns if f.n in ('readFixed', 'readCompact')]
    rep.need(len(fs), 22, 'readers of integers')
    parallel(rep, fs, lambda r, j: ints(r, P, *j))
    parts(rep, P, fns, tier)
    strings(rep, P, fns, tier)
    configurations(rep, P, fns)
