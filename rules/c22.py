"""C22: what is written down can be read back."""
from bits import *

TITLE = 'What the library writes down it reads back unchanged'
WORD = {'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False)}


def targ(f):
    ta = f.get('targs') or []
    return [f.tu.type(t['type']).s if isinstance(t, dict) and 'type' in t else t for t in ta]


def fields(P, r):
    return {d.n: d.key for d in (r.tu.decl(i) for i in r.get('fields'))}


SX = 'rc::detail::SerializationException'


class Ser(Bits):
    OPAQUE = Bits.OPAQUE + ('rc::Random::mash',)

    def model(self, st, fr, g, d, n, recv, avs):
        if g == 'psx::ofToken':
            v = self.strip(self.valof(st, avs[0]))
            return [(st, v[2] if v[:2] == ('app', 'psx::tokenOf') else app('ofToken', v))]
        if g == 'psx::tokenOf':
            return [(st, app('psx::tokenOf', norm(self.valof(st, avs[0]))))]
        if g == 'rc::Random::mash' and avs[0][0] == 'l':
            f = {k.rsplit('::', 1)[-1]: self.load(st, self.sub(recv, k)) for k in self.state}
            key = self.load(st, self.sub(recv, self.state['m_key']))
            self.store(st, avs[0][1][1], app('mashed', norm(key), *[norm(self.load(st, self.sub(
                recv, self.state[k]))) for k in ('m_bits', 'm_counter')]))
            return [(st, UNIT)]
        return super().model(st, fr, g, d, n, recv, avs)

    def e_IntegerLiteral(self, st, fr, n):
        return [(st, C(int(n['v'])))]


class Tok(Ser):
    """Integers (and parts that are judged on their own) are written as one
    piece, which is only understood by the function that reads such pieces."""
    PARTS = ()

    def kind(self, g, t):
        w = inttype(t)
        t = t.strip()
        if w is not None:
            return '%s %d' % (g.rsplit('::', 1)[-1].replace('de', ''), w[0])
        if t.k == 'rec' and t.rec.g in self.PARTS and not g.endswith('Compact'):
            return t.rec.g
        return None

    def model(self, st, fr, g, d, n, recv, avs):
        if g in ('rc::detail::serialize', 'rc::detail::serializeCompact', 'rc::serialize') and \
                len(avs) == 2 and d is not None:
            k = self.kind(g, d.params[0].type())
            o = self.strip(self.valof(st, avs[1]))
            if k is not None and o[:2] == ('app', 'backins'):
                it = self.items(self.load(st, o[2][1]))
                if it is not None:
                    self.store(st, o[2][1], self.seqval(it + [app('piece', C(k), norm(
                        self.valof(st, avs[0])))]))
                    return [(st, o)]
        if g in ('rc::detail::deserialize', 'rc::detail::deserializeCompact', 'rc::deserialize') and \
                len(avs) == 3 and d is not None and avs[2][0] == 'l':
            k = self.kind(g, d.params[2].type())
            a, b = self.strip(self.valof(st, avs[0])), self.strip(self.valof(st, avs[1]))
            if k is not None and a[:2] == b[:2] == ('app', 'iter') and a[3][0] == b[3][0] == 'c':
                it = self.items(self.load(st, a[2][1]))
                if it is not None:
                    i = a[3][1]
                    if i >= b[3][1] or i >= len(it):
                        return [(st, Throw(SX, ZERO))]
                    if it[i][:2] == ('app', 'piece'):
                        v = it[i][3] if it[i][2] == C(k) else app('misread', it[i])
                        self.store(st, avs[2][1][1], v)
                        return [(st, app('iter', a[2], C(i + 1)))]
        return super().model(st, fr, g, d, n, recv, avs)


def members(P, q):
    r = Bits(P).rec_by_name(q)
    if r is None:
        raise AnalysisBroken('%s not found' % q)
    return {d.n: d.key for d in (r.tu.decl(i) for i in r.get('fields'))}


def where(f):
    """Where the function of the library is that a probe calls first."""
    if f.inprobe and f.id not in AT:
        AT[f.id] = f.loc
        for n in M.walk(f.body):
            if n['k'] == 'DeclRefExpr':
                d = f.tu.decl(n['d'])
                if d.k == 'Function' and d.g.startswith('rc::'):
                    AT[f.id] = PROG[0].resolve(d).loc
                    break
    return AT.get(f.id, f.loc)


AT, PROG = {}, []


def outcome(rep, ip, f, name, s, v):
    """Fields of the Back<T> returned, or None."""
    if isinstance(v, Throw):
        rep.check(False, where(f), 'reading back what was written for %s throws %s' % (name, v.tag),
                  '%s: nothing is thrown' % name)
        return None
    r = {}
    for x in ('value', 'bytes', 'at'):
        ks = [k for k, _ in v[2] if k.rsplit('::', 1)[-1] == x] if v[0] == 'S' else []
        if not ks:
            raise AnalysisBroken('the result of %s is not understood: %s' % (f.q, show(v)[:100]))
        r[x] = ip.proj(v, ks[0])
    n = ip.items(r['bytes'])
    at = ip.strip(r['at'])
    if n is None:
        raise AnalysisBroken('what is written for %s is not understood: %s' % (
            name, show(r['bytes'])[:200]))
    r['n'] = n
    r['read'] = at[3][1] if at[:2] == ('app', 'iter') and at[3][0] == 'c' else None
    return r


def consumed(rep, f, name, r, more):
    rep.check(r['read'] == len(r['n']) - more, where(f), '%s: %d bytes are written and %s are read' % (
        name, len(r['n']) - more, r['read']), '%s: reads exactly what was written' % name)


def integers(rep, P, fns):
    n = 0
    for name in ('fixed', 'compact'):
        fs = [f for f in fns if f.n == name]
        rep.need(len(fs), 11, 'integer types')
        for f in fs:
            t = f.params[0].type()
            w, sg = inttype(t)
            ip = Ser(P)
            v = ('sym', 'v')
            k = 0
            for s, x in ip.run(f, args=[('v', v)]):
                what = '%s in the %s format' % (t.s, name)
                r = outcome(rep, ip, f, what, s, x)
                k += 1
                if r is None:
                    continue
                want = ip.final(s, v, w)
                got = ip.final(s, r['value'], w)
                bad = [i for i in range(w) if want[i] != got[i]]
                rep.check(not bad, where(f), '%s: bit %s of what is read back is %s' % (
                    what, bad and bad[0], bad and show(got[bad[0]])[:80]),
                    '%s: all bits come back' % what)
                consumed(rep, f, what, r, 0)
                for i, b in enumerate(r['n']):
                    rep.check(len(ip.pat(b, 8, False) or ()) == 8 and all(
                        x[0] == 'c' or x[:2] == ('app', 'bit') for x in ip.pat(b, 8, False)), where(f),
                        '%s: byte %d is %s' % (what, i, show(b)[:80]), 'bytes are understood')
            rep.need(k, 1, 'paths of %s' % name)
            n += k
            rep.analysed(ip)
    return n


def sameval(ip, s, a, b):
    a, b = norm(deep(s, a)), norm(deep(s, b))
    if a == b:
        return True
    if a[0] == 'S' and b[0] == 'S' and {k for k, _ in a[2]} == {k for k, _ in b[2]} == {
            ip.FIRST, ip.SECOND}:
        return all(sameval(ip, s, ip.proj(a, k), ip.proj(b, k)) for k in (ip.FIRST, ip.SECOND))
    x, y = ip.items(a), ip.items(b)
    if x is not None and y is not None:
        return len(x) == len(y) and all(sameval(ip, s, p, q) for p, q in zip(x, y))
    w = 64 if not isbits(a) and not isbits(b) else max(len(z) - 2 for z in (a, b) if isbits(z))
    p, q = ip.final(s, a, w), ip.final(s, b, w)
    return bool(p) and p == q


def composites(rep, P, fns):
    byname = {f.n: f for f in fns}
    R, Q = members(P, 'rc::Random'), members(P, 'rc::detail::Reproduce')
    ip0 = Tok(P)
    A = [('sym', 'a%d' % i) for i in range(3)]
    seq = ip0.seqval
    chars = [('sym', 'c%d' % i) for i in range(3)]
    key = [seq([C(97)]), seq([C(98)])]
    jobs = []
    for n in range(4):
        jobs.append(('text', 'a string of %d characters' % n, seq(chars[:n])))
        jobs.append(('several', '%d elements' % n, seq(A[:n])))
        jobs.append(('range', 'a range of %d numbers' % n, seq(A[:n])))
    for n in range(3):
        jobs.append(('map', 'a map of %d entries' % n, seq([
            ip0.pairval(key[i], A[i]) for i in range(n)])))
    jobs.append(('pair', 'a pair', ip0.pairval(A[0], A[1])))
    for n in range(3):
        jobs.append(('reproduce', 'reproduction data with a shrink path of %d' % n, (
            'S', ('sym', 'v'), ((Q['shrinkPath'], seq(A[:n])),))))
    for name, what, v in jobs:
        f = byname[name]
        ip = Tok(P)
        ip.PARTS = ('rc::Random',) if name == 'reproduce' else ()
        ip.state = R
        st = State()
        st.env[('h', 'arg:v')] = v
        k = 0
        for s, x in ip.run(f, st=st):
            k += 1
            r = outcome(rep, ip, f, what, s, x)
            if r is None:
                continue
            consumed(rep, f, what, r, 1)
            if name == 'reproduce':
                for m, fk in sorted(Q.items()):
                    a, b = ip.proj(v, fk), ip.proj(r['value'], fk)
                    rep.check(sameval(ip, s, a, b), where(f), '%s: %s comes back as %s' % (
                        what, m, show(b)[:120]), '%s: %s comes back' % (what, m))
                continue
            rep.check(sameval(ip, s, v, r['value']), where(f), '%s comes back as %s' % (
                what, show(r['value'])[:160]), '%s comes back' % what)
        rep.need(k, 1, 'paths for %s' % what)
        rep.analysed(ip)


def value(t, env):
    """The number an arithmetic term is."""
    t = norm(t)
    if t in env:
        return env[t]
    if t[0] == 'c':
        return int(t[1])
    if isbits(t):
        src = {b[2] for b in t[2:] if b[0] != 'c'}
        x = value(next(iter(src))[2], env) if len(src) == 1 else None
        if x is None:
            raise KeyError(t)
        return sum((b[1] if b[0] == 'c' else x >> b[3][1] & 1) << i for i, b in enumerate(t[2:]))
    if t[:2] == ('app', 'tbl') and all(wide(b) for b in t[2][2:]):
        return int(t[3 + sum((value(b[2][2], env) >> b[3][1] & 1) << j
                             for j, b in enumerate(t[2][2:]))][1])
    if t[0] != 'app' or len(t) not in (3, 4):
        raise KeyError(t)
    if t[1] == '!':
        return int(not value(t[2], env))
    a, b = value(t[2], env), value(t[3], env)
    f = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a // b,
         '%': lambda: a % b, '<': lambda: a < b, '==': lambda: a == b, '<=': lambda: a <= b}
    if t[1] not in f:
        raise KeyError(t)
    return int(f[t[1]]()) & (1 << 64) - 1


def happens(s, env):
    """Can the path be taken with these values?"""
    for k, x in s.facts.items():
        if isinstance(x, bool):
            try:
                if bool(value(k, env)) != x:
                    return False
            except KeyError:
                pass
    # (what is decided by a few bits)
    for k, live in s.dom.items():
        if isinstance(k, tuple) and k[0] == 'live':
            try:
                i = sum((value(b[2][2], env) >> b[3][1] & 1) << j for j, b in enumerate(k[1][2:])
                        if wide(b))
            except KeyError:
                continue
            if all(wide(b) for b in k[1][2:]) and i not in live:
                return False
    return True


def wide(b):
    return b[:2] == ('app', 'bit') and b[2][:2] == ('app', 'wide')


def chars(name):
    return app('bits', *[bit(('sym', name), i) for i in range(8)])


def alive(ip, s, c):
    """The values a character can have on a path."""
    want = frozenset(ip.pat(c, 8, True))
    out = set(range(256))
    for k, live in s.dom.items():
        if isinstance(k, tuple) and k[0] == 'live' and set(k[1][2:]) <= want:
            pos = [b[3][1] for b in k[1][2:]]
            ok = {tuple(x >> j & 1 for j in range(len(pos))) for x in live}
            out = {y for y in out if tuple(y >> p & 1 for p in pos) in ok}
    z = s.dom.get('zero', {})
    for b in want:
        if b in z:
            out = {y for y in out if (y >> b[3][1] & 1) == z[b]}
    return out


def generators(rep, P, fns):
    byname = {f.n: f for f in fns}
    f = byname['random']
    R = members(P, 'rc::Random')
    used = chars('m_bitsi')
    v = ('S', ('sym', 'v'), ((R['m_bitsi'], used),))
    ip = Tok(P)
    ip.state = R
    key, count = ip.proj(v, R['m_key']), norm(ip.proj(v, R['m_counter']))
    for x in R:
        if x not in ('m_key', 'm_block', 'm_bits', 'm_counter', 'm_bitsi'):
            raise AnalysisBroken('Random has another member: %s' % x)
    st = State()
    st.env[('h', 'arg:v')] = v
    k, seen = 0, set()
    for s, x in ip.run(f, st=st):
        if isinstance(x, Throw) and min(alive(ip, s, used)) > 64:
            continue        # (no generator has used more bits than there are)
        r = outcome(rep, ip, f, 'a generator', s, x)
        if r is None:
            continue
        k += 1
        consumed(rep, f, 'a generator', r, 1)
        got = {m: ip.proj(r['value'], fk) for m, fk in R.items()}
        for m in ('m_bits', 'm_counter', 'm_bitsi'):
            rep.check(sameval(ip, s, ip.proj(v, R[m]), got[m]), where(f), 'of a generator %s comes '
                      'back as %s' % (m, show(got[m])[:120]), 'a generator: %s comes back' % m)
        ks = [ip.proj(got['m_key'], ('[]', C(i))) for i in range(4)]
        rep.check(got['m_key'] == key or all(sameval(ip, s, ip.proj(key, ('[]', C(i))), ks[i])
                                             for i in range(4)), where(f),
                  'of a generator the key comes back as %s' % show(got['m_key'])[:160],
                  'a generator: the key comes back')
        b = norm(got['m_block'])
        for c in range(0, 14):
            if not happens(s, {count: c}):
                continue
            seen.add(c)
            if c == 0:
                rep.check(b[:2] != ('app', 'mashed') or value(b[4], {count: 0}) == 0, where(f),
                          'the block of a fresh generator comes back as %s' % show(b)[:120],
                          'a generator: no block before the first number')
                continue
            ok = b[:2] == ('app', 'mashed') and len(b) == 5
            at = value(b[4], {count: c}) if ok else None
            rep.check(ok and at == (c - 1) // 4 * 4, where(f), 'after %d numbers the block of a generator '
                      'comes back as %s' % (c, 'that of number %s' % at if ok else show(b)[:120]),
                      'a generator: the block of the last number comes back')
            if ok:
                rep.check(sameval(ip, s, ip.proj(v, R['m_bits']), b[3]) and (norm(b[2]) == norm(key) or all(
                    sameval(ip, s, ip.proj(key, ('[]', C(i))), ip.proj(b[2], ('[]', C(i))))
                    for i in range(4))), where(f), 'the block of a generator comes back as %s' %
                    show(b)[:160], 'a generator: the block comes from its key and bits')
    rep.need(k, 2, 'paths of reading a generator')
    rep.check(seen == set(range(14)), where(f), 'generators with some counters cannot be read back',
              'a generator: any counter')
    rep.analysed(ip)
    # the block is the one made when a number that is a multiple of four is asked for
    f = [f for f in P.functions if f.q == 'rc::Random::next' and f.body is not None]
    if not f:
        raise AnalysisBroken('Random::next not found')
    f = f[0]
    ip = Ser(P)
    ip.state = R
    st = State()
    st.env[('h', 'arg:r')] = v
    n = 0
    for s, x in ip.run(f, this=('L', ('h', 'arg:r'), ()), st=st):
        if isinstance(x, Throw):
            continue
        b = norm(ip.proj(s.env[('h', 'arg:r')], R['m_block']))
        for c in range(9):
            if happens(s, {count: c}):
                n += 1
                made = b[:2] == ('app', 'mashed')
                rep.check(made == (c % 4 == 0) and (not made or value(b[4], {count: c}) == c),
                          where(f), 'number %d of a generator is taken from a block that is not read back '
                          'that way' % c, 'blocks are made for every fourth number')
    rep.need(n, 9, 'numbers of generators')
    rep.analysed(ip)


def base64(rep, P, fns):
    byname = {f.n: f for f in fns}
    f = byname['base64']
    for n in range(0, 8):
        ip = Ser(P)
        st = State()
        v = [('sym', 'b%d' % i) for i in range(n)]
        st.env[('h', 'arg:d')] = ip.seqval(v)
        k = 0
        for s, x in ip.run(f, st=st):
            k += 1
            if isinstance(x, Throw):
                rep.check(False, where(f), '%d bytes encoded in Base64 are rejected with %s' % (n, x.tag),
                          'Base64 is decoded')
                continue
            it = ip.items(deep(s, x))
            if it is None:
                raise AnalysisBroken('decoded Base64 is not understood: %s' % show(x)[:200])
            rep.check(len(it) == n, where(f), '%d bytes encoded in Base64 come back as %d' % (n, len(it)),
                      'Base64: all bytes come back')
            for i, (a, b) in enumerate(zip(v, it)):
                rep.check(ip.final(s, a, 8) == ip.final(s, b, 8), where(f),
                          'of %d bytes in Base64 byte %d comes back as %s' % (n, i, show(b)[:120]),
                          'Base64: bytes come back unchanged')
        rep.need(k, 1, 'paths of Base64')
        rep.analysed(ip)


def parser(rep, P, fns, tier):
    byname = {f.n: f for f in fns}
    full = [((1,), (0,)), ((1,), (1,)), ((1,), (2,)), ((2,), (0,)), ((2,), (1,)), ((1, 'zz'), (1, '')),
            (('a a', 2), ('"=', 0))]
    if tier == 'thorough':
        full += [((3,), (0,)), ((1,), (3,)), ((2,), (2,)), ((1, 'zz'), (1, 1)),
                 (('x y', 1), ('\\', 1))]
    jobs = [(name, a, b) for name in ('parsed', 'parsedDouble', 'parsedSingle') for a, b in full]
    parallel(rep, jobs, lambda r, j: parse1(r, P, byname[j[0]], j[1], j[2]))


def parse1(rep, P, f, keys, vals):
    """A map with keys and values of these lengths is written and parsed."""
    ip = Ser(P)
    m = []

    def text(c, i, x):
        return ip.seqval([C(ord(y)) for y in x] if isinstance(x, str) else
                         [('sym', '%s%d%d' % (c, i, j)) for j in range(x)])
    for i, (a, b) in enumerate(zip(keys, vals)):
        m.append(ip.pairval(text('k', i, a), text('v', i, b)))
    st = State()
    st.env[('h', 'arg:m')] = ip.seqval(m)
    k = 0
    what = 'a map with keys of %s and values of %s characters' % (
        ' and '.join(map(str, keys)), ' and '.join(map(str, vals)))
    for s, x in ip.run(f, st=st):
        k += 1
        if isinstance(x, Throw):
            rep.check(False, where(f), '%s: what was written is rejected with %s%s' % (
                what, x.tag, classes(s, keys, vals)), 'maps: parsed')
            continue
        got = ip.items(deep(s, x))
        if got is None:
            raise AnalysisBroken('the parsed map is not understood: %s' % show(x)[:200])
        ok = len(got) == len(m)
        for p, q in zip(m, got):
            for z in (ip.FIRST, ip.SECOND):
                a, b = ip.items(ip.proj(p, z)), ip.items(norm(ip.proj(q, z)))
                ok = ok and b is not None and len(a) == len(b) and all(
                    ip.final(s, c, 8) == ip.final(s, e, 8) for c, e in zip(a, b))
        rep.check(ok, where(f), '%s comes back as %s%s' % (what, show(x)[:120], classes(s, keys, vals)),
                  'maps: come back')
    rep.need(k, 1, 'paths of %s' % what)
    rep.analysed(ip)


def classes(s, keys, vals):
    """Which characters a path is about."""
    out = []
    for k, live in s.dom.items():
        if isinstance(k, tuple) and k[0] == 'live':
            bs = k[1][2:]
            if len(bs) == 8 and bs[0][2][2][0] == 'sym':
                order = sorted(range(8), key=lambda i: bs[i][3][1])
                cs = sorted(sum((x >> i & 1) << bs[i][3][1] for i in range(8)) for x in live)
                out.append('%s is one of %s' % (bs[0][2][2][1], ''.join(
                    chr(c) if 32 < c < 127 else '\\x%02x' % c for c in cs[:4]) + (
                        '...' if len(cs) > 4 else '')))
    return ' (%s)' % ', '.join(sorted(out)) if out else ''


def run(rep, tier):
    P = M.Program(['probe/p_serial', 'src/'])
    PROG[:] = [P]
    bad = {k: v for k, v in P.diags.items() if 'p_serial' in k}
    if bad:
        raise AnalysisBroken('probe does not compile: %s' % list(bad.values())[0][:1])
    fns = [f for f in P.functions if f.q.startswith('psr::') and f.body is not None and f.inprobe]
    integers(rep, P, fns)
    composites(rep, P, fns)
    generators(rep, P, fns)
    base64(rep, P, fns)
    parser(rep, P, fns, tier)
    configuration(rep, P, fns)
    reproduction(rep, P, fns)


class Conf(Ser):
    """Texts of numbers, and of maps, are understood by what reads those."""

    def text(self, v):
        """What a string is the text of: (type of value, value)."""
        v = norm(self.strip(v))
        if v[:2] == ('app', 'text'):
            return v[2][1], v[3]
        it = self.items(v)
        if it is not None and all(x[0] == 'c' for x in it):
            s = ''.join(chr(x[1] & 255) for x in it)
            if s.isdigit():
                return 'digits', C(int(s))
        return None

    def compared(self, a, b):
        p, q = self.text(a), self.text(b)
        if p and q:
            a, b = p[1], q[1]
            if a == b:
                return ONE
            if 'map' in (p[0], q[0]):
                return app('==', *sorted((a, b), key=repr)) if p[0] == q[0] else ZERO
            w = 64
            x, y = self.pat(a, w, True), self.pat(b, w, True)
            if any(i[0] == j[0] == 'c' and i != j for i, j in zip(x, y)):
                return ZERO
            if 'c' in (a[0], b[0]):
                k, o = (a, b) if a[0] == 'c' else (b, a)
                return app('==', k, o if isbits(o) else mk(self.pat(o, w, True)))
        return None

    def model(self, st, fr, g, d, n, recv, avs):
        nm = g.rsplit('::', 1)[-1]
        if g == 'std::to_string':
            t = d.params[0].type()
            return [(st, app('text', C(t.s), norm(self.strip(self.valof(st, avs[0])))))]
        if g == 'rc::detail::reproduceMapToString':
            return [(st, app('text', C('map'), norm(self.valof(st, avs[0]))))]
        if g == 'rc::detail::stringToReproduceMap':
            t = self.text(self.valof(st, avs[0]))
            if t and t[0] == 'map':
                return [(st, t[1])]
            return [(st, Throw('rc::detail::ParseException', ZERO))]
        if g == 'rc::detail::mapToString':
            return [(st, app('mapText', norm(deep(st, self.valof(st, avs[0])))))]
        if g == 'rc::detail::parseMap':
            v = self.strip(self.valof(st, avs[0]))
            if v[:2] == ('app', 'mapText'):
                return [(st, v[2])]
        if g in ('std::operator==', 'std::operator!=') and len(avs) == 2:
            r = self.compared(self.valof(st, avs[0]), self.valof(st, avs[1]))
            if r is not None:
                return [(st, r if nm == 'operator==' else self.negate(r))]
        cls = g.rsplit('::', 1)[0]
        if g.startswith('ctor:') and g[5:] in ('std::basic_istringstream', 'std::basic_stringstream') or \
                g.startswith('ctor:') and 'istringstream' in g:
            return [(st, app('reader', norm(self.valof(st, avs[0]))))]
        if nm == 'operator>>' and len(avs) in (1, 2) and avs[-1][0] == 'l':
            l = recv if recv is not None else avs[0][1][1]
            v = self.strip(self.load(st, l))
            if v[:2] == ('app', 'reader'):
                to = inttype(d.params[-1].type())
                t = self.text(v[2])
                x = None
                if t and to and t[0] != 'map':
                    x = self.reads(t, to)
                if x is None:
                    self.store(st, l, app('failed', v[2]))
                else:
                    self.store(st, avs[-1][1][1], x)
                return [(st, ('&', l))]
        if nm == 'operator>>' and len(avs) in (1, 2):       # (a manipulator)
            l = recv if recv is not None else avs[0][1][1]
            if self.strip(self.load(st, l))[:2] in (('app', 'reader'), ('app', 'failed')):
                return [(st, ('&', l))]
        if g == 'std::char_traits::eof':
            return [(st, C(-1))]
        if recv is not None and nm in ('fail', 'operator!', 'good', 'operator bool', 'eof', 'peek', 'get'):
            v = self.strip(self.load(st, recv))
            if v[:2] in (('app', 'reader'), ('app', 'failed')):
                return [(st, C(-1) if nm in ('peek', 'get') else ONE if nm == 'eof' else C(int(
                    (v[1] == 'failed') == (nm in ('fail', 'operator!')))))]
        return super().model(st, fr, g, d, n, recv, avs)

    def negate(self, r):
        return C(1 - r[1]) if r[0] == 'c' else app('!', r)

    def reads(self, t, to):
        """The number a text is read as by an integer of another type."""
        w, sg = to
        if t[0] == 'digits' or t[1][0] == 'c':
            x = int(t[1][1])
            return C(x) if w > 1 and -(1 << w - 1) * sg <= x < 1 << w - sg or w == 1 and x in (0, 1) \
                else None
        frm = INTS.get(t[0])
        if frm == to:
            return t[1]
        bs = self.pat(t[1], *frm)
        if all(b == ZERO for b in bs[w - sg:]):
            return mk(bs[:w], sg)
        return None


def any_of(ip, recs, r, name):
    """A value with all members arbitrary; leaves: [(place, name, kind)]."""
    put, leaves = [], []
    for d in (r.tu.decl(i) for i in r.get('fields')):
        t = d.type().strip()
        x = '%s.%s' % (name, d.n)
        if t.k == 'rec' and t.rec.q in recs:
            v, ls = any_of(ip, recs, t.rec, x)
            put.append((d.key, v))
            leaves += [((d.key,) + p, y, w) for p, y, w in ls]
            continue
        w = inttype(t)
        v = ('sym', x)
        if w is not None:
            bs = ip.pat(v, *w)
            if w[1]:        # (what counts or bounds is not negative)
                bs[-1] = ZERO
            if w[0] > 1:
                v = mk(bs, w[1])
        put.append((d.key, v))
        leaves.append(((d.key,), x, w))
    return ('S', ('sym', name), tuple(put)), leaves


def configuration(rep, P, fns):
    byname = {f.n: f for f in fns}
    ip = Conf(P)
    recs = {q: ip.rec_by_name(q) for q in ('rc::detail::Configuration', 'rc::detail::TestParams')}
    if None in recs.values():
        raise AnalysisBroken('Configuration or TestParams not found')

    for name, what in (('config', 'the configuration string'),
                       ('minimal', 'the shortest configuration string')):
        f = byname[name]
        ip = Conf(P)
        st = State()
        c, leaves = any_of(ip, recs, recs['rc::detail::Configuration'], 'config')
        d, dl = any_of(ip, recs, recs['rc::detail::Configuration'], 'default')
        st.env[('h', 'arg:c')] = c
        if name == 'minimal':       # all defaults, but for the seed
            dv = default(ip, f.params[0].type())
            seed = [p for p, y, _ in dl if y.endswith('.seed')]
            rep.need(len(seed), 1, 'seeds')
            d = put(ip, dv, seed[0], get(ip, d, seed[0]))
        st.env[('h', 'arg:d')] = d
        rep.need(len(leaves), 8, 'members of the configuration')
        k = 0
        for s, x in ip.run(f, st=st):
            k += 1
            if isinstance(x, Throw):
                rep.check(False, where(f), '%s is rejected with %s' % (what, x.tag), 'accepted')
                continue
            x = deep(s, x)
            for p, y, w in leaves:
                a, b = get(ip, c, p), norm(get(ip, x, p))
                if s.facts.get(a) in (True, False):
                    a, b = C(int(s.facts[a])), C(int(s.facts[b])) if b in s.facts else b
                if w is not None:
                    ok = ip.final(s, a, *w) == ip.final(s, b, *w)
                else:
                    ok = norm(a) == b or s.facts.get(app('==', *sorted((norm(a), b), key=repr))) is True
                rep.check(ok, where(f), '%s: %s comes back as %s' % (what, y, show(b)[:100]),
                          '%s: %s comes back' % (what, y))
        rep.need(k, 2 if name == 'minimal' else 1, 'paths of ' + what)
        rep.analysed(ip)


def get(ip, v, p):
    for k in p:
        v = ip.proj(v, k)
    return v


def put(ip, v, p, x):
    if not p:
        return x
    d = dict(v[2]) if v[0] == 'S' else {}
    d[p[0]] = put(ip, ip.proj(v, p[0]), p[1:], x)
    return ('S', v[1] if v[0] == 'S' else v, tuple(sorted(d.items(), key=repr)))


def default(ip, t):
    """A value-initialised object."""
    t = t.strip()
    fs = [g for g in ip.P.functions if g.q == 'psr::fresh' and g.body is not None]
    if len(fs) != 1:
        raise AnalysisBroken('psr::fresh not found')
    r = ip.run(fs[0])
    if len(r) != 1 or isinstance(r[0][1], Throw):
        raise AnalysisBroken('the default configuration is not understood')
    return norm(deep(r[0][0], r[0][1]))


class Enc(Tok):
    """Base64 is judged on its own."""
    PARTS = ('std::unordered_map',)

    def model(self, st, fr, g, d, n, recv, avs):
        if g == 'rc::detail::base64Encode':
            return [(st, app('base64', norm(deep(st, self.valof(st, avs[0])))))]
        if g == 'rc::detail::base64Decode':
            v = self.strip(self.valof(st, avs[0]))
            return [(st, v[2] if v[:2] == ('app', 'base64') else self.seqval([]))]
        return super().model(st, fr, g, d, n, recv, avs)


def reproduction(rep, P, fns):
    byname = {f.n: f for f in fns}
    f = byname['reproduceMap']
    ip = Enc(P)
    m = ('sym', 'm')
    st = State()
    st.env[('h', 'arg:m')] = m
    k = 0
    for s, x in ip.run(f, st=st):
        k += 1
        rep.check(not isinstance(x, Throw) and norm(deep(s, x)) == m, where(f),
                  'reproduction data comes back as %s' % (x.tag if isinstance(x, Throw) else show(x)[:120]),
                  'reproduction data comes back')
    rep.need(k, 1, 'paths of reading reproduction data')
    rep.analysed(ip)
    # what the user is told to put into RC_PARAMS is written without quotes
    f = byname['base64Text']
    for n in range(1, 5):
        ip = Ser(P)
        st = State()
        st.env[('h', 'arg:d')] = ip.seqval([('sym', 'b%d' % i) for i in range(n)])
        for s, x in ip.run(f, st=st):
            for i, c in enumerate([] if isinstance(x, Throw) else ip.items(deep(s, x)) or ()):
                t = Table.of(ip.strip(c), 8, True)
                if t is None:
                    raise AnalysisBroken('the alphabet of Base64 is not understood: %s' % show(c)[:100])
                odd = sorted({chr(y & 255) for y in t.vals if not 32 < y < 127 or chr(y) in '"\'\\$`'})
                rep.check(not odd, where(f), 'Base64 contains %r, which is not taken literally' % ''.join(odd),
                          'the alphabet of Base64 needs no quotes')
        rep.analysed(ip)
