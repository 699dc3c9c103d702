"""C15: no part of a random stream is used for two things."""
import laws
from laws import *

TITLE = 'Parts of a generated value come from disjoint random streams'


def root(v):
    """Derived from a parameter or loop state (not a constant Random)."""
    while v[0] == 'app' and v[1] in ('split', 'rsplit', 'rnext'):
        v = v[2]
    return v[0] == 'sym'


class Streams(Laws):
    """Records what each random stream (by value number) is used for."""
    OPAQUE = Laws.OPAQUE + ('rc::detail::BitStream::',)

    def use(self, st, v, kind, where):
        v = norm(self.strip(v))
        if v == ('app', 'random'):
            return              # a fixed stream makes nothing random
        st.dom['rand'] = st.dom.get('rand', ()) + ((v, kind, where),)

    def randoms(self, st, d, avs):
        for p, a in zip(d.params, avs):
            t = p.type().strip()
            if t.k == 'rec' and t.rec.q == 'rc::Random':
                yield self.valof(st, a)

    def model(self, st, fr, g, d, n, recv, avs):
        where = nodeloc(fr.tu, n)
        if g == 'rc::Gen::operator()' and recv is not None:
            v = self.load(st, recv)
            if not known(v):
                self.use(st, self.valof(st, avs[0]), 'generator', where)
        elif g in ('rc::Random::split', 'rc::Random::next') and recv is not None:
            self.use(st, self.load(st, recv), g.split('::')[-1], where)
        elif d is not None and (g in self.summarised or g == 'rc::detail::bitStreamOf'):
            for r in self.randoms(st, d, avs):
                self.use(st, r, g, where)
            if g == 'rc::detail::bitStreamOf':
                return [(st, app(g, *[norm(self.strip(self.valof(st, a))) for a in avs]))]
        return super().model(st, fr, g, d, n, recv, avs)

    def loop1(self, st, fr, n, rng, cond, inc, body, cvar, dofirst):
        before = st.dom.get('rand', ())
        out = list(super().loop1(st, fr, n, rng, cond, inc, body, cvar, dofirst))
        where, pre, head, backs, exits = self.loops[-1]
        names = {}
        for k, v in head.env.items():
            if k in pre.env:
                for _, path in self.diff(k, (), pre.env[k], v):
                    loc = ('L', k, path)
                    names[norm(self.strip(self.load(head, loc)))] = loc
        for b in backs:
            new = b.dom.get('rand', ())[len(before):]
            self.rounds.append((where, before, new, {a: norm(self.strip(self.load(pre, loc)))
                                                     for a, loc in names.items()},
                                {a: norm(self.strip(self.load(b, loc)))
                                 for a, loc in names.items()}))
        return out


def rename(v, m):
    if not isinstance(v, tuple):
        return v
    if v in m:
        return m[v]
    return tuple(rename(x, m) for x in v)


def shrinking(P, f, seen=None):
    """Does the probe function look at shrinks?  (Alternatives may reuse the
    stream of what they replace.)"""
    seen = seen or set()
    for n in M.walk([f.body]):
        d = f.tu.decl(n['d']) if n.get('d') is not None else None
        if d is None or d.k not in ('Function', 'Method'):
            continue
        if d.q.startswith('rc::') and d.n in ('shrinks', 'shrinkElements', 'immediateShrinks'):
            return True
        d = P.resolve(d)
        if d.inprobe and d.body is not None and d.q not in seen:
            seen.add(d.q)
            if shrinking(P, d, seen):
                return True
    return False


def streams(rep, P):
    n = uses = 0
    sites = set()
    for f in P.functions:
        if not (f.inprobe and f.body is not None and f.q.startswith('laws::') and
                f.n[:2] in ('l_', 'v_')) and f.q not in DIRECT:
            continue
        if f.q not in DIRECT and (not any(
                p.type().strip().k == 'rec' and p.type().strip().rec.q == 'rc::Random'
                for p in f.params) or shrinking(P, f)):
            continue
        n += 1
        ip = Streams(P)
        ip.rounds = []
        ip.summarised = SUMMARISED.get(f.n[2:], frozenset())
        st = State()
        args = []
        for i, p in enumerate(f.params):
            v = ('sym', 'a%d' % i)
            if p.type().k in ('lref', 'rref'):
                st.env[('h', 'a%d' % i)] = v
                args.append(('l', ('&', ('L', ('h', 'a%d' % i), ()))))
            else:
                args.append(('v', v))
        this = None
        if f.rec is not None:
            this = ('L', ('h', 'this'), ())
            st.env[this[1]] = SELF
        out = ip.run(f, this=this, args=args, st=st)
        rep.analysed(ip)
        rep.count('paths', len(out))
        bad = set()
        ends = [s.dom.get('rand', ()) for s, v in out]
        for ev in ends:
            by = {}
            for r, kind, where in ev:
                by.setdefault(r, []).append((kind, where))
                sites.add((kind, where))
            uses += len(ev)
            for r, us in by.items():
                if len(us) > 1:
                    bad.add((us[1][1], us[1][0], us[0][0], us[0][1], 'already'))
                for kind, where in us:
                    if r[:2] == ('app', 'rnext') and kind != 'next':
                        bad.add((where, kind, 'next', where, 'earlier'))
        # what an object goes on to hold was not used
        if f.q in DIRECT and f.rec is not None:
            for i in f.rec.get('fields'):
                fd = f.rec.tu.decl(i)
                t = fd.type().strip()
                if t.k != 'rec' or t.rec.q != 'rc::Random':
                    continue
                for s, v in out:
                    r = norm(ip.strip(ip.proj(s.env[('h', 'this')], fd.key)))
                    for r3, kind3, w3 in s.dom.get('rand', ()):
                        if r3 == r:
                            bad.add((f.loc, 'next call', kind3, w3, 'by the call before'))
        for where, before, new, first, again in ip.rounds:
            for old, m, how in ((before, first, 'before the loop'), (new, again,
                                                                     'in the round before')):
                for r, kind, w in new:
                    r2 = rename(r, m)
                    for r3, kind3, w3 in old:
                        if r2 == r3:
                            bad.add((w, kind, kind3, w3, how))
                    if r2[:2] == ('app', 'rnext') and kind != 'next':
                        bad.add((w, kind, 'next', w, how))
        for w, kind, kind3, w3, how in sorted(bad):
            rep.check(False, w, 'the random stream used here (%s) was used %s at %s (%s)' %
                      (kind, how, w3, kind3), None)
        rep.check(not bad, f.loc, 'streams are shared', '%s: every stream has one use' % f.n)
    rep.count('generators', n)
    rep.count('uses of random streams', uses)
    rep.count('distinct sites that use a stream', len(sites))
    done = {f.q for f in P.functions if f.q in DIRECT and f.body is not None}
    if done != DIRECT:
        raise AnalysisBroken('not found: %s' % ', '.join(sorted(DIRECT - done)))
    if n < 40 or len(sites) < 20:
        raise AnalysisBroken('too few generators found (%d, %d sites)' % (n, len(sites)))


DIRECT = {'rc::detail::searchProperty', 'rc::gen::detail::ExecHandler::onGenerate'}


# -- the generator itself ----------------------------------------------------
class Engine(Laws):
    """rc::Random interpreted, its block function opaque."""
    OPAQUE = ()

    def model(self, st, fr, g, d, n, recv, avs):
        if g == 'rc::Random::mash' and recv is not None:
            this = self.load(st, recv)
            self.store(st, avs[0][1][1], app('mash', this))
            return [(st, UNIT)]
        if g.startswith(('rc::Random::', 'ctor:rc::Random')):
            return None
        return super().model(st, fr, g, d, n, recv, avs)


SELF = ('sym', 'self')
M64 = (1 << 64) - 1


def member(P, q, nparams=None, rnd=None):
    fs = [f for f in P.functions if f.q == q and f.body is not None and not f.get('implicit') and
          not f.get('defaulted') and (nparams is None or len(f.params) == nparams)]
    if rnd:
        fs = [f for f in fs if rnd(f)]
    if len(fs) != 1:
        raise AnalysisBroken('%s not found (%d)' % (q, len(fs)))
    return fs[0]


def interpret(rep, ip, f, alias=None):
    st = State()
    b = ('h', 'this')
    st.env[b] = SELF
    args = []
    for i, p in enumerate(f.params):
        v = ('sym', 'a%d' % i)
        if p.type().k in ('lref', 'rref'):
            if alias:
                args.append(('l', ('&', ('L', b, (alias,)))))
                continue
            st.env[('h', 'a%d' % i)] = v
            args.append(('l', ('&', ('L', ('h', 'a%d' % i), ()))))
        else:
            args.append(('v', v))
    out = ip.run(f, this=('L', b, ()), args=args, st=st)
    rep.analysed(ip)
    rep.count('paths', len(out))
    return [(s, v, s.env[b]) for s, v in out if not isinstance(v, Throw)]


def get(ip, v, name):
    return ip.strip(ip.proj(v, 'rc::Random::' + name))


def old(name):
    return app('.', SELF, 'rc::Random::' + name)


def below(ip, s, v):
    """v < 64 on this path (v is at most 64)"""
    return ip.decide(s, app('==', C(64), v)) is False or ip.decide(s, app('<', v, C(64))) is True \
        or ip.decide(s, app('<', C(63), v)) is False


def mash_of_old(ip, v):
    return v[:2] == ('app', 'mash') and all(get(ip, v[2], x) == old(x) for x in ('m_key', 'm_bits'))


def bitset(v, base, i):
    """v is base with the (clear) bit i set."""
    bit = app('<<', C(1), i) if i[0] != 'c' else C(1 << i[1])
    if base == C(0) and v == bit:
        return True
    return v[0] == 'app' and v[1] in ('|', '+', '^') and set(v[2:]) == {base, bit}


def appended(ip, s, v):
    """Which bit was appended to the old position: 0, 1 or None; and the
    reason if it was not done right."""
    bits, i, key = get(ip, v, 'm_bits'), get(ip, v, 'm_bitsi'), get(ip, v, 'm_key')
    if key == old('m_key'):
        if not below(ip, s, old('m_bitsi')):
            return None, 'a bit is added to the 64 that are full'
        if i != app('+', old('m_bitsi'), C(1)):
            return None, 'the number of bits does not grow by one'
        if bits == old('m_bits'):
            return 0, None
        if bitset(bits, old('m_bits'), old('m_bitsi')):
            return 1, None
        return None, 'the position is not the old one with one bit added'
    if not mash_of_old(ip, key):
        return None, 'the key is not made from the old key and all its bits'
    if i != C(1):
        return None, 'bits do not start over under the new key'
    if bits == C(0):
        return 0, None
    if bits == C(1):
        return 1, None
    return None, 'bits do not start over under the new key'


def engine(rep, P):
    where = lambda f: '%s (%s)' % (f.loc, f.q[4:])
    # split: the two streams continue the position with different bits
    f = member(P, 'rc::Random::split')
    ip = Engine(P)
    out = interpret(rep, ip, f)
    for s, r, this in out:
        l, m1 = appended(ip, s, this)
        r_, m2 = appended(ip, s, r)
        if rep.check(l is not None and r_ is not None, where(f), m1 or m2 or '?',
                     'both streams extend the position by a bit'):
            rep.check(l != r_, where(f), 'both streams have the same position',
                      'the positions differ in the added bit')
            for x in (this, r):
                # (split is not used together with next: 0 is its old value)
                rep.check(get(ip, x, 'm_counter') in (old('m_counter'), C(0)), where(f),
                          'the counter is changed', 'the counter stays')
    if len(out) < 2:
        raise AnalysisBroken('split has too few paths')
    # next
    f = member(P, 'rc::Random::next')
    ip = Engine(P)
    out = interpret(rep, ip, f)
    for s, v, this in out:
        v = ip.strip(v)
        c = old('m_counter')
        idx = [app('%', c, C(4)), app('&', c, C(3)), app('&', C(3), c)]
        ok = v[:2] == ('app', '.') and isinstance(v[3], tuple) and v[3][0] == '[]' and v[3][1] in idx
        if v[:2] == ('app', '.') and isinstance(v[3], tuple) and v[3][0] == '[]' and \
                v[3][1][0] == 'c':
            ok = any(s.facts.get(('val', i)) == v[3][1][1] for i in idx)
        if not rep.check(ok, where(f), 'does not yield the word of the block that the counter '
                         'stands for: %s' % show(v)[:100], 'yields the word numbered by the counter'):
            continue
        blk = ip.strip(v[2])
        first = [ip.decide(s, app('==', C(0), i)) for i in idx]
        fresh = mash_of_old(ip, blk) and get(ip, blk[2], 'm_counter') == c
        if True in first or False not in first:
            rep.check(fresh, where(f), 'a new block of numbers is not made when the old one is used '
                      'up', 'a new block is made from the position and the counter')
        else:
            rep.check(blk == old('m_block'), where(f), 'the block is not the stored one',
                      'words of the stored block')
        rep.check(ip.strip(get(ip, this, 'm_block')) == blk, where(f), 'the block is not kept',
                  'the block is kept for the next words')
        nc = get(ip, this, 'm_counter')
        if nc == app('+', c, C(1)):
            rep.check(ip.decide(s, app('==', C(M64), c)) is False or
                      ip.decide(s, app('<', c, C(M64))) is True, where(f),
                      'the counter starts over at the same position',
                      'the counter grows while it can')
            rep.check(get(ip, this, 'm_bits') == old('m_bits') and
                      get(ip, this, 'm_key') == old('m_key'), where(f),
                      'the position changes', 'the position stays')
        else:
            a, m = appended(ip, s, this)
            rep.check(nc == C(0) and a == 1, where(f), m or 'the position does not change when the '
                      'counter starts over', 'a new position when the counter starts over')
    if len(out) < 3:
        raise AnalysisBroken('next has too few paths')
    # construction: distinct seeds and keys are distinct generators
    for f in P.functions:
        if f.q != 'rc::Random::Random' or f.body is None or f.get('implicit') or \
                f.get('defaulted'):
            continue
        t = f.params[0].type().strip() if f.params else None
        if t is not None and t.k == 'rec' and t.rec.q == 'rc::Random':
            continue
        ip = Engine(P)
        for s, v, this in interpret(rep, ip, f):
            k = get(ip, this, 'm_key')
            for x in ('m_bits', 'm_counter', 'm_bitsi'):
                rep.check(get(ip, this, x) == C(0), where(f), '%s does not start at 0' % x,
                          '%s starts at 0' % x)
            words = [ip.strip(ip.proj(k, ('[]', C(i)))) for i in range(4)]
            if not f.params:
                rep.check(all(w[0] == 'c' for w in words), where(f), 'the key is not constant',
                          'a constant key')
            elif t.k == 'rec':
                rep.check(all(w == app('.', ('sym', 'a0'), ('[]', C(i)))
                              for i, w in enumerate(words)), where(f), 'the key is not the given one',
                          'the given key')
            else:
                rep.check(('sym', 'a0') in words, where(f), 'different seeds may give the same key',
                          'the key contains the seed')


# -- the block function -------------------------------------------------------
class Words:
    """Hash-consed 64 bit words: sums, exclusive ors and rotations in normal form."""
    def __init__(self):
        self.ids = {}
        self.terms = []

    def mk(self, t):
        if t not in self.ids:
            self.ids[t] = len(self.terms)
            self.terms.append(t)
        return ('sym', 'w%d' % self.ids[t])

    def term(self, v):
        if v[0] == 'c':
            return ('c', v[1] & M64)
        if v[0] == 'sym' and re.match(r'w\d+$', v[1]):
            return self.terms[int(v[1][1:])]
        return self.terms[self.ids[('atom', v)]] if ('atom', v) in self.ids else \
            self.terms[int(self.mk(('atom', v))[1][1:])]

    def word(self, v):
        return v if v[0] == 'c' or v[0] == 'sym' and re.match(r'w\d+$', v[1]) else \
            self.mk(('atom', v))

    def op(self, op, a, b):
        a, b = self.word(a), self.word(b)
        ta, tb = self.term(a), self.term(b)
        if ta[0] == 'c' and tb[0] == 'c':
            x, y = ta[1], tb[1]
            r = {'+': x + y, '-': x - y, '*': x * y, '^': x ^ y, '|': x | y, '&': x & y,
                 '%': x % y if y else None, '/': x // y if y else None,
                 '<<': x << y if y < 64 else None, '>>': x >> y if y < 64 else None}.get(op)
            if r is not None:
                return C(r & M64)
        if op in ('|', '+', '^') and {ta[0], tb[0]} == {'<<', '>>'}:
            l, r = (ta, tb) if ta[0] == '<<' else (tb, ta)
            if l[1] == r[1] and l[2] + r[2] == 64:
                return self.mk(('rot', l[1], l[2]))
        if op in ('<<', '>>') and tb[0] == 'c':
            return self.mk((op, a, tb[1]))
        if op == '+':
            c, ws = 0, []
            for x, t in ((a, ta), (b, tb)):
                if t[0] == 'c':
                    c += t[1]
                elif t[0] == 'sum':
                    c += t[1]
                    ws += t[2]
                else:
                    ws.append(x)
            ws = tuple(sorted(ws))
            c &= M64
            return ws[0] if len(ws) == 1 and c == 0 else self.mk(('sum', c, ws))
        if op == '^':
            c, ws = 0, set()
            for x, t in ((a, ta), (b, tb)):
                if t[0] == 'c':
                    c ^= t[1]
                elif t[0] == 'xor':
                    c ^= t[1]
                    ws ^= set(t[2])
                else:
                    ws ^= {x}
            if not ws:
                return C(c)
            return next(iter(ws)) if len(ws) == 1 and c == 0 else \
                self.mk(('xor', c, tuple(sorted(ws))))
        return self.mk(('op', op, a, b))


class Block(Engine):
    INDEX = True

    def __init__(self, P, words):
        super().__init__(P)
        self.w = words

    def arith(self, op, a, b):
        return self.w.op(op, self.strip(a), self.strip(b))

    def int_cast(self, fr, n, c, v):
        a, b = fr.tu.type(c['t']).d.get('bits'), fr.tu.type(n['t']).d.get('bits')
        if a and b and b < a and v[0] != 'c' and b > 1:
            return self.w.mk(('op', 'narrow', self.w.word(v), b))
        return v

    def items(self, v):
        if v[0] == 'app' and v[1] == '.' and v[3] in ('rc::Random::m_key', 'rc::Random::m_block'):
            return [app('.', v, ('[]', C(i))) for i in range(4)]
        return super().items(v)

    def model(self, st, fr, g, d, n, recv, avs):
        if g == 'rc::Random::mash':
            return None
        return super().model(st, fr, g, d, n, recv, avs)


ROT = ((14, 16), (52, 57), (23, 40), (5, 37), (25, 33), (46, 12), (58, 22), (32, 32))


def threefish(w, key, tweak, plain):
    """Threefish-256 (Ferguson et al., The Skein Hash Function Family), 72 rounds."""
    add = lambda *xs: xs[0] if len(xs) == 1 else w.op('+', add(*xs[:-1]), xs[-1])
    xor = lambda x, y: w.op('^', x, y)
    rot = lambda x, n: w.op('|', w.op('<<', x, C(n)), w.op('>>', x, C(64 - n)))
    k4 = C(0x1BD11BDAA9FC1A22)
    for k in key:
        k4 = xor(k4, k)
    k = list(key) + [k4]
    t = [tweak[0], tweak[1], C(tweak[0][1] ^ tweak[1][1])]
    v = list(plain)

    def inject(s):
        v[0] = add(v[0], k[s % 5])
        v[1] = add(v[1], k[(s + 1) % 5], t[s % 3])
        v[2] = add(v[2], k[(s + 2) % 5], t[(s + 1) % 3])
        v[3] = add(v[3], k[(s + 3) % 5], C(s))
    for d in range(72):
        if d % 4 == 0:
            inject(d // 4)
        for j, (x, y) in enumerate(((0, 1), (2, 3))):
            v[x] = add(v[x], v[y])
            v[y] = xor(rot(v[y], ROT[d % 8][j]), v[x])
        v[1], v[3] = v[3], v[1]
    inject(18)
    return v


def block(rep, P):
    f = member(P, 'rc::Random::mash')
    where = '%s (%s)' % (f.loc, f.q[4:])
    n = 0
    for alias in (None, 'rc::Random::m_key'):
        w = Words()
        ip = Block(P, w)
        for s, v, this in interpret(rep, ip, f, alias):
            res = ip.proj(this, alias) if alias else s.env[('h', 'a0')]
            got = [ip.strip(ip.proj(res, ('[]', C(i)))) for i in range(4)]
            key = [w.word(app('.', old('m_key'), ('[]', C(i)))) for i in range(4)]
            want = threefish(w, key, [C(13), C(37)],
                             [w.word(old('m_bits')), w.word(old('m_counter')), C(0), C(0)])
            for i in range(4):
                n += 1
                if any(t[0] == 'atom' and unresolved(t[1]) for t in w.terms):
                    rep.count('words not understood (loops)')
                    continue
                rep.check(w.word(got[i]) == w.word(want[i]), where,
                          'word %d of the block is not that of the Threefish-256 encryption of '
                          'position and counter under the key%s' % (
                              i, ', when the key itself is overwritten' if alias else ''),
                          'word %d is that of Threefish-256' % i)
            for x in ('m_key', 'm_bits', 'm_counter', 'm_bitsi'):
                if 'rc::Random::' + x != alias:
                    rep.check(get(ip, this, x) == old(x), where, '%s is changed' % x,
                              '%s is not changed' % x)
        rep.count('words computed by the block function', len(w.terms))
    if n < 8:
        raise AnalysisBroken('block function not understood')


# -- drawing some of the bits of a number -------------------------------------
class Bits(Laws):
    OPAQUE = ()


def bits(rep, P):
    """BitStream::next takes n bits per round: the same n everywhere."""
    fs = [f for f in P.functions if f.g == 'rc::detail::BitStream::next' and f.body is not None
          and any(n.get('k') in ('WhileStmt', 'ForStmt', 'DoStmt') for n in M.walk([f.body]))]
    rounds = 0
    for f in fs:
        where = '%s (BitStream::next)' % f.loc
        ip = Bits(P)
        interpret(rep, ip, f)
        for loop, pre, head, backs, exits in ip.loops:
            this = head.env[('h', 'this')]
            field = lambda v, x: ip.strip(ip.proj(v, 'rc::detail::BitStream::' + x))
            for b in backs:
                now = b.env[('h', 'this')]
                num, num2 = field(this, 'm_numBits'), field(now, 'm_numBits')
                src, src2 = field(this, 'm_source'), field(now, 'm_source')
                word, word2 = field(this, 'm_bits'), field(now, 'm_bits')
                if num2 == num and word2 == word and src2 == src:
                    continue            # another loop
                rounds += 1
                empty = ip.decide(b, app('==', C(0), num))
                if src2 != src:
                    rep.check(empty is True or ip.decide(b, app('<', C(0), num)) is False, where,
                              'new bits are drawn while some are left', 'draws when none are left')
                    rep.check(src2 == app('rnext', src), where, 'does not draw one number',
                              'draws one number')
                    word, left = app('number', src), (C(64), app('+', num, C(64)))
                else:
                    rep.check(empty is False or ip.decide(b, app('<', C(0), num)) is True, where,
                              'takes bits although none are left', 'bits are left')
                    left = (num,)
                n = num2[3] if num2[:2] == ('app', '-') and num2[2] in left else \
                    left[-1] if num2 == C(0) else None
                if not rep.check(n is not None, where, 'the number of bits left is not reduced by '
                                 'those taken: %s' % show(num2)[:120], 'fewer bits are left'):
                    continue
                big = ip.decide(b, app('<', n, C(64)))
                rep.check(word2 == app('>>', word, n) or word2 == word and big is False, where,
                          'the bits taken are not removed, or others are: %s' % show(word2)[:120],
                          'exactly the bits taken are removed')
                want = value = None
                for k, v in b.env.items():
                    o = head.env.get(k)
                    if o is None or o == v or k == ('h', 'this'):
                        continue
                    v, o = ip.strip(v), ip.strip(o)
                    if v[:2] == ('app', '-') and v[2] == o:
                        want = (o, v[3])
                    elif v == C(0):
                        want = (o, o)
                    elif v[0] == 'app' and v[1] in ('|', '+', '^') and o in v[2:]:
                        value = (o, v)
                if not (want and value):
                    rep.count('rounds not understood')
                    continue
                rep.check(want[1] == n, where, 'counts %s bits as taken instead of %s' %
                          (show(want[1])[:60], show(n)[:60]), 'counts the bits taken')
                x = [y for y in value[1][2:] if y != value[0]]
                if len(x) == 1 and x[0][:2] == ('app', '<<'):
                    y, shift = x[0][2:]
                    rep.check(mentions(shift, want[0]), where, 'bits of several rounds go to the '
                              'same place', 'each round fills other bits')
                    if y[:2] == ('app', '&'):
                        rep.check(word in y[2:], where, 'the bits used are not those removed',
                                  'uses the bits it removes')
                        rep.check(big is False or mentions(y, n), where, 'uses a number of bits '
                                  'other than that removed', 'uses as many bits as it removes')
                    else:
                        rep.check(False, where, 'uses bits that it does not remove', '')
                else:
                    rep.check(False, where, 'bits of several rounds go to the same place', '')
                m = n[2] if n[:2] == ('app', 'deref') else n
                compared = any(mentions(k, want[0]) and any(mentions(k, l) for l in left)
                               for k in b.facts if k[0] == 'app')
                rep.check(m[:2] == ('app', 'std::min') and want[0] in m[2:] and
                          any(l in m[2:] for l in left) or
                          (n == want[0] or n in left) and compared, where,
                          'may take more bits than are left or wanted: %s' % show(n)[:120],
                          'takes at most the bits left and wanted')
    rep.count('rounds of drawing bits', rounds)
    if not rounds:
        raise AnalysisBroken('loop of BitStream::next not found')


def mentions(x, y):
    return x == y or isinstance(x, tuple) and any(mentions(z, y) for z in x)


def run(rep, tier):
    P = M.Program(['probe/p_laws', 'src/'])
    if P.diags:
        raise AnalysisBroken('probe does not compile: %s' % list(P.diags.values())[0][:1])
    rep.rule('every generator function and the loop that runs test cases is interpreted over '
             'uninterpreted component generators; on no path, and in no two rounds of a loop, may '
             'the same stream (by value number) be split, drawn from or passed on twice')
    rep.rule('split extends both positions by one bit that differs, renewing the key from all of '
             'them when 64 are full; next yields each word of each block once; the block function '
             'equals the Threefish-256 reference as a term over 64 bit words (sums, exclusive ors '
             'and rotations in normal form), for an output apart from the key and for the key itself')
    rep.rule('a round of drawing bits removes from the word as many bits as it uses, counts as '
             'taken and places next to the earlier ones, never more than are left or wanted; a new word '
             'is drawn only when none are left')
    rep.assume += ['a generator uses its stream for nothing after it returned; shrinks may reuse the '
                   'stream of what they replace']
    streams(rep, P)
    engine(rep, P)
    block(rep, P)
    bits(rep, P)
