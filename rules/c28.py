"""C28: what is drawn from a range or a choice lies in it."""
from affine import *

TITLE = 'Numbers drawn from a range and elements chosen lie where they are asked to lie'
GF = 'rc::GenerationFailure'
SIZES = (0, 1, 2, 3, 7, 10, 25, 33, 49, 50, 51, 66, 75, 90, 99, 100, 101, 150)
PROG = []


class Num(Affine):
    def e_IntegerLiteral(self, st, fr, n):
        return [(st, C(int(n['v'])))]


class Drawn(Bits):
    def e_IntegerLiteral(self, st, fr, n):
        return [(st, C(int(n['v'])))]


def where(f):
    return 'the probe function %s' % f.q


def targ(f):
    for t in f.get('targs') or []:
        if isinstance(t, int):
            return f.tu.type(t)


def val(i):
    return ('v', C(i))


def some(v):
    """The value of a Maybe, None: it has none."""
    v = norm(v)
    return v[2] if v[:2] == ('app', 'some') else None if v == NONE else v


def clean(rep, ip, f, what):
    for e, w in ip.overflows:
        rep.check(False, where(f), '%s: %s does not fit the signed type of %d bits it is computed in' % (
            what, e[:120], w), 'no signed overflow')
    for e in ip.zeros:
        rep.check(False, where(f), '%s: the remainder of a division by %s, which may be 0' % (what, e[:120]),
                  'no division by zero')
    ip.overflows, ip.zeros = [], []


def outcomes(rep, f, args, st=None, what=''):
    """(interpreter, state, result) of every path."""
    ip = Num(PROG[0])
    res = ip.run(f, args=args, st=st)
    clean(rep, ip, f, what)
    for s, x in res:
        ip.cur = s
        yield ip, s, x if isinstance(x, Throw) else norm(deep(s, x))
    rep.analysed(ip)


def num(rep, ip, f, x, t, what):
    """The affine form of a result."""
    e = ip.lift(x, t)
    rep.check(e is not None and integral(e), where(f), '%s: the result is %s' % (what, show(x)[:160]),
              'the result is a number that is followed')
    return e


def scaling(rep, f, size):
    w = (64, False)
    x = F(0, [(('in', ('sym', 'x'), 64, False), 1)])
    s0 = min(size, 100)
    for ip, s, v in outcomes(rep, f, [None, val(size)], what='scaling by size %d' % size):
        what = 'x scaled by size %d' % size
        if isinstance(v, Throw):
            rep.check(False, where(f), '%s: %s is thrown' % (what, v.tag), 'scaling does not fail')
            continue
        e = num(rep, ip, f, v, w, what)
        if e is None:
            continue
        rep.check(ip.ge0(e) and ip.ge0(x - e), where(f), '%s is %r: not between 0 and x for all x' % (what, e),
                  'what is scaled does not grow')
        rep.check(ip.ge0(e * 100 - x * s0 + F(100)) and ip.ge0(x * s0 - e * 100 + F(100)), where(f),
                  '%s is %r: further than 1 from %d%% of x for some x' % (what, e, s0),
                  'scaled in proportion to the size')
        if s0 == 100:
            rep.check(ip.ge0(e - x), where(f), '%s is %r: less than x' % (what, e), 'the nominal size is full size')


def between(ip, a, b, c):
    return ip.ge0(b - a) and ip.ge0(c - b)


def ranges(rep, f, size):
    t = inttype(targ(f))
    lo, hi = [F(0, [(('in', ('sym', x), t[0], t[1]), 1)]) for x in ('min', 'max')]
    ok = 0
    what = 'a number of [min, max) of type %s at size %d' % (targ(f).s, size)
    for ip, s, v in outcomes(rep, f, [None, None, None, val(size)], what=what):
        if isinstance(v, Throw):
            rep.check(v.tag == GF, where(f), '%s: %s is thrown' % (what, v.tag), 'only ' + GF)
            rep.check(not ip.learn(s, hi - lo - F(1)), where(f),
                      '%s: it fails where min < max' % what, 'a range that is not empty has numbers')
            continue
        ok += 1
        rep.check(ip.ge0(hi - lo - F(1)), where(f), '%s: there is one where max <= min' % what,
                  'an empty range has no numbers')
        e = num(rep, ip, f, v, t, what)
        if e is None:
            continue
        rep.check(ip.ge0(e - lo) and ip.ge0(hi - e - F(1)), where(f), '%s is %r: it may be outside' % (what, e),
                  'min <= x < max')
        rep.check(ip.bound(e - lo, False) <= 0 and (size < 100 or ip.bound(hi - e, False) <= 1), where(f),
                  '%s is %r: it is never %s' % (what, e, 'min' if ip.bound(e - lo, False) > 0 else 'max - 1'),
                  'all numbers of the range can be drawn')
        if not size:
            rep.check(ip.ge0(lo - e), where(f), '%s is %r' % (what, e), 'size 0 draws the smallest')
    rep.need(ok, 1, 'paths that draw ' + what)


def toward(rep, f, k):
    t = inttype(targ(f))
    v, g = [F(0, [(('in', ('sym', x), t[0], t[1]), 1)]) for x in ('value', 'target')]
    ok = 0
    what = 'shrink %d of a %s towards a target' % (k, targ(f).s)
    for ip, s, x in outcomes(rep, f, [None, None, val(k)], what=what):
        if isinstance(x, Throw):
            rep.check(False, where(f), '%s: %s is thrown' % (what, x.tag), 'shrinking does not fail')
            continue
        x = some(x)
        if x is None:
            if k == 1:
                rep.check(ip.decide(s, app('eq0', v - g)) is True, where(f),
                          '%s: there is none though value and target differ' % what,
                          'the target is the first shrink')
            continue
        ok += 1
        e = num(rep, ip, f, x, t, what)
        if e is None:
            continue
        a = between(ip, g, e, v - F(1)) or between(ip, v + F(1), e, g)
        rep.check(a, where(f), '%s is %r: it may not lie between them' % (what, e),
                  'shrinks lie between the target and the value, which is not among them')
        if k == 1:
            rep.check(ip.decide(s, app('eq0', e - g)) is True, where(f), '%s is %r' % (what, e),
                      'the target is the first shrink')
    rep.need(ok, 1, 'paths to ' + what)


def shrinks(rep, f, size, j, k):
    t = inttype(targ(f))
    lo, hi = [F(0, [(('in', ('sym', x), t[0], t[1]), 1)]) for x in ('min', 'max')]
    what = 'shrink %d%s of a %s in [min, max) at size %d' % (
        k, ' of shrink %d' % k * (j > 1), targ(f).s, size)
    for ip, s, v in outcomes(rep, f, [None, None, None, val(size), val(j), val(k)], what=what):
        if isinstance(v, Throw):
            rep.check(v.tag == GF, where(f), '%s: %s is thrown' % (what, v.tag), 'only ' + GF)
            continue
        v = some(v)
        e = num(rep, ip, f, v, t, what) if v is not None else None
        if e is not None:
            rep.check(ip.ge0(e - lo) and ip.ge0(hi - e - F(1)), where(f),
                      '%s is %r: it may be outside' % (what, e), 'shrinks stay in the range')


def vec(n):
    st = State()
    it = [('sym', 'x%d' % i) for i in range(n)]
    st.env[('h', 'arg:v')] = app('seq', *it)
    return st, it


def chosen(rep, ip, f, x, it, what, full=True):
    """x is one of these elements, and none of them is excluded."""
    w = norm(x)
    if w in it:
        rep.check(not full or len(it) == 1, where(f), '%s is always %s' % (what, show(w)),
                  'every element can be chosen')
        return
    if w[:2] != ('app', 'pick'):
        rep.check(False, where(f), '%s is %s' % (what, show(w)[:160]), 'an element is chosen')
        return
    e = w[2][2]
    rep.check(list(w[3:]) == it, where(f), '%s is one of %s' % (what, show(w)[:160]),
              'the elements are those given')
    if full:
        rep.check(ip.bound(e, False) <= 0 and ip.bound(e, True) >= len(it) - 1, where(f),
                  '%s has the index %r: some are never chosen' % (what, e), 'every element can be chosen')


def choices(rep, f, n, size, jk=None):
    st, it = vec(n)
    sized = f.n.startswith('sized')
    what = '%s of %d elements at size %d' % (
        'an element' if jk is None else 'a shrink (%d) of an element' % jk[1], n, size)
    ok = 0
    for ip, s, v in outcomes(rep, f, [None, None, val(size)] + [val(i) for i in jk or ()], st, what):
        if isinstance(v, Throw):
            rep.check(v.tag == GF and not n, where(f), '%s: %s is thrown' % (what, v.tag),
                      'only where there is none, ' + GF)
            continue
        v = some(v) if jk else v
        if v is None:
            continue
        ok += 1
        rep.check(n > 0, where(f), '%s is %s' % (what, show(v)[:100]), 'of no elements none is chosen')
        if n:
            chosen(rep, ip, f, v, it, what, not jk and (not sized or size >= 100))
            if sized and not size and not jk:
                rep.check(norm(v) == it[0], where(f), '%s is %s' % (what, show(v)[:100]),
                          'size 0 chooses the first')
    if n and not jk:
        rep.need(ok, 1, 'paths that choose ' + what)


def weights(rep, f, size):
    ws = [F(0, [(('in', ('sym', 'w%d' % i), 32, False), 1)]) for i in (1, 2, 3)]
    total = ws[0] + ws[1] + ws[2]
    el = [('sym', x) for x in 'abc']
    seen = set()
    what = 'an element by weight at size %d' % size
    for ip, s, v in outcomes(rep, f, [None] * 7 + [val(size)], what=what):
        if isinstance(v, Throw):
            rep.check(v.tag == GF, where(f), '%s: %s is thrown' % (what, v.tag), 'only ' + GF)
            rep.check(not ip.learn(s, total - F(1)), where(f), '%s: it fails though a weight is not 0' % what,
                      'weights that are not all 0 allow a choice')
            continue
        v = norm(v)
        rep.check(v in el, where(f), '%s is %s' % (what, show(v)[:160]), 'one of the elements is chosen')
        if v not in el:
            continue
        i = el.index(v)
        seen.add(i)
        rep.check(ip.ge0(ws[i] - F(1)), where(f), '%s: the one chosen may have weight 0' % what,
                  'weight 0 is never chosen')
        ub, lb = s.dom.get('ub', {}), s.dom.get('lb', {})
        for a in set(ub) | set(lb):
            if a[0] != 'rem':
                continue
            rep.check(a[2] == total, where(f), '%s is chosen by a number below %r' % (what, a[2]),
                      'the number drawn is below the sum of the weights')
            for l in lb.get(a, ()) + (F(0),):
                for u in ub.get(a, ()) + (a[2] - F(1),):
                    k = u - l + F(1)
                    if (k - ws[i]).t == () and l.t + u.t:
                        rep.check(k == ws[i], where(f), '%s: %s is chosen for %r numbers of those below %r' % (
                            what, show(v), k, a[2]), 'chosen in proportion to the weight')
    rep.check(seen == {0, 1, 2}, where(f), '%s: only elements %s' % (what, sorted(seen)),
              'every element with a weight can be chosen')


def oneof(rep, f):
    ok = 0
    for ip, s, v in outcomes(rep, f, [None] * 4 + [val(50)], what='one of three generators'):
        v = norm(v)
        ok += 1
        picks = [x for x in parts(v) if x[:2] in (('app', 'pick'), ('app', 'outside'))]
        rep.check(len({show(p) for p in picks}) == 1, where(f), 'one of three generators yields %s' % show(v)[:160],
                  'one generator is chosen')
        for p in picks[:1]:
            chosen(rep, ip, f, p, [('sym', x) for x in 'abc'], 'one of three generators')
    rep.need(ok, 1, 'paths of oneOf')


def parts(v):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str):
            yield v
        for x in v:
            yield from parts(x)


# -- bits --------------------------------------------------------------------
def judge(rep, ip, s, f, x, t, b, what, used=()):
    """x consists of b bits of the source, each once, continued by its sign."""
    w, signed = t
    bs = ip.pat(x, w, signed)
    if bs is None:
        rep.check(False, where(f), '%s: it is %s' % (what, show(x)[:120]), 'the result consists of bits')
        return []
    got = list(bs[:b])
    if signed and got and got[-1][0] == 'c':        # the path knows the sign: which bit is it?
        known = [y for y, z in s.dom.get('zero', {}).items()
                 if z == got[-1][1] and y not in got and y not in used]
        if known:
            got[-1] = known[-1]
    rep.check(all(y[:2] == ('app', 'bit') for y in got), where(f), '%s: the bits are %s' % (
        what, ', '.join(show(y)[-40:] for y in got if y[:2] != ('app', 'bit'))[:160]),
        'what is drawn comes from the source')
    rep.check(len(set(got)) == len(got) and not set(got) & set(used), where(f),
              '%s: a bit of the source is used twice' % what, 'no bit of the source is used twice')
    top = ip.known(s, got[-1]) if signed and got else ZERO
    rest = [ip.known(s, y) for y in bs[b:]]
    rep.check(all(y == top for y in rest), where(f), '%s: beyond the %d bits are %s' % (
        what, b, ', '.join(sorted({show(y)[-40:] for y in rest}))[:120]),
        'beyond what is drawn there is only the sign')
    return got


def draws(rep, f, pairs):
    t = inttype(targ(f))
    ip = Drawn(PROG[0])
    for a, b in pairs:
        what = 'drawing %d bits after %d bits as %s' % (b, a, targ(f).s)
        n = 1 if t[0] == 1 else min(b, t[0])
        for s, v in ip.run(f, args=[None, val(a), val(b)]):
            if isinstance(v, Throw):
                rep.check(False, where(f), '%s: %s is thrown' % (what, v.tag), 'drawing does not fail')
                continue
            v = norm(deep(s, v))
            x = {k.rsplit('::', 1)[-1]: y for k, y in v[2]} if v[0] == 'S' else {}
            if set(x) != {'first', 'second'}:
                rep.check(False, where(f), '%s: %s' % (what, show(v)[:120]), 'the result consists of bits')
                continue
            used = judge(rep, ip, s, f, x['first'], (64, False), a, what + ' (first)')
            if t[0] == 1:
                y = x['second']
                ok = istbl(y) and len(y) == 5 and len(y[2]) == 3 and y[3] != y[4] and y[2][2] not in used
                rep.check(ok, where(f), '%s: %s' % (what, show(y)[:120]), 'a bool is one bit of the source')
            else:
                judge(rep, ip, s, f, x['second'], t, n, what, used)
    rep.analysed(ip)


def drawsize(rep, f):
    t = inttype(targ(f))
    if t[0] == 1:
        return
    last = 0
    ip = Drawn(PROG[0])
    for size in range(0, 121):
        what = 'a %s at size %d' % (targ(f).s, size)
        n, res = 0, []
        for s, v in ip.run(f, args=[None, val(size)]):
            if isinstance(v, Throw):
                rep.check(False, where(f), '%s: %s is thrown' % (what, v.tag), 'drawing does not fail')
                continue
            v = norm(deep(s, v))
            bs = ip.pat(v, *t) or []
            b = 0
            while b < len(bs) and bs[b][:2] == ('app', 'bit') and bs[b] not in bs[:b]:
                b += 1
            n = max(n, b)
            res.append((s, v))
        for s, v in res:
            judge(rep, ip, s, f, v, t, n, what)
        rep.check(n >= last, where(f), '%s has %d bits, at the size before %d' % (
            what, n, last), 'the number of bits grows with the size')
        rep.check(size or n == 0, where(f), '%s has %d bits' % (what, n), 'size 0 draws no bits')
        rep.check(size < 100 or n == t[0], where(f), '%s has %d bits of %d' % (what, n, t[0]),
                  'the nominal size draws all bits')
        last = n
    rep.analysed(ip)


def drawall(rep, f):
    t = inttype(targ(f))
    ip = Drawn(PROG[0])
    for s, v in ip.run(f, args=[None]):
        if isinstance(v, Throw):
            rep.check(False, where(f), '%s is thrown' % v.tag, 'drawing does not fail')
        elif t[0] > 1:
            judge(rep, ip, s, f, norm(deep(s, v)), t, t[0], 'a whole ' + targ(f).s)
    rep.analysed(ip)


def run(rep, tier):
    P = M.Program(['probe/p_range', 'src/'])
    bad = {k: v for k, v in P.diags.items() if 'p_range' in k}
    if bad:
        raise AnalysisBroken('probe does not compile: %s' % list(bad.values())[0][:1])
    PROG[:] = [P]
    fs = {}
    for f in P.functions:
        if f.q.startswith('prg::') and f.body is not None and f.inprobe:
            fs.setdefault(f.n, []).append(f)
    for n, k in (('inRange', 11), ('toward', 11), ('rangeShrink', 11), ('draw', 12), ('drawSized', 12)):
        rep.need(len(fs.get(n, ())), k, 'instances of %s' % n)
    deepq = tier == 'thorough'
    sizes = range(0, 160) if deepq else SIZES
    jobs = [(scaling, fs['scaled'][0], i) for i in range(0, 400 if deepq else 121)]
    for f in fs['inRange']:
        jobs += [(ranges, f, i) for i in sizes]
    for f in fs['toward']:
        w = inttype(targ(f))[0]
        jobs += [(toward, f, k) for k in range(1, min(w, 24 if deepq else 8))]
    for f in fs['rangeShrink']:
        jobs += [(shrinks, f, i, j, k) for i in ((3, 50, 100) if deepq else (50, 100))
                 for j, k in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2)) + (((2, 3), (3, 1), (3, 2)) if deepq else ())]
    for n in (0, 1, 2, 3, 5, 64) + ((4, 7, 100, 256, 1000) if deepq else ()):
        jobs += [(choices, fs['pick'][0], n, i) for i in (0, 50, 100)]
        jobs += [(choices, fs['sized'][0], n, i) for i in sizes]
        jobs += [(choices, fs['sizedShrink'][0], n, i, jk) for i in (50, 100)
                 for jk in ((1, 1), (1, 2), (2, 1), (2, 2))]
    jobs += [(weights, fs['weighted'][0], i) for i in (0, 50, 100)]
    jobs += [(oneof, fs['oneOf'][0])]
    ab = [(a, b) for a in (0, 1, 5, 31, 32, 33, 60, 63, 64) for b in (0, 1, 2, 7, 8, 15, 16, 31, 32, 33, 63, 64, 70)]
    if deepq:
        ab = [(a, b) for a in range(65) for b in range(66)]
    for f in fs['draw']:
        jobs += [(draws, f, ab[i::8]) for i in range(8)]
    jobs += [(drawsize, f) for f in fs['drawSized']] + [(drawall, f) for f in fs['drawAll']]
    parallel(rep, [jobs[i::32] for i in range(32)],
             lambda r, js: [j[0](r, *j[1:]) for j in js] and None)
