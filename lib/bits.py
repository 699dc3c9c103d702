"""Numbers as the bits they consist of.

Each bit of an integer is 0, 1 or a bit of an input ('bit', source, index);
what depends on at most eight input bits in another way is the table of its
values ('tbl').  Strings and vectors are sequences of known length of such
numbers or of opaque elements.  Loops are followed until they end, which the
lengths and the widths of the integers bound."""
from laws import *

INTS = {'bool': (1, False), 'char': (8, True), 'signed char': (8, True),
        'unsigned char': (8, False), 'short': (16, True), 'unsigned short': (16, False),
        'int': (32, True), 'unsigned int': (32, False), 'long': (64, True),
        'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
        '__int128': (128, True), 'unsigned __int128': (128, False),
        'wchar_t': (32, True), 'char16_t': (16, False), 'char32_t': (32, False)}
ZERO, ONE = C(0), C(1)
SEQ = ('std::vector', 'std::basic_string', 'std::__cxx11::basic_string', 'std::array')
MAPS = ('std::map', 'std::unordered_map')
BITOPS = ('|', '&', '^', '<<', '>>')


def inttype(t):
    if t is None:
        return None
    t = t.strip()
    if t.k == 'enum':
        return (32, True)
    return INTS.get(t.s.replace('const ', '').replace('volatile ', '')) if t.k == 'builtin' else None


def isbits(v):
    return v[0] == 'app' and v[1] == 'bits'


def istbl(v):
    return v[0] == 'app' and v[1] == 'tbl'


def bit(v, i):
    return app('bit', v, C(i))


def mk(bs, signed=False):
    """The number with these bits."""
    if all(b[0] == 'c' for b in bs):
        x = sum(b[1] << i for i, b in enumerate(bs))
        if signed and bs and bs[-1][1]:
            x -= 1 << len(bs)
        return C(x)
    b = bs[0]
    if b[:2] == ('app', 'bit') and len(b) == 4 and b[2][:2] == ('app', 'wide') and \
            b[2][3] == C(len(bs)) and all(x == bit(b[2], i) for i, x in enumerate(bs)):
        return b[2][2]
    return app('bits', *bs)


def toint(x, w, signed):
    x &= (1 << w) - 1
    return x - (1 << w) if signed and x >> (w - 1) else x


class Table:
    """A function of a few bits."""

    def __init__(self, ins, vals):
        self.ins, self.vals = tuple(ins), tuple(vals)

    @staticmethod
    def of(v, w=None, signed=False):
        if v[0] == 'c':
            return Table((), (v[1],)) if isinstance(v[1], int) else None
        if istbl(v):
            return Table(v[2][2:], [x[1] for x in v[3:]])
        if isbits(v):
            bs = v[2:]
            ins = sorted({b for b in bs if b[0] != 'c'}, key=repr)
            if len(ins) > 8:
                return None
            vals = []
            for k in range(1 << len(ins)):
                env = {b: k >> i & 1 for i, b in enumerate(ins)}
                x = sum((b[1] if b[0] == 'c' else env[b]) << i for i, b in enumerate(bs))
                vals.append(toint(x, w or len(bs), signed))
            return Table(ins, vals)
        return None

    def over(self, ins):
        pos = [ins.index(b) for b in self.ins]
        return [self.vals[sum((k >> p & 1) << i for i, p in enumerate(pos))]
                for k in range(1 << len(ins))]

    def value(self):
        if len(set(self.vals)) == 1:
            return C(self.vals[0])
        return app('tbl', app('in', *self.ins), *[C(x) for x in self.vals])

    def map(self, f):
        return Table(self.ins, [f(x) for x in self.vals])

    @staticmethod
    def join(a, b, f):
        ins = sorted(set(a.ins) | set(b.ins), key=repr)
        if len(ins) > 8:
            return None
        return Table(ins, [f(x, y) for x, y in zip(a.over(ins), b.over(ins))])

    def bits(self, w):
        out = []
        for i in range(w):
            col = tuple(x >> i & 1 for x in self.vals)
            if len(set(col)) == 1:
                out.append(C(col[0]))
                continue
            for j, b in enumerate(self.ins):
                if col == tuple(k >> j & 1 for k in range(1 << len(self.ins))):
                    out.append(b)
                    break
            else:
                out.append(Table(self.ins, col).value())
        return out


CMPF = {'==': lambda x, y: x == y, '!=': lambda x, y: x != y, '<': lambda x, y: x < y,
        '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y}


FLIPPED = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}


class Bits(Laws):
    COINDUCTIVE = False
    BOOLOPS = {}
    LIMIT = 90

    # -- integers ----------------------------------------------------------
    def pat(self, v, w, signed):
        """The bits of a value of an integer type."""
        v = self.strip(v)
        if v[0] == 'c' and isinstance(v[1], (int, bool)):
            return [C(int(v[1]) >> i & 1) for i in range(w)]
        if isbits(v):
            bs = list(v[2:])
            return bs[:w] + [ZERO] * (w - len(bs))
        if istbl(v):
            return Table.of(v).bits(w)
        if v[0] in ('sym', 'app'):
            x = app('wide', v, C(w))
            return [bit(x, i) for i in range(w)]
        return None

    def int_cast(self, fr, n, c, v):
        a, b = inttype(fr.tu.type(c.get('t'))), inttype(fr.tu.type(n.get('t')))
        if a is None or b is None or v[0] not in ('c', 'sym', 'app') or b[0] == 1:
            return v
        if v[0] == 'c':
            return C(toint(int(v[1]), *b)) if isinstance(v[1], (int, bool)) else v
        if istbl(v):
            return Table.of(v).map(lambda x: toint(x, *b)).value()
        bs = self.pat(v, *a)
        if bs is None:
            return v
        if b[0] > a[0]:
            bs = bs + [bs[-1] if a[1] else ZERO] * (b[0] - a[0])
        return mk(bs[:b[0]], b[1])

    def unary(self, fr, n, op, v):
        t = inttype(fr.tu.type(n.get('t')))
        if op == '~' and t is not None and v[0] in ('c', 'sym', 'app') and not istbl(v):
            bs = self.pat(v, *t)
            if bs is not None:
                return mk([self.flip(b) for b in bs], t[1])
        return super().unary(fr, n, op, v)

    def on_binop(self, st, fr, n, op, x, y):
        self.ctx = (fr, n, x, y)

    ctx = None

    def optypes(self, a, b):
        if self.ctx is None or self.ctx[2] is not a or self.ctx[3] is not b:
            return None
        fr, n = self.ctx[:2]
        ts = [inttype(fr.tu.type(c.get('t'))) for c in n['c']] + [inttype(fr.tu.type(n.get('t')))]
        return ts if None not in ts else None

    def deref(self, v):
        v = self.strip(v)
        if v[:2] == ('app', 'iter') and v[2][0] == '&':     # (iterators may be pointers)
            return self.sub(v[2][1], ('[]', v[3]))
        return super().deref(v)

    def arith(self, op, a, b):
        a, b = self.strip(a), self.strip(b)
        if a[:2] == ('app', 'iter') and op in ('+', '-'):
            if b[:2] == ('app', 'iter'):
                return super().arith(op, a[3], b[3])
            return app('iter', a[2], super().arith(op, a[3], b))
        ts = self.ctx and self.ctx[2:] == (a, b) and self.optypes(*self.ctx[2:]) or None
        if ts is None or a[0] not in ('c', 'sym', 'app') or b[0] not in ('c', 'sym', 'app') or \
                a[0] == b[0] == 'c' and op not in ('<<', '+', '-', '*'):
            return super().arith(op, a, b)
        (wa, sa), (wb, sb), (w, s) = ts
        if a[0] == 'c' and b[0] == 'c':
            r = super().arith(op, a, b)
            return C(toint(r[1], w, s)) if r[0] == 'c' else r
        if op in ('<<', '>>') and b[0] == 'c':
            k = b[1]
            if not 0 <= k < wa:
                return app('overshift', a, b)
            bs = self.pat(a, wa, sa)
            if op == '<<':
                if s and any(x != ZERO for x in bs[max(0, wa - k - 1):]):
                    return app('overflow', a, b)
                bs = [ZERO] * k + bs[:wa - k]
            else:
                bs = bs[k:] + [bs[-1] if sa else ZERO] * k
            return mk(bs[:w], s)
        if op in ('|', '&', '^'):
            m = max(wa, wb, w)
            x, y = self.pat(a, wa, sa), self.pat(b, wb, sb)
            x += [x[-1] if sa else ZERO] * (m - wa)
            y += [y[-1] if sb else ZERO] * (m - wb)
            out = []
            for p, q in zip(x, y):
                if p[0] == 'c':
                    p, q = q, p
                if q[0] == 'c':
                    if op == '|':
                        r = ONE if q[1] else p
                    elif op == '&':
                        r = p if q[1] else ZERO
                    else:
                        r = p if not q[1] else self.flip(p)
                elif p == q:
                    r = ZERO if op == '^' else p
                else:
                    r = app('bit' + op, *sorted((p, q), key=repr))
                out.append(r)
            return mk(out[:w], s)
        # x / 2^k, x % 2^k of what is not negative; x + y without a carry
        if op in ('/', '%') and b[0] == 'c' and b[1] > 0 and not b[1] & b[1] - 1:
            bs = self.pat(a, wa, sa)
            if bs is not None and (not sa or bs[-1] == ZERO):
                k = b[1].bit_length() - 1
                bs = bs[k:] + [ZERO] * k if op == '/' else bs[:k] + [ZERO] * (wa - k)
                return mk((bs + [ZERO] * max(0, w - wa))[:w], s)
        if op == '+' and (isbits(a) or istbl(a)) and (isbits(b) or istbl(b) or b[0] == 'c'):
            x, y = self.pat(a, wa, sa), self.pat(b, wb, sb)
            if wa == wb == w and all(ZERO in z for z in zip(x, y)):
                return mk([v if u == ZERO else u for u, v in zip(x, y)], s)
        p, q = Table.of(a, wa, sa), Table.of(b, wb, sb)
        if p is not None and q is not None and op in ('+', '-', '*'):
            f = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y}[op]
            t = Table.join(p, q, lambda x, y: toint(f(x, y), w, s))
            if t is not None:
                return t.value()
        return super().arith(op, a, b)

    @staticmethod
    def flip(p):
        return ONE if p == ZERO else ZERO if p == ONE else app('flip', p)

    POWERS = True

    def binop(self, op, a, b):
        if op in CMP and a[:2] == b[:2] == ('app', 'iter'):
            return super().binop(op, a[3], b[3])
        # unsigned x < 2^k: the bits from k on are 0
        if self.POWERS and op in ('<', '<=', '>', '>=') and 'c' in (a[0], b[0]) and \
                self.optypes(a, b) is not None:
            (wa, sa), (wb, sb) = self.optypes(a, b)[:2]
            x, k, o, w = (a, b, op, wa) if b[0] == 'c' else (b, a, FLIPPED[op], wb)
            if isinstance(k[1], int) and x[0] in ('sym', 'app') and not istbl(x):
                n = k[1] + (o in ('<=', '>'))
                bs = self.pat(x, w, sb)
                if n > 1 and not n & n - 1 and bs is not None and (bs[-1] == ZERO or not (
                        sa if x is a else sb)):
                    bs = bs[n.bit_length() - 1:]
                    self.ctx = None
                    if bs:
                        return self.binop('==' if o in ('<', '<=') else '!=', mk(bs), ZERO)
                    return C(int(o in ('<', '<=')))
        if op in CMP and a[0] in ('c', 'app') and b[0] in ('c', 'app') and \
                (isbits(a) or istbl(a) or isbits(b) or istbl(b)):
            ts = self.optypes(a, b)
            s = ts[0] if ts else (None, False)
            p, q = Table.of(a, *s), Table.of(b, *s)
            if p is not None and q is not None:
                t = Table.join(p, q, lambda x, y: int(CMPF[op](x, y)))
                if t is not None:
                    return t.value()
            if op in ('==', '!='):
                w = max([len(x) - 2 for x in (a, b) if isbits(x)] or [64])
                x, y = self.pat(a, w, False), self.pat(b, w, False)
                if any(i[0] == j[0] == 'c' and i != j for i, j in zip(x, y)):
                    return C(int(op == '!='))
                if x == y:
                    return C(int(op == '=='))
            elif ts and ts[0][1] and b == ZERO and op in ('<', '>=') and isbits(a):
                top = self.pat(a, *ts[0])[-1]
                if top[0] == 'c':
                    return C(int(bool(top[1]) == (op == '<')))
        return super().binop(op, a, b)

    # -- facts -------------------------------------------------------------
    def known(self, st, b):
        return C(st.dom['zero'][b]) if b in st.dom.get('zero', {}) else b

    def decide(self, st, v):
        if istbl(v):
            p = self.possible(st, v)
            return next(iter(p)) if len(p) == 1 else None
        if isbits(v):
            bs = [self.known(st, b) for b in v[2:]]
            if any(b == ONE for b in bs):
                return True
            if all(b == ZERO for b in bs):
                return False
            return super().decide(st, v)
        if v[:2] == ('app', '==') and isbits(v[3]) and v[2][0] == 'c':
            bs = [self.known(st, b) for b in v[3][2:]]
            ws = [C(v[2][1] >> i & 1) for i in range(len(bs))]
            if any(x[0] == 'c' and x != y for x, y in zip(bs, ws)):
                return False
            if bs == ws:
                return True
        return super().decide(st, v)

    def possible(self, st, v):
        live = st.dom.get(('live', v[2]))
        z = st.dom.get('zero', {})
        fix = [(j, z[b]) for j, b in enumerate(v[2][2:]) if b in z]
        return {bool(v[3 + k][1]) for k in (live if live is not None else range(len(v) - 3))
                if all(k >> j & 1 == x for j, x in fix)}

    def assume(self, st, v, truth):
        if istbl(v):
            live = st.dom.get(('live', v[2]))
            z = dict(st.dom.get('zero', {}))
            fix = [(j, z[b]) for j, b in enumerate(v[2][2:]) if b in z]
            live = frozenset(k for k in (live if live is not None else range(len(v) - 3))
                             if bool(v[3 + k][1]) == truth and all(k >> j & 1 == x for j, x in fix))
            st.dom[('live', v[2])] = live
            for j, b in enumerate(v[2][2:]):
                if len({k >> j & 1 for k in live}) == 1:
                    z[b] = next(iter(live)) >> j & 1
            st.dom['zero'] = z
            return bool(live)
        r = super().assume(st, v, truth)
        if r:
            x, k = (v[3], v[2]) if v[:2] == ('app', '==') and v[2][0] == 'c' and truth else \
                (v, ZERO) if isbits(v) and not truth else (v, None)
            if k is not None and isbits(x):
                z = dict(st.dom.get('zero', {}))
                z.update((b, k[1] >> i & 1) for i, b in enumerate(x[2:]) if b[0] != 'c')
                st.dom['zero'] = z
        return r

    def final(self, st, v, w, signed=False):
        """The bits of a result where they are known."""
        out = []
        for b in self.pat(v, w, signed) or []:
            b = self.known(st, b)
            if b[0] == 'app' and b[1] in ('bit|', 'bit&') and len(b) == 4:
                x, y = self.known(st, b[2]), self.known(st, b[3])
                u = ONE if b[1] == 'bit|' else ZERO
                if u in (x, y):
                    b = u
                elif x[0] == 'c':
                    b = y
                elif y[0] == 'c':
                    b = x
            out.append(b)
        return out

    # -- loops -------------------------------------------------------------
    def unroll(self, st, fr, n, rng, cond, inc, body, where):
        if rng is not None:
            return super().unroll(st, fr, n, rng, cond, inc, body, where)
        return self.loop1(st, fr, n, rng, cond, inc, body, None, False)

    def loop1(self, st, fr, n, rng, cond, inc, body, cvar, dofirst):
        where = nodeloc(fr.tu, n)
        if rng is not None:
            return super().loop1(st, fr, n, rng, cond, inc, body, cvar, dofirst)
        out, pend = [], [st.fork()]
        it = left = 0
        while left < self.LIMIT and it < 2000:
            n0 = len(out), len(pend)
            nxt = []
            for b in pend:
                bk, ex = self.iterate(b, fr, n, rng, cond, inc, body, cvar,
                                      dofirst and not it, where)
                out += ex
                nxt += bk
            pend = nxt
            if not pend:
                return out
            it += 1
            left += n0 != (len(out), len(pend)) or n0[1] > 1
        raise Budget('loop does not end at %s' % where)

    # -- constant data -----------------------------------------------------
    def base_value(self, st, base):
        if base[0] == 'g' and base not in st.env:
            if str(base[1]).startswith('std::') and str(base[1]).endswith('::npos'):
                return C((1 << 64) - 1)
            v = self.constant(base[1])
            if v is not None:
                return v
        return super().base_value(st, base)

    CONSTS = None

    def constant(self, q):
        """The value a global of constant data is initialised to."""
        if self.CONSTS is None:
            self.CONSTS = {}
            for d in self.P.decls('Var'):
                if d.get('init') is not None and d.get('st') in ('global', 'static_member'):
                    self.CONSTS.setdefault(d.q, d)
        d = self.CONSTS.get(q)
        if d is None:
            return None
        if not isinstance(d, tuple):
            t = d.type()
            self.CONSTS[q] = None
            fr = Frame(d, None, 0)
            try:
                r = self.rv(State(), fr, d.get('init')) if t.k not in ('lref', 'rref') else []
            except Exception:
                r = []
            d = r[0][1] if len(r) == 1 and not isinstance(r[0][1], Throw) else None
            self.CONSTS[q] = d
        return d

    def array(self, v):
        """The elements of constant data."""
        if v[0] == 'c' and isinstance(v[1], (str, bytes)):
            b = v[1] if isinstance(v[1], bytes) else v[1].encode('latin-1')
            return [C(toint(x, 8, True)) for x in b] + [ZERO]
        if v[0] == 'S' and v[2] and all(isinstance(k, tuple) and k[0] == 'idx' and k[1][0] == 'c'
                                        for k, _ in v[2]):
            d = {k[1][1]: x for k, x in v[2]}
            if sorted(d) == list(range(len(d))):
                return [d[i] for i in range(len(d))]
        return None

    def load(self, st, loc):
        if loc[2] and isinstance(loc[2][-1], tuple) and loc[2][-1][0] in ('idx', '[]'):
            i = self.strip(loc[2][-1][1])
            base = ('L', loc[1], loc[2][:-1])
            if not loc[2][:-1] and loc[1][0] == 'D' and loc[1][1][0] == 'c':
                a = self.array(loc[1][1])
            elif i[0] != 'c':
                v = super().load(st, base)
                a = self.array(v)
                if a is None:
                    a = self.items(v)
            else:
                a = None
            if a is not None:
                if i[0] == 'c':
                    return a[i[1]] if 0 <= i[1] < len(a) else app('outside', i)
                t = Table.of(i)
                if t is not None and all(x[0] == 'c' for x in a):
                    live = st.dom.get(('live', app('in', *t.ins)))
                    ks = range(len(t.vals)) if live is None else live
                    if all(0 <= t.vals[k] < len(a) for k in ks):
                        return t.map(lambda x: a[x][1] if 0 <= x < len(a) else 0).value()
                    return app('outside', i)
        return super().load(st, loc)

    # -- sequences ---------------------------------------------------------
    def seqval(self, items):
        return app('seq', *items)

    def items(self, v):
        v = self.strip(v)
        if v[:2] == ('app', 'seq'):
            return list(v[2:])
        if v[0] == 'c' and isinstance(v[1], (str, bytes)):
            return self.array(v)[:-1]
        if v[:2] == ('app', 'deref') and len(v) == 3 and v[2][0] == 'c' and isinstance(v[2][1], str):
            return self.array(v[2])[:-1]
        if v[0] == 'S' and v[1][:2] == ('app', 'seq'):
            it = list(v[1][2:])
            for k, x in v[2]:
                if not (isinstance(k, tuple) and k[0] == '[]' and k[1][0] == 'c'):
                    return None
                if k[1][1] >= len(it):
                    return None
                it[k[1][1]] = x
            return it
        if v[0] == 'sym' and (v[1].startswith('default:std::') or v[1].startswith('obj:std::')):
            return []
        return super().items(v)

    def apply(self, st, fr, n, fnav, t, args):
        """Calls a callable given as an argument."""
        op = self.callop(t.strip()) if t is not None else None
        if op is None:
            v = self.strip(self.valof(st, fnav))
            if v[0] == 'fn':
                return self.call(st, fr, self.P.resolve(v[1]), None, args, nodeloc(fr.tu, n))
            return None
        op = self.P.resolve(op)
        floc = fnav[1][1] if fnav[0] == 'l' else self.tmp(st, fnav[1])
        return self.call(st, fr, op, floc, args, nodeloc(fr.tu, n))

    def span(self, st, a, b):
        """The elements between two iterators of one sequence."""
        a, b = self.strip(self.valof(st, a)), self.strip(self.valof(st, b))
        if a[:2] == ('app', 'iter') and b[:2] == ('app', 'iter') and a[3][0] == b[3][0] == 'c':
            it = self.items(self.load(st, a[2][1]))
            if it is not None and 0 <= a[3][1] <= b[3][1] <= len(it):
                return it[a[3][1]:b[3][1]]
        if a[0] == 'c' and isinstance(a[1], (str, bytes)) and a == b:
            return []
        return None

    def model(self, st, fr, g, d, n, recv, avs):
        nm = g.rsplit('::', 1)[-1]
        r = self.maps(st, fr, g, nm, d, n, recv, avs)
        if r is None:
            r = self.seqs(st, fr, g, nm, d, n, recv, avs)
        return r if r is not None else super().model(st, fr, g, d, n, recv, avs)

    def asseq(self, st, a):
        return self.items(self.valof(st, a))

    def seqs(self, st, fr, g, nm, d, n, recv, avs):
        cls = g.rsplit('::', 1)[0]
        if g == 'ctor:std::pair' and len(avs) in (1, 2):
            vs = [self.valof(st, a) for a in avs]
            if len(vs) == 2:
                return [(st, self.pairval(*vs))]
            v = norm(self.strip(vs[0]))
            if v[0] == 'S' and {k for k, _ in v[2]} == {self.FIRST, self.SECOND}:
                return [(st, v)]
        if g == 'std::back_inserter' and avs[0][0] == 'l':
            return [(st, app('backins', avs[0][1]))]
        if recv is not None and cls == 'std::back_insert_iterator':
            v = self.strip(self.load(st, recv))
            if v[:2] == ('app', 'backins'):
                if nm == 'operator++' and avs:
                    return [(st, v)]
                if nm == 'operator*' or nm == 'operator++':
                    return [(st, ('&', recv))]
                if nm == 'operator=':
                    x = self.valof(st, avs[0])
                    if self.strip(x)[:2] == ('app', 'backins'):
                        self.write(st, fr, n, recv, self.strip(x))
                        return [(st, ('&', recv))]
                    l = v[2][1]
                    it = self.items(self.load(st, l))
                    if it is not None:
                        self.write(st, fr, n, l, self.seqval(it + [x]))
                        return [(st, ('&', recv))]
        if g.startswith('ctor:__gnu_cxx::__normal_iterator') and len(avs) == 1:
            v = self.strip(self.valof(st, avs[0]))
            if v[:2] == ('app', 'iter'):
                return [(st, v)]
        if g in ('std::isspace', 'std::isprint', 'std::isdigit', 'std::isalpha', 'std::isalnum',
                 'isspace', 'isdigit', 'isalpha', 'isalnum', 'isprint') and avs:
            v = self.strip(self.valof(st, avs[0]))
            t = Table.of(v, 8, True)
            f = getattr(str, {'space': 'isspace', 'print': 'isprintable', 'digit': 'isdigit',
                              'alpha': 'isalpha', 'alnum': 'isalnum'}[nm[2:]])
            if t is not None:
                return [(st, t.map(lambda x: int(
                    0 <= x & 255 < 128 and (f(chr(x & 255)) and not 28 <= x & 255 < 32 or
                                            nm == 'isprint' and x == 32))).value())]
        if g in ('std::any_of', 'std::all_of', 'std::none_of', 'std::find_if', 'std::find',
                 'std::count_if', 'std::for_each') and len(avs) == 3:
            el = self.span(st, avs[0], avs[1])
            if el is not None:
                return self.search(st, fr, g, nm, d, n, avs, el)
        if g == 'std::copy' and len(avs) == 3:
            el = self.span(st, avs[0], avs[1])
            o = self.strip(self.valof(st, avs[2]))
            if el is not None and o[:2] == ('app', 'backins'):
                it = self.items(self.load(st, o[2][1]))
                if it is not None:
                    self.store(st, o[2][1], self.seqval(it + el))
                    return [(st, o)]
        if g == 'std::distance' and len(avs) == 2:
            a, b = [self.strip(self.valof(st, x)) for x in avs]
            if a[:2] == b[:2] == ('app', 'iter'):
                return [(st, self.arith('-', b[3], a[3]))]
        if g in ('std::next', 'std::prev') and 1 <= len(avs) <= 2:
            a = self.strip(self.valof(st, avs[0]))
            k = self.strip(self.valof(st, avs[1])) if len(avs) == 2 else C(1)
            if a[:2] == ('app', 'iter'):
                return [(st, app('iter', a[2], self.arith('+' if nm == 'next' else '-', a[3], k)))]
        if g == 'std::advance' and len(avs) == 2 and avs[0][0] == '&':
            a = self.strip(self.valof(st, avs[0]))
            if a[:2] == ('app', 'iter'):
                k = self.strip(self.valof(st, avs[1]))
                self.store(st, avs[0][1], app('iter', a[2], self.arith('+', a[3], k)))
                return [(st, C(0))]
        if g in ('std::min', 'std::max') and len(avs) == 2:
            a, b = [self.strip(self.valof(st, x)) for x in avs]
            if a[0] == b[0] == 'c':
                return [(st, C((min if nm == 'min' else max)(a[1], b[1])))]
        if g == 'std::operator+' and len(avs) == 2 and d is not None and \
                any(p.type().strip().k == 'rec' and p.type().strip().rec.g in SEQ for p in d.params):
            out = []
            for a, p in zip(avs, d.params):
                if inttype(p.type()) is not None:
                    out.append(self.strip(self.valof(st, a)))
                    continue
                it = self.asseq(st, a)
                if it is None:
                    return None
                out += it
            return [(st, self.seqval(out))]
        if g in ('std::operator==', 'std::operator!=') and len(avs) == 2:
            a, b = self.asseq(st, avs[0]), self.asseq(st, avs[1])
            if a is not None and b is not None:
                if len(a) != len(b):
                    return [(st, C(int(nm == 'operator!=')))]
                if a == b:
                    return [(st, C(int(nm == 'operator==')))]
        if g.startswith('ctor:') and g[5:] in SEQ:
            return self.construct_seq(st, fr, g[5:], d, n, avs)
        if cls == 'std::array' and nm in ('size', 'end', 'cend') or g in ('std::end', 'std::size') and \
                recv is None and d is not None and d.params[0].type().strip().k == 'rec' and \
                d.params[0].type().strip().rec.g == 'std::array':
            t = d.rec if recv is not None else d.params[0].type().strip().rec
            k = [x['int'] for x in (t.get('targs') or []) if isinstance(x, dict) and 'int' in x]
            if k:
                return [(st, C(int(k[0])) if nm == 'size' else app(
                    'iter', ('&', recv if recv is not None else avs[0][1][1]), C(int(k[0]))))]
        if recv is not None and cls in SEQ:
            return self.members(st, fr, cls, nm, d, n, recv, avs)
        return None

    # -- maps: sequences of pairs -------------------------------------------
    FIRST, SECOND = 'std::pair::first', 'std::pair::second'

    def pairval(self, k, v):
        return ('S', ('sym', 'pair'), ((self.FIRST, k), (self.SECOND, v)))

    def same(self, a, b):
        """Are two keys equal?  (None: perhaps)"""
        a, b = norm(a), norm(b)
        if a == b:
            return True
        if self.known_eq:
            f = app('==', *sorted((a, b), key=repr))
            if f in self.known_eq:
                return self.known_eq[f]
        x, y = self.items(a), self.items(b)
        if x is None or y is None:
            return None if 'c' not in (a[0], b[0]) or a[0] != b[0] else False
        if len(x) != len(y):
            return False
        if any(p[0] == q[0] == 'c' and p != q for p, q in zip(x, y)):
            return False
        return True if x == y else None

    known_eq = None

    def either(self, st, fr, g, nm, d, n, recv, avs, it, k):
        """Keys may be equal or not."""
        out = []
        for i, p in enumerate(it):
            a = self.proj(p, self.FIRST)
            if self.same(a, k) is None:
                f = app('==', *sorted((norm(a), norm(k)), key=repr))
                for truth in (True, False):
                    s = st.fork()
                    if self.assume(s, f, truth):
                        self.known_eq = dict(self.known_eq or {})
                        old, self.known_eq[f] = self.known_eq, truth
                        old = dict(old)
                        old.pop(f, None)
                        try:
                            out += self.maps(s, fr, g, nm, d, n, recv, avs) or []
                        finally:
                            self.known_eq = old
                return out
        return None

    def index(self, it, k):
        for i, p in enumerate(it):
            r = self.same(self.proj(p, self.FIRST), k)
            if r is None:
                return None
            if r:
                return i
        return -1

    def maps(self, st, fr, g, nm, d, n, recv, avs):
        cls = g.rsplit('::', 1)[0]
        loc = recv
        if recv is None and g in ('std::begin', 'std::end', 'std::size', 'std::cbegin', 'std::cend') and avs[0][0] == 'l' and \
                d is not None and d.params[0].type().strip().k == 'rec' and \
                d.params[0].type().strip().rec.g in MAPS:
            loc = avs[0][1][1]
        elif g.startswith('ctor:') and g[5:] in MAPS:
            if not avs:
                return [(st, self.seqval([]))]
            v = self.strip(self.valof(st, avs[0]))
            if v[:2] == ('app', 'initlist'):
                a = self.array(v[2])
                return [(st, self.seqval(a))] if a is not None else None
            it = self.items(v)
            if it is None:
                return None
            if d is not None and d.get('movector') and avs[0][0] == 'l':
                self.store(st, avs[0][1][1], self.seqval([]))
            return [(st, self.seqval(it))]
        elif recv is None or cls not in MAPS:
            return None
        it = self.items(self.load(st, loc))
        if it is None:
            return None
        me = ('&', loc)
        if nm in ('begin', 'cbegin'):
            return [(st, app('iter', me, ZERO))]
        if nm in ('end', 'cend'):
            return [(st, app('iter', me, C(len(it))))]
        if nm in ('size', 'empty'):
            return [(st, C(len(it) if nm == 'size' else int(not it)))]
        if nm == 'clear':
            self.write(st, fr, n, loc, self.seqval([]))
            return [(st, UNIT)]
        if nm == 'reserve':
            return [(st, UNIT)]
        if not avs:
            return None
        k = self.strip(self.valof(st, avs[0]))
        if nm == 'operator=':
            x = self.items(k)
            if x is None:
                return None
            self.write(st, fr, n, loc, self.seqval(x))
            return [(st, me)]
        if nm in ('insert', 'emplace', 'emplace_hint', 'insert_or_assign'):
            v = None
            if len(avs) == 2 and nm in ('emplace', 'insert_or_assign'):
                v = self.strip(self.valof(st, avs[1]))
            elif len(avs) == 1:
                p = self.valof(st, avs[0])
                k, v = self.proj(p, self.FIRST), self.proj(p, self.SECOND)
            if v is None:
                return None
            i = self.index(it, k)
            if i is None:
                return self.either(st, fr, g, nm, d, n, recv, avs, it, k)
            if i < 0:
                it = it + [self.pairval(k, v)]
            elif nm == 'insert_or_assign':
                it = it[:i] + [self.pairval(k, v)] + it[i + 1:]
            self.write(st, fr, n, loc, self.seqval(it))
            return [(st, self.pairval(app('iter', me, C(i if i >= 0 else len(it) - 1)), C(int(i < 0))))]
        i = self.index(it, k)
        if i is None and nm in ('operator[]', 'find', 'count', 'insert', 'emplace'):
            return self.either(st, fr, g, nm, d, n, recv, avs, it, k)
        if nm == 'erase' and k[:2] == ('app', 'iter') and k[3][0] == 'c':
            self.write(st, fr, n, loc, self.seqval(it[:k[3][1]] + it[k[3][1] + 1:]))
            return [(st, app('iter', me, k[3]))]
        if i is None:
            return None
        if nm == 'find':
            return [(st, app('iter', me, C(i if i >= 0 else len(it))))]
        if nm == 'count':
            return [(st, C(int(i >= 0)))]
        if nm == 'erase':
            if i >= 0:
                self.write(st, fr, n, loc, self.seqval(it[:i] + it[i + 1:]))
            return [(st, C(int(i >= 0)))]
        if nm in ('operator[]', 'at'):
            if i < 0:
                if nm == 'at':
                    return [(st, Throw('std::out_of_range', ZERO))]
                t = d.rec.get('targs') if d.rec is not None else None
                self.write(st, fr, n, loc, self.seqval(it + [self.pairval(k, self.seqval([]))]))
                i = len(it)
            return [(st, ('&', self.sub(self.sub(loc, ('[]', C(i))), self.SECOND)))]
        return None

    def search(self, st, fr, g, nm, d, n, avs, el):
        a = self.strip(self.valof(st, avs[0]))
        t = fr.tu.type(n['c'][3]['t']) if len(n.get('c', ())) == 4 else None
        out, pend = [], [(st, 0)]
        for i, x in enumerate(el):
            nxt = []
            for s, k in pend:
                if nm == 'find':
                    r = [(s, self.binop('==', x, self.strip(self.valof(s, avs[2]))))]
                else:
                    r = self.apply(s, fr, n, avs[2], t, [('v', x)])
                if r is None:
                    return None
                for s2, v in r:
                    if isinstance(v, Throw):
                        out.append((s2, v))
                        continue
                    if nm == 'for_each':
                        nxt.append((s2, k))
                        continue
                    for s3, b in self.branch(s2, self.strip(v)):
                        if nm == 'count_if':
                            nxt.append((s3, k + b))
                        elif b == (nm != 'all_of'):
                            out.append((s3, app('iter', a[2], C(a[3][1] + i)) if nm[:4] == 'find'
                                        else C(int(nm == 'any_of'))))
                        else:
                            nxt.append((s3, k))
            pend = nxt
        for s, k in pend:
            out.append((s, C(k) if nm == 'count_if' else self.valof(s, avs[2]) if nm == 'for_each'
                        else self.strip(self.valof(s, avs[1])) if nm[:4] == 'find'
                        else C(int(nm != 'any_of'))))
        return out

    def construct_seq(self, st, fr, cls, d, n, avs):
        ts = [p.type() for p in d.params] if d is not None else []
        if not avs:
            return [(st, self.seqval([]))]
        if len(avs) <= 2 and (ts and ts[0].strip().k == 'rec' and ts[0].strip().rec.g == cls):
            it = self.asseq(st, avs[0])
            if it is None:
                return None
            if d.get('movector') and avs[0][0] == 'l':
                self.store(st, avs[0][1][1], self.seqval([]))
            return [(st, self.seqval(it))]
        v = self.strip(self.valof(st, avs[0]))
        if v[:2] == ('app', 'initlist'):
            a = self.array(v[2])
            return [(st, self.seqval(a))] if a is not None else None
        if len(avs) >= 2:
            el = self.span(st, avs[0], avs[1])
            if el is not None:
                return [(st, self.seqval(el))]
            if inttype(ts[0]) and v[0] == 'c':
                x = self.strip(self.valof(st, avs[1]))
                return [(st, self.seqval([x] * v[1]))]
        if v[0] == 'c' and isinstance(v[1], (str, bytes)):
            it = self.items(v)
            return [(st, self.seqval(it))]
        if len(avs) == 1 and inttype(ts[0]) and v[0] == 'c':
            return [(st, self.seqval([ZERO] * v[1]))]
        return None

    def members(self, st, fr, cls, nm, d, n, recv, avs):
        v = self.load(st, recv)
        it = self.items(v)
        if it is None:
            return None
        vs = [self.strip(self.valof(st, a)) for a in avs]
        ts = [p.type() for p in d.params] if d is not None else []

        def put(x, r=None):
            self.write(st, fr, n, recv, self.seqval(x))
            return [(st, UNIT if r is None else r)]
        me = ('&', recv)
        if nm in ('push_back', 'emplace_back') and len(vs) == 1:
            return put(it + [vs[0]])
        if nm == 'pop_back':
            return put(it[:-1])
        if nm in ('append', 'operator+=', 'assign', 'operator=') and vs:
            old = [] if nm in ('assign', 'operator=') else it
            if len(vs) == 1:
                x = [vs[0]] if inttype(ts[0]) is not None else self.items(vs[0])
                if x is None:
                    return None
                if d.get('moveassign') and avs[0][0] == 'l':
                    self.store(st, avs[0][1][1], self.seqval([]))
                return put(old + x, me)
            if inttype(ts[0]) is not None and inttype(ts[1]) is not None and vs[0][0] == 'c':
                return put(old + [vs[1]] * vs[0][1], me)
            el = self.span(st, avs[0], avs[1])
            if el is not None:
                return put(old + el, me)
            if inttype(ts[1]) is not None and vs[1][0] == 'c':
                x = self.items(vs[0])
                if x is not None:
                    k = vs[1][1]
                    k2 = vs[2][1] if len(vs) > 2 and vs[2][0] == 'c' else None
                    return put(old + (x[:k] if k2 is None and ts[0].k == 'ptr' else
                                      x[k:] if k2 is None else x[k:k + k2]), me)
            return None
        if nm == 'clear':
            return put([])
        if nm in ('reserve', 'shrink_to_fit'):
            return [(st, UNIT)]
        if nm == 'resize' and vs[0][0] == 'c':
            k = vs[0][1]
            return put(it[:k] + [vs[1] if len(vs) > 1 else ZERO] * (k - len(it)))
        if nm in ('size', 'length'):
            return [(st, C(len(it)))]
        if nm == 'find' and len(vs) >= 1 and inttype(ts[0]) is not None and \
                all(x[0] == 'c' for x in it) and (len(vs) == 1 or vs[1] == ZERO):
            bs = self.pat(vs[0], 8, True)
            t = Table.of(vs[0], 8, True) if vs[0][0] == 'c' or bs is None else \
                Table.of(app('bits', *bs), 8, True)
            if t is not None:
                cs = [toint(x[1], 8, True) for x in it]
                return [(st, t.map(lambda x: cs.index(toint(x, 8, True)) if toint(x, 8, True) in cs
                                   else (1 << 64) - 1).value())]
        if nm == 'empty':
            return [(st, C(int(not it)))]
        if nm == 'substr' and all(x[0] == 'c' for x in vs):
            a = vs[0][1] if vs else 0
            b = len(it) if len(vs) < 2 or vs[1][1] < 0 else min(len(it), a + vs[1][1])
            return [(st, self.seqval(it[a:b]))]
        if nm in ('insert', 'erase') and vs and vs[0][:2] == ('app', 'iter') and vs[0][3][0] == 'c':
            a = vs[0][3][1]
            if nm == 'erase':
                b = vs[1][3][1] if len(vs) > 1 and vs[1][3][0] == 'c' else a + 1
                return put(it[:a] + it[b:], app('iter', me, C(a)))
            if len(vs) == 3:
                el = self.span(st, avs[1], avs[2])
                return None if el is None else put(it[:a] + el + it[a:], app('iter', me, C(a)))
            return put(it[:a] + [vs[1]] + it[a:], app('iter', me, C(a)))
        return None
