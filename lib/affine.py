"""Numbers as affine forms.

A number is a constant plus rational multiples of atoms, each of which is an
integer: an input of an integer type, the quotient of a division ('div', e, c),
the remainder of a division by a number that is not constant ('rem', e, m), or
the multiple of 2^w by which an operation wraps ('wrap', e, w, signed).  The
atoms carry bounds that are affine forms over earlier atoms; what a path
assumes adds to them, and tightens them by what follows from two opposite
bounds of one atom.  An inequality holds when substituting the bounds, latest
atom first, leaves a constant that shows it."""
from fractions import Fraction as Q
from functools import lru_cache
from math import ceil, floor, gcd
from bits import *


class F:
    """Affine form."""
    __slots__ = ('k', 't', 'h')

    def __init__(self, k, t=()):
        self.k = Q(k)
        self.t = tuple(sorted(((a, Q(c)) for a, c in dict(t).items() if c), key=lambda x: order(x[0])))
        self.h = hash((self.k, self.t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, F) and self.k == o.k and self.t == o.t

    def __add__(self, o):
        if not isinstance(o, F):
            return F(self.k + o, self.t)
        d = dict(self.t)
        for a, c in o.t:
            d[a] = d.get(a, 0) + c
        return F(self.k + o.k, d)

    def __mul__(self, c):
        return F(self.k * c, [(a, x * c) for a, x in self.t])

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-o if isinstance(o, F) else -o)

    def __repr__(self):
        def one(a, c):
            return '%s%s' % ('' if c == 1 else '-' if c == -1 else '%s*' % c, name(a))
        s = ' + '.join([one(a, c) for a, c in self.t] + ([str(self.k)] if self.k or not self.t else []))
        return s.replace('+ -', '- ')


def name(a):
    if a[0] == 'in':
        return show(a[1])
    if a[0] == 'wrap':
        return 'wrap(%r, %d)' % (a[1], a[2])
    return '%s(%r, %r)' % a[:3]


@lru_cache(None)
def order(a):
    """Atoms are later than the atoms they are made of."""
    return rank(a), repr(a) if a[0] == 'in' else name(a) + str(a[2:])


@lru_cache(None)
def rank(a):
    return 0 if a[0] == 'in' else 1 + max(
        [rank(x) for e in a[1:] if isinstance(e, F) for x, _ in e.t] or [0])


def trange(w, s):
    return (-(1 << w - 1), (1 << w - 1) - 1) if s else (0, (1 << w) - 1)


def islin(v):
    return v[:2] == ('app', 'lin')


def integral(e):
    return e.k.denominator == 1 and all(c.denominator == 1 for _, c in e.t)


class Affine(Bits):
    cur = None
    POWERS = False

    # -- bounds ------------------------------------------------------------
    def bounds(self, a, up):
        """The upper (or lower) bounds of an atom: what it is made of, and what is assumed."""
        out = list((self.cur.dom.get('ub' if up else 'lb', {}) if self.cur else {}).get(a, ()))
        if a[0] == 'in':
            out.append(F(trange(a[2], a[3])[1 if up else 0]))
        elif a[0] == 'div':
            e, c = a[1:3]
            out.append(e * Q(1, c) if up else (e + (1 - c)) * Q(1, c))
        elif a[0] == 'rem':
            out += [a[2] - F(1), a[1]] if up else [F(0)]
        elif a[0] == 'wrap':
            lo, hi = trange(a[2], a[3])
            out.append((a[1] - F(lo if up else hi)) * Q(1, 1 << a[2]))
        return out

    def bound(self, e, up):
        """A constant that an affine form does not exceed (fall below)."""
        memo = {}

        def go(e, depth):
            if not e.t:
                return e.k
            if e in memo:
                return memo[e]
            a, c = e.t[-1]
            rest = F(e.k, e.t[:-1])
            best = None
            for b in self.bounds(a, (c > 0) == up):
                x = go(rest + b * c, depth + 1)
                if best is None or (x < best if up else x > best):
                    best = x
            memo[e] = best
            return best
        if e.t and integral(e):         # a constant and a multiple of g
            g = 0
            for _, c in e.t:
                g = gcd(g, int(c))
            r = go(F(0, [(a, c / g) for a, c in e.t]), 0)
            return e.k + g * (floor if up else ceil)(r)
        return go(e, 0)

    def ge0(self, e):
        """Is an affine form at least 0?"""
        return self.bound(e, False) >= 0

    def learn(self, st, e, depth=0):
        """Assumes e >= 0; False: it cannot be."""
        self.cur = st
        if not e.t:
            return e.k >= 0
        if integral(e):         # all terms are multiples of g
            g = 0
            for _, c in e.t:
                g = gcd(g, int(c))
            e = F(floor(e.k / g), [(a, c / g) for a, c in e.t])
        if self.bound(e, True) < 0:
            return False
        a, c = e.t[-1]
        unit = abs(c) == 1 and integral(e)
        if self.bound(e, False) >= 0:
            if unit and depth and self.bound(e, True) == 0:     # it is 0
                self.same(st, a, F(e.k, e.t[:-1]) * (-1 / c))
            return True
        up = c < 0
        b = F(e.k, e.t[:-1]) * (-1 / c)
        opp = self.bounds(a, not up)
        key = 'ub' if up else 'lb'
        d = dict(st.dom.get(key, {}))
        new = (b,)
        x = self.bound(b, up)
        x = F(floor(x) if up else ceil(x))
        if x != b:
            new += (x,)
        d[a] = d.get(a, ()) + new
        st.dom[key] = d
        if depth < 6:
            for b in new:
                for o in opp:
                    if not self.learn(st, (b - o) if up else (o - b), depth + 1):
                        return False
            if integral(e) and not self.tighten(st, e, depth):
                return False
            if unit and self.bound(e, True) == 0:
                self.same(st, a, F(e.k, e.t[:-1]) * (-1 / c))
        return True

    def same(self, st, a, e):
        d = dict(st.dom.get('is', {}))
        if a not in d:
            d[a] = e
            st.dom['is'] = d

    def subst(self, e):
        d = self.cur.dom.get('is') if self.cur else None
        while d and any(a in d for a, _ in e.t):
            for a, c in e.t:
                if a in d:
                    e = e + (d[a] - F(0, [(a, 1)])) * c
        return e

    def tighten(self, st, e, depth):
        """m * x + y >= 0 where y is small: x >= ceil(-y / m)."""
        for m in sorted({abs(int(c)) for _, c in e.t if abs(c) > 1}, reverse=True):
            big = F(0, [(a, c / m) for a, c in e.t if int(c) % m == 0])
            rest = F(e.k, [(a, c) for a, c in e.t if int(c) % m])
            if rest.t:
                x = self.bound(rest, True)
                if not self.learn(st, big + F(floor(Q(x) / m)), depth + 1):
                    return False
        return True

    # -- values ------------------------------------------------------------
    def lin(self, e):
        return C(int(e.k)) if not e.t and e.k.denominator == 1 else app('lin', e)

    def lift(self, v, t=None):
        """The affine form of a number."""
        v = self.strip(v)
        if v[0] == 'c' and isinstance(v[1], (int, bool)):
            return F(int(v[1]))
        if islin(v):
            return self.subst(v[2])
        if t is not None and v[0] in ('sym', 'app') and not isbits(v) and not istbl(v):
            return F(0, [(('in', norm(v), t[0], t[1]), 1)])
        return None

    def div(self, e, c):
        """floor(e / c) for a positive constant c."""
        k = {a: x for a, x in e.t if (x / c).denominator == 1}
        whole = F(0, {a: x / c for a, x in k.items()})
        rest = F(e.k, [(a, x) for a, x in e.t if a not in k])
        n = floor(rest.k / c)
        whole, rest = whole + F(n), rest - F(n * c)
        if len(rest.t) == 1 and rest.t[0][1] == 1 and rest.t[0][0][0] == 'div':     # nested
            b, d = rest.t[0][0][1:3]
            return whole + self.div(b + rest.k * d, c * d)
        if integral(rest):      # the fraction is not changed by what divides all
            g = c
            for _, x in rest.t:
                g = gcd(g, int(x))
            if g > 1:
                rest = F(floor(rest.k / g), [(a, x / g) for a, x in rest.t])
                c //= g
        if not rest.t or c == 1:
            return whole + (rest if c == 1 else F(floor(rest.k / c)))
        lo, hi = self.bound(rest, False), self.bound(rest, True)
        if floor(Q(lo) / c) == floor(Q(hi) / c):
            return whole + F(floor(Q(lo) / c))
        return whole + F(0, [(('div', rest, c), 1)])

    def wrap(self, e, w, s, exact=False):
        """The number of this type that is congruent to e."""
        lo, hi = trange(w, s)
        m = 1 << w
        if self.bound(e, False) >= lo and self.bound(e, True) <= hi:
            return e
        if exact:
            return None
        r = F(e.k, [(a, x) for a, x in e.t if (x / m).denominator != 1])
        n = floor((r.k - lo) / m) if not r.t else 0
        r = r - F(n * m)
        if self.bound(r, False) >= lo and self.bound(r, True) <= hi:
            return r
        q = self.div(r - F(lo), m)      # r - lo in [0, m)
        return r - q * m

    def enter(self, v, a, b):
        e = self.lift(v, a)
        return None if e is None else self.wrap(e, *b)

    def int_cast(self, fr, n, c, v):
        a, b = inttype(fr.tu.type(c.get('t'))), inttype(fr.tu.type(n.get('t')))
        if a is None or b is None or b[0] == 1 or v[0] not in ('c', 'sym', 'app') or self.cur is None:
            return super().int_cast(fr, n, c, v)
        e = self.enter(v, a, b)
        return v if e is None else self.lin(e)

    def on_binop(self, st, fr, n, op, x, y):
        self.cur = st
        super().on_binop(st, fr, n, op, x, y)

    def arith(self, op, a, b):
        a, b = self.strip(a), self.strip(b)
        ts = self.ctx and self.ctx[2:] == (a, b) and self.optypes(*self.ctx[2:]) or None
        if ts is None or a[0] == b[0] == 'c':
            if ts is None and (islin(a) or islin(b)) and op in ('+', '-'):
                x, y = self.lift(a), self.lift(b)
                if x is not None and y is not None:
                    return self.lin(x + y if op == '+' else x - y)
            return super().arith(op, a, b)
        x, y, (w, s) = self.lift(a, ts[0]), self.lift(b, ts[1]), ts[2]
        n = self.ctx[1]
        if n['k'] == 'CompoundAssignOperator':
            # computed in the common type, stored in the type of the left side
            w0, s0 = w, s
            if op not in ('<<', '>>'):
                w, s = self.common(ts[0], ts[1])
            elif w < 32:
                w, s = 32, True
        if x is None or y is None:
            return super().arith(op, a, b)
        r = self.affine(op, x, y, w, s)
        if r is None:
            return app(op, a, b)
        if n['k'] == 'CompoundAssignOperator':
            r = self.wrap(r, w0, s0)
        return self.lin(r)

    @staticmethod
    def common(a, b):
        a, b = [(32, True) if t[0] < 32 else t for t in (a, b)]
        if a[0] != b[0]:
            return max(a, b, key=lambda t: t[0])
        return a[0], a[1] and b[1]

    def affine(self, op, x, y, w, s):
        if op in ('+', '-', '*'):
            if op == '*':
                if x.t and y.t:
                    return None
                r = x * y.k if not y.t else y * x.k
            else:
                x, y = [z if not s and self.wrap(z, w, s, True) is None or s else z for z in (x, y)]
                r = x + y if op == '+' else x - y
            q = self.wrap(r, w, s, exact=s)
            if q is None:       # a signed overflow
                self.overflows.append((repr(r), w))
                q = self.wrap(r, w, s)
            return q
        if op in ('<<', '>>'):
            if y.t or not 0 <= y.k < w:
                return None
            c = 1 << int(y.k)
            if op == '>>':
                return self.div(x, c)
            return self.wrap(x * c, w, s)
        if op in ('/', '%') and not y.t and y.k > 0 and self.ge0(x):
            q = self.div(x, int(y.k))
            return q if op == '/' else x - q * int(y.k)
        if op == '%' and self.ge0(x):
            if not self.ge0(y - F(1)):
                self.zeros.append(repr(y))
                return None
            if self.ge0(y - x - F(1)):
                return x
            return F(0, [(('rem', x, y), 1)])
        if op == '&':
            for p, q in ((x, y), (y, x)):
                if not q.t and q.k >= 0 and int(q.k) & int(q.k) + 1 == 0 and self.ge0(p):
                    return p - self.div(p, int(q.k) + 1) * (int(q.k) + 1)
            return None
        if op == '|' or op == '^':
            for p, q in ((x, y), (y, x)):
                if not q.t and not q.k:
                    return p
                # disjoint bits
                hi = self.bound(q, True)
                if self.ge0(p) and self.ge0(q) and hi >= 0:
                    m = 1 << int(hi).bit_length()
                    if p.k % m == 0 and all(c % m == 0 for _, c in p.t):
                        return p + q
            return None
        return None

    # -- conditions --------------------------------------------------------
    def binop(self, op, a, b):
        if op in CMP and (islin(a) or islin(b) or self.ctx and self.ctx[2] is a and self.ctx[3] is b):
            ts = self.optypes(a, b)
            x = self.lift(a, ts[0] if ts else None)
            y = self.lift(b, ts[1] if ts else None)
            if x is not None and y is not None and (x.t or y.t):
                if op in ('==', '!='):
                    r = app('eq0', x - y)
                    return negate(r) if op == '!=' else r
                e = {'<': y - x - F(1), '<=': y - x, '>': x - y - F(1), '>=': x - y}[op]
                return app('ge0', e)
        return super().binop(op, a, b)

    def decide(self, st, v):
        if v[0] == 'app' and v[1] in ('ge0', 'eq0', 'lin'):
            self.cur = st
            lo, hi = self.bound(v[2], False), self.bound(v[2], True)
            if v[1] == 'ge0':
                return True if lo >= 0 else False if hi < 0 else None
            r = False if lo > 0 or hi < 0 else True if lo == hi == 0 else None
            return r if v[1] == 'eq0' or r is None else not r
        return super().decide(st, v)

    def assume(self, st, v, truth):
        if v[0] == 'app' and v[1] in ('ge0', 'eq0', 'lin'):
            r = self.decide(st, v)
            if r is not None:
                return r == truth
            e = v[2]
            if v[1] == 'ge0':
                return self.learn(st, e if truth else -e - F(1))
            if truth == (v[1] == 'eq0'):
                return self.learn(st, e) and self.learn(st, -e)
            if self.bound(e, False) >= 0:
                return self.learn(st, e - F(1))
            if self.bound(e, True) <= 0:
                return self.learn(st, -e - F(1))
            return True
        return super().assume(st, v, truth)

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.overflows, self.zeros = [], []

    # -- sequences ---------------------------------------------------------
    def items(self, v):
        w = self.strip(v)
        if w[:2] == ('app', 'initlist'):
            return self.array(w[2])
        return super().items(v)

    def load(self, st, loc):
        self.cur = st
        if loc[2] and isinstance(loc[2][-1], tuple) and loc[2][-1][0] in ('idx', '[]') and \
                islin(self.strip(loc[2][-1][1])):
            e = self.strip(loc[2][-1][1])[2]
            v = super().load(st, ('L', loc[1], loc[2][:-1]))
            it = self.items(v)
            if it is None:
                it = self.array(v)
            if it is not None:
                self.cur = st
                if not (self.ge0(e) and self.ge0(F(len(it) - 1) - e)):
                    return app('outside', app('lin', e), C(len(it)))
                return app('pick', app('lin', e), *it)
        return super().load(st, loc)

    def model(self, st, fr, g, d, n, recv, avs):
        self.cur = st
        nm = g.rsplit('::', 1)[-1]
        if g in ('std::min', 'std::max') and len(avs) >= 2 and d is not None:
            ts = [inttype(p.type().strip().to if p.type().k in ('lref', 'rref') else p.type())
                  if p.type() is not None else None for p in d.params[:2]]
            x, y = [self.lift(self.valof(st, a), t) for a, t in zip(avs, ts)]
            if x is not None and y is not None:
                out = []
                for s, less in self.branch(st, app('ge0', x - y - F(1)) if x.t or y.t else
                                           C(int(x.k > y.k))):
                    out.append((s, self.lin(y if less == (nm == 'min') else x)))
                return out
        if g in ('std::upper_bound', 'std::lower_bound') and len(avs) == 3:
            el = self.span(st, avs[0], avs[1])
            a = self.strip(self.valof(st, avs[0]))
            x = self.lift(self.valof(st, avs[2]), (64, False))
            es = [self.lift(z, (64, False)) for z in el] if el is not None else [None]
            if x is not None and None not in es:
                out, cur = [], st
                for i, e in enumerate(es):      # (the sequence is sorted: the first it holds for)
                    f = app('ge0', e - x - F(1 if nm == 'upper_bound' else 0))
                    nxt = None
                    for s, r in self.branch(cur, f if f[2].t else C(int(f[2].k >= 0))):
                        if r:
                            out.append((s, app('iter', a[2], C(a[3][1] + i))))
                        else:
                            nxt = s
                    if nxt is None:
                        return out
                    cur = nxt
                return out + [(cur, app('iter', a[2], C(a[3][1] + len(es))))]
        return super().model(st, fr, g, d, n, recv, avs)
