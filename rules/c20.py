"""C20: command sequences of stateful tests are valid wherever they come from."""
from laws import *
from c24 import Exec
import laws

TITLE = 'Every command sequence generated or shrunk to is valid for the initial state'
CR = 'rc::detail::CaseResult'
GF = 'rc::GenerationFailure'
GENCODE = 'rapidcheck/state/gen/Commands.hpp'


class St(Exec):
    """Commands are user code: preconditions hold, do not hold (discard), fail
    or throw; applying a command yields another unknown state."""
    ROUNDS = 1
    GROW = 3
    GRAPH = None

    def kind(self, which):
        if self.GRAPH is None:
            e = [r for r in self.P.decls('Enum') if r.q == CR + '::Type']
            r = self.rec_by_name(CR)
            if not e or r is None:
                raise AnalysisBroken('CaseResult not found')
            m = {c['n']: c['v'] for c in e[0].get('consts')}
            key = [d for d in (r.tu.decl(i) for i in r.get('fields')) if d.n == 'type'][0].key
            self.GRAPH = (m, key)
        m, key = self.GRAPH
        return Throw(CR, ('S', ('sym', 'obj:' + CR), ((key, C(m[which])),)))

    def user(self, st, what, key, outcomes):
        """Outcomes [(name, value or Throw)] of user code called the same way
        have the same outcome."""
        if st.dom.get('lenient'):
            outcomes = outcomes[:1]
        out = []
        fact = app(what, *[norm(x) for x in key])
        seen = st.facts.get(fact)
        for name, v in outcomes:
            if seen is not None and seen != name:
                continue
            s = st.fork()
            if st.dom.get('lenient') != 'passing':
                s.facts[fact] = name
            out.append((s, v))
        return out

    def throwing(self, what, st, key, value, names):
        T = {'discard': self.kind('Discard'), 'failure': self.kind('Failure'),
             'exception': Throw('user', C(0)), 'gives up': Throw(GF, C(0))}
        return self.user(st, what, key, [('ok', value)] + [
            (x, T[x]) for x in names if self.ANYLOOP or x == 'gives up' or
            x == 'discard' and what in ('pre', 'value')])

    def command(self, st, recv):
        v = recv[1][1] if recv[1][0] == 'D' and not recv[2] else self.load(st, recv)
        v = norm(v)
        while v[0] == 'app' and (v[1] == '.' and v[3] in ('*', ('*',)) or v[1].endswith(
                ('::operator->', '::operator*', '::get'))):
            v = v[2]
        return v

    def loopname(self, st, fr, n):
        k = st.dom['loops'] = st.dom.get('loops', 0) + 1
        return '%s/%d' % (nodeloc(fr.tu, n), k)

    def log(self, st, *ev):
        st.dom['log'] = st.dom.get('log', ()) + (ev,)

    def model(self, st, fr, g, d, n, recv, avs):
        nm = g.rsplit('::', 1)[-1]
        if g in ('pst::lenient', 'pst::skip', 'pst::strict'):
            st.dom['lenient'] = {'lenient': 'known', 'skip': 'passing', 'strict': None}[nm]
            return [(st, UNIT)]
        if g.startswith('rc::state::Command::') and recv is not None:
            c = self.command(st, recv)
            if nm == 'checkPreconditions':
                m = norm(self.valof(st, avs[0]))
                self.log(st, 'pre', c, m)
                return self.throwing('pre', st, (c, m), UNIT, ('discard', 'failure', 'exception'))
            if nm == 'apply':
                l = avs[0][1][1]
                m = norm(self.load(st, l))
                self.log(st, 'apply', c, m)
                out = []
                for s, v in self.throwing('apply', st, (c, m), UNIT,
                                          ('discard', 'failure', 'exception')):
                    if not isinstance(v, Throw):
                        self.store(s, l, app('applied', c, m))
                    out.append((s, v))
                return out
            if nm == 'run':
                m = norm(self.valof(st, avs[0]))
                l = avs[1][1][1]
                x = norm(self.load(st, l))
                self.log(st, 'run', c, m, x)
                out = []
                for s, v in self.throwing('run', st, (c, m, x), UNIT,
                                          ('discard', 'failure', 'exception')):
                    self.store(s, l, app('ran', c, m, x))
                    out.append((s, v))
                return out
        if g == 'rc::Shrinkable::value' and recv is not None:
            v = norm(self.load(st, recv))
            if v[:2] == ('app', 'gen'):
                return self.throwing('value', st, (v,), app('value', v),
                                     ('gives up', 'discard', 'failure', 'exception'))
        if g == 'rc::Gen::operator*' and recv is not None:
            # what it generates is decided elsewhere; here it is two commands
            r = norm(deep(st, self.load(st, recv)))
            self.log(st, 'generate', r)
            return [(st, self.vecval(st, [('sym', 'c0'), ('sym', 'c1')]))]
        if g == 'std::vector::reserve':
            return [(st, UNIT)]
        if g == 'std::back_inserter':
            return [(st, app('backins', avs[0][1]))]
        if g == 'std::transform' and len(avs) == 4:
            r = self.transform(st, fr, n, avs)
            if r is not None:
                return r
        return super().model(st, fr, g, d, n, recv, avs)

    def transform(self, st, fr, n, avs):
        a, b, o = [self.strip(self.valof(st, x)) for x in avs[:3]]
        if a[:2] != ('app', 'iter') or b[:2] != ('app', 'iter') or o[:2] != ('app', 'backins') or \
                a[3][0] != 'c' or b[3][0] != 'c':
            return None
        fn = avs[3]
        ft = fr.tu.type(n['c'][4]['t']).strip()
        op = self.callop(ft)
        if op is None:
            return None
        op = self.P.resolve(op)
        floc = fn[1][1] if fn[0] == 'l' else self.tmp(st, fn[1])
        out = [(st, None)]
        for i in range(a[3][1], b[3][1]):
            nxt = []
            for s, e in out:
                if e is not None:
                    nxt.append((s, e))
                    continue
                el = self.sub(a[2][1], ('[]', C(i)))
                arg = ('l', ('&', el)) if op.params[0].type().k in ('lref', 'rref') else \
                    ('v', self.load(s, el))
                for s2, r in self.call(s, fr, op, floc, [arg], nodeloc(fr.tu, n)):
                    if isinstance(r, Throw):
                        nxt.append((s2, r))
                        continue
                    if r[0] == '&':
                        r = self.load(s2, r[1])
                    it = self.items(self.load(s2, o[2][1]))
                    if it is None:
                        return None
                    self.store(s2, o[2][1], self.vecval(s2, it + [r]))
                    nxt.append((s2, None))
            out = nxt
        return [(s, o if e is None else e) for s, e in out]

    def ev(self, st, fr, n):
        """Numbers too large to be reached are taken to be the largest that is:
        what is right whatever they are is right for this one."""
        r = super().ev(st, fr, n)
        if not self.ANYLOOP and ('cv' in n or n['k'] == 'IntegerLiteral') and GENCODE in fr.fn.loc:
            r = [(s, C(3) if v[0] == 'c' and type(v[1]) is int and v[1] > 3 else v) for s, v in r]
        return r

    # -- loops -------------------------------------------------------------
    def grows(self, a, b):
        return any(self.size_total(b.env.get(k)) > self.size_total(v) for k, v in a.env.items())

    def size_total(self, v):
        if not isinstance(v, tuple) or not v:
            return 0
        it = self.items(v) if v[0] in ('app', 'S', 'sym') else None
        if it is not None:
            return len(it)
        if v[0] == 'S':
            return sum(self.size_total(x) for _, x in v[2])
        return 0

    def branch(self, s, v):
        """(In lenient mode every command has one shrink.)"""
        if s.dom.get('lenient') and v[:2] == ('app', 'has') and v[2][:2] == ('app', 'next') and \
                self.decide(s, v) is None:
            q = self.strip(v[2][2])
            r = q[:2] == ('app', 'shrinks')
            return [(s, r)] if self.assume(s, v, r) else []
        return super().branch(s, v)

    def unroll(self, st, fr, n, rng, cond, inc, body, where):
        if rng is not None or self.ANYLOOP:
            return super().unroll(st, fr, n, rng, cond, inc, body, where)
        return self.loop1(st, fr, n, rng, cond, inc, body, None, False)

    ANYLOOP = True      # loops that collect nothing: one generic round

    def rounds(self, st, fr, n, rng, cond, inc, body, cvar, dofirst, where):
        """Rounds in which nothing is left open, and ROUNDS others."""
        out, pend = [], [(st.fork(), 0)]
        for it in range(60):
            nxt = []
            for b, k in pend:
                counted = cond is not None and cvar is None and 'cv' not in cond and \
                    not cond['k'].endswith('BoolLiteralExpr') and \
                    len(self.cond(b.fork(), fr, cond)) == 1
                bk, ex = self.iterate(b.fork(), fr, n, rng, cond, inc, body, cvar,
                                      dofirst and not it, where)
                out += ex
                for x in bk:
                    grows = self.grows(b, x)
                    if counted and not grows:
                        nxt.append((x, k))
                        continue
                    k2 = k + (len(bk) + len(ex) > 1 and (grows or not x.dom.get('lenient')))
                    if k2 <= (self.GROW if grows else self.ROUNDS):
                        nxt.append((x, k2))
            pend = nxt
            if not pend:
                return out
        raise Budget('loop does not end at %s' % where)

    def loop1(self, st, fr, n, rng, cond, inc, body, cvar, dofirst):
        where = nodeloc(fr.tu, n)
        if rng is None and self.ANYLOOP:
            backs, exits = self.iterate(st.fork(), fr, n, rng, cond, inc, body, cvar, dofirst, where)
            grows = any(self.grows(st, b) for b in backs)
        if rng is None and (not self.ANYLOOP or grows):
            return self.rounds(st, fr, n, rng, cond, inc, body, cvar, dofirst, where)
        return super().loop1(st, fr, n, rng, cond, inc, body, cvar, dofirst)





class Ran(Exception):
    """The oracle needs to know what user code did that was not called."""


def cmds(ip, v):
    """The commands in a vector."""
    it = ip.items(v)
    if it is None:
        if v == app('emptycont'):
            return []
        if EMPTYC.match(ip.strip(v)[1] if ip.strip(v)[0] in ('sym', 'app') else ''):
            return []
        return None
    return [norm(x) for x in it]


def fact(s, what, *key):
    return s.facts.get(app(what, *key))


def tell(c):
    return show(c)[:160]


# -- generation --------------------------------------------------------------
def number(t, env):
    """The value of an arithmetic term."""
    if t[0] == 'c':
        return t[1]
    if t in env:
        return env[t]
    if t[0] != 'app':
        raise KeyError(t)
    if t[1] == 'number':
        return env['number']
    if t[1] == '!':
        return not number(t[2], env)
    if len(t) != 4:
        raise KeyError(t)
    a, b = number(t[2], env), number(t[3], env)
    return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '%': lambda: a % b,
            '/': lambda: a // b, '<': lambda: a < b, '==': lambda: a == b,
            '<=': lambda: a <= b}[t[1]]()


def feasible(s, size, num):
    for k, x in s.facts.items():
        if k[0] != 'app' or not isinstance(x, bool):
            continue
        try:
            r = bool(number(k, {('sym', 'size'): size, 'number': num}))
        except (KeyError, ZeroDivisionError):
            continue
        if r != x:
            return False
    return True


def generation(rep, P, f, init):
    """Every generated sequence is valid and has a length from 1 to size + 1."""
    ip = St(P)
    n = 0
    lengths = {}
    for s, v in ip.run(f):
        if isinstance(v, Throw):
            if v.tag == 'again':
                continue
            rep.check(not (v.tag == CR and v.val == ip.kind('Discard').val), f.loc,
                      'a discard escapes from the generation of commands', 'no discard escapes')
            bad = [k for k, x in s.facts.items() if k[0] == 'app' and k[1] in (
                'pre', 'apply', 'value') and x in ('failure', 'exception')]
            rep.check((v.tag == GF) == (not bad), f.loc, 'generation ends with %s although %s' % (
                v.tag, 'user code threw something else' if bad else 'nothing else was thrown'),
                'gives up only if no command is found')
            continue
        c = cmds(ip, v)
        if c is None:
            raise AnalysisBroken('the commands generated are not understood: %s' % show(v)[:200])
        sizes = [(z, k) for z in range(3) for k in range(6) if feasible(s, z, k)]
        if not sizes and len(c) <= 3:
            continue
        n += 1
        for z, k in sizes:
            lengths.setdefault(z, set()).add(len(c))
            rep.check(1 <= len(c) <= z + 1, f.loc, 'at size %d there can be %d commands' % (z, len(c)),
                      'from 1 to size + 1 commands')
        st = init
        streams = []
        for x in c:
            ok = x[:2] == ('app', 'value') and x[2][:2] == ('app', 'gen')
            g = x[2] if ok else None
            rep.check(ok and norm(g[2]) == app('pst::GF::operator()', ('sym', 'g'), st) and
                      norm(g[4]) == ('sym', 'size'), f.loc,
                      'a command is not what the generator for the state it is run in yields at '
                      'the given size: %s in state %s' % (tell(x), tell(st)),
                      'commands are generated for the state they run in')
            rep.check(fact(s, 'pre', x, st) == 'ok', f.loc,
                      'a command is generated although its preconditions were not found to hold in '
                      'the state it is run in: %s in state %s' % (tell(x), tell(st)),
                      'preconditions of generated commands hold')
            if ok:
                streams.append(resolve(g[3], s))
            st = app('applied', x, st)
        rep.check(len(set(streams)) == len(streams), f.loc,
                  'two commands are generated from the same random stream', 'distinct streams')
    rep.need(n, 2, 'ways to generate a sequence')
    for z in range(3):
        rep.check(lengths.get(z) == set(range(1, z + 2)), f.loc,
                  'at size %d the lengths are %s' % (z, sorted(lengths.get(z, ()))),
                  'all lengths from 1 to size + 1 at size %d' % z)
    rep.analysed(ip)


def resolve(v, s):
    """Loop state by what it starts from."""
    accs = {norm(a): i for _, a, i in s.dom.get('accs', ())}

    def go(x, k=0):
        if not isinstance(x, tuple):
            return x
        if x in accs and k < 20:
            return ('loop', go(norm(accs[x]), k + 1))
        return tuple(go(y, k) for y in x)
    return go(norm(v))


# -- shrinking ---------------------------------------------------------------
def entry(c):
    """(command, random stream, shrinkable) of a generated command."""
    return (c, norm(c[2][3]), c[2]) if c[:2] == ('app', 'value') and \
        c[2][:2] == ('app', 'gen') else None


def states(entries, init):
    out = [init]
    for e in entries:
        out.append(app('applied', e[0], out[-1]))
    return out


def repair(s, entries, st, valid):
    """What remains of the commands from a state on: those whose preconditions
    do not hold are generated anew from their stream, once, or dropped."""
    out = []
    for c, r, sh in entries:
        f = fact(s, 'pre', c, st) or ('ok' if (c, st) in valid else None)
        if f is None:
            raise Ran('%s is kept or dropped without looking at its preconditions' % tell(c))
        if f == 'discard':
            sh = norm(app('gen', app('pst::GF::operator()', ('sym', 'g'), st), r, ('sym', 'size')))
            c = app('value', sh)
            f = fact(s, 'value', sh)
            if f is None:
                raise Ran('a command whose preconditions do not hold is not generated anew')
            if f != 'ok':
                continue
            f = fact(s, 'pre', c, st)
            if f is None:
                raise Ran('the preconditions of a command generated anew are not looked at')
            if f == 'discard':
                continue
        out.append((c, r, sh))
        st = app('applied', c, st)
    return out


def derived(sh, q):
    """Is sh an element of the sequence q?  -> elements before it, or None"""
    before = []
    while sh[:2] == ('app', '.') and sh[3] in ('*', ('*',)) or sh[:2] == ('app', 'some'):
        sh = sh[2]
    if sh[:2] != ('app', 'next'):
        return None
    r = sh[2]
    while r[:2] == ('app', 'rest'):
        before.append(app('.', app('next', r[2]), '*'))
        r = r[2]
    return before if r == q else None


def candidates(s, entries, init, result, valid):
    """(name, expected entries or Ran) for all shrinks there may be."""
    n = len(entries)
    sts = states(entries, init)
    for l in range(n):
        for r in range(l + 1, n + 1):
            try:
                yield ('remove', l, r), repair(s, entries[:l] + entries[r:], init, valid)
            except Ran as e:
                yield ('remove', l, r), e
    for i in range(min(n, len(result))):
        c = result[i]
        if c[:2] != ('app', 'value'):
            continue
        sh = c[2]
        before = derived(sh, app('shrinks', entries[i][2]))
        if before is None:
            continue
        if fact(s, 'pre', c, sts[i]) != 'ok':
            yield ('replace', i), Ran('a shrunk command is used although its preconditions were not '
                                      'found to hold')
            continue
        if any(fact(s, 'pre', norm(app('value', b)), sts[i]) == 'ok' for b in before):
            yield ('replace', i), Ran('a shrunk command is passed over although its preconditions hold')
            continue
        try:
            yield ('replace', i), entries[:i] + [(c, entries[i][1], sh)] + repair(
                s, entries[i + 1:], app('applied', c, sts[i]), valid)
        except Ran as e:
            yield ('replace', i), e


def pairs(entries, init):
    return set(zip([e[0] for e in entries], states(entries, init)))


def judge(rep, f, s, entries, init, result, valid, what):
    """-> (name, entries) of the shrink the result is."""
    st, good = init, True
    for c in result:
        good &= fact(s, 'pre', c, st) == 'ok' or (c, st) in valid
        st = app('applied', c, st)
    rep.check(good, f.loc, '%s: a shrink of %d commands holds a command whose preconditions were not '
              'found to hold in the state it is run in: %s' % (
                  what, len(entries), ', '.join(tell(c) for c in result)), 'shrinks are valid')
    why, found = None, None
    for name, e in candidates(s, entries, init, result, valid):
        if isinstance(e, Ran):
            why = why or e
        elif [x[0] for x in e] == result:
            found = found or (name, e)
    rep.check(found is not None, f.loc,
              '%s: a shrink of %d commands is neither the sequence without some range nor with one '
              'command shrunk, repaired%s: it is %s' % (
                  what, len(entries), ' (%s)' % why if why else '',
                  ', '.join(tell(c) for c in result) or 'empty'),
              'shrinks remove a range or shrink one command')
    return found


def part(ip, v, *path):
    for k in path:
        v = ip.proj(v, k)
    return v


def maybe(ip, v):
    """Value held by a Maybe, or None."""
    v = norm(v)
    if v in (NONE, ('sym', 'global:rc::Nothing')):
        return None
    if v[:2] == ('app', 'some'):
        return v[2]
    return v


F, S = 'std::pair::first', 'std::pair::second'


def shrinks(rep, P, fns, name, n):
    """Judges all results of a probe function -> shrinks nothing was wrong with."""
    f = fns[name]
    init = ('sym', 'm')
    ip = St(P)
    ip.ANYLOOP = False
    ip.GROW = n
    path = (F,) if name.startswith('shrink2') else ()
    seen, deeper = [], 0
    for s, v in ip.run(f):
        if isinstance(v, Throw):
            rep.check(False, f.loc, 'shrinking throws %s' % v.tag)
            continue
        c = cmds(ip, part(ip, v, *path, F))
        es = [entry(x) for x in c or [C(0)]]
        x = maybe(ip, part(ip, v, *path, S))
        if None in es or x is None:
            continue
        got = cmds(ip, x)
        if got is None:
            raise AnalysisBroken('the shrink is not understood: %s' % show(x)[:200])
        fd = judge(rep, f, s, es, init, got, pairs(es, init), name)
        if fd is not None and not any(y != 'ok' for k, y in s.facts.items()
                                      if k[0] == 'app' and k[1] in ('pre', 'value')):
            seen.append((len(es), fd[0]))
        y = maybe(ip, part(ip, v, S)) if path and fd is not None else None
        if y is not None:
            two = cmds(ip, y)
            if two is None:
                raise AnalysisBroken('the shrink is not understood: %s' % show(y)[:200])
            deeper += 1
            judge(rep, f, s, fd[1], init, two, pairs(es, init) | pairs(fd[1], init), name)
    rep.analysed(ip)
    return seen, deeper


def constants(P):
    """The numbers other than 0 and 1 in the code that shrinks."""
    out = set()

    def go(n):
        if isinstance(n, (list, tuple)):
            for x in n:
                go(x)
        elif isinstance(n, dict):
            v = n.get('cv') or (n.get('v') if n.get('k') == 'IntegerLiteral' else None)
            try:
                out.add(abs(int(v or 0)))
            except ValueError:
                pass
            for x in n.values():
                if isinstance(x, (dict, list, tuple)):
                    go(x)
    for f in P.functions:
        if f.body is not None and GENCODE in f.loc:
            go(f.body)
    return out - {0, 1}


def bound(P, tier):
    """How many commands sequences need to have for their shrinks to show all
    the code does: one and a number of neighbours more than any number the code
    compares with."""
    c = constants(P)
    return 5 if tier == 'thorough' or any(x > 2 for x in c) else 4


def shrinking(rep, P, fns, tier):
    top = bound(P, tier)
    ks = top * (top + 1) // 2 + top
    names = ['shrink<%d>' % k for k in range(ks)] + sorted(k for k in fns if k[:7] == 'shrink2')
    res = parallel(rep, names, lambda r, k: shrinks(r, P, fns, k, 2 if k[6] == '2' else top))
    seen = {x for s, _ in res for x in s}
    for n in range(1, top + 1):
        want = [('remove', l, r) for l in range(n) for r in range(l + 1, n + 1)]
        want += [('replace', i) for i in range(n)]
        for w in want:
            rep.check((n, w) in seen, fns['shrink<0>'].loc,
                      'of %d commands there is no shrink to %s' % (
                          n, 'remove those from %d to %d' % w[1:] if w[0] == 'remove' else
                          'replace command %d by its shrink' % w[1]),
                      'every range is removed and every command shrunk')
    rep.need(sum(d for _, d in res), 20, 'shrinks of shrinks')


# -- running -----------------------------------------------------------------
ENDS = {'discard': 'discard', 'failure': 'failure', 'exception': 'exception'}


def simulate(s, cs, st, steps, sut=None):
    """-> (events, how it ends, state, system)"""
    ev = []
    for c in cs:
        for step in steps:
            key = (c, st, sut) if step == 'run' else (c, st)
            ev.append((step,) + key)
            f = fact(s, step, *key)
            if f is None:
                raise Ran('%s of %s' % (step, tell(c)))
            if step == 'run':
                sut = app('ran', *key)
            if f != 'ok':
                return ev, f, st, sut
            if step == 'apply':
                st = app('applied', c, st)
    return ev, 'ok', st, sut


def ending(ip, v):
    if not isinstance(v, Throw):
        return 'ok'
    for k in ('Discard', 'Failure'):
        if v.tag == CR and v.val == ip.kind(k).val:
            return k.lower()
    return 'exception' if v.tag == 'user' else str(v.tag)


def running(rep, P, fns):
    a, b, m = ('sym', 'a'), ('sym', 'b'), ('sym', 'm')
    mf = app('pst::MI::operator()', m)
    full = ('pre', 'run', 'apply')
    for name, cs, init, steps in (
            ('runAll', [a, b], m, full), ('runAllF', [a, b], mf, full),
            ('applyAll', [a, b], m, ('pre', 'apply')),
            ('isValidSequence', [a, b], m, ('pre', 'apply')),
            ('isValidSequenceF', [a, b], mf, ('pre', 'apply')),
            ('isValidCommand', [a], m, ('pre',)), ('nextState', [a], m, ('apply',)),
            ('check', [('sym', 'c0'), ('sym', 'c1')], m, full),
            ('checkF', [('sym', 'c0'), ('sym', 'c1')], mf, full)):
        f = fns[name]
        ip = St(P)
        k = 0
        for s, v in ip.run(f):
            k += 1
            log = tuple(e for e in s.dom.get('log', ()) if e[0] != 'generate')
            try:
                ev, end, st, sut = simulate(s, cs, init, steps, ('sym', 's'))
            except Ran as e:
                rep.check(False, f.loc, '%s: %s is left out' % (name, e))
                continue
            rep.check(list(log) == ev, f.loc, '%s: does %s' % (name, '; '.join(
                '%s %s' % (e[0], ' '.join(tell(x) for x in e[1:])) for e in log)),
                '%s: %s' % (name, ', '.join(e[0] for e in log)))
            if name.startswith('isValid'):
                ok = end == 'ok' and v == C(1) or end == 'discard' and v == C(0) or \
                    end not in ('ok', 'discard') and ending(ip, v) == end
                rep.check(ok, f.loc, '%s: %s although the commands end with %s' % (
                    name, 'throws %s' % v.tag if isinstance(v, Throw) else 'is ' + show(v), end),
                    '%s is true, false or rethrows' % name)
            else:
                rep.check(ending(ip, v) == end, f.loc, '%s: ends with %s although the commands end '
                          'with %s' % (name, ending(ip, v), end), '%s: ends with %s' % (name, end))
            if name in ('applyAll', 'nextState') and not isinstance(v, Throw):
                got = norm(s.env.get(('h', 'arg:m'))) if name == 'applyAll' else norm(v)
                rep.check(got == st, f.loc, '%s: the state is %s' % (name, tell(got)),
                          '%s: applies the commands to the state' % name)
            if name == 'nextState':
                rep.check(norm(s.env.get(('h', 'arg:m'))) == m, f.loc,
                          'nextState changes the state given', 'nextState copies')
            if name.startswith('check'):
                gens = [e for e in s.dom.get('log', ()) if e[0] == 'generate']
                want = {e for s2, _ in St(P).run(fns[name + 'Gen']) for e in s2.dom['log']}
                rep.check(set(gens) == want and len(gens) == 1, f.loc,
                          '%s: the commands are not those of gen::commands for the initial state' % name,
                          '%s: generates commands for the state' % name)
        rep.need(k, 2, 'paths of %s' % name)
        rep.analysed(ip)


def run(rep, tier):
    P = M.Program(['probe/p_state'])
    if P.diags:
        raise AnalysisBroken('probe does not compile: %s' % list(P.diags.values())[0][:1])
    fns = {}
    for f in P.functions:
        if f.q.startswith('pst::') and f.body is not None and f.inprobe:
            ta = f.get('targs') or []
            ta = [str(t['int']) for t in ta if isinstance(t, dict) and 'int' in t]
            fns[f.q[5:] + ('<%s>' % ','.join(ta) if ta else '')] = f
    rep.rule('gen::commands is interpreted with an opaque model, system and command generator; '
             'checkPreconditions, apply, run and the generator may succeed, discard, fail, give up or '
             'throw: on every path each command of the sequence generated was found valid in the '
             'state that applying the commands before it to the initial state yields')
    generation(rep, P, fns['initial'], ('sym', 'm'))
    generation(rep, P, fns['initialF'], app('pst::MI::operator()', ('sym', 'm')))
    rep.rule('the shrinks of sequences of one to four commands (five, if the code holds larger numbers), and their shrinks, are the sequence '
             'without each range and with each command replaced by a valid shrink, where commands that '
             'have become invalid are generated anew from their own random stream or dropped')
    shrinking(rep, P, fns, tier)
    rep.rule('runAll, applyAll, isValidSequence, isValidCommand, nextState and check call '
             'checkPreconditions, run and apply of each command in order with the model state reached '
             'so far, until one of them throws')
    running(rep, P, fns)
    laws.decide(rep, 'lst', [
        ('state::gen::execOneOf', 'picks one of the command types by a part of the random stream and '
         'constructs it from the state if it can be, with the rest', 'pick'),
        ('state::gen::execOneOfWithArgs', 'picks one of the command types and constructs it from the '
         'arguments if it can be', 'args')], 'probe/p_oneof', Exec)
