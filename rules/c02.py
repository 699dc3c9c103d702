"""C02: precedence of several results reported during one test case."""
from rcbase import *
from itertools import product

TITLE = 'Discard beats failure beats success over all results of one test case'


def enum_values(P, q):
    e = [r for r in P.decls('Enum') if r.q == q]
    if not e:
        raise AnalysisBroken(q + ' not found')
    return {c['n']: c['v'] for c in e[0].get('consts')}


def run(rep, tier):
    P = M.Program()
    V = enum_values(P, 'rc::detail::CaseResult::Type')
    names = {v: k for k, v in V.items()}
    rep.rule('typestate of the per-test-case context: starting from the constructed context apply '
             'the transfer function of reportResult for every sequence of up to three reports of '
             'every type (all reachable verdict states and all transitions between them), then '
             'the summary of result(); the resulting verdict, the retained messages, log and '
             'tags must be those of the precedence rule')
    ctxs = [r for r in P.decls('Record') if 'fields' in r.d and r.inrepo and
            'rc::detail::PropertyContext' in RC(P).bases(r)]
    real = []
    for r in {r.q: r for r in ctxs}.values():
        ms = [f for f in P.functions if f.rec is not None and f.rec.q == r.q]
        if any(f.n == 'result' for f in ms):
            real.append((r, {f.n: f for f in ms}, [f for f in ms if f.k == 'Ctor' and not f.params]))
    rep.need(len(real), 1, 'contexts that collect results')
    for r, ms, ctors in real:
        if not ctors:
            raise AnalysisBroken('no default constructor of %s' % r.q)
        depth = 3 if tier == 'quick' else 4
        for n in range(0, depth + 1):
            sequence(P, rep, r, ms, ctors[0], n, V, names)
        tags(P, rep, r, ms, ctors[0])


def start(ip, ctor, r):
    loc = ('L', ('h', 'ctx'), ())
    st = State()
    st.env[loc[1]] = ('S', ('sym', 'obj:' + r.q), ())
    return [(s, loc) for s, v in ip.call(st, None, ctor, loc, [], ctor.loc)
            if not isinstance(v, Throw)]


def sequence(P, rep, r, ms, ctor, n, V, names):
    TY, DE = 'rc::detail::CaseResult::type', 'rc::detail::CaseResult::description'
    for combo in product(sorted(V.values()), repeat=n):
        ip = RC(P)
        states = start(ip, ctor, r)
        loc = ('L', ('h', 'ctx'), ())
        ok = True
        for i, t in enumerate(combo):
            nxt = []
            for s, _ in states:
                base = ('h', 'r%d' % i)
                s.env[base] = ('S', ('sym', 'r%d' % i), ((TY, C(t)), (DE, ('sym', 'd%d' % i))))
                for s2, v in ip.call(s, None, ms['reportResult'], loc,
                                     [('l', ('&', ('L', base, ())))], ms['reportResult'].loc):
                    if isinstance(v, Throw):
                        rep.check(False, ms['reportResult'].loc, 'reportResult throws')
                        continue
                    if s2.env.get(base) is not None:
                        rep.check(field(s2.env[base], 'description') == ('sym', 'd%d' % i),
                                  ms['reportResult'].loc, 'reportResult modifies the reported result')
                    nxt.append((s2, v))
            states = nxt
        if not states:
            raise AnalysisBroken('no path through the report sequence')
        D = [i for i, t in enumerate(combo) if t == V['Discard']]
        F = [i for i, t in enumerate(combo) if t == V['Failure']]
        if D:
            want, keep = V['Discard'], [D[0]]
        elif F:
            want, keep = V['Failure'], F
        else:
            want, keep = V['Success'], [n - 1] if n else []
        seqn = '[%s]' % ', '.join(names[t] for t in combo)
        for s, _ in states:
            for s2, v in ip.call(s, None, ms['result'], loc, [], ms['result'].loc):
                if isinstance(v, Throw):
                    rep.check(False, ms['result'].loc, 'result() throws')
                    continue
                rep.count('paths')
                res = field(v, 'result')
                got = field(res, 'type') if res is not None else None
                rep.check(got == C(want), ms['reportResult'].loc,
                          'reports %s yield verdict %s instead of %s' % (
                              seqn, names.get(got[1], got) if got and got[0] == 'c' else got,
                              names[want]),
                          '%s -> %s' % (seqn, names[want]))
                desc = field(res, 'description')
                ps = parts(desc) if desc is not None else []
                msgs = [int(p[1][1:]) for p in ps if p[0] == 'sym' and p[1][0] == 'd' and
                        p[1][1:].isdigit()]
                rep.check(msgs == keep, ms['result'].loc,
                          'reports %s keep the messages of reports %s instead of %s' % (
                              seqn, [m + 1 for m in msgs], [k + 1 for k in keep]),
                          '%s keeps messages %s' % (seqn, keep))
        rep.analysed(ip)


def tags(P, rep, r, ms, ctor):
    """tags are delivered completely and in order; non-empty log text is appended"""
    ip = RC(P)
    loc = ('L', ('h', 'ctx'), ())
    states = start(ip, ctor, r)
    for i in range(2):
        nxt = []
        for s, _ in states:
            nxt += ip.call(s, None, ms['addTag'], loc, [('v', ('sym', 't%d' % i))], ms['addTag'].loc)
        states = nxt
    logs = []
    for s, _ in states:
        for s2, v in ip.call(s, None, ms['logStream'], loc, [], ms['logStream'].loc):
            if v[0] != '&':
                raise AnalysisBroken('logStream does not return an object')
            ip.store(s2, v[1], app('mod:std::operator<<', ip.load(s2, v[1]), ('sym', 'logged')))
            logs.append(s2)
    n = 0
    for s in logs:
        for s2, v in ip.call(s, None, ms['result'], loc, [], ms['result'].loc):
            if isinstance(v, Throw):
                continue
            it = ip.items(field(v, 'tags')) if field(v, 'tags') is not None else None
            rep.check(it == [('sym', 't0'), ('sym', 't1')], ms['addTag'].loc,
                      'the tags of the test case are not delivered completely and in order')
            desc = field(field(v, 'result'), 'description')
            empt = emptiness(s2.facts, ('sym', 'logged'))
            has = ('sym', 'logged') in parts(desc)
            if has:
                n += 1
            rep.check(empt is True or has, ms['result'].loc, 'text written to the log is dropped')
    rep.check(n > 0, ms['result'].loc, 'text written to the log never reaches the description')
    rep.analysed(ip)

