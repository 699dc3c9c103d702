"""C03: accounting of the random search."""
from rcbase import *

TITLE = 'The search stops exactly at enough successes, first failure or too many discards'

PAR = 'rc::detail::TestParams::'


def run(rep, tier):
    P = M.Program()
    V = enum_values(P, 'rc::detail::CaseResult::Type')
    RT = enum_values(P, 'rc::detail::SearchResult::Type')
    rtn = {v: k for k, v in RT.items()}
    rep.rule('summary of the search loop (generic iteration from arbitrary counters): a decision '
             'table over verdict, successes, discards and limits must send every iteration to the '
             'documented outcome; exactly one test case is generated, run and announced per '
             'iteration, from a fresh split of the generator seeded with the configured seed; the '
             'recorded failure is the test case, size and generator of that iteration')
    f = P.find('rc::detail::searchProperty')[0]
    ip = RC(P)
    res = ip.run(f)
    rep.analysed(ip)
    for s, v in res:
        if isinstance(v, Throw):
            rep.check(False, f.loc, 'the search throws %s' % v.tag)
    main = [l for l in ip.loops if any(calls(since_loop(s.events()), 'rc::Gen::operator()')
                                       for s in l[3] + [x[0] for x in l[4]])]
    if len(main) != 1:
        raise AnalysisBroken('%d loops run test cases in searchProperty' % len(main))
    where, pre, head, backs, exits = main[0]
    # the counters: what a run without failure reports
    prm = ('sym', 'params')
    Mx, Rt = app('.', prm, PAR + 'maxSuccess'), app('.', prm, PAR + 'maxDiscardRatio')
    early = [(s, v) for s, v in res if not isinstance(v, Throw) and
             not any(e.kind == 'loop' and e.where == where for e in s.events())]
    res = [(s, v) for s, v in res if not any(s is x for x, _ in early)]
    for s, v in early:
        for mx in range(0, 4):
            if consistent(s, {Mx: mx}):
                rep.check(mx <= 0 and field(v, 'type') == C(RT['Success']) and
                          not calls(s.events(), 'rc::Gen::operator()'), f.loc,
                          'the search returns %s without searching (max %d successes)' %
                          (show(field(v, 'type')), mx))
    ok = [(s, v) for s, v in res if not isinstance(v, Throw) and
          not calls(since_loop(s.events()), 'rc::Gen::operator()')]
    if not ok:
        rep.check(False, f.loc, 'the search cannot end with success')
        return
    vals = {(field(v, 'numSuccess'), field(v, 'numDiscarded')) for s, v in ok}
    if len(vals) != 1:
        raise AnalysisBroken('several counters')
    N, D = next(iter(vals))
    nl, dl = locate(head, N), locate(head, D)
    for c, l, what in ((N, nl, 'successful'), (D, dl, 'discarded')):
        rep.check(c[0] == 'sym' and l is not None, f.loc,
                  'the number of %s test cases is not counted by the search loop' % what)
        if c[0] != 'sym' or l is None:
            return
        rep.check(at(ip, pre, l) == C(0), f.loc, 'the number of %s test cases does not start at 0'
                  % what, 'counter starts at 0')
    paths = []
    for s in backs:
        paths.append((s, 'continue', None))
    for s, v in res:
        if not isinstance(v, Throw):
            paths.append((s, 'return', v))
    rep.need(len(paths), 5, 'paths of the search loop')
    info = []
    for s, kind, v in paths:
        evs = since_loop(s.events())
        runs = calls(evs, 'rc::Gen::operator()')
        vals_ = calls(evs, 'rc::Shrinkable::value')
        anns = calls(evs, 'rc::detail::TestListener::onTestCaseFinished')
        info.append((s, kind, v, runs, vals_, anns))
        rep.count('paths')
        if not runs:
            rep.check(not vals_ and not anns and kind == 'return', f.loc,
                      'an iteration of the search runs or announces no test case of its own')
            continue
        okone = len(runs) == 1 and len(vals_) == 1 and len(anns) == 1
        rep.check(okone, f.loc, 'one iteration of the search generates %d, runs %d and announces '
                  '%d test cases' % (len(runs), len(vals_), len(anns)), 'one case per iteration')
        if not okone:
            continue
        desc = vals_[0].ret
        rep.check(vals_[0].recv == runs[0].ret, runs[0].where,
                  'the test case that is run is not the one just generated')
        rep.check(anns[0].args[0] == desc, anns[0].where,
                  'the listener is not given the test case that was just run', 'listener gets the case')
        # generator
        g = runs[0].args[0]
        src = g[2] if g[0] == 'app' and g[1] == 'rc::Random::split' else None
        lr = locate(head, src) if src is not None else None
        good = lr is not None and at(ip, pre, lr) == app('ctor:rc::Random',
                                                         app('.', prm, PAR + 'seed'))
        rep.check(good, runs[0].where, 'the test case is not generated from a fresh split of a '
                  'generator seeded with the configured seed', 'generator is split(Random(seed))')
        if good and kind == 'continue':
            rep.check(at(ip, s, lr) == app('mut:rc::Random::split', src), runs[0].where,
                      'the generator is not advanced by exactly one split per test case')
        if v is not None:
            t = field(v, 'type')
            fl = field(v, 'failure')
            if t in (C(RT['Failure']), C(RT['GaveUp'])):
                fv = fl[2] if fl and fl[0] == 'app' and fl[1] == 'some' else None
                rep.check(fv is not None and field(fv, 'random') == g and
                          field(fv, 'size') == runs[0].args[1] and
                          field(fv, 'shrinkable') == runs[0].ret, f.loc,
                          'the recorded %s does not carry the test case, size and generator of the '
                          'iteration that caused it' % rtn[t[1]], 'failure record matches the iteration')
    # decision table
    M_ = (0, 1, 2, 5) if tier == 'quick' else tuple(range(0, 9))
    R_ = (0, 1, 3) if tier == 'quick' else (0, 1, 2, 3, 7)
    undecided = 0
    for mx in M_:
        for rt in R_:
            for n in range(0, mx + 1):
                for d in range(0, mx * rt + 1):
                    env0 = {N: n, D: d, Mx: mx, Rt: rt}
                    for tn, tv in V.items():
                        outs = set()
                        for s, kind, v, runs, vals_, anns in info:
                            env = dict(env0)
                            if runs and vals_:
                                env[app('.', app('.', vals_[0].ret, 'rc::detail::CaseDescription::result'),
                                        'rc::detail::CaseResult::type')] = tv
                            if not consistent(s, env):
                                continue
                            if kind == 'return':
                                t = field(v, 'type')
                                outs.add(('stop', rtn.get(t[1] if t and t[0] == 'c' else None),
                                          evalterm(field(v, 'numSuccess'), env),
                                          evalterm(field(v, 'numDiscarded'), env)))
                            else:
                                outs.add(('go', None, evalterm(at(ip, s, nl), env),
                                          evalterm(at(ip, s, dl), env)))
                        if n >= mx:
                            want = ('stop', 'Success', n, d)
                        elif tn == 'Failure':
                            want = ('stop', 'Failure', n, d)
                        elif tn == 'Success':
                            want = ('go', None, n + 1, d)
                        elif d + 1 > rt * mx:
                            want = ('stop', 'GaveUp', n, d + 1)
                        else:
                            want = ('go', None, n, d + 1)
                        rep.check(outs == {want}, where,
                                  'after %d successes and %d discards (max %d successes, discard '
                                  'ratio %d) a test case with verdict %s leads to %s instead of %s'
                                  % (n, d, mx, rt, tn, sorted(outs, key=repr), want),
                                  '%s with %d/%d successes, %d discards -> %s' % (tn, n, mx, d, want))
    # tags: recorded for successes only, and never lost
    tl = {field(v, 'tags') for s, v in ok}
    T = next(iter(tl))
    tloc = locate(head, T) if T is not None else None
    rep.check(tloc is not None, f.loc, 'the tags of successful test cases are not collected')
    if tloc is None:
        return
    for s, kind, v, runs, vals_, anns in info:
        if kind != 'continue' or not vals_:
            continue
        tg = app('.', vals_[0].ret, 'rc::detail::CaseDescription::tags')
        ty = app('.', app('.', vals_[0].ret, 'rc::detail::CaseDescription::result'),
                 'rc::detail::CaseResult::type')
        base, items = pushes(at(ip, s, tloc))
        k = s.facts.get(('val', ty))
        if k == V['Success']:
            e = emptiness(s.facts, tg)
            rep.check(base == T and (items == [tg] or (e is True and items == [])), f.loc,
                      'the tags of a successful test case are not recorded exactly once')
        else:
            rep.check(base == T and items == [], f.loc,
                      'the tags of an unsuccessful test case are recorded')
    rep.assume.append('shrinkables, generators and listeners are opaque; their own contracts are '
                      'other properties; counters are compared over the listed grid of limits, '
                      'which covers every ordering of the compared terms')
