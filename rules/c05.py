"""C05: the final report of a failing, given-up or successful property."""
from rcbase import *

TITLE = 'A failure report is complete, reproducible and describes the minimal case'

SR = 'rc::detail::SearchResult::'
CD = 'rc::detail::CaseDescription::'


class I(RC):
    OPAQUE = RC.OPAQUE + ('rc::detail::searchProperty', 'rc::detail::shrinkTestCase',
                          'rc::shrinkable::walkPath', 'rc::beforeMinimalTestCase')

    def fresh_call(self, name, d):
        # running a case twice is observable
        return super().fresh_call(name, d)


def variant(v):
    v = unwrap(v)
    if v[0] == 'app' and v[1] == 'variant':
        return v[2][1], v[3]
    return None, None


def order(evs, a, b):
    ia = [i for i, e in enumerate(evs) if e is a][0]
    ib = [i for i, e in enumerate(evs) if e is b][0]
    return ia < ib


def final_run(rep, f, evs, minimal, val, reproduce, path, what):
    """The minimal case is run exactly once, after the breakpoint hook, and the
    report is made from that run."""
    runs = calls(evs, 'rc::Shrinkable::value')
    hook = calls(evs, 'rc::beforeMinimalTestCase')
    rep.check(len(runs) == 1 and len(hook) == 1 and order(evs, hook[0], runs[0]), f.loc,
              '%s: the minimal case is run %d times with %d hook calls before it' % (
                  what, len(runs), len(hook)), what + ': hook, then one run of the minimal case')
    if len(runs) != 1:
        return
    rep.check(unwrap(runs[0].recv) == minimal, f.loc, what + ': the case that is reported is not '
              'the minimal one')
    d = runs[0].ret
    rep.check(field(val, 'description') == app('.', app('.', d, CD + 'result'),
                                               'rc::detail::CaseResult::description'), f.loc,
              what + ': the description is not that of the minimal case',
              what + ': description from the minimal case')
    ex = [e for e in evs if e.kind == 'call' and e.name == 'std::function::operator()' and
          e.recv == app('.', d, CD + 'example')]
    rep.check(len(ex) >= 1 and field(val, 'counterExample') in [e.ret for e in ex], f.loc,
              what + ': the counterexample is not that of the minimal case',
              what + ': counterexample from the minimal case')


def run(rep, tier):
    P = M.Program()
    RT = enum_values(P, 'rc::detail::SearchResult::Type')
    V = enum_values(P, 'rc::detail::CaseResult::Type')
    rep.rule('path summary of the test driver for every search outcome: result kind, counts, '
             'description, counterexample and reproduction data must be the ones of the search '
             'outcome / minimal case; shrinking happens unless disabled; the end of the test is '
             'announced exactly once with the returned result')
    f = P.find('rc::detail::testProperty')[0]
    ip = I(P)
    res = ip.run(f)
    rep.analysed(ip)
    prm = ('sym', f.params[2].n)
    seen = set()
    for s, v in res:
        rep.count('paths')
        if isinstance(v, Throw):
            rep.check(False, f.loc, 'the test driver throws %s' % v.tag)
            continue
        evs = s.events()
        se = calls(evs, 'rc::detail::searchProperty')
        rep.check(len(se) == 1 and se[0].args[:2] == (('sym', f.params[0].n), prm), f.loc,
                  'the property is not searched exactly once with the given parameters')
        if len(se) != 1:
            continue
        sr = se[0].ret
        fin = calls(evs, 'rc::detail::TestListener::onTestFinished')
        rep.check(len(fin) == 1 and fin[0] is [e for e in evs if e.kind == 'call'][-1] and
                  fin[0].args == (('sym', f.params[1].n), v), f.loc,
                  'the end of the test is announced %d times, or not with the returned result' %
                  len(fin), 'onTestFinished once with the returned result')
        kind, val = variant(v)
        for tn, tv in RT.items():
            if not consistent(s, {app('.', sr, SR + 'type'): tv}):
                continue
            seen.add(tn)
            want = {'Success': 'rc::detail::SuccessResult', 'GaveUp': 'rc::detail::GaveUpResult',
                    'Failure': 'rc::detail::FailureResult'}[tn]
            rep.check(kind == want, f.loc, 'a search that ends with %s is reported as %s' % (
                tn, kind), '%s -> %s' % (tn, want))
            if kind != want:
                continue
            rep.check(field(val, 'numSuccess') == app('.', sr, SR + 'numSuccess'), f.loc,
                      '%s: the reported number of successes is not that of the search' % tn)
            fl = ip.proj(app('.', sr, SR + 'failure'), '*')
            shr = app('.', fl, SR + 'Failure::shrinkable')
            if tn == 'GaveUp':
                rep.check(field(val, 'description') == app('.', app('.', app(
                    'rc::Shrinkable::value', shr), CD + 'result'),
                    'rc::detail::CaseResult::description'), f.loc,
                    'the description of a given-up test is not that of the last discarded case')
            if tn == 'Failure':
                dis = s.facts.get(app('.', prm, 'rc::detail::TestParams::disableShrinking'))
                sh = calls(evs, 'rc::detail::shrinkTestCase')
                if dis is None:
                    rep.check(False, f.loc, 'whether to shrink does not depend on the parameters')
                    continue
                rep.check(len(sh) == (0 if dis else 1), f.loc, 'shrinking is done %d times with '
                          'disableShrinking=%s' % (len(sh), dis), 'disableShrinking=%s' % dis)
                rec = field(val, 'reproduce')
                path = unwrap(field(rec, 'shrinkPath'))
                if dis:
                    minimal = shr
                    rep.check(ip.items(path) == [], f.loc,
                              'a shrink path is reported although shrinking is disabled')
                elif sh:
                    rep.check(unwrap(sh[0].args[0]) == shr, f.loc,
                              'the case that is shrunk is not the one that failed')
                    minimal = app('.', sh[0].ret, 'std::pair::first')
                    rep.check(path == app('.', sh[0].ret, 'std::pair::second'), f.loc,
                              'the reported shrink path is not the one that was taken')
                else:
                    continue
                seen.add(('shrink', dis))
                for k in ('random', 'size'):
                    rep.check(unwrap(field(rec, k)) == app('.', fl, SR + 'Failure::' + k), f.loc,
                              'the reported %s is not the one the failing case was generated with'
                              % k, 'reported %s is that of the failing case' % k)
                final_run(rep, f, evs, minimal, val, None, None, 'failure report')
    rep.need(len(seen), 5, 'search outcomes handled')
    # the distribution counts every recorded tag list once
    n = 0
    for where, pre, head, backs, exits in ip.loops:
        for s in backs:
            inc = None
            for e in since_loop(s.events()):
                if e.kind == 'call' and e.name == 'std::map::operator[]':
                    inc = e
            if inc is None:
                continue
            n += 1
            loc = ip.sub(inc.recvloc, ('operator[]', inc.args[0]))
            before = ip.proj(ip.load(s, inc.recvloc), ('operator[]', inc.args[0]))
            b = before
            rep.check(b[0] == 'app' and b[1] == '+' and b[3] == C(1), where,
                      'a recorded tag list does not add exactly one to its count',
                      'distribution[tags] + 1 per recorded list')
    rep.check(n >= 1, f.loc, 'the distribution is not computed from the recorded tags')
    # ---- reproduction ---------------------------------------------------
    rep.rule('path summary of the reproduction driver: the case at the recorded path of '
             'property(random, size) is run once; a missing path or a verdict other than failure '
             'is an error, a failure is reported with the same reproduction data')
    f = P.find('rc::detail::reproduceProperty')[0]
    ip = I(P)
    res = ip.run(f)
    rep.analysed(ip)
    arg = ('sym', f.params[1].n)
    R = 'rc::detail::Reproduce::'
    kinds = set()
    for s, v in res:
        rep.count('paths')
        if isinstance(v, Throw):
            rep.check(False, f.loc, 'the reproduction driver throws %s' % v.tag)
            continue
        evs = s.events()
        g = calls(evs, 'rc::Gen::operator()')
        w = calls(evs, 'rc::shrinkable::walkPath')
        ok = len(g) == 1 and g[0].args == (app('.', arg, R + 'random'), app('.', arg, R + 'size')) \
            and len(w) == 1 and unwrap(w[0].args[0]) == g[0].ret and \
            w[0].args[1] == app('.', arg, R + 'shrinkPath')
        rep.check(ok, f.loc, 'the reproduced case is not the one at the recorded path of the '
                  'recorded generator state and size', 'case = path(property(random, size))')
        if not ok:
            continue
        kind, val = variant(v)
        has = s.facts.get(app('has', w[0].ret))
        if has is not True:
            rep.check(has is False and kind == 'rc::detail::Error', f.loc,
                      'a path that does not exist is reported as %s' % kind, 'no such path -> Error')
            kinds.add('nopath')
            continue
        minimal = ip.proj(w[0].ret, '*')
        ty = app('.', app('.', app('rc::Shrinkable::value', minimal), CD + 'result'),
                 'rc::detail::CaseResult::type')
        for tn, tv in V.items():
            if not consistent(s, {ty: tv}):
                continue
            kinds.add(tn)
            if tn != 'Failure':
                rep.check(kind == 'rc::detail::Error', f.loc, 'a reproduced case with verdict %s '
                          'is reported as %s' % (tn, kind), '%s -> Error' % tn)
                continue
            rep.check(kind == 'rc::detail::FailureResult', f.loc,
                      'a reproduced failure is reported as %s' % kind, 'Failure -> FailureResult')
            if kind != 'rc::detail::FailureResult':
                continue
            rec = field(val, 'reproduce')
            rep.check(all(unwrap(ip.proj(rec, R + k)) == app('.', arg, R + k)
                          for k in ('random', 'size', 'shrinkPath')), f.loc,
                      'a reproduced failure does not report the reproduction data it was given')
            final_run(rep, f, evs, minimal, val, None, None, 'reproduced failure')
    rep.need(len(kinds), 4, 'reproduction outcomes handled')
    rep.assume.append('search, shrinking and path walking are taken by their contracts, which are '
                      'checked separately')
