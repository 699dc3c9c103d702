"""C06: what a top-level check does and returns."""
from rcbase import *
from itertools import product

TITLE = 'Reproduce mode runs exactly the listed properties; check() is true iff success'


class I(MapModel):
    OPAQUE = RC.OPAQUE + ('rc::detail::testProperty', 'rc::detail::reproduceProperty',
                          'rc::detail::configuration', 'rc::detail::globalTestListener')


class J(RC):
    OPAQUE = RC.OPAQUE + ('rc::detail::checkProperty', 'rc::detail::printResultMessage',
                          'rc::detail::configuration', 'rc::detail::toProperty')


CFG = 'rc::detail::Configuration::'


def gate(P, rep):
    fs = sorted(P.find('rc::detail::checkProperty'), key=lambda f: -len(f.params))
    rep.need(len(fs), 5, 'checkProperty overloads')
    for f in fs:
        ip = I(P)
        res = ip.run(f)
        rep.analysed(ip)
        np = len(f.params)
        cfg = app('deref', app('rc::detail::configuration'))
        prop = ('sym', f.params[0].n)
        meta = ('sym', f.params[1].n) if np > 1 else None
        par = ('sym', f.params[2].n) if np > 2 else app('.', cfg, CFG + 'testParams')
        lis = ('sym', f.params[3].n) if np > 3 else app('deref', app('rc::detail::globalTestListener'))
        mp = ('sym', f.params[4].n) if np > 4 else app('.', cfg, CFG + 'reproduce')
        ID = app('.', meta, 'rc::detail::TestMetadata::id') if meta is not None else \
            app('ctor:std::basic_string')
        for memp, idemp, inn, dis in product((1, 0), repeat=4):
            if memp and inn:
                continue
            env = {app('mapempty', mp): memp, app('mapsize', mp): 1 - memp,
                   app('std::basic_string::empty', ID): idemp,
                   app('std::basic_string::size', ID): 1 - idemp,
                   app('std::basic_string::length', ID): 1 - idemp,
                   app('mapin', mp, ID): inn,
                   app('.', par, 'rc::detail::TestParams::disableShrinking'): dis}
            what = 'reproduction map %s, id %s, id %slisted, disableShrinking=%d' % (
                'empty' if memp else 'not empty', 'empty' if idemp else 'set',
                '' if inn else 'not ', dis)
            n = 0
            for s, v in res:
                if not consistent(s, env):
                    continue
                n += 1
                rep.count('paths')
                if isinstance(v, Throw):
                    rep.check(False, f.loc, what + ': throws %s' % v.tag)
                    continue
                evs = s.events()
                t = calls(evs, 'rc::detail::testProperty')
                r = calls(evs, 'rc::detail::reproduceProperty')
                if memp:
                    ok = len(t) == 1 and not r and v == t[0].ret and t[0].args[0] == prop and \
                        t[0].args[2] == par and t[0].args[3] == lis and \
                        (meta is None or t[0].args[1] == meta)
                    rep.check(ok, f.loc, what + ': the property is not tested normally with the '
                              'given parameters and listener', what + ' -> tested')
                elif idemp or not inn:
                    ok = not t and not r and v[0] == 'app' and v[1] == 'variant' and \
                        v[2] == C('rc::detail::SuccessResult') and \
                        field(v[3], 'numSuccess') == C(0)
                    rep.check(ok, f.loc, what + ': the property is not skipped as an empty success',
                              what + ' -> skipped')
                else:
                    ok = not t and len(r) == 1 and v == r[0].ret and r[0].args[0] == prop
                    if ok:
                        rec = r[0].args[1]
                        e = app('mapped', mp, ID)
                        R = 'rc::detail::Reproduce::'
                        pth = ip.proj(rec, R + 'shrinkPath')
                        ok = ip.proj(rec, R + 'random') == app('.', e, R + 'random') and \
                            ip.proj(rec, R + 'size') == app('.', e, R + 'size') and \
                            (ip.items(pth) == [] if dis else pth == app('.', e, R + 'shrinkPath'))
                    rep.check(ok, f.loc, what + ': the property is not reproduced from its listed '
                              'entry (path dropped exactly when shrinking is disabled)',
                              what + ' -> reproduced')
            rep.check(n > 0, f.loc, what + ': no path handles this case')


def top(P, rep):
    fs = P.find('rc::check')
    rep.need(len(fs), 4, 'rc::check instantiations')
    for f in fs:
        ip = J(P)
        for s, v in ip.run(f):
            rep.count('paths')
            if isinstance(v, Throw):
                rep.check(False, f.loc, 'check() throws %s' % v.tag)
                continue
            evs = s.events()
            c = calls(evs, 'rc::detail::checkProperty')
            pr = calls(evs, 'rc::detail::printResultMessage')
            rep.check(len(c) == 1, f.loc, 'check() checks its property %d times' % len(c))
            if len(c) != 1:
                continue
            want = app('is', C('rc::detail::SuccessResult'), c[0].ret)
            a, b = ip.decide(s, v), ip.decide(s, want)
            rep.check(unwrap(v) == want or (a is not None and a == b), f.loc,
                      'check() returns %s instead of whether the result is a success' % show(v)[:80],
                      'check() == is<SuccessResult>')
            rep.check(len(pr) == 1 and pr[0].args[0] == c[0].ret, f.loc,
                      'the result is not printed exactly once', 'result printed once')
            md = c[0].args[1]
            ds = ('sym', f.params[0].n) if len(f.params) == 2 else None
            got = [ip.proj(md, 'rc::detail::TestMetadata::' + k) for k in ('id', 'description')]
            if ds is not None:
                rep.check(all(unwrap(x) == ds for x in got), f.loc, 'the description given to '
                          'check() is not the id and description of the test', 'id == description')
            else:
                rep.check(all(parts(x) == [] for x in got), f.loc,
                          'check() without a description has a non-empty id')
        rep.analysed(ip)


def run(rep, tier):
    P = M.Program()
    rep.rule('decision table of every checkProperty overload over {reproduction map empty, id '
             'empty, id listed, shrinking disabled}: test normally, skip as success with 0 cases, '
             'or reproduce from the listed entry')
    gate(P, rep)
    rep.rule('rc::check returns exactly whether the single result of its property is a success, '
             'prints that result once and uses the description as the test id')
    top(P, rep)
