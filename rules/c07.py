"""C07: every event of a test run reaches its listeners."""
from rcbase import *

TITLE = 'Every test event reaches every listener exactly once and unchanged'


class L(MapModel):
    UNROLL = INDEX = True
    OPAQUE = RC.OPAQUE + ('rc::detail::LogTestListener', 'rc::detail::ReproduceListener',
                          'rc::detail::reproduceMapToString')

    def model(self, st, fr, g, d, n, recv, avs):
        nm = g.split('::')[-1]
        if recv is not None and g.startswith(('std::unique_ptr::', 'std::__uniq_ptr')):
            v = self.load(st, recv)
            if nm in ('operator->', 'operator*', 'get'):
                p = self.ptr(v)
                if nm == 'operator*':
                    return [(st, ('&', self.deref(p)))]
                return [(st, p)]
            if nm == 'operator bool':
                return [(st, app('set', v))]
        if g in ('std::operator!=', 'std::operator==') and d is not None and len(avs) == 2 and \
                any('unique_ptr' in p.type().strip().s for p in d.params):
            v = self.valof(st, avs[0] if 'unique_ptr' in d.params[0].type().strip().s else avs[1])
            t = app('set', v)
            return [(st, t if nm == 'operator!=' else negate(t))]
        return super().model(st, fr, g, d, n, recv, avs)

    def ptr(self, v):
        while v[0] == 'app' and v[1].startswith('ctor:std::unique_ptr') and len(v) >= 3:
            v = v[2]
        return v if v[0] == '&' else app('ptr', v)


def events_of(P):
    """Names of the events of rc::detail::TestListener."""
    ms = {}
    for tu in P.tus.values():
        for d in tu.decls.values():
            if d.k == 'Method' and d.rec is not None and d.rec.q == 'rc::detail::TestListener' and \
                    d.get('virt') and not d.get('implicit'):
                ms.setdefault(d.n, d)
    return ms


def vecfield(P, rec):
    for i in rec.get('fields', []):
        f = rec.tu.decl(i)
        if f.type().k == 'rec' and f.type().rec.g == 'std::vector':
            return f
    return None


def multicast(P, rep):
    q = 'rc::detail::MulticastTestListener'
    recs = [r for r in P.decls('Record') if r.q == q and 'fields' in r.d]
    if not recs:
        raise AnalysisBroken(q + ' not found')
    fld = vecfield(P, recs[0])
    if fld is None:
        raise AnalysisBroken(q + ': no vector of listeners')
    evs = events_of(P)
    rep.need(len(evs), 3, 'TestListener events')
    # constructor: keeps the listeners
    for c in P.find(q + '::MulticastTestListener'):
        ip = L(P)
        for s, v in ip.run(c):
            kept = ip.load(s, ('L', ('h', 'this'), (fld.key,)))
            rep.check(not isinstance(v, Throw) and contains(kept, ('sym', c.params[0].n)), c.loc,
                      'the constructor does not keep the given listeners',
                      'constructor keeps listeners')
    for name in sorted(evs):
        for f in P.find(q + '::' + name):
            for k in range(0, 4):
                ip = L(P)
                st = State()
                vec = app('ctor:std::vector')
                ls = [('sym', 'listener%d' % i) for i in range(k)]
                for l in ls:
                    vec = app('mut:std::vector::push_back', vec, l)
                st.env[('h', 'this')] = ('S', ('sym', 'this'), ((fld.key, vec),))
                res = ip.run(f, st=st)
                rep.analysed(ip)
                for s, v in res:
                    rep.count('paths')
                    if isinstance(v, Throw):
                        rep.check(False, f.loc, '%s throws %s' % (name, v.tag))
                        continue
                    es = [e for e in s.events() if e.kind == 'call' and e.name ==
                          'rc::detail::TestListener::' + name]
                    other = [e for e in s.events() if e.kind == 'call' and
                             e.name.startswith('rc::detail::TestListener::') and e not in es]
                    want = [app('deref', app('ptr', l)) for l in ls]
                    rep.check([e.recv for e in es] == want, f.loc,
                              '%s reaches %s instead of each of %d listeners once in order' %
                              (name, [show(e.recv) for e in es], k),
                              '%s with %d listeners' % (name, k))
                    args = [('sym', p.n) for p in f.params]
                    rep.check(all(list(e.args) == args for e in es) and not other, f.loc,
                              '%s is not passed on with its own arguments' % name,
                              '%s arguments passed on' % name)
                rep.check(len(res) > 0, f.loc, '%s has no path' % name)


def reproduce(P, rep):
    q = 'rc::detail::ReproduceListener'
    recs = [r for r in P.decls('Record') if r.q == q and 'fields' in r.d]
    if not recs:
        raise AnalysisBroken(q + ' not found')
    maps = [recs[0].tu.decl(i) for i in recs[0].get('fields')]
    maps = [f for f in maps if f.type().k == 'rec' and f.type().rec.g in
            ('std::unordered_map', 'std::map')]
    if len(maps) != 1:
        raise AnalysisBroken('reproduce map field')
    mk = maps[0].key

    class R(L):
        OPAQUE = RC.OPAQUE + ('rc::detail::reproduceMapToString',)
    f = P.find(q + '::onTestFinished')[0]
    ip = R(P)
    meta, result = ('sym', f.params[0].n), ('sym', f.params[1].n)
    ID = app('.', meta, 'rc::detail::TestMetadata::id')
    isf = app('is', C('rc::detail::FailureResult'), result)
    res = ip.run(f)
    rep.analysed(ip)
    for empt in (1, 0):
        for fail in (1, 0):
            env = {app('std::basic_string::empty', ID): empt,
                   app('std::basic_string::size', ID): 1 - empt,
                   app('std::basic_string::length', ID): 1 - empt, isf: fail,
                   app('has', app('rc::detail::Variant::match', result)): fail}
            what = 'a %s test with %s id' % ('failed' if fail else 'not failed',
                                             'an empty' if empt else 'an')
            n = 0
            for s, v in res:
                if not consistent(s, env) or not match_ok(ip, s, isf, fail):
                    continue
                n += 1
                old = app('.', ('sym', 'this'), mk)
                new = ip.load(s, ('L', ('h', 'this'), (mk,)))
                if not fail or empt:
                    rep.check(new == old, f.loc, what + ' is recorded for reproduction',
                              what + ' not recorded')
                else:
                    ok = new != old and contains(new, ID) and \
                        contains(new, app('.', payload(result), 'rc::detail::FailureResult::reproduce'))
                    rep.check(ok, f.loc, what + ' is not recorded with its own reproduction data',
                              what + ' recorded')
            rep.check(n > 0, f.loc, what + ': no path')
    d = P.find(q + '::~ReproduceListener')[0]
    ip = R(P)
    m = app('.', ('sym', 'this'), mk)
    seen = set()
    for s, v in ip.run(d):
        e = None
        for k, b in s.facts.items():
            if k == app('mapempty', m):
                e = bool(b)
        sz = ip.decide(s, app('==', C(0), app('mapsize', m)))
        e = e if e is not None else sz
        printed = [x for x in s.events() if x.kind == 'call' and 'operator<<' in x.name]
        full = [x for x in printed if any(contains(a, app('rc::detail::reproduceMapToString', m))
                                          for a in x.args)]
        seen.add(e)
        if e:
            rep.check(not printed, d.loc, 'prints although nothing failed', 'silent when empty')
        else:
            rep.check(bool(full), d.loc, 'the reproduction string of the recorded failures is not '
                      'printed', 'printed when not empty')
    rep.check(None not in seen and len(seen) == 2, d.loc, 'destruction does not depend on whether '
              'failures were recorded')


def payload(result):
    return app('.', result, ('variant', 'rc::detail::FailureResult'))


def match_ok(ip, s, isf, fail):
    t = ip.decide(s, isf)
    return t is None or bool(t) == bool(fail)


def objtype(v):
    while v[0] == 'S':
        v = v[1]
    if v[0] == 'sym' and v[1].startswith('obj:'):
        return v[1][4:]
    return None


def verbosity(P, rep, obj, cfg, os_):
    """The logging part, as configured, writes about test cases only with
    verbose progress and about shrinks only with verbose shrinking."""
    CF = 'rc::detail::Configuration::'
    VP, VS = app('.', cfg, CF + 'verboseProgress'), app('.', cfg, CF + 'verboseShrinking')
    for name, flag, other in (('onTestCaseFinished', VP, VS), ('onShrinkTried', VS, VP)):
        for f in P.find('rc::detail::LogTestListener::' + name):
            for on in (1, 0):
                ip = L(P)
                st = State()
                st.env[('h', 'this')] = obj
                n = 0
                for s, v in ip.run(f, st=st):
                    if not consistent(s, {flag: on}):
                        continue
                    n += 1
                    rep.count('paths')
                    out = [e for e in s.events() if e.kind == 'call' and 'operator<<' in e.name]
                    rep.check(not isinstance(v, Throw) and bool(out) == bool(on), f.loc,
                              '%s %s although verbosity is %s' % (
                                  name, 'writes' if out else 'writes nothing',
                                  'on' if on else 'off'), '%s verbosity %d' % (name, on))
                    rep.check(all(first_stream(e) for e in out), f.loc,
                              name + ' writes to another stream than its own')
                rep.check(n > 0, f.loc, name + ': no path')


def first_stream(e):
    return not any(contains(x, ('sym', 'global:std::' + c)) for c in ('cout', 'cerr', 'clog')
                   for x in list(e.args) + ([e.recv] if e.recv is not None else []))


def default_listener(P, rep):
    ip = L(P)
    for f in P.find('rc::detail::makeDefaultTestListener'):
        for s, v in ip.run(f):
            evs = s.events()
            rep.check(not isinstance(v, Throw), f.loc, 'makeDefaultTestListener throws')
            if isinstance(v, Throw):
                continue
            pu = [e for e in evs if e.name in ('std::vector::push_back', 'std::vector::emplace_back')]
            new = {}
            for e in evs:
                if e.kind == 'new':
                    new.setdefault(objtype(e.args[0]) or '?', []).append(e)
            cfg, os_ = ('sym', f.params[0].n), ('&', ('L', ('h', 'arg:' + f.params[1].n), ()))
            lg = new.get('rc::detail::LogTestListener', [])
            rp = new.get('rc::detail::ReproduceListener', [])
            rep.check(len(lg) == 1 and contains(lg[0].args[0], os_), f.loc,
                      'the default listener does not log to its stream', 'logging part')
            rep.check(len(rp) == 1 and contains(rp[0].args[0], os_), f.loc, 'the default listener '
                      'does not collect reproduction data for its stream', 'reproduction part')
            rep.check(len(pu) == 2, f.loc, 'the default listener does not hold exactly its two '
                      'parts', 'two parts')
            if lg:
                verbosity(P, rep, lg[0].args[0], cfg, os_)
    rep.analysed(ip)


def contexts(P, rep):
    """reportResult answers true exactly inside a running test case."""
    ms = {}
    for f in P.functions:
        if f.n == 'reportResult' and f.k == 'Method' and f.inrepo and f.body is not None:
            ms[f.rec.q] = f
    rep.need(len(ms), 2, 'property contexts')
    dv = P.find('rc::detail::param::CurrentPropertyContext::defaultValue')[0]
    ip = RC(P)
    dflt = set()
    for s, v in ip.run(dv):
        rep.check(not isinstance(v, Throw) and v[0] == '&', dv.loc,
                  'no default property context')
        if not isinstance(v, Throw) and v[0] == '&':
            dflt |= {q for q in ms if contains(ip.load(s, v[1]), ('sym', 'default:' + q)) or
                     contains(ip.load(s, v[1]), ('sym', 'obj:' + q)) or q in repr(ip.load(s, v[1]))
                     or q in repr(v[1])}
    if not dflt:
        # by type: the static local of the function
        for x in walk(dv.body):
            if x['k'] == 'DeclStmt':
                for dd in x['decls']:
                    t = dv.tu.decl(dd['d']).type() if isinstance(dd, dict) else None
                    if t is not None and t.k == 'rec' and t.rec.q in ms:
                        dflt.add(t.rec.q)
    rep.need(len(dflt), 1, 'default property context type')
    for q, f in ms.items():
        ip = RC(P)
        for s, v in ip.run(f):
            if isinstance(v, Throw):
                rep.check(False, f.loc, 'reportResult throws')
                continue
            t = ip.decide(s, v)
            want = q not in dflt
            rep.check(t is not None and bool(t) == want, f.loc,
                      'a result reported %s a test case is %s' %
                      (('inside', 'not taken as handled') if want else
                       ('outside', 'swallowed as handled')),
                      '%s::reportResult == %s' % (q, want))
        rep.analysed(ip)


# ---- gmock ---------------------------------------------------------------
GL = 'rc::gmock::RapidCheckListener'


class G(L):
    OPAQUE = RC.OPAQUE + ('rc::detail::ImplicitParam::', 'rc::detail::PropertyContext::',
                          'rc::detail::param::')


def gmock(P, rep):
    ms = [f for f in P.functions if f.rec is not None and f.rec.q == GL and f.inrepo and
          f.k == 'Method' and f.get('overrides')]
    rep.need(len(ms), 12, 'events of the GMock listener')
    rec = ms[0].rec
    base = {}
    for d in rec.tu.decls.values():
        if d.k == 'Method' and d.rec is not None and d.rec.q == 'testing::TestEventListener' and \
                d.get('virt') and d.n.startswith('On'):
            base[d.n] = d
    flds = [rec.tu.decl(i) for i in rec.get('fields')]
    flds = [f for f in flds if 'unique_ptr' in f.type().s]
    if len(flds) != 1:
        raise AnalysisBroken('delegate field')
    dk = flds[0].key
    D = app('.', ('sym', 'this'), dk)
    have = {f.n for f in ms}
    rep.check(not {n for n in base if base[n].get('pure')} - have, rec.loc,
              'events %s are not overridden' % sorted(set(base) - have), 'all events overridden')
    for f in ms:
        if f.n == 'OnTestPartResult':
            continue
        ip = G(P)
        res = ip.run(f)
        rep.analysed(ip)
        for dset in (1, 0):
            n = 0
            for s, v in res:
                if not consistent(s, {app('set', D): dset}):
                    continue
                n += 1
                rep.count('paths')
                es = [e for e in s.events() if e.kind == 'call' and
                      e.name.startswith('testing::') and e.recv is not None and
                      contains(e.recv, D)]
                if dset:
                    ok = len(es) == 1 and es[0].name.split('::')[-1] == f.n and \
                        list(es[0].args) == [('sym', p.n) for p in f.params]
                    rep.check(ok, f.loc, '%s is not forwarded unchanged to the delegate' % f.n,
                              '%s forwarded' % f.n)
                else:
                    rep.check(not es, f.loc, '%s calls a delegate that is not there' % f.n,
                              '%s without delegate' % f.n)
            rep.check(n > 0, f.loc, '%s: no path' % f.n)
    f = next((f for f in ms if f.n == 'OnTestPartResult'), None)
    if f is None:
        raise AnalysisBroken('OnTestPartResult not found')
    ip = G(P)
    res = ip.run(f)
    rep.analysed(ip)
    R = ('sym', f.params[0].n)
    TY = app('testing::TestPartResult::type', R)
    V = enum_values(P, 'rc::detail::CaseResult::Type')
    KF = {'kSuccess': 0, 'kNonFatalFailure': 1, 'kFatalFailure': 2, 'kSkip': 3}
    for kind, tv in KF.items():
        failed = tv in (1, 2)
        for handled in (1, 0):
            for dset in (1, 0):
                env = {TY: tv, app('testing::TestPartResult::failed', R): int(failed),
                       app('testing::TestPartResult::fatally_failed', R): int(tv == 2),
                       app('testing::TestPartResult::nonfatally_failed', R): int(tv == 1),
                       app('testing::TestPartResult::passed', R): int(tv == 0),
                       app('testing::TestPartResult::skipped', R): int(tv == 3),
                       app('set', D): dset}
                what = 'a %s result' % kind
                n = 0
                for s, v in res:
                    if not consistent(s, env):
                        continue
                    evs = s.events()
                    rr = [e for e in evs if e.kind == 'call' and
                          e.name == 'rc::detail::PropertyContext::reportResult']
                    if rr and not consistent(s, {rr[0].ret: handled}):
                        continue
                    if isinstance(v, Throw):
                        rep.check(False, f.loc, what + ' lets an exception escape')
                        continue
                    n += 1
                    rep.count('paths')
                    dl = [e for e in evs if e.kind == 'call' and e.recv is not None and
                          contains(e.recv, D) and e.name.endswith('::OnTestPartResult')]
                    er = [e for e in evs if e.kind == 'call' and 'operator<<' in e.name and
                          any(contains(a, 'global:std::cerr') or contains(a, ('sym', 'global:std::cerr'))
                              for a in list(e.args) + [e.recv or UNIT])]
                    if tv == 2:
                        rep.check(not rr, f.loc, what + ' is reported to the property although the '
                                  'framework aborts it by exception', what + ' not reported')
                        took = False
                    else:
                        ok = len(rr) == 1
                        if ok:
                            r = rr[0].args[0]
                            ty = field(r, 'type') or ip.proj(r, 'rc::detail::CaseResult::type')
                            # choose by facts
                            val = evalterm(ty, env)
                            ok = val == (V['Failure'] if failed else V['Success'])
                            de = ip.proj(r, 'rc::detail::CaseResult::description')
                            ok = ok and contains(de, app('testing::TestPartResult::message', R))
                            ok = ok and cur_context(rr[0].recv)
                        rep.check(ok, f.loc, what + ' is not reported once to the current test case '
                                  'as a %s with its message' % ('failure' if failed else 'success'),
                                  what + ' reported')
                        took = bool(handled)
                    if took:
                        rep.check(not dl and not er, f.loc, what + ' taken by the property is also '
                                  'passed to the delegate', what + ' handled: not delegated')
                    elif dset:
                        rep.check(len(dl) == 1 and list(dl[0].args) == [R], f.loc, what +
                                  ' that no property handles is not passed to the delegate',
                                  what + ' unhandled: delegated')
                    else:
                        rep.check(not dl and any(any(contains(a, app(
                            'testing::TestPartResult::message', R)) for a in e.args) for e in er),
                            f.loc, what + ' that nobody handles is lost', what + ' unhandled: stderr')
                rep.check(n > 0, f.loc, what + ': no path')


def cur_context(v):
    return contains(v, 'rc::detail::ImplicitParam::value') or 'ImplicitParam::value' in repr(v)


def run(rep, tier):
    P = M.Program()
    rep.rule('composite listener: constructed with 0..3 listeners, each event calls the same event '
             'on every one of them once, in order, with its own arguments')
    multicast(P, rep)
    rep.rule('reproduction listener: records (id, reproduce) exactly for failures with a non-empty '
             'id and prints the map at destruction iff it is not empty')
    reproduce(P, rep)
    rep.rule('default listener = logging with the configured verbosity + reproduction data')
    default_listener(P, rep)
    rep.rule('reportResult returns true in the context of a running test case and false in the '
             'default context')
    contexts(P, rep)
    G_ = M.Program(['probe/x_gtest', 'src/'])
    rep.rule('GMock listener: table over {result type} x {handled} x {delegate set}; every other '
             'event is forwarded unchanged exactly when a delegate is set')
    gmock(G_, rep)
