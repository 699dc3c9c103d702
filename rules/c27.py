"""C27: fixtures of properties."""
from rcbase import *
from laws import Laws

TITLE = 'Fixtures are made, set up, torn down and destroyed once per test case'
FIX = ('probe::GtFix', 'probe::BoFix', 'pfix::PlFix')
CHECKS = ('rc::detail::checkGTest', 'rc::detail::checkBoostTest')


class Fix(Laws):
    """Runs the testable it is given with an arbitrary argument; the fixture and
    the property body are user code that may throw."""
    runs = 0

    def say(self, st, what):
        st.dom['tr'] = st.dom.get('tr', ()) + (what,)

    def fixture(self, r):
        return r is not None and any(b.startswith(FIX) for b in [r.q] + list(self.bases(r)))

    def user(self, st, what):
        out = st.fork()
        self.say(st, what)
        self.say(out, what + '!')
        return [(st, UNIT), (out, Throw('user', C(0)))]

    def model(self, st, fr, g, d, n, recv, avs):
        if g in CHECKS:
            self.say(st, 'check')
            return self.testable(st, fr, d, n, self.valof(st, avs[0]))
        if d is not None and self.P.resolve(d).body is None:
            if g == 'probe::body':
                self.say(st, self.show(self.valof(st, avs[0])))
                return self.user(st, 'body')
            if d.rec is not None and d.rec.q.startswith(FIX):
                if g.startswith('ctor:') or d.k == 'Ctor':
                    self.say(st, 'construct')
                    return [(st, ('S', ('sym', 'obj:fixture'), ()))]
                if d.n == 'operator()':
                    for a in avs:
                        self.say(st, self.show(self.valof(st, a)))
                    return self.user(st, 'body')
                for part in ('SetUp', 'TearDown'):
                    if d.n.endswith(part):
                        return self.user(st, part)
        if g == 'std::current_exception':
            return [(st, app('exception', C(fr.exc[-1].tag), fr.exc[-1].val) if fr.exc else NULL)]
        if g == 'std::rethrow_exception':
            v = self.bare(self.valof(st, avs[0]))
            if v[0] == 'app' and v[1] == 'exception':
                return [(st, Throw(v[2][1], v[3]))]
        if g.endswith('exception_ptr::operator bool'):
            return [(st, C(int(self.bare(self.load(st, recv)) != NULL)))]
        if g.startswith('ctor:') and g.endswith('exception_ptr'):
            return [(st, self.bare(self.valof(st, avs[0])) if avs else NULL)]
        if g.endswith('exception_ptr::operator=') and recv is not None:
            self.write(st, fr, n, recv, self.bare(self.valof(st, avs[0])))
            return [(st, ('&', recv))]
        return super().model(st, fr, g, d, n, recv, avs)

    def bare(self, v):
        while v[0] == 'S' and not v[2]:
            v = v[1]
        return v

    def show(self, v):
        while v[0] == 'S' and not v[2]:
            v = v[1]
        return v[1] if v[0] == 'sym' else 'not the argument given'

    def testable(self, st, fr, d, n, v):
        while v[0] == 'S' and not v[2]:
            v = v[1]
        if v[0] != 'fn':
            raise AnalysisBroken('the testable is not a function: %s' % show(v)[:100])
        return self.run_testable(st, fr, v[1], nodeloc(fr.tu, n))

    def run_testable(self, st, fr, f, where):
        Fix.runs += 1
        avs = []
        for i, p in enumerate(f.params):
            x = ('sym', 'arg%d' % i)
            if p.type().k in ('lref', 'rref'):
                st.env[('h', x[1])] = x
                avs.append(('l', ('&', ('L', ('h', x[1]), ()))))
            else:
                avs.append(('v', x))
        return self.call(st, fr, f, None, avs, where)

    def on_dtor(self, st, fr, d, loc, where):
        if d is not None and self.fixture(d.rec):
            self.say(st, 'destroy')
            return [st]
        if d is not None and d.rec is not None and d.rec.g == 'std::unique_ptr' and \
                any(x in d.q for x in ('Fix', 'PropImpl')):

            if self.bare(self.load(st, loc)) != NULL:
                self.say(st, 'destroy')
            return [st]
        return super().on_dtor(st, fr, d, loc, where)


def expected(fixture, args, hooks, wrapped):
    """The traces a property may leave."""
    pre = ['check'] if wrapped else []
    a = ['arg%d' % i for i in range(args)]
    if not fixture:
        return [pre + a + ['body'], pre + a + ['body!']]
    pre.append('construct')
    end = [['destroy']]
    if not hooks:
        return [pre + a + [b] + e for b in ('body', 'body!') for e in end]
    out = [pre + ['SetUp!', 'destroy'], pre + ['SetUp!', 'TearDown', 'destroy'],
           pre + ['SetUp!', 'TearDown!', 'destroy']]
    for b in ('body', 'body!'):
        for t in ('TearDown', 'TearDown!'):
            out.append(pre + ['SetUp'] + a + [b, t, 'destroy'])
    return out


def run(rep, tier):
    P = M.Program(['probe/p_fix', 'probe/x_gtest', 'probe/x_boost_test'])
    if P.diags:
        raise AnalysisBroken('probe does not compile: %s' % list(P.diags.values())[0][:1])
    rep.rule('the entry points the macros define are interpreted with a fixture and a property body '
             'any of whose functions may throw; on every path the fixture is constructed, set up, '
             'run with the arguments given, torn down if it was set up, and destroyed, once and in '
             'this order, and an exception of the property body is not swallowed')
    roots = []
    for f in P.functions:
        if f.body is None:
            continue
        if f.q == 'ProbeCase_freeProp_Test::TestBody':
            roots.append(('RC_GTEST_PROP', f, False, 1, False, True))
        elif f.q == 'GtFix_RapidCheck_fixProp_Test::TestBody':
            roots.append(('RC_GTEST_FIXTURE_PROP', f, True, 1, True, True))
        elif 'tyProp' in f.q and f.q.endswith('::TestBody') and 'RapidCheckPropImpl' not in f.q and \
                '<char>' in f.q:
            roots.append(('RC_GTEST_TYPED_FIXTURE_PROP', f, True, 1, True, True))
        elif f.q == 'freeProp::test_method':
            roots.append(('RC_BOOST_PROP', f, False, 1, False, True))
        elif f.q == 'fixProp::test_method':
            roots.append(('RC_BOOST_FIXTURE_PROP', f, True, 1, False, True))
        elif f.q == 'pfix::plain':
            roots.append(('ExecFixture', f, True, 2, True, False))
    rep.need(len(roots), 6, 'entry points of properties with and without fixtures')
    ex = next(f for f in P.functions if f.q.startswith('rc::detail::ExecFixture') and f.n == 'exec')
    for name, f, fixture, nargs, hooks, wrapped in roots:
        ip = Fix(P)
        if wrapped:
            res = ip.run(f, this=('L', ('h', 'this'), ()))
        else:
            g = [x for x in P.functions if x.q == 'rc::detail::ExecFixture<pfix::PlFix>::exec'][0]
            st = State()
            res = ip.run_testable(st, None, g, f.loc)
        ok = expected(fixture, nargs, hooks, wrapped)
        seen = []
        for s, v in res:
            tr = list(s.dom.get('tr', ()))
            rep.check(tr in ok, ex.loc if fixture else f.loc,
                      '%s: a path of the test case does: %s' % (name, ', '.join(tr) or 'nothing'),
                      '%s: %s' % (name, ', '.join(tr)))
            rep.check(isinstance(v, Throw) == any(x.endswith('!') for x in tr), ex.loc,
                      '%s: an exception is swallowed on the path %s' % (name, ', '.join(tr)))
            seen.append(tr)
        need = [t for t in ok if 'SetUp!' not in t]
        rep.check(any(t in seen for t in need if t[-1] != '' and not any(
            x.endswith('!') for x in t)), ex.loc, '%s: no path runs the property to its end' % name)
        rep.analysed(ip)
