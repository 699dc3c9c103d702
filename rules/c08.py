"""C08: the test framework adapters fail the surrounding test exactly when the
property is not a success."""
from rcbase import *

TITLE = 'Framework adapters fail the test exactly if the property did not succeed'


class A(RC):
    OPAQUE = RC.OPAQUE + ('rc::detail::checkTestable', 'rc::detail::printResultMessage',
                          'rc::detail::checkProperty')


PRINT = 'rc::detail::printResultMessage'


def failures(ip, s, evs):
    """[(index, event)] of every event that makes the framework record a failed
    assertion, by the documented meaning of the framework's own types."""
    out = []
    for i, e in enumerate(evs):
        if e.kind != 'call':
            continue
        n = e.name
        if n == 'testing::internal::AssertHelper::operator=':
            h = next((x for x in reversed(evs[:i]) if x.name == 'ctor:testing::internal::AssertHelper'),
                     None)
            if h is not None and h.args[0] in (C(1), C(2)):
                out.append((i, e))
        elif n == 'Catch::AssertionHandler::handleMessage':
            # ResultWas::OfType: FailureBit = 0x10
            if e.args[0][0] == 'c' and e.args[0][1] & 0x10 and \
                    any(x.name == 'Catch::AssertionHandler::complete' for x in evs[i:]):
                # not a "suppressed" disposition: ResultDisposition::SuppressFail == 8
                h = next((x for x in reversed(evs[:i]) if x.name == 'ctor:Catch::AssertionHandler'), None)
                if h is not None and h.args[3][0] == 'c' and not h.args[3][1] & 8:
                    out.append((i, e))
        elif n == 'boost::test_tools::tt_detail::report_assertion':
            a = e.args[0]
            lvl = [x for x in e.args[4:6] if x[0] == 'c']
            if a[0] == 'app' and a[1] == 'ctor:boost::test_tools::assertion_result' and \
                    a[2] == C(0) and lvl and lvl[0] != C(0):   # tool_level WARN == 0
                out.append((i, e))
        elif n == 'doctest::detail::ResultBuilder::log':
            b = next((x for x in reversed(evs[:i]) if x.name == 'ctor:doctest::detail::ResultBuilder'),
                     None)
            set_ = contains(e.recv, 'mut:doctest::detail::ResultBuilder::setResult')
            # assertType::is_warn == 1
            if b is not None and not set_ and b.args[0][0] == 'c' and not b.args[0][1] & 1:
                out.append((i, e))
        elif n in ('doctest::detail::MessageBuilder::log',):
            b = next((x for x in reversed(evs[:i]) if x.name == 'ctor:doctest::detail::MessageBuilder'),
                     None)
            if b is not None and not contains(b.args[2], C(1)):
                out.append((i, e))
    return out


def reported(evs, upto, pr):
    """Does text printed by the printResultMessage event pr reach the failure?"""
    tag = 'mod:' + PRINT
    for e in evs[:upto + 1]:
        vs = list(e.args) + ([e.recv] if e.recv is not None else [])
        if any(contains(v, tag) for v in vs if isinstance(v, tuple)) and e is not pr and \
                not e.name.startswith('std::'):
            return True
        loc = pr.arglocs[1] if len(pr.arglocs) > 1 else None
        if loc is not None and e is not pr and not e.name.startswith(('std::', 'ctor:std::', PRINT)) \
                and any(contains(v, ('&', loc)) for v in vs):
            return True
    return False


def entered(st):
    """False on a path where the framework did not enter the section."""
    for k, b in st.facts.items():
        if k[0] == 'app' and k[1] in ('Catch::Section::operator bool',
                                      'doctest::detail::Subcase::operator bool') and not b:
            return False
    return True


def adapter(P, rep, q, framework, meta):
    fs = P.find(q)
    n = 0
    for f in fs:
        ip = A(P)
        res = ip.run(f)
        rep.analysed(ip)
        seen = set()
        for s, v in res:
            rep.count('paths')
            if isinstance(v, Throw):
                rep.check(False, f.loc, '%s adapter: an exception (%s) leaves the adapter'
                          % (framework, v.tag))
                continue
            evs = s.events()
            c = [e for e in calls(evs, 'rc::detail::checkTestable')]
            if not entered(s):
                rep.check(not c, f.loc, '%s adapter: the property is checked although the section '
                          'was not entered' % framework)
                continue
            rep.check(len(c) == 1, f.loc, '%s adapter: the property is checked %d times on a path'
                      % (framework, len(c)), 'property checked once')
            if len(c) != 1:
                continue
            n += 1
            succ = ip.decide(s, app('is', C('rc::detail::SuccessResult'), c[0].ret))
            fl = failures(ip, s, evs)
            seen.add(succ)
            if succ is None:
                # the path does not depend on the outcome: it is taken by both
                rep.check(False, f.loc, '%s adapter: a path does not distinguish success from '
                          'failure' % framework)
            elif succ:
                rep.check(not fl, fl[0][1].where if fl else f.loc,
                          '%s adapter: a successful property fails the test' % framework,
                          'success -> no failing assertion')
            else:
                rep.check(len(fl) >= 1, f.loc, '%s adapter: a property that is not a success does '
                          'not fail the test' % framework, 'not success -> failing assertion')
                pr = [e for e in calls(evs, PRINT) if unwrap(e.args[0]) == c[0].ret]
                ok = fl and pr and reported(evs, fl[0][0], pr[0]) and \
                    evs.index(pr[0]) < fl[0][0]
                rep.check(ok, f.loc, '%s adapter: the failing assertion does not carry the printed '
                          'result of the property' % framework, 'message carries the result')
            if meta is not None:
                md = c[0].args[1] if len(c[0].args) > 1 else None
                for k, wants in meta.items():
                    val = ip.proj(md, 'rc::detail::TestMetadata::' + k) if md is not None else UNIT
                    rep.check(all(any(contains(val, w) for w in alt) for alt in wants), f.loc,
                              '%s adapter: the %s of the test is not taken from the framework\'s '
                              'current test' % (framework, k), '%s from current test' % k)
        rep.check(seen >= {0, 1} or seen >= {True, False} or None in seen, f.loc,
                  '%s adapter: success and failure are not both handled' % framework)
    rep.need(n, 2, q + ' paths that check the property')


def delegating(P, rep):
    """rc::doctest::check(testable) forwards to check(description, testable)."""
    fs = P.find('rc::doctest::check')
    rep.need(len([f for f in fs if len(f.params) == 3]), 1, 'doctest check without description')


def run(rep, tier):
    P = M.Program(['probe/x_gtest', 'probe/x_catch', 'probe/x_doctest', 'probe/x_boost_test'])
    broken = False
    for u in ('x_gtest', 'x_catch', 'x_doctest', 'x_boost_test'):
        errs = [e for e in P.diags.get('probe/' + u, []) if ': error:' in e]
        rep.check(not errs, errs[0].split(': ')[0].replace(M.REPO + '/', '') if errs else '',
                  'the adapter cannot be compiled: %s' % (errs[0].split(': ', 2)[-1] if errs else ''),
                  u[2:] + ' adapter compiles')
        broken = broken or bool(errs)
    if broken:
        return
    rep.rule('on every path of each adapter that enters its section: the property is checked '
             'exactly once; a failing assertion of the framework is recorded iff the result is '
             'not a SuccessResult; that assertion (or its scoped message) receives the text '
             'printed for this very result; no exception escapes')
    rep.rule('GTest and Boost.Test: test id and description derive from the name of the current '
             'test (suite and test name)')
    adapter(P, rep, 'rc::detail::checkGTest', 'GTest', {
        'id': [('testing::TestInfo::test_case_name', 'testing::TestInfo::test_suite_name'),
               ('testing::TestInfo::name',)],
        'description': [('testing::TestInfo::name',)]})
    adapter(P, rep, 'rc::prop', 'Catch', None)
    adapter(P, rep, 'rc::doctest::check', 'doctest', None)
    adapter(P, rep, 'rc::detail::checkBoostTest', 'Boost.Test', {
        'id': [('boost::unit_test::test_unit::full_name',)],
        'description': [('boost::unit_test::test_unit::p_name',
                         'boost::unit_test::test_unit::full_name')]})
    delegating(P, rep)
    rep.assume.append('the frameworks behave as documented: AssertHelper with a failure type, '
                      'AssertionHandler with a failure result, report_assertion(false) above '
                      'warning level and ResultBuilder without a set result record a failed '
                      'assertion')
