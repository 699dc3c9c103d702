"""C01: every way a property body can end yields exactly one, correct verdict."""
from rcbase import *

TITLE = 'Every way a property body can end yields one correct verdict'

SUCCESS, FAILURE, DISCARD = 0, 1, 2
NAMES = {0: 'Success', 1: 'Failure', 2: 'Discard'}

# Classes of objects a property body may throw and the verdict each stands for;
# 'own' means the verdict carried by the thrown result itself.
THROWN = {
    'rc::detail::CaseResult': 'own',
    'rc::GenerationFailure': DISCARD,
    'std::exception': FAILURE,
    'std::runtime_error': FAILURE,
    'std::basic_string<char>': FAILURE,
    'int': FAILURE,
    'user-defined': FAILURE,
}


class I(RC):
    def throws(self, st, fr, g, d, n):
        if self.user(d, n, fr) or g == 'rc::Gen::operator*':
            return tuple(THROWN)
        return ()

    def user(self, d, n, fr):
        return d is None or d.inprobe

    def escapes(self, s, k):
        return True


def enum_check(P, rep):
    e = [r for r in P.decls('Enum') if r.q == 'rc::detail::CaseResult::Type']
    if not e:
        raise AnalysisBroken('CaseResult::Type not found')
    global SUCCESS, FAILURE, DISCARD
    m = {c['n']: c['v'] for c in e[0].get('consts')}
    SUCCESS, FAILURE, DISCARD = m['Success'], m['Failure'], m['Discard']
    for k, v in m.items():
        NAMES[v] = k
    THROWN['rc::GenerationFailure'] = DISCARD
    for k in ('std::exception', 'std::runtime_error', 'std::basic_string<char>', 'int',
              'user-defined'):
        THROWN[k] = FAILURE


def verdict(s, v, rep):
    t = field(v, 'result')
    t = field(t, 'type') if t is not None else None
    if t is None:
        return None
    if t[0] == 'c':
        return t[1]
    k = s.facts.get(('val', t))
    return k if k is not None else t


def run(rep, tier):
    P = M.Program()
    rep.rule('interpret every instantiation of the test-case adapter for each kind of value the '
             'body can return and each class of object it can throw; no throw outcome may reach '
             'the caller and the verdict stored in the returned result must be the documented one; '
             'a failure caused by an exception or a string must carry that text')
    enum_check(P, rep)
    fs = P.find('rc::detail::PropertyAdapter::operator()', True) or \
        [f for f in P.functions if f.g == 'rc::detail::PropertyAdapter::operator()']
    whole = [f for f in P.functions if f.g == 'rc::gen::detail::execWithRecipe' and
             'TaggedResult' in f.type('ret').s]
    rep.need(len(whole), 5, 'whole test cases (argument generation + body)')
    fs = fs + whole
    rets = set()
    ctxs = {r.q for r in P.decls('Record')
            if 'fields' in r.d and 'rc::detail::PropertyContext' in RC(P).bases(r)}
    for f in fs:
        ip = I(P)
        res = ip.run(f)
        rep.analysed(ip)
        seen = set()
        for s, v in res:
            rep.count('paths')
            evs = s.events()
            if isinstance(v, Throw):
                rep.check(False, f.loc, 'an exception of type %s thrown while the arguments are '
                          'generated or the property body runs escapes the test case' % v.tag)
                continue
            if f in whole:
                v = field(v, 'first')
            gen = [e for e in evs if e.name == 'rc::Gen::operator*']
            body = [e for e in evs if e.kind == 'call' and (e.decl is None or e.decl.inprobe)
                    and e.name != 'rc::detail::PropertyContext']
            caught = [e for e in evs if e.kind == 'catch']
            # the exception the user body raised on this path, if any
            exc = next((x for x in [e.extra for e in evs if e.kind == 'catch']), None)
            uses = [e for e in body]
            if not uses and not (gen and exc is not None):
                continue
            ucall = uses[0] if uses else gen[0]
            got = verdict(s, v, rep)
            text = tuple(x for x in s.env.values() if x[0] == 'S' and x[1][0] == 'sym' and
                         x[1][1] in ('obj:' + c for c in ctxs))
            if exc is not None:
                seen.add(exc)
                want = THROWN.get(exc)
                eval_ = caught[0].args[0]
                if want == 'own':
                    tterm = [t for k, t in ((k, k[1]) for k in s.facts if k[0] == 'val')
                             if is_field(t, eval_, 'type')]
                    own = [s.facts[('val', t)] for t in tterm]
                    okv = bool(own) and got == own[0]
                    rep.check(okv, f.loc, 'a thrown case result of type %s yields verdict %s' % (
                        NAMES.get(own[0]) if own else '?', NAMES.get(got, show(got) if got else None)),
                        'thrown CaseResult(%s) -> %s' % (NAMES.get(own[0]) if own else '?',
                                                         NAMES.get(got)))
                    seen.add(('own', own[0] if own else None))
                    rep.check(contains(text, app('.', eval_, 'rc::detail::CaseResult::description')),
                              f.loc, 'the description of a thrown case result is lost')
                else:
                    rep.check(got == want, f.loc, 'a body that throws %s yields verdict %s instead '
                              'of %s' % (exc, NAMES.get(got, show(got) if got else None), NAMES[want]),
                              'throw %s -> %s' % (exc, NAMES.get(got)))
                    if exc in ('std::exception', 'std::runtime_error', 'rc::GenerationFailure',
                               'std::basic_string<char>'):
                        rep.check(contains(text, eval_), f.loc,
                                  'the message of a thrown %s does not reach the description' % exc)
                continue
            # normal return of the body
            ret = ucall.ret
            rt = ucall.decl.type('ret') if ucall.decl is not None else None
            rts = rt.s if rt is not None else 'void'
            rets.add(rts)
            if rts == 'void':
                rep.check(got == SUCCESS, f.loc, 'a body that returns normally yields verdict %s'
                          % NAMES.get(got), 'void return -> %s' % NAMES.get(got))
                seen.add('ret')
            elif rts == 'bool':
                truth = s.facts.get(ret)
                rep.check(truth is not None and got == (SUCCESS if truth else FAILURE), f.loc,
                          'a body returning %s yields verdict %s' % (
                              {True: 'true', False: 'false', None: 'a bool'}[truth],
                              NAMES.get(got, show(got) if got else None)),
                          'return %s -> %s' % (truth, NAMES.get(got)))
                seen.add(('ret', truth))
            elif 'basic_string' in rts:
                # the verdict must depend on the emptiness of the returned string
                empt = emptiness(s.facts, ret)
                rep.check(empt is not None and got == (SUCCESS if empt else FAILURE), f.loc,
                          'a body returning %s string yields verdict %s' % (
                              {True: 'an empty', False: 'a non-empty', None: 'a'}[empt],
                              NAMES.get(got, show(got) if got else None)),
                          'return %s string -> %s' % ({True: 'empty', False: 'non-empty',
                                                       None: '?'}[empt], NAMES.get(got)))
                if got == FAILURE:
                    rep.check(contains(text, ret), f.loc,
                              'the returned failure message does not reach the description')
                seen.add(('ret', empt))
            else:
                tt = [k[1] for k in s.facts if k[0] == 'val' and k[1][0] == 'app' and
                      k[1][1] == '.' and contains(k[1][2], ret)]
                own = [s.facts[('val', t)] for t in tt]
                rep.check(bool(own) and got == own[0], f.loc,
                          'a body returning a case result of type %s yields verdict %s' % (
                              NAMES.get(own[0]) if own else '?',
                              NAMES.get(got, show(got) if got else None)),
                          'return CaseResult(%s) -> %s' % (NAMES.get(own[0]) if own else '?',
                                                           NAMES.get(got)))
                seen.add(('ret', own[0] if own else None))
        for tag in THROWN:
            rep.check(tag in seen, f.loc, 'objects of class %s thrown by the body have no '
                      'analysed outcome' % tag)
    rep.need(len(rets), 4, 'distinct return types of property bodies')
    rep.assume.append('bodies are opaque: they may throw any object and return any value; std::'
                      'exception::what and string operations do not throw')
