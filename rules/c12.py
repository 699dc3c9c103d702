"""C12: exceptions of user code at the noexcept boundaries."""
from rcbase import *
from effects import Effects, chaintext

TITLE = 'Exceptions of user code never terminate the program'


class Bnd(RC):
    """Calls through an implementation interface may throw anything."""
    OPAQUE = ('rc::Maybe::', 'rc::Random::', 'rc::Seq::')
    INTERNAL = ('generate', 'shrinks', 'value', 'next', 'copy')

    def throws(self, st, fr, name, d, node):
        if d is not None and (d.get('virt') or d.get('pure')) and \
                name.split('::')[-1] in self.INTERNAL:
            return ('user',)
        return ()

    def model(self, st, fr, g, d, n, recv, avs):
        if g == 'std::current_exception':
            cur = fr.exc[-1] if fr.exc else None
            if cur is None:
                return [(st, app('noexc'))]
            return [(st, app('excptr', cur.val))]
        if g == 'std::rethrow_exception':
            v = self.valof(st, avs[0])
            return [(st, Throw('rethrown', v))]
        if g.startswith('std::unique_ptr::') and recv is not None:
            nm = g.split('::')[-1]
            v = self.load(st, recv)
            if nm == 'operator bool':
                return [(st, app('set', v) if v != NULL else C(0))]
            if nm in ('operator->', 'get', 'operator*'):
                st.emit(Event('deref', g, nodeloc(fr.tu, n), d.q, d, v, recv))
                p = app('ptr', v) if v != NULL else NULL
                return [(st, p if nm != 'operator*' else ('&', self.deref(p)))]
            if nm == 'reset':
                self.write(st, fr, n, recv, self.valof(st, avs[0]) if avs else NULL)
                return [(st, UNIT)]
            if nm == 'operator=':
                self.write(st, fr, n, recv, self.valof(st, avs[0]))
                return [(st, ('&', recv))]
        return super().model(st, fr, g, d, n, recv, avs)


def emptyseq(v):
    while v[0] == 'S' and not v[2]:
        v = v[1]
    return v == app('ctor:rc::Seq') or v[0] == 'sym' and v[1].startswith('default:rc::Seq')


def boundaries(P, rep):
    n = {'gen': 0, 'shr': 0, 'seq': 0, 'val': 0}
    for f in P.functions:
        if f.rec is None or not f.inrepo or f.body is None:
            continue
        if f.rec.g == 'rc::Gen' and f.n == 'operator()':
            ip = Bnd(P)
            for s, v in ip.run(f):
                rep.count('paths')
                if isinstance(v, Throw):
                    rep.check(False, f.loc, '%s: an exception of the generator escapes' % f.q)
                    continue
                evs = s.events()
                ca = [e for e in evs if e.kind == 'catch']
                cl = [e for e in evs if e.kind == 'call' and e.name.endswith('::generate')]
                rep.check(len(cl) == 1, f.loc, '%s calls the generator %d times' % (f.q, len(cl)))
                if not cl:
                    continue
                a = cl[0].args
                rep.check(a == (('sym', f.params[0].n), ('sym', f.params[1].n)), cl[0].where,
                          '%s passes other arguments to the generator' % f.q)
                if not ca:
                    n['gen'] += 1
                    rep.check(unwrap(v) == cl[0].ret, f.loc, '%s does not return what the '
                              'generator returned but %s' % (f.q, show(v)), 'Gen passes on')
                    continue
                n['gen'] += 1
                r = later(P, ip, s, v, 'rc::Shrinkable' + member_class(f)[len('rc::Gen'):], rep, f)
                rep.check(r['value'] and all(isinstance(x, Throw) and
                                             x.val == app('excptr', ca[0].args[0])
                                             for x in r['value']), f.loc,
                          '%s: after an exception the value of the result does not rethrow it'
                          % f.q, 'Gen rethrows later')
                rep.check(r['shrinks'] and all(not isinstance(x, Throw) and emptyseq(x)
                                               for x in r['shrinks']), f.loc,
                          '%s: after an exception the result has shrinks' % f.q,
                          'Gen has no shrinks then')
            rep.analysed(ip)
        elif f.rec.g == 'rc::Shrinkable' and f.n in ('shrinks', 'value'):
            ip = Bnd(P)
            for s, v in ip.run(f):
                rep.count('paths')
                cl = [e for e in s.events() if e.kind == 'call' and
                      e.name.split('::')[-1] == f.n]
                ca = [e for e in s.events() if e.kind == 'catch']
                if not rep.check(len(cl) == 1, f.loc, '%s uses the implementation %d times' %
                                 (f.q, len(cl))):
                    continue
                if f.n == 'value':
                    n['val'] += 1
                    rep.check(not ca and (isinstance(v, Throw) and v.tag == 'user' or
                                          not isinstance(v, Throw) and unwrap(v) == cl[0].ret),
                              f.loc, '%s does not pass on the value or exception' % f.q,
                              'value passes on')
                    continue
                n['shr'] += 1
                if isinstance(v, Throw):
                    rep.check(False, f.loc, '%s: an exception of the shrinks escapes' % f.q)
                elif ca:
                    rep.check(emptyseq(v), f.loc, '%s: after an exception the shrinks are %s '
                              'instead of none' % (f.q, show(v)), 'no shrinks after exception')
                else:
                    rep.check(unwrap(v) == cl[0].ret, f.loc, '%s does not return the shrinks of '
                              'the implementation' % f.q, 'shrinks pass on')
            rep.analysed(ip)
        elif f.rec.g == 'rc::Seq' and f.n == 'next':
            key = [f.rec.tu.decl(i) for i in f.rec.get('fields')][0].key
            for mine in (NULL, ('sym', 'impl')):
                st = State()
                st.env[('h', 'this')] = ('S', ('sym', 'this'), ((key, mine),))
                ip = Bnd(P)
                if mine != NULL:
                    ip.assume(st, app('set', mine), True)
                for s, v in ip.run(f, st=st):
                    if mine != NULL and ip.decide(s, app('set', mine)) == 0:
                        continue
                    n['seq'] += 1
                    rep.count('paths')
                    cl = [e for e in s.events() if e.kind == 'call' and e.name.endswith('::next')]
                    ca = [e for e in s.events() if e.kind == 'catch']
                    after = ip.load(s, ('L', ('h', 'this'), (key,)))
                    if isinstance(v, Throw):
                        rep.check(False, f.loc, '%s: an exception of the sequence escapes' % f.q)
                    elif mine == NULL:
                        rep.check(v == NONE and not cl, f.loc, '%s of an empty sequence is %s' %
                                  (f.q, show(v)), 'empty next')
                    elif ca:
                        rep.check(v == NONE and after == NULL, f.loc, '%s: after an exception the '
                                  'sequence %s' % (f.q, 'goes on' if after != NULL else
                                                   'yields %s' % show(v)), 'ends on exception')
                    else:
                        rep.check(len(cl) == 1 and unwrap(v) == cl[0].ret and after == mine,
                                  f.loc, '%s does not yield the next value of the implementation'
                                  % f.q, 'next passes on')
                rep.analysed(ip)
    rep.need(n['gen'], 8, 'paths of Gen::operator()')
    rep.need(n['shr'], 8, 'paths of Shrinkable::shrinks')
    rep.need(n['seq'], 12, 'paths of Seq::next')
    rep.need(n['val'], 8, 'paths of Shrinkable::value')


def later(P, ip, s, v, cls_, rep, f):
    """What value() and shrinks() of the returned shrinkable do."""
    loc = ip.tmp(s, v)
    out = {}
    for nm in ('value', 'shrinks'):
        ds = [d for d in P.functions if d.n == nm and d.rec is not None and
              d.rec.g == 'rc::Shrinkable' and member_class(d) == cls_]
        if len(ds) != 1:
            raise AnalysisBroken('%s::%s not found' % (cls_, nm))
        out[nm] = [r for _, r in ip.run(ds[0], this=loc, st=s.fork())]
    return out


RETHROW = ('std::rethrow_exception', 'std::throw_with_nested')


def thrown(tu, n, d):
    """Leaf effect: something that may raise a user visible exception."""
    if n['k'] == 'CXXThrowExpr':
        return 'throw'
    if d is None:
        return None
    if d.g in RETHROW:
        return d.g
    if d.g == 'std::function::operator()':
        return 'call of a stored callable'
    if d.inprobe and d.body is None and not d.get('nothrow') and \
            d.k in ('Function', 'Method') and d.n == 'operator()':
        return 'call of the user callable %s' % member_class(d)
    return None


def scan(P, rep):
    # allocation failure is not an exception of user code; std functions are
    # taken by their documented behaviour
    ef = Effects(P, thrown, absorb=True)
    n = 0
    for f in P.functions:
        if not f.inrepo or f.body is None or not f.get('nothrow') or f.get('implicit'):
            continue
        n += 1
        r = ef.find(f)
        rep.check(not r, f.loc, '%s is noexcept but can be left by an exception: %s' %
                  (f.q, '; '.join('%s via %s' % (l, chaintext(c)) for l, c in r[:1])),
                  '%s lets nothing escape' % f.q)
    rep.count('noexcept functions', n)
    rep.count('functions in their call graphs', len(ef.seen))
    rep.need(n, 40, 'noexcept functions')


def run(rep, tier):
    P = M.Program()
    rep.rule('Gen::operator(), Shrinkable::shrinks and Seq::next, with any exception thrown by '
             'the implementation: no path lets it escape; the generated shrinkable rethrows exactly '
             'that exception from value() and has no shrinks; the shrinks become empty; the '
             'sequence ends for good; without exception the implementation\'s own result for the '
             'given arguments is passed on')
    boundaries(P, rep)
    rep.rule('every function of the repository that is noexcept (destructors included): no throw '
             'expression, rethrow or call of a user callable is reachable through its call graph '
             'outside try { } catch (...)')
    scan(P, rep)
    rep.assume += ['running out of memory is outside the property',
                   'destructors and swaps of user types do not throw']
