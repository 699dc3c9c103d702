"""C04: the shrink driver and the replay of shrink paths."""
from rcbase import *

TITLE = 'Shrinking only ever moves to failing cases and records the exact path taken'

CD = 'rc::detail::CaseDescription::result'
CT = 'rc::detail::CaseResult::type'


def driver(P, rep):
    V = enum_values(P, 'rc::detail::CaseResult::Type')
    f = P.find('rc::detail::shrinkTestCase')[0]
    ip = RC(P)
    res = ip.run(f)
    rep.analysed(ip)
    main = [l for l in ip.loops if any(calls(since_loop(s.events()), 'rc::Seq::next')
                                       for s in l[3] + [x[0] for x in l[4]])]
    if len(main) != 1:
        raise AnalysisBroken('%d candidate loops in shrinkTestCase' % len(main))
    where, pre, head, backs, exits = main[0]
    done = []
    for s, v in res:
        if isinstance(v, Throw):
            rep.check(False, f.loc, 'shrinking throws %s' % v.tag)
            continue
        evs = since_loop(s.events())
        rep.check(not calls(evs, 'rc::Shrinkable::value') and
                  not calls(evs, 'rc::detail::TestListener::onShrinkTried'), f.loc,
                  'shrinking ends in the middle of a tried case')
        nx = calls(evs, 'rc::Seq::next')
        rep.check(len(nx) == 1 and s.facts.get(app('has', nx[0].ret)) is False, f.loc,
                  'shrinking stops although more shrinks are available',
                  'stops only when the current candidate has no shrink left')
        done.append((field(v, 'first'), field(v, 'second')))
    if len(set(done)) != 1:
        raise AnalysisBroken('shrinkTestCase returns %d different results' % len(set(done)))
    B, Pth = done[0]
    lb, lp = locate(head, B), locate(head, Pth)
    rep.check(lb is not None and B[0] == 'sym', f.loc, 'the best case found is not what is returned')
    rep.check(lp is not None and Pth[0] == 'sym', f.loc, 'the path returned is not the recorded path')
    if not (lb and lp and B[0] == 'sym' and Pth[0] == 'sym'):
        return
    arg = ('sym', f.params[0].n)
    rep.check(unwrap(at(ip, pre, lb)) == arg, f.loc, 'the best case does not start as the given case')
    rep.check(pushes(at(ip, pre, lp)) == (app('empty'), []), f.loc, 'the path does not start empty')
    S = next((calls(since_loop(s.events()), 'rc::Seq::next')[0].recv for s in backs), None)
    ls = locate(head, S) if S is not None else None
    rep.check(ls is not None and unwrap(at(ip, pre, ls)) == app('rc::Shrinkable::shrinks', arg),
              f.loc, 'the first candidates are not the shrinks of the given case',
              'candidates start as shrinks(given case)')
    if ls is None:
        return
    idx = None
    rep.need(len(backs), 2, 'iteration paths of the shrink loop')
    for tn, tv in sorted(V.items()):
        n = 0
        for s in backs:
            evs = since_loop(s.events())
            nx = calls(evs, 'rc::Seq::next')
            vs = calls(evs, 'rc::Shrinkable::value')
            tr = calls(evs, 'rc::detail::TestListener::onShrinkTried')
            one = len(nx) == 1 and len(vs) == 1 and len(tr) == 1
            rep.check(one, where, 'one shrink step draws %d candidates, runs %d and announces %d' % (
                len(nx), len(vs), len(tr)), 'one candidate drawn, run and announced per step')
            if not one:
                continue
            desc = vs[0].ret
            ty = app('.', app('.', desc, CD), CT)
            env = {ty: tv}
            if not consistent(s, env):
                continue
            n += 1
            rep.count('paths')
            X = ip.proj(nx[0].ret, '*')
            rep.check(unwrap(vs[0].recv) == X, vs[0].where, 'the case that is run is not the '
                      'candidate just drawn')
            rep.check(tr[0].args[0] == desc and evalterm(tr[0].args[1], env) ==
                      int(tn == 'Failure'), tr[0].where,
                      'a candidate with verdict %s is announced as accepted=%s' % (
                          tn, evalterm(tr[0].args[1], env)), 'announced with accepted == failing')
            best, path, shr = (unwrap(at(ip, s, l)) for l in (lb, lp, ls))
            pb, items = pushes(path)
            if tn == 'Failure':
                rep.check(best == X, where, 'a failing candidate does not become the best case',
                          'failing candidate becomes best')
                rep.check(shr == app('rc::Shrinkable::shrinks', X), where,
                          'after accepting a candidate its own shrinks are not tried next',
                          'search continues in its shrinks')
                okp = pb == Pth and len(items) == 1
                rep.check(okp, where, 'accepting a candidate does not append exactly one index')
                if okp:
                    idx = items[0]
                    li = locate(head, idx)
                    rep.check(li is not None and at(ip, pre, li) == C(0) and
                              at(ip, s, li) == C(0), where, 'the recorded index is not the number '
                              'of rejected candidates since the last accepted one',
                              'index restarts at 0')
            else:
                rep.check(best == B, where, 'a candidate with verdict %s becomes the best case' % tn,
                          '%s candidate leaves best unchanged' % tn)
                rep.check(pb == Pth and not items, where, 'a candidate with verdict %s extends the '
                          'path' % tn)
                rep.check(shr == app('mut:rc::Seq::next', S), where,
                          'rejecting a candidate changes the remaining candidates')
        rep.check(n > 0, where, 'no shrink step handles a candidate with verdict %s' % tn)
    if idx is not None:
        li = locate(head, idx)
        for tn, tv in V.items():
            if tn == 'Failure' or li is None:
                continue
            for s in backs:
                vs = calls(since_loop(s.events()), 'rc::Shrinkable::value')
                if len(vs) != 1 or not consistent(s, {app('.', app('.', vs[0].ret, CD), CT): tv}):
                    continue
                rep.check(at(ip, s, li) == ip.arith('+', idx, C(1)), where,
                          'rejecting a candidate does not advance the index by one',
                          'index + 1 per rejected candidate')


class U(RC):
    UNROLL = True


def vec(items):
    v = app('empty')
    for i in items:
        v = app('mut:std::vector::push_back', v, C(i))
    return v


def replay(P, rep, tier):
    """walkPath(s, [k0, k1..]) is the k1-th shrink of the k0-th shrink of s."""
    fs = P.find('rc::shrinkable::walkPath')
    paths = [[], [0], [1], [3], [0, 0], [2, 1], [1, 0, 2]]
    if tier != 'quick':
        paths += [[k] for k in range(4, 12)] + [[a, b, c] for a in range(3) for b in range(3)
                                                for c in range(3)]
    for f in fs:
        for path in paths:
            ip = U(P)
            st = State()
            st.env[('h', 'path')] = vec(path)
            res = ip.run(f, None, [None, ('l', ('&', ('L', ('h', 'path'), ())))], st)
            rep.analysed(ip)
            full = 0
            for s, v in res:
                rep.count('paths')
                if isinstance(v, Throw):
                    rep.check(False, f.loc, 'walking a path throws %s' % v.tag)
                    continue
                evs = s.events()
                cur = ('sym', f.params[0].n)
                ok, k, step = True, 0, 0
                dead = False
                for e in evs:
                    if e.kind != 'call':
                        continue
                    if e.name == 'rc::Shrinkable::shrinks':
                        ok &= unwrap(e.recv) == cur and k == 0 and step < len(path) and not dead
                        k = -1
                        seq = e.ret
                    elif e.name == 'rc::Seq::next':
                        ok &= unwrap(e.recv) == seq and not dead
                        seq = app('mut:rc::Seq::next', seq)
                        k += 1
                        h = s.facts.get(app('has', e.ret))
                        if h is False:
                            dead = True
                        elif step < len(path) and k == path[step]:
                            cur = ip.proj(e.ret, '*')
                            ok &= h is True
                            k, step = 0, step + 1
                want = NONE if dead else some(cur)
                full += (not dead) and step == len(path)
                rep.check(ok and (dead or step == len(path)) and unwrap(v) == want, f.loc,
                          'following path %s selects %s' % (path, show(v)),
                          'path %s -> %s' % (path, 'nothing' if dead else 'the indexed shrink'))
            rep.check(full == 1, f.loc, 'following path %s never succeeds' % path)


def run(rep, tier):
    P = M.Program()
    rep.rule('invariants of the shrink loop over a generic iteration with an arbitrary candidate '
             'verdict: accept exactly on failure, index = rejected candidates since the last '
             'acceptance, best/path/remaining candidates updated accordingly, each candidate run '
             'and announced once, stop only when candidates are exhausted')
    driver(P, rep)
    rep.rule('walking a recorded path selects, at every level, the shrink with the recorded index, '
             'and yields nothing exactly when an index does not exist (paths unrolled exactly)')
    replay(P, rep, tier)
    rep.assume.append('shrinkables and sequences are opaque and deterministic')
