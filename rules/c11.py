"""C11: lifetimes of the payloads held by Maybe, Variant and Any."""
from rcbase import *

TITLE = 'Maybe, Variant and Any construct and destroy their payload exactly once'

def cls(d):
    """Class of a member with its template arguments."""
    return d.q[:-len('::' + d.n)] if d.q.endswith('::' + d.n) else d.q.rsplit('::', 1)[0]


def tname(t):
    t = t.strip()
    s = t.s
    return s[6:] if s.startswith('const ') else s


PAY = ('probe::T', 'probe::A', 'probe::MoveOnly')


class Life(Interp):
    """Payload operations are events; those not declared noexcept may throw."""

    def pay(self, rec):
        return rec is not None and rec.g in PAY

    def binop(self, op, a, b):
        if op == '==' and a[0] == '&' and b[0] == '&':
            return C(int(a == b))
        return super().binop(op, a, b)

    def maythrow(self, st, d, out):
        if not d.get('nothrow'):
            s2 = st.fork()
            out.append((s2, Throw('payload', ('sym', 'exc'))))

    def model(self, st, fr, g, d, n, recv, avs):
        if d is None:
            return None
        if g.startswith(('ctor:', 'copy:', 'move:')) and self.pay(d.rec):
            src = avs[0][1][1] if avs and avs[0][0] == 'l' else None
            v = self.valof(st, avs[0]) if avs else app('fresh')
            kind = g.split(':')[0]
            st.emit(Event('life', 'construct', nodeloc(fr.tu, n), d.q, d, None, src, (v,),
                          extra=(kind, cls(d))))
            out = []
            self.maythrow(st, d, out)
            if kind == 'move' and src is not None:
                self.store(st, src, app('movedfrom', v))
            out.append((st, v))
            return out
        if not self.pay(d.rec) or recv is None:
            return None
        if d.k == 'Dtor':
            st.emit(Event('life', 'destroy', nodeloc(fr.tu, n), d.q, d, None, recv,
                          extra=cls(d)))
            self.store(st, recv, app('dead'))
            return [(st, UNIT)]
        if d.n == 'operator=':
            src = avs[0][1][1] if avs[0][0] == 'l' else None
            v = self.valof(st, avs[0])
            mv = bool(d.get('moveassign'))
            st.emit(Event('life', 'assign', nodeloc(fr.tu, n), d.q, d, src, recv, (v,),
                          extra=('move' if mv else 'copy', cls(d))))
            out = []
            self.maythrow(st, d, out)
            if mv and src is not None and src != recv:
                self.store(st, src, app('movedfrom', v))
            self.write(st, fr, n, recv, v)
            out.append((st, ('&', recv)))
            return out
        return None

    def on_dtor(self, st, fr, d, loc, where):
        if self.pay(d.rec):
            st.emit(Event('life', 'destroy', where, d.q, d, None, loc, extra=cls(d)))
            self.store(st, loc, app('dead'))
            return [st]
        return None


def cells(evs, init):
    """Replays payload events over storage cells.  init: {loc: type or None}.
    -> (final cells, [(where, problem)])"""
    cell = dict(init)
    bad = []
    for e in evs:
        if e.kind == 'placement':
            if not e.extra.startswith('probe::'):
                continue
            if cell.get(e.recvloc):
                bad.append((e.where, 'a payload is constructed over a live one'))
            cell[e.recvloc] = e.extra
        elif e.kind == 'life' and e.name == 'destroy':
            if e.recvloc in cell:
                if cell[e.recvloc] is None:
                    bad.append((e.where, 'a payload is destroyed that does not exist'))
                elif cell[e.recvloc] != e.extra:
                    bad.append((e.where, 'a %s is destroyed as a %s' % (cell[e.recvloc], e.extra)))
                cell[e.recvloc] = None
            elif e.recvloc[1][0] != 't':
                bad.append((e.where, 'something other than the stored payload is destroyed'))
        elif e.kind == 'life':
            for l, what in ((e.recvloc, 'assigned to' if e.name == 'assign' else 'read'),
                            (e.recv, 'read')):
                if l is None or l not in cell:
                    continue
                if cell[l] is None:
                    bad.append((e.where, 'a payload is %s that does not exist' % what))
                elif cell[l] != e.extra[1]:
                    bad.append((e.where, 'a %s is %s as a %s' % (cell[l], what, e.extra[1])))
        elif e.kind == 'call' and e.decl is not None:
            # a comparison, a print: arguments that lie in a cell
            for l in e.arglocs or ():
                if l in cell and cell[l] is None:
                    bad.append((e.where, 'a payload is read that does not exist'))
            if e.recvloc in cell and cell[e.recvloc] is None:
                bad.append((e.where, 'a payload is read that does not exist'))
    return cell, bad


def flagfield(rec):
    fs = [rec.tu.decl(i) for i in rec.get('fields', [])]
    fl = [f for f in fs if f.type().s in ('bool', '_Bool')]
    if len(fl) != 1 or len(fs) != 2:
        raise AnalysisBroken('%s: no single initialisation flag' % rec.q)
    return fl[0].key, [f for f in fs if f is not fl[0]][0].key


THIS = ('L', ('h', 'this'), ())
OTHER = ('L', ('h', 'other'), ())
VAL = ('L', ('h', 'value'), ())


def describe(f, cfg):
    return '%s(%s) %s' % (f.q.split('probe::')[0].split('<')[0] + '::' + f.n,
                          ', '.join(p.type().s for p in f.params), cfg)


def maybe(P, rep):
    n = 0
    seen = set()
    for f in P.functions:
        if f.rec is None or f.rec.g != 'rc::Maybe' or not f.inrepo or f.body is None or \
                cls(f) not in ('rc::Maybe<probe::T>', 'rc::Maybe<probe::MoveOnly>'):
            continue
        fk, sk = flagfield(f.rec)
        pay = 'probe::T' if 'probe::T' in cls(f) else 'probe::MoveOnly'
        pt = f.params[0].type().strip() if f.params else None
        pq = tname(pt) if pt is not None and pt.k == 'rec' else None
        other = pq == cls(f)
        isctor, isdtor = f.k == 'Ctor', f.k == 'Dtor'
        for mine in ((None,) if isctor else (0, 1)):
            for theirs in ((0, 1, 'self') if other and not isctor else (0, 1) if other
                           else (None,)):
                st = State()
                st.env[('h', 'this')] = ('S', ('sym', 'this'), () if isctor else
                                         ((fk, C(mine)), (sk, ('sym', 'mine'))))
                st.env[('h', 'value')] = ('sym', 'value')
                cellT = ('L', ('h', 'this'), (sk,))
                cellO = ('L', ('h', 'other'), (sk,))
                init = {cellT: pay if mine else None}
                args = []
                want = None
                if other:
                    if theirs == 'self':
                        args = [('l', ('&', THIS))]
                        want = ('sym', 'mine') if mine else None
                    else:
                        st.env[('h', 'other')] = ('S', ('sym', 'other'),
                                                  ((fk, C(theirs)), (sk, ('sym', 'theirs'))))
                        init[cellO] = pay if theirs else None
                        args = [('l', ('&', OTHER))]
                        want = ('sym', 'theirs') if theirs else None
                elif f.params and pq == pay:
                    args = [('l', ('&', VAL))]
                    want = ('sym', 'value')
                elif f.n == 'init':
                    # constructed from other arguments
                    args = [None] * len(f.params)
                    want = 'any'
                elif f.n in ('operator*', 'operator->', 'operator bool'):
                    want = ('sym', 'mine') if mine else None
                elif not isctor and not isdtor and f.n not in ('reset', 'operator='):
                    continue        # a helper: analysed where it is used
                ip = Life(P)
                cfg = '(empty)' if mine == 0 else '(with value)' if mine else ''
                if theirs is not None:
                    cfg += ' from ' + ('itself' if theirs == 'self' else 'a value' if theirs
                                       else 'nothing')
                what = describe(f, cfg)
                for s, v in ip.run(f, this=THIS, args=args, st=st):
                    n += 1
                    rep.count('paths')
                    seen.add(f.n if not isctor else 'ctor')
                    thrown = isinstance(v, Throw)
                    if thrown and f.get('nothrow'):
                        rep.check(False, f.loc, '%s is noexcept but a payload operation may throw'
                                  % what)
                        continue
                    cell, bad = cells(s.events(), init)
                    rep.check(not bad, bad[0][0] if bad else f.loc,
                              '%s: %s' % (what, '; '.join(b for _, b in bad)), what)
                    flag = ip.load(s, ('L', ('h', 'this'), (fk,)))
                    live = cell[cellT] is not None
                    if isdtor or (isctor and thrown):
                        rep.check(not live, f.loc, '%s leaves its payload alive' % what)
                    else:
                        rep.check(flag == C(int(live)), f.loc,
                                  '%s%s: the flag is %s but a payload %s' %
                                  (what, ' when the payload throws' if thrown else '', show(flag),
                                   'exists' if live else 'does not exist'),
                                  what + (' throwing' if thrown else ''))
                    if not thrown and not isdtor and want != 'any':
                        val = ip.load(s, cellT) if live else None
                        rep.check(live == (want is not None) and
                                  (not live or val in (want, app('movedfrom', want))
                                   if theirs == 'self' else not live or val == want), f.loc,
                                  '%s: the result does not hold %s' %
                                  (what, 'the value' if want is not None else 'nothing'),
                                  what + ' value')
                    if other and theirs != 'self':
                        of = ip.load(s, ('L', ('h', 'other'), (fk,)))
                        ov = cell[cellO] is not None
                        rep.check(of == C(int(ov)), f.loc, '%s: the source flag does not match its '
                                  'payload' % what)
                        if not thrown and pt is not None and f.params[0].type().to.const:
                            rep.check(ov == bool(theirs) and
                                      (not ov or ip.load(s, cellO) == ('sym', 'theirs')), f.loc,
                                      '%s changes its source' % what)
                    if f.n in ('operator*', 'operator->'):
                        rep.check(v == ('&', cellT), f.loc, '%s does not refer to the payload'
                                  % what)
                    elif f.n == 'operator bool':
                        rep.check(v == C(mine), f.loc, '%s is %s' % (what, show(v)))
                    elif f.n == 'operator=':
                        rep.check(thrown or v == ('&', THIS), f.loc,
                                  '%s does not return *this' % what)
                rep.analysed(ip)
    for k in ('ctor', '~Maybe', 'operator=', 'reset', 'init', 'operator*', 'operator->',
              'operator bool'):
        if k not in seen and not any(x.startswith(k) for x in seen):
            raise AnalysisBroken('rc::Maybe %s not found' % k)
    rep.need(n, 60, 'paths of rc::Maybe')
    # comparison
    m = 0
    for f in P.functions:
        if f.q.startswith(('rc::operator==', 'rc::operator!=')) and len(f.params) == 2 and f.inrepo:
            rec = f.params[0].type().strip()
            if rec.k != 'rec' or tname(rec) != 'rc::Maybe<probe::T>':
                continue
            fk, sk = flagfield(rec.rec)
            ne = 'operator!=' in f.q
            for a in (0, 1):
                for b in (0, 1):
                    st = State()
                    st.env[('h', 'this')] = ('S', ('sym', 'l'), ((fk, C(a)), (sk, ('sym', 'lv'))))
                    st.env[('h', 'other')] = ('S', ('sym', 'r'), ((fk, C(b)), (sk, ('sym', 'rv'))))
                    ip = Life(P)
                    for s, v in ip.run(f, args=[('l', ('&', THIS)), ('l', ('&', OTHER))], st=st):
                        m += 1
                        cm = [e for e in s.events() if e.kind == 'call' and
                              e.name.endswith(('operator==', 'operator!=')) and
                              e.decl is not None and e.decl.inprobe]
                        if a and b:
                            ok = len(cm) == 1 and cm[0].args == (('sym', 'lv'), ('sym', 'rv'))
                            t = ip.decide(s, v)
                            c = ip.decide(s, cm[0].ret) if cm else None
                            if ok:
                                ok = v in (cm[0].ret, negate(cm[0].ret)) or \
                                    (t is not None and c is not None)
                                r = (v == cm[0].ret) if t is None or c is None else (t == c)
                                ok = ok and r == (not ne)
                        else:
                            ok = not cm and v == C(int((a == b) != ne))
                        rep.check(ok, f.loc, 'rc::Maybe %s of %s and %s is %s' %
                                  ('!=' if ne else '==', 'a value' if a else 'nothing',
                                   'a value' if b else 'nothing', show(v)), 'Maybe comparison')
    rep.need(m, 8, 'comparisons of rc::Maybe')


def variant(P, rep):
    n = 0
    seen = {}
    for f in P.functions:
        if f.rec is None or f.rec.g != 'rc::detail::Variant' or not f.inrepo or f.body is None \
                or 'Variant<probe::A<0>' not in cls(f) or f.get('static'):
            continue
        fs = [f.rec.tu.decl(i) for i in f.rec.get('fields', [])]
        ix = [x for x in fs if x.type().d.get('int') or x.type().k in ('int', 'builtin')]
        ix = [x for x in fs if x.type().k != 'rec']
        if len(ix) != 1 or len(fs) != 2:
            raise AnalysisBroken('rc::detail::Variant: no single type index')
        ik, sk = ix[0].key, [x for x in fs if x is not ix[0]][0].key
        alts = ['probe::A<%d>' % i for i in range(3)]
        pt = f.params[0].type().strip() if f.params else None
        pq = tname(pt) if pt is not None and pt.k == 'rec' else None
        other = pq == cls(f)
        isctor, isdtor = f.k == 'Ctor', f.k == 'Dtor'
        ta = f.get('targs') or []
        targ = None
        if ta and isinstance(ta[0], int):
            tt = f.tu.type(ta[0]).strip()
            targ = tname(tt) if tt.k == 'rec' else None
        if targ is not None and targ not in alts:
            continue
        if isctor and not f.params:
            continue
        if not (isctor or isdtor or f.n in ('operator=', 'operator==', 'printTo', 'is', 'get',
                                            'match')):
            continue
        for mine in ((None,) if isctor else (0, 1, 2)):
            for theirs in ((0, 1, 2) + (('self',) if not isctor else ()) if other else (None,)):
                if f.n == 'get' and alts[mine] != targ:
                    continue        # unchecked by contract
                st = State()
                st.env[('h', 'this')] = ('S', ('sym', 'this'), () if isctor else
                                         ((ik, C(mine)), (sk, ('sym', 'mine'))))
                st.env[('h', 'value')] = ('sym', 'value')
                cT, cO = ('L', ('h', 'this'), (sk,)), ('L', ('h', 'other'), (sk,))
                init = {cT: alts[mine] if mine is not None else None}
                args, wantt, wantv = [], None if mine is None else alts[mine], ('sym', 'mine')
                if other:
                    if theirs == 'self':
                        args = [('l', ('&', THIS))]
                    else:
                        st.env[('h', 'other')] = ('S', ('sym', 'other'),
                                                  ((ik, C(theirs)), (sk, ('sym', 'theirs'))))
                        init[cO] = alts[theirs]
                        args = [('l', ('&', OTHER))]
                        if f.n != 'operator==':
                            wantt, wantv = alts[theirs], ('sym', 'theirs')
                elif pq in alts:
                    args = [('l', ('&', VAL))]
                    if f.n != 'match':
                        wantt, wantv = pq, ('sym', 'value')
                ip = Life(P)
                cfg = '' if mine is None else '(holding alternative %d)' % mine
                if theirs is not None:
                    cfg += ' from ' + ('itself' if theirs == 'self' else 'alternative %d' % theirs)
                if targ and not f.params:
                    cfg += ' <%s>' % targ
                what = describe(f, cfg)
                res = ip.run(f, this=THIS, args=args, st=st)
                rep.need(len(res), 1, 'paths of ' + what)
                for s, v in res:
                    n += 1
                    rep.count('paths')
                    seen[f.n if not isctor else 'ctor'] = 1
                    if isinstance(v, Throw):
                        rep.check(False, f.loc, '%s throws' % what)
                        continue
                    cell, bad = cells(s.events(), init)
                    rep.check(not bad, bad[0][0] if bad else f.loc,
                              '%s: %s' % (what, '; '.join(b for _, b in bad)), what)
                    loc = [l for l, t in cell.items() if t and l not in (cT, cO)]
                    rep.check(not loc, f.loc, '%s: a payload constructed in temporary storage is '
                              'never destroyed' % what)
                    if isdtor:
                        rep.check(cell[cT] is None, f.loc, '%s leaves its payload alive' % what)
                        continue
                    idx = ip.load(s, ('L', ('h', 'this'), (ik,)))
                    rep.check(cell[cT] == wantt and idx == C(alts.index(wantt)), f.loc,
                              '%s: type index %s, payload %s, expected %s' %
                              (what, show(idx), cell[cT], wantt), what + ' type')
                    val = ip.load(s, cT)
                    rep.check(val == wantv or theirs == 'self' and
                              val == app('movedfrom', wantv), f.loc,
                              '%s: holds %s instead of %s' % (what, show(val), show(wantv)),
                              what + ' value')
                    if other and theirs != 'self':
                        oi = ip.load(s, ('L', ('h', 'other'), (ik,)))
                        rep.check(oi == C(theirs) and cell[cO] == alts[theirs], f.loc,
                                  '%s: type index and payload of the source differ' % what)
                        if f.params[0].type().to.const:
                            rep.check(ip.load(s, cO) == ('sym', 'theirs'), f.loc,
                                      '%s changes its source' % what)
                    if f.n == 'operator=':
                        rep.check(v == ('&', THIS), f.loc, '%s does not return *this' % what)
                    elif f.n == 'get':
                        rep.check(v == ('&', cT), f.loc, '%s does not refer to the payload' % what)
                    elif f.n == 'is':
                        rep.check(v == C(int(alts[mine] == targ)), f.loc, '%s is %s' %
                                  (what, show(v)), what)
                    elif f.n == 'match':
                        m = alts[mine] == pq
                        got = s.env[('h', 'value')]
                        rep.check(v == C(int(m)) and got == (('sym', 'mine') if m else
                                                             ('sym', 'value')), f.loc,
                                  '%s is %s and yields %s' % (what, show(v), show(got)), what)
                    elif f.n == 'operator==':
                        cm = [e for e in s.events() if e.kind == 'call' and
                              e.name.endswith('operator==') and e.decl is not None and
                              e.decl.inprobe]
                        same = theirs == 'self' or theirs == mine
                        rv = ('sym', 'mine') if theirs == 'self' else ('sym', 'theirs')
                        if same:
                            # reporting an object equal to itself needs no comparison
                            ok = len(cm) == 1 and cm[0].decl.rec is not None and \
                                cls(cm[0].decl) == alts[mine] and \
                                (cm[0].recv,) + cm[0].args in ((('sym', 'mine'), rv),
                                                               (rv, ('sym', 'mine'))) and \
                                (v == cm[0].ret or ip.decide(s, v) is not None and
                                 ip.decide(s, v) == ip.decide(s, cm[0].ret))
                            ok = ok or theirs == 'self' and not cm and v == C(1)
                        else:
                            ok = not cm and v == C(0)
                        rep.check(ok, f.loc, '%s is %s' % (what, show(v)), what)
                    elif f.n == 'printTo':
                        pr = [e for e in s.events() if e.kind == 'call' and
                              e.name.endswith('operator<<') and e.decl is not None and
                              e.decl.inprobe]
                        rep.check(len(pr) == 1 and ('sym', 'mine') in pr[0].args and
                                  tname(pr[0].decl.params[1].type()) == alts[mine], f.loc,
                                  '%s does not print the payload by its own type' % what, what)
                rep.analysed(ip)
    for k in ('ctor', 'operator=', 'operator==', 'printTo', 'is', 'get', 'match'):
        if k not in seen:
            raise AnalysisBroken('rc::detail::Variant %s not found' % k)
    rep.need(n, 90, 'paths of rc::detail::Variant')


class AnyI(Life):
    def model(self, st, fr, g, d, n, recv, avs):
        if d is not None and d.k == 'Ctor' and d.rec is not None and d.rec.g == 'std::unique_ptr':
            return [(st, app('uptr', self.valof(st, avs[0])) if avs else app('uptr', NULL))]
        if g == 'std::unique_ptr::reset' and recv is not None:
            self.store(st, recv, app('uptr', self.valof(st, avs[0]) if avs else NULL))
            return [(st, UNIT)]
        if g == 'std::make_unique':
            return None
        if g in ('std::unique_ptr::operator->', 'std::unique_ptr::get'):
            v = self.load(st, recv)
            if v[0] == 'app' and v[1] == 'uptr':
                return [(st, v[2])]
            return [(st, app('held', v))]
        if g == 'std::unique_ptr::operator bool':
            v = self.load(st, recv)
            if v[0] == 'app' and v[1] == 'uptr':
                return [(st, C(int(v[2] != NULL)))]
            return [(st, app('set', v))]
        return super().model(st, fr, g, d, n, recv, avs)


def anys(P, rep):
    n = 0
    for f in P.functions:
        if f.g != 'rc::detail::Any::of' or not f.inrepo or not f.tu.name.startswith('probe/p_life'):
            continue
        pt = f.params[0].type()
        pay = pt.strip()
        if pay.k != 'rec' or pay.rec.g not in PAY:
            continue
        st = State()
        st.env[('h', 'value')] = ('sym', 'value')
        ip = AnyI(P)
        for s, v in ip.run(f, args=[('l', ('&', VAL))], st=st):
            if isinstance(v, Throw):
                continue
            n += 1
            what = 'rc::detail::Any::of(%s)' % pt.s
            news = [e for e in s.events() if e.kind == 'new']
            rep.check(len(news) == 1, f.loc, '%s creates %d implementations' % (what, len(news)),
                      what)
            if not news:
                continue
            h = news[0].args[0]
            vals = [x for k, x in h[2]] if h[0] == 'S' else []
            rep.check(vals == [('sym', 'value')] and
                      'AnyImpl<%s>' % tname(pay) in news[0].extra.replace('rc::detail::Any::', ''),
                      news[0].where, '%s does not hold a %s made from its argument' %
                      (what, tname(pay)), what + ' value')
            rep.check(contains(v, ('&', news[0].recvloc)), f.loc,
                      '%s does not return the new implementation' % what)
            lf = [e for e in s.events() if e.kind == 'life' and e.name == 'construct']
            mv = pt.k == 'rref'
            rep.check(len(lf) == 1 and (lf[0].extra[0] == 'move') == mv, f.loc,
                      '%s is constructed by %s' % (what, [e.extra[0] for e in lf]))
        rep.analysed(ip)
    rep.need(n, 4, 'rc::detail::Any::of')
    k = 0
    for f in P.functions:
        if f.rec is None or f.rec.g != 'rc::detail::Any::AnyImpl' or f.body is None:
            continue
        fl = [f.rec.tu.decl(i) for i in f.rec.get('fields', [])]
        if len(fl) != 1:
            raise AnalysisBroken('AnyImpl: no single value')
        cT = ('L', ('h', 'this'), (fl[0].key,))
        if f.n in ('get', 'showValue', 'showType', 'typeInfo'):
            st = State()
            st.env[('h', 'this')] = ('S', ('sym', 'this'), ((fl[0].key, ('sym', 'held')),))
            ip = Life(P)
            ip.OPAQUE = ('rc::show', 'rc::detail::showType')
            for s, v in ip.run(f, this=THIS, st=st):
                k += 1
                rep.count('paths')
                if f.n == 'get':
                    rep.check(v == ('&', cT), f.loc, '%s does not return the address of the value'
                              % f.q, 'AnyImpl::get')
                elif f.n == 'showValue':
                    c = [e for e in s.events() if e.kind == 'call' and e.name == 'rc::show']
                    rep.check(len(c) == 1 and c[0].args[0] == ('sym', 'held') and
                              c[0].arglocs[1] == ('L', ('h', 'arg:' + f.params[0].n), ()), f.loc,
                              '%s does not show the value to the stream' % f.q,
                              'AnyImpl::showValue')
                elif f.n == 'showType':
                    c = [e for e in s.events() if e.kind == 'call' and
                         e.name == 'rc::detail::showType']
                    rep.check(len(c) == 1, f.loc, '%s does not show the type' % f.q)
    rep.need(k, 6, 'members of AnyImpl')
    for r in P.decls('Record'):
        if r.q == 'rc::detail::Any::IAnyImpl' and r.get('methods'):
            pass
    d = [x for tu in P.tus.values() for x in tu.decls.values()
         if x.k == 'Dtor' and x.rec is not None and x.rec.q == 'rc::detail::Any::IAnyImpl']
    rep.check(bool(d) and all(x.get('virt') for x in d), 'include/rapidcheck/detail/Any.hpp',
              'implementations of Any are deleted through a base without virtual destructor')
    g = 0
    for f in P.functions:
        if f.rec is None or f.rec.q != 'rc::detail::Any' or not f.inrepo or f.body is None:
            continue
        fl = [f.rec.tu.decl(i) for i in f.rec.get('fields', [])]
        if len(fl) != 1:
            raise AnalysisBroken('Any: no single implementation')
        if f.n not in ('get', 'showType', 'showValue', 'operator bool', 'reset'):
            continue
        for null in (0, 1):
            if f.n == 'get' and null:
                continue
            st = State()
            imp = NULL if null else ('&', ('L', ('h', 'impl'), ()))
            st.env[('h', 'this')] = ('S', ('sym', 'this'), ((fl[0].key, app('uptr', imp)),))
            st.env[('h', 'impl')] = ('sym', 'theimpl')
            ip = AnyI(P)
            for s, v in ip.run(f, this=THIS, st=st):
                if isinstance(v, Throw):
                    continue
                cs = [e for e in s.events() if e.kind == 'call' and e.recv is not None and
                      e.name.startswith('rc::detail::Any::IAnyImpl::') and
                      not e.name.endswith('typeInfo')]
                if any(e.name == '__assert_fail' for e in s.events()):
                    continue
                g += 1
                what = '%s of %s Any' % (f.n, 'a null' if null else 'an')
                if f.n == 'operator bool':
                    rep.check(v == C(1 - null), f.loc, '%s is %s' % (what, show(v)), what)
                    continue
                if f.n == 'reset':
                    rep.check(ip.load(s, ('L', ('h', 'this'), (fl[0].key,))) == app('uptr', NULL),
                              f.loc, '%s keeps the value' % what, what)
                    continue
                want = [] if null else ['rc::detail::Any::IAnyImpl::' + f.n]
                rep.check([e.name for e in cs] == want and
                          all(e.recvloc == imp[1] for e in cs), f.loc,
                          '%s uses %s' % (what, [e.name for e in cs]), what)
                if f.n == 'get' and cs:
                    rep.check(v == ('&', ip.deref(cs[0].ret)), f.loc,
                              '%s does not refer to the stored value' % what, what)
    rep.need(g, 8, 'members of Any')


def run(rep, tier):
    P = M.Program(['probe/p_life', 'src/'])
    rep.rule('Maybe: over every member function, every initial state of both operands (and self '
             'assignment) and every throwing payload operation, payloads are constructed only in '
             'empty storage, destroyed, assigned and read only when they exist, and afterwards the '
             'flag is set iff a payload exists, which holds the given value')
    maybe(P, rep)
    rep.rule('Variant: the same for every pair of alternatives, with the type index naming the '
             'type of the live payload; payloads built in temporary storage are destroyed; is, '
             'get, match, == and printing use the payload by its own type')
    variant(P, rep)
    rep.rule('Any: of() stores one value of the decayed type made from its argument, get() '
             'refers to it, a null Any is never dereferenced')
    anys(P, rep)
