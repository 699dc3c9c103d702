"""C10: reference counting of Gen and Shrinkable handles, ownership of Seq."""
from rcbase import *

TITLE = 'Shared implementations are kept alive exactly as long as a handle uses them'

HANDLES = ('rc::Gen', 'rc::Shrinkable')


class H(Interp):
    """Handles are interpreted, their implementations are unknown objects."""
    UNROLL = True

    def binop(self, op, a, b):
        # the analysed objects are given explicitly, so addresses are exact
        if op == '==' and a[0] == '&' and b[0] == '&':
            return C(int(a == b))
        return super().binop(op, a, b)


def special(P, cls):
    """{'copy ctor': [...], ...} of every instantiation of a class template."""
    out = {}
    for f in P.functions:
        if f.rec is None or f.rec.g != cls or not f.inrepo or f.body is None:
            continue
        kind = None
        if f.k == 'Dtor':
            kind = 'destructor'
        elif f.get('copyctor'):
            kind = 'copy constructor'
        elif f.get('movector'):
            kind = 'move constructor'
        elif f.get('copyassign'):
            kind = 'copy assignment'
        elif f.get('moveassign'):
            kind = 'move assignment'
        if kind:
            out.setdefault(kind, []).append(f)
    return out


def implfield(rec):
    fs = [rec.tu.decl(i) for i in rec.get('fields', [])]
    ps = [f for f in fs if f.type().k == 'ptr']
    if len(ps) != 1:
        raise AnalysisBroken('%s: no single implementation pointer' % rec.q)
    return ps[0], [f for f in fs if f is not ps[0]]


PA = ('&', ('L', ('h', 'implA'), ()))
PB = ('&', ('L', ('h', 'implB'), ()))


def obj(nm, key, ptr, others):
    return ('S', ('sym', nm), ((key, ptr),) + tuple((o.key, app('.', ('sym', nm), o.key))
                                                    for o in others))


def counts(evs, P_, rep, f):
    """Per implementation: the list of retain/release/delete events."""
    out = {}
    for e in evs:
        if e.kind == 'call' and e.name.split('::')[-1] in ('retain', 'release'):
            b = e.recvloc[1] if e.recvloc is not None else None
            out.setdefault(b, []).append(e.name.split('::')[-1])
    return out


def handle(P, rep, cls):
    sp = special(P, cls)
    for kind in ('destructor', 'copy constructor', 'move constructor', 'copy assignment',
                 'move assignment'):
        rep.need(len(sp.get(kind, [])), 1, '%s %s instantiations' % (cls, kind))
        for f in sp[kind]:
            fld, others = implfield(f.rec)
            for mine in ((PA, NULL) if 'constructor' not in kind else (None,)):
                cases = [('other', PB)] if kind != 'destructor' else [('none', None)]
                if 'assignment' in kind:
                    cases.append(('self', mine))
                    cases.append(('shared', PA) if mine == PA else ('shared', PB))
                for how, theirs in cases:
                    if how == 'self' and mine == NULL:
                        continue
                    one(P, rep, cls, kind, f, fld, others, mine, how, theirs)


def one(P, rep, cls, kind, f, fld, others, mine, how, theirs):
    ip = H(P)
    st = State()
    this = ('L', ('h', 'this'), ())
    st.env[('h', 'implA')] = ('sym', 'implA')
    st.env[('h', 'implB')] = ('sym', 'implB')
    if mine is None:
        st.env[this[1]] = ('S', ('sym', 'raw'), ())
    else:
        st.env[this[1]] = obj('mine', fld.key, mine, others)
    args = None
    oloc = None
    if how != 'none':
        oloc = this if how == 'self' else ('L', ('h', 'other'), ())
        if how != 'self':
            st.env[oloc[1]] = obj('other', fld.key, theirs, others)
        args = [('l', ('&', oloc))]
    what = '%s %s (%s%s)' % (cls, kind, 'holding nothing, ' if mine == NULL else '',
                             {'other': 'from another handle', 'self': 'from itself',
                              'shared': 'from a handle of the same implementation',
                              'none': 'plain'}[how])
    res = ip.run(f, this=this, args=args, st=st)
    rep.analysed(ip)
    rep.need(len(res), 1, what + ' paths')
    for s, v in res:
        rep.count('paths')
        if isinstance(v, Throw):
            rep.check(False, f.loc, what + ': throws %s' % v.tag)
            continue
        evs = s.events()
        ops = {}
        bad = None
        for e in evs:
            if e.kind != 'call' or e.name.split('::')[-1] not in ('retain', 'release'):
                continue
            if e.recvloc is None or e.recvloc[1] not in (('h', 'implA'), ('h', 'implB')):
                bad = '%s is called on a null or unknown implementation' % e.name.split('::')[-1]
                continue
            ops.setdefault(('&', ('L', e.recvloc[1], ())), []).append(e.name.split('::')[-1])
        before, after = {}, {}
        if mine not in (None, NULL):
            before[mine] = before.get(mine, 0) + 1
        if how not in ('none', 'self') and theirs != NULL:
            before[theirs] = before.get(theirs, 0) + 1
        fin = []
        if kind != 'destructor':
            fin.append(ip.load(s, ('L', this[1], (fld.key,))))
        if how not in ('none', 'self'):
            fin.append(ip.load(s, ('L', oloc[1], (fld.key,))))
        for x in fin:
            if x in (PA, PB):
                after[x] = after.get(x, 0) + 1
            elif x != NULL:
                bad = bad or 'a handle is left with an indeterminate implementation'
        for p in (PA, PB):
            o = ops.get(p, [])
            net = o.count('retain') - o.count('release')
            if after.get(p, 0) - before.get(p, 0) != net:
                bad = bad or 'handles to an implementation change by %d but its count changes ' \
                    'by %d' % (after.get(p, 0) - before.get(p, 0), net)
            # never drop to zero while a handle keeps (or will keep) it
            c = before.get(p, 0)
            for x in o:
                c += 1 if x == 'retain' else -1
                if c <= 0 and x == 'release' and (after.get(p, 0) > 0 or o[-1] == 'retain'):
                    bad = bad or 'an implementation may be destroyed before the handle that ' \
                        'keeps it retains it'
        rep.check(bad is None, f.loc, '%s: %s' % (what, bad), what)
        if kind.startswith('copy'):
            rep.check(fin[:1] == [theirs] and (how == 'self' or fin[1] == theirs), f.loc,
                      what + ': the handles do not share the implementation afterwards',
                      what + ' shares')
        elif kind.startswith('move') and how != 'self':
            rep.check(fin[:1] == [theirs], f.loc, what + ': the implementation is not taken over',
                      what + ' takes over')
        # the other data members (the name of a generator) follow
        if kind != 'destructor' and how == 'other':
            for o in others:
                w = app('.', ('sym', 'other'), o.key)
                rep.check(ip.load(s, ('L', this[1], (o.key,))) == w, f.loc,
                          what + ': %s is not carried over' % o.n, o.n + ' carried over')


ATOMIC_RMW = ('fetch_add', 'fetch_sub', 'operator++', 'operator--', 'operator+=', 'operator-=')


def impls(P, rep):
    """retain/release of the counted implementations."""
    n = 0
    for f in P.functions:
        if f.rec is None or f.n not in ('retain', 'release') or f.k != 'Method' or \
                not f.inrepo or f.body is None:
            continue
        cnt = [f.rec.tu.decl(i) for i in f.rec.get('fields', [])]
        cnt = [c for c in cnt if c.type().k == 'rec' and c.type().rec.g == 'std::atomic']
        n += 1
        if len(cnt) != 1:
            rep.check(False, f.loc, '%s has no atomic reference count' % f.rec.q)
            continue
        ip = H(P)
        dels = set()
        for s, v in ip.run(f):
            evs = s.events()
            rm = []
            for e in evs:
                if e.recvloc is not None and e.recvloc[2][-1:] == (cnt[0].key,) and \
                        e.kind in ('call', 'assign'):
                    rm.append(e)
            d = [e for e in evs if e.kind == 'delete']
            nm = rm[0].name.split('::')[-1] if rm else ''
            one = len(rm) == 1 and nm in ATOMIC_RMW and \
                (not rm[0].args or rm[0].args[0] == C(1) or nm in ('operator++', 'operator--'))
            up = nm in ('fetch_add', 'operator++', 'operator+=')
            rep.check(one and up == (f.n == 'retain'), f.loc,
                      '%s does not change the count by one in a single atomic step' % f.n,
                      f.n + ' is one atomic step')
            if not one:
                continue
            if f.n == 'retain':
                rep.check(not d, f.loc, 'retain destroys the implementation')
                continue
            # fetch_sub and postfix return the previous value
            old = nm == 'fetch_sub' or (nm == 'operator--' and rm[0].args)
            # a count is at least one before a release
            vals = [r for r in (0, 1, 2) if consistent(s, {rm[0].ret: r + (1 if old else 0)})]
            last = True if vals == [0] else False if 0 not in vals else None
            rep.check(last is not None and bool(d) == bool(last), f.loc,
                      'release %s the implementation although its own decrement %s the last one'
                      % ('destroys' if d else 'keeps', 'was' if last else 'need not be'),
                      'release deletes iff last')
            rep.check(len(d) <= 1, f.loc, 'release deletes twice')
            dels.add(bool(d))
        rep.analysed(ip)
        if f.n == 'release':
            rep.check(True in dels, f.loc, 'release never destroys the implementation',
                      'release can delete')
    rep.need(n, 8, 'retain/release implementations')
    # constructors start at one
    k = 0
    for f in P.functions:
        if f.rec is None or f.k != 'Ctor' or not f.inrepo or f.get('copyctor') or f.get('movector'):
            continue
        cnt = [f.rec.tu.decl(i) for i in f.rec.get('fields', [])]
        cnt = [c for c in cnt if c.type().k == 'rec' and c.type().rec.g == 'std::atomic']
        if not cnt or f.rec.g.split('::')[-1] not in ('GenImpl', 'ShrinkableImpl'):
            continue
        ip = RC(P)
        for s, v in ip.run(f):
            if isinstance(v, Throw):
                continue
            x = ip.load(s, ('L', ('h', 'this'), (cnt[0].key,)))
            k += 1
            rep.check(contains(x, C(1)) and not contains(x, C(2)), f.loc,
                      'a new implementation starts with the count %s' % show(x), 'starts at one')
    rep.need(k, 4, 'constructors of counted implementations')


class S_(MapModel):
    OPAQUE = ()

    def model(self, st, fr, g, d, n, recv, avs):
        nm = g.split('::')[-1]
        if recv is not None and g.startswith('std::unique_ptr::'):
            v = self.load(st, recv)
            if nm == 'operator bool':
                return [(st, app('set', v) if v != NULL else C(0))]
            if nm in ('operator->', 'get'):
                return [(st, app('ptr', v) if v != NULL else NULL)]
            if nm == 'operator=':
                w = self.valof(st, avs[0])
                if w[0] == 'app' and w[1] == 'null':
                    w = NULL
                self.write(st, fr, n, recv, w)
                return [(st, ('&', recv))]
            if nm == 'reset':
                self.write(st, fr, n, recv, app('uptr', self.valof(st, avs[0]))
                           if avs and self.valof(st, avs[0]) != NULL else NULL)
                return [(st, UNIT)]
        if g == 'ctor:std::unique_ptr':
            v = self.valof(st, avs[0]) if avs else NULL
            if v[0] == '&':
                return [(st, app('uptr', v))]
            return [(st, v)]
        return super().model(st, fr, g, d, n, recv, avs)


def seqs(P, rep):
    """Copies of a Seq own an independent copy of the implementation; an empty
    Seq can be copied, assigned and assigned from."""
    sp = special(P, 'rc::Seq')
    n = 0
    for kind in ('copy constructor', 'copy assignment'):
        rep.need(len(sp.get(kind, [])), 1, 'rc::Seq %s' % kind)
        for f in sp[kind]:
            flds = [f.rec.tu.decl(i) for i in f.rec.get('fields')]
            key = flds[0].key
            ip = S_(P)
            for theirs in (NULL, ('sym', 'theirs')):
                st = State()
                st.env[('h', 'this')] = ('S', ('sym', 'mine'), ((key, ('sym', 'minep')),))
                st.env[('h', 'o')] = ('S', ('sym', 'other'), ((key, theirs),))
                if theirs != NULL:
                    ip.assume(st, app('set', theirs), True)
                res = ip.run(f, this=('L', ('h', 'this'), ()),
                             args=[('l', ('&', ('L', ('h', 'o'), ())))], st=st)
                rep.need(len(res), 1, 'paths of rc::Seq %s' % kind)
                for s, v in res:
                    if theirs != NULL and ip.decide(s, app('set', theirs)) == 0:
                        continue
                    n += 1
                    rep.count('paths')
                    what = 'rc::Seq %s from %s' % (kind, 'an empty sequence' if theirs == NULL
                                                   else 'a sequence')
                    x = ip.load(s, ('L', ('h', 'this'), (key,)))
                    o = ip.load(s, ('L', ('h', 'o'), (key,)))
                    cp = [e for e in s.events() if e.kind == 'call' and e.name.endswith('::copy')]
                    if theirs == NULL:
                        rep.check(not cp and x == NULL, f.loc, what + ' does not give an empty '
                                  'sequence (uses a null implementation)', what)
                    else:
                        rep.check(len(cp) == 1 and contains(cp[0].recv, theirs) and
                                  x == cp[0].ret and o == theirs, f.loc,
                                  what + ' does not own one independent copy', what)
            rep.analysed(ip)
    # copy() of the implementations creates a new object from the whole state
    k = 0
    for f in P.functions:
        if f.rec is not None and f.n == 'copy' and f.rec.g == 'rc::Seq::SeqImpl' and f.inrepo:
            ip = S_(P)
            for s, v in ip.run(f):
                if isinstance(v, Throw):
                    continue
                nw = [e for e in s.events() if e.kind == 'new']
                k += 1
                rep.check(len(nw) == 1 and v[0] == 'app' and v[1] == 'uptr', f.loc,
                          'copy() does not return a newly created implementation', 'copy() is new')
    rep.need(k, 4, 'SeqImpl::copy instantiations')


def run(rep, tier):
    P = M.Program()
    rep.rule('special members of Gen and Shrinkable: on every path the change of the number of '
             'handles of each implementation equals retains minus releases, retain precedes any '
             'release that could be the last one, nothing is called through a null pointer, copies '
             'share and moves take over the implementation (also when assigning to itself)')
    for c in HANDLES:
        handle(P, rep, c)
    rep.rule('retain and release change the atomic count by one in a single read-modify-write; '
             'release deletes exactly on the path where its own decrement was the last; new '
             'implementations start at one')
    impls(P, rep)
    rep.rule('Seq copies own exactly one fresh copy of the implementation and are empty for an '
             'empty source')
    seqs(P, rep)
    rep.assume.append('handles that were moved from are only destroyed or assigned to')
