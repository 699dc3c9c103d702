"""C09: lazily evaluated values own everything they use."""
from rcbase import *

TITLE = 'Lazy generators, shrinkables and sequences own everything they use'

HOLDERS = ('rc::Gen::GenImpl', 'rc::Shrinkable::ShrinkableImpl', 'rc::Seq::SeqImpl')
# reference counted handles and the unique owner, verified by C10
OWNERS = ('rc::Gen', 'rc::Shrinkable', 'rc::Seq')


def held(P):
    """{type text: (type, holder)} of everything stored as an implementation."""
    out = {}
    for tu in P.tus.values():
        for d in tu.decls.values():
            if d.k == 'Record' and d.g in HOLDERS and d.get('fields'):
                for i in d.get('fields'):
                    f = tu.decl(i)
                    if f.type().s.startswith('std::atomic'):
                        continue
                    out.setdefault(f.type().s + '@' + d.loc, (f.type(), d))
    return out


def short_(s):
    return s if len(s) < 90 else s[:87] + '...'


class Own:
    def __init__(self, P):
        self.P = P
        self.iters = {}
        self.types = set()

    def check(self, t, path, out, depth=0):
        """Appends (path, reason) for everything in t that is not owned."""
        if depth > 25:
            return
        k = t.k
        if k in ('lref', 'rref'):
            out.append((path, 'a reference (%s)' % short_(t.s)))
        elif k == 'ptr':
            to = t.to
            if to is not None and to.k in ('fn', 'func', 'function', 'proto'):
                return
            out.append((path, 'a pointer (%s)' % short_(t.s)))
        elif k == 'array':
            if t.to is not None:
                self.check(t.to, path, out, depth + 1)
        elif k == 'rec':
            r = t.rec
            if r.g in OWNERS:
                return
            self.types.add(r.q)
            if r.g.startswith('std::') or r.g.startswith('__gnu_cxx::'):
                n = r.g.split('::')[-1]
                if 'iterator' in n:
                    self.iters[path[-2][0] if len(path) > 1 else None] = (path, t)
                elif n == 'shared_ptr':
                    a = self.targs(r)
                    if a and not a[0].const:
                        for loc, what in self.written(path[-1][0]):
                            out.append((path, 'shared state that it writes to at %s (%s)' %
                                        (loc, what)))
                elif n in ('reference_wrapper', 'weak_ptr', 'basic_string_view', 'span'):
                    out.append((path, 'a non-owning %s' % n))
                elif n == 'initializer_list':
                    out.append((path, 'an initializer_list, which does not own its elements'))
                else:
                    for a in self.targs(r):
                        self.check(a, path + [(t.s, n)], out, depth + 1)
                return
            if r.file.startswith(VERIF):
                return          # a user type
            for b in r.get('bases') or []:
                x = b if isinstance(b, int) else b.get('t')
                bt = r.tu.type(x)
                if bt is not None:
                    self.check(bt, path + [(t.s, 'base')], out, depth + 1)
            for i in r.get('fields') or []:
                f = r.tu.decl(i)
                self.check(f.type(), path + [(r, f.n or '#%d' % f.get('idx', 0))], out, depth + 1)

    def written(self, r):
        """Accesses to the pointee of a shared_ptr to mutable in the methods of r
        that do not only read it."""
        out = []

        def visit(tu, n, parent):
            if isinstance(n, list):
                for x in n:
                    visit(tu, x, parent)
                return
            if not isinstance(n, dict):
                return
            if 'k' in n:
                d = tu.decl(n['d']) if n.get('d') is not None and 'Call' in n['k'] else None
                if d is not None and d.rec is not None and 'shared_ptr' in d.rec.g and \
                        d.n in ('operator*', 'operator->', 'get'):
                    t = tu.type(parent['t']) if parent is not None and 't' in parent else None
                    if t is not None and t.k == 'ptr':
                        t = t.to
                    a = self.targs(d.rec)
                    if a and a[0].const:
                        ok = True       # a shared_ptr to const
                    else:
                        ok = parent is not None and parent['k'] == 'ImplicitCastExpr' and \
                            (parent.get('ck') == 'LValueToRValue' or (t is not None and t.const))
                    if not ok:
                        out.append((nodeloc(tu, n), d.q))
                parent = n
            for k, v in n.items():
                if isinstance(v, (dict, list)):
                    visit(tu, v, parent)
        if not hasattr(r, 'tu'):
            return out
        for f in self.P.functions:
            if f.rec is not None and f.rec.tu is r.tu and f.rec.id == r.id and f.body is not None:
                visit(f.tu, f.body, None)
        return out

    def targs(self, r):
        out = []
        for x in r.get('targs') or []:
            for y in (x if isinstance(x, list) else [x]):
                ty = r.tu.type(y) if isinstance(y, int) else None
                if ty is not None:
                    out.append(ty)
        return out


def pathtext(p):
    return ' . '.join('%s' % (x if isinstance(x, str) else x[1]) for x in p)


def ownership(P, rep):
    own = Own(P)
    hs = held(P)
    rep.need(len(hs), 150, 'implementation types')
    for key in sorted(hs):
        t, d = hs[key]
        out = []
        own.check(t, [(d, short_(t.s))], out)
        where = t.rec.loc if t.k == 'rec' else d.loc
        for path, why in out:
            rec = path[-1][0]
            w = rec.loc if hasattr(rec, 'loc') else where
            rep.check(False, w, '%s stored in a %s holds %s at %s' %
                      (short_(t.s), d.g.split('::')[1], why, pathtext(path[1:])))
        if not out:
            rep.check(True, where, '', '%s owns its state' % short_(t.s))
    rep.count('implementation types', len(hs))
    rep.count('component types', len(own.types))
    return own


class It(Interp):
    def model(self, st, fr, g, d, n, recv, avs):
        nm = g.split('::')[-1]
        if recv is not None and d is not None and d.rec is not None and \
                'iterator' in d.rec.g.split('::')[-1].lower() and nm in ('operator*', 'operator->'):
            e = ('L', ('D', app('elem', self.load(st, recv))), ())
            return [(st, ('&', e))]
        if g in ('std::begin', 'std::end') or (recv is not None and g.startswith('std::') and
                                              nm in ('begin', 'end', 'cbegin', 'cend')):
            l = recv if recv is not None else avs[0][1][1]
            return [(st, app('it', ('&', l), C(nm[-3:] if 'end' in nm else 'begin')))]
        if g == 'std::advance':
            l = avs[0][1][1]
            v = self.load(st, l)
            self.store(st, l, app('adv', v, self.valof(st, avs[1])))
            return [(st, UNIT)]
        if g == 'std::next':
            return [(st, app('adv', self.valof(st, avs[0]), self.valof(st, avs[1])
                             if len(avs) > 1 else C(1)))]
        if recv is not None and nm == 'operator++' and g.startswith(('std::', '__gnu_cxx::')):
            v = self.load(st, recv)
            self.store(st, recv, app('adv', v, C(1)))
            return [(st, v if avs else ('&', recv))]
        return None


def base_of(v):
    """(container location, offset terms) of an iterator value."""
    off = []
    v = unwrap(v)
    while v[0] == 'app' and v[1] == 'adv':
        off.append(v[3])
        v = unwrap(v[2])
    if v[0] == 'app' and v[1] == 'it':
        return v[2][1], v[3], off
    if v[0] == 'app' and v[1] == '+' and len(v) == 4:
        b = base_of(v[2])
        return (b[0], b[1], b[2] + off + [v[3]]) if b else None
    return None


def iterators(P, rep, own):
    """A stored iterator points into a container of the same object, and copies
    of the object point into their own container at the same position."""
    n = 0
    seen = set()
    todo = {}
    for rec, (path, t) in own.iters.items():
        r = path[-1][0]
        todo.setdefault(r.loc + r.g, []).append((r, path[-1][1]))
    for loc in sorted(todo):
        for r, fname in todo[loc]:
            flds = [r.tu.decl(i) for i in r.get('fields')]
            fi = [f for f in flds if f.n == fname][0]
            conts = [f for f in flds if f.type().k == 'rec' and f is not fi and
                     f.type().rec.g.startswith('std::') and
                     'iterator' not in f.type().rec.g]
            if not rep.check(len(conts) == 1, r.loc, '%s holds an iterator but %d containers' %
                             (r.q, len(conts)), '%s has its own container' % r.q):
                continue
            ck = conts[0].key
            poss = [f for f in flds if f not in (fi, conts[0])]
            ms = [f for f in P.functions if f.rec is not None and f.rec.tu is r.tu and
                  f.rec.id == r.id]
            for kind in ('copyctor', 'copyassign'):
                fs = [f for f in ms if f.get(kind)]
                if not fs:
                    dd = [d for d in r.tu.decls.values() if d.k in ('Method', 'Ctor') and
                          d.rec is not None and d.rec.id == r.id and d.get(kind)]
                    if any(d.get('deleted') for d in dd):
                        continue
                    if kind == 'copyassign' and not any(
                            d.get('implicit') or d.get('defaulted') for d in dd):
                        continue        # not instantiated: declared by the user
                    rep.check(bool(dd) and not any(d.get('defaulted') or d.get('implicit')
                                                   for d in dd), r.loc,
                              '%s: the %s copies an iterator into another object\'s container' %
                              (r.q, kind))
                    continue
                for f in fs:
                    if f.get('defaulted') or f.get('implicit'):
                        rep.check(False, r.loc, '%s: the %s copies an iterator into another '
                                  'object\'s container' % (r.q, kind))
                        continue
                    ip = It(P)
                    st = State()
                    st.env[('h', 'this')] = ('S', ('sym', 'this'), ())
                    st.env[('h', 'other')] = ('sym', 'other')
                    other = ('L', ('h', 'other'), ())
                    for s, v in ip.run(f, this=('L', ('h', 'this'), ()),
                                       args=[('l', ('&', other))], st=st):
                        if isinstance(v, Throw):
                            continue
                        n += 1
                        rep.count('paths')
                        it = ip.load(s, ('L', ('h', 'this'), (fi.key,)))
                        inloop = False
                        for where, pre, head, backs, exits in ip.loops:
                            if it == ip.load(head, ('L', ('h', 'this'), (fi.key,))) and \
                                    it[0] == 'sym':
                                # advanced in a loop: judged by what it starts from and
                                # by every iteration keeping iterator and position in step
                                inloop = True
                                it = ip.load(pre, ('L', ('h', 'this'), (fi.key,)))
                                for b_ in backs:
                                    x = ip.load(b_, ('L', ('h', 'this'), (fi.key,)))
                                    inloop = inloop and x[:2] == ('app', 'adv')
                                for p in poss:
                                    p0 = ip.load(pre, ('L', ('h', 'this'), (p.key,)))
                                    inloop = inloop and (unwrap(p0) == C(0) or p0 == ip.load(
                                        s, ('L', ('h', 'other'), (p.key,))))
                        b = base_of(it)
                        ok = b is not None and b[0] == ('L', ('h', 'this'), (ck,))
                        rep.check(ok, f.loc, '%s: after copying the iterator is %s, not into the '
                                  'object\'s own container' % (f.q, show(it)), '%s %s' % (r.g, kind))
                        if not ok or inloop:
                            continue
                        # same position: advanced by the position of the source
                        srcpos = [ip.load(s, ('L', ('h', 'other'), (p.key,))) for p in poss]
                        offs = [unwrap(o) for o in b[2]]
                        good = len(offs) == 1 and (offs[0] in srcpos or
                                                   contains(offs[0], app('.', ('sym', 'other'),
                                                                         fi.key)))
                        rep.check(good, f.loc, '%s: the copy does not continue at the position '
                                  'of the source (advanced by %s)' %
                                  (f.q, [show(o) for o in offs]), '%s %s position' % (r.g, kind))
                        for p in poss:
                            x = ip.load(s, ('L', ('h', 'this'), (p.key,)))
                            rep.check(x == ip.load(s, ('L', ('h', 'other'), (p.key,))), f.loc,
                                      '%s: %s of the copy is %s' % (f.q, p.n, show(x)))
                        c = unwrap(ip.load(s, ('L', ('h', 'this'), (ck,))))
                        rep.check(c == app('.', ('sym', 'other'), ck), f.loc,
                                  '%s: the container of the copy is %s' % (f.q, show(c)))
                    rep.analysed(ip)
            for d in r.tu.decls.values():
                if d.k in ('Method', 'Ctor') and d.rec is not None and d.rec.tu is r.tu and \
                        d.rec.id == r.id and (d.get('movector') or d.get('moveassign')) and \
                        not d.get('deleted'):
                    rep.check(not (d.get('defaulted') or d.get('implicit')), r.loc,
                              '%s: the defaulted move %s keeps an iterator into the container '
                              'of the source (its end iterator is not transferred)' %
                              (r.q, d.n))
            # advancing keeps the position in step with the iterator
            for f in ms:
                if f.n != 'operator()' or not poss:
                    continue
                ip = It(P)
                ip.OPAQUE = ('rc::Maybe::',)
                st = State()
                i0 = app('it', ('sym', 'own'), C('begin'))
                st.env[('h', 'this')] = ('S', ('sym', 'this'), ((fi.key, i0),))
                for s, v in ip.run(f, this=('L', ('h', 'this'), ()), st=st):
                    if isinstance(v, Throw):
                        continue
                    n += 1
                    rep.count('paths')
                    it = ip.load(s, ('L', ('h', 'this'), (fi.key,)))
                    steps = 0
                    while it != i0 and it[0] == 'app' and it[1] == 'adv':
                        steps += it[3][1] if it[3][0] == 'c' else 99
                        it = it[2]
                    for p in poss:
                        x = ip.load(s, ('L', ('h', 'this'), (p.key,)))
                        w = app('.', ('sym', 'this'), p.key)
                        d = 0 if x == w else evalterm(x, {w: 0})
                        rep.check(it == i0 and d == steps, f.loc, '%s: the iterator advances by '
                                  '%s but %s by %s' % (f.q, steps, p.n, d),
                                  '%s keeps its position' % r.g)
                rep.analysed(ip)
    rep.need(n, 8, 'paths of iterator holding implementations')


def stolen(P, rep):
    """std::move applied to a parameter that is bound to the caller's lvalue."""
    n = 0
    for f in P.functions:
        if not f.inrepo or f.body is None:
            continue
        lv = {p.id: p for p in f.params if p.type().k == 'lref' and not p.type().to.const}
        roots = [f.body] + [i.get('e') for i in f.get('inits') or []]
        if not lv:
            continue
        for r in roots:
            for x in walk(r):
                if x['k'] != 'CallExpr' or x.get('d') is None:
                    continue
                d = f.tu.decl(x['d'])
                if d is None or d.g != 'std::move' or len(x['c']) != 2:
                    continue
                a = x['c'][1]
                while a['k'] in ('ImplicitCastExpr', 'ParenExpr'):
                    a = a['c'][0]
                if a['k'] == 'DeclRefExpr' and a['d'] in lv:
                    n += 1
                    rep.check(False, nodeloc(f.tu, x), '%s moves from its argument %s, which '
                              'is the caller\'s own object (%s)' %
                              (f.g, lv[a['d']].n, short_(lv[a['d']].type().s)))
        rep.check(True, f.loc, '')
        rep.count('functions taking a caller\'s lvalue')


def run(rep, tier):
    P = M.Program()
    rep.rule('every type stored as implementation of a Gen, Shrinkable or Seq, recursively through '
             'fields, bases, captures and element types: no reference, object pointer (this '
             'captures included), non-owning view or shared mutable state')
    own = ownership(P, rep)
    rep.rule('an implementation with a stored iterator has its own container, its copies point '
             'into their own container at the same position, and the position follows the iterator')
    iterators(P, rep, own)
    rep.rule('no function moves from a parameter that is bound to an lvalue of the caller')
    stolen(P, rep)
    rep.assume += ['user supplied callables and values own their state',
                   'Gen, Shrinkable and Seq own their implementation (C10)']
