"""C29: showing values."""
from texts import *
from c24 import Exec
from effects import Effects
import laws

TITLE = 'Shown values list all their parts and leave the stream as it was'

# what of a stream's format each manipulator or member function changes
FLAGS = ('hex', 'dec', 'oct', 'showbase', 'noshowbase', 'uppercase', 'nouppercase', 'fixed',
         'scientific', 'hexfloat', 'defaultfloat', 'boolalpha', 'noboolalpha', 'left', 'right',
         'internal', 'showpoint', 'noshowpoint', 'showpos', 'noshowpos', 'unitbuf', 'nounitbuf',
         'skipws', 'noskipws')
SETTER = {'std::_Setprecision': 'precision', 'std::_Setw': 'width', 'std::_Setbase': 'flags',
          'std::_Setfill': 'fill', 'std::_Setiosflags': 'flags', 'std::_Resetiosflags': 'flags'}
PARTS = ('flags', 'precision', 'fill', 'width', 'locale')
MEMBERS = {'flags': 'flags', 'precision': 'precision', 'fill': 'fill', 'width': 'width',
           'imbue': 'locale', 'setf': 'flags', 'unsetf': 'flags'}
IOS = ('std::ios_base', 'std::basic_ios') + STREAMS


class Show(Text):
    """Streams have a text and a format."""
    MODELS = {k: v for k, v in Text.MODELS.items() if 'Variant' not in k}

    def fmt(self, st, loc, part):
        return st.env.get(('h', 'format', part, loc), app('initial', C(part)))

    def setfmt(self, st, loc, part, v):
        st.env[('h', 'format', part, loc)] = v

    def changed(self, st):
        """Parts of the format of a stream that are not as they were."""
        return [(k[3], k[2], v) for k, v in st.env.items() if k[:2] == ('h', 'format') and
                v != app('initial', C(k[2])) and k[3][1][0] != 'v']

    def texts(self, st, fr, g, nm, d, n, recv, avs):
        cls = g.rsplit('::', 1)[0]
        if nm == 'operator<<' and g.startswith('std::') and d is not None:
            loc = recv if recv is not None else avs[0][1][1] if avs and avs[0][0] == 'l' else None
            t = d.params[-1].type().strip()
            v = self.strip(self.valof(st, avs[-1]))
            s = SETTER.get(t.rec.g if t.k == 'rec' else None)
            fn = getattr(v[-1], 'n', str(v[-1])) if v[:2] == ('app', 'fnptr') or v[0] == 'fn' else None
            if s is not None or fn in FLAGS:
                old = self.fmt(st, loc, s or 'flags')
                self.setfmt(st, loc, s or 'flags', app('set', norm(v) if s else C(fn), old))
                return [(st, ('&', loc))]
            if loc is not None and fn is None and self.isout(d, recv):
                ps = self.piece(st, avs[-1], d.params[-1].type())
                f = [self.fmt(st, loc, p) for p in PARTS]
                words = 'char' in t.s or 'string' in t.s
                if any(x[1] != 'initial' for x in f) and not (words and f[3][1] == 'initial'):
                    ps = [app('formatted', text(ps), *f)]
                st.env.pop(('h', 'format', 'width', loc), None)
                self.store(st, loc, text(pieces(self.load(st, loc)) + ps))
                return [(st, ('&', loc))]
        if recv is not None and g == 'rc::state::Command::show' and len(avs) == 1:
            loc = avs[0][1][1]
            self.store(st, loc, text(pieces(self.load(st, loc)) +
                                     [app('shown', norm(self.load(st, recv)))]))
            return [(st, UNIT)]
        if recv is not None and cls in IOS and nm in MEMBERS:
            p = MEMBERS[nm]
            old = self.fmt(st, recv, p)
            if nm == 'unsetf':
                self.setfmt(st, recv, p, app('unset', norm(self.valof(st, avs[0])), old))
            elif nm == 'setf':
                self.setfmt(st, recv, p, app('set', *[norm(self.valof(st, a)) for a in avs] + [old]))
            elif avs:
                self.setfmt(st, recv, p, self.strip(self.valof(st, avs[0])))
            return [(st, old if nm != 'unsetf' else UNIT)]
        if recv is not None and cls in IOS and nm == 'copyfmt' and avs[0][0] == 'l':
            for p in PARTS:
                self.setfmt(st, recv, p, self.fmt(st, avs[0][1][1], p))
            return [(st, ('&', recv))]
        if recv is None and d is not None and self.P.resolve(d).body is None and \
                not g.startswith('std::') and len(avs) == 2 and avs[1][0] == 'l' and \
                self.isstream(d.params[1].type()):
            loc = avs[1][1][1]
            self.store(st, loc, text(pieces(self.load(st, loc)) +
                                     [app(nm, norm(self.strip(self.valof(st, avs[0]))))]))
            return [(st, UNIT)]
        return super().texts(st, fr, g, nm, d, n, recv, avs)

    def isout(self, d, recv):
        return recv is not None or self.isstream(d.params[0].type())

    # ---- characters -------------------------------------------------------
    def items(self, v):
        if v[0] == 'c' and isinstance(v[1], str):
            return [C(ord(c) - 256 if ord(c) > 127 else ord(c)) for c in v[1]]
        return super().items(v)

    def model(self, st, fr, g, d, n, recv, avs):
        if g in ('std::isspace', 'std::isprint', 'std::isalnum', 'std::isalpha', 'std::isdigit',
                 'std::ispunct', 'std::isgraph', 'std::iscntrl') and len(avs) == 2:
            c = self.strip(self.valof(st, avs[0]))
            loc = repr(norm(self.valof(st, avs[1])))
            if c[0] == 'c' and 'std::locale::classic' in loc:
                return [(st, C(int(CLASSIC[g[5:]](c[1]))))]
        return super().model(st, fr, g, d, n, recv, avs)

    def loop1(self, st, fr, n, rng, cond, inc, body, cvar, dofirst):
        out = super().loop1(st, fr, n, rng, cond, inc, body, cvar, dofirst)
        where, pre, head, backs, exits = self.loops[-1]
        keys = {k for s in backs for k in s.env if k[:2] == ('h', 'format')}
        for k in keys:
            old = pre.env.get(k, app('initial', C(k[2])))
            if all(s.env.get(k, old) == old for s in backs):
                continue
            for s, o in out:
                if s.env.get(k, old) == old and not (isinstance(o, tuple) and o[:2] == (
                        'throw', 'again')):
                    s.env[k] = app('changed in the loop', C(k[2]))
        return out


CLASSIC = {
    'isspace': lambda c: c in (9, 10, 11, 12, 13, 32), 'isprint': lambda c: 32 <= c < 127,
    'isalnum': lambda c: 0 < c < 127 and chr(c).isalnum(),
    'isalpha': lambda c: 0 < c < 127 and chr(c).isalpha(), 'isdigit': lambda c: 48 <= c < 58,
    'ispunct': lambda c: 32 < c < 127 and not chr(c).isalnum(),
    'isgraph': lambda c: 32 < c < 127, 'iscntrl': lambda c: 0 <= c < 32 or c == 127}


class Unknown(Exception):
    pass


def flagval(t, groups):
    """The last of the flags that was set, None if it is the default."""
    while t[:2] != ('app', 'initial'):
        if t[:2] != ('app', 'set') or len(t) != 4 or t[2][0] != 'c':
            raise Unknown(show(t))
        if t[2][1] in groups:
            return t[2][1]
        t = t[3]
    return None


def setval(t, default):
    if t[:2] == ('app', 'initial'):
        return default
    if t[:2] == ('app', 'set') and t[2][0] == 'app' and len(t[2]) == 3 and t[2][2][0] == 'c':
        return t[2][2][1]
    if t[0] == 'c':
        return t[1]
    raise Unknown(show(t))


def rendered(t):
    """The characters that a text of constants makes on a stream in its default
    format."""
    out = ''
    for p in pieces(t):
        if p[0] == 'c' and isinstance(p[1], str):
            out += p[1]
            continue
        if p[:2] != ('app', 'formatted') or p[2][0] != 'c':
            raise Unknown(show(p))
        v, flags, precision, fill, width, locale = p[2:]
        s = v[1]
        if isinstance(s, str) and s.lstrip('-').isdigit():
            base = flagval(flags, ('hex', 'oct', 'dec'))
            x = int(s)
            if base in ('hex', 'oct'):
                x &= 0xFFFFFFFF
            s = {'hex': '%x', 'oct': '%o'}.get(base, '%d') % x
            if flagval(flags, ('showbase', 'noshowbase')) == 'showbase' and x:
                s = {'hex': '0x', 'oct': '0'}.get(base, '') + s
            if flagval(flags, ('uppercase', 'nouppercase')) == 'uppercase':
                s = s.upper()
        f = setval(fill, ' ')
        f = chr(f) if isinstance(f, int) else f
        w = setval(width, 0)
        s = s.ljust(w, f) if flagval(flags, ('left', 'right', 'internal')) == 'left' \
            else s.rjust(w, f)
        out += s
    return out


def meaning(t):
    """The character that an escape stands for in C++."""
    if len(t) < 2 or t[0] != '\\':
        return None
    try:
        if t[1] in 'abfnrtv\\"\'':
            return dict(zip('abfnrtv\\"\'', (7, 8, 12, 10, 13, 9, 11, 92, 34, 39)))[t[1]] if len(t) == 2 else None
        return int(t[2:], 16) if t[1] == 'x' else int(t[1:], 8)
    except ValueError:
        return None


def strings(rep, P):
    """Two different strings are shown differently."""
    fs = [f for f in P.functions if f.g == 'rc::detail::showValue' and f.body is not None and
          f.inrepo and len(f.params) == 2 and not f.get('targs') and
          'basic_string' in getattr(f.params[0].type().strip().rec, 'g', '')]
    if not fs:
        raise AnalysisBroken('how strings are shown was not found')
    f = fs[0]
    codes = {}
    ip = Show(P)
    for c in range(256):
        a, b = ('L', ('h', 'arg:0'), ()), ('L', ('h', 'arg:1'), ())
        st = State()
        st.env[a[1]] = C(chr(c))
        st.env[b[1]] = C('')
        outs = set()
        for s, v in ip.run(f, args=[('l', ('&', a)), ('l', ('&', b))], st=st):
            if isinstance(v, Throw):
                rep.check(False, f.loc, 'showing a string with the character %d throws' % c)
                continue
            try:
                outs.add(rendered(norm(ip.load(s, b))))
            except Unknown as e:
                raise AnalysisBroken('character %d of a string is shown as %s' % (c, e))
        if len(outs) != 1:
            raise AnalysisBroken('what character %d is shown as depends on %s' % (
                c, 'something else'))
        t = outs.pop()
        q = len(t) >= 2 and t[0] == t[-1] == '"'
        rep.check(q, f.loc, 'a string with the character %d is not quoted: %s' % (c, t),
                  'a string of one character is shown between quotes')
        if q:
            codes[c] = t[1:-1]
    for c, t in sorted(codes.items()):
        rep.check(t != '' and not t.startswith('"'), f.loc, 'character %d of a string is shown as %r, '
                  'which %s' % (c, t, 'leaves it out' if not t else 'ends the string'),
                  'each character of a string is shown and does not end it')
        same = [x for x, y in codes.items() if x != c and y.startswith(t)]
        rep.check(not same, f.loc, 'a string with character %d shows as %r, which may be the '
                  'beginning of what character %d shows as (%r): different strings are shown '
                  'alike' % (c, t, same[0] if same else 0, codes.get(same[0] if same else 0)),
                  'no character is shown as the beginning of another one: different strings are '
                  'shown differently')
        plain = 32 <= c < 127 and chr(c) not in '"\\'
        rep.check(not plain or t == chr(c), f.loc, 'the printable character %r is shown as %r' % (
            chr(c), t), 'printable characters are shown as they are')
        rep.check(all(32 <= ord(x) < 127 for x in t), f.loc, 'character %d is shown as %r, which is '
                  'not printable' % (c, t), 'only printable characters are shown')
        m = meaning(t)
        rep.check(m is None or m == c, f.loc, 'character %d is shown as %r, which stands for character %s' % (
            c, t, m), 'an escape stands for the character that it shows')
    rep.count('characters', len(codes))
    rep.analysed(ip)


def internal(d):
    """Only seen in its own file (functions with external linkage have a mangled name)."""
    return not d.get('m')


def formats(rep, P):
    """No function leaves a stream in another format than it found it in."""
    def leaf(tu, n, callee):
        if callee is not None:
            g = callee.g
            if g.rsplit('::', 1)[0] in IOS and callee.n in tuple(MEMBERS) + ('copyfmt',):
                return callee.n if callee.params else None
            if g in ('std::setprecision', 'std::setw', 'std::setbase', 'std::setfill',
                     'std::setiosflags', 'std::resetiosflags'):
                return callee.n
            return None
        if n['k'] == 'DeclRefExpr':
            d = tu.decl(n['d'])
            if d is not None and d.n in FLAGS and d.q.startswith('std::'):
                return d.n
        return None
    E = Effects(P, leaf)
    fs = [f for f in P.functions if f.inrepo and f.body is not None]
    callers = {}
    todo = []
    for f in fs:
        leafs, callees = E.direct(f)
        for t, _ in callees:
            callers.setdefault(E.key(t), []).append(f)
        if leafs:
            todo.append(f)
    rep.need(len(todo), 1, 'functions that change the format of a stream')
    done = set()
    while todo:
        f = todo.pop(0)
        if E.key(f) in done:
            continue
        done.add(E.key(f))
        if len(done) > 200:
            raise AnalysisBroken('too many functions change the format of a stream')
        ip = Show(P)
        bad = set()
        for s, v in ip.run(f):
            if isinstance(v, Throw) and v.tag == 'again':
                continue
            bad |= {p for _, p, _ in ip.changed(s)}
        rep.count('functions that change formats')
        rep.analysed(ip)
        if bad and (internal(f) or f.k in ('Ctor', 'Dtor')):
            todo += callers.get(E.key(f), [])
            continue
        rep.check(not bad, f.loc, '%s leaves the stream with another %s' % (
            f.q, ' and '.join(sorted(bad))), 'the format of the stream is as it was when %s returns'
            % f.n)


def leaves(t):
    """Parts of values that are shown in a text."""
    return [p for p in pieces(t) if p[0] == 'app' and p[1] in ('shown', 'showValue', 'formatted')]


def ended(facts):
    """Is there a condition that tells that there is nothing left?"""
    for k, x in facts.items():
        if k[1] in ('has', 'more'):
            if x is False:
                return True
        elif k[1].endswith(('==', '!=')) and x is k[1].endswith('=='):
            txt = show(k)
            if 'end(' in txt or 'size(' in txt:
                return True
    return False


def containers(rep, P):
    """Each element of a container of unknown contents is shown once."""
    fs = []
    for f in P.functions:
        if f.body is None or not f.inrepo or not f.g.startswith('rc::') or \
                f.n not in ('showValue', 'operator<<') or len(f.params) != 2:
            continue
        ts = [p.type().strip() for p in f.params]
        t = ts[1] if f.n == 'operator<<' else ts[0]
        if t.k == 'rec' and 'lshow::' in t.s and (
                t.rec.g.startswith('std::') and t.rec.n not in ('pair', 'tuple', 'shared_ptr',
                                                                'unique_ptr') or
                t.rec.g == 'rc::Seq'):
            fs.append((f, t))
    rep.need(len(fs), 14, 'functions that show containers')
    if not any('Command' in t.s for _, t in fs):
        raise AnalysisBroken('how sequences of commands are shown was not found')
    for f, t in fs:
        ip = Show(P)
        per = 2 if 'lshow::Y' in t.s and 'Command' not in t.s else 1
        os = f.params[0 if f.n == 'operator<<' else 1].n
        rounds = cut = 0
        unbound = False
        for s, v in ip.run(f):
            name = t.s.split('<')[0]
            if isinstance(v, Throw) and v.tag == 'again':
                rounds += 1
                unbound |= not list(laws.bound_facts(ip, s, v.val))
                got = []
                for a, b in v.val:
                    if b[:2] == ('app', 'text') and b[2] == a:
                        got += leaves(app('text', *b[3:]))
                rep.check(len(got) == per and len(set(got)) == per, f.loc,
                          '%s: a round of the loop shows %s instead of one element' % (
                              name, ', '.join(show(x) for x in got) or 'nothing'),
                          'each round of the loop over a container shows one element')
                continue
            if isinstance(v, Throw):
                rep.check(False, f.loc, 'showing a %s throws' % name)
                continue
            txt = norm(ip.load(s, ('L', ('h', 'arg:' + os), ())))
            facts = {norm(k): x for k, x in s.facts.items() if k[0] == 'app'}
            end = ended(facts)
            if not end and name.endswith('Seq') and repr(txt).count('...'):
                cut += 1
                continue
            rep.check(end, f.loc, '%s: elements are left out: returns although there may be more (%s)'
                      % (name, '; '.join('%s is %s' % (show(k), x) for k, x in facts.items())[:300]),
                      'a container is shown to its end')
        rep.check(rounds > 0, f.loc, '%s: elements are not shown' % t.s, 'elements are shown in a loop')
        if t.rec.g == 'rc::Seq':
            rep.check(cut > 0 and not unbound, f.loc, 'an infinite sequence is shown without end',
                      'showing an infinite sequence ends')
        rep.count('containers')
        rep.analysed(ip)


class Whole(Show):
    """Showing a part is one step."""

    def model(self, st, fr, g, d, n, recv, avs):
        if g == 'rc::show' and len(avs) == 2 and avs[1][0] == 'l':
            loc = avs[1][1][1]
            self.store(st, loc, text(pieces(self.load(st, loc)) +
                                     [app('shown', norm(self.valof(st, avs[0])))]))
            return [(st, UNIT)]
        if g == 'rc::toString':
            return [(st, app('shown', norm(self.valof(st, avs[0]))))]
        return super().model(st, fr, g, d, n, recv, avs)


def shows(t, x):
    if t == x:
        return True
    if t[0] == 'app' and t[1] in ('size', 'empty'):
        return False
    return any(isinstance(y, tuple) and y and shows(y, x) for y in t)


def records(rep, P):
    """<< of a record of the library shows every member."""
    for f in sorted(P.functions, key=lambda f: f.loc):
        if f.n != 'operator<<' or f.body is None or not f.inrepo or len(f.params) != 2 or \
                f.get('targs') or not f.q.startswith('rc::'):
            continue
        t = f.params[1].type().strip()
        if t.k != 'rec' or not t.rec.q.startswith('rc::') or t.rec.get('targs'):
            continue
        ip = Whole(P)
        r = ip.rec_by_name(t.rec.q)
        fields = [d for d in (r.tu.decl(i) for i in r.get('fields') or []) if d is not None]
        if not fields or t.rec.n in ('Any', 'Configuration'):   # no members; by its string
            continue
        src = ('L', ('h', 'arg:' + f.params[1].n), ())
        texts = {}
        plain = set()
        for s, v in ip.run(f):
            if isinstance(v, Throw):
                rep.check(v.tag == 'again', f.loc, 'showing a %s throws' % t.rec.q)
                continue
            txt = norm(ip.load(s, ('L', ('h', 'arg:' + f.params[0].n), ())))
            for d in fields:
                x = norm(ip.load(s, ip.sub(src, d.key)))
                ft = d.type().strip()
                if ft.k == 'rec' and ft.rec.g == 'std::function':
                    there = any(y is True and contains(norm(k), x) for k, y in s.facts.items())
                    rep.check(not there or shows(txt, x), f.loc, '<< of %s does not show what %s '
                              'gives' % (t.rec.q, d.n), '<< of %s shows %s' % (t.rec.q, d.n))
                if shows(txt, x):
                    texts.setdefault(d.n, set())
                    plain.add(d.n)
                else:           # shown by what it is compared with
                    texts.setdefault(d.n, set()).add((txt, frozenset(
                        (norm(k), y) for k, y in s.facts.items() if k[0] == 'app' and
                        contains(norm(k), x))))
        for d in fields:
            ts = texts.get(d.n, set())
            kinds = {y for _, y in ts}
            rep.check(d.n in texts and all(kinds) and len({x for x, _ in ts}) >= len(kinds) and
                      (d.n in plain or len(kinds) > 1), f.loc, '<< of %s does not show %s' % (t.rec.q, d.n),
                      '<< of %s shows %s' % (t.rec.q, d.n))
        rep.count('records')
        rep.analysed(ip)


def nulls(rep, P):
    """Null pointers are shown without looking at what they point to."""
    for name in ('p_null', 'p_nullText', 'p_nullPointer'):
        f = P.find('lshow::' + name, repo=False)
        f = f[0] if isinstance(f, list) else f
        ip = Show(P)
        for s, v in ip.run(f):
            again = isinstance(v, Throw) and v.tag == 'again'
            txt = repr(norm(ip.load(s, ('L', ('h', 'arg:os'), ())))) + repr(sorted(map(repr, s.facts)))
            bad = [x for x in NULL if x in txt] or isinstance(v, Throw) and not again
            rep.check(not bad, 'include/rapidcheck/Show.hpp (showValue)', '%s: showing a null pointer '
                      'reads what it points to' % name, 'a null pointer is shown without reading through it')
        rep.count('null pointers')


NULL = [repr(app('deref', C(0))), repr(app('.', C(0), '*')), "basic_string', ('c', 0)"]

LAWS = [
    ('show', 'a value is shown by showValue if there is one, else by <<, else as a placeholder',
     'stream value valueOnly neither toString after command'),
    ('detail::showValue', 'pairs and tuples show every member in order',
     'pair tuple0 tuple1 tuple2 tuple3 tuple4'),
    ('showCollection', 'elements are shown in order, separated by commas, between the brackets',
     'vec0 vec1 vec2 vec3'),
    ('detail::showValue', 'true and false are shown as words, chars as numbers',
     'true false char uchar'),
    ('operator<<', 'a Maybe is shown as its value or Nothing', 'some maybe'),
    ('operator<<', 'a Seq shows its elements in order', 'seq0 seq1 seq2 seq3'),
    ('operator<<', 'a Variant is shown as what it holds', 'variantX variantY'),
    ('detail::showValue', 'smart pointers and C strings are shown as what they hold',
     'unique shared cstr'),
]


def run(rep, tier):
    P = M.Program(['probe/p_show', 'src/'])
    if P.diags:
        raise AnalysisBroken('probe does not compile: %s' % list(P.diags.values())[0][:1])
    rep.rule('showing a string is interpreted for each of the 256 characters: the texts form a '
             'prefix code; functions that touch the format of a stream are interpreted with the '
             'format as a value, which is the initial one again on every path that returns; loops '
             'that show containers show each element once and end only at the end')
    strings(rep, P)
    formats(rep, P)
    containers(rep, P)
    records(rep, P)
    nulls(rep, P)
    laws.decide(rep, 'lshow', LAWS, 'probe/p_show', Show)
