"""Strings and output streams as the text they hold: a sequence of literals and
of pieces of which only the origin is known."""
from laws import *

STREAMS = ('std::basic_ostream', 'std::basic_ostringstream', 'std::basic_stringstream',
           'std::basic_ios', 'std::basic_iostream')
STRING = ('std::basic_string', 'std::__cxx11::basic_string')


def pieces(v):
    while v[0] == 'S' and not v[2]:
        v = v[1]
    if v[:2] == ('app', 'text'):
        return list(v[2:])
    if v[0] == 'sym' and v[1].startswith('default:std::'):
        return []
    if v[0] == 'c' and isinstance(v[1], bytes):
        v = C(v[1].decode('latin-1'))
    return [v]


def text(ps):
    out = []
    for p in ps:
        if p[0] == 'c' and isinstance(p[1], str):
            if not p[1]:
                continue
            if out and out[-1][0] == 'c' and isinstance(out[-1][1], str):
                out[-1] = C(out[-1][1] + p[1])
                continue
        out.append(p)
    if not out:
        return C('')
    return out[0] if len(out) == 1 else app('text', *out)


class Text(Laws):
    """Laws about functions that build text."""

    def model(self, st, fr, g, d, n, recv, avs):
        m = self.texts(st, fr, g, g.rsplit('::', 1)[-1], d, n, recv, avs)
        return m if m is not None else super().model(st, fr, g, d, n, recv, avs)

    def piece(self, st, a, t):
        """What printing a value of type t adds."""
        v = self.strip(self.valof(st, a))
        t = t.strip() if t is not None else None
        if t is not None and t.k == 'builtin' and t.s in ('char', 'unsigned char', 'signed char'):
            return [C(chr(v[1] & 255)) if v[0] == 'c' else app('char', v)]
        if t is not None and t.k == 'builtin' and v[0] == 'c' and isinstance(v[1], int):
            return [C(str(v[1]))]
        if v[:2] == ('app', 'fnptr') or v[0] == 'fn':
            nm = getattr(v[-1], 'n', str(v[-1]))
            return {'endl': [C('\n')], 'flush': [], 'ends': [C('\0')]}.get(nm, [app('manip', C(nm))])
        return pieces(v)

    def texts(self, st, fr, g, nm, d, n, recv, avs):
        cls = g.rsplit('::', 1)[0]
        if g == 'std::to_string' and len(avs) == 1:
            v = self.strip(self.valof(st, avs[0]))
            return [(st, C(str(v[1])) if v[0] == 'c' else v)]
        if g in ('ctor:std::basic_string', 'ctor:std::__cxx11::basic_string'):
            if not avs:
                return [(st, C(''))]
            t = fr.tu.type(n['c'][0]['t']).strip() if n.get('c') else None
            v = self.strip(self.valof(st, avs[0]))
            if t is not None and (t.k == 'ptr' or t.k == 'array' or
                                  t.k == 'rec' and 'basic_string' in t.rec.g) and len(avs) == 1 or \
                    v[0] == 'c' and isinstance(v[1], str):
                r = text(pieces(v))
                if d is not None and d.get('movector') and avs[0][0] == 'l':
                    self.store(st, avs[0][1][1], app('movedfrom', v))
                return [(st, r)]
            return None
        if g in ('ctor:std::basic_ostringstream', 'ctor:std::basic_stringstream') and not avs:
            return [(st, C(''))]
        if g == 'std::operator+' and len(avs) == 2:
            ps = []
            for a, p in zip(avs, d.params):
                ps += self.piece(st, a, p.type())
            return [(st, text(ps))]
        if nm == 'operator<<' and recv is None and len(avs) == 2 and avs[0][0] == 'l' and \
                d is not None and self.isstream(d.params[0].type()) and \
                (g.startswith('std::') or self.P.resolve(d).body is None):
            loc = avs[0][1][1]
            ps = self.piece(st, avs[1], d.params[1].type()) if g.startswith('std::') else \
                [app('shown', self.strip(self.valof(st, avs[1])))]
            self.store(st, loc, text(pieces(self.load(st, loc)) + ps))
            return [(st, ('&', loc))]
        if recv is None:
            return None
        if cls in STREAMS:
            v = self.load(st, recv)
            if nm == 'operator<<':
                self.store(st, recv, text(pieces(v) + self.piece(st, avs[0], d.params[0].type())))
                return [(st, ('&', recv))]
            if nm == 'str':
                if not avs:
                    return [(st, text(pieces(v)))]
                self.store(st, recv, text(pieces(self.valof(st, avs[0]))))
                return [(st, UNIT)]
            if nm == 'put':
                self.store(st, recv, text(pieces(v) + self.piece(st, avs[0], d.params[0].type())))
                return [(st, ('&', recv))]
            if nm == 'flush':
                return [(st, ('&', recv))]
        if cls in STRING:
            v = self.load(st, recv)
            ps = pieces(v)
            if nm in ('operator+=', 'append', 'push_back') and len(avs) == 1:
                self.write(st, fr, n, recv, text(ps + self.piece(st, avs[0], d.params[0].type())))
                return [(st, ('&', recv))]
            if nm == 'operator=' and len(avs) == 1:
                x = text(self.piece(st, avs[0], d.params[0].type()))
                if d.get('moveassign') and avs[0][0] == 'l':
                    self.store(st, avs[0][1][1], app('movedfrom', x))
                self.write(st, fr, n, recv, x)
                return [(st, ('&', recv))]
            if nm == 'clear':
                self.write(st, fr, n, recv, C(''))
                return [(st, UNIT)]
            if nm in ('reserve', 'shrink_to_fit'):
                return [(st, UNIT)]
            if nm in ('c_str', 'data') and not avs:
                return [(st, text(ps))]
            if nm == 'empty':
                return [(st, self.blank(text(ps)))]
            if nm in ('size', 'length'):
                if all(p[0] == 'c' for p in ps):
                    return [(st, C(sum(len(p[1]) for p in ps)))]
                return [(st, app('size', text(ps)))]
        return None

    def blank(self, t):
        if t[0] == 'c' and isinstance(t[1], str):
            return C(int(not t[1]))
        if any(p[0] == 'c' for p in pieces(t)):
            return C(0)
        return self.binop('==', C(0), app('size', t))

    def isstream(self, t):
        t = t.strip()
        return t.k == 'rec' and t.rec.g in STREAMS
