"""C24: exec, recipes and implicit parameters."""
from laws import *
import laws


class Exec(Laws):
    """Implicit parameter stacks, type erasure and ingredients by their contents."""
    OPAQUE = ('rc::Maybe::',)

    def stackval(self, v):
        """(rest, top) of a stack something was pushed on, or None."""
        over = []
        while v[0] == 'S':
            over = list(v[2]) + over
            v = v[1]
        if v[:2] != ('app', 'pushed'):
            return None
        top = v[3]
        for k, x in over:
            if k == 'top':
                top = x
        return v[2], top

    def whole(self, v):
        """The stack itself, whatever its top was changed to."""
        while v[0] == 'S' and all(k == 'top' for k, _ in v[2]):
            v = v[1]
        return v

    def proj(self, val, elem):
        if elem == 'top':
            p = self.stackval(val)
            if p is not None:
                return p[1]
        return super().proj(val, elem)

    def stack(self, st, fr, g, nm, d, n, recv, avs):
        if recv is None:
            return None
        v = self.load(st, recv)
        if nm in ('push', 'emplace'):
            if avs:
                x = self.snapval(st, self.valof(st, avs[0]))
                self.movedfrom(st, fr, d, avs, n['c'][1:])
            else:
                x = app('ctor:std::vector')
            self.write(st, fr, n, recv, app('pushed', v, x))
            return [(st, UNIT)]
        if nm == 'pop':
            p = self.stackval(v)
            self.write(st, fr, n, recv, p[0] if p else app('popped', v))
            return [(st, UNIT)]
        if nm == 'top':
            return [(st, ('&', self.sub(recv, 'top')))]
        if nm == 'empty':
            return [(st, C(0) if self.stackval(v) else
                     self.binop('==', C(0), app('size', self.whole(v))))]
        if nm == 'size':
            k = 0
            while True:
                p = self.stackval(v)
                if p is None:
                    break
                k, v = k + 1, p[0]
            v = self.whole(v)
            return [(st, self.arith('+', app('size', v), C(k)) if k else app('size', v))]
        return None

    def model(self, st, fr, g, d, n, recv, avs):
        nm = g.rsplit('::', 1)[-1]
        if g == '__assert_fail':
            return [(st, Throw('assertion', C(0)))]
        if g.startswith('std::stack::'):
            r = self.stack(st, fr, g, nm, d, n, recv, avs)
            if r is not None:
                return r
        if g == 'std::type_info::operator==' and recv is not None and avs[0][0] == 'l':
            return [(st, C(int(recv == avs[0][1][1])))]
        r = self.vectors(st, fr, g, nm, d, n, recv, avs)
        if r is not None:
            return r
        return super().model(st, fr, g, d, n, recv, avs)

    def vecval(self, st, items):
        return app('ctor:std::vector', app('initlist', ('S', ('sym', 'array'), tuple(
            (('idx', C(i)), x) for i, x in enumerate(items)))))

    def vectors(self, st, fr, g, nm, d, n, recv, avs):
        """Vectors of known elements: insertion and removal anywhere."""
        if recv is None or not g.startswith('std::vector::'):
            return None
        it = self.items(self.load(st, recv))
        if it is None:
            return None
        vs = [self.strip(self.valof(st, a)) for a in avs]

        def pos(v):
            while v[0] == 'app' and v[1].startswith('ctor:__gnu_cxx') and len(v) == 3:
                v = self.strip(v[2])    # const_iterator
            return v[3][1] if v[:2] == ('app', 'iter') and v[3][0] == 'c' else None
        if nm in ('emplace', 'insert') and len(vs) >= 2 and pos(vs[0]) is not None:
            k = pos(vs[0])
            rest = avs[1:]
        elif nm in ('emplace_back', 'push_back'):
            k, rest = len(it), avs
        elif nm == 'erase' and len(vs) == 2 and None not in (pos(vs[0]), pos(vs[1])):
            a, b = pos(vs[0]), pos(vs[1])
            self.write(st, fr, n, recv, self.vecval(st, it[:a] + it[b:]))
            return [(st, app('iter', ('&', recv), C(a)))]
        elif nm == 'erase' and len(vs) == 1 and pos(vs[0]) is not None:
            a = pos(vs[0])
            self.write(st, fr, n, recv, self.vecval(st, it[:a] + it[a + 1:]))
            return [(st, app('iter', ('&', recv), C(a)))]
        elif nm == 'pop_back' and it:
            self.write(st, fr, n, recv, self.vecval(st, it[:-1]))
            return [(st, UNIT)]
        else:
            return None
        out = []
        for s, x in self.element(st, fr, d, n, rest):
            if isinstance(x, Throw):
                out.append((s, x))
                continue
            self.write(s, fr, n, recv, self.vecval(s, it[:k] + [x] + it[k:]))
            out.append((s, app('iter', ('&', recv), C(k)) if nm in ('emplace', 'insert') else UNIT))
        return out

    def element(self, st, fr, d, n, avs):
        """The element made from the given arguments."""
        t = targs(d.rec)[0]
        rec = t.rec if t.k == 'rec' else None
        if len(avs) == 1:
            pt = self.argtype(fr, n, avs)
        ctors = [f for f in self.P.functions if f.k == 'Ctor' and rec is not None and
                 f.rec is not None and f.rec.q == rec.q and len(f.params) == len(avs) and
                 f.body is not None and not f.get('copyctor') and not f.get('movector')]
        if len(ctors) != 1 or rec is None or not (rec.inrepo or rec.inprobe) or len(avs) < 2:
            x = self.valof(st, avs[0]) if len(avs) == 1 else app('make', *[
                self.valof(st, a) for a in avs])
            return [(st, x)]
        b = self.tmp(st, ('S', ('sym', 'obj:' + rec.q), ()))
        return [(s, x if isinstance(x, Throw) else self.load(s, b))
                for s, x in self.call(st, fr, ctors[0], b, avs, nodeloc(fr.tu, n))]

    def argtype(self, fr, n, avs):
        return None


TITLE = 'exec, its recipes and implicit parameters do what they are documented to do'

LAWS = [
    ('gen::exec', 'operator* yields the value the generator yields for the next split of the '
     'stream at the same size', 'one two dep'),
    ('gen::exec', 'parameters of the callable are arbitrary values from the first split',
     'param param2'),
    ('gen::exec', 'executing again yields the same value', 'twice'),
    ('gen::exec', 'exec may be used inside exec', 'nest'),
    ('gen::exec', 'shrinks are those of each dereferenced generator in turn, the ones before kept, '
     'the ones after generated anew', 'oneS oneSS twoS twoS2 twoSS twoSS2 depS'),
    ('Gen::operator*', 'is refused inside a generator that is not exec', 'scope scope2'),
    ('Gen::operator*', 'a generator that fails makes the whole fail, and nothing else',
     'fails fails2'),
    ('gen::detail::execRaw', 'the recipe lists every dereferenced generator with its name and '
     'value, in order', 'name name2 ingr ingr2 count ingrS'),
    ('detail::ImplicitParam::value', 'the value of an implicit parameter is the innermost '
     'binding', 'ipBind ipInner ipOther isBind'),
    ('detail::ImplicitParam::value', 'a binding ends with its object, also on exceptions',
     'ipBack ipThrow'),
    ('detail::ImplicitParam::value', 'can be assigned to', 'ipSet isKeep'),
    ('detail::ImplicitScope::ImplicitScope', 'parameters have their default value in a new scope',
     'isDefault'),
    ('detail::ImplicitScope::~ImplicitScope', 'restores what there was before the scope',
     'isBack isUnused isNest isBind2 isTwo isTwo2 isThrow isOuter'),
]

STACKS = ('rc::detail::ImplicitParam', 'rc::detail::ImplicitScope')


def isstack(base):
    return base[0] == 'g' and base[1].startswith(STACKS)


def run(rep, tier):
    rep.rule('on every path of the left hand sides, exceptional ones included, the stacks of '
             'implicit parameters and of scopes end up as they were')
    ck = laws.decide(rep, 'lexec', LAWS, 'probe/p_exec', Exec)
    done = set()
    for fn, text, names in LAWS:
        for name in names.split():
            f = ck.fns['l_' + name]
            for s, v in ck.run(f):
                for b, x in s.env.items():
                    if isstack(b):
                        done.add(name)
                        rep.check(ck.ip.whole(x) == ('sym', 'global:' + b[1]), f.loc,
                                  '%s: leaves a binding or scope behind (%s)' % (name, show(x)[:200]),
                                  'stacks are balanced at the end')
    rep.need(len(done), 20, 'laws during which bindings or scopes exist')
    owners(rep, ck.P)


def owners(rep, P):
    """A binding or scope lives as long as the block or object it is declared in."""
    n = [0]

    def visit(f, x, owned):
        if isinstance(x, list):
            for y in x:
                visit(f, y, owned)
            return
        if not isinstance(x, dict):
            return
        k = x.get('k')
        if k == 'LambdaExpr':
            return
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            d = f.tu.decl(x['d']) if isinstance(x.get('d'), int) else None
            if d is not None and d.rec is not None and d.rec.g in STACKS:
                n[0] += 1
                rep.check(owned, nodeloc(f.tu, x), '%s is %s, not a variable of the block it is to '
                          'last for' % (d.rec.q, 'a temporary object' if owned is False else owned),
                          'bindings and scopes are variables')
        if k == 'DeclStmt':
            for v in x.get('decls') or []:
                d = f.tu.decl(v['d']) if isinstance(v.get('d'), int) else None
                static = d is not None and d.get('st') == 'static_local'
                visit(f, v.get('init'), 'a static variable' if static else True)
            return
        for key, y in x.items():
            if isinstance(y, (dict, list)):
                visit(f, y, owned if k in ('ExprWithCleanups', None, 'ParenExpr', 'VarDecl') else
                      'made by new' if k == 'CXXNewExpr' else False)
    for f in P.functions:
        if f.inrepo and f.body is not None:
            visit(f, f.body, False)
            for i in f.get('inits') or []:
                visit(f, i.get('e'), True)
    rep.need(n[0], 2, 'bindings and scopes established')
