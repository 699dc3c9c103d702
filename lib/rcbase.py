"""RapidCheck vocabulary for the abstract interpreter + the check harness."""
import json, os, sys, time, traceback
from absint import *
import model as M
from model import AnalysisBroken, VERIF, REPO, walk, generic, nodeloc

NONE = app('none')


def some(v):
    return app('some', v)


class RC(Interp):
    """Models RapidCheck's own value classes (checked separately by the
    lifetime/ownership properties) so that client code can be analysed in
    terms of their contracts."""
    OPAQUE = ('rc::Seq::', 'rc::Shrinkable::', 'rc::Gen::', 'rc::Maybe::', 'rc::Random::',
              'rc::detail::Variant::', 'rc::detail::Any::')

    def model(self, st, fr, g, d, n, recv, avs):
        f = self.MODELS.get(g)
        if f is not None:
            return f(self, st, fr, d, n, recv, avs)
        return None

    # Maybe -------------------------------------------------------------
    def m_maybe_ctor(self, st, fr, d, n, recv, avs):
        if not avs:
            return [(st, NONE)]
        t = fr.tu.type(n['c'][0]['t'])
        if t.k == 'rec' and t.rec.q == 'rc::NothingType':
            return [(st, NONE)]
        v = self.valof(st, avs[0])
        self.consume(st, d, avs)
        return [(st, some(v))]

    def consume(self, st, d, avs):
        ps = [p.type() for p in d.params]
        for i, a in enumerate(avs):
            if a[0] == 'l' and i < len(ps) and ps[i].k == 'rref' and not ps[i].to.const \
                    and not self.trivially_copyable(ps[i].to):
                self.store(st, a[1][1], app('movedfrom', self.load(st, a[1][1])))

    def m_maybe_assign(self, st, fr, d, n, recv, avs):
        p = d.params[0].type().strip()
        v = self.valof(st, avs[0])
        if p.k == 'rec' and p.rec.q == 'rc::NothingType':
            v = NONE
        elif p.k == 'rec' and p.rec.g == 'rc::Maybe' and p.rec.q == d.rec.q:
            self.consume(st, d, avs)
        else:
            self.consume(st, d, avs)
            v = some(v)
        self.write(st, fr, n, recv, v)
        return [(st, ('&', recv))]

    def has(self, v):
        if v == NONE:
            return C(0)
        if v[0] == 'app' and v[1] == 'some':
            return C(1)
        return app('has', v)

    def m_maybe_bool(self, st, fr, d, n, recv, avs):
        return [(st, self.has(self.load(st, recv)))]

    def m_maybe_deref(self, st, fr, d, n, recv, avs):
        st.emit(Event('deref', d.n, nodeloc(fr.tu, n), d.q, d, self.load(st, recv), recv))
        return [(st, ('&', self.sub(recv, '*')))]

    def m_maybe_reset(self, st, fr, d, n, recv, avs):
        self.write(st, fr, n, recv, NONE)
        return [(st, UNIT)]

    def proj(self, val, elem):
        if elem == '*' and val[0] == 'app' and val[1] == 'some':
            return val[2]
        if isinstance(elem, tuple) and elem[0] == 'variant' and val[0] == 'app' and \
                val[1] == 'variant' and val[2] == C(elem[1]):
            return val[3]
        return super().proj(val, elem)

    # Variant -----------------------------------------------------------
    def m_variant_ctor(self, st, fr, d, n, recv, avs):
        t = fr.tu.type(n['c'][0]['t']) if n.get('c') else None
        name = t.rec.q if t is not None and t.k == 'rec' else (t.s if t else '?')
        v = self.valof(st, avs[0])
        self.consume(st, d, avs)
        return [(st, app('variant', C(name), v))]

    def m_variant_is(self, st, fr, d, n, recv, avs):
        v = self.load(st, recv)
        want = self.targ(fr, d)
        return [(st, self.isterm(v, want))]

    def targ(self, fr, d):
        a = d.get('targs', [None])[0]
        t = d.tu.type(a) if isinstance(a, int) else None
        return t.rec.q if t is not None and t.k == 'rec' else (t.s if t else '?')

    def m_variant_assign(self, st, fr, d, n, recv, avs):
        p = d.params[0].type().strip()
        v = self.valof(st, avs[0])
        self.consume(st, d, avs)
        if not (p.k == 'rec' and p.rec.g == 'rc::detail::Variant'):
            v = app('variant', C(p.rec.q if p.k == 'rec' else p.s), v)
        self.write(st, fr, n, recv, v)
        return [(st, ('&', recv))]

    def m_variant_match(self, st, fr, d, n, recv, avs):
        v = self.load(st, recv)
        want = self.targ(fr, d)
        out = []
        for s, r in self.branch(st, self.isterm(v, want)):
            if r and avs and avs[0][0] == 'l':
                self.write(s, fr, n, avs[0][1][1],
                           self.load(s, self.sub(recv, ('variant', want))))
            out.append((s, C(int(bool(r)))))
        return out

    def isterm(self, v, want):
        if v[0] == 'app' and v[1] == 'variant':
            return C(1 if v[2] == C(want) else 0)
        return app('is', C(want), v)

    def m_variant_get(self, st, fr, d, n, recv, avs):
        return [(st, ('&', self.sub(recv, ('variant', self.targ(fr, d)))))]

    MODELS = {
        'ctor:rc::Maybe': m_maybe_ctor,
        'rc::Maybe::operator=': m_maybe_assign,
        'rc::Maybe::operator bool': m_maybe_bool,
        'rc::Maybe::operator*': m_maybe_deref,
        'rc::Maybe::operator->': m_maybe_deref,
        'rc::Maybe::reset': m_maybe_reset,
        'ctor:rc::detail::Variant': m_variant_ctor,
        'rc::detail::Variant::is': m_variant_is,
        'rc::detail::Variant::operator=': m_variant_assign,
        'rc::detail::Variant::match': m_variant_match,
        'rc::detail::Variant::get': m_variant_get,
    }


def field(v, name):
    """Component of a record value by unqualified field name."""
    while True:
        if v[0] == 'S':
            for k, x in v[2]:
                if k == name or (isinstance(k, str) and k.endswith('::' + name)):
                    return x
            v = v[1]
            continue
        return None


def is_field(v, base, name):
    """v == base.name (as an uninterpreted projection)"""
    return v[0] == 'app' and v[1] == '.' and v[2] == base and \
        (v[3] == name or (isinstance(v[3], str) and v[3].endswith('::' + name)))


def pushes(v):
    """(base, [items]) of a container value built by push_back/emplace_back."""
    items = []
    while True:
        if v[0] == 'app' and v[1] in ('mut:std::vector::push_back', 'mut:std::vector::emplace_back') \
                and len(v) >= 4:
            items.append(v[3])
            v = v[2]
            continue
        if v[0] == 'app' and v[1] == 'mut:std::vector::reserve':
            v = v[2]
            continue
        if v[0] == 'app' and v[1] == 'mut:std::vector::clear':
            v = app('empty')
        if v[0] == 'S' and not v[2] and v[1][0] == 'sym' and v[1][1].startswith('default:std::'):
            v = app('empty')
        if v[0] == 'app' and v[1].startswith('ctor:std::vector') and len(v) == 2:
            v = app('empty')
        break
    items.reverse()
    return v, items


def parts(v):
    """A string value as the ordered list of the pieces it concatenates."""
    if v[0] == 'S' and not v[2]:
        return parts(v[1])
    if v[0] == 'sym' and v[1].startswith('default:std::'):
        return []
    if v == app('empty') or v == C(''):
        return []
    if v[0] == 'app':
        n = v[1]
        if n.startswith('ctor:std::basic_string') or n.startswith('ctor:std::__cxx11::basic_string'):
            return [] if len(v) == 2 else parts(v[2])
        if n in ('ctor:std::basic_ostringstream', 'ctor:std::basic_stringstream'):
            return []
        if n.startswith('mut:std::') and n.endswith(('::operator+=', '::append', '::push_back')):
            return parts(v[2]) + parts(v[3])
        if n.startswith('mut:std::') and n.endswith('::reserve'):
            return parts(v[2])
        if n == 'std::operator+' and len(v) == 4:
            return parts(v[2]) + parts(v[3])
        if n.startswith(('mut:std::', 'mod:std::')) and n.endswith('::operator<<') and len(v) == 4:
            return parts(v[2]) + parts(v[3])
        if n.startswith('std::') and n.endswith('stream::str'):
            return parts(v[2])
    return [v]


def contains(v, needle):
    return v == needle or isinstance(v, tuple) and any(contains(x, needle) for x in v)


def emptiness(facts, needle):
    """What the path conditions say about emptiness of a string derived from
    `needle`: True / False / None."""
    empt = None
    for k, b in facts.items():
        if k[0] != 'app' or not contains(k, needle):
            continue
        n = k[1]
        if n.endswith('::empty') or n == 'empty':
            empt = b
        elif n == '==' and k[2] == C(0) and ('::size' in repr(k) or '::length' in repr(k)):
            empt = b
        elif n == '==' and contains(k, app('ctor:std::basic_string')):
            empt = b
        elif n == 'std::operator==':
            empt = b
        elif n == 'std::operator!=':
            empt = not b
        elif n.endswith(('::size', '::length')):
            empt = not b
        elif n == '<' and k[2] == C(0):
            empt = not b
    return empt


class Report:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.viol = []
        self.obl = 0
        self.ok_ = 0
        self.samples = []
        self.stats = {}
        self.rules = []
        self.assume = []
        self.t0 = time.time()

    def rule(self, text):
        self.rules.append(text)

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def check(self, cond, where, what, sample=None):
        """One obligation; `what` names the violated construct."""
        self.obl += 1
        if cond:
            self.ok_ += 1
            if sample and len(self.samples) < 40:
                self.samples.append('%s: %s' % (where, sample))
        else:
            self.viol.append((where, what))
        return cond

    def need(self, n, least, what):
        if n < least:
            raise AnalysisBroken('%s: %d instances, expected at least %d' % (what, n, least))

    def analysed(self, interp):
        self.stats['functions_interpreted'] = self.stats.get('functions_interpreted', 0) + \
            len(interp.inlined)
        self.stats['loops_summarised'] = self.stats.get('loops_summarised', 0) + len(interp.loops)
        if interp.unknown:
            self.stats.setdefault('unmodelled_nodes', [])
            self.stats['unmodelled_nodes'] = sorted(set(self.stats['unmodelled_nodes']) |
                                                    interp.unknown)


_job = None


def _one(i):
    fn, pid, tier, items = _job
    item = items[i]
    r = Report(pid, tier)
    try:
        out = fn(r, item)
    except AnalysisBroken as e:
        return r, None, 'analysis broken: %s: %s' % (item, e)
    return r, out, None


def parallel(rep, items, fn, jobs=8):
    """fn(report, item) for every item in processes of their own -> results"""
    import multiprocessing
    global _job
    items = list(items)
    _job = (fn, rep.pid, rep.tier, items)       # (shared by forking, not sent)
    with multiprocessing.get_context('fork').Pool(jobs) as pool:
        res = pool.map(_one, range(len(items)), 1)
    outs = []
    for r, out, err in res:
        if err:
            raise AnalysisBroken(err)
        rep.viol += r.viol
        rep.obl += r.obl
        rep.ok_ += r.ok_
        rep.samples += r.samples[:max(0, 40 - len(rep.samples))]
        for k, x in r.stats.items():
            if isinstance(x, int):
                rep.stats[k] = rep.stats.get(k, 0) + x
            else:
                rep.stats[k] = sorted(set(rep.stats.get(k, [])) | set(x))
        outs.append(out)
    return outs


def known_findings(pid):
    """Entries 'finding: property=<id> <site> :: <text>' of known_findings.txt"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                out.append(rest)
    return out


def main(pid, title, rulefn, argv):
    tier = 'quick'
    for i, a in enumerate(argv):
        if a == '--tier':
            tier = argv[i + 1]
    rep = Report(pid, tier)
    evdir = os.environ.get('RC_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, pid + '.report.txt')
    sys.setrecursionlimit(100000)
    rc = 0
    err = None
    try:
        rulefn(rep, tier)
        if rep.obl == 0:
            raise AnalysisBroken('no obligations were generated')
    except AnalysisBroken as e:
        err = 'analysis broken: %s' % e
        rc = 2
    except Exception:
        err = traceback.format_exc()
        rc = 2
    known = known_findings(pid)
    listed, fresh = [], []
    seen = set()
    for where, what in rep.viol:
        if (where, what) in seen:
            continue
        seen.add((where, what))
        k = next((k for k in known if k.split(' :: ')[0] in what), None)
        (listed if k else fresh).append((where, what, k))
    lines = ['property %s: %s' % (pid, title), 'tier: %s' % tier]
    lines += ['rule: ' + r for r in rep.rules]
    for w, x, _ in fresh:
        lines.append('VIOLATED at %s: %s' % (w, x))
    for w, x, k in listed:
        lines.append('known at %s: %s' % (w, x))
    if err:
        lines.append(err)
    open(replay, 'w').write('\n'.join(lines) + '\n')
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': 'other' if not hasattr(rep, 'level') else rep.level,
        'coverage': {
            'explanation': 'Static analysis of the resolved AST of the current tree; '
                           'rules: ' + ' | '.join(rep.rules),
            'obligations': rep.obl, 'discharged': rep.ok_, 'samples': rep.samples[:25],
            'analysed': {k: v for k, v in rep.stats.items()},
            'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (pid, tier),
        },
        'assumptions': rep.assume,
        'wall_s': round(time.time() - rep.t0, 2),
        'violations': len(fresh),
    }
    json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    if fresh:
        # a violation established on part of the tree stands even when another
        # part of the analysis could not be completed
        for w, x, _ in fresh[:20]:
            print('  %s: %s' % (w, x))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    done = set()
    for w, x, k in listed:
        if k not in done:
            done.add(k)
            print('KNOWN-FINDING: property=%s %s' % (pid, k.replace(' :: ', ' ')))
    if err:
        print(err, file=sys.stderr)
        return 2
    print('%s held: %d obligations over %s (%.1fs)' % (pid, rep.obl, rep.stats,
                                                      time.time() - rep.t0))
    return 0


# ---- helpers for summaries ------------------------------------------------
def locate(st, v):
    """(base, path) of a location of `st` that holds the value v."""
    def rec(x, path, depth):
        if x == v:
            return path
        if x[0] == 'S' and depth < 6:
            for k, y in x[2]:
                r = rec(y, path + (k,), depth + 1)
                if r is not None:
                    return r
        return None
    for b, x in st.env.items():
        p = rec(x, (), 0)
        if p is not None:
            return (b, p)
    return None


def at(ip, st, loc):
    return ip.load(st, ('L', loc[0], loc[1]))


def evalterm(t, env):
    """Integer value of an arithmetic/comparison term under env, or None."""
    if t in env:
        return env[t]
    if t[0] == 'c':
        return t[1] if isinstance(t[1], int) else None
    if t[0] == 'S' and not t[2]:
        return evalterm(t[1], env)
    if t[0] == 'app':
        op = t[1]
        if op == '!':
            a = evalterm(t[2], env)
            return None if a is None else int(not a)
        if op == 'u-' and len(t) == 3:
            a = evalterm(t[2], env)
            return None if a is None else -a
        if op.startswith('cast') and len(t) >= 3:
            return evalterm(t[-1], env)
        if op in ('std::min', 'std::max') and len(t) == 4:
            a, b = evalterm(t[2], env), evalterm(t[3], env)
            if a is None or b is None:
                return None
            return min(a, b) if op.endswith('min') else max(a, b)
        if len(t) == 4 and op in ('+', '-', '*', '/', '%', '<', '==', '&', '|', '^', '<<', '>>'):
            a, b = evalterm(t[2], env), evalterm(t[3], env)
            if a is None or b is None:
                if op == '*' and (a == 0 or b == 0):
                    return 0
                return None
            try:
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
                        '/': lambda: quot(a, b), '%': lambda: a - b * quot(a, b),
                        '<': lambda: int(a < b), '==': lambda: int(a == b),
                        '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
                        '<<': lambda: a << b, '>>': lambda: a >> b}[op]()
            except (ZeroDivisionError, ValueError):
                return None
    return None


def consistent(st, env):
    """Can the path whose conditions are st.facts be taken under env?
    Conditions that env does not determine are taken as satisfiable."""
    for k, b in st.facts.items():
        if k[0] == 'val':
            x = evalterm(k[1], env)
            if x is not None and isinstance(b, int) and x != b:
                return False
        elif k[0] == 'not':
            x = evalterm(k[1], env)
            if x is not None and x in b:
                return False
        else:
            x = evalterm(k, env)
            if x is not None and bool(x) != bool(b):
                return False
    return True


def since_loop(evs):
    """Events after the last loop head marker."""
    for i in range(len(evs) - 1, -1, -1):
        if evs[i].kind == 'loop':
            return evs[i + 1:]
    return evs


def calls(evs, name):
    return [e for e in evs if e.kind == 'call' and e.name == name]


def enum_values(P, q):
    e = [r for r in P.decls('Enum') if r.q == q]
    if not e:
        raise AnalysisBroken('%s not found' % q)
    return {c['n']: c['v'] for c in e[0].get('consts')}


def unwrap(v):
    """Strip value-preserving wrappers: copies, moves, Maybe payload."""
    while v[0] == 'S' and not v[2]:
        v = v[1]
    return v


class MapModel(RC):
    """Associative containers by key membership: find/count/at/[]/end."""

    def map_of(self, st, recv):
        return self.load(st, recv)

    def model(self, st, fr, g, d, n, recv, avs):
        m = self.map_model(st, fr, g, d, n, recv, avs)
        return m if m is not None else super().model(st, fr, g, d, n, recv, avs)

    def map_model(self, st, fr, g, d, n, recv, avs):
        nm = g.split('::')[-1]
        if recv is not None and g.startswith(('std::map::', 'std::unordered_map::', 'std::set::',
                                              'std::unordered_set::')):
            m = self.load(st, recv)
            if nm == 'empty':
                return [(st, app('mapempty', m))]
            if nm == 'size':
                return [(st, app('mapsize', m))]
            if nm == 'find':
                return [(st, app('mapit', m, self.valof(st, avs[0])))]
            if nm in ('count', 'contains'):
                return [(st, app('mapin', m, self.valof(st, avs[0])))]
            if nm in ('end', 'cend'):
                return [(st, app('mapend', m))]
            if nm in ('at',):
                return [(st, ('&', self.tmp(st, app('mapped', m, self.valof(st, avs[0])))))]
        if nm in ('end', 'cend') and g.startswith('std::') and recv is None and avs and \
                avs[0][0] == 'l' and d is not None and d.params:
            t = d.params[0].type().strip()
            if t.k == 'rec' and t.rec.g in ('std::map', 'std::unordered_map'):
                return [(st, app('mapend', self.valof(st, avs[0])))]
        if g.startswith('std::') and nm in ('operator==', 'operator!='):
            vs = ([self.load(st, recv)] if recv is not None else []) + \
                [self.valof(st, a) for a in avs]
            if len(vs) == 2:
                a, b = vs
                if b[0] == 'app' and b[1] == 'mapit':
                    a, b = b, a
                if a[0] == 'app' and a[1] == 'mapit' and b == app('mapend', a[2]):
                    t = app('mapin', a[2], a[3])
                    return [(st, t if nm == 'operator!=' else negate(t))]
        if recv is not None and g.startswith('std::') and nm in ('operator->', 'operator*'):
            v = self.load(st, recv)
            if v[0] == 'app' and v[1] == 'mapit':
                st.emit(Event('deref', g, nodeloc(fr.tu, n), d.q, d, v, recv))
                e = ('S', ('sym', 'pair'), (('std::pair::first', v[3]),
                                            ('std::pair::second', app('mapped', v[2], v[3]))))
                return [(st, ('&', self.tmp(st, e)))]
        return None
