"""Interprocedural effects over the resolved call graph: which leaf effects a
function may have, with the call chain that shows it."""
from model import walk, nodeloc

CALLS = ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr',
         'CXXTemporaryObjectExpr')


class Effects:
    def __init__(self, P, leaf, absorb=False, stop=None):
        """leaf(tu, node, callee) -> label or None; stop(decl): do not look into
        this callee; absorb: effects inside try { } catch (...) do not count
        (only those of the handler do)."""
        self.P = P
        self.leaf = leaf
        self.absorb = absorb
        self.stop = stop or (lambda d: False)
        self.memo = {}
        self.seen = set()
        self.edges = 0

    def nodes(self, tu, n):
        """Nodes that are executed when n is (not the bodies of lambdas)."""
        if isinstance(n, list):
            for x in n:
                yield from self.nodes(tu, x)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'LambdaExpr':
            for c in n.get('caps', []):
                yield from self.nodes(tu, c.get('init'))
            return
        if k in ('UnaryExprOrTypeTraitExpr', 'CXXNoexceptExpr', 'CXXTypeidExpr'):
            return
        if self.absorb and k == 'CXXTryStmt' and any('ht' not in h for h in n['handlers']):
            for h in n['handlers']:
                yield from self.nodes(tu, {x: y for x, y in h.items() if x != 'k'})
            return
        if k is not None:
            yield n
        for key, v in n.items():
            if isinstance(v, (dict, list)) and key != 'bytes':
                yield from self.nodes(tu, v)

    def targets(self, tu, n):
        if n.get('d') is None:
            return []
        d = tu.decl(n['d'])
        if d is None or d.k not in ('Function', 'Method', 'Ctor', 'Conv', 'Dtor'):
            return []
        out = [self.P.resolve(d)]
        if n.get('virt') or d.get('pure'):
            out += [o for o in self.P.all_overriders(d)]
        return out

    def key(self, d):
        return d.get('m') or d.key

    def direct(self, d):
        """[(label, where)] of d itself and [(callee, where)]."""
        k = self.key(d)
        r = self.memo.get(k)
        if r is not None:
            return r
        leafs, callees = [], []
        roots = [d.body] + [i.get('e') for i in d.get('inits') or []]
        for n in self.nodes(d.tu, roots):
            ts = self.targets(d.tu, n) if n['k'] in CALLS else []
            l = self.leaf(d.tu, n, ts[0] if ts else None)
            if l is not None:
                leafs.append((l, nodeloc(d.tu, n)))
                continue
            for t in ts:
                if t.body is not None and not self.stop(t):
                    callees.append((t, nodeloc(d.tu, n)))
                    self.edges += 1
        self.memo[k] = (leafs, callees)
        return leafs, callees

    def find(self, d, limit=4):
        """[(label, [(function, where), ...chain])] reachable from d."""
        out = []
        seen = {self.key(d)}
        todo = [(d, [])]
        while todo and len(out) < limit:
            f, chain = todo.pop(0)
            self.seen.add(self.key(f))
            leafs, callees = self.direct(f)
            for l, w in leafs:
                out.append((l, chain + [(f.q, w)]))
            for t, w in callees:
                if self.key(t) not in seen:
                    seen.add(self.key(t))
                    todo.append((t, chain + [(f.q, w)]))
        return out


def chaintext(ch):
    return ' -> '.join('%s (%s)' % (q.split('(')[0][-60:], w) for q, w in ch)
