"""Loop-free paths between points of an abstractly interpreted body, with φ resolved along the path: a path-sensitive
dataflow over the predicates the code itself branches on (no solver; a path is dropped when its own conditions contradict)."""
from expr import *


class Path:
    __slots__ = ('blocks', 'env', 'conds', 'end', 'cyclic', 'pre')

    def __init__(self, blocks, env, conds, end, cyclic, pre=None):
        self.blocks, self.env, self.conds, self.end, self.cyclic = blocks, env, conds, end, cyclic
        self.pre = pre        # environment before the last edge


class Paths:
    def __init__(self, q, limit=20000, rounds=1):
        self.q, self.it, self.limit, self.rounds = q, q.it, limit, rounds
        self.phis = {}
        for ph in q.it.phi_in:
            if ph not in q.it.phi_alias:
                self.phis.setdefault(ph.a[0], []).append(ph)

    def sub(self, e, env, memo=None):
        """simultaneous substitution, then simplification"""
        if not env:
            return self.q.canon(e)
        memo = {} if memo is None else memo
        q = self.q
        al = self.it.phi_alias

        def go(x):
            if not isinstance(x, E):
                return tuple(go(y) for y in x) if isinstance(x, tuple) else x
            if x in memo:
                return memo[x]
            memo[x] = x
            if x in al:
                r = go(al[x])
            elif x in env:
                r = env[x]
            else:
                na = tuple(go(y) for y in x.a)
                r = q.rebuild(x, na) if any(a is not b for a, b in zip(na, x.a)) else x
            memo[x] = r
            return r
        r = go(e)
        return q.canon(r) if isinstance(r, E) else r

    def same(self, ph, v):
        al = self.it.phi_alias
        while v in al:
            v = al[v]
        return v is ph or self.q.canon(v) is ph

    def step(self, p, b, env):
        """environment after the edge p->b"""
        new = {}
        memo = {}
        for ph in self.phis.get(b, ()):
            v = self.it.phi_in[ph].get(p)
            if v is None:
                new[ph] = None
                continue
            v = self.sub(v, env, memo)
            if v is not ph:
                new[ph] = v
        if not new and not any(ph in env for ph in self.phis.get(b, ())):
            return env
        out = dict(env)
        for ph in self.phis.get(b, ()):
            out.pop(ph, None)
        for ph, v in new.items():
            if v is not None:
                out[ph] = v
        return out

    def from_(self, start, stops, env=None, conds=(), first=None, collapse=None):
        """all loop-free paths leaving block `start` up to the first block of `stops` or a block without successors.
        collapse: header -> body of loops that are passed through as a whole: what they change is unknown afterwards"""
        out = []
        collapse = collapse or {}
        q = self.q
        stack = [(start, dict(env or {}), tuple(conds), (start,))]
        n = 0
        while stack:
            b, env, cs, blocks = stack.pop()
            n += 1
            if n > self.limit:
                raise OverflowError('too many paths from block %s' % start)
            succ = [(t, c) for t, c in q.edges.get(b, []) if t in q.live]
            if not succ and b != start:
                out.append(Path(blocks, env, cs, b, False, env))
                continue
            for t, c in succ:
                new = list(cs)
                ok = True
                if c is not None:
                    memo = {}
                    for x in q.norm((c[0], self.sub(c[1], env, memo), c[2])):
                        x = q.canon(x)
                        if x is TRUE:
                            continue
                        if x is FALSE or contradicts(x, new):
                            ok = False
                            break
                        parts = x.a if x.op == 'and' else (x,)
                        for y in parts:
                            if contradicts(y, new):
                                ok = False
                            new.append(y)
                if not ok:
                    continue
                env2 = self.step(b, t, env)
                if t in collapse and b not in collapse[t]:
                    for ph in self.phis.get(t, ()):
                        if any(p in collapse[t] and not self.same(ph, v) for p, v in self.it.phi_in[ph].items()):
                            env2 = dict(env2) if env2 is env else env2
                            env2.pop(ph, None)
                elif t in collapse and b in collapse[t]:
                    continue
                if t in stops:
                    out.append(Path(blocks + (t,), env2, tuple(new), t, False, env))
                elif blocks.count(t) >= self.rounds:
                    out.append(Path(blocks + (t,), env2, tuple(new), t, True, env))
                else:
                    stack.append((t, env2, tuple(new), blocks + (t,)))
        return out


def contradicts(x, facts):
    n = neg(x)
    if n in facts:
        return True
    if x.op == 'not' and x.a[0].op == 'and':
        return all(y in facts for y in x.a[0].a)
    if x.op in ('le0', 'eq0'):
        d, k = lin_parts(x.a[0])
        for f in facts:
            if f.op in ('le0', 'eq0'):
                d2, k2 = lin_parts(f.a[0])
                m = {a: -v for a, v in d2.items()}
                if m == d:
                    # d + k <= 0 and -d + k2 <= 0  =>  k + k2 <= 0
                    if x.op == 'le0' and f.op == 'le0' and k + k2 > 0:
                        return True
                    if x.op == 'eq0' and f.op == 'eq0' and k + k2 != 0:
                        return True
                    if x.op == 'eq0' and f.op == 'le0' and k + k2 > 0:
                        return True
                    if x.op == 'le0' and f.op == 'eq0' and k + k2 > 0:
                        return True
                if d2 == d:
                    if x.op == 'eq0' and f.op == 'eq0' and k != k2:
                        return True
                    if x.op == 'eq0' and f.op == 'le0' and k2 - k > 0:
                        return True
                    if x.op == 'le0' and f.op == 'eq0' and k - k2 > 0:
                        return True
    return False
