"""Element loops: a loop that treats every element of some arrays the same way, summarised as a map from the old element to
the new one, per path through one iteration; and the order in which such loops (and bulk copies) follow each other."""
from common import *
from cursor import *
from soa import unproj

BULK = ('copy_from_slice', 'clone_from_slice', 'fill')


def ix(h):
    return mk('nat', 'ix', h)


class Step:
    """one path through one iteration"""
    __slots__ = ('conds', 'writes', 'env', 'path')

    def __init__(self, conds, writes, env, path):
        self.conds, self.writes, self.env, self.path = conds, writes, env, path


class Sweep:
    """header h (or the block of a bulk operation); steps; exits: conditions under which it ends"""

    def __init__(self, h, steps, exits, body, bulk=None):
        self.h, self.steps, self.exits, self.body, self.bulk = h, steps, exits, body, bulk


class Sweeps:
    def __init__(self, q):
        self.q, self.it = q, q.it
        self.P = Paths(q, rounds=1)
        self.memo = {}
        self.stores = {}
        for e in q.events('store'):
            if e['loc'][0][0] == 'M':
                self.stores.setdefault(e['block'], []).append(e)
        self.bulk = {}
        for e in q.events('call'):
            m = e['name'].split('::')[-1]
            if m in BULK and 'slice' in e['name']:
                self.bulk[e['block']] = e
        L = q.loops()
        self.outer = {h: body for h, (body, _) in L.items()}
        self.writers = {h for h, body in self.outer.items() if any(b in self.stores or b in self.bulk for b in body)}

    # -- names
    def named(self, h, e):
        """counters of loop h as start + step * ix(h)"""
        q = self.q

        def f(x):
            if x.op == 'phi' and x.a[0] == h:
                i = q.induction(x)
                if i is not None and isinstance(cval(i[1]), int) and not any(y.op == 'phi' and y.a[0] == h for y in walk(i[0])):
                    return add(i[0], mul(ix(h), i[1]))
            return None
        return q.subst(e, f)

    def inner(self, h):
        """outermost loops strictly inside loop h (or of the whole function for None)"""
        body = self.outer[h] if h is not None else None
        hs = [x for x in self.outer if x != h and (body is None or x in body)]
        return {x: self.outer[x] for x in hs if not any(x != y and x in self.outer[y] for y in hs)}

    # -- one loop
    def sweep(self, h):
        if h in self.memo:
            return self.memo[h]
        q = self.q
        body = self.outer[h]
        out = Sweep(h, [], [], body)
        paths = self.P.from_(h, {h} | self.exit_targets(h), collapse=self.inner(h))
        for p in paths:
            if p.end == h:
                env = p.env
                w = self.writes(p, h)
                conds = {self.named(h, c) for c in p.conds}
                if not consistent(conds, q):
                    continue
                out.steps.append(Step(conds, w, env, p))
            else:
                conds = {self.named(h, c) for c in p.conds}
                if not consistent(conds, q):
                    continue
                out.exits.append((conds, p))
        self.memo[h] = out
        return out

    def exit_targets(self, h):
        body = self.outer[h]
        return {t for b in body for t, _ in self.q.edges.get(b, []) if t not in body and t in self.q.live}

    def writes(self, p, h=None):
        """(base, path) -> value, last store wins, in the order of the path"""
        out = {}
        inner = self.inner(h)
        for b in p.blocks[:-1] if p.end == h else p.blocks:
            if any(b in body for body in inner.values()):
                continue
            for e in self.stores.get(b, ()):
                base = self.q.canon(e['loc'][0][1])
                path = tuple((k[0], self.idx(k[1], p, h)) if k[0] == 'i' else k for k in e['loc'][1])
                v = self.P.sub(e['value'], p.pre)
                v = self.named(h, v) if h is not None else v
                for k in [k for k in out if k[0] is base and k[1][:len(path)] == path]:
                    del out[k]
                out[(base, path)] = v
        return out

    def idx(self, e, p, h):
        if not isinstance(e, E):
            return e
        v = self.P.sub(e, p.pre)
        return self.named(h, v) if h is not None else v

    # -- between loops
    def trace(self, p, h=None):
        """the writing loops and bulk operations a path goes through, in order"""
        out = []
        inner = self.inner(h)
        for b in p.blocks:
            if b in inner:
                if b in self.writers:
                    out.append(('loop', b))
            elif any(b in body for body in inner.values()):
                continue
            elif b in self.bulk:
                out.append(('bulk', b))
        return out

    def paths(self, start, stops, h=None, conds=(), env=None):
        return self.P.from_(start, stops, collapse=self.inner(h), conds=conds, env=env)

    def bulk_op(self, b, env):
        """(destination base, from, count, kind, source) of a bulk operation"""
        e = self.bulk[b]
        d, s = (self.P.sub(x, env) for x in e['args'])
        base, lo, n = self.window(d)
        kind = 'fill' if e['name'].split('::')[-1] == 'fill' else 'copy'
        return base, lo, n, kind, s

    def window(self, d):
        q = self.q
        while d.op in ('unsize', '&', 'deref'):
            d = d.a[0]
        if d.op == 'slice':
            base, lo, n = self.window(d.a[0])
            a, b = d.a[1], d.a[2]
            if b.op == 'end':
                return base, add(lo, a), sub(n, a)
            return base, add(lo, a), sub(b, a)
        return d, const(0), q.canon(mk('len', d))


def covers(sw, n, facts, i=None):
    """the loop runs for exactly ix = 0..n-1: every iteration is below n, and it ends only when n is reached"""
    i = i if i is not None else ix(sw.h)
    low = le0(sub(add(i, const(1)), n))
    for s in sw.steps:
        if not implied(low, known(s.conds)):
            return 'an iteration is not limited to elements below %s' % show(n)[:80]
    if not sw.exits:
        return 'the loop never ends'
    for cs, p in sw.exits:
        if not ends_at(cs, n, i, facts):
            return 'the loop can end before %s: %s' % (show(n)[:60], [show(c)[:80] for c in cs][-3:])
    return None


def ends_at(conds, n, i, facts):
    want = le0(sub(n, i))
    for c in conds:
        ds = disjuncts(c)
        if ds and all(reaches(d, want, n, i, facts) for d in ds):
            return True
    return False


def reaches(d, want, n, i, facts):
    if implied(want, {d}):
        return True
    if d.op == 'eq0':
        # i == m with i counting up from 0
        k, c = lin_parts(d.a[0])
        if k.get(i) in (1, -1):
            m = sub(i, d.a[0]) if k[i] == 1 else add(i, d.a[0])
            return m is n or implied(le0(sub(n, m)), facts)
    if d.op == 'le0':
        # m <= i for some m >= n
        k, c = lin_parts(d.a[0])
        if k.get(i) == -1:
            m = add(d.a[0], i)
            return implied(le0(sub(n, m)), facts)
    return False
