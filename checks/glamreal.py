"""glam vectors component by component, as polynomials over the reals; conditions on them as signs of polynomials."""
from expr import *
from real import Real, ONE, show_poly
from fractions import Fraction

DIMS = {'Vec2': 2, 'Vec3': 3, 'Vec3A': 3, 'Vec4': 4, 'Quat': 4}
NAMES = 'xyzw'
SCALAR = ('dot', 'length', 'length_squared', 'distance', 'distance_squared', 'element_sum', 'max_element', 'min_element', 'length_recip', 'sqrt', 'copysign', 'abs', 'signum', 'recip', 'max', 'min', 'powi', 'mul_add')


class Unknown(Exception):
    pass


class Glam:
    """leaf(e) -> polynomial, a list of polynomials (the components), or None"""

    def __init__(self, leaf, facts=None):
        self.leaf = leaf
        self.R = Real(leaf=self.scalar_leaf)
        self.facts = facts or {}               # polynomial key -> sign: '+', '0', '-', '>=', '<='

    # -- shapes
    def head(self, n):
        h = n[1:].split(' as ')[0] if n.startswith('<') else n.rsplit('::', 1)[0]
        return h.split('<')[0].split('::')[-1].lstrip('&')

    def dim(self, e):
        l = self.leaf(e)
        if l is not None:
            return len(l) if isinstance(l, list) else 1
        op, a = e.op, e.a
        if op in ('&', 'deref'):
            return self.dim(a[0])
        if op == 'constitem':
            return DIMS.get(a[0].split('::')[-2] if '::' in a[0] else '', 1)
        if op == 'ite':
            return max(self.dim(a[1]), self.dim(a[2]))
        if op == 'upd':
            return self.dim(a[0])
        if op == 'call':
            n = a[0]
            h, m = self.head(n), n.split('::')[-1]
            if m in SCALAR and h not in DIMS:
                return 1
            if m in ('truncate', 'xyz', 'to_vec3', 'to_vec3a'):
                return 3
            if m == 'extend':
                return 4
            if h in DIMS:
                if m in SCALAR and m not in ('max', 'min', 'abs', 'recip', 'signum', 'copysign', 'powf', 'mul_add'):
                    return 1
                return DIMS[h]
            if h == 'f32' and m in ('mul', 'add', 'sub', 'div'):
                return max(self.dim(x) for x in a[1])
        return 1

    # -- components
    def vec(self, e):
        d = self.dim(e)
        return [self.comp(e, i) for i in range(d)]

    def comp(self, e, i):
        R = self.R
        l = self.leaf(e)
        if l is not None:
            return l[i] if isinstance(l, list) else l
        if self.dim(e) == 1:
            return R(e)
        op, a = e.op, e.a
        if op in ('&', 'deref'):
            return self.comp(a[0], i)
        if op == 'constitem':
            return self.constant(a[0], i)
        if op == 'upd':
            for ps, v in a[1]:
                k = ps[0][1] if len(ps) == 1 else None
                k = cval(k) if isinstance(k, E) else NAMES.find(k) if isinstance(k, str) else k
                if not isinstance(k, int):
                    raise Unknown(e)
                if k == i:
                    return R(v)
            return self.comp(a[0], i)
        if op == 'call':
            n, args = a[0], a[1]
            h, m = self.head(n), n.split('::')[-1].replace('_assign', '')
            if m in ('new', 'from_xyzw') and len(args) == DIMS.get(h):
                return R(args[i])
            if m == 'splat':
                return R(args[0])
            if m in ('from', 'into', 'from_vec4', 'from_array', 'to_vec3', 'to_vec3a', 'from_vec3a', 'truncate', 'clone', 'xyz') and len(args) == 1:
                x = args[0]
                while x.op in ('&', 'deref'):
                    x = x.a[0]
                if x.op == 'agg' and x.a[0] in ('[]', '()'):
                    return R(x.a[2][i])
                if x.op == 'call' and x.a[0].split('::')[-1] in ('to_array', 'from', 'into'):
                    return self.comp(x.a[1][0], i) if self.dim(x) == 1 else self.comp(x, i)
                return self.comp(x, i)
            if m in ('add', 'sub', 'mul', 'div') and len(args) == 2:
                if h == 'Quat' and m == 'mul' and self.dim(args[1]) > 1:
                    return R.atom(mk('elem', e, const(i)))
                p, q = self.part(args[0], i), self.part(args[1], i)
                return R.add(p, q) if m == 'add' else R.add(p, q, -1) if m == 'sub' else R.mul(p, q) if m == 'mul' else R.mul(p, R.inv(q))
            if m == 'neg':
                return R.mul(R.const(-1), self.comp(args[0], i))
            if m == 'mul_add' and len(args) == 3:
                return R.add(R.mul(self.part(args[0], i), self.part(args[1], i)), self.part(args[2], i))
            if m == 'normalize':
                return R.mul(self.comp(args[0], i), R.inv(self.length(args[0])))
            if m == 'lerp' and h != 'Quat':
                p, q, t = self.comp(args[0], i), self.comp(args[1], i), R(args[2])
                return R.add(p, R.mul(R.add(q, p, -1), t))
            if m == 'extend' and len(args) == 2:
                return R(args[1]) if i == 3 else self.comp(args[0], i)
            if m == 'cross':
                p, q = self.vec(args[0]), self.vec(args[1])
                j, k = (i + 1) % 3, (i + 2) % 3
                return R.add(R.mul(p[j], q[k]), R.mul(p[k], q[j]), -1)
        return R.atom(mk('elem', e, const(i)))

    def part(self, e, i):
        return self.R(e) if self.dim(e) == 1 else self.comp(e, i)

    def constant(self, n, i):
        m = n.split('::')[-1]
        v = {'ZERO': 0, 'ONE': 1, 'NEG_ONE': -1, 'IDENTITY': int(i == 3)}.get(m)
        if v is None and m.lstrip('NEG_') in ('X', 'Y', 'Z', 'W'):
            v = int(NAMES[i] == m[-1].lower()) * (-1 if m.startswith('NEG') else 1)
        if v is None:
            return self.R.atom(mk('elem', mk('constitem', n), const(i)))
        return self.R.const(v)

    def dot(self, p, q):
        R, out = self.R, {}
        for x, y in zip(p, q):
            out = R.add(out, R.mul(x, y))
        return out

    def sqrt(self, p):
        return self.R.atom(mk('sqrt', key(p))) if p and set(p) != {ONE} else dict(p) if p.get(ONE, 0) in (0, 1) else self.R.atom(mk('sqrt', key(p)))

    def length(self, e):
        p = self.vec(e)
        return self.sqrt(self.dot(p, p))

    def scalar_leaf(self, e):
        R = self.R
        l = self.leaf(e)
        if l is not None:
            if isinstance(l, list):
                raise Unknown(e)
            return l
        op, a = e.op, e.a
        if op in ('elem', 'ld', 'pj') and (op != 'ld' or len(a[1]) >= 1):
            k = a[1] if op == 'elem' else a[1][-1][1] if op == 'ld' else a[1][1]
            k = cval(k) if isinstance(k, E) else NAMES.find(k) if isinstance(k, str) and len(k) == 1 else k if isinstance(k, int) else None
            base = a[0] if op in ('elem', 'pj') or len(a[1]) == 1 else mk('ld', a[0], a[1][:-1])
            if isinstance(k, int) and 0 <= k < 4 and self.dim(base) > k and self.dim(base) > 1:
                return self.comp(base, k)
        if op == 'call':
            n, args = a[0], a[1]
            h, m = self.head(n), n.split('::')[-1]
            if m == 'dot':
                return self.dot(self.vec(args[0]), self.vec(args[1]))
            if m == 'length_squared':
                p = self.vec(args[0])
                return self.dot(p, p)
            if m == 'length':
                return self.length(args[0])
            if m == 'length_recip':
                return R.inv(self.length(args[0]))
            if m == 'sqrt' and h in ('f32', 'impl f32>', '<impl f32>') or m == 'sqrt' and 'f32' in n:
                return self.sqrt(R(args[0]))
            if 'f32' in n and m in ('copysign', 'abs', 'signum', 'max', 'min', 'mul_add', 'powi'):
                return self.f32(m, args)
        return None

    def f32(self, m, args):
        R = self.R
        p = R(args[0])
        if m == 'mul_add':
            return R.add(R.mul(p, R(args[1])), R(args[2]))
        if m == 'powi' and cval(args[1]) == 2:
            return R.mul(p, p)
        s = self.sign(p)
        if m == 'abs' and s in ('+', '-', '0', '>=', '<='):
            return p if s in ('+', '0', '>=') else R.mul(R.const(-1), p)
        if m == 'signum' and s in ('+', '-'):
            return R.const(1 if s == '+' else -1)
        if m == 'copysign':
            t = self.sign(R(args[1]))
            if s in ('+', '-', '>=', '<=') and t in ('+', '-'):
                return p if (s in ('+', '>=')) == (t == '+') else R.mul(R.const(-1), p)
        if m in ('max', 'min'):
            q = R(args[1])
            d = self.sign(R.add(p, q, -1))
            if d in ('+', '>=', '0'):
                return p if m == 'max' else q
            if d in ('-', '<='):
                return q if m == 'max' else p
        return None

    # -- signs
    def sign(self, p):
        if not p:
            return '0'
        if set(p) == {ONE}:
            return '+' if p[ONE] > 0 else '-'
        k, f = norm(p)
        s = self.facts.get(k)
        if s is None or f > 0:
            return s
        return {'+': '-', '-': '+', '0': '0', '>=': '<=', '<=': '>='}[s]

    def learn(self, conds, unknown=None):
        """record what float comparisons say; -> list of conditions not understood"""
        rest = []
        for c in conds:
            n = c.op == 'not'
            x = c.a[0] if n else c
            if x.op != 'fcmp':
                rest.append(c)
                continue
            o, p = x.a[0], self.R.add(self.R(x.a[1]), self.R(x.a[2]), -1)
            if not p or set(p) == {ONE}:
                continue
            s = {'Lt': '-', 'Le': '<=', 'Gt': '+', 'Ge': '>=', 'Eq': '0', 'Ne': '!'}[o]
            if n:
                s = {'-': '>=', '<=': '+', '+': '<=', '>=': '-', '0': '!', '!': '0'}[s]
            k, f = norm(p)
            if f < 0:
                s = {'-': '+', '+': '-', '<=': '>=', '>=': '<='}.get(s, s)
            old = self.facts.get(k)
            m = meet(old, s)
            if m is None:
                self.facts = None              # contradictory
                return rest
            self.facts[k] = m
        return rest


SETS = {'+': {'+'}, '-': {'-'}, '0': {'0'}, '>=': {'+', '0'}, '<=': {'-', '0'}, '!': {'+', '-'}, None: {'+', '-', '0'}}


def meet(a, b):
    s = SETS[a] & SETS[b]
    return None if not s else next(k for k, v in SETS.items() if v == s)


def norm(p):
    """(key of p divided by its leading coefficient, that coefficient)"""
    items = sorted(((m, f) for m, f in p.items() if m != ONE), key=lambda kv: [x.id for x in kv[0]])
    f = items[0][1]
    return key({m: v / f for m, v in p.items()}), f


def key(p):
    return tuple(sorted(((m, str(v)) for m, v in p.items()), key=lambda kv: [x.id for x in kv[0]]))
