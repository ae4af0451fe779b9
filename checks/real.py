"""Real-number polynomial normal form of float expressions (rounding ignored): used to compare formulas, never values."""
from expr import *
from fractions import Fraction

ONE = ()


def _name(e):
    return e.a[0] if e.op == 'call' else ''


class Real:
    """atoms: anything that is not +,-,*,negation, constant.  `leaf(e)` may name an atom canonically."""

    def __init__(self, leaf=None, limit=4000):
        self.leaf = leaf or (lambda e: None)
        self.memo = {}
        self.limit = limit

    def const(self, c):
        return {ONE: Fraction(c)} if c else {}

    def add(self, a, b, s=1):
        r = dict(a)
        for k, v in b.items():
            n = r.get(k, 0) + s * v
            if n:
                r[k] = n
            else:
                r.pop(k, None)
        return r

    def mul(self, a, b):
        if len(a) * len(b) > self.limit:
            raise OverflowError
        r = {}
        for k1, v1 in a.items():
            for k2, v2 in b.items():
                k = tuple(sorted(k1 + k2))
                n = r.get(k, 0) + v1 * v2
                if n:
                    r[k] = n
                else:
                    r.pop(k, None)
        return r

    def atom(self, x):
        return {(x,): Fraction(1)}

    def __call__(self, e):
        if e in self.memo:
            return self.memo[e]
        self.memo[e] = r = self._poly(e)
        return r

    def _poly(self, e):
        l = self.leaf(e)
        if l is not None:
            return l if isinstance(l, dict) else self.atom(l)
        op, a = e.op, e.a
        if op == 'fconst':
            return self.const(Fraction(repr(a[0])) if isinstance(a[0], float) else Fraction(a[0]))
        if op == 'const' and isinstance(a[0], (int, float)) and not isinstance(a[0], bool):
            return self.const(a[0])
        if op in ('&', 'deref'):
            return self(a[0])
        if op == 'fAdd':
            return self.add(self(a[0]), self(a[1]))
        if op == 'fSub':
            return self.add(self(a[0]), self(a[1]), -1)
        if op == 'fMul':
            return self.mul(self(a[0]), self(a[1]))
        if op == 'fneg':
            return self.mul(self.const(-1), self(a[0]))
        if op == 'fDiv':
            d = self(a[1])
            if set(d) == {ONE}:
                return self.mul(self(a[0]), {ONE: 1 / d[ONE]})
            return self.mul(self(a[0]), self.inv(d))
        if op == 'repeat':
            return self(a[0])
        if op == 'call':
            n = a[0]
            m = n.split('::')[-1]
            args = a[1]
            if len(args) == 2 and n.startswith('<'):
                h = n[1:].split(' as ')[-1].split('>')[0]
                if h in ('Add', 'AddAssign') and m in ('add', 'add_assign'):
                    return self.add(self(args[0]), self(args[1]))
                if h in ('Sub', 'SubAssign'):
                    return self.add(self(args[0]), self(args[1]), -1)
                if h in ('Mul', 'MulAssign'):
                    return self.mul(self(args[0]), self(args[1]))
                if h in ('Div', 'DivAssign'):
                    d = self(args[1])
                    if set(d) == {ONE}:
                        return self.mul(self(args[0]), {ONE: 1 / d[ONE]})
                    return self.mul(self(args[0]), self.inv(d))
            if len(args) == 1 and m == 'neg' and ' as Neg>' in n:
                return self.mul(self.const(-1), self(args[0]))
            if len(args) == 1 and m in ('splat', 'from_array') and 'Simd' in n:
                return self(args[0])
            if len(args) == 1 and m == 'recip':
                return self.inv(self(args[0]))
        return self.atom(e)

    def inv(self, d):
        if set(d) == {ONE}:
            return {ONE: 1 / d[ONE]}
        key = mk('inv', tuple(sorted(((tuple(k), str(v)) for k, v in d.items()), key=repr)))
        return self.atom(key)


def show_poly(p):
    if not p:
        return '0'
    return ' + '.join('%s%s' % ('' if v == 1 and k else '%s*' % float(v) if k else str(float(v)), '*'.join(show(x) for x in k)) for k, v in p.items())
