"""Lane-wise real-number normal form of SIMD expressions: every lane of a vector expression is a polynomial (checks/real.py)
over the lanes of the inputs, 1/x, sqrt and |x| being atoms; bit operations on sign bits and comparison masks are understood.
Rounding is ignored: formulas are compared, never values."""
from expr import *
from real import Real, ONE, show_poly
from fractions import Fraction
import re

SIGN = 0x80000000
ALL = 0xffffffff


def pkey(p):
    return tuple(sorted(((k, v.numerator, v.denominator) for k, v in p.items()), key=repr))


def frompk(k):
    return {m: Fraction(n, d) for m, n, d in k}


class Mystery(Exception):
    pass


class Lanes:
    """leaf(e) -> None | dict (scalar polynomial) ; vleaf(e) -> None | list of 4 polynomials;
    decide(cond) -> True/False/None for a lane condition ('lt'|'le'|'eq', polynomial key of a-b)"""

    def __init__(self, leaf=None, vleaf=None, decide=None, limit=20000):
        self.uleaf, self.vleaf, self.decide = leaf or (lambda e: None), vleaf or (lambda e: None), decide or (lambda c: None)
        self.R = Real(self._leaf, limit)
        self.memo = {}

    # -- scalars
    def sca(self, e):
        return self.R(e)

    def _leaf(self, e):
        l = self.uleaf(e)
        if l is not None:
            return l
        if e.op == 'elem' and isinstance(cval(e.a[1]), int):
            x = self.array(e.a[0])
            if x is not None:
                i = cval(e.a[1])
                return self.sca(x[i]) if isinstance(x[i], E) else x[i]
            return self.vec(e.a[0])[cval(e.a[1])]
        if e.op == 'call':
            n, m = e.a[0], e.a[0].split('::')[-1]
            m = m if '<' not in m else n.split('::<')[0].split('::')[-1]
            if m == 'reduce_sum':
                r = {}
                for p in self.vec(e.a[1][0]):
                    r = self.R.add(r, p)
                return r
            if len(e.a[1]) == 1 and m in ('sqrt', 'abs') and ('f32' in n or 'Float' in n):
                return self.fn1(m, self.sca(e.a[1][0]))
            if len(e.a[1]) == 2 and m in ('min', 'max') and 'f32' in n:
                a, b = (self.sca(x) for x in e.a[1])
                return self.maxp(a, b) if m == 'max' else self.minp(a, b)
            if len(e.a[1]) == 3 and m == 'mul_add':
                a, b, c = (self.sca(x) for x in e.a[1])
                return self.R.add(self.R.mul(a, b), c)
            if m in ('from', 'into', 'clone') and len(e.a[1]) == 1:
                return self.sca(e.a[1][0])
        return None

    def array(self, e):
        """elements of an array expression with known elements"""
        if e.op == 'agg' and e.a[0] in ('[]', '[..]'):
            return list(e.a[2])
        if e.op == 'repeat':
            n = str(e.a[1] if not isinstance(e.a[1], E) else cval(e.a[1]))
            return [e.a[0]] * int(n) if n.isdigit() else None
        if e.op == 'call' and e.a[0].split('::')[-1] in ('to_array', 'as_array') and 'Simd' in e.a[0]:
            return self.vec(strip(e.a[1][0]))
        return None

    def fn1(self, name, p):
        if set(p) <= {ONE}:
            c = p.get(ONE, 0)
            if name == 'abs':
                return self.R.const(abs(c))
            if name == 'sqrt' and c in (0, 1):
                return self.R.const(c)
        return self.R.atom(mk(name, pkey(p)))

    # -- vectors
    def vec(self, e):
        if e in self.memo:
            return self.memo[e]
        v = self._vec(e)
        self.memo[e] = v
        return v

    def _vec(self, e):
        v = self.vleaf(e)
        if v is not None:
            return v
        R = self.R
        if e.op in ('&', 'deref') and e.op == '&':
            return self.vec(e.a[0])
        if e.op == 'transmute':
            src, dst = e.a[1], e.a[2]
            if 'Simd<i32' in src and 'Simd<f32' in dst:
                return [self.tofloat(x) for x in self.bits(e.a[0])]
            return self.vec(e.a[0])
        if e.op == 'agg' and e.a[0] in ('[]', '[..]'):
            return [self.sca(x) for x in e.a[2]]
        if e.op == 'repeat':
            a = self.array(e)
            if a and len(a) == 4:
                return [self.sca(x) for x in a]
        if e.op == 'upd':
            r = self.updated(e)
            if r is not None:
                return r
        if e.op == 'call':
            n, args = e.a[0], e.a[1]
            base = n.split('::<')[0] if not n.startswith('<') else re.sub(r'::<[^>]*>$', '', n)
            m = base.split('::')[-1]
            tr = base[1:].split(' as ')[-1].split('>')[0] if base.startswith('<') else ''
            if m == 'swizzle' and 'Impl_' in n:
                idx = [int(x) for x in re.search(r'Impl_([\d_]+)', n).group(1).split('_')]
                v = self.vec(args[0])
                return [v[i] for i in idx]
            if m == 'concat_swizzle' and 'Impl_' in n:
                idx = [int(x) for x in re.search(r'Impl_([\d_]+)', n).group(1).split('_')]
                v = self.vec(args[0]) + self.vec(args[1])
                return [v[i] for i in idx]
            if tr in ('Add', 'AddAssign', 'Sub', 'SubAssign', 'Mul', 'MulAssign', 'Div', 'DivAssign') and len(args) == 2:
                a, b = self.vec_or_scalar(args[0]), self.vec_or_scalar(args[1])
                k = tr[:3]
                if k == 'Add':
                    return [R.add(x, y) for x, y in zip(a, b)]
                if k == 'Sub':
                    return [R.add(x, y, -1) for x, y in zip(a, b)]
                if k == 'Mul':
                    return [R.mul(x, y) for x, y in zip(a, b)]
                return [R.mul(x, self.inv(y)) for x, y in zip(a, b)]
            if tr == 'Neg':
                return [R.mul(R.const(-1), x) for x in self.vec(args[0])]
            if m == 'splat':
                return [self.sca(args[0])] * 4
            if m in ('from_array', 'from_slice', 'new', 'from_xyzw') and len(args) == 1:
                return self.vec(args[0])
            if m in ('new', 'from_xyzw') and len(args) in (3, 4):
                return [self.sca(x) for x in args]
            if m in ('to_array', 'as_array', 'into', 'from', 'clone', 'as_ref', 'to_vec3', 'extend_zero') and len(args) == 1:
                return self.vec(args[0])
            if m == 'recip':
                return [self.inv(x) for x in self.vec(args[0])]
            if m in ('sqrt', 'abs'):
                return [self.fn1(m, x) for x in self.vec(args[0])]
            if m == 'mul_add' and len(args) == 3:
                a, b, c = (self.vec(x) for x in args)
                return [R.add(R.mul(x, y), z) for x, y, z in zip(a, b, c)]
            if m == 'default' or m == 'ZERO':
                return [{}] * 4
            if m == 'select' and 'Mask' in n:
                c, a, b = self.mask(args[0]), self.vec(args[1]), self.vec(args[2])
                return [self.ite(k, x, y) for k, x, y in zip(c, a, b)]
            if m in ('simd_min', 'simd_max'):
                a, b = self.vec(args[0]), self.vec(args[1])
                return [self.maxp(x, y) if m == 'simd_max' else self.minp(x, y) for x, y in zip(a, b)]
        return [R.atom(mk('lane', e, i)) for i in range(4)]

    def pos(self, p):
        """max(p, 0), in one form for p and -p: pos(p) = p + pos(-p)"""
        if set(p) <= {ONE}:
            return self.R.const(max(p.get(ONE, 0), 0))
        k, m = pkey(p), pkey(self.R.mul(self.R.const(-1), p))
        lead = sorted(k, key=lambda t: (-len(t[0]), repr(t[0])))[0]
        if lead[1] < 0:
            return self.R.add(p, self.R.atom(mk('pos', m)))
        return self.R.atom(mk('pos', k))

    def maxp(self, a, b):
        return self.R.add(b, self.pos(self.R.add(a, b, -1)))

    def minp(self, a, b):
        return self.R.add(a, self.pos(self.R.add(a, b, -1)), -1)

    def vec_or_scalar(self, e):
        return self.vec(e)

    def updated(self, e):
        return None

    def inv(self, p):
        if set(p) == {ONE}:
            return self.R.const(1 / p[ONE])
        return self.R.inv(p)

    def ite(self, c, x, y):
        if c is True or pkey(x) == pkey(y):
            return x
        if c is False:
            return y
        if c[0] == 'not':
            return self.ite(c[1], y, x)
        if c[0] in ('lt', 'le') and pkey(self.R.mul(self.R.const(-1), x)) == pkey(y):
            return self.R.mul(y, self.sgn(frompk(c[1])))
        return self.R.atom(mk('ite', c, pkey(x), pkey(y)))

    # -- conditions
    def cond(self, kind, a, b):
        d = self.R.add(a, b, -1)
        if set(d) <= {ONE}:
            c = d.get(ONE, 0)
            return {'lt': c < 0, 'le': c <= 0, 'eq': c == 0}[kind]
        k = (kind, pkey(d))
        r = self.decide(k)
        return k if r is None else r

    def mask(self, e):
        """list of lane conditions of a Mask / all-ones integer vector"""
        if e.op == 'call':
            n, args = e.a[0], e.a[1]
            base = re.sub(r'::<[^>]*>$', '', n)
            m = base.split('::')[-1]
            if m in ('simd_lt', 'simd_le', 'simd_gt', 'simd_ge', 'simd_eq', 'simd_ne'):
                if 'i32' in self.ty(args[0]):
                    raise Mystery(show(e)[:120])
                a, b = self.vec(args[0]), self.vec(args[1])
                k = m[5:]
                if k in ('gt', 'ge'):
                    a, b, k = b, a, {'gt': 'lt', 'ge': 'le'}[k]
                if k == 'ne':
                    return [self.neg(self.cond('eq', x, y)) for x, y in zip(a, b)]
                return [self.cond(k, x, y) for x, y in zip(a, b)]
            if m in ('bitand', 'bitor', 'bitxor') and 'Mask' in n:
                a, b = self.mask(args[0]), self.mask(args[1])
                return [self.combine(m, x, y) for x, y in zip(a, b)]
            if m == 'not':
                return [self.neg(x) for x in self.mask(args[0])]
            if m in ('from_int', 'to_int', 'from_int_unchecked', 'to_simd'):
                return self.mask(args[0])
            if m == 'splat':
                a = args[0]
                return [True if a is TRUE else False if a is FALSE else ('b', a)] * 4
        raise Mystery(show(e)[:120])

    def ty(self, e):
        return ''

    def neg(self, c):
        if isinstance(c, bool):
            return not c
        return c[1] if c[0] == 'not' else ('not', c)

    def combine(self, m, x, y):
        if m == 'bitand':
            if x is False or y is False:
                return False
            return y if x is True else x if y is True else (m, x, y)
        if m == 'bitor':
            if x is True or y is True:
                return True
            return y if x is False else x if y is False else (m, x, y)
        return (m, x, y)

    # -- integer lanes: ('c', int) | ('f', poly) | ('s', poly) sign bit | ('m', cond) all ones | ('ms', cond) mask & sign
    def bits(self, e):
        if e.op == 'transmute':
            if 'Simd<f32' in e.a[1] or 'Vec4' in e.a[1] or 'f32; 4' in e.a[1]:
                return [('f', p) for p in self.vec(e.a[0])]
            return self.bits(e.a[0])
        if e.op == 'call':
            n, args = e.a[0], e.a[1]
            base = re.sub(r'::<[^>]*>$', '', n)
            m = base.split('::')[-1]
            if m in ('from_array', 'splat', 'to_bits', 'from_bits', 'cast'):
                a = args[0]
                if m == 'splat':
                    if isinstance(cval(a), int):
                        return [('c', cval(a) & ALL)] * 4
                el = self.array(a)
                if el and all(isinstance(x, E) and isinstance(cval(x), int) for x in el):
                    return [('c', cval(x) & ALL) for x in el]
                if m == 'to_bits':
                    return [('f', p) for p in self.vec(a)]
            if m == 'to_int':
                return [('m', c) for c in self.mask(args[0])]
            if 'swizzle' in n and 'Impl_' in n:
                idx = [int(x) for x in re.search(r'Impl_([\d_]+)', n).group(1).split('_')]
                v = [x for a in args for x in self.bits(a)]
                return [v[i] for i in idx]
            if m in ('bitand', 'bitor', 'bitxor', 'bitand_assign', 'bitor_assign', 'bitxor_assign') and len(args) == 2:
                return [self.bitop(m[:6].rstrip('_a') if m.startswith('bitor') else m[:6], x, y) for x, y in zip(self.bits(args[0]), self.bits(args[1]))]
            if m == 'not':
                return [self.bitop('bitxor', x, ('c', ALL)) for x in self.bits(args[0])]
        raise Mystery(show(e)[:160])

    def bitop(self, m, x, y):
        m = {'bitand': 'and', 'bitor': 'or', 'bitxor': 'xor'}[m]
        if x[0] == 'c' and y[0] == 'c':
            a, b = x[1], y[1]
            return ('c', {'and': a & b, 'or': a | b, 'xor': a ^ b}[m])
        if y[0] in ('f',) and x[0] != 'f':
            x, y = y, x
        if x[0] == 'c' and y[0] in ('s', 'm', 'ms'):
            x, y = y, x
        R = self.R
        if x[0] == 'f' and set(x[1]) <= {ONE} and not x[1]:
            x = ('c', 0)
            return self.bitop('bit' + m, y, x) if y[0] != 'c' else self.bitop('bit' + m, x, y)
        if x[0] == 'f':
            p = x[1]
            if y[0] == 'c':
                c = y[1]
                if c == 0:
                    return ('c', 0) if m == 'and' else x
                if m == 'xor' and c == SIGN:
                    return ('f', R.mul(R.const(-1), p))
                if m == 'and' and c == SIGN:
                    return ('s', p)
                if m == 'and' and c == ALL ^ SIGN:
                    return ('f', self.fn1('abs', p))
                if m == 'and' and c == ALL:
                    return x
                if m == 'or' and c == SIGN:
                    return ('f', R.mul(R.const(-1), self.fn1('abs', p)))
            if y[0] == 's' and m == 'xor':
                return ('f', R.mul(p, self.sgn(y[1])))
            if y[0] == 'ms' and m == 'xor':
                return ('f', self.ite(y[1], R.mul(R.const(-1), p), p))
            if y[0] == 'm' and m == 'and':
                return ('f', self.ite(y[1], p, {}))
            if y[0] == 'f' and m == 'or':
                # disjoint masked values: ite(c, a, 0) | ite(!c, b, 0)
                return ('f', R.add(p, y[1]))
        if x[0] == 's':
            if y[0] == 'c' and m == 'xor' and y[1] == SIGN:
                return ('s', R.mul(R.const(-1), x[1]))
            if y[0] == 's' and m == 'xor':
                return ('s', R.mul(x[1], y[1]))
            if y[0] == 'c' and y[1] == SIGN and m == 'and':
                return x
        if x[0] in ('m', 'ms', 's') and y[0] == 'c' and y[1] == 0:
            return ('c', 0) if m == 'and' else x
        if x[0] == 'm':
            if y[0] == 'c' and y[1] == SIGN and m == 'and':
                return ('ms', x[1])
            if y[0] == 'c' and y[1] == ALL and m == 'xor':
                return ('m', self.neg(x[1]))
            if y[0] == 'm' and m in ('and', 'or'):
                return ('m', self.combine('bit' + m, x[1], y[1]))
        raise Mystery('%s of %s and %s' % (m, x[0], y[0]))

    def sgn(self, p):
        """+1 or -1, with sgn(-p) = -sgn(p)"""
        k = pkey(p)
        if sorted(k, key=lambda t: (-len(t[0]), repr(t[0])))[0][1] < 0 if k else False:
            return {k2: -v for k2, v in self.sgn(self.R.mul(self.R.const(-1), p)).items()}
        return self.R.atom(mk('sgn', k))

    def tofloat(self, b):
        if b[0] == 'f':
            return b[1]
        if b[0] == 'c' and b[1] in (0, SIGN):
            return {}
        if b[0] == 'c':
            import struct
            return self.R.const(Fraction(struct.unpack('f', struct.pack('I', b[1]))[0]))
        if b[0] in ('ms',):
            return {}
        raise Mystery(b[0])


def strip(e):
    while e.op in ('&', 'deref'):
        e = e.a[0]
    return e


def same(a, b):
    return pkey(a) == pkey(b)
