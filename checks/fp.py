"""Large real-number formulas, compared by fingerprint.  A polynomial normal form (checks/real.py) of, say, an inverse
kinematics rotation has millions of terms; here a formula is represented by the value its normal form has at one random point
of a prime field (inputs are random elements, 1/x is the field inverse, sqrt a power function, other functions random but
fixed maps), so equal formulas have equal fingerprints and different ones differ except with negligible probability.
Every comparison a formula or a branch depends on (is d < 0, is d = 0) is an abstract predicate, identified by the
fingerprint of d, that a case analysis decides both ways.  Nothing is executed: the values have no order and no magnitude."""
from soa import *
from cursor import *
from sweeps import Sweeps
import hashlib, struct
from functools import lru_cache
from fractions import Fraction

P = (1 << 61) - 1


def f32(c):
    c = Fraction(repr(c)) if isinstance(c, float) else Fraction(c)
    return Fraction(struct.unpack('f', struct.pack('f', float(c)))[0])


def hsh(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=16).digest(), 'big') % P


class Undecided(Exception):
    pass


class Infeasible(Exception):
    pass


class Oracle:
    """case analysis: what is known about the sign of each quantity, branching as told by `script`"""

    def __init__(self, seed, script=(), signs=None):
        self.seed, self.script, self.taken = seed, list(script), []
        self.signs = dict(signs or {})
        self.rough = False        # a square root of a non-residue was taken
        self.atoms = {}

    def canon(self, d):
        return (d, 1) if d <= P - d else (P - d, -1)

    def sign(self, d, want):
        """is the sign of d in `want` (a set of -1, 0, 1)?"""
        d %= P
        if d == 0:
            return 0 in want
        c, s = self.canon(d)
        v = self.consts(c)
        if v is not None:
            v *= s
            return (v > 0) - (v < 0) in want
        have = self.signs.get(c, frozenset((-1, 0, 1)))
        w = frozenset(x * s for x in want)
        if have <= w:
            return True
        if not have & w:
            return False
        i = len(self.taken)
        r = self.script[i] if i < len(self.script) else True
        self.taken.append(r)
        self.signs[c] = have & w if r else have - w
        return r

    def known(self, d, want):
        """True/False when the sign of d is known to be, or not to be, in `want`"""
        d %= P
        if d == 0:
            return 0 in want
        c, s = self.canon(d)
        v = self.consts(c)
        if v is not None:
            return (v * s > 0) - (v * s < 0) in want
        have = self.signs.get(c)
        w = frozenset(x * s for x in want)
        return None if have is None or have & w and not have <= w else have <= w

    def assume(self, d, want):
        d %= P
        c, s = self.canon(d)
        if d and self.consts(c) is None:
            self.signs[c] = self.signs.get(c, frozenset((-1, 0, 1))) & frozenset(x * s for x in want)

    def consts(self, c):
        """the value, when it is a number with few digits"""
        for k in range(25):
            t = c * (1 << k) % P
            if t < 1 << 24:
                return Fraction(t, 1 << k)
            if P - t < 1 << 24:
                return Fraction(t - P, 1 << k)
        return None

    def lt(self, a, b):
        return self.sign(a - b, {-1})

    def le(self, a, b):
        return self.sign(a - b, {-1, 0})

    def eq(self, a, b):
        return self.sign(a - b, {0})


ATOMS = {}


class FieldReal:
    """the interface of checks/real.py:Real on fingerprints"""

    def __init__(self, ora, leaf):
        self.ora, self.leaf, self.memo = ora, leaf, {}

    def const(self, c):
        f = f32(c)
        return f.numerator % P * pow(f.denominator, P - 2, P) % P

    def num(self, a):
        return 0 if a == {} else a

    def add(self, a, b, s=1):
        return (self.num(a) + s * self.num(b)) % P

    def mul(self, a, b):
        return self.num(a) * self.num(b) % P

    def atom(self, x):
        k = (self.ora.seed, x)
        if k not in ATOMS:
            ATOMS[k] = hsh(self.ora.seed, show(x, 40) if isinstance(x, E) else repr(x))
        return ATOMS[k]

    def inv(self, d):
        return pow(self.num(d), P - 2, P)

    def __call__(self, e):
        if e not in self.memo:
            self.memo[e] = self.num(self._poly(e)) % P
        return self.memo[e]

    def _poly(self, e):
        l = self.leaf(e)
        if l is not None:
            return l
        op, a = e.op, e.a
        if op == 'fconst':
            return self.const(a[0])
        if op == 'const' and isinstance(a[0], (int, float)) and not isinstance(a[0], bool):
            return self.const(a[0])
        if op in ('&', 'deref', 'repeat'):
            return self(a[0])
        if op in ('fAdd', 'fSub'):
            return self.add(self(a[0]), self(a[1]), 1 if op == 'fAdd' else -1)
        if op == 'fMul':
            return self.mul(self(a[0]), self(a[1]))
        if op == 'fDiv':
            return self.mul(self(a[0]), self.inv(self(a[1])))
        if op == 'fneg':
            return -self(a[0])
        if op == 'call':
            n, args = a[0], a[1]
            m = n.split('::')[-1]
            if len(args) == 2 and n.startswith('<'):
                h = n[1:].split(' as ')[-1].split('>')[0][:3]
                x, y = args
                if h in ('Add', 'Sub'):
                    return self.add(self(x), self(y), 1 if h == 'Add' else -1)
                if h == 'Mul':
                    return self.mul(self(x), self(y))
                if h == 'Div':
                    return self.mul(self(x), self.inv(self(y)))
            if len(args) == 1 and m == 'neg' and ' as Neg>' in n:
                return -self(args[0])
            if len(args) == 1 and m == 'recip':
                return self.inv(self(args[0]))
        return self.atom(e)


FULL, SIGN = (1 << 32) - 1, 1 << 31


@lru_cache(None)
def method(n):
    n = re.sub(r'::<.*>$', '', n)
    return n.split('::')[-1]


@lru_cache(None)
def trait(n):
    return n[1:].split(' as ')[-1].split('>')[0] if n.startswith('<') else ''


@lru_cache(None)
def swizzle(n):
    m = re.search(r'Impl_([\d_]+)', n)
    return [int(x) for x in m.group(1).split('_')] if m and 'swizzle' in n else None


class Prints:
    """fingerprints of scalars and of single lanes of vectors along one path, under the decisions of an oracle;
    leaf(e): scalar inputs; vleaf(e, i): lanes of input vectors"""

    def __init__(self, it, q, ora, leaf=None, vleaf=None, opaque=()):
        self.it, self.q, self.ora = it, q, ora
        self.uleaf, self.user = leaf or (lambda e: None), vleaf or (lambda e, i: None)
        self.R = FieldReal(ora, self._leaf)
        self.opq = opaque
        self.memo = {}

    def sca(self, e):
        return self.R(e)

    # piecewise functions are decided, not kept
    def fn1(self, name, p):
        p %= P
        if name == 'abs':
            k = self.ora.known(p, {-1})
            if k is None and self.ora.known(p, {1}) is False:
                k = True
            return (P - p) % P if k else p if k is not None else hsh(self.ora.seed, 'abs', min(p, P - p))
        if name == 'sqrt':
            r = pow(p, (P + 1) // 4, P)
            if r * r % P != p:
                self.ora.rough = True
            return r
        return hsh(self.ora.seed, name, p)

    def pos(self, p):
        """max(p, 0); a fixed map with pos(p) = p + pos(-p) as long as the sign is not settled"""
        p %= P
        k = self.ora.known(p, {1})
        if k is None and self.ora.known(p, {-1}) is False:
            k = True
        if k is not None:
            return p if k else 0
        return hsh(self.ora.seed, 'pos', p) if p <= P - p else p + hsh(self.ora.seed, 'pos', P - p)

    def max(self, a, b):
        return b + self.pos(a - b)

    def min(self, a, b):
        return a - self.pos(a - b)

    def minmax(self, m, args, ev, kind):
        """max(min(x, hi), lo) is min(max(x, lo), hi) for numbers lo <= hi"""
        a, b = args
        for x, y in ((a, b), (b, a)):
            if m == 'max' and x.op == 'call' and len(x.a[1]) == 2 and method(x.a[0]) in ('min', 'simd_min') and kind in x.a[0].lower():
                lo = self.number(ev(y))
                for p, r in (x.a[1], x.a[1][::-1]):
                    hi = self.number(ev(r))
                    if None not in (lo, hi) and lo <= hi:
                        return self.clamp(ev(p), ev(y), ev(r))
        return getattr(self, m)(ev(a), ev(b))

    def number(self, v):
        v %= P
        c, s = self.ora.canon(v)
        k = self.ora.consts(c) if v else Fraction(0)
        return None if k is None else k * s

    def clamp(self, x, a, b):
        return self.min(self.max(x, a), b)

    def _leaf(self, e):
        l = self.uleaf(e)
        if l is not None:
            return l
        if e.op == 'elem' and isinstance(cval(e.a[1]), int):
            return self.lane(e.a[0], cval(e.a[1]))
        if e.op == 'pj' and len(e.a[1]) == 2 and e.a[1][0] in ('i', 'ci', 'f') and isinstance(num(e.a[1][1]), int):
            return self.lane(e.a[0], num(e.a[1][1]))
        if e.op == 'if':
            return self.sca(e.a[1] if self.truth(e.a[0]) else e.a[2])
        if e.op == 'call':
            n, m, args = e.a[0], method(e.a[0]), e.a[1]
            if m == 'reduce_sum':
                return sum(self.lane(args[0], i) for i in range(4))
            if len(args) == 1 and m in ('sqrt', 'abs') and ('f32' in n or 'Float' in n):
                return self.fn1(m, self.sca(args[0]))
            if len(args) == 2 and m in ('min', 'max') and 'f32' in n:
                return self.minmax(m, args, self.sca, 'f32')
            if len(args) == 3 and m == 'clamp':
                return self.clamp(*(self.sca(x) for x in args))
            if len(args) == 3 and m == 'mul_add':
                a, b, c = (self.sca(x) for x in args)
                return a * b + c
            if m in ('from', 'into', 'clone') and len(args) == 1:
                return self.sca(args[0])
        return None

    # -- vectors
    def lane(self, e, i):
        k = (e, i)
        if k not in self.memo:
            self.memo[k] = self._lane(e, i) % P
        return self.memo[k]

    def vec(self, e, n=4):
        return [self.lane(e, i) for i in range(n)]

    def _lane(self, e, i):
        v = self.user(e, i)
        if v is not None:
            return v
        op, a = e.op, e.a
        if op in ('&', 'deref'):
            return self.lane(a[0], i)
        if op == 'transmute':
            if 'Simd<i32' in a[1] and 'Simd<f32' in a[2]:
                return self.tofloat(self.bit(a[0], i))
            return self.lane(a[0], i)
        if op == 'agg' and a[0] in ('[]', '[..]', '()') and i < len(a[2]):
            return self.sca(a[2][i])
        if op == 'repeat':
            return self.sca(a[0])
        if op == 'if':
            return self.lane(a[1] if self.truth(a[0]) else a[2], i)
        if op == 'phi' and e in self.it.phi_alias:
            return self.lane(self.it.phi_alias[e], i)
        if op == 'upd':
            for ps, v in a[1]:
                k = num(ps[0][1]) if len(ps) == 1 else None
                k = {'x': 0, 'y': 1, 'z': 2, 'w': 3}.get(k, k)
                if not isinstance(k, int):
                    raise Mystery(show(e)[:120])
                if k == i:
                    return self.sca(v)
            return self.lane(a[0], i)
        if op == 'pj' and a[0].op == 'call' and len(a[1]) == 2 and method(a[0].a[0]) in self.opq:
            return self.opq[method(a[0].a[0])](self, [self.lane(y, i) for y in a[0].a[1]], num(a[1][1]))
        if op == 'call':
            n, args, m = a[0], a[1], method(a[0])
            tr = trait(n)
            if m in self.opq:
                return self.opq[m](self, [self.lane(y, i) for y in args], None)
            idx = swizzle(n)
            if idx:
                j = idx[i]
                return self.lane(args[j // 4], j % 4)
            t = tr[:3]
            if t in ('Add', 'Sub', 'Mul', 'Div') and len(args) == 2:
                x, y = (self.lane(z, i) for z in args)
                return {'Add': x + y, 'Sub': x - y, 'Mul': x * y}[t] if t != 'Div' else x * self.R.inv(y)
            if tr == 'Neg':
                return -self.lane(args[0], i)
            if m == 'splat':
                return self.sca(args[0])
            if m in ('new', 'from_xyzw') and len(args) in (3, 4) and i < len(args):
                return self.sca(args[i])
            if m == 'extend' and len(args) == 2:
                return self.lane(args[0], i) if i < 3 else self.sca(args[1])
            if len(args) == 1 and m in ('from_array', 'from_slice', 'new', 'from_xyzw', 'to_array', 'as_array', 'into', 'from', 'clone', 'as_ref', 'to_vec3', 'to_vec3a',
                                        'from_vec4', 'from_vec3', 'from_vec3a', 'to_vec4', 'copied', 'deref', 'as_mut_array', 'truncate', 'xyz'):
                return self.lane(args[0], i)
            if m == 'recip':
                return self.R.inv(self.lane(args[0], i))
            if m in ('sqrt', 'abs'):
                return self.fn1(m, self.lane(args[0], i))
            if m == 'mul_add' and len(args) == 3:
                x, y, z = (self.lane(w, i) for w in args)
                return x * y + z
            if m == 'select' and 'Mask' in n:
                return self.lane(args[1] if self.mask(args[0], i) else args[2], i)
            if m in ('simd_min', 'simd_max'):
                return self.minmax(m[5:], args, lambda x: self.lane(x, i), 'simd')
            if m == 'simd_clamp':
                return self.clamp(*(self.lane(x, i) for x in args))
            if m in ('default', 'ZERO') and not args:
                return 0
            if m == 'bitxor' and len(args) == 2 and 'f32' in n:
                raise Mystery(show(e)[:120])
        return self.R.atom(mk('lane', e, i))

    def mask(self, e, i):
        e = strip(e)
        if e.op == 'call':
            n, args, m = e.a[0], e.a[1], method(e.a[0])
            if m in ('simd_lt', 'simd_le', 'simd_gt', 'simd_ge', 'simd_eq', 'simd_ne'):
                k = m[5:]
                try:
                    a, b = (self.lane(x, i) for x in args)
                except Mystery:
                    a, b = (self.bit(x, i) for x in args)
                    if a[0] == b[0] == 'c' and k in ('eq', 'ne'):
                        return (a[1] == b[1]) == (k == 'eq')
                    raise
                if k in ('gt', 'ge'):
                    a, b, k = b, a, {'gt': 'lt', 'ge': 'le'}[k]
                return self.ora.lt(a, b) if k == 'lt' else self.ora.le(a, b) if k == 'le' else self.ora.eq(a, b) == (k == 'eq')
            if m in ('is_sign_negative',):
                return self.ora.sign(self.lane(args[0], i), {-1})
            if m in ('bitand', 'bitor', 'bitxor') and 'Mask' in n:
                a, b = (self.mask(x, i) for x in args)
                return a and b if m == 'bitand' else a or b if m == 'bitor' else a != b
            if m == 'not':
                return not self.mask(args[0], i)
            if m in ('from_int', 'to_int', 'from_int_unchecked', 'to_simd', 'to_array', 'from_array', 'cast'):
                return self.mask(args[0], i)
            if m == 'splat':
                return self.truth(args[0])
        if e.op in ('agg',) and e.a[0] in ('[]', '[..]'):
            return self.truth(e.a[2][i])
        raise Mystery('mask ' + show(e)[:120])

    # ('c', int) or ('f', fingerprint)
    def bit(self, e, i):
        e = strip(e)
        if e.op == 'transmute':
            if 'Simd<i32' in e.a[1] or 'i32; 4' in e.a[1] or 'u32' in e.a[1]:
                return self.bit(e.a[0], i)
            return ('f', self.lane(e.a[0], i))
        if e.op == 'agg' and e.a[0] in ('[]', '[..]'):
            return self.word(e.a[2][i])
        if e.op == 'repeat':
            return self.word(e.a[0])
        if e.op == 'call':
            n, args, m = e.a[0], e.a[1], method(e.a[0])
            if m == 'splat':
                return self.word(args[0])
            if m in ('from_array', 'cast', 'from_bits'):
                return self.bit(args[0], i)
            if m == 'to_bits':
                return ('f', self.lane(args[0], i))
            if m == 'to_int':
                return ('c', FULL if self.mask(args[0], i) else 0)
            idx = swizzle(n)
            if idx:
                return self.bit(args[idx[i] // 4], idx[i] % 4)
            if m == 'select' and 'Mask' in n:
                return self.bit(args[1] if self.mask(args[0], i) else args[2], i)
            if re.match('bit(and|or|xor)(_assign)?$', m) and len(args) == 2:
                return self.bitop(m.replace('_assign', ''), self.bit(args[0], i), self.bit(args[1], i))
            if m == 'not':
                return self.bitop('bitxor', self.bit(args[0], i), ('c', FULL))
        raise Mystery('bits ' + show(e)[:120])

    def word(self, x):
        if isinstance(cval(x), int):
            return ('c', cval(x) & FULL)
        raise Mystery('word ' + show(x)[:120])

    def bitop(self, m, x, y):
        k = m[3:]
        if x[0] == 'c' and y[0] == 'c':
            a, b = x[1], y[1]
            return ('c', {'and': a & b, 'or': a | b, 'xor': a ^ b}[k])
        if x[0] == 'c':
            x, y = y, x
        if x[0] == 'f' and y[0] == 'c':
            p, c = x[1], y[1]
            if k == 'and':
                if c == 0:
                    return ('c', 0)
                if c == FULL:
                    return x
                if c == FULL ^ SIGN:
                    return ('f', self.fn1('abs', p))
                if c == SIGN:
                    return ('c', SIGN if self.ora.sign(p, {-1}) else 0)
            if k == 'xor' and c in (0, SIGN) or k == 'or' and c == 0:
                return ('f', (P - p) % P if c else p)
            if k == 'or' and c == SIGN:
                return ('f', (P - self.fn1('abs', p)) % P)
            if k in ('xor', 'or') and p == 0:
                return y
        if x[0] == y[0] == 'f' and k == 'or' and 0 in (x[1], y[1]):
            return x if y[1] == 0 else y
        raise Mystery('%s of %s and %s' % (k, x[0], y[0]))

    def tofloat(self, b):
        if b[0] == 'f':
            return b[1]
        return self.R.const(Fraction(struct.unpack('f', struct.pack('I', b[1]))[0]))

    # -- control
    def truth(self, e):
        if e is TRUE or e is FALSE:
            return e is TRUE
        if e.op == 'not':
            return not self.truth(e.a[0])
        if e.op == 'and':
            return all(self.truth(x) for x in e.a)
        if e.op == 'or':
            return any(self.truth(x) for x in e.a)
        if e.op == 'if':
            return self.truth(e.a[1] if self.truth(e.a[0]) else e.a[2])
        if e.op == 'fcmp':
            k, a, b = e.a
            a, b = self.sca(a), self.sca(b)
            return {'Lt': self.ora.lt, 'Le': self.ora.le, 'Eq': self.ora.eq}[k](a, b)
        if e.op == 'le0':
            return self.integer(e.a[0]) <= 0
        if e.op == 'eq0':
            return self.integer(e.a[0]) == 0
        if e.op == 'call':
            m = method(e.a[0])
            if m in ('any', 'all') and 'Mask' in e.a[0]:
                return (any if m == 'any' else all)(self.mask(e.a[1][0], i) for i in range(4))
            if m == 'test' and 'Mask' in e.a[0]:
                return self.mask(e.a[1][0], self.integer(e.a[1][1]))
            if m in ('is_sign_negative', 'is_sign_positive'):
                v = self.ora.sign(self.sca(strip(e.a[1][0])), {-1})
                return v == (m == 'is_sign_negative')
        if e.op == 'elem' or e.op == 'pj' and len(e.a[1]) == 2:
            k = num(e.a[1] if e.op == 'elem' else e.a[1][1])
            if isinstance(k, int):
                return self.mask(e.a[0], k)
        raise Mystery('condition ' + show(e)[:160])

    def integer(self, e):
        if e.op == 'const' and isinstance(e.a[0], int):
            return int(e.a[0])
        if e.op == 'lin':
            d, c = lin_parts(e)
            return c + sum(k * self.integer(a) for a, k in d.items())
        if e.op == 'mono':
            r = 1
            for x in e.a:
                r *= self.integer(x)
            return r
        if e.op in ('rem', 'div'):
            b = self.integer(e.a[1])
            x = e.a[0]
            if x.op == 'call' and method(x.a[0]) == 'to_bitmask' and b in (1, 2, 4, 8, 16):
                return self.bitmask(x, [i for i in range(4) if (1 << i < b) == (e.op == 'rem')]) // (1 if e.op == 'rem' else b)
            a = self.integer(x)
            return a % b if e.op == 'rem' else a // b
        bop = e.op.lower().lstrip('i')
        if bop in ('bitand', 'bitor', 'bitxor') and len(e.a) == 2:
            x, y = e.a
            if x.op == 'const':
                x, y = y, x
            if y.op == 'const' and bop == 'bitand' and x.op == 'call' and method(x.a[0]) == 'to_bitmask':
                return self.bitmask(x, [i for i in range(4) if y.a[0] >> i & 1])
            a, b = self.integer(x), self.integer(y)
            return {'a': a & b, 'o': a | b, 'x': a ^ b}[bop[3]]
        if e.op == 'cast':
            return self.integer(e.a[1])
        if e.op == 'if':
            return self.integer(e.a[1] if self.truth(e.a[0]) else e.a[2])
        if e.op == 'call':
            m = method(e.a[0])
            if m == 'to_bitmask':
                return self.bitmask(e, range(4))
            if m in ('from', 'into') and len(e.a[1]) == 1:
                return self.integer(e.a[1][0])
            if m == 'bitand' and len(e.a[1]) == 2:
                return self.integer(e.a[1][0]) & self.integer(e.a[1][1])
        if e.op in ('le0', 'eq0', 'not', 'and', 'fcmp'):
            return int(self.truth(e))
        raise Mystery('integer ' + show(e)[:160])

    def bitmask(self, e, lanes):
        return sum(1 << i for i in lanes if self.mask(e.a[1][0], i))


# ---------------------------------------------------------------- vectors of the specification
class V:
    """field arithmetic for writing specifications down"""

    def __init__(self, L):
        self.L, self.o = L, L.ora

    def c(self, x):
        return self.L.R.const(x)

    def div(self, a, b):
        return a * pow(b, P - 2, P) % P

    def sqrt(self, a):
        return self.L.fn1('sqrt', a % P)

    def dot(self, a, b):
        return sum(x * y for x, y in zip(a, b)) % P

    def add(self, a, b):
        return [(x + y) % P for x, y in zip(a, b)]

    def sub(self, a, b):
        return [(x - y) % P for x, y in zip(a, b)]

    def scale(self, a, k):
        return [x * k % P for x in a]

    def cross(self, a, b):
        return [(a[1] * b[2] - a[2] * b[1]) % P, (a[2] * b[0] - a[0] * b[2]) % P, (a[0] * b[1] - a[1] * b[0]) % P]

    def qmul(self, a, b):
        x, y, z, w = a
        X, Y, Z, W = b
        return [(w * X + x * W + y * Z - z * Y) % P, (w * Y + y * W + z * X - x * Z) % P,
                (w * Z + z * W + x * Y - y * X) % P, (w * W - x * X - y * Y - z * Z) % P]

    def rotate(self, q, v):
        """v + 2 q x (w v + q x v)"""
        u = q[:3]
        t = self.add(self.scale(v, q[3]), self.cross(u, v))
        return self.add(v, self.scale(self.cross(u, t), 2))

    def unit(self, q):
        return self.scale(q, pow(self.sqrt(self.dot(q, q)), P - 2, P))

    def clamp(self, x, lo, hi):
        return self.L.clamp(x, self.c(lo), self.c(hi))

    def positive_w(self, q):
        return self.scale(q, P - 1) if self.o.lt(q[3], 0) else q

    def inverse(self, m):
        """inverse of an (invertible) matrix given by columns"""
        n = 4
        a = [[m[j][i] for j in range(n)] + [int(i == k) for k in range(n)] for i in range(n)]
        det = 1
        for c in range(n):
            p = next((r for r in range(c, n) if a[r][c] % P), None)
            if p != c:
                a[c], a[p] = a[p], a[c]
                det = -det
            det = det * a[c][c] % P
            k = pow(a[c][c], P - 2, P)
            a[c] = [x * k % P for x in a[c]]
            for r in range(n):
                if r != c and a[r][c]:
                    f = a[r][c]
                    a[r] = [(x - f * y) % P for x, y in zip(a[r], a[c])]
        self.o.assume(det, {-1, 1})
        return [[a[i][n + j] for i in range(n)] for j in range(n)]

    def point(self, m, p):
        return [(m[0][i] * p[0] + m[1][i] * p[1] + m[2][i] * p[2] + m[3][i]) % P for i in range(3)]

    def vector(self, m, p):
        return [(m[0][i] * p[0] + m[1][i] * p[1] + m[2][i] * p[2]) % P for i in range(3)]

    def between(self, a, b):
        """shortest rotation taking direction a to direction b"""
        n = self.sqrt(self.dot(a, a) * self.dot(b, b))
        eps = self.c(EPS)
        if self.o.lt(n, eps):
            return IDENTITY
        r = (n + self.dot(a, b)) % P
        if self.o.lt(r, eps * n % P):
            if self.o.lt(self.L.fn1('abs', a[2]), self.L.fn1('abs', a[0])):
                q = [-a[1] % P, a[0], 0, 0]
            else:
                q = [0, -a[2] % P, a[1], 0]
        else:
            q = self.cross(a, b) + [r]
        return self.unit(q)

    def about(self, axis, angle):
        h = self.div(angle, 2)
        return self.scale(axis, self.L.fn1('sin', h)) + [self.L.fn1('cos', h)]

    def about_cos(self, axis, cos):
        c2 = self.div(1 + cos, 2)
        return self.scale(axis, self.sqrt((1 - c2) % P)) + [self.sqrt(c2)]

    def toward(self, q, w):
        """from identity to q"""
        q = self.positive_w(q)
        if not self.o.lt(w, 1):
            return q
        w = self.L.max(w, 0)
        return self.unit([(i + (x - i) * w) % P for x, i in zip(q, IDENTITY)])


IDENTITY = [0, 0, 0, 1]
EPS = 1e-6


def sin_cos(L, args, i):
    if i is None:
        raise Mystery('pair')
    return L.fn1('sin' if int(i) == 0 else 'cos', args[0])


def asin(L, args, i):
    return L.fn1('asin', args[0])


def acos(L, args, i):
    return L.R.const(HALF_PI) - L.fn1('asin', args[0])


HALF_PI = Fraction('1.57079637')
OPAQUE = {'fx4_sin_cos': sin_cos, 'fx4_asin': asin, 'fx4_acos': acos}


def cases(run, limit=200000):
    """all leaves of the case analysis: run(oracle script) -> (taken, result) until exhausted"""
    script = []
    n = 0
    while True:
        taken, r = run(script)
        n += 1
        yield taken, r
        if n > limit:
            raise OverflowError('too many cases')
        t = list(taken)
        while t and not t[-1]:
            t.pop()
        if not t:
            return
        t[-1] = False
        script = t
