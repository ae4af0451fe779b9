"""Where every bit comes from: integer and float-pattern expressions as vectors of bit sources (a dataflow over single bits),
lane by lane for vectors; float expressions as polynomials over the reals whose atoms are conversions of such bit vectors."""
from expr import *
from real import Real, ONE
from fractions import Fraction
import struct

SPECIAL = {'NAN': 0x7fc00000, 'INFINITY': 0x7f800000, 'NEG_INFINITY': 0xff800000}
WIDTH = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'bool': 1}


def f32(x):
    return Fraction(struct.unpack('<f', struct.pack('<f', x))[0])


ROOTS = {'SQRT_2': f32(2 ** 0.5), 'FRAC_1_SQRT_2': f32(2 ** 0.5) / 2}


class Unknown(Exception):
    pass


def log2(n):
    return n.bit_length() - 1 if isinstance(n, int) and n > 0 and n & (n - 1) == 0 else None


def b_or(x, y):
    if x == 0 or x == y:
        return y
    if y == 0:
        return x
    if x == 1 or y == 1:
        return 1
    return flat('or', x, y)


def b_and(x, y):
    if x == 1 or x == y:
        return y
    if y == 1:
        return x
    if x == 0 or y == 0:
        return 0
    return flat('and', x, y)


def b_xor(x, y):
    if x == 0:
        return y
    if y == 0:
        return x
    if x == y:
        return 0
    return flat('xor', x, y)


def flat(op, x, y):
    s = set()
    for z in (x, y):
        if isinstance(z, tuple) and z[0] == op:
            s |= set(z[1])
        else:
            s.add(z)
    return (op, tuple(sorted(s, key=repr)))


def b_not(x):
    return 1 - x if x in (0, 1) else flat('xor', x, 1)


class Bits:
    def __init__(self, leaf, decide=None):
        self.leaf = leaf              # E -> list of bits (LSB first) | None
        self.decide = decide or (lambda c: None)
        self.memo, self.lmemo = {}, {}
        self.R = Real(leaf=self.fleaf)

    # ------------------------------------------------ integers
    def __call__(self, e, w=64):
        k = (e, w)
        if k not in self.memo:
            b = self._bits(e, w)
            b = list(b[:w]) + [0] * (w - len(b))
            self.memo[k] = b
        return self.memo[k]

    def src(self, e, w):
        return [('s', e, i) for i in range(w)]

    def _bits(self, e, w):
        l = self.leaf(e)
        if l is not None:
            return list(l)
        op, a = e.op, e.a
        if op in ('const',) and isinstance(a[0], (int, bool)):
            n = int(a[0])
            return [(n >> i) & 1 for i in range(w)]
        if op == 'lin':
            d, c = lin_parts(e)
            out = [(c >> i) & 1 for i in range(w)]
            for x, f in d.items():
                s = log2(f)
                if s is None:
                    if f == -1 and c == -1 and len(d) == 1:
                        return [b_not(z) for z in self(x, w)]
                    return self.src(e, w)
                y = ([0] * s + self(x, w))[:w]
                for i in range(w):
                    if out[i] != 0 and y[i] != 0:
                        return self.src(e, w)
                    out[i] = out[i] if y[i] == 0 else y[i]
            return out
        if op in ('iBitOr', 'iBitAnd', 'iBitXor'):
            f = {'iBitOr': b_or, 'iBitAnd': b_and, 'iBitXor': b_xor}[op]
            return [f(x, y) for x, y in zip(self(a[0], w), self(a[1], w))]
        if op == 'bitnot':
            return [b_not(x) for x in self(a[0], w)]
        if op == 'rem' and log2(cval(a[1])) is not None:
            n = log2(cval(a[1]))
            return (self(a[0], w)[:n] + [0] * w)[:w]
        if op in ('div', 'iShr') and (op == 'iShr' and isinstance(cval(a[1]), int) or log2(cval(a[1])) is not None):
            n = cval(a[1]) if op == 'iShr' else log2(cval(a[1]))
            x = self(a[0], w + n)
            return x[n:]
        if op == 'iShl' and isinstance(cval(a[1]), int):
            return ([0] * cval(a[1]) + self(a[0], w))[:w]
        if op == 'cast' and a[0] in WIDTH and isinstance(a[1], E):
            n = WIDTH[a[0]]
            return self(a[1], min(n, w))
        if op == 'b2i':
            return [self.cond(a[0])] + [0] * (w - 1)
        if op == 'f2b' or op == 'call' and a[0].split('::')[-1] == 'to_bits' and len(a[1]) == 1:
            return self.fbits(a[0] if op == 'f2b' else a[1][0])
        if op == 'mask':
            return [self.cond(a[0])] * w
        if op in ('ite',):
            c = self.cond(a[0])
            return [x if x == y else ('ite', c, x, y) for x, y in zip(self(a[1], w), self(a[2], w))]
        return self.src(e, w)

    def cond(self, c):
        """one bit for a condition"""
        d = self.decide(c)
        if d is not None:
            return int(d)
        if c is TRUE:
            return 1
        if c is FALSE:
            return 0
        if c.op == 'not':
            return b_not(self.cond(c.a[0]))
        if c.op == 'eq0':
            d, k = lin_parts(c.a[0])
            if len(d) == 1 and list(d.values()) == [1]:
                x = self(next(iter(d)))
                return self.equal(x, -k)
            if len(d) == 1 and list(d.values()) == [-1]:
                return self.equal(self(next(iter(d))), k)
        if c.op == 'le0':
            # k <= x  or  x <= k
            d, k = lin_parts(c.a[0])
            if len(d) == 1 and list(d.values())[0] in (1, -1):
                x = self(next(iter(d)))
                if list(d.values())[0] == -1:
                    return self.atleast(x, k)
                return b_not(self.atleast(x, 1 - k))
        return ('c', c)

    def equal(self, x, n):
        if n < 0 or n >> len(x):
            return 0
        out = 1
        for i, b in enumerate(x):
            out = b_and(out, b if (n >> i) & 1 else b_not(b))
        return out

    def atleast(self, x, n):
        """x >= n for unsigned x"""
        if n <= 0:
            return 1
        if n >> len(x):
            return 0
        out = 1
        for i in range(len(x)):                   # from the lowest bit
            b = x[i]
            out = b_and(b, out) if (n >> i) & 1 else b_or(b, out)
        return out

    # ------------------------------------------------ floats
    def fbits(self, e):
        if e.op in ('constitem', 'const', 'fconst') and str(e.a[0]).split('::')[-1] in SPECIAL:
            return [(SPECIAL[str(e.a[0]).split('::')[-1]] >> i) & 1 for i in range(32)]
        return self.fbits_of(self.poly(e))

    def fbits_of(self, p):
        if not p:
            return [0] * 32
        if set(p) == {ONE}:
            n = struct.unpack('<I', struct.pack('<f', float(p[ONE])))[0]
            return [(n >> i) & 1 for i in range(32)]
        pat = self.pattern(p)
        if pat is not None:
            return list(pat)
        neg_p = {m: -f for m, f in p.items()}
        if not self.nonneg(p) and self.nonneg(neg_p):
            return self.fbits_of(neg_p)[:31] + [1]
        pat = self.scaled(p)
        if pat is not None:
            return pat
        k = self.key(p)
        return [('s', k, i) for i in range(31)] + [0 if self.nonneg(p) else ('s', k, 31)]

    def pattern(self, p):
        """bits of a float that is a bit pattern"""
        if len(p) == 1:
            (m, f), = p.items()
            if f == 1 and len(m) == 1 and m[0].op == 'nat' and m[0].a[0] == 'pattern':
                return m[0].a[1]
        return None

    def scaled(self, p):
        """a pattern with a known, normal exponent times a power of two: only the exponent changes"""
        if len(p) != 1:
            return None
        (m, f), = p.items()
        if len(m) != 1 or m[0].op != 'nat' or m[0].a[0] != 'pattern' or f <= 0:
            return None
        b = m[0].a[1]
        if not all(x in (0, 1) for x in b[23:31]):
            return None
        e, k = sum(x << i for i, x in enumerate(b[23:31])), 0
        while f > 1:
            f, k = f / 2, k + 1
        while f < 1:
            f, k = f * 2, k - 1
        if f != 1 or not 0 < e < 255 or not 0 < e + k < 255:
            return None
        return list(b[:23]) + [((e + k) >> i) & 1 for i in range(8)] + [b[31]]

    def nonneg(self, p):
        for m, f in p.items():
            if f < 0:
                return False
            for x in m:
                if x.op == 'nat' and x.a[0] in ('sqrt', 'max0', 'float'):
                    continue
                if x.op == 'nat' and x.a[0] == 'pattern' and x.a[1][31] == 0:
                    continue
                return False
        return True

    def key(self, p):
        return mk('nat', 'poly', tuple(sorted(((k, str(v)) for k, v in p.items()), key=lambda kv: [x.id for x in kv[0]])))

    def poly(self, e):
        return self.R(e)

    def number(self, b):
        """float of the unsigned number with these bits"""
        while b and b[-1] == 0:
            b = b[:-1]
        if all(y in (0, 1) for y in b):
            return {ONE: Fraction(sum(y << i for i, y in enumerate(b)))} if b else {}
        return {(mk('nat', 'float', tuple(b)),): Fraction(1)}

    def fromkey(self, k):
        return {m: Fraction(v) for m, v in k.a[1]}

    def topoly(self, bits):
        """float with these 32 bits"""
        if all(b == 0 for b in bits):
            return {}
        if all(b in (0, 1) for b in bits):
            n = sum(b << i for i, b in enumerate(bits))
            f = struct.unpack('<f', struct.pack('<I', n))[0]
            if f == f and f not in (float('inf'), float('-inf')):
                return {ONE: Fraction(f)}
        s = [b for b in bits if isinstance(b, tuple) and b[0] == 's']
        if s and isinstance(s[0][1], E) and s[0][1].op == 'nat' and s[0][1].a[0] == 'poly':
            p = self.fromkey(s[0][1])
            if tuple(self.fbits_poly(p)) == tuple(bits):
                return p
            if bits[31] == 1 and self.nonneg(p) and tuple(self.fbits_poly(p))[:31] == tuple(bits)[:31]:
                return {m: -f for m, f in p.items()}
        return {(mk('nat', 'pattern', tuple(bits)),): Fraction(1)}

    def fbits_poly(self, p):
        k = self.key(p)
        return [('s', k, i) for i in range(31)] + [0 if self.nonneg(p) else ('s', k, 31)]

    def fleaf(self, e):
        op, a = e.op, e.a
        R = self.R
        if op in ('elem', 'ld', 'pj'):
            i = a[1] if op == 'elem' else a[1][0][1] if op == 'ld' and len(a[1]) == 1 and a[1][0][0] in ('i', 'ci', 'f') else a[1][1] if op == 'pj' and a[1][0] in ('i', 'ci', 'f') else None
            i = cval(i) if isinstance(i, E) else 'xyzw'.index(i) if i in ('x', 'y', 'z', 'w') else i
            if isinstance(i, int) and 0 <= i < 4 and a[0].op in ('upd', 'call', 'agg', 'transmute', 'repeat'):
                x = self.lane(a[0], i)
                if not (x.op == 'elem' and x.a[0] is a[0]):
                    return R(x)
        if op == 'b2f' or op == 'call' and a[0].split('::')[-1] == 'from_bits' and len(a[1]) == 1:
            return self.topoly(self(a[0] if op == 'b2f' else a[1][0], 32))
        if op == 'transmute' and len(a) >= 3 and a[2] == 'f32' and a[1] in ('u32', 'i32'):
            return self.topoly(self(a[0], 32))
        if op == 'i2f' or op == 'cast' and a[0] in ('f32', 'f64') and isinstance(a[1], E):
            x = a[0] if op == 'i2f' else a[1]
            b = self(x)
            return self.number(b)
        if op == 'fconst':
            try:
                return {ONE: f32(float(a[0]))} if float(a[0]) else {}
            except (OverflowError, ValueError):
                return None
        if op == 'constitem' and str(a[0]).split('::')[-1] in ROOTS and 'f32' in str(a[0]):
            return {ONE: ROOTS[str(a[0]).split('::')[-1]]}
        if op == 'call' or op in ('max', 'min', 'fmax', 'fmin', 'sqrt'):
            m = a[0].split('::')[-1] if op == 'call' else op
            args = a[1] if op == 'call' else a
            if m == 'sqrt' and len(args) == 1:
                return {(mk('nat', 'sqrt', self.key(R(args[0]))),): Fraction(1)}
            if m in ('max', 'simd_max', 'fmax') and len(args) == 2:
                p, q = R(args[0]), R(args[1])
                if not p or not q:
                    return {(mk('nat', 'max0', self.key(p or q)),): Fraction(1)}
        if op == 'ite':
            c = self.cond(a[0])
            if c in (0, 1):
                return R(a[1] if c else a[2])
            return self.choice(c, R(a[1]), R(a[2]))
        return None

    def choice(self, c, p, q):
        """c ? p : q; p = -q is q with its sign flipped"""
        if p == q:
            return p
        if all(p.get(k) == -q.get(k, 0) for k in set(p) | set(q)):
            pos, flip = (q, c) if self.nonneg(q) else (p, b_not(c)) if self.nonneg(p) else (None, None)
            if pos is not None:
                b = self.fbits_poly(pos)
                b[31] = b_or(b[31], flip)
                return self.topoly(b)
        return {(mk('nat', 'choice', c, self.key(p), self.key(q)),): Fraction(1)}

    # ------------------------------------------------ vectors
    def lane(self, e, k):
        key = (e, k)
        if key not in self.lmemo:
            self.lmemo[key] = self._lane(e, k)
        return self.lmemo[key]

    BIN = {'add': 'fAdd', 'sub': 'fSub', 'mul': 'fMul', 'div': 'fDiv', 'bitand': 'iBitAnd', 'bitor': 'iBitOr', 'bitxor': 'iBitXor', 'shl': 'iShl', 'shr': 'iShr'}
    CMP = {'simd_gt': lambda x, y: cmp_('Lt', y, x), 'simd_ge': lambda x, y: cmp_('Le', y, x), 'simd_lt': lambda x, y: cmp_('Lt', x, y), 'simd_le': lambda x, y: cmp_('Le', x, y),
           'simd_eq': lambda x, y: eq0(sub(x, y)), 'simd_ne': lambda x, y: neg(eq0(sub(x, y)))}

    def _lane(self, e, k):
        op, a = e.op, e.a
        if op in ('&', 'deref'):
            return self.lane(a[0], k)
        if op == 'agg' and a[0] == '[]':
            return a[2][k]
        if op == 'repeat':
            return a[0]
        if op in ('const', 'fconst'):
            return e
        if op == 'upd':
            for ps, v in a[1]:
                i = ps[0][1] if len(ps) == 1 and ps[0][0] in ('i', 'ci', 'f') else None
                i = cval(i) if isinstance(i, E) else i
                i = 'xyzw'.index(i) if i in ('x', 'y', 'z', 'w') else i
                if not isinstance(i, int):
                    return mk('elem', e, const(k))
                if i == k:
                    return v
            return self.lane(a[0], k)
        if op == 'transmute':
            f, t = str(a[1]), str(a[2])
            x = self.lane(a[0], k)
            fl = lambda s: 'f32' in s or 'Vec4' in s or 'Quat' in s
            if fl(f) == fl(t):
                return x
            return mk('f2b', x) if fl(f) else mk('b2f', x)
        if op == 'call':
            n, args = a[0], a[1]
            m = n.split('::')[-1]
            if m in ('new', 'from_xyzw') and len(args) in (2, 3, 4):
                return args[k]
            if m in ('from_array', 'from', 'from_vec4', 'splat', 'to_int', 'into', 'to_array', 'new') and len(args) == 1:
                return self.lane(args[0], k)
            if m in self.CMP and len(args) == 2:
                return mk('mask', self.CMP[m](self.lane(args[0], k), self.lane(args[1], k)))
            m2 = m.replace('_assign', '')
            if m2 in self.BIN and len(args) == 2:
                return mk(self.BIN[m2], self.lane(args[0], k), self.lane(args[1], k))
            if m == 'not' and len(args) == 1:
                return mk('bitnot', self.lane(args[0], k))
            if m == 'neg' and len(args) == 1:
                return mk('fneg', self.lane(args[0], k))
            if m == 'cast' and len(args) == 1:
                return mk('i2f', self.lane(args[0], k))
            if m in ('simd_max', 'simd_min', 'sqrt', 'max', 'min', 'mul_add'):
                xs = tuple(self.lane(x, k) for x in args)
                if m == 'mul_add':
                    return mk('fAdd', mk('fMul', xs[0], xs[1]), xs[2])
                return mk('call', m, xs)
            if m == 'select' and len(args) == 3:
                c = self.lane(args[0], k)
                if c.op == 'mask':
                    return mk('ite', c.a[0], self.lane(args[1], k), self.lane(args[2], k))
        if op == 'ite':
            return mk('ite', a[0], self.lane(a[1], k), self.lane(a[2], k))
        return mk('elem', e, const(k))


def cmp_(o, x, y):
    return le0(add(sub(x, y), const(1 if o == 'Lt' else 0)))
