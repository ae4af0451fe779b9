"""C21: compressed keys: half floats and packed quaternions decompress to the documented values."""
import common
from common import *
from bits import Bits, Unknown, ROOTS
from fractions import Fraction
import itertools

NOTE = ('Each decompression function is interpreted abstractly once per case of a finite partition of its input words by bit patterns (which exponent bit is clear, which '
        'mantissa bit is set, which component is left out); all other input bits stay symbolic. The result is followed bit by bit (integers) and as a polynomial over the '
        'reals (floats) and compared with the documented value. 2^112 times the shifted half float is taken to be exact, as IEEE arithmetic makes it.')
# case of a half float: {bit: value} for bits 0..15
FIN = [{**{10 + j: 1 for j in range(k + 1, 5)}, 10 + k: 0} for k in range(4, -1, -1)]
NANS = [{**{10 + j: 1 for j in range(5)}, **{j: 0 for j in range(k + 1, 10)}, k: 1} for k in range(9, -1, -1)]
INF = [{**{10 + j: 1 for j in range(5)}, **{j: 0 for j in range(10)}, 15: s} for s in (0, 1)]
SPLIT = [{**c, 15: s} for c in FIN + NANS for s in (0, 1)]
CASES = SPLIT + INF
P112 = Fraction(2) ** 112


def kind(c):
    return 'inf' if all(c.get(j) == 0 for j in range(10)) and c.get(10) == 1 else 'nan' if all(c.get(10 + j) == 1 for j in range(5)) else 'finite'


def word(name, c):
    return [c.get(j, ('s', name, j)) for j in range(16)]


def folder(B):
    def fold(v):
        if v.op in ('rem', 'div', 'iBitAnd', 'iBitOr', 'iBitXor', 'cast', 'lin', 'iShr', 'iShl', 'ld', 'arg', 'pj', 'elem'):
            b = B(v)
            if b and all(x in (0, 1) for x in b):
                return const(sum(x << i for i, x in enumerate(b)))
        elif v.op in ('eq0', 'le0', 'not', 'and', 'or'):
            b = B.cond(v)
            if b in (0, 1):
                return TRUE if b else FALSE
        return None
    return fold


def expect_half(B, w, c):
    """(kind, bits) of the float with this half float pattern"""
    em = w[:15]
    if kind(c) == 'nan':
        return 'nan', None
    if kind(c) == 'inf':
        return 'bits', [0] * 23 + [1] * 8 + [w[15]]
    p = B.topoly([0] * 13 + list(em) + [0] * 4)
    return 'bits', B.fbits_of({m: f * P112 for m, f in p.items()})[:31] + [w[15]]


def half_ok(B, e, w, c):
    got = B.fbits(e)
    k, want = expect_half(B, w, c)
    if k == 'nan':
        return all(x == 1 for x in got[23:31]) and any(x == 1 for x in got[:23]), 'NaN', got
    return list(got) == list(want), 'value', got


class Key:
    """names the words of keys passed by reference (argument i, word j) or in an array"""

    def __init__(self, cases, nargs, base=1):
        self.cases = cases            # (arg, word) -> {bit: value}
        self.B = Bits(self.leaf)
        self.nargs = nargs

    def where(self, e):
        if e.op == 'arg':
            return (e.a[0], None)
        ps, x = [], e
        while x.op in ('ld', 'pj', 'elem', 'deref', '&'):
            if x.op == 'ld':
                ps = list(x.a[1]) + ps
            elif x.op == 'pj':
                ps = [x.a[1]] + ps
            elif x.op == 'elem':
                ps = [('i', x.a[1])] + ps
            x = x.a[0]
        if x.op != 'arg' or not (1 <= x.a[0] <= self.nargs):
            return None
        idx = [p[1] for p in ps if p[0] in ('i', 'ci')]
        if len(idx) == 1:
            i = cval(idx[0]) if isinstance(idx[0], E) else idx[0]
            if isinstance(i, int):
                return (x.a[0], i)
        if not idx and not ps:
            return (x.a[0], None)
        return None

    def leaf(self, e):
        if e.op not in ('ld', 'pj', 'elem', 'arg'):
            return None
        w = self.where(e)
        if w is None or w not in self.cases:
            return None
        return word(('key',) + w, self.cases[w])

    def word(self, a, i):
        return word(('key', a, i), self.cases[(a, i)])


def case(fn, cases, nargs):
    """interpretation of fn with the given key bits; (returned value, {last place of a store behind a pointer: value}, Bits)"""
    K = Key(cases, nargs)
    it = interp(fn, tag=repr(sorted(cases.items(), key=repr)), fold=folder(K.B), straight=True)
    if it is None:
        return None
    common._interps.clear()                       # each case is looked at once
    q = Q(it)
    rets = returns(q)
    out = None
    if len(rets) == 1:
        out = rets[0]['value']
    return out, q, K


def outputs(q, arg):
    """values left in the fields behind a pointer argument; None when a store is conditional or unclear"""
    out = {}
    rets = returns(q)
    for e in q.events('store'):
        loc = e['loc']
        if loc[0][0] != 'M' or loc[0][1].op != 'arg' or loc[0][1].a[0] != arg:
            continue
        f = tuple(p[1] for p in loc[1] if p[0] == 'f')
        if len(loc[1]) != 1 or len(rets) != 1 or not q.dominates(e['block'], rets[0]['block']):
            return None
        out[f] = e['value']
    return out


def group(name, n):
    """words of n keys passed one by one"""
    return [(a, w) for a in range(1, n + 1) for w in range(3)]


# ---------------------------------------------------------------- half floats
def half_cases():
    return CASES


def check(rep, key, K, e, w, c, value):
    """one float result against the half float word w of case c"""
    try:
        ok, what, got = half_ok(K.B, e, w, c)
    except Unknown as x:
        ok, what, got = False, 'value', str(x)
    rep.ob(ok, key, '%s half float (%s): not the documented %s' % (kind(c), bits(c), what),
           sample='%s: %s half float %s' % (key, kind(c), bits(c)))


def bits(c):
    return ''.join(str(c.get(j, '.')) for j in range(15, -1, -1))


def scalar_half(rep):
    fn = 'math::f16_to_f32'
    if program().fn(fn) is None:
        return                                    # a private helper: its callers are checked with it inlined
    rep.functions.add(fn)
    for c in half_cases():
        r = case(fn, {(1, None): c}, 1)
        if r[0] is None:
            rep.fail(fn, 'no single result for the half floats %s' % bits(c))
            continue
        check(rep, fn, r[2], r[0], r[2].word(1, None), c, r[0])


def simd_half(rep):
    fn = 'math::simd_f16_to_f32'
    if program().fn(fn) is None:
        return
    rep.functions.add(fn)
    for c in half_cases():
        for k in range(4):
            r = case(fn, {(1, j): c if j == k else {} for j in range(4)}, 1)
            if r[0] is None:
                r = case(fn, {(1, j): c for j in range(4)}, 1)
            if r[0] is None:
                rep.fail(fn, 'no single result for the half floats %s' % bits(c))
                continue
            check(rep, fn + ' lane %d' % k, r[2], r[2].B.lane(r[0], k), r[2].word(1, k), c, r[0])


def others(c):
    return [c] + ([CASES[0], NANS[0], INF[0]] if TIER == 'thorough' else [CASES[0]])


def float3(rep):
    fn = 'Float3Key::decompress'
    if program().fn(fn) is None:
        rep.fail(fn, 'function not found')
        return
    rep.functions.add(fn)
    n = 0
    for c in half_cases():
        for w in range(3):
            for o in others(c):
                r = case(fn, {(1, j): c if j == w else o for j in range(3)}, 1)
                if r[0] is None:
                    rep.fail(fn, 'no single result for the half floats %s' % bits(c))
                    continue
                n += 1
                check(rep, '%s .%s' % (fn, 'xyz'[w]), r[2], r[2].B.lane(r[0], w), r[2].word(1, w), c, r[0])
    rep.floor('scalar float3 cases', n, 3 * len(half_cases()))


def float3_simd(rep):
    fn = 'Float3Key::simd_decompress'
    if program().fn(fn) is None:
        rep.fail(fn, 'function not found')
        return
    rep.functions.add(fn)
    n = 0
    for c in half_cases():
        for o in [{}] + others(c):
            for w in range(3):
                bad = False
                for k in range(4):
                    r = case(fn, {x: c if x == (k + 1, w) else o for x in group('key', 4)}, 4)
                    out = outputs(r[1], 5)
                    if out is None or set(out) != {('x',), ('y',), ('z',)}:
                        bad = True
                        break
                    n += 1
                    check(rep, '%s .%s lane %d' % (fn, 'xyz'[w], k), r[2], r[2].B.lane(out[('xyz'[w],)], k), r[2].word(k + 1, w), c, None)
                if bad and o is not None and o != {}:
                    rep.fail(fn, 'x, y and z are not each written once on every path')
            if o == {} and not bad:
                break                             # the other words were free
    rep.floor('vector float3 cases', n, 12 * len(half_cases()))


# ---------------------------------------------------------------- quaternions
SQRT2 = ROOTS['SQRT_2']


def want_quat(B, ws, largest, sign):
    """{component: polynomial or (polynomial of the magnitude, sign bit)} for a key whose words have these bits"""
    key = [b for w in ws for b in w]
    v = [B.number(key[3 + 15 * i: 18 + 15 * i]) for i in range(3)]
    comps, i = {}, 0
    for c in range(4):
        if c == largest:
            continue
        comps[c] = B.R.add({m: f * SQRT2 / 32767 for m, f in v[i].items()}, {(): -SQRT2 / 2})
        i += 1
    dot = {}
    for p in comps.values():
        dot = B.R.add(dot, B.R.mul(p, p))
    rest = B.R.add({(): Fraction(1)}, {m: -f for m, f in dot.items()})
    root = {(mk('nat', 'sqrt', B.key({(mk('nat', 'max0', B.key(rest)),): Fraction(1)})),): Fraction(1)}
    b = B.fbits_poly(root)
    b[31] = sign
    comps[largest] = B.topoly(b)
    return comps


def same(B, e, p):
    return B.poly(e) == p


def quat(rep):
    fn = 'QuaternionKey::decompress'
    if program().fn(fn) is None:
        rep.fail(fn, 'function not found')
        return
    rep.functions.add(fn)
    n = 0
    for l in range(4):
        for s in (0, 1):
            r = case(fn, {(1, 0): {0: l & 1, 1: l >> 1, 2: s}, (1, 1): {}, (1, 2): {}}, 1)
            if r[0] is None:
                rep.fail(fn, 'no single result when component %d is left out' % l)
                continue
            B = r[2].B
            want = want_quat(B, [r[2].word(1, j) for j in range(3)], l, s)
            for c in range(4):
                n += 1
                rep.ob(same(B, B.lane(r[0], c), want[c]), '%s .%s' % (fn, 'xyzw'[c]), 'component %s is not the documented value when component %s is left out (sign %d)' % ('xyzw'[c], 'xyzw'[l], s),
                       sample='%s: %s with %s left out' % (fn, 'xyzw'[c], 'xyzw'[l]))
    rep.floor('scalar quaternion cases', n, 32)


def quat_simd(rep):
    fn = 'QuaternionKey::simd_decompress'
    if program().fn(fn) is None:
        rep.fail(fn, 'function not found')
        return
    rep.functions.add(fn)
    n, wants = 0, {}
    for ls in itertools.product(range(4), repeat=4):
        cs = {x: {} for x in group('key', 4)}
        for k in range(4):
            cs[(k + 1, 0)] = {0: ls[k] & 1, 1: ls[k] >> 1}
        r = case(fn, cs, 4)
        out = outputs(r[1], 5)
        if out is None or set(out) != {('x',), ('y',), ('z',), ('w',)}:
            rep.fail(fn, 'x, y, z and w are not each written once on every path')
            return
        B = r[2].B
        for k in range(4):
            ws = [r[2].word(k + 1, j) for j in range(3)]
            if (k, ls[k]) not in wants:
                wants[k, ls[k]] = want_quat(B, ws, ls[k], ws[0][2])       # the same whatever the other keys are
            want = wants[k, ls[k]]
            for c in range(4):
                n += 1
                rep.ob(same(B, B.lane(out[('xyzw'[c],)], k), want[c]), '%s .%s lane %d' % (fn, 'xyzw'[c], k), 'component %s of key %d is not the documented value when %s are left out of the four keys' % ('xyzw'[c], k, [('xyzw'[l]) for l in ls]),
                       sample='%s: %s of key %d, left out: %s' % (fn, 'xyzw'[c], k, ls))
    rep.floor('vector quaternion cases', n, 4096)


def run(rep):
    rep.rule('half', 'sign, exponent and mantissa of a half float give the float of that value; exponent 31 gives infinity of that sign, or NaN with a mantissa')
    rep.rule('quaternion', 'bits 0-1 of the 48-bit key name the component left out, bit 2 its sign, three 15-bit numbers the other components in order as v * sqrt2/32767 - sqrt2/2; the one left out is sqrt(max(0, 1 - sum of squares)) with the sign')
    rep.rule('lanes', 'lane k of a vector decompression is key k')
    scalar_half(rep)
    simd_half(rep)
    float3(rep)
    float3_simd(rep)
    quat(rep)
    quat_simd(rep)
