"""C22: the operations of the pose math types, component by component and lane by lane."""
from common import *
from soa import *
from glamreal import Glam

NOTE = ('Every public operation of SoaVec3, SoaQuat and SoaTransform is interpreted; each lane of each component of what it returns or stores is a polynomial over the lanes of its '
        'arguments (1/x, square roots and choices by comparison as atoms) and is compared with the definition; bit masks are followed bit pattern by bit pattern. Constants are evaluated the same way. '
        'Reals instead of rounded floats.')
CONV = ('into', 'from', 'deref', 'to_array', 'as_array', 'as_ref', 'to_vec3', 'to_vec3a', 'clone', 'from_vec3a', 'from_vec3', 'to_vec4', 'from_vec4', 'borrow', 'xyz', 'truncate', 'copied', 'from_array', 'as_mut_array')
AX = {'x': 0, 'y': 1, 'z': 2, 'w': 3}
VEC, QUAT = 'xyz', 'xyzw'
TR = [('translation', VEC), ('rotation', QUAT), ('scale', VEC)]


def place(e):
    """(argument, field names, index) when e is a part of an argument, seen through conversions that keep the components"""
    names, idx = (), None
    while True:
        if e.op in ('pj', 'ld'):
            p = e.a[1]
            p = p if not p or isinstance(p[0], tuple) else (p,)
            for k in reversed(p):
                v = num(k[1]) if len(k) > 1 else None
                if k[0] == 'f' and isinstance(v, int) or k[0] in ('i', 'ci') and isinstance(v, int):
                    if idx is not None:
                        if v == 0 and k[0] == 'f':
                            continue
                        return None
                    idx = v
                elif k[0] == 'f' and isinstance(v, str):
                    if idx is None and not names and v in AX and False:
                        idx = AX[v]
                    else:
                        names = (v,) + names
                else:
                    return None
            e = e.a[0]
        elif e.op == 'elem' and isinstance(cval(e.a[1]), int):
            if idx is not None:
                return None
            idx, e = cval(e.a[1]), e.a[0]
        elif e.op in ('&', 'deref', 'unsize'):
            e = e.a[0]
        elif e.op == 'transmute' and 'Simd<i32' not in e.a[1] + e.a[2]:
            e = e.a[0]
        elif e.op == 'call' and len(e.a[1]) == 1 and e.a[0].split('::<')[0].split('::')[-1] in CONV:
            e = e.a[1][0]
        elif e.op == 'arg':
            return e.a[0], names, idx
        else:
            return None


class Ops(Pose):
    def __init__(self, it, q):
        Pose.__init__(self, it, q, leaf=self.scalar, vleaf=self.input)

    def atom(self, n, names, i):
        return self.R.atom(mk('in', n, '.'.join(names), i))

    def scalar(self, e):
        if e.op == 'constitem' and e.a[0].split('::')[-1] in ('NAN', 'MIN', 'MAX', 'INFINITY', 'NEG_INFINITY') and 'f32' in e.a[0]:
            return self.R.atom(mk('special', e.a[0].split('::')[-1]))
        p = place(e)
        if p is not None:
            n, names, i = p
            if i is None and names and names[-1] in AX and self.glam_at(n, names[:-1]):
                names, i = names[:-1], AX[names[-1]]
            return self.atom(n, names, i if i is not None else 0)
        if e.op in ('pj', 'ld', 'elem') and e.op != 'ld':
            k = e.a[1]
            i = cval(k) if e.op == 'elem' else num(k[1]) if len(k) == 2 and k[0] in ('i', 'f') else None
            if isinstance(i, str):
                i = AX.get(i)
            if isinstance(i, int) and 0 <= i < 4:
                b = e.a[0]
                while b.op in ('deref', '&', 'transmute') or b.op == 'call' and len(b.a[1]) == 1 and b.a[0].split('::<')[0].split('::')[-1] in CONV:
                    b = b.a[0] if b.op != 'call' else b.a[1][0]
                if b.op == 'constitem' and 'glam' in b.a[0]:
                    return Glam(lambda x: None).constant(b.a[0], i)
                if b.op == 'call' and b.a[0].split('::')[-1] in ('new', 'from_xyzw') and len(b.a[1]) in (3, 4) and i < len(b.a[1]):
                    return self.sca(b.a[1][i])
        return None

    def glam_at(self, n, names):
        return not self.simd

    def input(self, e):
        if e.op == 'constitem' and 'glam' in e.a[0]:
            g = Glam(lambda x: None)
            return [g.constant(e.a[0], i) for i in range(4 if 'Vec3' not in e.a[0] else 3)]
        p = place(e)
        if p is not None and p[2] is None:
            return [self.atom(p[0], p[1], i) for i in range(4)]
        return None

    def updated(self, e):
        base = list(self.vec(e.a[0]))
        for ps, v in e.a[1]:
            k = num(ps[0][1]) if len(ps) == 1 else None
            k = AX.get(k, k)
            if not isinstance(k, int) or k >= len(base):
                return None
            base[k] = self.sca(v)
        return base

    # bit patterns: the sign bit is not the comparison with zero, and a mask argument is any bits
    def sbit(self, p):
        return self.R.atom(mk('sbit', pkey(p)))

    def bits(self, e):
        p = place(e)
        if p is not None and p[2] is None:
            return [('i', (p[0], '.'.join(p[1]), i)) for i in range(4)]
        return Pose.bits(self, e)

    def bitop(self, m, x, y):
        k = {'bitand': 'and', 'bitor': 'or', 'bitxor': 'xor'}[m]
        if 'i' in (x[0], y[0]):
            a, b = (x, y) if y[0] == 'i' else (y, x)
            if a[0] == 'f':
                return ('fi', (k, pkey(a[1]), b[1]))
        if 's' in (x[0], y[0]) and k == 'xor':
            a, b = (x, y) if y[0] == 's' else (y, x)
            if a[0] == 'f':
                return ('f', self.R.mul(a[1], self.sbit(b[1])))
        return Pose.bitop(self, m, x, y)

    def tofloat(self, b):
        if b[0] == 'fi':
            return self.R.atom(mk('bitop', *b[1]))
        return Pose.tofloat(self, b)


def run(rep):
    rep.rule('value', 'every lane of every component returned is the defining polynomial of the same lane of the arguments')
    rep.rule('frame', 'setting a lane stores exactly the components of that lane, each with its own component of the value')
    S = Spec(rep)
    for t, comps in (('SoaVec3', VEC), ('SoaQuat', QUAT)):
        one = 'vec3' if t == 'SoaVec3' else 'quat'
        S.value(t + '::new', comps, lambda R, c, i, A, comps=comps: A(comps.index(c) + 1, '', i))
        S.value(t + '::splat', comps, lambda R, c, i, A: A(1, '', 0))
        S.value('%s::splat_%s' % (t, one), comps, lambda R, c, i, A: A(1, '', AX[c]))
        S.getter('%s::%s' % (t, one), comps, '')
        S.setter('%s::set_%s' % (t, one), [('', comps)])
        S.value(t + '::add', comps, lambda R, c, i, A: R.add(A(1, c, i), A(2, c, i)))
        S.value(t + '::mul_num', comps, lambda R, c, i, A: R.mul(A(1, c, i), A(2, '', i)))
        for m in ('and', 'or', 'xor'):
            S.value('%s::%s_num' % (t, m), comps, lambda R, c, i, A, m=m: R.atom(mk('bitop', m, pkey(A(1, c, i)), (2, '', i))))
    S.value('SoaVec3::neg', VEC, lambda R, c, i, A: R.mul(R.const(-1), A(1, c, i)))
    S.value('SoaVec3::sub', VEC, lambda R, c, i, A: R.add(A(1, c, i), A(2, c, i), -1))
    S.value('SoaVec3::lerp', VEC, lambda R, c, i, A: lerp(R, A(1, c, i), A(2, c, i), A(3, '', i)))
    S.value('SoaQuat::conjugate', QUAT, lambda R, c, i, A: A(1, c, i) if c == 'w' else R.mul(R.const(-1), A(1, c, i)))
    S.value('SoaQuat::mul', QUAT, hamilton)
    S.value('SoaQuat::normalize', QUAT, lambda R, c, i, A, L=None: unit(L, {k: A(1, k, i) for k in QUAT}, c), lanes=True)
    S.value('SoaQuat::nlerp', QUAT, lambda R, c, i, A, L=None: unit(L, {k: lerp(R, A(1, k, i), A(2, k, i), A(3, '', i)) for k in QUAT}, c), lanes=True)
    S.value('SoaQuat::dot', None, lambda R, c, i, A: total(R, [R.mul(A(1, k, i), A(2, k, i)) for k in QUAT]))
    S.value('SoaQuat::positive_w', QUAT, lambda R, c, i, A, L=None: R.mul(A(1, c, i), L.sgn(A(1, 'w', i))), lanes=True)
    S.transform()
    S.constants()
    rep.floor('operations', S.n, 27)


def lerp(R, a, b, t):
    return R.add(a, R.mul(R.add(b, a, -1), t))


def total(R, ps):
    out = {}
    for p in ps:
        out = R.add(out, p)
    return out


def unit(L, q, c):
    R = L.R
    n = L.fn1('sqrt', total(R, [R.mul(q[k], q[k]) for k in QUAT]))
    return R.mul(q[c], L.inv(n))


def hamilton(R, c, i, A):
    a, b = ({k: A(n, k, i) for k in QUAT} for n in (1, 2))
    terms = {'x': ['wx', 'xw', 'yz', '-zy'], 'y': ['wy', 'yw', 'zx', '-xz'], 'z': ['wz', 'zw', 'xy', '-yx'], 'w': ['ww', '-xx', '-yy', '-zz']}[c]
    out = {}
    for t in terms:
        out = R.add(out, R.mul(a[t[-2]], b[t[-1]]), -1 if t[0] == '-' else 1)
    return out


class Spec:
    def __init__(self, rep):
        self.rep, self.n = rep, 0

    def open(self, key, index=None):
        rep = self.rep
        init = None
        if index is not None:
            def init(it, st):
                it._put(st, (('L', 2), ()), const(index))
        it = interp(key, rep=rep, init=init, tag='' if index is None else 'lane%d' % index, straight=index is not None)
        if not rep.ob(it is not None, key, 'function not found'):
            return None
        self.n += 1
        q = Q(it)
        rets = list(returns(q))
        if not rep.ob(len(rets) == 1, key, 'not a single return'):
            return None
        L = Ops(it, q)
        L.simd = True
        return it, q, rets[0], L

    def result(self, it, q, e):
        return q.canon(it.valarg(e['state'], e['value']))

    def comp(self, it, v, name):
        for f in name.split('.'):
            if f:
                v = it.proj(v, ('f', f))
        return v

    def check(self, key, what, L, got, want):
        self.rep.ob(same(got, want), '%s %s' % (key, what), 'is %s instead of %s' % (show_poly(got)[:160], show_poly(want)[:160]))

    def value(self, key, comps, want, lanes=False):
        o = self.open(key)
        if o is None:
            return
        it, q, e, L = o
        v = self.result(it, q, e)
        try:
            for c in comps or [None]:
                got = L.vec(q.canon(self.comp(it, v, c)) if c else v)
                for i in range(4):
                    A = lambda n, f, k: L.atom(n, tuple(x for x in f.split('.') if x), k)
                    w = want(L.R, c, i, A, L=L) if lanes else want(L.R, c, i, A)
                    self.check(key, '%s lane %d' % (c or 'result', i), L, got[i], w)
        except (Mystery, OverflowError) as x:
            self.rep.fail(key, 'not understood: %s' % str(x)[:200])

    def getter(self, key, comps, base, part=None):
        for k in range(4):
            o = self.open(key, k)
            if o is None:
                return
            it, q, e, L = o
            v = self.result(it, q, e)
            self.components(key, it, q, L, v, comps, base, k)

    def components(self, key, it, q, L, v, comps, base, k):
        try:
            got = self.parts(L, v)
            for j, c in enumerate(comps):
                w = L.atom(1, tuple(x for x in (base, c) if x), k)
                self.check(key, '%s of lane %d' % (c, k), L, got[j], w)
        except (Mystery, OverflowError, IndexError) as x:
            self.rep.fail(key, 'not understood: %s' % str(x)[:200])

    def parts(self, L, v):
        """components of a glam value"""
        while v.op in ('&', 'deref', 'transmute') or v.op == 'call' and len(v.a[1]) == 1 and v.a[0].split('::')[-1] in CONV:
            v = v.a[0] if v.op != 'call' else v.a[1][0]
        if v.op == 'agg' and v.a[0] in ('[]', '()'):
            return [L.sca(x) for x in v.a[2]]
        if v.op == 'call' and v.a[0].split('::')[-1] in ('new', 'from_xyzw') and len(v.a[1]) in (3, 4):
            return [L.sca(x) for x in v.a[1]]
        if v.op == 'upd':
            b = self.parts(L, v.a[0])
            return L.updated(v) or b
        return L.vec(v)

    def setter(self, key, groups):
        for k in range(4):
            o = self.open(key, k)
            if o is None:
                return
            it, q, e, L = o
            L.simd = True
            final = {}
            for g, comps in groups:
                for c in comps:
                    final[(g + '.' if g else '') + c] = [L.atom(1, tuple(x for x in (g, c) if x), i) for i in range(4)]
            ok = True
            try:
                for s in q.events('store'):
                    if s['loc'][0][0] != 'M':
                        continue
                    base, path = unproj(q.canon(s['loc'][0][1]))
                    while base.op == 'call' and len(base.a[1]) == 1 and base.a[0].split('::')[-1] in ('as_mut_array', 'as_mut', 'deref_mut', 'borrow_mut'):
                        base, more = unproj(base.a[1][0])
                        path = more + path
                    path = path + tuple(s['loc'][1])
                    names = [x[1] for x in path if x[0] == 'f' and isinstance(x[1], str)]
                    ix_ = [num(x[1]) for x in path if x[0] in ('i', 'ci')]
                    name = '.'.join(names)
                    if not self.rep.ob(base is mk('arg', 1), key, 'something else is written: %s' % show(base)[:80]):
                        ok = False
                        continue
                    v = q.canon(s['value'])
                    hit = [n for n in final if n == name or n.startswith(name + '.') or not name]
                    if not self.rep.ob(bool(hit) and (not ix_ or hit == [name] and isinstance(ix_[0], int)), key, 'unexpected store to %s %s' % (name, ix_)):
                        ok = False
                        continue
                    for n in hit:
                        if ix_:
                            final[n][ix_[0]] = L.sca(v)
                        else:
                            final[n] = list(L.vec(q.canon(self.comp(it, v, n[len(name):].strip('.')))))
                if not ok:
                    return
                for g, comps in groups:
                    for c in comps:
                        got = final[(g + '.' if g else '') + c]
                        for i in range(4):
                            w = L.atom(3, (g,) if g else (), AX[c]) if i == k else L.atom(1, tuple(x for x in (g, c) if x), i)
                            self.check(key, 'lane %d: %s of lane %d' % (k, (g + ' ' if g else '') + c, i), L, got[i], w)
            except (Mystery, OverflowError, IndexError) as x:
                self.rep.fail(key, 'not understood: %s' % str(x)[:200])

    def transform(self):
        key = 'SoaTransform::new'
        o = self.open(key)
        if o is not None:
            it, q, e, L = o
            v = self.result(it, q, e)
            for j, (g, comps) in enumerate(TR):
                for c in comps:
                    got = L.vec(q.canon(self.comp(it, v, g + '.' + c)))
                    for i in range(4):
                        self.check(key, '%s.%s lane %d' % (g, c, i), L, got[i], L.atom(j + 1, (c,), i))
        key = 'SoaTransform::splat_transform'
        o = self.open(key)
        if o is not None:
            it, q, e, L = o
            v = self.result(it, q, e)
            for g, comps in TR:
                for c in comps:
                    got = L.vec(q.canon(self.comp(it, v, g + '.' + c)))
                    for i in range(4):
                        self.check(key, '%s.%s lane %d' % (g, c, i), L, got[i], L.atom(1, (g,), AX[c]))
        key = 'SoaTransform::transform'
        for k in range(4):
            o = self.open(key, k)
            if o is not None:
                it, q, e, L = o
                v = self.result(it, q, e)
                for g, comps in TR:
                    self.components(key + ' ' + g, it, q, L, q.canon(self.comp(it, v, g)), comps, g, k)
        self.setter('SoaTransform::set_transform', TR)

    def constants(self):
        P = program('host')
        n = 0
        K = {'SoaVec3': {'ZERO': 0, 'ONE': 1, 'NEG_ONE': -1, 'MIN': 'MIN', 'MAX': 'MAX', 'NAN': 'NAN', 'INFINITY': 'INFINITY', 'NEG_INFINITY': 'NEG_INFINITY',
                         'X': 'x', 'Y': 'y', 'Z': 'z', 'NEG_X': '-x', 'NEG_Y': '-y', 'NEG_Z': '-z'},
             'SoaQuat': {'ZERO': 0, 'IDENTITY': 'w', 'NAN': 'NAN'}}
        for t, ks in K.items():
            for name, val in ks.items():
                n += self.constant(P, '%s::%s' % (t, name), {c: val for c in (VEC if t == 'SoaVec3' else QUAT)})
        for name, vs in {'ZERO': (0, 0, 0), 'IDENTITY': (0, 'w', 1), 'NAN': ('NAN',) * 3}.items():
            n += self.constant(P, 'SoaTransform::' + name, {g + '.' + c: v for (g, comps), v in zip(TR, vs) for c in comps})
        self.rep.floor('constants', n, 20)

    def constant(self, P, key, vals):
        fs = P.consts.get(key)
        if not self.rep.ob(bool(fs), key, 'constant not found'):
            return 0
        it = interp(key, fn=fs[0], rep=self.rep)
        q = Q(it)
        for e in returns(q):
            L = Ops(it, q)
            L.simd = True
            v = self.result(it, q, e)
            try:
                for c, val in vals.items():
                    ax = c.split('.')[-1]
                    w = L.R.const(val) if isinstance(val, int) else L.R.atom(mk('special', val)) if val.isupper() else L.R.const((-1 if val[0] == '-' else 1) * (val[-1] == ax))
                    got = L.vec(q.canon(self.comp(it, v, c)))
                    for i in range(4):
                        self.check(key, '%s lane %d' % (c, i), L, got[i], w)
            except (Mystery, OverflowError) as x:
                self.rep.fail(key, 'not understood: %s' % str(x)[:200])
        return 1
