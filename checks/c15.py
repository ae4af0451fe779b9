"""C15: skinning: which vertices are written, from which matrices, with which weights."""
from common import *
from cursor import *
from soa import *
from sweeps import *
from spec import Job
from lanes import Lanes, same, pkey, show_poly, Mystery
import c05

NOTE = ('SkinningJob::run is interpreted abstractly once per scenario (influences per vertex x normals x tangents x inverse-transpose matrices; every number of influences '
        'from five on is one symbolic scenario); the vertex loop is summarised as a map per path, loops over influences as sums in closed form (counter, accumulators checked '
        'to grow by a term of the counter alone); matrices are compared column by column as polynomials over the reals with the weighted-sum formula.')
ic_nat = mk('nat', 'more influences')


class Bad(Exception):
    pass


def norm(e):
    r = None
    if e.op == 'call' and e.a[0].split('::')[-1] == 'clamp' and len(e.a[1]) == 3 and 'usize' in e.a[0]:
        x, lo, hi = e.a[1]
        return norm(mk('min', norm(mk('max', x, lo)), hi))
    if e.op in ('min', 'max') and len(e.a) == 2:
        a, b = e.a
        d = settled(le0(sub(a, b)))
        if d is None and settled(le0(sub(b, a))) is True:
            d = False
        if d is not None:
            r = a if d == (e.op == 'min') else b
    if r is None:
        r = norm_idx(e)
    return e if r is None and e.op in ('min', 'max') else r


def settled(c):
    return True if c is TRUE else False if c is FALSE else decide(c)


def scenarios():
    k = Job('SkinningJob')
    ic = k.f('influences_count')
    out = []
    for n in (1, 2, 3, 4, None):
        for nrm, tan in ((0, 0), (1, 0), (1, 1)):
            for it in (0, 1):
                N = const(n) if n else add(const(5), ic_nat)
                asm = {ic: N, mk('discr', k.f('in_normals')): const(nrm), mk('discr', k.f('in_tangents')): const(tan), mk('discr', k.f('joint_it_matrices')): const(it)}
                name = '%s influences%s%s%s' % (n or '5+', ', normals' if nrm else '', ', tangents' if tan else '', ', inverse transposes' if it else '')
                out.append((name, N, nrm, tan, it, asm))
    return out


def assume(asm, memo):
    def settle(x):
        if not isinstance(x, E):
            return tuple(settle(y) for y in x) if isinstance(x, tuple) else x
        if x in memo:
            return memo[x]
        memo[x] = x
        r = asm.get(x)
        if r is None:
            na = tuple(settle(y) for y in x.a)
            r = x
            if any(a is not b for a, b in zip(na, x.a)):
                r = rebuild(x, na)
            n = norm(r) if r.op in ('min', 'max') else None
            r = n if n is not None else r
        memo[x] = r
        return r

    def f(x):
        r = asm.get(x)
        if r is not None:
            return r
        if x.op in ('ld', 'discr'):
            return None
        r = settle(x)
        if r.op in ('le0', 'eq0', 'not'):
            d = decide(r)
            if d is not None:
                r = TRUE if d else FALSE
        return r if r is not x else None
    return f


def rebuild(x, na):
    """x with other operands (arithmetic simplified)"""
    if x.op == 'lin':
        d = const(na[1])
        for k, v in na[0]:
            d = add(d, mul(k, const(v)))
        return d
    if x.op == 'mono':
        r = na[0]
        for y in na[1:]:
            r = mul(r, y)
        return r
    if x.op in ('le0', 'eq0', 'not'):
        return {'le0': le0, 'eq0': eq0, 'not': neg}[x.op](na[0])
    return mk(x.op, *na)


MATFNS = ('add', 'sub', 'mul', 'from_cols', 'add_mat4', 'sub_mat4', 'mul_scalar', 'clone', 'div', 'div_scalar')


class Mats(Lanes):
    """vectors and matrices of the skinning formula"""

    def __init__(self, C):
        Lanes.__init__(self, leaf=self.scalar, vleaf=self.operand)
        self.C, self.it = C, C.it

    # -- leaves
    def scalar(self, e):
        C = self.C
        if e.op in ('elem', 'ld', 'pj'):
            loc = C.place(e)
            if loc is not None:
                name, i, rest = loc
                if name == 'weights' and not rest:
                    return self.R.atom(mk('w', i))
                if name in ('in_positions', 'in_normals', 'in_tangents'):
                    k = axis(rest)
                    if k is not None:
                        return self.R.atom(mk('v', name, i, k))
                if name in ('matrices', 'it'):
                    k = entry(rest)
                    if k is not None:
                        return self.R.atom(mk('m', name, i, *k))
        if e.op == 'phi' and e in C.inner_phi:
            return C.closed(e, self, 1)[0]
        v, path = parts(e)
        if path:
            k = axis(path[-1:])
            if k is not None:
                src = self.proj_of(v, path[:-1])
                if src is not None:
                    return self.vec(src)[k]
        if e.op == 'call' and e.a[0].split('::')[-1] == 'dot' and len(e.a[1]) == 2 and 'Vec' in e.a[0]:
            a, b = self.vec(e.a[1][0]), self.vec(e.a[1][1])
            n = 3 if 'Vec3' in e.a[0] else 4
            r = {}
            for k in range(n):
                r = self.R.add(r, self.R.mul(a[k], b[k]))
            return r
        return None

    def proj_of(self, v, path):
        for k in path:
            v = mk('pj', v, k)
        return v

    def operand(self, e):
        C, R = self.C, self.R
        if e.op in ('elem', 'ld', 'pj'):
            loc = C.place(e)
            if loc is not None:
                name, i, rest = loc
                if name in ('in_positions', 'in_normals', 'in_tangents') and not rest:
                    return [R.atom(mk('v', name, i, k)) for k in range(3)] + [{}]
                if name in ('matrices', 'it') and len(rest) == 1:
                    c = column(rest)
                    if c is not None:
                        return [R.atom(mk('m', name, i, c, k)) for k in range(4)]
            v, path = parts(e)
            c = column(path[-1:]) if path else None
            if c is not None and self.ismat(v):
                return self.mat(self.proj_of(v, path[:-1]))[c]
        if e.op == 'phi' and e in C.inner_phi:
            return C.closed(e, self, 4)
        if e.op in ('constitem', 'glob', 'ld') and 'Vec' in str(e.a[0]):
            s = str(e.a[0])
            c = {'ONE': 1, 'ZERO': 0}.get(s.split('::')[-1])
            if c is not None:
                return [R.const(c)] * 4
        if e.op == 'agg' and ('Vec3' in str(e.a[0]) or 'Vec4' in str(e.a[0])):
            xs = [self.sca(x) for x in e.a[2]]
            return (xs + [{}] * 4)[:4]
        if e.op == 'call':
            n, args = e.a[0], e.a[1]
            m = n.split('::')[-1]
            if 'Mat4' in n and len(args) == 2 and m in ('transform_point3', 'transform_vector3', 'transform_point3a', 'transform_vector3a', 'mul_vec4', 'project_point3') or \
                    (n.startswith('<Mat4 as Mul') and len(args) == 2 and isvec(args[1])):
                if m == 'project_point3':
                    return None
                c, v = self.mat(args[0]), self.vec(args[1])
                out = []
                for k in range(4):
                    p = {}
                    for j in range(3):
                        p = R.add(p, R.mul(c[j][k], v[j]))
                    if 'point' in m:
                        p = R.add(p, c[3][k])
                    elif 'vector' not in m:
                        p = R.add(p, R.mul(c[3][k], v[3]))
                    out.append(p)
                return out
            if m in ('col', 'row') and 'Mat4' in n and isinstance(cval(args[1]), int):
                c = self.mat(args[0])
                return c[cval(args[1])] if m == 'col' else [c[j][cval(args[1])] for j in range(4)]
            if m in ('truncate', 'xyz'):
                return self.vec(args[0])[:3] + [{}]
            if m == 'extend' and len(args) == 2:
                return self.vec(args[0])[:3] + [self.sca(args[1])]
            if m in ('new', 'vec3', 'vec4') and 'ec' in n and len(args) in (3, 4):
                return ([self.sca(x) for x in args] + [{}])[:4]
            h = n[1:].split(' as ')[-1].split('>')[0].split('<')[0] if n.startswith('<') else ''
            if h in ('Mul', 'Div', 'MulAssign', 'DivAssign') and len(args) == 2:
                if isscalar(args[1]):
                    s = self.sca(args[1])
                    s = self.inv(s) if h.startswith('Div') else s
                    return [R.mul(x, s) for x in self.vec(args[0])]
                if isscalar(args[0]) and h.startswith('Mul'):
                    return [R.mul(x, self.sca(args[0])) for x in self.vec(args[1])]
        return None

    def ismat(self, e, seen=()):
        e = target(e)
        if e.op == 'call':
            n = e.a[0]
            return 'Mat4' in n and n.split('::')[-1] in MATFNS and not (n.startswith('<Mat4 as Mul') and isvec(e.a[1][1]))
        if e.op in ('elem', 'ld', 'pj'):
            loc = self.C.place(e)
            return loc is not None and loc[0] in ('matrices', 'it') and not loc[2]
        if e.op == 'phi' and e in self.C.inner_phi and e not in seen:
            return any(self.ismat(self.C.q.canon(v), seen + (e,)) for v in self.C.it.phi_in[e].values() if v is not e)
        if e.op == 'upd':
            return self.ismat(e.a[0], seen)
        return e.op in ('agg', 'constitem', 'glob') and 'Mat4' in str(e.a[0])

    # -- matrices as columns
    def mat(self, e):
        C, R = self.C, self.R
        k = ('mat', e)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = r = self._mat(e)
        return r

    def _mat(self, e):
        C, R = self.C, self.R
        e = target(e)
        if e.op in ('elem', 'ld', 'pj'):
            loc = C.place(e)
            if loc is not None and loc[0] in ('matrices', 'it') and not loc[2]:
                return [[R.atom(mk('m', loc[0], loc[1], c, k)) for k in range(4)] for c in range(4)]
        if e.op == 'phi' and e in C.inner_phi:
            v = C.closed(e, self, 16)
            return [v[4 * c:4 * c + 4] for c in range(4)]
        if e.op == 'upd':
            cols = [list(c) for c in self.mat(e.a[0])]
            for pa, val in e.a[1]:
                c = column(pa[:1])
                if c is None:
                    raise Bad('matrix updated at %s' % (pa,))
                if len(pa) == 1:
                    cols[c] = self.vec(val)
                else:
                    cols[c][axis(pa[1:])] = self.sca(val)
            return cols
        if e.op == 'agg' and 'Mat4' in str(e.a[0]) and len(e.a[2]) == 4:
            return [self.vec(x) for x in e.a[2]]
        if e.op in ('constitem', 'glob', 'ld') and 'Mat4' in str(e.a[0]):
            s = str(e.a[0]).split('::')[-1]
            if s in ('ZERO', 'IDENTITY'):
                return [[R.const(1 if s == 'IDENTITY' and c == k else 0) for k in range(4)] for c in range(4)]
        if e.op == 'call':
            n, args = e.a[0], e.a[1]
            m = n.split('::')[-1]
            if m == 'from_cols' and len(args) == 4:
                return [self.vec(x) for x in args]
            h = n[1:].split(' as ')[-1].split('>')[0].split('<')[0] if n.startswith('<') else ''
            if (h in ('Add', 'AddAssign') or m == 'add_mat4') and len(args) == 2:
                a, b = self.mat(args[0]), self.mat(args[1])
                return [[R.add(x, y) for x, y in zip(p, q)] for p, q in zip(a, b)]
            if (h in ('Sub', 'SubAssign') or m == 'sub_mat4') and len(args) == 2:
                a, b = self.mat(args[0]), self.mat(args[1])
                return [[R.add(x, y, -1) for x, y in zip(p, q)] for p, q in zip(a, b)]
            if (h in ('Mul', 'MulAssign', 'Div', 'DivAssign') or m in ('mul_scalar', 'div_scalar')) and len(args) == 2:
                a, b = args
                if self.ismat(b) and not self.ismat(a):
                    a, b = b, a
                if not self.ismat(b):
                    s = self.sca(b)
                    s = self.inv(s) if 'iv' in h or m == 'div_scalar' else s
                    return [[R.mul(x, s) for x in p] for p in self.mat(a)]
            if m in ('clone', 'from', 'into') and len(args) == 1:
                return self.mat(args[0])
        raise Bad('not a matrix formula: %s ' % show(e)[:160])


def target(e):
    """what a reference refers to"""
    while True:
        if e.op in ('&', 'deref'):
            e = e.a[0]
        elif e.op == 'ref' and e.a[0][0][0] == 'M' and isinstance(e.a[0][0][1], E):
            e = rebase(e.a[0][0][1], e.a[0][1])
        else:
            return e


def axis(path):
    if len(path) != 1:
        return None
    k = path[0]
    x = k[1]
    if k[0] == 'i':
        return cval(x) if isinstance(x, E) else x
    x = str(x)
    return {'x': 0, 'y': 1, 'z': 2, 'w': 3}.get(x, int(x) if x.isdigit() else None)


def column(path):
    if len(path) != 1 or path[0][0] != 'f':
        return None
    x = str(path[0][1])
    c = {'x_axis': 0, 'y_axis': 1, 'z_axis': 2, 'w_axis': 3}.get(x, int(x) if x.isdigit() else None)
    return c if c is not None and c < 4 else None


def entry(path):
    if len(path) == 2:
        c, k = column(path[:1]), axis(path[1:])
        if c is not None and k is not None:
            return c, k
    return None


def parts(e):
    """value and trailing projections"""
    path = ()
    while e.op == 'pj' or (e.op == 'ld' and e.a[0].op in ('call', 'agg', 'upd')):
        p = e.a[1]
        path = (p if p and isinstance(p[0], tuple) else (p,)) + path
        e = e.a[0]
    return e, path


def isvec(e):
    while e.op in ('&', 'deref'):
        e = e.a[0]
    if e.op == 'call':
        n = e.a[0]
        return 'Vec' in n and 'Mat4' not in n
    return e.op == 'agg' and 'Vec' in str(e.a[0])


def isscalar(e):
    if e.op in ('fconst', 'const', 'fAdd', 'fSub', 'fMul', 'fDiv', 'fneg'):
        return True
    return False


class Case:
    def __init__(self, rep, name, N, nrm, tan, inv, asm):
        self.rep, self.name, self.N = rep, name, N
        a = assume(asm, {})
        self.it = interp('SkinningJob::run', rep=rep, tag='c15 ' + name, assume=a)
        if self.it is None:
            raise Bad('function not found')
        self.q = Q(self.it, norm=norm)
        self.S = Sweeps(self.q)
        k = Job('SkinningJob')
        self.vc = self.q.canon(k.f('vertex_count'))
        self.bufs = {}
        for n, f in (('matrices', 'joint_matrices'), ('it', 'joint_it_matrices'), ('indices', 'joint_indices'), ('weights', 'joint_weights')) + \
                tuple((x, x) for x in ('in_positions', 'in_normals', 'in_tangents', 'out_positions', 'out_normals', 'out_tangents')):
            self.bufs[self.q.canon(mk('pay', mk('buf', k.obj(f))))] = n
        self.env = {}
        self.h = None
        self.inner_phi = {}

    # -- places
    def place(self, e):
        """(array name, index, path inside) of a value read from one of the job's arrays"""
        r, p = unproj(target(e))
        for k in range(len(p)):
            if p[k][0] != 'i':
                continue
            b = self.q.canon(self.S.P.sub(rebase(r, p[:k]), self.env))
            b = strip(b)
            off = const(0)
            if b.op == 'slice':
                b, off, _ = self.S.window(b)
            n = self.bufs.get(b)
            if n is not None:
                i = p[k][1] if isinstance(p[k][1], E) else const(p[k][1])
                return n, self.index(add(off, i)), p[k + 1:]
        return None

    def index(self, i):
        """an index, with reads of the joint indices named"""
        S, q = self.S, self.q
        i = q.canon(S.P.sub(i, self.env))
        i = S.named(self.h, i)
        for g in self.here:
            i = S.named(g, i)

        def f(x):
            if x.op in ('elem', 'ld', 'pj', 'ref'):
                loc = self.place(x)
                if loc is not None and loc[0] == 'indices':
                    return mk('joint', loc[1])
            if x.op == 'phi' and x in self.inner_phi and x.a[0] not in self.here:
                return self.counter(x)
            return None
        return q.canon(q.subst(i, f, {}))

    here = ()

    # -- loops over influences
    def note_inner(self):
        S = self.S
        for g in S.inner(self.h):
            if g in S.writers:
                raise Bad('a loop inside the vertex loop writes')
            for ph in S.P.phis.get(g, ()):
                self.inner_phi[ph] = g
            if S.inner(g):
                raise Bad('loops nested three deep')

    def counter(self, ph):
        """value of a counter after its loop"""
        g = self.inner_phi[ph]
        i = self.q.induction(ph)
        if i is None:
            raise Bad('%s is not a counter' % show(ph))
        return add(self.outside(i[0]), mul(self.count(g), i[1]))

    def outside(self, v):
        return self.S.named(self.h, self.S.P.sub(v, self.env))

    def count(self, g):
        """how often loop g goes round"""
        S, q = self.S, self.q
        k = ('count', g)
        if k in self.memo:
            return self.memo[k]
        sw = S.sweep(g)
        ns = set()
        for conds, p in sw.exits:
            cs = {self.outside(c) for c in conds}
            if not self.goes_on(p, g):
                continue
            found = None
            for c in cs:
                for d in ([c] if c.op in ('le0', 'eq0') else []):
                    lp, _ = lin_parts(d.a[0])
                    if lp.get(ix(g)) in (1, -1):
                        m = add(d.a[0], ix(g)) if lp[ix(g)] == -1 else sub(ix(g), d.a[0])
                        if d.op == 'eq0' or lp[ix(g)] == -1:
                            found = m if not mentions(m, lambda x: x is ix(g)) else found
            if found is None:
                raise Bad('the loop over influences can end at an unknown count')
            ns.add(found)
        if len(ns) != 1:
            raise Bad('the loop over influences ends at %s' % [show(x) for x in ns])
        n = ns.pop()
        if settled(le0(n)) is True:
            n = const(0)
        elif settled(le0(sub(const(0), n))) is not True:
            raise Bad('number of rounds may be negative: %s' % show(n))
        for s in sw.steps:
            if not implied(le0(sub(add(ix(g), const(1)), n)), known({self.outside(c) for c in s.conds})) and n is not const(0):
                raise Bad('the loop over influences can go on after %s rounds' % show(n))
        self.memo[k] = n
        return n

    def goes_on(self, p, g):
        """does the exit lead on to the rest of the vertex (rather than out of the vertex loop)"""
        return p.end in self.S.outer[self.h]

    def closed(self, ph, L, width):
        """lanes of an accumulator after its loop: start + sum of what every round adds"""
        S, q, it = self.S, self.q, self.it
        g = self.inner_phi[ph]
        k = ('closed', ph, width)
        if k in self.memo:
            return self.memo[k]
        val = lambda v, M: [M.sca(v)] if width == 1 else M.vec(v) if width == 4 else [x for c in M.mat(v) for x in c]
        n = self.count(g)
        init = {q.canon(v) for p, v in it.phi_in[ph].items() if p not in S.outer[g] and p in q.live}
        if len(init) != 1:
            raise Bad('an accumulator has several starting values')
        start = val(self.outside(init.pop()), L)
        if n is const(0):
            self.memo[k] = start
            return start
        outer_here, self.here = self.here, self.here + (g,)
        steps = []
        for s in S.sweep(g).steps:
            v = s.env.get(ph, ph)
            M = Inside(self, ph, g, width)
            steps.append((val(S.named(g, v), M), val(ph, M), M))
        self.here = outer_here
        if not steps:
            raise Bad('the loop over influences has no round')
        terms = []
        for now, before, M in steps:
            t = [M.R.add(a, b, -1) for a, b in zip(now, before)]
            if any(x.op == 'acc' for p in t for m in p for a in m for x in walk(a)):
                raise Bad('a round of the loop over influences does more than add a term')
            terms.append(t)
        if any(pkey(a) != pkey(b) for t in terms for a, b in zip(t, terms[0])):
            raise Bad('rounds of the loop over influences differ')
        out = [L.R.add(a, total(L.R, t, g, n)) for a, t in zip(start, terms[0])]
        self.memo[k] = out
        return out

    memo = None


class Inside(Mats):
    """inside a round: the accumulator is unknown"""

    def __init__(self, C, ph, g, width):
        Mats.__init__(self, C)
        self.ph, self.g, self.width = ph, g, width

    def scalar(self, e):
        if e.op == 'phi' and e.a[0] == self.g and e in self.C.inner_phi and self.C.q.induction(e) is None:
            return self.R.atom(mk('acc', e, 0))
        return Mats.scalar(self, e)

    def operand(self, e):
        if e.op == 'phi' and e.a[0] == self.g and e in self.C.inner_phi:
            return [self.R.atom(mk('acc', e, k)) for k in range(4)]
        return Mats.operand(self, e)

    def _mat(self, e):
        if e.op == 'phi' and e.a[0] == self.g and e in self.C.inner_phi:
            return [[self.R.atom(mk('acc', e, 4 * c + k)) for k in range(4)] for c in range(4)]
        return Mats._mat(self, e)


def rebase(r, p):
    v = r
    for x in p:
        v = mk('elem', v, x[1]) if x[0] == 'i' else mk('pj', v, x)
    return v


def total(R, t, g, n):
    """sum over ix(g) = 0..n-1 of polynomial t, written with sums over j = 0..  : sum(term(j), up to) """
    out = {}
    for mono, c in t.items():
        out = R.add(out, sums(R, mono, c, g, n))
    return out


J = mk('nat', 'j')


def at_index(a, g, i):
    def go(x):
        if not isinstance(x, E):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x is ix(g):
            return i
        na = tuple(go(y) for y in x.a)
        return rebuild(x, na) if any(p is not q for p, q in zip(na, x.a)) else x
    return go(a)


def sums(R, mono, c, g, n):
    if isinstance(cval(n), int):
        out = {}
        for k in range(cval(n)):
            out = R.add(out, {tuple(sorted(at_index(a, g, const(k)) for a in mono)): c})
        return out
    return R.mul(R.const(c), R.atom(mk('sum', n, tuple(sorted(at_index(a, g, J) for a in mono)))))


def run(rep):
    rep.rule('weighted sum', 'out = (sum_j w_j M_{i_j} + (1 - sum_j w_j) M_{i_last}) applied to the input, points with and directions without translation')
    rep.rule('vertices', 'exactly the first vertex_count elements of each output array are written, each from the element of the same number')
    rep.rule('missing joints', 'an influence naming a joint without a matrix ends the run with an error')
    n = 0
    for sc in scenarios():
        n += 1
        try:
            scenario(rep, *sc)
        except (Bad, Mystery, OverflowError) as x:
            rep.fail('SkinningJob::run [%s]' % sc[0], 'not understood: %s' % x)
    rep.floor('scenarios', n, 30)


def scenario(rep, name, N, nrm, tan, inv, asm):
    C = Case(rep, name, N, nrm, tan, inv, asm)
    C.memo = {}
    q, S = C.q, C.S
    tops = [h for h in S.inner(None) if h in S.writers]
    where = '[%s] ' % name
    if not rep.ob(len(tops) == 1, where + 'one vertex loop', 'expected one loop that writes vertices, found %d' % len(tops)):
        return
    h = C.h = tops[0]
    C.note_inner()
    entries = [p for p in S.paths(0, {h}) if p.end == h and not p.cyclic]
    if not rep.ob(len(entries) >= 1, where + 'reached', 'the vertex loop is never reached'):
        return
    outs = ['out_positions'] + (['out_normals'] if nrm else []) + (['out_tangents'] if tan else [])
    for e in entries:
        C.env = e.env
        C.memo = {}
        vertex(rep, C, where, outs, N, inv)
    extra = [x for b, es in S.stores.items() if b not in S.outer[h] for x in es if any(k[0] == 'i' for k in x['loc'][1])]
    rep.ob(not extra and not S.bulk, where + 'other writes', 'elements are written outside the vertex loop')


def vertex(rep, C, where, outs, N, inv):
    S, q, h = C.S, C.q, C.h
    sw = S.sweep(h)
    i = ix(h)
    rep.ob(len(sw.steps) >= 1, where + 'ways through a vertex', 'no vertex is ever finished')
    rep.count('ways through a vertex', len(sw.steps))
    for s in sw.steps:
        cs = {C.outside(c) for c in s.conds}
        rep.ob(implied(le0(sub(add(i, const(1)), C.vc)), known(cs)), where + 'range', 'a vertex beyond the number of vertices is written')
    missing = set()
    regular = 0
    for conds, p in sw.exits:
        cs = {C.outside(c) for c in conds}
        m = absent(C, cs, conds)
        if ends_at(cs, C.vc, i, set()):
            regular += 1
            continue
        if rep.ob(bool(m), where + 'early end', 'the run can end before the last vertex although every joint exists: %s' % [show(c)[:90] for c in cs][-3:]):
            missing |= m
            rep.ob(fails(C, p), where + 'missing joint', 'an influence naming a missing joint does not make the run fail')
    rep.ob(regular >= 1, where + 'ends', 'the vertex loop has no regular end')
    offs, woff = mul(i, N), mul(i, sub(N, const(1)))
    for s in sw.steps:
        C.here = ()
        got = {}
        L = Mats(C)
        for (base, path), v in s.writes.items():
            b = strip(q.canon(S.P.sub(base, C.env)))
            n = C.bufs.get(b)
            if not rep.ob(n in outs, where + 'written array', 'writes to %s' % (n or show(b)[:80])):
                continue
            w = path[0][1] if path and path[0][0] == 'i' else None
            w = C.outside(w) if isinstance(w, E) else w
            if not rep.ob(w is i, where + n + ': element', 'element %s is written for vertex %s' % (show(w)[:80] if isinstance(w, E) else w, show(i))):
                continue
            v = C.outside(v)
            rest = path[1:]
            if not rest:
                for k, x in enumerate(L.vec(v)[:3]):
                    got[(n, k)] = x
            else:
                got[(n, axis(rest))] = L.sca(v)
        for n in outs:
            want = formula(L.R, n, i, offs, woff, N, inv)
            for k in range(3):
                g = got.get((n, k))
                if not rep.ob(g is not None, where + n, 'component %d is not written' % k):
                    continue
                d = L.R.add(g, want[k], -1)
                d = settle_sums(L.R, d, N)
                rep.ob(not d, where + n, 'component %d is %s, expected %s' % (k, show_poly(g)[:500], show_poly(want[k])[:500]))
        rep.count('vertex formulas compared')
    # every joint that is read is looked up with an error for a missing one
    reads = {x for x in joints_read(C, sw)}
    rep.ob(reads <= missing, where + 'lookup', 'no error for a missing joint at %s' % [show(x[1])[:60] for x in reads - missing][:3])


def formula(R, n, i, offs, woff, N, inv):
    src = 'it' if inv and n != 'out_positions' else 'matrices'
    v = [R.atom(mk('v', 'in' + n[3:], i, k)) for k in range(3)]
    point = n == 'out_positions'

    def apply(j):
        out = []
        for k in range(3):
            p = {}
            for c in range(3):
                p = R.add(p, R.mul(R.atom(mk('m', src, mk('joint', add(offs, j)), c, k)), v[c]))
            if point:
                p = R.add(p, R.atom(mk('m', src, mk('joint', add(offs, j)), 3, k)))
            out.append(p)
        return out
    last = sub(N, const(1))
    W = lambda j: R.atom(mk('w', add(woff, j)))
    if isinstance(cval(N), int):
        n1 = cval(N) - 1
        rest = R.const(1)
        out = [{}] * 3
        for j in range(n1):
            rest = R.add(rest, W(const(j)), -1)
            out = [R.add(a, R.mul(W(const(j)), b)) for a, b in zip(out, apply(const(j)))]
        return [R.add(a, R.mul(rest, b)) for a, b in zip(out, apply(const(n1)))]
    g = 'spec'
    wj = mk('w', add(woff, J))
    total_w = R.atom(mk('sum', last, (wj,)))
    rest = R.add(R.const(1), total_w, -1)
    out = []
    a = apply(last)
    for k in range(3):
        p = {}
        for c in range(4 if point else 3):
            m = mk('m', src, mk('joint', add(offs, J)), c, k)
            s = R.atom(mk('sum', last, tuple(sorted((wj, m)))))
            p = R.add(p, R.mul(s, v[c]) if c < 3 else s)
        out.append(R.add(p, R.mul(rest, a[k])))
    return out


def settle_sums(R, p, N):
    """sums over parts of the influences, written as the sum over j = 0..N-2 and single terms: a term t(j + s) summed over j = 0..n-1 is
    the sum of t(j) over j = s..s+n-1"""
    if isinstance(cval(N), int):
        return p
    last = sub(N, const(1))

    def one(a):
        if a.op != 'sum':
            return R.atom(a)
        n, mono = a.a
        s = None
        for x in mono:
            if x.op == 'w':
                lp, k = lin_parts(x.a[0])
                s = k
        if s is None:
            return R.atom(a)

        def moved(k):
            return tuple(sorted(at_j(x, add(J, k)) for x in mono))

        def term(k):
            return {tuple(sorted(at_j(x, k) for x in mono)): 1}
        base = moved(const(-s))
        # t0(j) = mono(j - s); sum_{j=0}^{n-1} mono(j) = sum_{j=s}^{s+n-1} t0(j)
        up = add(n, const(s))
        d = cval(sub(last, up))
        if not isinstance(d, int) or abs(d) > 16 or s < 0 or s > 16:
            return R.atom(a)
        out = R.atom(mk('sum', last, base))
        for k in range(s):
            out = R.add(out, term(const(k - s)), -1)
        for k in range(abs(d)):
            t = term(sub(sub(last, const(s)), const(k + 1))) if d > 0 else term(add(sub(last, const(s)), const(k)))
            out = R.add(out, t, -1 if d > 0 else 1)
        return out
    r = {}
    for mono, c in p.items():
        t = R.const(c)
        for a in mono:
            t = R.mul(t, one(a))
        r = R.add(r, t)
    return r


def at_j(a, i):
    def go(x):
        if not isinstance(x, E):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x is J:
            return i
        na = tuple(go(y) for y in x.a)
        return rebuild(x, na) if any(p is not q for p, q in zip(na, x.a)) else x
    return go(a)


def absent(C, cs, conds):
    """lookups that found no joint: {(array, index)}"""
    out = set()
    for c in cs:
        for d in disjuncts(c):
            if d.op != 'le0':
                continue
            lp, k = lin_parts(d.a[0])
            pos = [a for a, v in lp.items() if v == 1]
            neg_ = [a for a, v in lp.items() if v == -1]
            if len(pos) == 1 and len(neg_) == 1 and pos[0].op == 'len' and k == 0:
                n = C.bufs.get(strip(pos[0].a[0]))
                loc = C.place(neg_[0]) if neg_[0].op in ('elem', 'ld', 'pj') else None
                if n in ('matrices', 'it') and loc is not None and loc[0] == 'indices':
                    with_inner(C)
                    out.add((n, C.index(neg_[0])))
    return out


def with_inner(C):
    C.here = tuple(C.S.inner(C.h))


def joints_read(C, sw):
    S, q = C.S, C.q
    out = set()

    def scan(v):
        for x in walk(v):
            if x.op in ('elem', 'ld', 'pj', 'ref'):
                loc = C.place(x)
                if loc is not None and loc[0] in ('matrices', 'it'):
                    out.add((loc[0], loc[1]))
    C.here = tuple(S.inner(C.h))
    for s in sw.steps:
        for v in s.writes.values():
            scan(C.outside(v))
    for g in C.here:
        for s in S.sweep(g).steps:
            for v in s.env.values():
                if isinstance(v, E):
                    scan(S.named(g, C.outside(v)))
        for ph in S.P.phis.get(g, ()):
            for p, v in C.it.phi_in[ph].items():
                if p not in S.outer[g] and p in q.live:
                    scan(C.outside(v))
    C.here = ()
    return out


def fails(C, p):
    """every way on from an exit returns an error"""
    S, q, it = C.S, C.q, C.it
    rets = {e['block']: e for e in returns(q)}
    ways = [p] if p.end in rets else [x for x in S.paths(p.end, set(rets), conds=p.conds, env=p.env) if not x.cyclic]
    for x in ways:
        e = rets.get(x.end)
        if e is None:
            return False
        v = S.P.sub(e['value'], x.env)
        d = q.canon(it.discr(v))
        if cval(d) != 1:
            return False
    return bool(ways)
