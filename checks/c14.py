"""C14: the aim IK job sets both outputs, to the documented rotation."""
from fp import *
from spec import fields
from functools import lru_cache
import multiprocessing, os

NOTE = ('IKAimJob::run is interpreted abstractly with everything but sine and cosine inlined; every loop-free path to a successful return is taken apart into the cases of the '
        'comparisons it and the definition depend on, and in each case both outputs are compared with the definition by fingerprint of their real-number normal form '
        '(field evaluation at random points, checks/fp.py). Rounding and NaN are outside.')


FIELDS = [{}]


@lru_cache(None)
def field(e):
    """name (and index) of the field of the job an expression is"""
    root, path = unproj(e)
    if root is not mk('arg', 1) or not path or path[0][0] != 'f':
        return None
    out = [FIELDS[0].get(path[0][1], path[0][1])]
    for p in path[1:]:
        if p == ('f', 'cols'):
            out[0] = out[0]
            continue
        k = num(p[1]) if p[0] in ('i', 'ci', 'f') and len(p) > 1 else None
        if not isinstance(k, int):
            return None
        out.append(k)
    return out


JOBS = [None]


def work(i):
    ik, paths = JOBS[0]
    ik.rep = r = Report('part')
    ik.path(paths[i], i)
    return list(r.failures.items()), r.discharged, r.counts.get('cases', 0)


class Ik:
    """cases of one job compared with a definition"""

    def __init__(self, rep, key, scalars, mats, outs, define):
        self.rep, self.key = rep, key
        self.scalars, self.mats, self.outs, self.define = scalars, mats, outs, define
        it = interp(key, rep=rep, opaque=lambda k, fn: k.split('::')[-1] in OPAQUE, tag='ik', straight=True)
        if not rep.ob(it is not None, key, 'function not found'):
            return
        FIELDS[0] = fields(key.split('::')[0])
        self.it, self.q = it, Q(it, norm=norm_idx)
        self.S = Sweeps(self.q)
        rets = {e['block'] for e in returns(self.q)}
        try:
            paths = [p for p in self.S.paths(it.body.entry, rets) if p.end in rets]
        except OverflowError as x:
            rep.fail(key, str(x))
            return
        good = []
        for p in paths:
            ret = next(e for e in returns(self.q) if e['block'] == p.end)
            v = self.S.P.sub(it.valarg(ret['state'], ret['value']), p.env)
            if v.op == 'agg' and v.a[0].endswith('Err') or 'Err' in show(v, 3).split('(')[0]:
                continue
            good.append(p)
        JOBS[0] = (self, good)
        # the paths are independent of each other: one process for some of them each
        with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
            for fails, n, cases_ in pool.imap(work, range(len(good)), chunksize=1):
                for k, m in fails:
                    rep.fail(k, m)
                for _ in range(n):
                    rep.ob(True, key)
                rep.count('cases', cases_)
        rep.floor('successful paths of ' + key, len(good), 5)

    def prints(self, ora):
        L = Prints(self.it, self.q, ora, opaque=OPAQUE)

        def leaf(e):
            f = field(e)
            if f is None:
                return None
            if len(f) == 1 and f[0] in self.scalars:
                return L.R.atom(mk('in', f[0], -1))
            if len(f) == 2 and f[0] not in self.mats:
                return L.R.atom(mk('in', f[0], f[1]))
            if len(f) == 3:
                return L.R.atom(mk('in', '%s.%d' % (f[0], f[1]), f[2]))
            return None

        def vleaf(e, i):
            f = field(e)
            if f is None:
                return None
            if len(f) == 1 and f[0] not in self.mats:
                return L.R.atom(mk('in', f[0], i))
            if len(f) == 2 and f[0] in self.mats:
                return L.R.atom(mk('in', '%s.%d' % (f[0], f[1]), i))
            return None
        L.uleaf, L.user = leaf, vleaf
        return L

    def given(self, L):
        A = lambda n, i: L.R.atom(mk('in', n, i))
        g = {'L': L}
        return lambda n: A(n, -1) if n in self.scalars else [[A('%s.%d' % (n, j), i) for i in range(4)] for j in range(4)] if n in self.mats else [A(n, i) for i in range(3)]

    def path(self, p, n):
        rep, key = self.rep, self.key
        w = {}
        for (b, pa), v in self.S.writes(p).items():
            f = [FIELDS[0].get(x[1], x[1]) for x in pa]
            if not rep.ob(b is mk('arg', 1) and len(f) == 1 and f[0] in self.outs, key, 'writes %s of %s' % (f, show(b)[:60])):
                return
            w[f[0]] = v
        for o in self.outs:
            if not rep.ob(o in w, '%s %s' % (key, o), 'not set on a successful path: blocks %s' % (p.blocks[-4:],)):
                return

        for o, ty in self.outs.items():
            try:
                bad = self.output(p, o, ty, w[o])
            except Mystery as x:
                rep.fail(key, 'not understood: %s' % str(x)[:200])
                return
            except OverflowError as x:
                rep.fail(key, str(x))
                return
            if bad:
                rep.fail('%s %s' % (key, o), 'is not what is documented: %s; path conditions %s' % (bad, '; '.join(show(c)[:70] for c in p.conds)[:400]))

    def one(self, p, o, ty, value, ora):
        """outcome of one case: None when it does not concern the path"""
        L = self.prints(ora)
        v = V(L)
        self.facts(v)
        for c in p.conds:
            if not L.truth(c):
                return None
        try:
            want = self.define(v, self.given(L), o)
        except Infeasible:
            return None
        if ty == 'bool':
            got = L.truth(value)
            return got == bool(want), '%s instead of %s' % (got, want)
        got = L.vec(value)
        return got == [x % P for x in want], 'components %s differ' % [i for i in range(4) if got[i] != want[i] % P]

    def facts(self, v):
        g = self.given(v.L)
        for m in self.mats:
            v.inverse(g(m))

    def output(self, p, o, ty, value, signs=None, depth=0):
        """what is wrong about one output on one path, case by case"""
        def go(script):
            ora = Oracle(1, script, signs)
            return ora.taken, (ora, self.one(p, o, ty, value, ora))
        for taken, (ora, res) in cases(go):
            if res is None:
                continue
            if not depth:
                self.rep.count('cases')
            if res[0]:
                self.rep.ob(True, self.key)
                continue
            why = res[1]
            if ora.rough:
                res = self.again(p, o, ty, value, taken, signs)
                if res is None or res[0]:
                    continue
            if depth < 3 and ora.signs != (signs or {}):
                # with everything this case has settled known from the start
                why = self.output(p, o, ty, value, ora.signs, depth + 1)
                if not why:
                    continue
            return why
        return None

    def again(self, p, o, ty, value, taken, signs):
        """the same case at points where every square root squares back"""
        if signs:
            return None, None
        for seed in range(10, 2000):
            ora = Oracle(seed, list(taken))
            res = self.one(p, o, ty, value, ora)
            if ora.taken == taken and not ora.rough:
                return res
        return False, 'no point found'


def aim(v, g, out):
    f, o, up, pole = g('forward'), g('offset'), g('up'), g('pole_vector')
    inv = v.inverse(g('joint'))
    t = v.point(inv, g('target'))
    r2 = v.dot(t, t)
    ao = v.dot(f, o)
    ac2 = (v.dot(o, o) - ao * ao) % P
    reached = not v.o.lt(r2, ac2)
    if out == 'reached':
        return reached
    if not reached or v.o.eq(r2, 0):
        return IDENTITY
    fo = v.add(o, v.scale(f, v.sqrt(r2 - ac2) - ao))
    q = v.between(fo, t)
    u = v.rotate(q, up)
    ref, nor = v.cross(v.vector(inv, pole), t), v.cross(u, t)
    ref2, nor2 = v.dot(ref, ref), v.dot(nor, nor)
    axis = v.scale(t, pow(v.sqrt(r2), P - 2, P))
    plane = IDENTITY
    if not v.o.eq(nor2, 0) and not v.o.eq(ref2, 0):
        c = v.div(v.dot(nor, ref), v.sqrt(nor2) * v.sqrt(ref2) % P)
        a = v.scale(axis, -1) if v.o.lt(v.dot(ref, u), 0) else axis
        plane = v.about_cos(a, v.clamp(c, -1, 1))
    q = v.qmul(plane, q)
    tw = g('twist_angle')
    if not v.o.eq(tw, 0):
        q = v.qmul(v.about(axis, tw), q)
    return v.toward(q, g('weight'))


def run(rep):
    rep.rule('complete', 'every successful path stores both outputs and nothing else')
    rep.rule('value', 'in every case both outputs equal the definition')
    Ik(rep, 'IKAimJob::run', ('twist_angle', 'weight'), ('joint',), {'reached': 'bool', 'joint_correction': 'quat'}, aim)
