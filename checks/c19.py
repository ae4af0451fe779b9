"""C19: motion blending."""
from common import *
from cursor import *
from soa import *
from sweeps import *
from spec import Job
from glamreal import Glam, Unknown, norm, key, show_poly
from real import ONE
from c17 import ok_return
import itertools

NOTE = ('MotionBlendingJob::run is interpreted abstractly; one symbolic round of the loop over the layers gives the new value of every variable it carries, and these are '
        'identified, component by component, with the four sums of the definition by proving inductively that they start at zero and grow by the same polynomial on every '
        'path; the result stored at each return is then compared with the definition as a polynomial over the reals.')


def run(rep):
    rep.rule('layers', 'every layer is visited once; a layer of weight 0 or below changes nothing')
    rep.rule('sums', 'per layer: W += w, L += w |t|, T += w t/|t| (0 for t = 0), R += w q, with -q instead when the sum so far points the other way')
    rep.rule('result', 'translation T L / (|T| W), or 0 when |T| W is 0; rotation R/|R|, or identity when R is 0; scale 1')
    fn = 'MotionBlendingJob::run'
    it = interp(fn, rep=rep)
    if it is None:
        rep.fail(fn, 'function not found')
        return
    M(rep, it).run()


class M:
    def __init__(self, rep, it):
        self.rep, self.it = rep, it
        self.q = Q(it, norm=norm_idx)
        self.S = Sweeps(self.q)
        self.layers = unproj(self.q.canon(Job('MotionBlendingJob').f('layers')))
        self.names = {}               # atom (component of a carried value) -> name of a sum

    # ---------------------------------------------------------- names
    def layer_leaf(self, h):
        q = self.q
        el = unproj(self.q.canon(mk('elem', Job('MotionBlendingJob').f('layers'), ix(h))))
        loc = lambda *fs: (el[0], el[1] + tuple(('f', f) for f in fs))

        def leaf(e):
            if e.op in ('ld', 'pj', 'elem'):
                u = unproj(e)
                if u == loc('weight'):
                    return {(mk('nat', 'w'),): 1}
                if u == loc('delta', 'translation'):
                    return [{(mk('nat', 't', i),): 1} for i in range(3)]
                if u == loc('delta', 'rotation'):
                    return [{(mk('nat', 'q', i),): 1} for i in range(4)]
            if e.op == 'phi':
                d = self.dims.get(e)
                if d is None:
                    return None
                return self.carried(e, 0) if d == 1 else [self.carried(e, i) for i in range(d)]
            return None
        return leaf

    def carried(self, e, i):
        a = mk('elem', e, const(i))
        return {(self.names.get(a, a),): 1}

    def run(self):
        rep, q, S = self.rep, self.q, self.S
        loops = S.inner(None)
        if len(loops) != 1:
            rep.fail('layers', '%d loops, one over the layers expected' % len(loops))
            return
        h = next(iter(loops))
        sw = S.sweep(h)
        n = q.canon(mk('len', Job('MotionBlendingJob').f('layers')))
        bad = covers(sw, n, {le0(sub(const(0), n))})
        rep.ob(bad is None, 'layers', 'the loop over the layers: %s' % bad)
        rep.ob(not any(s.writes for s in sw.steps), 'layers: writes', 'the loop over the layers writes memory')
        # carried values and their dimensions
        phis = sorted({x for x in q.it.phi_in if x.a[0] == h and q.induction(x) is None}, key=lambda e: e.id)
        self.dims = {}
        self.phis = phis
        entry = {}
        g0 = Glam(lambda e: None)
        for x in phis:
            vs = [v for p, v in q.it.phi_in[x].items() if p not in sw.body]
            vs = {q.canon(v) for v in vs}
            if len(vs) != 1:
                continue
            v = next(iter(vs))
            self.dims[x] = g0.dim(v)
            entry[x] = v
        lanes = [(x, i) for x in self.dims for i in range(self.dims[x])]
        start = {}
        for x, i in lanes:
            try:
                start[x, i] = g0.comp(entry[x], i)
            except Unknown:
                start[x, i] = None
        zero = [l for l in lanes if start[l] == {}]
        # new values on every path
        self.h, self.sw = h, sw
        self.steps = sw.steps
        spec = [('W',), ('L',)] + [('T', i) for i in range(3)] + [('R', i) for i in range(4)]
        # W, L and T do not depend on other sums
        self.found = {}
        for s in spec[:5]:
            for l in zero:
                if l not in self.found.values() and self.follows(l, s):
                    self.found[s] = l
                    break
            else:
                rep.fail('sum %s' % self.title(s), 'no variable of the loop is the sum %s' % self.title(s))
                return
        free = [l for l in zero if l not in self.found.values()]
        # the rotation sum: components depend on each other through the sign
        groups = [[(x, i) for i in range(4)] for x in self.dims if self.dims[x] == 4 and all((x, i) in free for i in range(4))]
        singles = [l for l in free if self.dims[l[0]] == 1]
        groups += [list(g) for g in itertools.permutations(singles, 4)] if 4 <= len(singles) <= 6 else []
        for g in groups:
            if self.rotation(g):
                for i in range(4):
                    self.found['R', i] = g[i]
                break
        else:
            rep.fail('sum R', 'no variable of the loop is the weighted sum of the rotations, each taken on the side of the sum so far')
            return
        rep.counts['carried sums'] = len(self.found)
        rep.ob(True, 'sums', sample='sums carried by the loop: %s' % {self.title(s): show(l[0]) for s, l in self.found.items()})
        self.result()

    def title(self, s):
        return s[0] + ('.' + 'xyzw'[s[1]] if len(s) > 1 else '')

    def glam(self, conds):
        g = Glam(self.layer_leaf(self.h))
        g.facts[norm({(mk('nat', 'w'),): 1})[0]] = None
        t = [{(mk('nat', 't', i),): 1} for i in range(3)]
        ln = g.sqrt(g.dot(t, t))
        g.facts[norm(ln)[0]] = '>='                # lengths
        g.facts[norm(g.dot(t, t))[0]] = '>='
        g.learn(conds)
        if g.facts is None:
            return None
        # a length and its square are 0 together
        a, b = norm(ln)[0], norm(g.dot(t, t))[0]
        if '0' in (g.facts[a], g.facts[b]):
            g.facts[a] = g.facts[b] = '0'
        elif '+' in (g.facts[a], g.facts[b]):
            g.facts[a] = g.facts[b] = '+'
        return g

    def new(self, g, s, l):
        return g.comp(self.S.named(self.h, self.S.P.sub(l[0], s.env)), l[1])

    def zero_t(self, p):
        """p with the translation 0"""
        return {m: f for m, f in p.items() if not any(x.op == 'nat' and x.a[0] == 't' for x in m)}

    def follows(self, l, s):
        """the component l grows as the sum s on every path"""
        for st in self.steps:
            try:
                g = self.glam(st.conds)
                if g is None:
                    continue
                R = g.R
                d = R.add(self.new(g, st, l), self.carried(*l), -1)
            except (Unknown, OverflowError):
                return False
            w = {(mk('nat', 'w'),): 1}
            sw = g.sign(w)
            if sw in ('0', '-', '<='):
                if sw == '<=' and any(mk('nat', 'w') in m and len(m) == 1 for m in d):
                    return False
                if d:
                    return False
                continue
            if sw != '+':
                return False
            t = [{(mk('nat', 't', i),): 1} for i in range(3)]
            ln = g.sqrt(g.dot(t, t))
            zero = g.sign(ln) == '0'
            want = w if s == ('W',) else R.mul(w, ln) if s == ('L',) else R.mul(R.mul(w, t[s[1]]), R.inv(ln))
            if zero:
                d = {m: f for m, f in self.zero_t(d).items() if not any(x in next(iter(ln)) for x in m)}
                want = {} if s != ('W',) else want
            elif s[0] == 'T' and g.sign(ln) != '+' and g.facts.get(norm(ln)[0]) not in ('+', '!'):
                return False                       # dividing by a length that may be 0
            if d != want:
                return False
        return True

    def rotation(self, g4):
        dotp = {}
        for i in range(4):
            dotp[tuple(sorted((mk('elem', g4[i][0], const(g4[i][1])), mk('nat', 'q', i))))] = 1
        for st in self.steps:
            try:
                g = self.glam(st.conds)
                if g is None:
                    continue
                R = g.R
                sw = g.sign({(mk('nat', 'w'),): 1})
                ds = [R.add(self.new(g, st, l), self.carried(*l), -1) for l in g4]
            except (Unknown, OverflowError):
                return False
            if sw in ('0', '-', '<='):
                if any(ds):
                    return False
                continue
            if sw != '+':
                return False
            sd = g.sign(dotp)
            side = 1 if sd in ('+', '>=') else -1 if sd in ('-', '<=') else None
            if sd == '0':
                side = 1
            if side is None:
                return False
            if sd == '<=':
                return False                       # at 0 the layer's own side counts
            want = [R.mul({(mk('nat', 'w'),): side}, {(mk('nat', 'q', i),): 1}) for i in range(4)]
            if [dict(d) for d in ds] != want:
                return False
        return True

    # ---------------------------------------------------------- result
    def result(self):
        rep, q, S = self.rep, self.q, self.S
        for s, l in self.found.items():
            self.names[mk('elem', l[0], const(l[1]))] = mk('nat', 'sum', self.title(s))
        at = lambda s: {(mk('nat', 'sum', s),): 1}
        rets = {e['block']: e for e in returns(q)}
        out = unproj(q.canon(Job('MotionBlendingJob').f('output')))
        n = 0
        for p in S.paths(self.it.body.entry, set(rets)):
            if p.end not in rets or p.cyclic or not consistent(p.conds, q):
                continue
            if not ok_return(self.it, q, S.P, rets[p.end], p):
                rep.fail('result', 'a run can fail')
                continue
            g = Glam(self.layer_leaf(self.h))
            R = g.R
            T = [at('T.' + c) for c in 'xyz']
            Rq = [at('R.' + c) for c in 'xyzw']
            t2, r2 = g.dot(T, T), g.dot(Rq, Rq)
            lt, lr = g.sqrt(t2), g.sqrt(r2)
            den = R.mul(lt, at('W'))
            for x in (t2, r2, lt, lr, den, at('W')):
                g.facts[norm(x)[0]] = '>='
            g.learn(p.conds)
            if g.facts is None:
                continue
            f = lambda x: g.facts[norm(x)[0]]
            zt = '0' if '0' in (f(den), f(lt), f(t2)) else '+' if f(den) == '+' else None
            zr = '0' if '0' in (f(r2), f(lr)) else '+' if '+' in (f(r2), f(lr)) else None
            n += 1
            w = {k: v for k, v in self.settled(S.writes(p), out).items()}
            got = {}
            for fld_, d in (('translation', 3), ('rotation', 4), ('scale', 3)):
                e = self.value(w, fld_)
                try:
                    got[fld_] = [g.comp(S.P.sub(e, p.env), i) for i in range(d)] if e is not None else None
                except (Unknown, OverflowError):
                    got[fld_] = None
            want_t = [{}] * 3 if zt == '0' else [R.mul(R.mul(x, at('L')), R.inv(den)) for x in T]
            okt = zt is not None and self.close(g, got['translation'], want_t, zt == '0', T, lt, at('W'))
            rep.ob(okt, 'translation', 'the blended translation is not T L / (|T| W), or 0 when |T| W is 0: %s' % self.text(got['translation']),
                   sample='translation when |T| W is %s' % ('0' if zt == '0' else 'positive'))
            want_r = [R.const(int(i == 3)) for i in range(4)] if zr == '0' else [R.mul(x, R.inv(lr)) for x in Rq]
            rep.ob(zr is not None and got['rotation'] == want_r, 'rotation', 'the blended rotation is not R / |R|, or identity when R is 0: %s' % self.text(got['rotation']),
                   sample='rotation when R is %s' % ('0' if zr == '0' else 'not 0'))
            rep.ob(got['scale'] == [R.const(1)] * 3, 'scale', 'the scale of the result is not 1')
            for k in w:
                if not k:
                    continue
        rep.floor('results compared', n, 4)

    def text(self, ps):
        return [show_poly(p)[:80] for p in ps] if ps else 'nothing'

    def close(self, g, got, want, zero, T, lt, W):
        """equal, dividing |T| out of T/|T| either way"""
        if got is None:
            return False
        if got == want:
            return True
        R = g.R
        alt = [R.mul(R.mul(R.mul(x, {(mk('nat', 'sum', 'L'),): 1}), R.inv(lt)), R.inv(W)) for x in T]
        if not zero and got == alt:
            return True
        # with |T| W = 0, T times anything that is finite: T itself need not be 0 when W is 0, so only 0 counts
        return False

    def settled(self, w, out):
        r = {}
        for (base, path), v in w.items():
            u = unproj(base)
            full = (u[0], u[1] + tuple(path)) if isinstance(u, tuple) else (base, tuple(path))
            if full[0] is out[0] and full[1][:len(out[1])] == out[1]:
                r[full[1][len(out[1]):]] = v
            else:
                self.rep.fail('writes', 'the run writes something other than its output: %s' % show(base)[:80])
        return r

    def value(self, w, f):
        """what is left in field f of the output"""
        e = w.get((('f', f),))
        if e is not None:
            return e
        whole = w.get(())
        if whole is None:
            return None
        if whole.op == 'constitem' and whole.a[0].endswith('Transform3A::IDENTITY'):
            return mk('constitem', {'translation': 'glam::Vec3A::ZERO', 'rotation': 'glam::Quat::IDENTITY', 'scale': 'glam::Vec3A::ONE'}[f])
        if whole.op == 'agg' and whole.a[1] and f in whole.a[1]:
            return whole.a[2][list(whole.a[1]).index(f)]
        if whole.op == 'call' and whole.a[0].split('::')[-1] == 'new' and len(whole.a[1]) == 3:
            return whole.a[1][['translation', 'rotation', 'scale'].index(f)]
        return None
