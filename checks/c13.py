"""C13: the parameters and outputs of the jobs are exact and independent of each other."""
from common import *
from cursor import *
from c22 import Ops, place, CONV
from lanes import same, show_poly
from sweeps import Sweeps
from soa import unproj, Mystery

NOTE = ('Every public accessor of every job is interpreted: what a setter, a clearing or a taking function leaves in the job is handed to every getter, and what the getter then '
        'returns is compared with the value set (lane by lane for vectors and matrices), with the default, or with what it returned before. Conditions on the sampling ratio are decided '
        'for the four kinds of number it can be (below, within, above the range, NaN).')
ID4 = [[1.0 if i == j else 0.0 for i in range(4)] for j in range(4)]
X, Y, Z, O = [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, 0.0]
UNIT = [0.0, 0.0, 0.0, 1.0]
V = 'default of its type'
JOBS = {
    'SamplingJob': {'animation': None, 'context': None, 'ratio': 0.0, 'output': None},
    'BlendingJob': {'skeleton': None, 'context': 'empty context', 'threshold': 0.1, 'layers': [], 'additive_layers': [], 'output': None},
    'LocalToModelJob': {'skeleton': None, 'input': None, 'root': ID4, 'from': -1, 'to': 1024, 'from_excluded': False, 'output': None},
    'SkinningJob': dict({k: None for k in ('joint_matrices', 'joint_it_matrices', 'joint_indices', 'joint_weights', 'in_positions', 'in_normals', 'in_tangents', 'out_positions',
                                          'out_normals', 'out_tangents')}, vertex_count=0, influences_count=0),
    'IKAimJob': {'target': O, 'forward': X, 'offset': O, 'up': Y, 'pole_vector': Y, 'twist_angle': 0.0, 'weight': 1.0, 'joint': ID4, 'joint_correction': UNIT, 'reached': False},
    'IKTwoBoneJob': {'target': O, 'mid_axis': Z, 'pole_vector': Y, 'twist_angle': 0.0, 'soften': 1.0, 'weight': 1.0, 'start_joint': ID4, 'mid_joint': ID4, 'end_joint': ID4,
                     'start_joint_correction': UNIT, 'mid_joint_correction': UNIT, 'reached': False},
    'TrackSamplingJob': {'track': None, 'ratio': 0.0, 'result': V},
    'TrackTriggeringJob': {'track': None, 'from': 0.0, 'to': 0.0, 'threshold': 0.0},
    'MotionBlendingJob': {'layers': [], 'output': V},
}
OUTS = {'IKAimJob': ('joint_correction', 'reached'), 'IKTwoBoneJob': ('start_joint_correction', 'mid_joint_correction', 'reached'), 'TrackSamplingJob': ('result',)}
TAKE = ('take', 'replace', 'insert')
SELF = mk('arg', 1)


def run(rep):
    rep.rule('get', 'a getter returns what its setter was given, whatever else was set before')
    rep.rule('frame', 'a setter, clearing or taking function changes what no other getter returns')
    rep.rule('clear', 'a cleared parameter or output is as in a new job; taking returns the object and leaves none')
    rep.rule('default', 'a new job has the documented settings')
    rep.rule('ratio', 'the sampling ratio is stored limited to 0..1, not a number as 1')
    n = 0
    for job, params in JOBS.items():
        try:
            n += Spec(rep, job, params).all()
        except (Mystery, OverflowError, KeyError, Bad) as x:
            rep.fail(job, 'not understood: %s' % str(x)[:200])
    layers(rep)
    rep.floor('accessors', n, 110)


class Here:
    conds, env = (), {}

    def __init__(self, b):
        self.end = b


class Bad(Exception):
    pass


class Spec:
    def __init__(self, rep, job, params):
        self.rep, self.job, self.params = rep, job, params
        self.have = {f.key.split('::')[1] for f in program().fns if f.key.startswith(job + '::') and f.key.count('::') == 1}
        self.reads_ = {}

    def all(self):
        rep, job = self.rep, self.job
        n = 0
        new = self.made('<%s as Default>::default' % job)
        for g, d in self.params.items():
            if not rep.ob(g in self.have, job, 'no getter %s' % g):
                return 0
            self.reads_[g] = self.reads(g)
            n += 1
        places = {}
        for g, r in self.reads_.items():
            for p in r:
                other = places.setdefault(p[:1], g)
                rep.ob(other == g, '%s::%s' % (job, g), 'reads what %s reads' % other)
        self.new = new
        for g, d in self.params.items():
            self.default(g, d)
        for m in sorted(self.have):
            for pre in ('set_', 'clear_', 'take_'):
                if m.startswith(pre) and (m[len(pre):] in self.params or m == 'clear_outs'):
                    self.mutator(m, pre, m[len(pre):])
                    n += 1
            if m.endswith('_mut') and m[:-4] in self.params:
                self.access(m, m[:-4])
                n += 1
        return n

    # -- interpretation
    def value(self, key, memory=None, tag='', one=True):
        def init(it, st):
            for path, v in memory:
                it._put(st, (('M', SELF), path), v)
        it = interp(key, rep=self.rep, init=init if memory else None, tag=tag)
        if it is None:
            raise Bad('%s not found' % key)
        q = Q(it, norm=norm_idx)
        rets = list(returns(q))
        if len(rets) != 1:
            raise Bad('%s has %d returns' % (key, len(rets)))
        e = rets[0]
        v = q.canon(it.valarg(e['state'], e['value']))
        if one and any(x.op == 'phi' for x in walk(v)):
            S = Sweeps(q)
            ps = [p for p in S.paths(it.body.entry, {e['block']}) if p.end == e['block'] and not any(c is const(False) for c in map(q.canon, p.conds))]
            if len(ps) != 1 and one != 'all':
                raise Bad('%s returns different things' % key)
            v = mk('oneof', *[q.canon(S.P.sub(v, p.env)) for p in ps], *[c for p in ps for c in p.conds])
            v = v if one == 'all' else v.a[0]
        return it, q, e, v

    def made(self, key):
        it, q, e, v = self.value(key)
        if v.op != 'agg':
            raise Bad('%s makes %s' % (key, show(v)[:80]))
        return [((('f', f),), q.canon(it.proj(v, ('f', f)))) for f in self.fields(v)]

    def fields(self, v):
        return list(v.a[1]) if len(v.a) > 2 and v.a[1] else []

    def reads(self, g):
        it, q, e, v = self.value('%s::%s' % (self.job, g), one='all')
        out = set()

        def go(x):
            if x.op in ('ld', 'pj'):
                b, p = unproj(x)
                if b is SELF:
                    out.add(tuple(p))
                    return
            for y in x.a:
                for z in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(z, E):
                        go(z)
        go(v)
        for ev in q.events('store'):
            self.rep.ob(ev['loc'][0][0] != 'M', '%s::%s' % (self.job, g), 'a getter writes')
        if not out:
            raise Bad('%s::%s reads nothing of the job: %s' % (self.job, g, show(v)[:80]))
        return out

    def get(self, g, memory, tag):
        return self.value('%s::%s' % (self.job, g), memory, tag)

    def default(self, g, d):
        it, q, e, v = self.get(g, self.new, 'new')
        self.rep.ob(self.is_const(it, q, v, d), '%s::default %s' % (self.job, g), 'is %s instead of %s' % (show(v)[:120], d))

    def is_const(self, it, q, v, d):
        v = bare(v)
        if d is None:
            return v.op == 'agg' and v.a[0].endswith('None')
        if d == V:
            return v.op == 'call' and v.a[0].endswith('Default>::default')
        if d == []:
            return v.op == 'call' and (v.a[0].split('::')[-1] in ('new', 'default') and 'Vec' in v.a[0])
        if d == 'empty context':
            return v.op == 'agg' and v.a[0].endswith('Some')
        if isinstance(d, bool):
            return v is const(d)
        if isinstance(d, int):
            return cval(v) == d
        if isinstance(d, float):
            R = self.ops(it, q)
            return cval32(v) == f32(d) or same(R.sca(v), R.R.const(d))
        L = self.ops(it, q)
        if isinstance(d[0], list):
            cols = self.columns(it, q, v)
            return all(self.all_same(L, q.canon(c), k) for c, k in zip(cols, d))
        return self.all_same(L, v, d)

    def all_same(self, L, v, d):
        got = L.vec(v)
        return all(same(got[i], L.R.const(d[i])) for i in range(len(d)))

    def columns(self, it, q, v):
        v = bare(v)
        while v.op == 'transmute':
            v = bare(v.a[0])
        v = it.proj(v, ('f', 'cols')) if not (v.op == 'agg' and v.a[0] in ('[]', '()')) else v
        return [it.proj(v, ('i', const(j))) for j in range(4)]

    def ops(self, it, q):
        L = Ops(it, q)
        L.simd = True
        return L

    # -- mutators
    def mutator(self, m, pre, g):
        rep, key = self.rep, '%s::%s' % (self.job, m)
        it, q, e, v = self.value(key)
        S = Sweeps(q)
        paths = [p for p in S.paths(it.body.entry, {e['block']}) if p.end == e['block']] if it.body.entry != e['block'] else [Here(e['block'])]
        kinds = [None]
        if (self.job, m) == ('SamplingJob', 'set_ratio'):
            kinds = ['nan', 'below', 'in', 'above']
        elif not rep.ob(len(paths) == 1, key, 'what it does depends on a condition'):
            return
        for kind in kinds:
            live = [p for p in paths if kind is None or all(truth(c, kind) for c in p.conds)]
            if not rep.ob(len(live) == 1, key, 'paths for %s: %d' % (kind, len(live))):
                return
            memory = self.memory(key, it, q, S, live[0])
            if memory is None:
                return
            targets = OUTS.get(self.job, ()) if m == 'clear_outs' else (g,)
            for t in self.params:
                hit = [p for p, _ in memory if any(overlap(p, r) for r in self.reads_[t])]
                if t not in targets:
                    rep.ob(not hit, '%s frame' % key, 'changes %s' % t)
                    continue
                what = '%s -> %s' % (key, t)
                if not rep.ob(bool(hit), what, 'does not change it'):
                    continue
                i2, q2, e2, got = self.get(t, memory, key + (kind or ''))
                if pre == 'set_':
                    self.is_set(what, i2, q2, it, q, got, t, kind)
                elif pre == 'clear_':
                    i3, q3, e3, want = self.get(t, self.new, 'new')
                    want = None if self.params[t] == 'empty context' else self.params[t]
                    rep.ob(self.is_const(i2, q2, got, want), what, 'is %s instead of %s' % (show(got)[:100], want))
                else:
                    rep.ob(self.is_const(i2, q2, got, None), what, 'is %s after it was taken' % show(got)[:100])
            if pre == 'take_':
                r = v
                for _ in range(3):
                    if r.op in ('&', 'deref') or r.op == 'call' and r.a[0].split('::')[-1] in TAKE and r.a[1]:
                        r = r.a[0] if r.op != 'call' else r.a[1][0]
                b, p = unproj(bare(r))
                rep.ob(b is SELF and any(overlap(tuple(p), x) for x in self.reads_[g]), key, 'returns %s' % show(v)[:100])

    def memory(self, key, it, q, S, p):
        out = []
        taken = {}
        for e in q.events('call'):
            n = e['name'].split('::')[-1]
            if n in TAKE and ('Option' in e['name'] or 'mem::' in e['name']):
                b, pa = unproj(bare(q.canon(e['args'][0])))
                new = option() if n == 'take' else q.canon(e['args'][1])
                taken[(b, tuple(pa))] = option(new) if n != 'take' and 'Option' in e['name'] else new
        ret = next(e for e in returns(q) if e['block'] == p.end)
        roots = {loc[0][1] for loc in ret['state'] if loc[0][0] == 'M'}
        for loc, v in ret['state'].items():
            if loc[0][0] != 'M':
                continue
            b, pre = unproj(loc[0][1])
            path = tuple(pre) + tuple(loc[1])
            if not self.rep.ob(b is SELF, key, 'something else is written: %s' % show(loc[0][1])[:80]):
                return None
            v = taken.get((b, path), S.P.sub(v, p.env))
            out.append((path, v))
        return out

    def is_set(self, what, it, q, sit, sq, got, t, kind):
        rep = self.rep
        got = bare(got)
        d = self.params[t]
        if d is None or d == 'empty context':
            ok = got.op == 'agg' and got.a[0].endswith('Some') and bare(got.a[2][0]) is mk('arg', 2)
            rep.ob(ok, what, 'is %s after setting arg2' % show(got)[:100])
            return
        if kind is not None:
            r = number(got, kind)
            rep.ob(r == {'nan': 1.0, 'below': 0.0, 'in': 'x', 'above': 1.0}[kind], what, 'a ratio %s is kept as %s (%s)' % (
                {'nan': 'that is not a number', 'below': 'below 0', 'in': 'within 0..1', 'above': 'above 1'}[kind], r, show(got)[:80]))
            return
        if isinstance(d, list) and d and isinstance(d[0], list) or isinstance(d, list) and d:
            p = place(got)
            if p == (2, (), None):
                rep.ob(True, what)
                return
            L = self.ops(it, q)
            if isinstance(d[0], list):
                ok = True
                for j, c in enumerate(self.columns(it, q, got)):
                    pc = place(q.canon(c))
                    ok &= pc is not None and pc[0] == 2 and (pc[1][-1:] == (('x_axis', 'y_axis', 'z_axis', 'w_axis')[j],) or pc[2] == j)
                rep.ob(ok, what, 'is %s after setting arg2' % show(got)[:100])
                return
            g = L.vec(got)
            for i in range(len(d)):
                w = L.atom(2, (), i)
                rep.ob(same(g[i], w), what, 'component %d is %s' % (i, show_poly(g[i])[:80]))
            return
        ok = got is mk('arg', 2) or place(got) == (2, (), None) or got.op == 'call' and 'OzzIndex' in got.a[0] and got.a[0].endswith('::i32') and bare(got.a[1][0]) is mk('arg', 2)
        rep.ob(ok, what, 'is %s after setting arg2' % show(got)[:100])

    def access(self, m, g):
        key = '%s::%s' % (self.job, m)
        it, q, e, v = self.value(key)
        b, p = unproj(bare(v))
        self.rep.ob(b is SELF and self.reads_[g] == {tuple(p)}, key, 'gives access to %s instead of what %s reads' % (show(v)[:80], g))
        self.rep.ob(not any(loc[0][0] == 'M' for loc in e['state']), key, 'writes')


def option(v=None):
    return mk('agg', 'Some' if v is not None else 'None', (), (v,) if v is not None else ())


def overlap(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def bare(e):
    while e.op in ('&', 'deref', 'asref', 'ref', 'unsize'):
        e = e.a[0]
    return e


def f32(d):
    import struct
    from fractions import Fraction
    return Fraction(struct.unpack('<f', struct.pack('<f', d))[0])


def cval32(v):
    c = fconst(v)
    return None if c is None else f32(c)


# ---------------------------------------------------------------- the ratio
def number(e, kind):
    """'x' for the argument itself (in range), 'lo'/'hi' for it out of range, 'nan', or a float"""
    e = bare(e)
    if e is mk('arg', 2):
        return {'nan': 'nan', 'below': 'lo', 'in': 'x', 'above': 'hi'}[kind]
    c = fconst(e)
    if c is not None:
        return c
    if e.op == 'constitem':
        n = e.a[0].split('::')[-1]
        if n == 'NAN':
            return 'nan'
    if e.op == 'call':
        n = e.a[0].split('::')[-1]
        a = [number(x, kind) for x in e.a[1]]
        if n in ('min', 'max') and len(a) == 2:
            if a[0] == 'nan':
                return a[1]
            if a[1] == 'nan':
                return a[0]
            lt = less(a[0], a[1])
            return (a[0] if lt else a[1]) if n == 'min' else (a[1] if lt else a[0])
        if n == 'clamp' and len(a) == 3:
            if a[0] == 'nan':
                return 'nan'
            return a[1] if less(a[0], a[1]) else a[2] if less(a[2], a[0]) else a[0]
    raise Bad('the ratio is stored as %s' % show(e)[:80])


def less(a, b):
    """a <= b, for the values at hand"""
    rank = {'lo': -1, 'x': 0.5, 'hi': 2}
    ra, rb = rank.get(a, a), rank.get(b, b)
    for r, o in ((a, b), (b, a)):
        if r == 'x' and isinstance(o, float) and 0 < o < 1:
            raise Bad('the ratio is compared with %s' % o)
        if r in ('lo', 'hi') and isinstance(o, float) and not 0 <= o <= 1:
            raise Bad('the ratio is compared with %s' % o)
    return ra <= rb


def truth(c, kind):
    neg = False
    while c.op == 'not':
        neg, c = not neg, c.a[0]
    if c.op == 'call' and c.a[0].endswith('is_nan'):
        r = number(c.a[1][0], kind) == 'nan'
    elif c.op in ('feq', 'flt', 'fle', 'fne', 'fgt', 'fge', 'fcmp', 'cmp'):
        op, a, b = (c.a[0], c.a[1], c.a[2]) if c.op in ('fcmp', 'cmp') else (c.op[1:], c.a[0], c.a[1])
        a, b = number(a, kind), number(b, kind)
        r = compare(op, a, b)
    else:
        raise Bad('condition %s on the ratio' % show(c)[:80])
    return r != neg


def compare(op, a, b):
    op = op.lower()
    if 'nan' in (a, b):
        return op == 'ne'
    le, ge = less(a, b), less(b, a)
    if op in ('lt', 'gt') and 'x' in (a, b) and (0.0 in (a, b) or 1.0 in (a, b)):
        return not (ge if op == 'lt' else le)
    return {'le': le, 'ge': ge, 'lt': not ge, 'gt': not le, 'eq': le and ge, 'ne': not (le and ge)}[op]


def fconst(e):
    if e.op == 'fconst':
        return float(e.a[0])
    return None


# ---------------------------------------------------------------- layers and edges
def layers(rep):
    def made(key, want):
        it = interp(key, rep=rep)
        if not rep.ob(it is not None, key, 'function not found'):
            return
        q = Q(it, norm=norm_idx)
        rets = list(returns(q))
        if not rep.ob(len(rets) == 1, key, 'not a single return'):
            return
        v = q.canon(it.valarg(rets[0]['state'], rets[0]['value']))
        for f, w in want.items():
            x = bare(q.canon(it.proj(v, ('f', f))))
            if w == []:
                ok = x.op == 'call' and 'Vec' in x.a[0] and x.a[0].split('::')[-1] in ('new', 'default')
            elif isinstance(w, float):
                ok = fconst(x) == w
            else:
                ok = x is w
            rep.ob(ok, '%s %s' % (key, f), 'is %s' % show(x)[:80])
    a1, a2 = mk('arg', 1), mk('arg', 2)
    made('BlendingLayer::new', {'transform': a1, 'weight': 0.0, 'joint_weights': []})
    made('BlendingLayer::with_weight', {'transform': a1, 'weight': a2, 'joint_weights': []})
    made('BlendingLayer::with_joint_weights', {'transform': a1, 'weight': 0.0, 'joint_weights': a2})
    made('Edge::new', {'ratio': a1, 'rising': a2})
