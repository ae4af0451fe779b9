"""C16: blending: which layers count, with what weight, and the blended transform of every joint."""
from common import *
from cursor import *
from soa import *
from sweeps import *
from spec import Job, at
from real import Real

NOTE = ('BlendingJob::run is interpreted abstractly; every element loop is summarised as a map (old element -> new element) per path through an iteration, lane by lane as '
        'polynomials over the reals; the maps are composed along the loop-free paths between the layer loops and compared with the weighted-average formula; counters and '
        'accumulators carried between layers are checked inductively (start value, change per contributing layer, no change otherwise).')
FIELDS = (('translation', 'xyz'), ('rotation', 'xyzw'), ('scale', 'xyz'))


class Bad(Exception):
    pass


class Terms(Pose):
    """names the operands of a blending step"""

    def __init__(self, B, h, pos, old):
        Pose.__init__(self, B.it, B.q, leaf=self.scalar, vleaf=self.operand)
        self.B, self.h, self.at, self.old = B, h, pos, old

    def scalar(self, e):
        for name, x in self.B.scalars.items():
            if e is x:
                return self.R.atom(mk('nm', name))
        r, p = unproj(e)
        w = self.B.layer_of(e)
        if w is not None and w[1] == (('f', 'weight'),):
            return self.R.atom(mk('nm', 'weight', w[0]))
        if e.op == 'phi':
            s = self.B.role(e)
            if s is not None:
                return self.R.atom(mk('nm', s))
        return None

    def operand(self, e):
        if e.op not in ('pj', 'ld', 'elem', 'phi', 'hvarr', 'transmute'):
            return None
        if e.op == 'transmute':
            return self.operand(e.a[0])
        loc = self.B.place(e)
        if loc is None:
            return None
        base, path = loc
        if len(path) < 1 or path[0][0] != 'i':
            return None
        i = as_e(path[0][1])
        fields = tuple(x[1] for x in path[1:])
        if base is self.B.out or base in self.B.accs:
            if i is not self.at:
                raise Bad('element %s is read instead of %s' % (show(i)[:80], show(self.at)[:80]))
            name = 'out' if base is self.B.out else ('acc', base)
            if self.old is not None:
                r = self.old(name, fields)
                if r is not None:
                    return r
            return [self.R.atom(mk('lane', mk('old', name, fields), k)) for k in range(4)]
        src = self.B.source(base)
        if src is not None:
            if i is not self.at:
                raise Bad('element %s of %s is read instead of %s' % (show(i)[:80], src, show(self.at)[:80]))
            return [self.R.atom(mk('lane', mk('src', src, fields), k)) for k in range(4)]
        return None


def as_e(x):
    return x if isinstance(x, E) else const(x)


class Blend:
    def __init__(self, rep):
        self.rep = rep
        self.key = 'BlendingJob::run'
        self.it = interp(self.key, rep=rep)
        if self.it is None:
            raise Bad('function not found')
        self.q = q = Q(self.it, norm=norm_idx)
        J = Job('BlendingJob')
        self.skel = J.obj('skeleton')
        self.n = q.canon(at('Skeleton::num_soa_joints', self.skel))
        rest = q.canon(at('Skeleton::joint_rest_poses', self.skel))
        self.rest = rest
        self.out = q.canon(mk('pay', mk('buf', J.obj('output'))))
        self.thr = q.canon(J.f('threshold'))
        self.scalars = {'threshold': self.thr}
        self.lists = {}
        for name in ('layers', 'additive_layers'):
            b = strip(q.canon(J.f(name)))
            self.lists[b] = name
        self.accs = set()
        self.roles = {}
        self.S = Sweeps(q)

    # -- names
    def layer_of(self, e):
        """(list name, path) when e is part of the current element of a layer list"""
        r, p = unproj(e)
        full = mk_ld(r, p)
        for base, name in self.lists.items():
            rb, pb = unproj(base)
            if r is rb and p[:len(pb)] == pb and len(p) > len(pb) and p[len(pb)][0] == 'i':
                return name, p[len(pb) + 1:], as_e(p[len(pb)][1])
        return None

    def source(self, base):
        """name of a read-only array"""
        if base is self.rest:
            return 'rest'
        w = self.layer_of(base)
        if w is not None and w[1] == (('f', 'joint_weights'),):
            return ('joint weights', w[0])
        b = base
        if b.op == 'pay' and b.a[0].op == 'buf':
            w = self.layer_of(b.a[0].a[0])
            if w is not None and w[1] == (('f', 'transform'),):
                return ('input', w[0])
        return None

    def place(self, e):
        """(array, path inside) of a value read from an array"""
        r, p = unproj(e)
        if r.op == 'phi' and isinstance(r.a[1], tuple) and r.a[1] and isinstance(r.a[1][0], tuple) and r.a[1][0][0] == 'M':
            return self.q.canon(r.a[1][0][1]), self.cpath(r.a[1][1] + p, r)
        if r.op == 'hvarr' and r.a[1][0] == 'M':
            return self.q.canon(r.a[1][1]), self.cpath(r.a[2] + p, r)
        for k in range(len(p), -1, -1):
            b = mk_ld(r, p[:k])
            b = self.q.canon(b)
            if b is self.out or b in self.accs or self.source(b) is not None:
                return b, p[k:]
        return None

    def cpath(self, p, r):
        return tuple((k[0], self.S.named(self.cur, self.q.canon(k[1])) if self.cur is not None else self.q.canon(k[1])) if k[0] == 'i' and isinstance(k[1], E) else k for k in p)

    cur = None

    def role(self, ph):
        return self.roles.get(ph)


def mk_ld(r, p):
    if not p:
        return r
    if p[0][0] == 'i':
        v = mk('elem', r, as_e(p[0][1]))
        for x in p[1:]:
            v = mk('elem', v, as_e(x[1])) if x[0] == 'i' else mk('pj', v, x)
        return v
    k = next((j for j, x in enumerate(p) if x[0] == 'i'), len(p))
    v = mk('ld', r, p[:k])
    for x in p[k:]:
        v = mk('elem', v, as_e(x[1])) if x[0] == 'i' else mk('pj', v, x)
    return v


def run(rep):
    rep.rule('layers', 'a layer contributes when its weight is above zero, with weight * max(joint weight, 0) (or its weight alone); the first sets, later ones add')
    rep.rule('rest', 'the rest pose fills up to the threshold; sums are divided by max(threshold, accumulated weight), rotations normalised')
    rep.rule('additive', 'additive layers are applied in order, positive ones added and negative ones subtracted')
    try:
        B = Blend(rep)
        blend(rep, B)
    except (Bad, Mystery, OverflowError) as x:
        rep.fail('BlendingJob::run', 'not understood: %s' % x)


def blend(rep, B):
    q, S = B.q, B.S
    tops = [h for h in S.inner(None) if h in S.writers]
    lists = {}
    for h in tops:
        for name in ('layers', 'additive_layers'):
            if reads_list(B, h, name):
                lists.setdefault(name, []).append(h)
    for name in ('layers', 'additive_layers'):
        if not rep.ob(len(lists.get(name, ())) == 1, 'loop over %s' % name, 'expected one loop that blends the %s, found %d' % (name, len(lists.get(name, ())))):
            return
    main, extra = lists['layers'][0], lists['additive_layers'][0]
    if not rep.ob(main != extra, 'separate loops', 'layers and additive layers are blended by the same loop'):
        return
    facts = {c for c in q.conds(main)}
    for f in list(facts):
        if f.op == 'forall':
            for h in (main, extra):
                cur = [ix(h)] + [ph for ph in S.P.phis.get(h, ()) if q.induction(ph) == (const(0), const(1))]
                for i in cur:
                    facts.add(q.subst(f.a[0], lambda x: i if x.op == 'each' else None))
    B.facts = facts
    B.exits = {}
    layers(rep, B, main)
    between(rep, B, main, extra)
    additive(rep, B, extra)


def reads_list(B, h, name):
    base = [b for b, n in B.lists.items() if n == name][0]

    def hit(e):
        w = B.layer_of(e)
        return w is not None and w[0] == name
    for b in B.S.outer[h]:
        for e in B.S.stores.get(b, ()):
            if mentions(q_(B, e['value']), lambda x: isinstance(x, E) and x.op in ('ld', 'pj', 'elem') and hit(x)):
                return True
    return False


def q_(B, v):
    return B.q.canon(v)


# ---------------------------------------------------------------- conditions
def float_sign(c, x):
    """what condition c says about scalar x compared with 0: '>' '<=' '<' '>=' or None"""
    n = False
    while c.op == 'not':
        n, c = not n, c.a[0]
    if c.op != 'fcmp':
        return None
    op, a, b = fcmp_parts(c)
    zero = lambda e: e.op == 'fconst' and e.a[0] == 0
    if op == 'Eq' and (a is x and zero(b) or b is x and zero(a)):
        return None if n else '=='
    if a is x and zero(b):
        r = op
    elif b is x and zero(a):
        r = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op)
    else:
        return None
    r = {'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>='}.get(r)
    return {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[r] if n and r else r


def fcmp_parts(c):
    op, a, b = None, None, None
    for x in c.a:
        if isinstance(x, str):
            op = x
        elif a is None:
            a = x
        else:
            b = x
    return op, a, b


def sign_of(conds, x):
    out = set()
    for c in conds:
        s = float_sign(c, x)
        if s:
            out.add(s)
    return out


def empty_weights(conds, B, name):
    """True/False/None: does the current layer of the list have no joint weights"""
    for c in conds:
        n = False
        d = c
        while d.op == 'not':
            n, d = not n, d.a[0]
        if d.op in ('eq0', 'le0'):
            lp, k = lin_parts(d.a[0])
            if len(lp) == 1:
                (a, v), = lp.items()
                if a.op == 'len':
                    w = B.layer_of(strip(a.a[0]))
                    if w is not None and w[0] == name and w[1] == (('f', 'joint_weights'),):
                        if k == 0 and v == 1 or (d.op == 'eq0' and k == 0):
                            return not n
                        if d.op == 'le0' and v == -1 and k == 1:
                            return n
    return None


# ---------------------------------------------------------------- layer loops
def iterations(rep, B, h, name):
    """(conds, macro path, trace) of every iteration of a layer loop; checks that it visits every layer in order"""
    q, S = B.q, B.S
    ex = S.exit_targets(h)
    base = [b for b, n in B.lists.items() if n == name][0]
    n = q.canon(mk('len', base))
    its = []
    ends = 0
    for p in S.paths(h, {h} | ex, h):
        conds = {S.named(h, c) for c in p.conds}
        if not consistent(conds, q):
            continue
        if p.end == h:
            if p.cyclic:
                continue
            rep.ob(implied(le0(sub(add(ix(h), const(1)), n)), known(conds)), '%s: range' % name, 'an iteration is not limited to the layers that exist')
            its.append((conds, p, S.trace(p, h)))
        elif not S.trace(p, h) and error_exit(B, p):
            continue
        else:
            ends += 1
            B.exits.setdefault(name, set()).add(p.end)
            rep.ob(ends_at(conds, n, ix(h), B.facts) and not S.trace(p, h), '%s: every layer' % name, 'the loop over the layers can end early: %s' % [show(c)[:90] for c in p.conds][-3:])
    rep.floor('iterations of the %s loop' % name, len(its), 3)
    rep.ob(ends >= 1, '%s: ends' % name, 'the loop over the layers has no regular end')
    return its


def error_exit(B, p):
    """every way on from the end of the path leads to a return without another write, because a buffer could not be borrowed"""
    if not any(c.op == 'eq0' and mentions(c, lambda x: x.op == 'discr' and x.a[0].op == 'buf') and lin_parts(c.a[0])[1] == -1 for c in p.conds):
        return False
    rets = {e['block'] for e in returns(B.q)}
    if p.end in rets:
        return True
    return all(x.end in rets and not B.S.trace(x) for x in B.S.paths(p.end, rets, conds=p.conds, env=p.env) if not x.cyclic)


def layers(rep, B, h):
    q, S, it = B.q, B.S, B.it
    its = iterations(rep, B, h, 'layers')
    w = weight_expr(B, h, 'layers')
    if not rep.ob(w is not None, 'layers: weight', 'the weight of a layer is not used'):
        return
    kinds = []
    for conds, p, trace in its:
        s = sign_of(conds, w)
        contributes = bool(trace)
        if contributes:
            rep.ob('>' in s, 'layers: weight above zero', 'a layer is blended without checking that its weight is above zero')
        else:
            rep.ob('<=' in s, 'layers: skipped', 'a layer is skipped although its weight may be above zero: %s' % [show(c)[:90] for c in p.conds][-3:])
        kinds.append((contributes, conds, p, trace))
    # what is carried from layer to layer
    phis = [ph for ph in S.P.phis.get(h, ()) if is_scalar(ph)]
    for ph in phis:
        r = carried(B, h, ph, kinds, w)
        if r is not None:
            B.roles[q.canon(ph)] = r
            B.roles[ph] = r
    # arrays: accumulated weights
    for contributes, conds, p, trace in kinds:
        for kind, b in trace:
            if kind == 'loop':
                for s in S.sweep(b).steps:
                    for (base, path) in s.writes:
                        if base is not B.out:
                            B.accs.add(base)
    rep.count('values carried between layers', len({v for v in B.roles.values()}))
    for contributes, conds, p, trace in kinds:
        if not contributes:
            continue
        for facts, effect in compose(rep, B, trace, conds, p, 'layers'):
            layer_effect(rep, B, h, facts, effect)


def is_scalar(ph):
    l = ph.a[1]
    if isinstance(l, tuple) and l and isinstance(l[0], tuple):
        return not any(x[0] == 'i' for x in l[1]) if len(l) > 1 else True
    return True


def weight_expr(B, h, name):
    """the expression of the current layer's weight"""
    for b in B.S.outer[h]:
        for t, c in B.q.edges.get(b, ()):
            if c is not None:
                for x in walk(B.q.canon(c[1])):
                    if x.op in ('pj', 'ld'):
                        x = B.S.named(h, x)
                        w = B.layer_of(x)
                        if w is not None and w[0] == name and w[1] == (('f', 'weight'),) and w[2] is ix(h):
                            return x
    return None


def carried(B, h, ph, kinds, w):
    """role of a value carried around the loop over the layers"""
    q, S = B.q, B.S
    body = S.outer[h]
    ins = [q.canon(v) for p, v in B.it.phi_in[ph].items() if p not in body and p in q.live]
    if len(set(ins)) != 1:
        return None
    init = ins[0]
    up = []
    for contributes, conds, p, trace in kinds:
        v = p.env.get(ph, ph)
        v = S.named(h, q.canon(v))
        up.append((contributes, empty_weights(conds, B, 'layers'), v))
    cph = q.canon(ph)
    if init.op == 'fconst' and init.a[0] == 0:
        R = Real()
        if all((pk(R, v) == pk(R, mk('fAdd', cph, w))) if c else v is cph for c, e, v in up):
            return 'sum'
        return None
    if isinstance(cval(init), int) and not isinstance(cval(init), bool) and cval(init) == 0 or init is FALSE:
        def grows(v):
            if isinstance(cval(v), bool) or v is TRUE:
                return v is TRUE
            d = sub(v, cph) if v.op != 'bool' else v
            return isinstance(cval(d), int) and cval(d) > 0 or isinstance(cval(v), int) and cval(v) > 0
        if all(grows(v) if c else v is cph for c, e, v in up):
            return 'passes'
        if all((grows(v) if (c and e is False) else v is cph) and (e is not None or not c) for c, e, v in up):
            return 'partial'
    if init is TRUE:
        if all(v is FALSE if c else v is cph for c, e, v in up):
            return 'no passes'
    return None


def pk(R, e):
    return pkey(R(e))


def state_of(conds, B):
    """facts on the carried counters: {'passes': True/False, 'partial': ...}"""
    out = {}
    for c in conds:
        n, d = False, c
        while d.op == 'not':
            n, d = not n, d.a[0]
        r, v = None, None
        if d in B.roles:
            r, v = B.roles[d], True
        elif d.op in ('eq0', 'le0'):
            lp, k = lin_parts(d.a[0])
            if len(lp) == 1:
                (a, f), = lp.items()
                if a in B.roles and B.roles[a] != 'sum':
                    r = B.roles[a]
                    if k == 0 and (d.op == 'eq0' or f > 0):
                        v = False
                    elif d.op == 'le0' and f == -1 and k == 1:
                        v = True
        if r is None or v is None:
            continue
        if n:
            v = not v
        if r == 'no passes':
            r, v = 'passes', not v
        out[r] = v
    if out.get('partial'):
        out['passes'] = True
    return out


# ---------------------------------------------------------------- composing element loops
def compose(rep, B, trace, conds, path, where):
    """[(facts, {(array, fields): [4 lane polynomials]})]: the maps of the loops of a trace, one after the other"""
    S, q = B.S, B.q
    states = [(set(conds), {}, Terms(B, None, None, None).R)]
    R0 = None
    for kind, b in trace:
        new = []
        if kind == 'bulk':
            base, lo, n, k, src = S.bulk_op(b, path.env)
            if not rep.ob(k == 'copy' and base is B.out and lo is const(0) and n is B.n, '%s: bulk copy' % where, 'a bulk operation writes %s elements of %s' % (show(n)[:80], show(base)[:60])):
                raise Bad('bulk operation')
            name = B.source(src)
            rep.ob(name == 'rest', '%s: bulk copy source' % where, 'copied from %s' % show(src)[:80])
            for facts, eff, R in states:
                T = Terms(B, None, None, None)
                e2 = dict(eff)
                for f, xs in FIELDS:
                    for x in xs:
                        e2[('out', (f, x))] = [T.R.atom(mk('lane', mk('src', 'rest', (f, x)), k)) for k in range(4)]
                new.append((facts, e2, R))
            states = new
            continue
        sw = S.sweep(b)
        why = covers(sw, B.n, B.facts)
        if not rep.ob(why is None, '%s: every joint' % where, 'an element loop does not treat exactly the joints of the skeleton: %s' % why):
            raise Bad('range of a loop')
        B.cur = b
        for facts, eff, R in states:
            for s in sw.steps:
                e2 = dict(eff)

                def old(name, fields, eff=eff):
                    if (name, fields) in eff:
                        return eff[(name, fields)]
                    return None
                T = Terms(B, b, ix(b), old)
                fs = facts | {S.P.sub(c, path.env) for c in s.conds}
                if any(contradicts(c, facts) for c in fs):
                    continue
                for (base, p), v in s.writes.items():
                    if base is not B.out and base not in B.accs:
                        raise Bad('write to %s' % show(base)[:80])
                    if not p or p[0] != ('i', ix(b)):
                        raise Bad('element %s is written in round %s' % (show(as_e(p[0][1]))[:60] if p else '?', show(ix(b))))
                    name = 'out' if base is B.out else ('acc', base)
                    for fields, val in leaves(B.it, tuple(x[1] for x in p[1:]), v, name):
                        e2[(name, fields)] = T.vec(S.P.sub(val, path.env))
                new.append((fs, e2, R))
        B.cur = None
        states = new
    return [(f, e) for f, e, _ in states]


def leaves(it, fields, v, name):
    if name != 'out':
        return [((), v)]
    out = []
    for f, xs in FIELDS:
        if fields and fields[0] != f:
            continue
        vf = v if fields else it.proj(v, ('f', f))
        if len(fields) == 2:
            return [(fields, v)]
        for x in xs:
            out.append(((f, x), it.proj(vf, ('f', x))))
    return out


class Spec:
    """the formulas, in the same normal form"""

    def __init__(self, B, w=None):
        self.L = Terms(B, None, None, None)
        self.R = self.L.R

    def at(self, name, f, x, k):
        return self.R.atom(mk('lane', mk(*name, (f, x)) if isinstance(name, tuple) else mk('old', name, (f, x)), k))

    def quat(self, name, k):
        return [self.at(name, 'rotation', x, k) for x in 'xyzw']

    def dot(self, a, b):
        r = {}
        for x, y in zip(a, b):
            r = self.R.add(r, self.R.mul(x, y))
        return r

    def normalized(self, a):
        inv = self.L.inv(self.L.fn1('sqrt', self.dot(a, a)))
        return [self.R.mul(x, inv) for x in a]

    def qmul(self, a, b):
        R = self.R
        ax, ay, az, aw = a
        bx, by, bz, bw = b

        def s(*ts):
            r = {}
            for sg, x, y in ts:
                r = R.add(r, R.mul(x, y), sg)
            return r
        return [s((1, aw, bx), (1, ax, bw), (1, ay, bz), (-1, az, by)),
                s((1, aw, by), (1, ay, bw), (1, az, bx), (-1, ax, bz)),
                s((1, aw, bz), (1, az, bw), (1, ax, by), (-1, ay, bx)),
                s((1, aw, bw), (-1, ax, bx), (-1, ay, by), (-1, az, bz))]


def layer_weight(B, S, name, empty, k, negate=False):
    R = S.R
    w = R.atom(mk('nm', 'weight', name))
    if negate:
        w = R.mul(R.const(-1), w)
    if empty:
        return w
    jw = R.atom(mk('lane', mk('src', ('joint weights', name), ()), k))
    return R.mul(w, S.L.pos(jw))


def compare(rep, where, effect, want, missing_ok=()):
    for f, xs in FIELDS:
        for x in xs:
            got = effect.get(('out', (f, x)))
            if not rep.ob(got is not None, '%s: %s.%s' % (where, f, x), 'not written'):
                continue
            for k in range(4):
                rep.ob(same(got[k], want[(f, x)][k]), '%s: %s.%s' % (where, f, x),
                       'lane %d is %s, expected %s' % (k, show_poly(got[k])[:400], show_poly(want[(f, x)][k])[:400]))


def layer_effect(rep, B, h, facts, effect):
    empty = empty_weights(facts, B, 'layers')
    if not rep.ob(empty is not None, 'layers: joint weights', 'blended without looking whether the layer has joint weights'):
        return
    st = state_of(facts, B)
    if not rep.ob('passes' in st, 'layers: first', 'blended without knowing whether it is the first contributing layer'):
        return
    first = not st['passes']
    S = Spec(B)
    R = S.R
    where = 'layers, %s, %s' % ('first' if first else 'later', 'one weight' if empty else 'joint weights')
    want = {}
    src = ('src', ('input', 'layers'))
    for f, xs in FIELDS:
        for x in xs:
            want[(f, x)] = []
            for k in range(4):
                W = layer_weight(B, S, 'layers', empty, k)
                t = R.mul(W, S.at(src, f, x, k))
                if f == 'rotation' and not first:
                    t = R.mul(t, S.L.sgn(S.dot(S.quat('out', k), S.quat(src, k))))
                if not first:
                    t = R.add(t, S.at('out', f, x, k))
                want[(f, x)].append(t)
    compare(rep, where, effect, want)
    B.used = getattr(B, 'used', set())
    for acc in B.accs:
        got = effect.get((('acc', acc), ()))
        if got is None:
            B.bad_acc = getattr(B, 'bad_acc', set()) | {acc}
            continue
        for k in range(4):
            w = layer_weight(B, S, 'layers', empty, k)
            if not first:
                w = R.add(w, R.atom(mk('lane', mk('old', ('acc', acc), ()), k)))
            rep.ob(same(got[k], w), where + ': accumulated weight', 'lane %d is %s, expected %s' % (k, show_poly(got[k])[:200], show_poly(w)[:200]))
    rep.count('layer steps compared')


# ---------------------------------------------------------------- rest pose and normalisation
def between(rep, B, main, extra):
    q, S = B.q, B.S
    n = 0
    for e in sorted(B.exits.get('layers', ())):
        for p in S.paths(e, {extra} | {r['block'] for r in returns(q)}):
            if p.end != extra or p.cyclic:
                rep.ob(error_exit(B, p), 'from the layers to the additive layers', 'the run ends between the layers and the additive layers')
                continue
            tr = [x for x in S.trace(p) if x != ('loop', extra)]
            for facts, effect in compose(rep, B, tr, set(p.conds), p, 'rest pose'):
                rest_effect(rep, B, facts, effect)
                n += 1
    rep.floor('ways from the layers to the result', n, 3)


def rest_effect(rep, B, facts, effect):
    st = state_of(facts, B)
    S = Spec(B)
    R = S.R
    thr, sw = R.atom(mk('nm', 'threshold')), R.atom(mk('nm', 'sum'))
    cond = None
    for c in facts:
        d = bp_sign(B, S, c, R.add(thr, sw, -1))
        cond = d if d is not None else cond
    if st.get('passes') is False and cond is False:
        return      # nothing accumulated: threshold - 0 is above zero
    if cond is False:
        st['passes'] = True
    if not rep.ob('passes' in st, 'rest pose: any layer', 'the result does not depend on whether any layer contributed: %s' % [show(c)[:80] for c in facts][:6]):
        return
    part = st.get('partial')
    if st['passes'] is False:
        part = False
    want = {}
    accs = [a for a in B.accs if a not in getattr(B, 'bad_acc', ())]
    for f, xs in FIELDS:
        for x in xs:
            want[(f, x)] = []
    where = 'rest pose, no layer' if not st['passes'] else 'rest pose, %s' % ('joint weights' if part in (True, None) else 'one weight')
    if st['passes'] and part is False:
        where += {True: ', below threshold', False: ', above threshold', None: ''}[cond]
    for k in range(4):
        one = R.const(1)
        src = ('src', 'rest')
        if not st['passes']:
            for f, xs in FIELDS:
                for x in xs:
                    want[(f, x)].append(S.at(src, f, x, k))
            rot = S.normalized(S.quat(src, k))
        else:
            if part is False:
                bp = R.add(thr, sw, -1)
                b = bp if cond is True else {} if cond is False else S.L.pos(bp)
                D = R.add(sw, b)
            else:
                if len(accs) != 1:
                    rep.fail('accumulated joint weights', 'no per-joint sum of the weights is kept')
                    return
                sa = R.atom(mk('lane', mk('old', ('acc', accs[0]), ()), k))
                b = S.L.pos(R.add(thr, sa, -1))
                D = R.add(sa, b)
            inv = S.L.inv(D)
            old, rq = S.quat('out', k), S.quat(src, k)
            for f, xs in FIELDS:
                for x in xs:
                    want[(f, x)].append(R.mul(inv, R.add(S.at('out', f, x, k), R.mul(b, S.at(src, f, x, k)))))
            sg = S.L.sgn(S.dot(old, rq))
            rot = S.normalized([R.add(o, R.mul(R.mul(b, sg), r)) for o, r in zip(old, rq)])
        for x, v in zip('xyzw', rot):
            want[('rotation', x)][k] = v
    compare(rep, where, effect, want)
    rep.count('rest pose steps compared')


def bp_sign(B, S, c, bp):
    """True: threshold - sum > 0, False: <= 0"""
    n, d = False, c
    while d.op == 'not':
        n, d = not n, d.a[0]
    if d.op != 'fcmp':
        return None
    op, a, b = fcmp_parts(d)
    if op in ('Gt', 'Ge'):
        a, b, op = b, a, {'Gt': 'Lt', 'Ge': 'Le'}[op]
    if op not in ('Lt', 'Le'):
        return None
    x = S.R.add(S.L.sca(b), S.L.sca(a), -1)      # a < b  <=>  x > 0
    if same(x, bp):
        return {'Lt': True, 'Le': None}[op] if not n else False
    if same(S.R.mul(S.R.const(-1), x), bp):
        return (False if not n else True) if op == 'Le' else (None if not n else None)
    return None


# ---------------------------------------------------------------- additive layers
def additive(rep, B, h):
    q, S = B.q, B.S
    its = iterations(rep, B, h, 'additive_layers')
    w = weight_expr(B, h, 'additive_layers')
    if not rep.ob(w is not None, 'additive layers: weight', 'the weight of an additive layer is not used'):
        return
    signs = set()
    for conds, p, trace in its:
        s = sign_of(conds, w)
        if not trace:
            rep.ob('<=' in s and '>=' in s or '==' in s, 'additive layers: skipped', 'an additive layer is skipped although its weight may differ from zero')
            continue
        sg = '>' if '>' in s else '<' if '<' in s else None
        if not rep.ob(sg is not None, 'additive layers: sign', 'an additive layer is applied without knowing the sign of its weight'):
            continue
        signs.add(sg)
        for facts, effect in compose(rep, B, trace, conds, p, 'additive layers'):
            add_effect(rep, B, facts, effect, sg)
    rep.ob(signs == {'>', '<'}, 'additive layers: both signs', 'only weights %s are handled' % sorted(signs))
    rets = {r['block'] for r in returns(q)}
    for e in sorted(B.exits.get('additive_layers', ())):
        for p in S.paths(e, rets):
            if not p.cyclic:
                rep.ob(not S.trace(p), 'after the additive layers', 'the result is changed after the additive layers')


def add_effect(rep, B, facts, effect, sg):
    name = 'additive_layers'
    empty = empty_weights(facts, B, name)
    if not rep.ob(empty is not None, 'additive layers: joint weights', 'applied without looking whether the layer has joint weights'):
        return
    S = Spec(B)
    R = S.R
    where = 'additive layers, %s, %s' % ('positive' if sg == '>' else 'negative', 'one weight' if empty else 'joint weights')
    src = ('src', ('input', name))
    want = {}
    one = R.const(1)
    for f, xs in FIELDS:
        for x in xs:
            want[(f, x)] = []
    for k in range(4):
        W = layer_weight(B, S, name, empty, k, sg == '<')
        for x in 'xyz':
            want[('translation', x)].append(R.add(S.at('out', 'translation', x, k), R.mul(W, S.at(src, 'translation', x, k)), 1 if sg == '>' else -1))
            f = R.add(R.add(one, W, -1), R.mul(W, S.at(src, 'scale', x, k)))
            want[('scale', x)].append(R.mul(S.at('out', 'scale', x, k), f if sg == '>' else S.L.inv(f)))
        r = S.quat(src, k)
        g = S.L.sgn(r[3])
        r = [R.mul(g, x) for x in r]
        iq = [R.mul(x, W) for x in r[:3]] + [R.add(R.mul(R.add(r[3], one, -1), W), one)]
        iq = S.normalized(iq)
        if sg == '<':
            iq = [R.mul(R.const(-1), x) for x in iq[:3]] + iq[3:]
        for x, v in zip('xyzw', S.qmul(S.quat('out', k), iq)):
            want[('rotation', x)].append(v)
    compare(rep, where, effect, want)
    rep.count('additive steps compared')
