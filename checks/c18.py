"""C18: track sampling: the value between the two keys around the ratio."""
from common import *
from cursor import *
from soa import *
from sweeps import *
from spec import Job, at
from real import Real
from c17 import ok_return
from sampling import rebase

NOTE = ('TrackSamplingJob::run is interpreted abstractly; the search over the keys is summarised from one symbolic round (why it goes on, why it stops), every path to a '
        'successful return is enumerated with its conditions, and the stored result is compared with the definition; the interpolation of each value type is compared '
        'as a polynomial or as the library call it must be. Keys are taken to be sorted with the first one not behind ratio 0, and counts of ratios and values to agree '
        '(C03, C05).')
KINDS = ('f32', 'Vec2', 'Vec3', 'Vec4', 'Quat')


class Track:
    def __init__(self, rep):
        self.rep = rep
        self.it = it = interp('TrackSamplingJob::run', rep=rep)
        self.q = q = Q(it, norm=norm_idx)
        self.S = Sweeps(q)
        J = Job('TrackSamplingJob')
        tr = J.obj('track')
        self.L = mk('nat', 'keys')
        self.locs = {}
        c = lambda f: self.place(unproj(unslice(q.canon(at('Track::' + f, tr)))), mk('nat', f))
        self.ratios, self.values, self.steps = c('ratios'), c('values'), c('steps')
        self.place(unproj(q.canon(at('Track::key_count', tr))), self.L)
        self.result = unproj(q.canon(J.f('result')))
        self.r = self.place(unproj(q.canon(J.f('ratio'))), mk('nat', 'ratio'))

    def place(self, loc, name):
        self.locs[loc] = name
        return name

    def name(self, e, more=None):
        """lengths, the saturating step back, clamped ratios, first and last"""
        q = self.q

        def f(x):
            if x.op in ('ld', 'pj') and unproj(x) in self.locs:
                return self.locs[unproj(x)]
            if x.op == 'len' and self.name(unslice(x.a[0])) in (self.ratios, self.values):
                return self.L
            if x.op == 'call':
                m = x.a[0].split('::')[-1]
                if m == 'saturating_sub' and len(x.a[1]) == 2:
                    return sub(self.name(x.a[1][0], more), self.name(x.a[1][1], more))
            if x.op == 'pay' and x.a[0].op == 'call' and len(x.a[0].a[1]) == 1:
                m, b = x.a[0].a[0].split('::')[-1], self.name(unslice(x.a[0].a[1][0]))
                if m == 'first':
                    return mk('elem', b, const(0))
                if m == 'last':
                    return mk('elem', b, sub(self.L, const(1)))
            if x.op == 'ld' and not x.a[1] or x.op == 'deref' or x.op == 'slice' and x.a[1] is const(0) and x.a[2].op == 'end':
                return self.name(x.a[0], more)
            if more is not None:
                return more(x)
            return None
        out = q.canon(q.subst(q.canon(e), f, {}))
        return q.n01(out) if hasattr(q, 'n01') and isinstance(out, E) else out


def unslice(e):
    while e.op in ('deref', '&', 'unsize'):
        e = e.a[0]
    return e


def clamped(e, r):
    """e is the ratio limited to [0, 1]"""
    if e.op == 'call' and e.a[0].split('::')[-1] == 'clamp' and len(e.a[1]) == 3:
        return e.a[1][0] is r and fval(e.a[1][1]) == 0 and fval(e.a[1][2]) == 1
    lim = {}
    while True:
        if e is r:
            return lim == {'max': 0, 'min': 1}
        m = e.a[0].split('::')[-1] if e.op == 'call' else e.op
        m = {'fmax': 'max', 'fmin': 'min'}.get(m, m)
        a = e.a[1] if e.op == 'call' else e.a
        if m not in ('max', 'min') or len(a) != 2 or m in lim:
            return False
        k = [x for x in a if fval(x) is not None]
        if len(k) != 1:
            return False
        lim[m] = fval(k[0])
        e = [x for x in a if x is not k[0]][0]


def fval(e):
    return float(e.a[0]) if e.op in ('fconst', 'const') and isinstance(e.a[0], (int, float, str)) and str(e.a[0]).replace('.', '').replace('-', '').isdigit() else None


def run(rep):
    rep.rule('search', 'the search goes over the keys from the first and stops at the first key behind the ratio, or behind the last key')
    rep.rule('result', 'default without keys; the first key for one key or a ratio below 0; the last for a ratio above 1 or behind the last key; otherwise the key before the ratio if its step bit is set, else the interpolation of the keys around the ratio at (r - r0) / (r1 - r0)')
    rep.rule('lerp', 'a + (b - a) * t, for quaternions the library\'s normalised shortest-path lerp of (a, b, t)')
    if interp('TrackSamplingJob::run') is None:
        rep.fail('TrackSamplingJob::run', 'function not found')
        return
    T = Track(rep)
    q, S, it = T.q, T.S, T.it
    found = {}
    for h in S.inner(None):
        if h in S.writers:
            rep.fail('search', 'the search loop writes something')
            return
        search(T, h, found)
    rets = {e['block']: e for e in returns(q)}
    n, kinds = 0, {}
    for p in S.paths(it.body.entry, set(rets)):
        if p.end not in rets or p.cyclic or not consistent(p.conds, q):
            continue
        if not ok_return(it, q, S.P, rets[p.end], p):
            rep.ob(not S.writes(p), 'failed run', 'a run that fails changes something')
            continue
        n += 1
        kinds[path(T, p, found)] = 1
    rep.floor('paths to a result', n, 5)
    rep.ob({'default', 'value', 'lerp'} <= set(kinds), 'kinds of results', 'only %s found' % sorted(map(str, kinds)))
    lerps(rep)


def search(T, h, found):
    """found[h] = (index expression, {exit block: 'found' | 'none'})"""
    rep, q, S = T.rep, T.q, T.S
    I = ix(h)
    sw = S.sweep(h)
    probe = []
    for s in sw.steps:
        cs = {T.name(x) for x in s.conds}
        probe.append(cs)
        rep.ob(any(stays(T, x, I) for x in cs), 'search', 'the search goes on past key %s without knowing that it is not behind the ratio: %s' % (show(I), [show(x)[:80] for x in cs]))
        rep.ob(implied(le0(sub(add(I, const(1)), T.L)), known(cs)), 'search: range', 'the search looks at keys that do not exist')
    rep.floor('search rounds', len(sw.steps), 1)
    for cs, p in sw.exits:
        if p.end not in q.live:
            continue
        cs = {T.name(x) for x in cs}
        if any(behind(T, x, I) for x in cs):
            continue
        if any(implied(le0(sub(T.L, I)), {x}) for x in cs):
            continue
        rep.fail('search: end', 'the search can stop without having found the first key behind the ratio: %s' % [show(x)[:90] for x in cs])


def cmp_(T, x, i):
    """'after' if x says ratio < ratios[i], 'upto' if it says ratios[i] <= ratio (reals)"""
    s = True
    while x.op == 'not':
        x, s = x.a[0], not s
    if x.op != 'fcmp':
        return None
    o, a, b = x.a
    key = mk('elem', T.ratios, i)
    isr = lambda y: y is T.r or clamped(y, T.r)
    if o in ('Gt', 'Ge'):
        o, a, b = {'Gt': 'Lt', 'Ge': 'Le'}[o], b, a
    if o == 'Lt' and isr(a) and b is key:
        return 'after' if s else 'upto'
    if o == 'Le' and a is key and isr(b):
        return 'upto' if s else 'after'
    return None


def stays(T, x, i):
    return cmp_(T, x, i) == 'upto'


def behind(T, x, i):
    return cmp_(T, x, i) == 'after'


def bound(T, x):
    """'<0', '>=0', '>1', '<=1' for a comparison of the ratio with the ends"""
    s = True
    while x.op == 'not':
        x, s = x.a[0], not s
    if x.op != 'fcmp':
        return None
    o, a, b = x.a
    if o in ('Gt', 'Ge'):
        o, a, b = {'Gt': 'Lt', 'Ge': 'Le'}[o], b, a
    if a is T.r and fval(b) == 0 and o == 'Lt':
        return '<0' if s else '>=0'
    if fval(a) == 0 and b is T.r and o == 'Le':
        return '>=0' if s else '<0'
    if fval(a) == 1 and b is T.r and o == 'Lt':
        return '>1' if s else '<=1'
    if a is T.r and fval(b) == 1 and o == 'Le':
        return '<=1' if s else '>1'
    # behind 1 or at it: no key can be behind either way
    if fval(a) == 1 and b is T.r and o == 'Le':
        return '>=1' if s else '<1'
    if a is T.r and fval(b) == 1 and o == 'Lt':
        return '<1' if s else '>=1'
    if a is T.r and fval(b) == 0 and o == 'Le':
        return '<=0' if s else '>0'
    if fval(a) == 0 and b is T.r and o == 'Lt':
        return '>0' if s else '<=0'
    return None


def stepbit(T, x):
    """(key, set?) for a test of a step bit"""
    s = True
    while x.op == 'not':
        x, s = x.a[0], not s
    if x.op != 'eq0':
        return None
    e = x.a[0]
    on = not s
    d, c = lin_parts(e)
    if len(d) == 1 and c == -1 and list(d.values()) == [1]:
        e, on, one = next(iter(d)), not on, True
    else:
        one = False
    if e.op == 'cast':
        e = e.a[1]
    if e.op == 'rem' and cval(e.a[1]) == 2:
        e = mk('iBitAnd', e.a[0], const(1))
    if e.op != 'iBitAnd':
        return None
    for a, b in (e.a, e.a[::-1]):
        i = None
        if b.op == 'iShl' and cval(b.a[0]) == 1 and not one:
            i, w = b.a[1], a
        elif cval(b) == 1 and a.op == 'iShr':
            i, w = a.a[1], a.a[0]
        if i is None:
            continue
        while w.op == 'cast':
            w = w.a[1]
        while i.op == 'cast':
            i = i.a[1]
        if i.op != 'rem' or cval(i.a[1]) != 8 or w.op != 'elem' or w.a[0] is not T.steps:
            continue
        k = i.a[0]
        if w.a[1] in (mk('div', k, const(8)), div_(k, 8)):
            return k, on
        # rem of k - 1 for the saturating form
    return None


def path(T, p, found):
    rep, q, S = T.rep, T.q, T.S
    # where the search ended on this path
    hs = [b for b in p.blocks if b in S.outer]
    nm = lambda e: T.name(S.named(hs[-1], e)) if hs else T.name(e)
    conds = {nm(x) for x in p.conds}
    K, none = None, False
    if hs:
        I = ix(hs[-1])
        if any(behind(T, x, I) for x in conds):
            K = I
        elif any(implied(le0(sub(T.L, I)), {x}) for x in conds):
            none = True
            put = lambda e: q.canon(q.subst(e, lambda x: T.L if x is I else None, {}))
            conds = {put(x) for x in conds}
            nm0, K = nm, T.L
            nm = lambda e: put(nm0(e))
    if not consistent(conds, q) or any(neg(x) in conds for x in conds):
        return 'impossible'
    bits = {stepbit(T, x) for x in conds} - {None}
    lim = {bound(T, x) for x in conds} - {None}
    empty = eq0(T.L) in conds or le0(T.L) in conds
    full = known(conds | {le0(sub(const(1), T.L))})
    one = eq0(sub(T.L, const(1))) in conds or implied(le0(sub(T.L, const(1))), conds)
    if K is not None and not none and (eq0(K) in conds or implied(le0(K), conds)):
        # the first key is not behind a ratio of at least 0
        if lim & {'>=0', '>0'} or clamps(T, p.conds, nm):
            return 'impossible'
    w = S.writes(p)
    mine = {k: v for k, v in w.items() if unproj(rebase(q.canon(k[0]), k[1])) == T.result}
    rep.ob(len(w) == len(mine) == 1, 'result written', 'a successful run writes %s' % [str(k[1])[:60] for k in w])
    if len(mine) != 1:
        return None
    v = nm(list(mine.values())[0])
    # a last key found "equal to the count" is the end of the search
    if K is not None and not none and (eq0(sub(K, T.L)) in conds or implied(le0(sub(T.L, K)), conds)):
        return 'impossible'
    if v.op == 'call' and v.a[0].endswith('Default>::default') and not v.a[1]:
        rep.ob(empty, 'result: default', 'the default value is returned although the track may have keys')
        return 'default'
    if empty:
        rep.fail('result: no keys', 'a track without keys yields %s' % show(v)[:100])
        return None
    if v.op == 'elem' and v.a[0] is T.values:
        i = v.a[1]
        ok = False
        if i is const(0):
            ok = one or bool(lim & {'<0', '<=0'} and ('<0' in lim))
        if i is sub(T.L, const(1)):
            ok = ok or one or bool(lim & {'>1', '>=1'}) or none
        if K is not None and i is sub(K, const(1)):
            ok = ok or none or (i, True) in bits
            ok = ok and bool(lim & {'>=0', '>0'} or clamps(T, p.conds, nm) or none)
        rep.ob(ok, 'result: key', 'key %s is returned under %s' % (show(i)[:80], [show(x)[:70] for x in conds][-6:]))
        return 'value'
    if v.op == 'call' and v.a[0].endswith('TrackValue>::lerp') and len(v.a[1]) == 3:
        a, b, t = (unslice(x) for x in v.a[1])
        if not rep.ob(K is not None and not none, 'result: interpolation', 'interpolates although no key is behind the ratio'):
            return None
        k0 = sub(K, const(1))
        rep.ob(a is mk('elem', T.values, k0) and b is mk('elem', T.values, K), 'result: operands', 'interpolates %s and %s' % (show(a)[:100], show(b)[:100]))
        R = Real(leaf=lambda x: T.r if x is T.r or clamped(x, T.r) else None)
        r0, r1 = (R(mk('elem', T.ratios, k)) for k in (k0, K))
        r = R.atom(T.r)
        want = R.mul(R.add(r, r0, -1), R.inv(R.add(r1, r0, -1)))
        rep.ob(R(t) == want, 'result: fraction', 'at %s' % show(t)[:200])
        rep.ob((k0, False) in bits, 'result: step', 'interpolates without knowing that key %s is not a step' % show(k0)[:60])
        rep.ob(bool(lim & {'>=0', '>0'} or clamps(T, p.conds, nm)), 'result: range', 'interpolates for a ratio below 0')
        return 'lerp'
    rep.fail('result', 'the result is %s' % show(v)[:160])
    return None


def clamps(T, conds, nm):
    """the keys are compared with the clamped ratio"""
    return any(clamped(y, T.r) for x in conds for y in walk(nm(x)) if y.op in ('call', 'max', 'min', 'fmax', 'fmin'))


def lerps(rep):
    a, b, t = (mk('arg', i) for i in (1, 2, 3))
    for k in KINDS:
        it = interp('<%s as TrackValue>::lerp' % k, rep=rep)
        if not rep.ob(it is not None, 'lerp of %s' % k, 'function not found'):
            continue
        q = Q(it, norm=norm_idx)
        rs = [e for e in returns(q)]
        ok = bool(rs)
        got = ''
        for e in rs:
            v = q.canon(it.valarg(e['state'], e['value']))
            got = show(v)[:120]
            lib = v.op == 'call' and v.a[0].split('::')[-1] == 'lerp' and tuple(unslice(x) for x in v.a[1]) == (a, b, t)
            R = Real()
            poly = k != 'Quat' and R(v) == R.add(R(a), R.mul(R.add(R(b), R(a), -1), R(t)))
            ok = ok and (lib or poly)
        rep.ob(ok, 'lerp of %s' % k, 'is %s' % got)
