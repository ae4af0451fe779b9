"""C08: what a sampled pose is made of."""
from sampling import *
from lanes import Lanes, same

NOTE = ('SamplingJob::run is interpreted abstractly; operands of the decompression are compared symbolically with the keys the cache names, for all groups and lanes; the '
        'interpolation loop is summarised per element and compared, lane by lane as polynomials over the reals, with the interpolation formula; the snapshot decoder is '
        'compared with the group-varint format when it is written as a straight sequence.')
FIELDS = (('translation', 'xyz'), ('rotation', 'xyzw'), ('scale', 'xyz'))


def run(rep):
    rep.rule('keys', 'per track the next key is the one the cache holds, the previous key the one it refers back to, their times are looked up for the same keys')
    rep.rule('cursor', 'the cached key of a track is the first one behind the ratio: both cursor moves compare the time of the preceding key with the ratio')
    rep.rule('formula', 'previous + (next - previous) * (ratio - t0) / (t1 - t0), rotations normalised; exactly the groups of the animation are written')
    rep.rule('snapshot', 'four values per prefix byte, two bits of it per value give the number of bytes')
    try:
        M = Sampling(rep)
        for c in M.chans:
            M.moves(c)
            M.refresh(c)
        pose(rep, M)
        for c in M.chans:
            for h in c.iframe:
                varint(rep, M, c, h)
    except (Bad, Mystery, OverflowError, KeyError) as x:
        rep.fail('SamplingJob::run', 'not understood: %s' % x)


class Terms(Pose):
    def __init__(self, M, h):
        Pose.__init__(self, M.it, M.q, leaf=self.scalar, vleaf=self.operand)
        self.M, self.h = M, h

    def scalar(self, e):
        if e is self.M.ratio:
            return self.R.atom(mk('nm', 'ratio'))
        return None

    def operand(self, e):
        if e.op not in ('pj', 'ld', 'elem', 'phi', 'hvarr', 'transmute'):
            return None
        if e.op == 'transmute':
            return self.operand(e.a[0])
        loc = self.M.place(e)
        if loc is None or loc[1] != 'V':
            return None
        i = self.M.S.named(self.h, loc[2])
        if i is not ix(self.h):
            raise Bad('group %s is read instead of %s' % (show(i)[:80], show(ix(self.h))))
        path = tuple(num(x[1]) if x[0] == 'i' else x[1] for x in loc[3])
        return [self.R.atom(mk('lane', mk('key', loc[0].name, path), k)) for k in range(4)]


def pose(rep, M):
    S, q, it = M.S, M.q, M.it
    if not rep.ob(len(M.other) == 1, 'interpolation', 'expected one loop that writes the output, found %d' % len(M.other)):
        return
    h = M.other[0]
    rets = [e['block'] for e in returns(q)]
    sw = S.sweep(h)
    facts = set(q.conds(h))
    why = covers(sw, M.ns, facts)
    rep.ob(why is None, 'interpolation: every group', 'not exactly the groups of the animation are written: %s' % why)
    # on every way to a regular end with tracks, the loop is passed
    for p in S.paths(M.it.body.entry, set(rets) | {M.chans[0].fwd[0][0]}):
        if p.end in rets and consistent(p.conds, q) and not p.cyclic:
            done = S.trace(p)
            ok = eq0(M.ns) in p.conds or implied(le0(M.ns), known(p.conds)) or failed(p.conds, M)
            rep.ob(ok and not done, 'interpolation: skipped', 'the job can end without writing the pose: %s' % [show(x)[:100] for x in p.conds][-3:])
    T = Terms(M, h)
    R = T.R
    for s in sw.steps:
        got = {}
        for (base, path), v in s.writes.items():
            if not rep.ob(M.is_out(base) and path and path[0] == ('i', ix(h)), 'interpolation: writes', 'round %s writes %s' % (show(ix(h)), show(base)[:80])):
                continue
            fields = tuple(x[1] for x in path[1:])
            for f, xs in FIELDS:
                if fields and fields[0] != f:
                    continue
                vf = v if fields else it.proj(v, ('f', f))
                for x in xs:
                    if len(fields) == 2 and fields[1] != x:
                        continue
                    got[(f, x)] = vf if len(fields) == 2 else it.proj(vf, ('f', x))
        for f, xs in FIELDS:
            def key(k, path):
                return R.atom(mk('lane', mk('key', f, path), k))
            want = {}
            for k in range(4):
                t0, t1 = key(k, ('ratio', 0)), key(k, ('ratio', 1))
                al = R.mul(R.add(R.atom(mk('nm', 'ratio')), t0, -1), T.inv(R.add(t1, t0, -1)))
                v = [R.add(key(k, ('value', 0, x)), R.mul(R.add(key(k, ('value', 1, x)), key(k, ('value', 0, x)), -1), al)) for x in xs]
                if f == 'rotation':
                    d = {}
                    for y in v:
                        d = R.add(d, R.mul(y, y))
                    n = T.inv(T.fn1('sqrt', d))
                    v = [R.mul(y, n) for y in v]
                want[k] = v
            for j, x in enumerate(xs):
                v = got.get((f, x))
                if not rep.ob(v is not None, 'interpolation: %s' % f, '%s.%s of an element is not written' % (f, x)):
                    continue
                p = T.vec(q.canon(v))
                for k in range(4):
                    rep.ob(same(p[k], want[k][j]), 'interpolation: %s' % f, '%s.%s of lane %d is %s, expected %s' % (f, x, k, show_poly(p[k])[:400], show_poly(want[k][j])[:400]))
    rep.floor('interpolation steps', len(sw.steps), 1)


def failed(conds, M):
    """the job is not valid: something is missing or too small"""
    return any(all(failure(d, M) for d in disjuncts(c)) for c in conds)


def failure(c, M):
    if c.op == 'eq0':
        d, k = lin_parts(c.a[0])
        if len(d) == 1 and next(iter(d)).op == 'discr':
            a = next(iter(d)).a[0]
            if a.op == 'buf' and k != 0 or a.op != 'buf' and k == 0:
                return True
    if c.op == 'not' and c.a[0].op == 'eq0':
        d, k = lin_parts(c.a[0].a[0])
        if len(d) == 1 and next(iter(d)).op == 'discr':
            a = next(iter(d)).a[0]
            if a.op == 'buf' and k == 0 or a.op != 'buf' and k == -1:
                return True
    for n in (mk('len', M.out), M.q.canon(at('SamplingContext::max_soa_tracks', M.ctx))):
        if implied(le0(sub(add(M.q.canon(n), const(1)), M.ns)), {c}):
            return True
    return False


def varint(rep, M, c, h):
    """prefix byte, then four little-endian values of 1 to 4 bytes"""
    S, q = M.S, M.q
    if S.inner(h):
        rep.count('snapshot decoders not examined')
        return
    sw = S.sweep(h)
    what = '%s: snapshot format' % c.name
    n = 0
    for s in sw.steps:
        buf = None
        pos = [None] * 5
        vals = {}
        for (base, path), v in s.writes.items():
            i = M.entry_index(base, path, c)
            k = cval(sub(S.named(h, i), mul(const(4), ix(h)))) if i is not None else None
            vals[k] = v
        if set(vals) != {0, 1, 2, 3}:
            rep.count('snapshot decoders not examined')
            return
        want = const(1)
        for k in range(4):
            src = masked(M, vals[k], s)
            if src is None:
                rep.count('snapshot decoders not examined')
                return
            sel, table, (base, off) = src
            buf = buf or base
            bits = q.canon(mk('rem', div_(mk('elem', base, const(0)), 4 ** k), const(4)))
            alt = q.canon(div_(mk('elem', base, const(0)), 4 ** k))
            rep.ob(base is buf and off is want, what + ': position', 'value %d is read at %s, expected %s' % (k, show(off)[:120], show(want)[:120]))
            rep.ob(sel is bits or k == 3 and sel is alt, what + ': length', 'the length of value %d comes from %s, expected %s' % (k, show(sel)[:120], show(bits)[:120]))
            rep.ob(table == (0xff, 0xffff, 0xffffff, 0xffffffff), what + ': mask', 'masks are %s' % (table,))
            want = add(want, add(sel, const(1)))
            n += 1
        # the next group starts behind the last value
        nxt = s.env.get(buf)
        b, off = suffix(q.canon(nxt)) if nxt is not None else (None, None)
        rep.ob(b is buf and off is want, what + ': next group', 'the next group starts at %s, expected %s' % (show(off)[:120] if off is not None else '?', show(want)[:120]))
    rep.count('snapshot values compared', n)


def suffix(e):
    """(buffer, offset) of nested tails of a buffer"""
    off = const(0)
    while e.op == 'slice' and e.a[2].op == 'end':
        off = add(off, e.a[1])
        e = e.a[0]
    return e, off


def masked(M, v, s):
    q = M.q
    v = q.canon(v)
    while v.op == 'cast':
        v = v.a[1]
    if v.op != 'iBitAnd':
        return None
    for m, x in (v.a, v.a[::-1]):
        r, path = unproj(m)
        if len(path) == 1 and path[0][0] == 'i':
            m = mk('elem', r, path[0][1])
        if m.op != 'elem' or m.a[0].op != 'agg' or not (x.op == 'call' and x.a[0].endswith('from_le_bytes')):
            continue
        table = tuple(cval(y) for y in m.a[0].a[2])
        b = strip(x.a[1][0])
        if b.op != 'hv' or not isinstance(b.a[0], tuple):
            return None
        site = b.a[0][0]
        ev = [e for e in q.events('call') if e['block'] == site and e['name'].split('::')[-1] == 'copy_from_slice']
        if len(ev) != 1:
            return None
        d, src = (M.S.P.sub(y, s.path.pre) for y in ev[0]['args'])
        src = q.canon(src)
        d = q.canon(d)
        if src.op != 'slice' or src.a[1] is not const(0) or d.op != 'slice' or d.a[1] is not const(0) or d.a[0].op != 'ref':
            return None
        base, off = suffix(src.a[0])
        n = src.a[2]
        if n.op != 'min' or const(4) not in n.a:
            return None
        return m.a[1], table, (base, off)
    return None
