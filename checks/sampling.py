"""The sampling job: its tables (keyframe cache, outdated flags, decompressed keys), and the loops that maintain them."""
from common import *
from cursor import *
from soa import *
from sweeps import *
from spec import Job, at
from lanes import Mystery

CHANNELS = ('translation', 'rotation', 'scale')


class Bad(Exception):
    pass


class Chan:
    """one channel: names of its tables, its loops"""

    def __init__(self, name):
        self.name = name
        self.fill, self.iframe, self.outdate, self.fwd, self.rew, self.dec = [], [], [], [], [], []


class Sampling:
    def __init__(self, rep):
        self.rep = rep
        self.it = interp('SamplingJob::run', opaque=lambda k, f: k.endswith('::simd_decompress'), rep=rep)
        if self.it is None:
            raise Bad('SamplingJob::run not found')
        self.q = q = Q(self.it, norm=norm_idx)
        self.S = Sweeps(q)
        J = Job('SamplingJob')
        self.ctx, self.anim = mk('pay', J.f('context')), J.obj('animation')
        self.ratio = q.canon(J.f('ratio'))
        self.out = q.canon(mk('pay', mk('buf', J.obj('output'))))
        self.ns = q.canon(at('Animation::num_soa_tracks', self.anim))
        self.tp = q.canon(at('Animation::timepoints', self.anim))
        self.idval = q.canon(at('SamplingContext::animation_id', self.ctx))
        self.id = unproj(self.idval)
        self.rid = unproj(q.canon(at('SamplingContext::ratio', self.ctx)))
        self.nt = mul(const(4), self.ns)
        self.tables = {}          # array -> (channel, 'E' | 'O' | 'V')
        self.chans = []
        for name in CHANNELS:
            c = Chan(name)
            for k, acc in (('E', '%s_entries'), ('O', '%s_outdated'), ('V', '%ss')):
                base, lo, n = self.S.window(q.canon(at('SamplingContext::' + acc % name, self.ctx)))
                setattr(c, k, base)
                self.tables[base] = (c, k)
            c.next = unproj(q.canon(at('SamplingContext::%s_next' % name, self.ctx)))
            ctrl = q.canon(at('Animation::%ss_ctrl' % name, self.anim))
            c.interval = q.canon(self.it.proj(ctrl, ('f', 'iframe_interval')))
            for f in ('ratios', 'previouses', 'iframe_entries', 'iframe_desc'):
                setattr(c, f, q.canon(self.it.proj(ctrl, ('f', f))))
            c.keys = q.canon(at('Animation::%ss' % name, self.anim))
            c.count = q.canon(mk('len', c.previouses)) if c.previouses.op != 'rawslice' else c.previouses.a[1]
            self.chans.append(c)
        rets = {e['block'] for e in returns(q)}
        back = {}
        for b, es in q.edges.items():
            for t, _ in es:
                back.setdefault(t, []).append(b)
        self.good, todo = set(rets), list(rets)
        while todo:
            for p in back.get(todo.pop(), ()):
                if p not in self.good:
                    self.good.add(p)
                    todo.append(p)
        self.done = {}
        self.classify()

    # -- tables
    def table(self, base):
        """(channel, kind, offset) of an array expression"""
        b, lo, n = self.S.window(base)
        b = self.q.canon(b)
        if b in self.tables:
            return self.tables[b] + (lo,)
        return None

    def place(self, x):
        """(channel, kind, index, rest) of a value read from one of the tables"""
        if x.op not in ('phi', 'pj', 'elem', 'ld', 'hvarr', 'hv'):
            return None
        r, p = unproj(x)
        base = r
        if r.op == 'phi' and isinstance(r.a[1], tuple) and r.a[1] and isinstance(r.a[1][0], tuple) and r.a[1][0] and r.a[1][0][0] == 'M':
            base, p = r.a[1][0][1], tuple(r.a[1][1]) + p
        elif r.op == 'hvarr' and r.a[1][0] == 'M':
            base, p = r.a[1][1], tuple(r.a[2]) + p
        elif r.op == 'hv' and r.a[1][0][0] == 'M':
            base, p = r.a[1][0][1], tuple(r.a[1][1]) + p
        if not p or p[0][0] != 'i':
            return None
        t = self.table(base)
        if t is None:
            return None
        i = p[0][1]
        return t[0], t[1], add(t[2], self.q.canon(i) if isinstance(i, E) else const(i)), p[1:]

    def cells(self, e, hs=()):
        """table reads by name, counters of the loops hs by round"""
        memo = {}

        def f(x):
            r = self.place(x)
            if r is not None and r[1] in 'EO' and not r[3]:
                return mk('cell', r[0].name, r[1], self.cells(r[2], hs))
            return None
        for h in hs:
            e = self.S.named(h, e)
        e = self.q.subst(self.q.canon(e), f, memo)
        for h in hs:
            e = self.S.named(h, e)
        return e

    def cell(self, c, kind, i):
        return mk('cell', c.name, kind, i)

    def key_time(self, c, k):
        """time of the key before key k of the same track"""
        left = sub(k, mk('elem', c.previouses, k))
        return self.q.canon(mk('elem', self.tp, mk('elem', c.ratios, left)))

    def isnext(self, e, c):
        """e is the value of the channel's key cursor, read from the context"""
        r, p = unproj(e)
        if r.op == 'phi' and isinstance(r.a[1], tuple) and r.a[1] and isinstance(r.a[1][0], tuple) and r.a[1][0][0] == 'M':
            base, path = r.a[1]
            r, p = unproj(rebase(self.q.canon(base[1]), tuple(path) + p))
        return (r, p) == c.next

    def written(self, base, path):
        r, p = unproj(rebase(self.q.canon(base), path))
        return r, p

    # -- which loop does what
    def classify(self):
        S, q = self.S, self.q
        self.steps = {}
        self.other = []                   # loops over the output
        for h in S.inner(None):
            if h not in S.writers:
                if any('simd_decompress' in e['name'] for e in q.events('call') if e['block'] in S.outer[h]):
                    self.decompressing(h)
                continue
            kinds = set()
            for b in S.outer[h]:
                for e in S.stores.get(b, ()):
                    base = q.canon(e['loc'][0][1])
                    t = self.table(base)
                    if t is not None:
                        kinds.add((t[0], t[1]))
                    elif self.is_out(base):
                        kinds.add((None, 'out'))
                    elif self.S.window(base)[0].op in ('repeat', 'agg'):
                        pass
                    else:
                        kinds.add((None, show(base)[:80]))
                if b in S.bulk:
                    w = S.window(q.canon(S.bulk[b]['args'][0]))
                    t = self.table(w[0])
                    if t is not None:
                        kinds.add((t[0], t[1]))
                    elif self.is_out(w[0]):
                        kinds.add((None, 'out'))
            if not kinds:
                continue
            cs = {c for c, _ in kinds}
            if len(cs) != 1:
                self.rep.fail('loop writes', 'one loop writes tables of several channels: %s' % sorted((c.name if c else '', k) for c, k in kinds))
                raise Bad('loop over several tables')
            c, ks = cs.pop(), {k for _, k in kinds}
            if c is None:
                if ks == {'out'}:
                    self.other.append(h)
                else:
                    self.rep.fail('unexpected write', 'something else is written: %s' % sorted(ks))
                continue
            if 'V' in ks:
                c.dec.append(h)
            elif ks == {'O'}:
                c.outdate.append(h)
            elif ks == {'E', 'O'}:
                self.move(c, h)
            elif ks == {'E'}:
                self.initial(c, h)

    def is_out(self, base):
        b = self.S.window(self.q.canon(base))[0]
        return b is self.out or unproj(b)[0] is self.out

    def decompressing(self, h):
        for e in self.q.events('call'):
            if e['block'] in self.S.outer[h] and 'simd_decompress' in e['name']:
                w = self.target(e)
                if w is not None and h not in w[0].dec:
                    w[0].dec.append(h)

    def target(self, e):
        """(channel, group, half) a decompress call writes"""
        t = e['raw'][4]
        while t.op in ('&', 'deref'):
            t = t.a[0]
        if t.op != 'ref' or t.a[0][0][0] != 'M':
            return None
        base, path = t.a[0][0][1], t.a[0][1]
        r = self.table(self.q.canon(base))
        if r is None or r[1] != 'V' or len(path) != 3 or path[1] != ('f', 'value') or path[0][0] != 'i':
            return None
        k = num(path[2][1])
        i = path[0][1]
        return r[0], add(r[2], self.q.canon(i) if isinstance(i, E) else const(i)), k

    def initial(self, c, h):
        """a loop that only fills the cache: counting up, or decoding a stored snapshot"""
        sw = self.S.sweep(h)
        lin = all(self.entry_index(b, p, c) is not None for s in sw.steps for (b, p) in s.writes)
        if lin and any(s.writes for s in sw.steps) and all(self.q.canon(v) is add(self.nt, self.entry_index(b, p, c)) for s in sw.steps for (b, p), v in s.writes.items()):
            c.fill.append(h)
        else:
            c.iframe.append(h)

    def entry_index(self, base, path, c, kind='E'):
        t = self.table(self.q.canon(base))
        if t is None or t[0] is not c or t[1] != kind or len(path) != 1 or path[0][0] != 'i':
            return None
        i = path[0][1]
        return add(t[2], i if isinstance(i, E) else const(i))

    def move(self, c, h):
        """a loop that advances or rewinds the cursor: decided by the direction its counter moves"""
        d = set()
        for ph in self.S.P.phis.get(h, ()):
            i = self.q.induction(ph)
            if i is not None and cval(i[1]) in (1, -1) and any(self.mentions_next(v, ph) for s in self.S.sweep(h).steps for v in [self.times(s.conds)]):
                d.add((ph, cval(i[1])))
        if len(d) != 1:
            self.rep.fail('%s: cursor' % c.name, 'a loop changes the keyframe cache but no single cursor can be identified (%d candidates)' % len(d))
            raise Bad('cursor')
        ph, k = d.pop()
        (c.fwd if k == 1 else c.rew).append((h, ph))

    def times(self, conds):
        return [x for x in conds if strip_not(x).op == 'fcmp']

    def mentions_next(self, conds, ph):
        start = self.q.induction(ph)[0]
        h = ph.a[0]
        n = self.S.named(h, ph)
        return any(mentions(x, lambda y: isinstance(y, E) and (y is ph or y.op == 'lin' and mentions_lin(y, n))) for x in conds)

    # -- obligations
    def moves(self, c):
        """the forward and the rewind step of a channel"""
        rep, S, q = self.rep, self.S, self.q
        if not rep.ob(len(c.fwd) == 1 and len(c.rew) == 1, '%s: cursor loops' % c.name, 'expected one loop that advances the cursor and one that rewinds it, found %d and %d' % (len(c.fwd), len(c.rew))):
            raise Bad('cursor loops')
        (hf, pf), (hr, pr) = c.fwd[0], c.rew[0]
        rep.ob(q.dominates(hf, hr), '%s: order' % c.name, 'the cursor is rewound before it is advanced')
        for h, ph, up in ((hf, pf, True), (hr, pr, False)):
            what = '%s: %s' % (c.name, 'advance' if up else 'rewind')
            N = S.named(h, ph)
            sw = S.sweep(h)
            key = N if up else sub(N, const(1))
            late = mk('fcmp', 'Lt', self.ratio, self.key_time(c, key))
            early = mk('fcmp', 'Le', self.key_time(c, key), self.ratio)
            rep.floor('%s steps' % what, len(sw.steps), 1)
            for s in sw.steps:
                conds = {self.cells(x, (h,)) for x in s.conds}
                if up:
                    rep.ob(implied(le0(sub(add(N, const(1)), c.count)), known(conds)), what + ': range', 'the cursor is advanced without knowing that a key is left')
                    rep.ob(early in conds or neg(late) in conds, what + ': time', 'the cursor is advanced past a key although the key before it on its track may lie after the ratio')
                else:
                    rep.ob(late in conds or neg(early) in conds, what + ': time', 'the cursor is rewound although the preceding key on the track may not lie after the ratio')
                es = [(self.cells(self.entry_index(b, p, c), (h,)), v) for (b, p), v in s.writes.items() if self.entry_index(b, p, c) is not None]
                os = [(self.cells(self.entry_index(b, p, c, 'O'), (h,)), v) for (b, p), v in s.writes.items() if self.entry_index(b, p, c, 'O') is not None]
                rep.ob(len(es) + len(os) == len(s.writes), what + ': writes', 'something besides one cached key and its flag is written')
                if not rep.ob(len(es) == 1, what + ': cached key', '%d cached keys are changed in one step' % len(es)):
                    continue
                t, v = es[0]
                cur = self.cell(c, 'E', t)
                held = sub(N, mk('elem', c.previouses, N)) if up else key
                rep.ob(eq0(sub(cur, held)) in conds, what + ': track', 'the changed track %s is not known to hold key %s' % (show(t)[:60], show(held)[:80]))
                v = self.cells(v, (h,))
                v = q.subst(v, lambda x: key if x is cur and not up else None)
                want = N if up else sub(key, mk('elem', c.previouses, key))
                rep.ob(q.canon(v) is q.canon(want), what + ': new key', 'the track gets key %s, expected %s' % (show(v)[:120], show(want)[:120]))
                rep.ob(len(os) == 1 and self.flags(c, os[0], t, h), what + ': flag', 'the group of the changed track is not marked outdated: %s' % [(show(i)[:60], show(self.cells(x, (h,)))[:160]) for i, x in os])
            regular = 0
            for cs, p in sw.exits:
                if p.end not in self.good:
                    continue
                conds = {self.cells(x, (h,)) for x in cs}
                regular += 1
                done = neg(early) in conds or late in conds if up else neg(late) in conds or early in conds
                if up and not done:
                    done = implied(le0(sub(c.count, N)), known(conds))
                rep.ob(done, what + ': end', 'the cursor stops although the next step is still due: %s' % [show(x)[:100] for x in conds if strip_not(x).op == 'fcmp'])
                rep.ob(not any(b in S.stores for b in p.blocks[:-1]), what + ': end', 'tables are written on the way out of the loop')
            rep.ob(regular >= 1, what + ': ends', 'no regular end')
        self.handover(c)

    def flags(self, c, store, t, h):
        i, v = store
        v = self.cells(v, (h,))
        if v.op != 'iBitOr':
            return False
        tc = cval(t)
        idx = [div_(t, 32), mk('div', mk('div', t, const(4)), const(8)), div_(div_(t, 4), 8)]
        bits = [mk('div', mk('rem', t, const(32)), const(4)), mk('rem', div_(t, 4), const(8)), mk('rem', mk('div', t, const(4)), const(8))]
        for a, b in (v.a, v.a[::-1]):
            if a is not self.cell(c, 'O', i):
                continue
            if b.op == 'cast':
                b = b.a[1]
            if isinstance(tc, int):
                return evaluate(i) == tc // 32 and evaluate(b) == 1 << ((tc // 4) % 8)
            if b.op == 'iShl' and cval(b.a[0]) == 1 and any(i is x for x in idx) and any(b.a[1] is x for x in bits):
                return True
        return False

    def handover(self, c):
        """the cursor goes from the forward loop to the rewind loop and back to the context"""
        rep, S, q = self.rep, self.S, self.q
        (hf, pf), (hr, pr) = c.fwd[0], c.rew[0]
        for cs, x in S.sweep(hf).exits:
            if x.end not in self.good:
                continue
            ps = [x] if x.end == hr else [y for y in S.P.from_(x.end, {hr}, env=x.env, conds=x.conds, collapse=S.inner(None)) if y.end == hr]
            for y in ps:
                v = self.entering(y, pr)
                rep.ob(v is not None and (q.canon(v) is q.canon(pf) or q.canon(v) is S.named(hf, pf)), '%s: cursor between loops' % c.name,
                       'the rewind loop starts at %s, not where the forward loop stopped' % (show(v)[:100] if v is not None else '?'))
        stores = [e for b, es in S.stores.items() for e in es if self.written(e['loc'][0][1], e['loc'][1]) == c.next]
        last = [e for e in stores if not q.canon(e['value']) is const(0)]
        if rep.ob(len(last) == 1 and q.canon(last[0]['value']) is q.canon(pr), '%s: cursor saved' % c.name,
                  'the cursor of the last loop is not what is stored in the context: %s' % [show(q.canon(e['value']))[:80] for e in last]):
            e = last[0]
            ends = [b for b in (c.dec or self.other)]
            rep.ob(e['block'] not in S.outer[hr] and q.dominates(hr, e['block']) and all(q.dominates(e['block'], d) for d in ends), '%s: cursor saved' % c.name,
                   'the cursor is not saved on every path after the cache is up to date')
            c.saved = e['block']

    def init(self, c, start, conds, env):
        """every way from `start` to the forward loop either keeps a cache of this animation or sets up all of it"""
        rep, S, q = self.rep, self.S, self.q
        hf, pf = c.fwd[0]
        kinds = {}
        for p in S.paths(start, {hf}, conds=conds, env=env):
            if p.end != hf or p.cyclic or not consistent(p.conds, q):
                continue
            if any(self.impossible(x, c) for x in p.conds):
                continue
            tr = S.trace(p)
            mine = [x for x in tr if self.touches(x, c)]
            v = self.entering(p, pf)
            es = [x for x in mine if x[1] in c.fill or x[1] in c.iframe or x[0] == 'bulk' and self.bulk_kind(x[1]) == 'E']
            if not rep.ob(v is not None, '%s: cursor start' % c.name, 'the value the cursor starts from is not known'):
                continue
            if not es:
                kinds['kept'] = kinds.get('kept', 0) + 1
                ok = self.isnext(v, c)
                rep.ob(ok, '%s: kept cache' % c.name, 'the cache is kept but the cursor starts at %s' % show(v)[:100])
                if ok:
                    nz = {x for x in p.conds} | {neg(eq0(v))} if v.op == 'const' else set(p.conds)
                    rep.ob(neg(eq0(v)) in p.conds or implied(le0(sub(const(1), v)), set(p.conds)), '%s: fresh cache' % c.name,
                           'a cache that was never set up for this animation (cursor 0) can be used as it is')
                rep.ob(not mine, '%s: kept cache' % c.name, 'flags are changed although the cache is kept')
                continue
            if es[0][1] in c.fill:
                kinds['from the start'] = kinds.get('from the start', 0) + 1
                rep.ob(v is mul(const(2), self.nt), '%s: start cursor' % c.name, 'the cache starts with the first two keys of every track but the cursor at %s' % show(v)[:100])
            else:
                kinds['from a snapshot'] = kinds.get('from a snapshot', 0) + 1
                rep.ob(self.snapshot_cursor(c, v, es, p), '%s: snapshot cursor' % c.name, 'the cursor after a snapshot starts at %s' % show(v)[:160])
            rep.ob(len(es) == 1, '%s: one setup' % c.name, 'the cache is set up %d times' % len(es))
            self.all_flags(c, p, [x for x in mine if x not in es])
        rep.count('%s: ways to start' % c.name, sum(kinds.values()))
        rep.ob('kept' in kinds and 'from the start' in kinds, '%s: ways to start' % c.name, 'only %s found' % sorted(kinds))
        for h in c.fill:
            why = covers(S.sweep(h), self.nt, {le0(sub(const(1), self.ns))})
            rep.ob(why is None, '%s: whole cache' % c.name, 'setting up from the start does not treat exactly the tracks: %s' % why)
        for h in c.iframe:
            self.snapshot(c, h)

    def impossible(self, x, c):
        """a snapshot number below 0 (ratio and interval are never negative)"""
        if x.op != 'le0':
            return False
        d, k = lin_parts(x.a[0])
        return k > 0 and bool(d) and all(f > 0 and self.positive(a, c) for a, f in d.items())

    def positive(self, a, c):
        if a is self.ratio or a is c.interval:
            return True
        if a.op in ('fconst', 'const'):
            return a.a[0] >= 0
        if a.op in ('fAdd', 'fMul', 'fDiv'):
            return all(self.positive(y, c) for y in a.a)
        if a.op == 'call' and a.a[0].split('::')[-1] in ('round', 'floor', 'ceil', 'trunc'):
            return all(self.positive(y, c) for y in a.a[1])
        return a.op in ('cast', 'f2i') and isinstance(a.a[1], E) and self.positive(a.a[1], c)

    def entering(self, p, ph):
        """value a loop variable has when path p arrives at its loop"""
        v = self.it.phi_in.get(ph, {}).get(p.blocks[-2]) if len(p.blocks) > 1 else None
        return self.S.P.sub(v, p.pre) if v is not None else None

    def upto(self, p, h):
        """value of the variables before the edge of path p into loop h"""
        P, inner = self.S.P, self.S.inner(None)
        n = p.blocks.index(h)
        env = {}
        for b, t in zip(p.blocks[:n], p.blocks[1:n]):
            env = P.step(b, t, env)
            if t in inner and b not in inner[t]:
                for ph in P.phis.get(t, ()):
                    if any(x in inner[t] and not P.same(ph, v) for x, v in self.it.phi_in[ph].items()):
                        env = dict(env)
                        env.pop(ph, None)
        return Part(p.blocks[:n + 1], env)

    def touches(self, x, c):
        kind, b = x
        if kind == 'loop':
            return b in c.fill or b in c.iframe or b in c.outdate
        return self.bulk_table(b) is not None and self.bulk_table(b)[0] is c

    def bulk_table(self, b):
        return self.table(self.S.window(self.q.canon(self.S.bulk[b]['args'][0]))[0])

    def bulk_kind(self, b):
        t = self.bulk_table(b)
        return t and t[1]

    def all_flags(self, c, p, tr):
        """on path p every group below the number of groups is marked, and none above"""
        rep, S, q = self.rep, self.S, self.q
        G = mk('div_ceil', self.ns, const(8))
        spans = []
        where = '%s: flags after setup' % c.name
        for kind, b in tr:
            if kind == 'loop':
                sw = S.sweep(b)
                n = self.length(sw)
                for s in sw.steps:
                    for (base, path), v in s.writes.items():
                        i = self.entry_index(base, path, c, 'O')
                        if not rep.ob(i is not None and cval(q.canon(v)) == 255 and n is not None, where, 'flags are set to %s' % show(v)[:80]):
                            return
                        lo = sub(i, ix(b))
                        spans.append((lo, add(lo, n), 255))
            else:
                base, lo, n, k, src = S.bulk_op(b, p.env)
                t = self.table(base)
                if not rep.ob(k == 'fill' and cval(src) == 255, where, 'flags are set by %s' % k):
                    return
                spans.append((add(t[2], lo), add(add(t[2], lo), n), 255))
        for (base, path), v in S.writes(p).items():
            i = self.entry_index(base, path, c, 'O')
            if i is not None:
                # the counter of a finished loop stands at its end
                i = q.subst(i, lambda x: self.final(x))
                spans.append((q.canon(i), add(q.canon(i), const(1)), q.canon(v)))
        last = sub(G, const(1))
        got = const(0)
        okv = {q.canon(mk('iShr', const(255), sub(mul(const(8), G), self.ns)))}
        full = [s for s in spans if s[2] == 255]
        part = [s for s in spans if s[2] != 255]
        rep.ob(len(full) == 1 and full[0][0] is const(0) and full[0][1] in (last, G), where, 'the flags of whole blocks are not all set: %s' % [(show(a)[:60], show(b)[:60]) for a, b, _ in full])
        rep.ob(len(part) == 1 and part[0][0] is last and part[0][2] in okv, where, 'the flags of the last block are not set to exactly the existing groups: %s' % [(show(a)[:60], show(v)[:80]) for a, b, v in part])
        rep.count('%s: flag setups' % c.name)

    def final(self, x):
        if x.op == 'phi' and x.a[0] in self.S.outer:
            i = self.q.induction(x)
            n = self.length(self.S.sweep(x.a[0]))
            if i is not None and n is not None and isinstance(cval(i[1]), int):
                return add(i[0], mul(n, i[1]))
        return None

    def length(self, sw):
        """number of rounds of a counting loop"""
        k = sw.h
        if k in self.done:
            return self.done[k]
        r = None
        cands = []
        for cs, p in sw.exits:
            for x in cs:
                for y in [x] if x.op == 'le0' else disjuncts(x) or ():
                    if y.op == 'le0':
                        d, c = lin_parts(y.a[0])
                        if d.get(ix(sw.h)) == -1:
                            cands.append(add(y.a[0], ix(sw.h)))
        for n in cands:
            if covers(sw, n, {le0(sub(const(1), self.ns)), le0(sub(const(1), mk('div_ceil', self.ns, const(8))))}) is None:
                r = n
        self.done[k] = r
        return r

    def snapshot(self, c, h):
        """decoding a snapshot writes every cached key from the stored snapshot alone"""
        rep, S, q = self.rep, self.S, self.q
        sw = S.sweep(h)
        what = '%s: snapshot' % c.name
        inner = S.inner(h)
        if inner:
            rep.count('snapshot decoders not examined')
            return
        why = covers(sw, self.ns, {le0(sub(const(1), self.ns))})
        if why is not None:
            why = None if self.good_exits(sw, self.ns) else why
        rep.ob(why is None, what + ': whole cache', 'decoding does not treat exactly the groups of tracks: %s' % why)
        for s in sw.steps:
            got = set()
            for (base, path), v in s.writes.items():
                i = self.entry_index(base, path, c)
                if i is None:
                    rep.fail(what + ': write', 'something besides the cached keys is written: %s' % show(base)[:80])
                    continue
                k = sub(S.named(h, i), mul(const(4), ix(h)))
                got.add(cval(k))
                rep.ob(self.decoded(c, h, v), what + ': source', 'the cached key is %s' % show(v)[:120])
            rep.ob(got == {0, 1, 2, 3}, what + ': whole group', 'keys %s of a group of four are decoded' % sorted(got, key=str))

    def good_exits(self, sw, n):
        for cs, p in sw.exits:
            if p.end in self.good and not ends_at(cs, n, ix(sw.h), {le0(sub(const(1), self.ns))}):
                return False
        return all(implied(le0(sub(add(ix(sw.h), const(1)), n)), known(s.conds)) for s in sw.steps)

    def decoded(self, c, h, v):
        """the value is made of bytes of the snapshot only"""
        bad = []

        def look(x):
            if not isinstance(x, E):
                return False
            if x.op == 'phi':
                l = x.a[1]
                if l[0][0] == 'M' or not self.from_snapshot(c, x):
                    bad.append(x)
            if x.op == 'cell' or x is self.ratio:
                bad.append(x)
            return False
        mentions(v, look)
        return not bad

    def from_snapshot(self, c, ph, seen=()):
        if ph in seen:
            return True
        vs = list(self.it.phi_in.get(ph, {}).values())
        if not vs:
            return False
        ok = True
        for v in vs:
            v = self.q.canon(v)
            r, p = unproj(v)
            b = v
            while b.op == 'slice':
                b = b.a[0]
            if b is ph or b is c.iframe_entries or b.op == 'phi' and self.from_snapshot(c, b, seen + (ph,)):
                continue
            i = self.q.induction(ph)
            if i is not None:
                continue
            ok = False
        return ok

    # -- decompression
    def refresh(self, c, values=True):
        """flagged groups are decompressed from the keys the cache names; values: also compare the operands"""
        rep, S, q = self.rep, self.S, self.q
        what = '%s: decompression' % c.name
        if not rep.ob(len(c.dec) == 1, what, 'expected one loop that decompresses the keys, found %d' % len(c.dec)):
            raise Bad('decompression')
        h = c.dec[0]
        rep.ob(c.saved is None or q.dominates(c.saved, h), what + ': order', 'keys are decompressed before the cache is up to date')
        rep.ob(len(self.other) == 1 and q.dominates(h, self.other[0]), what + ': order', 'the pose is interpolated before the keys are decompressed')
        inner = S.inner(h)
        lvl = [h]
        if len(inner) == 1:
            lvl.append(next(iter(inner)))
        elif inner:
            rep.fail(what + ': loops', '%d loops inside the decompression loop' % len(inner))
            return
        hi = lvl[-1]
        sw = S.sweep(hi)
        G = mk('div_ceil', self.ns, const(8))
        if len(lvl) == 2:
            rep.ob(self.rounds(S.sweep(h), G), what + ': every block of flags', 'the loop over the blocks of flags does not treat exactly ceil(groups / 8) of them')
            rep.ob(self.rounds(sw, const(8)), what + ': every flag', 'the loop over the flags of a block does not treat all 8')
            group = add(mul(const(8), ix(h)), ix(hi))
        else:
            rep.ob(self.rounds(sw, self.ns), what + ': every group', 'the loop over the groups does not treat exactly the groups of the animation')
            group = ix(hi)
        for s in S.sweep(h).steps if len(lvl) == 2 else ():
            for (base, path), v in s.writes.items():
                i = self.entry_index(base, path, c, 'O')
                rep.ob(i is ix(h) and q.canon(v) is const(0), what + ': writes', 'the loop over the blocks of flags writes %s' % show(base)[:80])
        fresh = 0
        for s in sw.steps:
            conds = {self.cells(x, lvl) for x in s.conds}
            got = {}
            for b in s.path.blocks[:-1]:
                for e in q.events('call'):
                    if e['block'] == b and 'simd_decompress' in e['name']:
                        t = self.target(e)
                        if not rep.ob(t is not None, what + ': target', 'decompresses to %s' % show(e['raw'][4])[:100]):
                            continue
                        g = self.cells(S.P.sub(t[1], s.path.pre), lvl)
                        rep.ob(t[0] is c and g is group, what + ': target', 'group %s is decompressed in round %s' % (show(g)[:80], show(group)[:80]))
                        got[('value', t[2])] = [self.cells(S.P.sub(a, s.path.pre), lvl) for a in e['args'][:4]]
            for (base, path), v in s.writes.items():
                t = self.table(q.canon(base))
                if t is not None and t[0] is c and t[1] == 'O' and self.one_flag_cleared(c, base, path, v):
                    continue
                if not rep.ob(t is not None and t[0] is c and t[1] == 'V' and len(path) == 3 and path[1] == ('f', 'ratio'), what + ': writes', 'writes %s %s' % (show(base)[:80], [x[0] for x in path])):
                    continue
                g = self.cells(add(t[2], path[0][1]), lvl)
                rep.ob(g is group, what + ': target', 'times of group %s are written in round %s' % (show(g)[:80], show(group)[:80]))
                got[('ratio', num(path[2][1]))] = self.cells(v, lvl)
            if not got:
                rep.ob(self.clear(c, conds, sw, hi, group, lvl), what + ': skipped', 'a group is not refreshed although its flag may be set: %s' % [show(x)[:100] for x in conds][:4])
                continue
            fresh += 1
            rep.ob(set(got) == {(a, k) for a in ('value', 'ratio') for k in (0, 1)}, what + ': complete', 'only %s of a flagged group are refreshed' % sorted(got, key=str))
            if values:
                self.operands(c, got, group, what)
        rep.floor(what + ' steps', fresh, 1)

    def operands(self, c, got, group, what):
        rep, q = self.rep, self.q
        for k in (0, 1):
            for lane in range(4):
                right = self.cell(c, 'E', add(mul(const(4), group), const(lane)))
                key = right if k else sub(right, mk('elem', c.previouses, right))
                side = 'next' if k else 'previous'
                v = got.get(('value', k))
                if v is not None:
                    x = strip(v[lane])
                    while x.op == 'call' and x.a[0].endswith('::clone'):
                        x = strip(x.a[1][0])
                    rep.ob(x is mk('elem', c.keys, key), what + ': %s key' % side, 'lane %d decompresses %s, expected key %s' % (lane, show(x)[:200], show(key)[:120]))
                r = got.get(('ratio', k))
                if r is not None:
                    xs = self.four(r)
                    want = mk('elem', self.tp, mk('elem', c.ratios, key))
                    rep.ob(xs is not None and xs[lane] is want, what + ': %s time' % side, 'lane %d has time %s, expected %s' % (lane, show(xs[lane] if xs else r)[:200], show(want)[:160]))

    def four(self, v):
        if v.op == 'call' and v.a[0].split('::')[-1] in ('from_array', 'from', 'into', 'new') and len(v.a[1]) == 1:
            v = v.a[1][0]
        v = strip(v)
        if v.op == 'agg' and len(v.a[2]) == 4:
            return [strip(x) for x in v.a[2]]
        return None

    def rounds(self, sw, n):
        facts = {le0(sub(const(1), self.ns)), le0(sub(const(1), mk('div_ceil', self.ns, const(8))))}
        return covers(sw, n, facts) is None or bool(sw.steps) and bool(sw.exits) and self.good_exits(sw, n)

    def one_flag_cleared(self, c, base, path, v):
        return False

    def clear(self, c, conds, sw, h, group, lvl):
        """the conditions say that the flag of the group is not set"""
        for x in conds:
            n = False
            if x.op == 'eq0':
                a = x.a[0]
                if a.op == 'rem' and cval(a.a[1]) == 2:
                    f = self.flag_of(c, a.a[0], lvl)
                    if f is not None and self.names(f, group, lvl):
                        return True
                if a.op == 'iBitAnd':
                    for y, z in (a.a, a.a[::-1]):
                        if z.op == 'iShl' and cval(z.a[0]) == 1 and y.op == 'cell' and y.a[0] == c.name and y.a[1] == 'O' and self.names((y.a[2], z.a[1]), group, lvl):
                            return True
        return False

    def flag_of(self, c, x, lvl):
        """(block of flags, bit) that is the lowest bit of x"""
        if x.op in ('iShr', 'cast'):
            if x.op == 'iShr' and x.a[0].op == 'cell':
                return x.a[0].a[2], x.a[1]
            return None
        if x.op == 'cell':
            return x.a[2], const(0)
        if x.op == 'phi' and x.a[0] in lvl:
            start = None
            body = self.S.outer[x.a[0]]
            for p, v in self.it.phi_in[x].items():
                v = self.q.canon(v)
                if p in body:
                    if not (v is mk('div', x, const(2)) or v.op == 'iShr' and v.a[0] is x and cval(v.a[1]) == 1 or self.halved(v, x)):
                        return None
                elif start is None or start is v:
                    start = v
                else:
                    return None
            start = self.cells(start, lvl)
            if start.op == 'cell' and start.a[0] == c.name and start.a[1] == 'O':
                return start.a[2], ix(x.a[0])
        return None

    def halved(self, v, x, seen=()):
        if v.op == 'phi' and v not in seen and v in self.it.phi_in:
            return all(self.halved(self.q.canon(y), x, seen + (v,)) for y in self.it.phi_in[v].values())
        return v is mk('div', x, const(2))

    def names(self, f, group, lvl):
        block, bit = f
        if add(mul(const(8), block), bit) is group:
            return True
        g8, r8 = mk('div', group, const(8)), mk('rem', group, const(8))
        return block in (g8, div_(group, 8)) and bit is r8

    # -- everything else stays as it is
    def frame(self):
        rep, S, q = self.rep, self.S, self.q
        known_loops = {h for c in self.chans for h in c.fill + c.iframe + c.outdate + c.dec + [x[0] for x in c.fwd + c.rew]} | set(self.other)
        inside = {b for h in known_loops for b in S.outer[h]}
        n = 0
        for b, es in S.stores.items():
            for e in es:
                n += 1
                if b in inside:
                    continue
                base, path = e['loc'][0][1], e['loc'][1]
                loc = self.written(base, path)
                t = self.table(q.canon(base))
                ok = loc in (self.id, self.rid) or any(loc == c.next for c in self.chans)
                ok = ok or t is not None and t[1] == 'O' and any(q.dominates(h, b) for h in t[0].outdate) or t is not None and t[1] == 'O' and t[0].outdate == []
                rep.ob(ok, 'other writes', 'also written: %s %s' % (show(q.canon(base))[:80], show(q.canon(e['value']))[:60]))
                if loc == self.rid:
                    rep.ob(q.canon(e['value']) is self.ratio, 'stored ratio', 'the context stores %s as its ratio' % show(q.canon(e['value']))[:80])
        for b in S.bulk:
            if b in inside:
                continue
            w = S.window(q.canon(S.bulk[b]['args'][0]))
            t = self.table(w[0])
            if t is None and not self.is_out(w[0]):
                continue
            rep.ob(t is not None and t[1] == 'O', 'other writes', 'bulk write to %s' % show(w[0])[:80])
        rep.count('stores examined', n)

    def owner(self):
        """on every path to the first cache the animation is the one the context belongs to, or all cursors are reset"""
        rep, S, q = self.rep, self.S, self.q
        first = [c.fwd[0][0] for c in self.chans if all(q.dominates(c.fwd[0][0], d.fwd[0][0]) for d in self.chans)]
        if not rep.ob(len(first) == 1, 'owner', 'the channels are not updated one after the other'):
            return
        n = 0
        same_id = q.canon(eq0(sub(self.idval, self.anim)))
        for p in S.paths(self.it.body.entry, {first[0]}):
            if p.end != first[0] or p.cyclic or not consistent(p.conds, q):
                continue
            n += 1
            w = {self.written(b, pa): v for (b, pa), v in S.writes(p).items()}
            if same_id in p.conds:
                continue
            v = w.get(self.id)
            rep.ob(v is not None and q.canon(v) is q.canon(self.anim), 'owner: recorded', 'the context may belong to another animation and is not handed over: %s' % (show(v)[:80] if v is not None else 'nothing stored'))
            for c in self.chans:
                v = w.get(c.next)
                rep.ob(v is not None and q.canon(v) is const(0), 'owner: %s cursor reset' % c.name, 'with another animation the cursor is %s' % (show(v)[:80] if v is not None else 'left as it was'))
        rep.floor('ways to the first cache', n, 4)
        stores = [(b, e) for b, es in S.stores.items() for e in es]
        for c in self.chans:
            for b, e in stores:
                if self.written(e['loc'][0][1], e['loc'][1]) == c.next and q.canon(e['value']) is const(0):
                    rep.ob(q.dominates(b, first[0]) or not q.dominates(first[0], b), 'owner: %s reset' % c.name, 'the cursor is reset after the cache was used')

    def snapshot_cursor(self, c, v, es, p):
        # descriptor pair of the snapshot: (offset, last key)
        d, k = lin_parts(v)
        if k != 1 or len(d) != 1:
            return False
        (a, f), = d.items()
        r, pa = unproj(a)
        if f != 1 or a.op != 'elem' or a.a[0] is not c.iframe_desc:
            return False
        pos = sub(a.a[1], const(1))
        # the snapshot decoded is the one the descriptor names
        h = es[0][1]
        for ph in self.S.P.phis.get(h, ()):
            x = self.entering(self.upto(p, h), ph)
            if x is None:
                continue
            if x.op == 'slice' and x.a[0] is c.iframe_entries:
                return x.a[1] is self.q.canon(mk('elem', c.iframe_desc, pos)) and x.a[2].op == 'end'
        return False


class Part:
    def __init__(self, blocks, pre):
        self.blocks, self.pre = blocks, pre


def rebase(base, path):
    return mk('ld', base, tuple(path)) if path else base


def strip_not(c):
    while c.op == 'not':
        c = c.a[0]
    return c


def mentions_lin(y, n):
    """the linear form contains the whole form n"""
    d, c = lin_parts(y)
    m, k = lin_parts(n)
    return bool(m) and all(d.get(a) == v for a, v in m.items())


def evaluate(e):
    c = cval(e)
    if isinstance(c, int):
        return c
    if e.op in ('div', 'rem', 'iShl', 'iShr', 'iBitOr', 'iBitAnd') and len(e.a) == 2:
        a, b = evaluate(e.a[0]), evaluate(e.a[1])
        if a is None or b is None:
            return None
        return {'div': lambda: a // b, 'rem': lambda: a % b, 'iShl': lambda: a << b, 'iShr': lambda: a >> b, 'iBitOr': lambda: a | b, 'iBitAnd': lambda: a & b}[e.op]()
    return None
