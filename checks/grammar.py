"""The typed read structure of a loader: what it consumes from the stream, in what order, under which
conditions, and where every value ends up.

A loader is interpreted with everything crate-local inlined down to Read::read_exact.  From the CFG a rational
term is built (join points shared): READ(site, width) . rest, BRANCH(cond, a, b), MU(header, body), BACK(header),
OK(return), FAIL(error).  The term is then matched against the documented layout by product exploration."""
from common import *
from flow import Interp as _I


def read_exact_model(it, st, b, name, func, vals, vargs, argtys, dty):
    """Read::read_exact(reader, buf): buf now holds the next bytes of the stream"""
    if not (name.endswith(' as Read>::read_exact') or name.endswith('Read::read_exact')):
        return None
    p = vals[1]
    n = it.len_of(st, p)
    base = p
    off = const(0)
    while base.op in ('rawslice', 'unsize', 'slice'):
        if base.op == 'slice':
            off = add(off, base.a[1])
        base = base.a[0]
    v = mk('rd', b, n)
    if base.op == 'ref':
        it.store(st, base.a[0], v)
    else:
        it.store(st, (('M', base), ()), v)
    # the reader itself moves on
    return mk('io', b)


WATCH = ('push', 'insert', 'from_utf8', 'extend', 'extend_from_slice')
MODELS = {'read_exact': read_exact_model}


def norm_read(e):
    """bytes read, whatever the byte order they were stored in, are one value"""
    if e.op == 'call':
        n = e.a[0].split('::')[-1]
        if n in ('swap_bytes', 'to_bits', 'from_bits', 'to_be', 'to_le', 'from_be', 'from_le', 'from_ne_bytes', 'from_le_bytes', 'from_be_bytes') and len(e.a[1]) == 1:
            return e.a[1][0]
    if e.op == 'pj' and e.a[0].op == 'rd' and e.a[1] == ('i', const(0)) and e.a[0].a[1] is const(1):
        return e.a[0]
    return norm_job(e)


def norm_swap(e):
    """byte order kept: sw(x) is x with its bytes reversed.  Both targets (x86_64, wasm32) are little-endian."""
    if e.op == 'call' and len(e.a[1]) == 1:
        n = e.a[0].split('::')[-1]
        x = e.a[1][0]
        if n in ('swap_bytes', 'to_be', 'from_be', 'from_be_bytes', 'to_be_bytes'):
            if x.op == 'sw':
                return x.a[0]
            if x.op == 'rd' and x.a[1] is const(1):
                return x
            return mk('sw', x)
        if n in ('to_bits', 'from_bits', 'to_le', 'from_le', 'from_le_bytes', 'from_ne_bytes', 'to_ne_bytes', 'to_le_bytes'):
            if n in ('to_ne_bytes', 'to_le_bytes') and x.op == 'const':
                return None
            return x
    if e.op == 'pj' and e.a[0].op == 'call' and e.a[0].a[0].split('::')[-1] in ('to_ne_bytes', 'to_le_bytes', 'to_be_bytes') and e.a[1][0] == 'i' and is_const(e.a[1][1]):
        m = e.a[0].a[0].split('::')[-1]
        x = e.a[0].a[1][0]
        w = re_width(e.a[0].a[0])
        if is_const(x) and w:
            b = (cval(x) & ((1 << 8 * w) - 1)).to_bytes(w, 'big' if m == 'to_be_bytes' else 'little')
            return const(b[cval(e.a[1][1])])
    if e.op == 'pj' and e.a[0].op == 'rd' and e.a[1] == ('i', const(0)) and e.a[0].a[1] is const(1):
        return e.a[0]
    if e.op == 'sw' and e.a[0].op == 'sw':
        return e.a[0].a[0]
    if e.op == 'sw' and e.a[0].op == 'rd' and e.a[0].a[1] is const(1):
        return e.a[0]
    if e.op == 'call' and len(e.a[1]) == 2 and e.a[0].endswith(('as PartialEq>::eq', 'as PartialEq>::ne')):
        x, y = strip(e.a[1][0]), strip(e.a[1][1])
        if x.op == y.op == 'agg' and not x.a[2] and not y.a[2]:      # derived equality of unit variants
            return const((x.a[0] == y.a[0]) == e.a[0].endswith('eq'))
    return norm_job(e)


def re_width(name):
    for t, w in (('u16', 2), ('i16', 2), ('u32', 4), ('i32', 4), ('u64', 8), ('i64', 8)):
        if '<impl %s>' % t in name or name.startswith(t + '::'):
            return w
    return None


class Terms:
    """Path terms of an interpreted function.  Joins are threaded: a φ whose value is known on the path taken is
    replaced by that value, so that a Result built on one arm is not confused with the other arm's."""

    def __init__(self, q):
        self.q = q
        self.it = q.it
        q.loops()
        self.reads = {}
        for e in q.events('call'):
            if e['result'].op == 'io':
                self.reads[e['block']] = (e['result'], mk('rd', e['block'], self._len(e)))
        self.ret = {e['block']: e for e in returns(q)}
        self.memo = {}
        self.tab = {}
        self.evs = {}
        for e in q.events():
            if e['kind'] == 'store':
                self.evs.setdefault(e['block'], []).append(('store', e['loc'][0][1], e['loc'][1], e['value']))
            elif e['kind'] == 'set' and any(p[0] == 'i' for p in e['loc'][1]):
                self.evs.setdefault(e['block'], []).append(('set', e['loc'], e['value']))
            elif e['kind'] == 'call' and e['name'].split('::')[-1] in WATCH:
                self.evs.setdefault(e['block'], []).append(('call', e['name'].split('::')[-1], tuple(e['args']), e['block'], tuple(e['raw'])))
        self.phis = {}
        for ph, ins in self.it.phi_in.items():
            if ph not in self.it.phi_alias and ph.a[1][0][0] == 'L' and ph.a[0] not in q.loops():
                self.phis.setdefault(ph.a[0], []).append(ph)
        self._liveness()

    def _len(self, e):
        x = e['args'][1]
        while x.op == '&':
            x = x.a[0]
        return self.it._len(x)

    def _liveness(self):
        """φs that can still matter at a block"""
        q = self.q
        use = {}
        cond = {}
        for b in q.live:
            s = set()
            for t, c in q.edges.get(b, []):
                if c is not None:
                    s.add(q.canon(c[1]))
            if b in self.ret:
                s.add(q.canon(self.ret[b]['value']))
            use[b] = s
        for e in q.events('call'):
            if e['name'].split('::')[-1] in WATCH:
                use[e['block']] |= {q.canon(x) for x in e['args']}
        for e in q.events('store'):
            use[e['block']] |= {q.canon(e['value']), q.canon(e['loc'][0][1])}
        for e in q.events('set'):
            if any(p[0] == 'i' for p in e['loc'][1]):
                use[e['block']].add(q.canon(e['value']))
        memo = {}

        def phis(x):
            if x not in memo:
                memo[x] = frozenset(y for y in walk(x) if y.op == 'phi')
            return memo[x]
        direct = {b: frozenset().union(*[phis(x) for x in s]) if s else frozenset() for b, s in use.items()}
        # through the inputs of φs defined further down
        dep = {}

        def closure(ph, seen):
            st = [ph]
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                for v in self.it.phi_in.get(x, {}).values():
                    st.extend(phis(q.canon(v)))
        live = {b: set(direct[b]) for b in q.live}
        full = {}
        for b in q.live:
            s = set()
            for ph in direct[b]:
                if ph not in dep:
                    z = set()
                    closure(ph, z)
                    dep[ph] = z
                s |= dep[ph]
            full[b] = s
        ch = True
        order = list(reversed(q.order()))
        while ch:
            ch = False
            for b in order:
                s = full[b]
                n = len(s)
                for t in q.succ(b):
                    s |= full[t]
                if len(s) != n:
                    ch = True
        self.livephi = full

    def t(self, *k):
        r = self.tab.get(k)
        if r is None:
            r = self.tab[k] = mk('T' + k[0], *k[1:])
        return r

    def val(self, e, sg):
        if not sg:
            return e
        d = dict(sg)
        key = (e, sg)
        r = self._vm.get(key) if hasattr(self, '_vm') else None
        if r is None:
            if not hasattr(self, '_vm'):
                self._vm = {}
            nf = self.q.normf

            def f(x):
                r = d.get(x)
                if r is None and nf is not None:
                    r = nf(x)
                return r
            r = self.q.subst(e, f)
            self._vm[key] = r
        return r

    def build(self):
        sys.setrecursionlimit(50000)
        return self.rest(self.it.body.entry, frozenset())

    def enter(self, frm, to, sg):
        """term of the continuation over the edge frm->to"""
        L = self.q.loops()
        if to in L and frm in L[to][0] and self.q.dominates(to, frm):
            return self.t('BACK', to)
        ph = self.phis.get(to)
        if ph:
            new = dict(sg)
            for x in ph:
                v = self.it.phi_in[x].get(frm)
                if v is not None:
                    new[x] = self.val(self.q.canon(v), sg)
            sg = new.items()
        lv = self.livephi[to]
        sg = frozenset((k, v) for k, v in sg if k in lv)
        return self.rest(to, sg)

    def rest(self, b, sg):
        k = (b, sg)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = self.t('DIV')
        r = self.body(b, sg)
        if b in self.q.loops():
            own = self._own(r, b)
            if not own and r.op != 'TBACK':
                pass
            elif any(x.op in ('TREAD', 'TEV') for x in own):
                r = self.t('MU', b, r)
            else:
                r = self._unloop(r, b)
        self.memo[k] = r
        return r

    def _own(self, r, h):
        """the part of r that can still come back to h"""
        out = []
        memo = {}

        def back(x):
            if x in memo:
                return memo[x]
            memo[x] = False
            if x.op == 'TBACK':
                v = x.a[0] == h
            else:
                v = False
                for y in x.a:
                    if isinstance(y, E) and y.op[0] == 'T' and back(y):
                        v = True
            memo[x] = v
            if v and x.op != 'TBACK':
                out.append(x)
            return v
        back(r)
        return out

    def _unloop(self, r, h):
        """a loop that reads nothing: only its exits matter"""
        memo = {}

        def f(x):
            if x in memo:
                return memo[x]
            y = x
            if x.op == 'TBACK' and x.a[0] == h:
                y = None
            elif x.op == 'TBR':
                a, b = f(x.a[1]), f(x.a[2])
                y = b if a is None else a if b is None or a is b else self.t('BR', x.a[0], a, b)
            memo[x] = y
            return y
        return f(r) or self.t('DIV')

    def body(self, b, sg):
        r = self.body1(b, sg)
        for x in reversed(self.evs.get(b, ())):
            if r.op != 'TDIV':
                y = self.val(self.q.canon(tuple(x)), sg)
                r = self.t('EV', y, r)
        return r

    def body1(self, b, sg):
        q = self.q
        if b in self.ret:
            v = self.val(q.canon(self.ret[b]['value']), sg)
            return self.t('RET', b, v, sg)
        outs = q.edges.get(b, [])
        if b in self.reads:
            io, rd = self.reads[b]
            assert len(outs) <= 1
            r = self.enter(b, outs[0][0], sg) if outs else self.t('DIV')
            return self.t('READ', b, rd, r)
        if not outs:
            return self.t('DIV')
        cases = []
        for tgt, c in outs:
            cs = TRUE
            if c is not None:
                k, e, v = c
                x = self.val(q.canon(e), sg)
                l = [q.iseq(x, v)] if k == 'is' else [neg(q.iseq(x, y)) for y in v]
                l = [q.n01(y) for y in l]
                if FALSE in l:
                    continue
                l = [y for y in l if y is not TRUE]
                cs = TRUE if not l else l[0] if len(l) == 1 else mk('and', *l)
            cases.append((tgt, cs))
            if cs is TRUE:
                break
        r = None
        for tgt, cc in reversed(cases):
            x = self.enter(b, tgt, sg)
            if x.op == 'TDIV':
                continue
            if r is None or cc is TRUE:
                r = x
            elif r is not x:
                r = self.t('BR', cc, x, r)
        return r if r is not None else self.t('DIV')


# ---------------------------------------------------------------- matching a loader against a layout
def V(name, width):
    return ('val', name, width)


def REP(name, count, *sub):
    """count(env) times the sub-items"""
    return ('rep', name, count, sub)


def STR(name):
    """bytes up to and including a NUL"""
    return ('str', name)


def COND(c, a, b):
    return ('cond', c, tuple(a), tuple(b))


def link(items, k):
    for x in reversed(items):
        k = (x, k)
    return k


def inner(e):
    while True:
        if e.op == '&' or e.op in ('conv', 'maperr', 'err', 'branch'):
            e = e.a[0]
        elif e.op == 'call' and len(e.a[1]) == 1 and e.a[0].split('::')[-1] in ('utf8_error', 'from', 'into'):
            e = e.a[1][0]
        elif made_from(e) is not None:
            e = made_from(e)
        else:
            return e


def made_from(e):
    """the error a crate error was built from: Utf8(position of e), IO(kind of e)"""
    if e.op != 'agg' or len(e.a[2]) != 1:
        return None
    v, x = str(e.a[0]).split('::')[-1], e.a[2][0]
    if v == 'Utf8' and x.op == 'cast' and x.a[0] == 'u32':
        x = x.a[1]
        m = 'Utf8Error::valid_up_to'
    elif v == 'IO':
        m = 'Error::kind'
    else:
        return None
    return x.a[1][0] if x.op == 'call' and x.a[0].endswith(m) and len(x.a[1]) == 1 else None


class Match:
    """One loader against one layout.

    guards: {name: (condition(env) -> boolean E that must hold, expected error text)}
    ok(M, value, env, effects): called at every successful return with the values read and the effects performed"""

    def __init__(self, q, items, guards, ok, what, facts=(), wrap=None):
        self.q, self.it = q, q.it
        self.guards, self.okf, self.what = guards, ok, what
        self.reads = set()
        self.oks = 0
        self.errs = 0
        self.branches = 0
        self.items = items
        self.facts0 = frozenset(facts)
        self._pushed = {}
        self.wrap = wrap or (lambda x: x)
        self.utf8 = set()

    def run(self):
        self.terms = Terms(self.q)
        t = self.terms.build()
        self.probs = []
        self.go(t, link(self.items, None), {}, self.facts0, (), (), frozenset())
        seen = set()
        out = []
        for p in self.probs:
            if p[0] not in seen:
                seen.add(p[0])
                out.append(p)
        return out

    def bad(self, key, msg):
        self.probs.append((key, msg))
        return []

    # -------------------------------------------------- helpers
    def pushed(self, v):
        """v: vector φ of a loop that starts empty and grows by exactly one element per round"""
        if v not in self._pushed:
            self._pushed[v] = self._is_pushed(v)
        return self._pushed[v]

    def _is_pushed(self, v):
        q, h = self.q, v.a[0]
        L = q.loops()
        if h not in L or v.a[1][0][0] != 'L':
            return False
        body, backs = L[h]
        for p, x in self.it.phi_in.get(v, {}).items():
            if p not in body and not empty_vec(q.canon(x)):
                return False
        n = 0
        for e in q.events('call'):
            if e['block'] in body and any(r.op == 'ref' and r.a[0] == v.a[1] and (t or '').startswith('&mut') for r, t in zip(e['raw'], e['argtys'])):
                if e['name'].split('::')[-1] != 'push' or q.loops_of(e['block'])[-1] != h or not all(q.dominates(e['block'], b) for b in backs):
                    return False
                n += 1
        return n == 1

    def idx(self, h, e):
        """e with the induction variables of loop h written in terms of the zero-based trip number"""
        q = self.q

        def f(x):
            if x.op == 'len' and x.a[0].op == 'phi' and x.a[0].a[0] == h and self.pushed(x.a[0]):
                return mk('trip', h)
            if x.op == 'phi' and x.a[0] == h:
                i = q.induction(x)
                if i is not None:
                    return add(i[0], mul(mk('trip', h), i[1]))
            return None
        return q.subst(e, f)

    def allidx(self, loops, e):
        for h, _ in loops:
            e = self.idx(h, e)
        return e

    def name(self, k):
        return 'end' if k is None else k[0][1] if k[0][0] in ('val', 'rep', 'str') else k[0][0]

    def known(self, c, facts):
        if implied(c, facts):
            return True
        if implied(neg(c), facts):
            return False
        return None

    def failing(self, t, memo=None):
        """t ends in failing returns on all its paths without reading anything -> list of returned values, else None"""
        if t.op == 'TRET':
            v = t.a[1]
            return [v] if v.op == 'agg' and v.a[0].split('::')[-1] == 'Err' else None
        if t.op == 'TBR':
            a = self.failing(t.a[1])
            b = self.failing(t.a[2]) if a is not None else None
            return a + b if b is not None else None
        if t.op == 'TEV' and t.a[0][0] == 'call':
            return self.failing(t.a[1])
        return None

    def errvals(self, t):
        return [v.a[2][0] for v in self.failing(t)]

    # -------------------------------------------------- product
    def go(self, t, k, env, facts, loops, eff, passed):
        """-> list of (header, env, effects) of the paths that end by going round a loop"""
        while True:
            it = k[0] if k else None
            if it is not None and it[0] == 'cond':
                c = it[1](env)
                d = self.known(c, facts)
                if d is None:
                    a = self.go(t, link(it[2], k[1]), env, facts | {c}, loops, eff, passed)
                    b = self.go(t, link(it[3], k[1]), env, facts | {neg(c)}, loops, eff, passed)
                    return a + b
                k = link(it[2] if d else it[3], k[1])
                continue
            if t.op == 'TEV':
                eff = self.effect(t.a[0], loops, eff)
                t = t.a[1]
                continue
            if t.op == 'TDIV':
                return []
            if t.op == 'TBACK':
                h = t.a[0]
                if it is not None and it[0] == 'again' and it[1] == h:
                    return [(h, env, eff, facts)]
                return self.bad('%s: loop before %s' % (self.what, self.name(k)), 'a loop repeats although the layout has %s next' % self.name(k))
            if t.op == 'TRET':
                v = t.a[1]
                while it is not None and it[0] == 'rep' and implied(eq0(it[2](env)), facts):
                    k = k[1]
                    it = k[0] if k else None
                if v.op == 'agg' and v.a[0].split('::')[-1] == 'Ok':
                    if k is not None:
                        return self.bad('%s: stops before %s' % (self.what, self.name(k)), 'returns Ok although %s has not been read' % self.name(k))
                    self.oks += 1
                    for g in self.guards:
                        if g not in passed:
                            self.bad('%s: guard %s' % (self.what, g), 'accepts an archive whatever its %s' % g)
                    self.okf(self, v.a[2][0], env, eff, facts)
                    return []
                return self.bad('%s: result at %s' % (self.what, self.name(k)), 'returns %s where the layout continues with %s' % (show(v)[:300], self.name(k)))
            if t.op == 'TBR':
                return self.branch(t, k, env, facts, loops, eff, passed)
            if it is None:
                return self.bad('%s: reads past the end' % self.what, 'reads or loops after everything the format contains')
            if t.op == 'TMU':
                h = t.a[0]
                if it[0] == 'rep' and implied(eq0(it[2](env)), facts):
                    np = len(self.probs)
                    r = self.go(t, k[1], env, facts, loops, eff, passed)
                    if len(self.probs) == np:
                        return r
                    skipped = self.probs[np:]
                    del self.probs[np:]
                    r = self.go(t.a[1], (('start', t.a[0], it), k[1]), env, facts, loops + ((t.a[0], it[1]),), eff, passed)
                    if len(self.probs) > np:
                        self.probs[np:] = skipped
                    return r
                if it[0] == 'rep':
                    loops = loops + ((h, it[1]),)
                    k = (('start', h, it), k[1])
                    t = t.a[1]
                    continue
                if it[0] == 'strloop':
                    loops = loops + ((h, it[2][1]),)
                    k = (('strtest2', h, it[2], it[1]), k[1])
                    t = t.a[1]
                    continue
                if it[0] == 'str':
                    loops = loops + ((h, it[1]),)
                    k = (('strbyte', h, it), k[1])
                    t = t.a[1]
                    continue
                if it[0] in ('start', 'again') or it[0] == 'val':
                    return self.bad('%s: loop at %s' % (self.what, self.name(k)), 'loops where the format has a single %s' % self.name(k))
                return self.bad('%s: loop at %s' % (self.what, self.name(k)), 'unexpected loop')
            if t.op == 'TREAD':
                if it[0] == 'rep':
                    n = it[2](env)
                    if implied(eq0(n), facts):
                        k = k[1]
                        continue
                    if is_const(n) and cval(n) <= 64:
                        sub = []
                        for i in range(cval(n)):
                            sub += [self.suffix(x, i) for x in it[3]]
                        k = link(sub, k[1])
                        continue
                    return self.bad('%s: %s read once' % (self.what, it[1]), 'reads one %s where the format has %s of them' % (it[1], show(n)))
                if it[0] == 'start':
                    rep = it[2]
                    if not implied(le0(sub(const(1), rep[2](env))), facts):
                        return self.bad('%s: %s without count' % (self.what, rep[1]), 'reads a %s before knowing that there is one' % rep[1])
                    k = link(rep[3], (('again', it[1], rep), k[1]))
                    continue
                if it[0] == 'str':
                    k = (('strfirst', None, it), k[1])
                    continue
                if it[0] == 'again':
                    return self.bad('%s: %s too long' % (self.what, it[2][1]), 'reads more than one element of %s per round' % it[2][1])
                w = 1 if it[0] in ('strbyte', 'strfirst', 'strnext') else it[2] if it[0] == 'val' else None
                if w is None:
                    return self.bad('%s: read at %s' % (self.what, self.name(k)), 'reads where the format has %s' % self.name(k))
                nm = it[1] if it[0] == 'val' else it[2][1]
                rd = t.a[1]
                if not (is_const(rd.a[1]) and cval(rd.a[1]) == w):
                    return self.bad('%s: width of %s' % (self.what, nm), 'reads %s bytes for %s, the format has %d' % (show(rd.a[1]), nm, w))
                self.reads.add(t.a[0])
                env = dict(env)
                env[nm] = self.wrap(rd)
                env['@' + nm] = tuple(loops)
                t2 = t.a[2]
                # the outcome of the read decides before anything else happens
                ok = eq0(mk('discr', mk('io', t.a[0])))
                if not (t2.op == 'TBR' and (t2.a[0] is ok or neg(t2.a[0]) is ok or self.q.n01(neg(t2.a[0])) is ok)):
                    return self.bad('%s: unchecked read of %s' % (self.what, nm), 'goes on after reading %s without looking whether the read succeeded' % nm)
                good, other = (t2.a[1], t2.a[2]) if t2.a[0] is ok else (t2.a[2], t2.a[1])
                self.errarm(other, 'a failed read of %s' % nm, lambda e, s=t.a[0]: inner(e) is mk('io', s))
                facts = facts | {ok}
                t = good
                if it[0] == 'val':
                    k = k[1]
                elif it[0] == 'strfirst':
                    k = (('strloop', rd, it[2]), k[1])
                elif it[0] == 'strnext':
                    ins = {self.q.canon(x) for x in self.it.phi_in.get(it[3], {}).values()}
                    ins = {self.deep(x) for x in ins}
                    if not ins <= {it[4], rd} or rd not in ins:
                        return self.bad('%s: bytes of %s' % (self.what, nm), 'the loop over %s does not look at the bytes it reads' % nm)
                    env = dict(env)
                    env[nm] = it[3]
                    k = (('again', it[1], it[2]), k[1])
                else:
                    k = (('strtest', it[1], it[2], rd), k[1])
                continue
            return self.bad('%s: term' % self.what, 'unknown term %s' % t.op)

    def deep(self, v, n=0):
        """payload of a Result φ that has one successful input"""
        if v.op == 'pay' and v.a[0].op == 'phi' and n < 6:
            oks = set()
            for x in self.it.phi_in.get(v.a[0], {}).values():
                x = self.q.canon(x)
                if x.op == 'agg' and x.a[0].split('::')[-1] == 'Err':
                    continue
                oks.add(self.deep(self.q.canon(mk('pay', x)) if x.op != 'agg' else x.a[2][0], n + 1))
            if len(oks) == 1:
                return oks.pop()
        return v

    def suffix(self, x, i):
        if x[0] == 'val':
            return ('val', '%s[%d]' % (x[1], i), x[2])
        if x[0] == 'rep':
            return ('rep', '%s[%d]' % (x[1], i), x[2], x[3])
        return x

    def errarm(self, t, what, pred):
        self.errs += 1
        if t.op == 'TDIV':
            return self.bad('%s: %s panics' % (self.what, what), 'does not return an error')
        f = self.failing(t)
        if f is None:
            return self.bad('%s: %s' % (self.what, what), 'does not end in an error')
        for e in self.errvals(t):
            if not pred(e):
                self.bad('%s: error of %s' % (self.what, what), 'is reported as %s' % show(e)[:200])

    def branch(self, t, k, env, facts, loops, eff, passed):
        self.branches += 1
        it = k[0] if k else None
        c, A, B = t.a
        d = self.known(c, facts)
        if d is not None:
            return self.go(A if d else B, k, env, facts, loops, eff, passed)
        # the end of a counted loop
        if it is not None and it[0] in ('start', 'again'):
            h, rep = it[1], it[2]
            cc = self.idx(h, c)
            trip = mk('trip', h)
            if any(x is trip for x in walk(cc)):
                n = rep[2](env)
                i = trip if it[0] == 'start' else add(trip, const(1))
                exits = (le0(sub(n, i)), eq0(sub(n, i)))
                if cc not in exits and neg(cc) not in exits:
                    # joint numbers are i16 throughout
                    cc = self.q.subst(cc, lambda x: x.a[1] if x.op == 'cast' and x.a[0] == 'i16' else None)
                stay = A if neg(cc) in exits else B if cc in exits else None
                if stay is None:
                    return self.bad('%s: number of %s' % (self.what, rep[1]), 'the loop over %s is bounded by %s, the format has %s' % (rep[1], show(cc)[:300], show(n)[:200]))
                out = A if stay is B else B
                if it[0] == 'start':
                    r = self.go(stay, link(rep[3], (('again', h, rep), k[1])), env, facts | {le0(sub(const(1), n))}, loops, eff, passed)
                    mine = [x for x in r if x[0] == h]
                    if not mine:
                        if not self.probs:
                            return self.bad('%s: loop over %s' % (self.what, rep[1]), 'never goes round')
                        return []
                    env2, eff2 = self.meet(mine)
                    lo = tuple(x for x in loops if x[0] != h)
                    return [x for x in r if x[0] != h] + self.go(out, k[1], env2, facts, lo, eff2, passed)
                lo = tuple(x for x in loops if x[0] != h)
                return self.go(stay, k, env, facts, loops, eff, passed) + self.go(out, k[1], env, facts, lo, eff, passed)
        # the NUL
        if it is not None and it[0] == 'strtest' and (c is eq0(it[3]) or neg(c) is eq0(it[3]) or c is self.q.n01(neg(eq0(it[3])))):
            end, more = (A, B) if c is eq0(it[3]) else (B, A)
            h = it[1]
            r = self.go(more, (('again', h, it[2]), k[1]), env, facts, loops, eff, passed)
            mine = [x for x in r if x[0] == h]
            if not mine:
                if not self.probs:
                    self.bad('%s: loop over %s' % (self.what, it[2][1]), 'never goes round')
                return []
            env2, eff2 = self.meet(mine)
            lo = tuple(x for x in loops if x[0] != h)
            return [x for x in r if x[0] != h] + self.go(end, k[1], env2, facts, lo, eff2, passed)
        if it is not None and it[0] == 'strtest2':
            z = c if c.op == 'eq0' else self.q.n01(neg(c))
            ph = z.a[0] if z.op == 'eq0' else None
            if ph is not None and ph.op == 'phi' and ph.a[0] == it[1]:
                end, more = (A, B) if z is c else (B, A)
                h = it[1]
                r = self.go(more, (('strnext', h, it[2], ph, it[3]), k[1]), env, facts, loops, eff, passed)
                mine = [x for x in r if x[0] == h]
                if not mine:
                    if not self.probs:
                        self.bad('%s: loop over %s' % (self.what, it[2][1]), 'never goes round')
                    return []
                env2, eff2 = self.meet(mine)
                lo = tuple(x for x in loops if x[0] != h)
                return [x for x in r if x[0] != h] + self.go(end, k[1], env2, facts, lo, eff2, passed)
        fa, fb = self.failing(A), self.failing(B)
        if (fa is None) != (fb is None):
            good, other = (B, A) if fa is not None else (A, B)
            cond = c if good is A else self.q.n01(neg(c))
            # invalid text
            if cond.op == 'eq0' and cond.a[0].op == 'discr':
                x = cond.a[0].a[0]
                x = inner(x)
                if x.op == 'call' and x.a[0].split('::')[-1] == 'from_utf8':
                    self.errarm(other, 'text that is not UTF-8', lambda e: inner(e) is x)
                    r = self.vec(strip(x.a[1][0]), eff)
                    self.utf8.add(r[0] if r else None)
                    return self.go(good, k, env, facts | {cond}, loops, eff, passed)
            for g, (gc, err) in self.guards.items():
                try:
                    hit = gc(self, env, eff, cond)
                except KeyError:
                    continue
                if hit:
                    self.errarm(other, 'a wrong %s' % g, lambda e: any(x.op == 'agg' and x.a[0].split('::')[-1] == err for x in walk(e)))
                    return self.go(good, k, env, facts | {cond}, loops, eff, passed | {g})
            return self.bad('%s: rejects at %s' % (self.what, self.name(k)), 'an archive is rejected unless %s' % show(cond)[:300])
        if fa is not None:
            return self.bad('%s: always fails at %s' % (self.what, self.name(k)), 'no way to succeed')
        r = self.go(A, k, env, facts | {c}, loops, eff, passed)
        return r + self.go(B, k, env, facts | {self.q.n01(neg(c))}, loops, eff, passed)

    def meet(self, backs):
        env = dict(backs[0][1])
        eff = backs[0][2]
        for _, e, f, _ in backs[1:]:
            env = {k: v for k, v in env.items() if e.get(k) is v or e.get(k) == v}
            eff = tuple(x for x in eff if x in f)
        return env, eff

    def effect(self, ev, loops, eff):
        hs = {h for h, _ in loops}
        q = self.q

        def f(x):
            if x.op == 'phi' and x.a[0] in hs:
                i = q.induction(x)
                if i is not None:
                    return add(i[0], mul(mk('trip', x.a[0]), i[1]))
            return None
        return eff + ((loops, q.subst(ev, f)),)

    # -------------------------------------------------- where values end up
    def vec(self, v, eff):
        """elements a vector was built of: (loop name, element) when it starts empty and one element is pushed per round"""
        if v.op == 'phi':
            h = v.a[0]
            al = self.it.phi_in.get(v, {})
            L = self.q.loops()
            if h not in L:
                return None
            for p, x in al.items():
                if p in L[h][0]:
                    continue
                if not empty_vec(self.q.canon(x)):
                    return None
            ps = [(lo, e) for lo, e in eff if e[0] == 'call' and e[1] == 'push' and strip(e[2][0]) is v]
            if len(ps) == 1 and ps[0][0] and ps[0][0][-1][0] == h:
                return ps[0][0][-1][1], ps[0][1][2][1]
        return None

    def text(self, v, eff, want, rd):
        """v is the text built from the bytes `rd` of item `want`"""
        x = inner(v)
        if x.op == 'pay':
            x = inner(x.a[0])
        if x.op == 'call' and x.a[0].split('::')[-1] == 'from_utf8':
            r = self.vec(strip(x.a[1][0]), eff)
            return r is not None and r == (want, rd)
        return False

    def slice(self, v, eff, want, f, n):
        """every element i of slice v was stored f(i) in the loop over `want`"""
        v = strip(v)
        hit = 0
        for lo, e in eff:
            if e[0] != 'store' or not lo or lo[-1][1] != want:
                continue
            p = e[1]
            if p.op == 'elemref' and e[2] == ():
                base, at = p.a
            elif len(e[2]) == 1 and e[2][0][0] == 'i':
                base, at = p, e[2][0][1]
            else:
                continue
            if at is not mk('trip', lo[-1][0]) or not same_slice(base, v):
                continue
            if f(e[3]):
                hit += 1
        return hit == 1


def empty_vec(x):
    return x.op == 'call' and x.a[0].split('::')[-1] in ('new', 'with_capacity', 'default') and 'Vec' in x.a[0]


def g_equal(name, value):
    """guard: the u32 read as `name` equals value"""
    def f(M, env, eff, cond):
        want = eq0(sub(env[name], const(value)))
        return cond is want
    return f


def g_text(name, text):
    """guard: the string read as `name` equals text"""
    def f(M, env, eff, cond):
        if cond.op != 'fcmp' or cond.a[0] != 'Eq':
            return False
        for x, y in ((cond.a[1], cond.a[2]), (cond.a[2], cond.a[1])):
            if lit(y) == text and M.text(x, eff, name, env[name]):
                return True
        return False
    return f


def lit(e):
    e = strip(e)
    return e.a[0].strip('"') if e.op == 'str' else None


def same_slice(a, b):
    a, b = strip(a), strip(b)
    if a is b:
        return True
    return a.op == b.op == 'rawslice' and a.a[0] is b.a[0] and a.a[1] is b.a[1]
