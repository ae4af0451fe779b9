"""C24: the trigger iterator yields the threshold crossings of the definition, each once and in order."""
from fp import *
from sweeps import Sweeps

NOTE = ('The iterator is a state machine (repetition, key). Every path of next() between its loop heads, its start and its end is enumerated from an arbitrary state and taken apart into '
        'the cases of the comparisons it and the definition depend on; in each case the state it leaves and what it yields must be that of one or more steps of the '
        'definition. Floats are reals, represented by fingerprints (checks/fp.py); integers by linear forms with intervals. Keys are taken to be sorted, as many ratios and values as keys.')
ITER, JOB = 'TrackTriggeringIter', 'TrackTriggeringJob'
NEXT = '<%s as Iterator>::next' % ITER
ARG = mk('arg', 1)
BOOLS = ('b2i', 'eq0', 'le0', 'fcmp', 'not', 'and', 'or')


def run(rep):
    rep.rule('step', 'from every state each path does one or more steps of the definition, and yields what they yield')
    rep.rule('start', 'run() begins at the repetition of `from`, at the first key of its direction; without a range there is nothing')
    it = interp(NEXT, rep=rep, tag='c24', straight=True)
    ru = interp(JOB + '::run', rep=rep, tag='c24', straight=True)
    if not rep.ob(it is not None and ru is not None, NEXT, 'function not found'):
        return
    Machine(rep, it).run()
    start(rep, ru)


# ---------------------------------------------------------------- numbers of one case
class Ints:
    """what is known about linear forms of integers"""

    def __init__(self, ora):
        self.ora, self.b = ora, {}

    def branch(self):
        o = self.ora
        i = len(o.taken)
        r = o.script[i] if i < len(o.script) else True
        o.taken.append(r)
        return r

    def split(self, x):
        """x = s * d + c with d in canonical orientation"""
        f, c = x
        return (f, 1, c) if f <= P - f else (P - f, -1, c)

    def le(self, x):
        d, s, c = self.split(x)
        if d == 0:
            return c <= 0
        if s < 0:               # -d + c <= 0  <=>  not d <= c - 1
            return not self.upto(d, c - 1)
        return self.upto(d, -c)

    def upto(self, d, k):
        lo, hi, ne = self.b.setdefault(d, [None, None, set()])
        if hi is not None and hi <= k:
            return True
        if lo is not None and lo > k:
            return False
        r = self.branch()
        if r:
            self.b[d][1] = k
        else:
            self.b[d][0] = k + 1
        self.trim(d)
        return r

    def trim(self, d):
        b = self.b[d]
        while b[0] is not None and b[0] in b[2]:
            b[0] += 1
        while b[1] is not None and b[1] in b[2]:
            b[1] -= 1

    def eq(self, x):
        d, s, c = self.split(x)
        k = -c * s
        if d == 0:
            return c == 0
        lo, hi, ne = self.b.setdefault(d, [None, None, set()])
        if lo is not None and lo == hi:
            return lo == k
        if k in ne or lo is not None and k < lo or hi is not None and k > hi:
            return False
        r = self.branch()
        if r:
            self.b[d][:2] = [k, k]
        else:
            ne.add(k)
            self.trim(d)
        return r

    def empty(self):
        return any(b[0] is not None and b[1] is not None and b[0] > b[1] for b in self.b.values())

    def value(self, x):
        d, s, c = self.split(x)
        if d == 0:
            return c
        b = self.b.get(d)
        return b[0] * s + c if b and b[0] is not None and b[0] == b[1] else None


class Case:
    """one case of one path: numbers, decisions"""

    def __init__(self, it, q, ora, names):
        self.it, self.q, self.o = it, q, ora
        self.names = names           # expression -> name
        self.ints = Ints(ora)
        self.bools = {}
        self.L = Prints(it, q, ora)
        self.L.uleaf = self.leaf

    def name(self, e):
        e = self.q.canon(e)
        while e.op in ('deref', '&', 'unsize'):
            e = e.a[0]
        if e in self.names:
            return self.names[e]
        if e.op in ('ld', 'pj', 'phi'):
            b, p = unproj(e)
            f = [x[1] for x in p if x[0] == 'f']
            if f and p[-1] == ('f', f[-1]) and f[-1] in ('from', 'to', 'threshold', 'key_count', 'ratios', 'values', 'steps', 'track', 'outer', 'inner'):
                return f[-1]
        return None

    def leaf(self, e):
        n = self.name(e)
        if n in ('outer', 'from', 'to', 'threshold'):
            return self.atom(n)
        if e.op == 'elem' and self.name(e.a[0]) in ('ratios', 'values'):
            return self.at(self.name(e.a[0]), self.int(e.a[1]))
        if e.op == 'call' and method(e.a[0]) == 'floor' and len(e.a[1]) == 1:
            return self.floor(self.L.sca(e.a[1][0]))
        return None

    def atom(self, n):
        return hsh(self.o.seed, 'atom', n)

    def floor(self, x):
        return hsh(self.o.seed, 'floor', x % P)

    def at(self, arr, i):
        v = self.ints.value(i)
        return hsh(self.o.seed, arr, (0, v) if v is not None else i)

    def iatom(self, n):
        return (hsh(self.o.seed, 'int', n), 0)

    def iadd(self, x, y, k=1):
        return ((x[0] + k * y[0]) % P, x[1] + k * y[1])

    def int(self, e):
        """(fingerprint of the linear part, constant)"""
        n = self.name(e)
        if n == 'inner':
            return self.iatom('inner')
        if n == 'key_count':
            return self.iatom('keys')
        if e.op == 'len' and self.name(e.a[0]) in ('ratios', 'values'):
            return self.iatom('keys')
        if e.op == 'cast':
            return self.int(e.a[1])
        if cval(e) is not None and isinstance(cval(e), int):
            return (0, cval(e))
        if e.op == 'lin':
            d, c = lin_parts(e)
            r = (0, c)
            for a, k in d.items():
                r = self.iadd(r, self.int(a), k)
            return r
        if e.op in ('&', 'deref'):
            return self.int(e.a[0])
        if e.op in BOOLS:
            return (0, 1 if self.truth(e) else 0)
        if e.op == 'if':
            return self.int(e.a[1] if self.truth(e.a[0]) else e.a[2])
        if e.op == 'discr' and self.name(e.a[0]) == 'track':
            return (0, 1 if self.bool('track') else 0)
        return (hsh(self.o.seed, 'int', show(e, 40)), 0)

    def bool(self, k):
        if k not in self.bools:
            self.bools[k] = self.ints.branch()
        return self.bools[k]

    def step(self, i):
        v = self.ints.value(i)
        return self.bool(('step', (0, v) if v is not None else i))

    def stepbit(self, e):
        """the index of the key whose step bit an expression is: (key, set when true)"""
        if e.op != 'eq0':
            return None
        e, on = e.a[0], False
        d, c = lin_parts(e)
        one = False
        if len(d) == 1 and c == -1 and list(d.values()) == [1]:
            e, on, one = next(iter(d)), True, True
        while e.op == 'cast':
            e = e.a[1]
        if e.op == 'rem' and cval(e.a[1]) == 2:
            e = mk('iBitAnd', e.a[0], const(1))
        if e.op != 'iBitAnd':
            return None
        for a, b in (e.a, e.a[::-1]):
            if b.op == 'iShl' and cval(b.a[0]) == 1 and not one:
                k, w = b.a[1], a
            elif cval(b) == 1 and a.op == 'iShr':
                k, w = a.a[1], a.a[0]
            else:
                continue
            while w.op == 'cast':
                w = w.a[1]
            while k.op == 'cast':
                k = k.a[1]
            if k.op != 'rem' or cval(k.a[1]) != 8 or w.op != 'elem' or self.name(w.a[0]) != 'steps':
                continue
            i = w.a[1]
            if i.op == 'div' and cval(i.a[1]) == 8 and self.int(i.a[0]) == self.int(k.a[0]):
                return self.int(k.a[0]), on
        return None

    def truth(self, e):
        e = self.q.canon(e)
        if e is TRUE or e is FALSE:
            return e is TRUE
        if e.op == 'not':
            return not self.truth(e.a[0])
        if e.op == 'and':
            return all(self.truth(x) for x in e.a)
        if e.op == 'or':
            return any(self.truth(x) for x in e.a)
        if e.op == 'if':
            return self.truth(e.a[1] if self.truth(e.a[0]) else e.a[2])
        if e.op == 'fcmp':
            k, a, b = e.a
            if k in ('Eq', 'Ne') and any(x.op in BOOLS for x in (a, b)):
                return (self.truth(a) == self.truth(b)) == (k == 'Eq')
            a, b = self.L.sca(a), self.L.sca(b)
            if k in ('Gt', 'Ge'):
                k, a, b = {'Gt': 'Lt', 'Ge': 'Le'}[k], b, a
            return {'Lt': self.o.lt, 'Le': self.o.le, 'Eq': self.o.eq, 'Ne': lambda x, y: not self.o.eq(x, y)}[k](a, b)
        s = self.stepbit(e)
        if s is not None:
            return self.step(s[0]) == s[1]
        if e.op == 'le0':
            return self.ints.le(self.int(e.a[0]))
        if e.op == 'eq0':
            if e.a[0].op == 'b2i':
                return not self.truth(e.a[0].a[0])
            return self.ints.eq(self.int(e.a[0]))
        if e.op == 'b2i':
            return self.truth(e.a[0])
        raise Mystery('condition ' + show(e)[:160])


# ---------------------------------------------------------------- the definition
class Define:
    def __init__(self, c):
        self.c = c
        A, L = c.atom, c.o
        self.frm, self.to, self.th = A('from'), A('to'), A('threshold')
        self.keys = c.iatom('keys')

    def forward(self):
        return self.c.o.lt(self.frm, self.to)

    def candidate(self, o, i, fwd):
        c, ora = self.c, self.c.o
        first = c.ints.eq(i)
        j = c.iadd(self.keys, (0, -1)) if first else c.iadd(i, (0, -1))
        v0, v1 = c.at('values', j), c.at('values', i)
        low = ora.le(v0, self.th)
        if low:
            if not ora.lt(self.th, v1):
                return None
        elif not ora.le(v1, self.th):
            return None
        rising = fwd == low
        if c.step(j):
            r = c.at('ratios', i)
        elif first:
            r = 0
        else:
            r0, r1 = c.at('ratios', j), c.at('ratios', i)
            r = r0 + (r1 - r0) * ((self.th - v0) * pow(v1 - v0, P - 2, P) % P)
        r = (r + o) % P
        lo, hi = (self.frm, self.to) if fwd else (self.to, self.frm)
        if not ora.le(lo, r):
            return None
        if not ora.lt(r, hi) and not ora.le(1 + o, hi):
            return None
        return r, rising

    def step(self, s):
        """the states a step may lead to, and what it yields: ('end',) | [(state, edge)]"""
        c, ora = self.c, self.c.o
        if not c.bool('track'):
            return 'end'
        o, i = s
        fwd = self.forward()
        if fwd:
            if not ora.lt(o, self.to):
                return 'end'
            turn, on = ((o + 1) % P, (0, 0)), (o, c.iadd(i, (0, 1)))
            if not c.ints.le(c.iadd(c.iadd(i, self.keys, -1), (0, 1))):
                return [(turn, None)]
        else:
            if not ora.lt(self.to, (o + 1) % P):
                return 'end'
            turn, on = ((o - 1) % P, c.iadd(self.keys, (0, -1))), (o, c.iadd(i, (0, -1)))
            if c.ints.le(c.iadd(i, (0, 1))):
                return [(turn, None)]
        e = self.candidate(o, i, fwd)
        if e is not None:
            return [(on, e)]
        r = (c.at('ratios', i) + o) % P
        if ora.le(self.to, r) if fwd else ora.le(r, self.to):
            return [(on, None), (turn, None)]
        return [(on, None)]


# ---------------------------------------------------------------- the code
class Machine:
    def __init__(self, rep, it):
        self.rep, self.it = rep, it
        self.q = Q(it, norm=norm_idx)
        self.S = Sweeps(self.q)
        self.loc = {f: (('M', ARG), (('f', f),)) for f in ('outer', 'inner', 'track')}

    def memory(self, b, f):
        return self.q.canon(self.it.load(self.it.instate[b], self.loc[f]))

    def run(self):
        rep, q, it = self.rep, self.q, self.it
        rets = {e['block']: e for e in returns(q)}
        heads = {h for h in q.loops() if h in q.live}
        entry = it.body.entry
        n = 0
        for b in [entry] + sorted(heads):
            try:
                ps = self.S.P.from_(b, set(rets) | heads)
            except OverflowError as x:
                rep.fail(NEXT, str(x))
                continue
            names = {self.memory(b, f): f for f in ('outer', 'inner')} if b != entry else {}
            facts = list(q.conds(b)) if b != entry else []
            for p in ps:
                if p.end not in rets and p.end not in heads:
                    continue
                n += 1
                back = p.end in heads and b in q.loops()[p.end][1] if p.end in heads else False
                try:
                    bad = self.path(p, names, facts, rets, back or p.end == b)
                except Mystery as x:
                    bad = 'not understood: %s' % str(x)[:200]
                except OverflowError as x:
                    bad = str(x)
                rep.ob(not bad, 'path %s -> %s' % ('start' if b == entry else 'loop', 'end' if p.end in rets else 'loop'), '%s; path conditions %s' % (
                    bad, '; '.join(show(c)[:70] for c in p.conds)[:500]))
        rep.floor('paths', n, 20)

    def after(self, p, f, rets):
        """memory at the end of a path, before and after naming"""
        if p.end in rets:
            return self.S.P.sub(self.it.load(rets[p.end]['state'], self.loc[f]), p.env)
        return self.S.P.sub(self.memory(p.end, f), p.env)

    def path(self, p, names, facts, rets, advance):
        def go(script):
            ora = Oracle(1, script)
            c = Case(self.it, self.q, ora, names)
            return ora.taken, (c, self.one(p, c, facts, rets, advance))
        for taken, (c, res) in cases(go):
            if res is None or c.ints.empty():
                continue
            self.rep.count('cases')
            if res is not True:
                return res
        return None

    def one(self, p, c, facts, rets, advance):
        # a repetition exists, keys have not a negative number, the position is one of them or just outside
        for x in list(facts) + list(p.conds):
            if not c.truth(x):
                return None
        if c.o.eq(c.atom('from'), c.atom('to')):
            return None
        D = Define(c)
        s = (c.atom('outer'), c.iatom('inner'))
        end = (c.L.sca(self.after(p, 'outer', rets)), c.int(self.after(p, 'inner', rets)))
        out, stop = None, False
        if p.end in rets:
            v = self.S.P.sub(self.it.valarg(rets[p.end]['state'], rets[p.end]['value']), p.env)
            if v.op != 'agg':
                raise Mystery('yields ' + show(v)[:120])
            if v.a[0].endswith('Some'):
                e = v.a[2][0]
                out = (c.L.sca(self.it.proj(e, ('f', 'ratio'))) % P, self.flag(c, self.it.proj(e, ('f', 'rising'))))
            else:
                stop = True
            t = self.q.canon(self.after(p, 'track', rets))
            if stop and not (t.op == 'agg' and t.a[0].endswith('None')) and D.step(end) != 'end':
                return 'ends, and would go on when asked again'
            if not stop and not c.name(t) == 'track':
                return 'yields an edge, and the track is then %s' % show(t)[:80]
        return self.match(D, c, s, end, out, stop, advance, 0)

    def flag(self, c, e):
        return c.truth(e)

    def same(self, c, a, b):
        return (a[0] - b[0]) % P == 0 and (a[1] == b[1] or c.ints.value(a[1]) is not None and c.ints.value(a[1]) == c.ints.value(b[1]))

    def match(self, D, c, s, end, out, stop, advance, depth):
        """True, or what is wrong"""
        if not advance and out is None and not stop and self.same(c, s, end):
            return True
        if depth > 3:
            return 'does not get to the state of the definition'
        r = D.step(s)
        if r == 'end':
            return True if stop else 'goes on behind the end of the range' if out is None else 'yields an edge behind the end of the range'
        why = ''
        for t, e in r:
            if e is not None:
                if out is None:
                    why = 'passes over an edge' if not stop else 'ends before an edge'
                    continue
                if (e[0] - out[0]) % P:
                    why = 'yields an edge at another ratio'
                    continue
                if e[1] != out[1]:
                    why = 'yields a rising edge as falling or a falling one as rising'
                    continue
                if not self.same(c, t, end):
                    why = 'goes on from another key after an edge'
                    continue
                return True
            res = self.match(D, c, t, end, out, stop, False, depth + 1)
            if res is True:
                return True
            why = why or res
        return why


def start(rep, it):
    q = Q(it, norm=norm_idx)
    S = Sweeps(q)
    rets = {e['block']: e for e in returns(q)}
    n = 0
    for p in S.P.from_(it.body.entry, set(rets)):
        if p.end not in rets:
            continue
        v = S.P.sub(it.valarg(rets[p.end]['state'], rets[p.end]['value']), p.env)
        if v.op != 'agg' or not v.a[0].endswith('Ok'):
            rep.ob(v.op == 'agg', JOB + '::run', 'returns %s' % show(v)[:100])
            continue
        n += 1
        x = v.a[2][0]
        F = {f: q.canon(S.P.sub(it.proj(x, ('f', f)), p.env)) for f in ('job', 'track', 'outer', 'inner')}
        job = F['job']
        while job.op in ('&', 'deref'):
            job = job.a[0]
        rep.ob(job is ARG, JOB + '::run', 'the iterator is of another job: %s' % show(job)[:80])

        def go(script):
            ora = Oracle(1, script)
            c = Case(it, q, ora, {})
            return ora.taken, one(c)

        def one(c):
            for y in p.conds:
                if not c.truth(y):
                    return None
            fr, to = c.atom('from'), c.atom('to')
            t = F['track']
            if t.op == 'opt':
                t = t if c.truth(t.a[0]) else mk('agg', 'None', (), ())
            none = t.op == 'agg' and t.a[0].endswith('None')
            if c.o.eq(fr, to):
                return True if none else 'an empty range has a track to look at'
            if none:
                return 'there is no track to look at'
            if c.L.sca(F['outer']) % P != c.floor(fr):
                return 'starts at repetition %s' % show(F['outer'])[:100]
            i = (0, 0) if c.o.lt(fr, to) else c.iadd(c.iatom('keys'), (0, -1))
            if c.int(F['inner']) != i:
                return 'starts at key %s' % show(F['inner'])[:100]
            return True
        try:
            for taken, res in cases(go):
                rep.ob(res in (None, True), JOB + '::run', str(res))
        except Mystery as e:
            rep.fail(JOB + '::run', 'not understood: %s' % str(e)[:200])
    rep.floor('starts', n, 2)
