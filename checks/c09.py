"""C09: what is saved and read back, or cloned, is the same; equality compares everything."""
import re
from common import *
from flow import *
from cursor import *
import c02
from sweeps import Sweeps, covers, ix
from soa import unproj, Mystery

NOTE = ('For every way to save and read back an asset or a sampling context the saving function gives a map from the stored parts to the parts of the object, the reading function a map back; '
        'the composition is compared with the identity, part by part, for arrays of any length. What serde_derive and rkyv_derive make of a field list, and what the two formats and the '
        'containers (vectors, strings, the name map) do with one value, is taken as given.')
SELF = mk('arg', 1)
OWNERS = {'Animation': 'Animation', 'Skeleton': 'Skeleton', 'SamplingContext': 'SamplingContextInner'}
SAME = ('to_vec', 'as_slice', 'clone', 'to_string', 'to_owned', 'as_str', 'deref', 'as_ref', 'from', 'into', 'borrow')
EMPTY = ('new', 'default', 'with_capacity', 'with_capacity_and_hashers', 'with_hashers')
DERIVED = re.compile(r' as (Serialize|Deserialize)>::(serialize|deserialize)(::<.*>)?$')


class Bad(Exception):
    pass


class Quiet:
    """a report that keeps nothing: for parts of other checks used as queries"""
    functions = set()

    def __getattr__(self, n):
        return lambda *a, **k: True


def run(rep):
    rep.rule('roundtrip', 'reading back what was saved gives every part of the object its old value')
    rep.rule('clone', 'a clone has every part of the original')
    rep.rule('eq', 'equality compares every part with the same part, and nothing else')
    rep.rule('derive', 'serde and rkyv derives leave no part out and treat it the same both ways')
    P = program('host')
    views = c02.collect_views(Quiet(), P)
    n = 0
    for owner in OWNERS:
        M = Model(rep, owner, views.get(owner, []))
        for way in (M.serde, M.rkyv, M.clone):
            try:
                n += way() or 0
            except (Bad, Mystery, KeyError, OverflowError) as x:
                rep.fail('%s: %s' % (owner, way.__name__), 'not understood: %s' % str(x)[:300])
    rep.floor('parts', n, 125)
    guard(rep, 'values', values)
    guard(rep, 'clone', clones)
    guard(rep, 'eq', equalities)
    guard(rep, 'derive', derives)


ORIG = mk('arg', 91)
CLONE = {}


def last(n):
    """the name of a function without its path and type arguments"""
    n = re.sub(r'#\d+$', '', n)
    if n.endswith('>'):
        d = 0
        for i in range(len(n) - 1, -1, -1):
            d += {'>': 1, '<': -1}.get(n[i], 0) if not (n[i] == '>' and n[i - 1:i] == '-') else 0
            if d == 0:
                return last(n[:i - 2]) if n[i - 2:i] == '::' else n
    return n.split('::')[-1]


def bare(x):
    while x.op in ('&', 'deref', 'unsize') or x.op == 'ld' and not x.a[1]:
        x = x.a[0]
    return x


def size_of(x):
    return sum(1 for _ in walk(x))


class Model:
    """the parts of an owner of memory: its plain fields, and its arrays (pointer field, number of elements)"""

    def __init__(self, rep, owner, views):
        self.rep, self.owner = rep, owner
        P = program('host')
        self.inner = OWNERS[owner] if OWNERS[owner] != owner else None
        self.names = struct_fields(P).get(OWNERS[owner]) or []
        self.pre = (('f', 0),) if self.inner else ()
        it = interp('<%s as Drop>::drop' % owner)
        if it is None or not self.names:
            raise Bad('no %s' % owner)
        self.q0 = q = Q(it, norm=norm9)
        self.arrays = {}
        for key, f, ln, ety, arg in views:
            n = q.subst(q.canon(ln), lambda x, a=arg: ORIG if x is a else None, {})
            self.arrays[f] = self.plain_form(n)
        self.size = None
        for e in q.events('call'):
            if e['name'].endswith('dealloc'):
                fs = {unproj(x)[1][-1][1] for x in walk(q.canon(it.valarg(e['state'], e['args'][1]))) if x.op == 'ld' and unproj(x)[1]}
                self.size = (fs & set(self.names)).pop() if len(fs & set(self.names)) == 1 else None
        self.plain = [f for f in self.names if f not in self.arrays and f != self.size]
        rep.ob(bool(self.arrays) and self.size is not None, owner, 'the parts of %s are not found' % owner)
        self.inv, self.counts = {}, {}
        self.invariants()

    # -- symbols
    def sym(self, f):
        return mk('ld', ORIG, self.pre + (('f', f),))

    def array(self, f):
        return mk('rawslice', self.sym(f), self.red(self.arrays[f]))

    def part(self, f):
        return self.array(f) if f in self.arrays else self.red(self.sym(f))

    def plain_form(self, e, root=ORIG):
        """loads of the object's fields in one shape"""
        def f(x):
            if x.op in ('ld', 'pj'):
                b, p = unproj(x)
                if p and p[0] == ('f', '0'):
                    p = (('f', 0),) + p[1:]
                if b is root and p[:len(self.pre)] == self.pre and len(p) > len(self.pre) and p[len(self.pre)][0] == 'f':
                    v = self.sym(p[len(self.pre)][1])
                    if p[len(self.pre) + 1:]:
                        v = mk('pj', v, p[len(self.pre) + 1:])
                    return v if v is not x else None
            if x.op == 'deref' and x.a[0].op != 'arg':
                return x.a[0]
            return None
        return self.q0.subst(e, f, {})

    def invariants(self):
        """what the constructor makes of the counts: each is a symbol of its own, or a function of the others"""
        for c in c02.constructors(program('host'), self.owner):
            it = interp('cons ' + c.key, fn=c, tag='cons', rep=self.rep)
            q = Q(it, norm=norm9)
            for e in returns(q):
                v = it.valarg(e['state'], e['value'])
                v = it.phi_alias.get(v, v)
                if v.op == 'agg' and last(v.a[0]) in ('Err', 'None'):
                    continue
                vals = {}
                for n in self.names:
                    if self.inner:
                        vals[n] = q.canon(it.load(e['state'], (('M', v.a[2][0]), (('f', n),))))
                    else:
                        vals[n] = q.canon(it.proj(v, ('f', n)))
                used = {n for a in self.arrays.values() for n in self.names if any(x is self.sym(n) for x in walk(a))}
                known = {}
                for n in sorted(used, key=lambda n: (size_of(vals[n]), n)):
                    r = q.subst(vals[n], lambda x: known.get(x), {})
                    if any(x.op == 'arg' and x is not ORIG for x in walk(r)):
                        known[vals[n]] = self.sym(n)
                    elif r is not self.sym(n):
                        self.inv[n] = r
                self.counts = {n: vals[n] for n in used}
                return
        raise Bad('no constructor of %s' % self.owner)

    def red(self, e):
        """normal form of an expression over the original object"""
        def f(x):
            if x.op == 'ld' and x.a[0] is ORIG and x.a[1][:-1] == self.pre and x.a[1][-1][0] == 'f' and x.a[1][-1][1] in self.inv:
                return self.inv[x.a[1][-1][1]]
            if x.op == 'div_ceil' or (x.op == 'call' and last(x.a[0]) == 'div_ceil'):
                a, b = x.a if x.op == 'div_ceil' else x.a[1]
                k = cval(b)
                ks, c = lin_parts(a)
                if isinstance(k, int) and k > 0 and c == 0 and ks and all(v % k == 0 for v in ks.values()):
                    return mklin({a: v // k for a, v in ks.items()}, 0)
            return None
        return self.q0.subst(e, f, {})

    # -- composition
    def back(self, e, F, root):
        """e over the stored form, with the stored parts replaced by what they were saved from"""
        clone = F is CLONE

        def f(x):
            if x is SELF and clone:
                return ORIG
            if x.op in ('ld', 'pj', 'elem'):
                b, p = unproj(x)
                if root(b) and p and p[0][0] == 'f' and p[0][1] in F:
                    v = F[p[0][1]]
                    return v if len(p) == 1 else mk('pj', v, tuple((k[0], f2(k[1])) if k[0] == 'i' else k for k in p[1:]))
            if x.op == 'call' and last(x.a[0]) in SAME and len(x.a[1]) >= 1 and (len(x.a[1]) == 1):
                return bare(x.a[1][0])
            if x.op == 'call' and last(x.a[0]) in ('index', 'index_mut') and len(x.a[1]) == 2 and bare(x.a[1][1]).op == 'agg' and last(bare(x.a[1][1]).a[0]) == 'RangeFull':
                return bare(x.a[1][0])
            if x.op == 'call' and last(x.a[0]) == 'len' and len(x.a[1]) == 1:
                return mk('len', bare(x.a[1][0]))
            if x.op == 'len' and bare(x.a[0]).op == 'rawslice':
                return bare(x.a[0]).a[1]
            if x.op in ('&', 'deref', 'unsize'):
                return x.a[0]
            return None

        def f2(k):
            return self.q0.subst(k, f, {}) if isinstance(k, E) else k
        return self.red(self.plain_form(self.q0.subst(e, f, {})))

    # -- the object made by a reading function
    def check(self, what, key, config, F, root, opaque=None):
        rep, owner = self.rep, self.owner
        it = interp(key, config, rep=rep, tag='c09', opaque=opaque) if opaque else interp(key, config, rep=rep)
        if it is None:
            raise Bad('no %s' % key)
        q = Q(it, norm=norm9)
        S = Sweeps(q)
        rets = returns(q)
        if len(rets) != 1:
            raise Bad('%s has %d returns' % (key, len(rets)))
        e = rets[0]
        n = 0
        ps = [p for p in S.paths(it.body.entry, {e['block']}) if p.end == e['block'] and not any(q.canon(c) is const(False) for c in p.conds)]
        good = 0
        for p in ps:
            v = q.canon(S.P.sub(it.valarg(e['state'], e['value']), p.env))
            v = it.phi_alias.get(v, v)
            if v.op == 'agg' and last(v.a[0]) == 'Err':
                continue
            if v.op == 'call' and 'from_residual' in v.a[0]:
                continue
            if v.op == 'agg' and last(v.a[0]) == 'Ok':
                v = v.a[2][0]
            for c in p.conds:
                self.passes(what, q, self.back(c, F, root))
            n += self.object(what, it, q, S, p, e, v, F, root)
            good += 1
        rep.ob(good >= 1, '%s: %s' % (owner, what), 'no path of %s returns an object (%d paths)' % (key, len(ps)))
        return n

    def passes(self, what, q, c):
        """a condition for reading back holds for everything that was saved"""
        ok = c is const(True) or any(x.op == 'call' and ('alloc' in last(x.a[0]) or last(x.a[0]) == 'is_power_of_two') for x in walk(c))
        ok = ok or any(x.op == 'phi' for x in walk(c)) or c.op == 'eq0' and c.a[0].op == 'discr' and is_read(c.a[0].a[0])
        self.rep.ob(ok, '%s: %s' % (self.owner, what), 'is read back only if %s' % show(c)[:200])

    def object(self, what, it, q, S, p, e, v, F, root):
        rep, owner = self.rep, self.owner
        env = p.env
        ptr = None
        if self.inner:
            if not (v.op == 'agg' and v.a[2] and v.a[2][0].op == 'call'):
                raise Bad('%s returns %s' % (what, show(v)[:100]))
            ptr = v.a[2][0]

        def field(f):
            x = it.load(e['state'], (('M', ptr), (('f', f),))) if self.inner else it.proj(v, ('f', f))
            return q.canon(S.P.sub(x, env))
        val = {f: field(f) for f in self.names if f != self.size}
        effects = self.effects(what, q, S, p, F, root)
        n = 0
        for f in self.plain:
            n += 1
            want = self.part(f)
            got = self.back(val[f], F, root)
            if got is not want and self.map_copied(q, S, p, val[f], F, root, want):
                got = want
            rep.ob(got is want, '%s: %s: %s' % (owner, what, f), 'is read back as %s instead of %s' % (show(got)[:160], show(want)[:80]),
                   sample='%s %s: %s' % (owner, what, f))
        done = set()
        for f in self.arrays:
            n += 1
            want = self.array(f)
            mine = [x for x in effects if x[0] is val[f]]
            done |= {id(x) for x in mine}
            ok = bool(mine)
            msg = 'nothing is written there'
            for x in mine[-1:]:
                if x[1] is not want.a[1]:
                    ok, msg = False, '%s elements are written instead of %s' % (show(x[1])[:100], show(want.a[1])[:100])
                elif x[2] is not want:
                    ok, msg = False, 'gets %s' % show(x[2])[:200]
            rep.ob(ok, '%s: %s: %s' % (owner, what, f), msg, sample='%s %s: %s = %s' % (owner, what, f, show(want)[:60]))
        for x in effects:
            rep.ob(id(x) in done, '%s: %s' % (owner, what), 'writes to %s, which is no array of the object' % show(x[0])[:120])
        return n

    def effects(self, what, q, S, p, F, root):
        """[(pointer, elements written, what they become)] in order"""
        out = []
        for kind, b in S.trace(p):
            if kind == 'bulk':
                base, lo, n, k, src = S.bulk_op(b, p.env)
                if base.op != 'rawslice':
                    raise Bad('%s copies to %s' % (what, show(base)[:80]))
                whole = k == 'copy' and cval(lo) == 0
                out.append((base.a[0], self.back(n, F, root), self.back(src, F, root) if whole else mk('partly')))
            else:
                sw = S.sweep(b)
                bases = {k[0] for s in sw.steps for k in s.writes}
                for base in bases:
                    if base.op != 'rawslice':
                        raise Bad('%s writes to %s' % (what, show(base)[:80]))
                    out.append((base.a[0], self.back(base.a[1], F, root), self.loop(what, q, S, sw, base, F, root)))
        return out

    def loop(self, what, q, S, sw, base, F, root):
        """the array an element loop copies, if that is what it does"""
        r = covers(self.mapped(sw, F, root), self.back(base.a[1], F, root), set())
        if r:
            raise Bad('%s: %s' % (what, r))
        src = None
        for s in sw.steps:
            w = {k: v for k, v in s.writes.items() if k[0] is base}
            if len(w) != 1:
                raise Bad('%s: %d writes per element' % (what, len(w)))
            (b, path), v = w.popitem()
            if len(path) != 1 or path[0] != ('i', ix(sw.h)):
                raise Bad('%s: writes element %s' % (what, path))
            src = same_elem(v, (('i', ix(sw.h)),))
            if src is None:
                raise Bad('%s: element becomes %s' % (what, show(v)[:120]))
        return self.back(src, F, root)

    def mapped(self, sw, F, root):
        """the sweep, with its conditions over the original object"""
        class Sw:
            pass
        out, B = Sw(), lambda cs: {self.q0.canon(self.back(c, F, root)) for c in cs}
        out.h, out.steps, out.exits = sw.h, [], [(B(c), p) for c, p in sw.exits]
        for s in sw.steps:
            t = Sw()
            t.conds = B(s.conds)
            out.steps.append(t)
        return out

    def map_copied(self, q, S, p, got, F, root, want):
        """a map that starts empty and gets every saved entry"""
        for e in q.events('call'):
            if last(e['name']) != 'insert' or len(e['args']) != 3 or 'HashMap' not in e['name']:
                continue
            m, k, v = (q.canon(a) for a in e['args'])
            hs = [h for h, body in S.outer.items() if e['block'] in body and h in p.blocks]
            if len(hs) != 1 or bare(m) is not got:
                continue
            sw = S.sweep(hs[0])
            k, v = S.named(hs[0], k), S.named(hs[0], v)
            while k.op == 'call' and last(k.a[0]) in SAME:
                k = bare(k.a[1][0])
            (bk, pk), (bv, pv) = unproj(bare(k)), unproj(bare(v))
            if not (bk is bv and root(bk) and len(pk) == len(pv) == 3 and pk[:2] == pv[:2] and pk[2] == ('f', 'key') and pv[2] == ('f', 'value') and pk[1] == ('i', ix(hs[0]))):
                raise Bad('insert of %s: %s' % (show(k)[:80], show(v)[:80]))
            F_ = F.get(pk[0][1])
            if F_ is None or F_.op != 'entries' or F_.a[0] is not want:
                return False
            n = q.canon(mk('len', mk('ld', bk, (pk[0],))))
            r = covers(sw, n, set())
            if r or any(e['block'] not in s.path.blocks for s in sw.steps):
                raise Bad('names: %s' % (r or 'an entry is left out'))
            return self.fresh(q, S, got, hs[0])
        return False

    def fresh(self, q, S, got, h):
        """before loop h the map is an empty one"""
        b, path = unproj(got)
        if b.op != 'phi':
            return False
        ins = [v for src, v in q.it.phi_in.get(b, {}).items() if src not in S.outer[h] and src in q.live]
        for v in ins:
            for k in path:
                v = q.it.proj(v, k)
            v = q.canon(v)
            if not (v.op == 'call' and last(v.a[0]) in EMPTY and 'HashMap' in v.a[0]):
                raise Bad('names: starts from %s' % show(v)[:80])
        return bool(ins)

    # -- the ways
    def own(self, e):
        """an expression over arg1 of a saving function, over the original object"""
        q = self.q0
        e = q.subst(e, lambda x: ORIG if x is SELF else None, {})
        return self.red(self.plain_form(self.back(e, {}, lambda b: False)))

    def serde(self):
        key = '<%s as Serialize>::serialize' % self.owner
        it = self.get(key, 'serde', derived)
        q = Q(it, norm=norm9)
        calls = [e for e in q.events('call') if DERIVED.search(e['name'])]
        F = {}
        if calls:
            raw = bare(q.canon(calls[0]['args'][0]))
            if len(calls) != 1 or raw.op != 'agg' or not raw.a[1] or not returned(q, calls[0]):
                raise Bad('%s saves %s' % (key, show(raw)[:100]))
            F = {f: self.own(x) for f, x in zip(raw.a[1], raw.a[2])}
            self.derive(last(raw.a[0]))
        else:
            ents = [e for e in q.events('call') if last(e['name']) in ('serialize_entry', 'serialize_field')]
            for e in ents:
                k, v = (q.canon(it.valarg(e['state'], a)) for a in e['args'][1:3])
                k = bare(k)
                if k.op != 'str':
                    raise Bad('%s: key %s' % (key, show(k)[:60]))
                self.rep.ob(k.a[0].strip('"') not in F, '%s: serde: %s' % (self.owner, k.a[0]), 'saved twice')
                F[k.a[0].strip('"')] = self.own(v)
            self.always(q, ents, key)
        key = '<%s as Deserialize>::deserialize' % self.owner
        return self.check('serde', key, 'serde', F, is_read, opaque=derived)

    def always(self, q, ents, key):
        """every successful way through the saving function saves every part"""
        self.rep.ob(bool(ents), key, 'saves nothing')
        r = returns(q)
        S = Sweeps(q)
        for e in r:
            for p in S.paths(q.it.body.entry, {e['block']}):
                v = q.canon(S.P.sub(q.it.valarg(e['state'], e['value']), p.env))
                if p.end != e['block'] or v.op == 'agg' and last(v.a[0]) == 'Err' or v.op == 'call' and 'from_residual' in v.a[0]:
                    continue
                miss = [x for x in ents if x['block'] not in p.blocks]
                self.rep.ob(not miss, key, 'can succeed without saving %s' % [show(q.canon(x['args'][1]))[:40] for x in miss[:3]])

    def derive(self, name):
        pass

    def get(self, key, config, opaque=None):
        it = interp(key, config, rep=self.rep, tag='c09', opaque=opaque) if opaque else interp(key, config, rep=self.rep)
        if it is None:
            raise Bad('no %s' % key)
        return it

    def rkyv(self):
        key = '<%s as Archive>::resolve' % self.owner
        it = self.get(key, 'rkyv')
        q = Q(it, norm=norm9)
        F, R = {}, {}
        ents = [e for e in q.events('call') if last(e['name']) in ('resolve', 'resolve_from_slice', 'resolve_from_len', 'resolve_from_str')]
        for e in ents:
            v, pos, r, out = (q.canon(it.valarg(e['state'], a)) for a in e['args'][:4])
            b, p = unproj(bare(out))
            if b is not mk('arg', 4) or len(p) != 1:
                raise Bad('%s: written to %s' % (key, show(out)[:80]))
            G = p[0][1]
            self.rep.ob(G not in F, '%s: rkyv: %s' % (self.owner, G), 'resolved twice')
            b, p = unproj(bare(r))
            if b is mk('arg', 3) and len(p) == 1:
                R[p[0][1]] = (G, last(e['name']))
            F[G] = self.own(v) if last(e['name']) != 'resolve_from_len' else mk('entries', self.own(v))
            # the place handed over is the place of that field
            self.rep.ob(place_of(pos, out), '%s: rkyv: %s' % (self.owner, G), 'resolved for position %s' % show(pos)[:120])
        self.always_resolved(q, ents, key)
        self.saved(F, R)
        key = '<Archived%s as Deserialize>::deserialize' % self.owner
        return self.check('rkyv', key, 'rkyv', F, lambda b: b is SELF)

    def always_resolved(self, q, ents, key):
        for e in returns(q):
            for x in ents:
                self.rep.ob(q.dominates(x['block'], e['block']), key, 'can end without resolving %s' % show(q.canon(x['args'][3]))[:40])

    def saved(self, F, R):
        """what the resolvers stand for was written from the same parts"""
        key = None
        for f in program('rkyv').fns:
            if f.key == '<%s as Serialize>::serialize' % self.owner:
                key = f.key
        it = self.get(key or '<%s as Serialize>::serialize' % self.owner, 'rkyv')
        q = Q(it, norm=norm9)
        S = Sweeps(q)
        n = 0
        for e in returns(q):
            for p in S.paths(it.body.entry, {e['block']}):
                v = q.canon(S.P.sub(it.valarg(e['state'], e['value']), p.env))
                if p.end != e['block'] or v.op != 'agg' or last(v.a[0]) != 'Ok':
                    continue
                a = v.a[2][0]
                if a.op != 'agg' or not a.a[1]:
                    raise Bad('%s returns %s' % (key, show(a)[:100]))
                for r, x in zip(a.a[1], a.a[2]):
                    if r not in R:
                        self.rep.fail('%s: rkyv: resolver %s' % (self.owner, r), 'saved, but not used')
                        continue
                    G, kind = R[r]
                    x = x.a[0] if x.op == 'pay' else x
                    if x.op != 'call':
                        raise Bad('resolver %s is %s' % (r, show(x)[:80]))
                    n += 1
                    if last(x.a[0]) == 'serialize_from_iter':
                        want = F[G].a[0] if F[G].op == 'entries' else None
                        got = self.entries(q, it, x.a[1][0])
                        ok = got is not None and want is mk('len', got)
                        F[G] = mk('entries', got) if ok else F[G]
                        self.rep.ob(ok, '%s: rkyv: %s' % (self.owner, G), 'saved from %s' % show(x.a[1][0])[:160])
                        continue
                    got = self.own(x.a[1][0])
                    self.rep.ob(got is F[G] and last(x.a[0]).startswith('serialize_from_'), '%s: rkyv: %s' % (self.owner, G), 'saved from %s and resolved for %s' % (show(got)[:100], show(F[G])[:100]))
        self.rep.ob(n >= len(R) and n, '%s: rkyv: resolvers' % self.owner, '%d of %d' % (n, len(R)))

    def entries(self, q, it, x):
        """the map whose pairs an iterator gives as entries with fields key and value"""
        x = bare(x)
        if x.op == 'agg' and x.a[0] == '$MapC':
            d = dict(zip(x.a[1], x.a[2]))
            src, c = bare(d['it']), d['f']
            fn = program('rkyv').closures.get(c.a[0]) if c.op == 'agg' else None
            if fn is None or src.op != 'call' or last(src.a[0]) != 'iter' or 'HashMap' not in src.a[0]:
                return None
            ci = interp('closure ' + fn.key, 'rkyv', fn=fn, tag='c09', rep=self.rep)
            cq = Q(ci, norm=norm9)
            r = returns(cq)
            v = cq.canon(ci.valarg(r[0]['state'], r[0]['value'])) if len(r) == 1 else UNIT
            if v.op != 'agg' or not v.a[1] or set(v.a[1]) != {'key', 'value'}:
                return None
            f = dict(zip(v.a[1], v.a[2]))
            for n, k in (('key', 0), ('value', 1)):
                b, p = unproj(bare(f[n]))
                if b is not mk('arg', 2) or p != (('f', k),):
                    return None
            return self.own(src.a[1][0])
        return None

    def clone(self):
        key = '<%s as Clone>::clone' % self.owner
        if not any(f.key == key for f in program().fns):
            return 0
        return self.check('clone', key, 'host', CLONE, lambda b: False)


def place_of(pos, out):
    """pos is the position of the whole plus the distance of the field `out` from its start"""
    o = mk('arg', 4)
    k, c = lin_parts(pos)
    if c != 0 or k.get(mk('arg', 2)) != 1 or len(k) > 3:
        return False
    rest = sub(pos, mk('arg', 2))
    while rest.op == 'cast':
        rest = rest.a[1]
    k, c = lin_parts(rest)
    return c == 0 and k == {o: -1, out: 1}


def is_read(b):
    while b.op == 'pay':
        b = b.a[0]
    return b.op == 'call' and bool(DERIVED.search(b.a[0]))


def returned(q, e):
    r = returns(q)
    return len(r) == 1 and q.dominates(e['block'], r[0]['block'])


def derived(k, fn):
    return bool(DERIVED.search(k))


def norm9(e):
    if e.op == 'call' and len(e.a[1]) == 1 and e.a[0].startswith('ArchivedVec') or (e.op == 'call' and 'ArchivedVec' in e.a[0] and len(e.a[1]) == 1):
        m = last(e.a[0])
        if m == 'len':
            return mk('len', bare(e.a[1][0]))
        if m in ('as_slice', 'deref', 'as_ref'):
            return bare(e.a[1][0])
    return norm_idx(e)


def same_elem(v, path):
    """array whose element at `path` v is, seen through taking it apart and putting it together"""
    v = bare(v)
    if v.op in ('pj', 'ld', 'elem'):
        b, p = unproj(v)
        if len(p) > len(path) and p[-len(path):] == path:
            return mk('pj', b, p[:-len(path)])
        return None
    if v.op == 'agg' and v.a[2]:
        names = v.a[1] or [i for i in range(len(v.a[2]))]
        kind = 'i' if v.a[0] == '[]' else 'f'
        out = {same_elem(x, path + ((kind, const(n) if kind == 'i' else n),)) for n, x in zip(names, v.a[2])}
        return out.pop() if len(out) == 1 else None
    return None


def guard(rep, what, f):
    try:
        f(rep)
    except (Bad, Mystery, KeyError, OverflowError) as x:
        rep.fail(what, 'not understood: %s' % str(x)[:300])


# ---------------------------------------------------------------- values
def single(rep, key, config, opaque=None):
    it = interp(key, config, rep=rep, tag='c09', opaque=opaque) if opaque else interp(key, config, rep=rep)
    if it is None:
        raise Bad('no %s' % key)
    return it, Q(it, norm=norm9)


def good_paths(key, it, q):
    """(path, value) of the ways that end without an error"""
    S = Sweeps(q)
    out = []
    for e in returns(q):
        ps = S.paths(it.body.entry, {e['block']}) if it.body.entry != e['block'] else [Here9(e['block'])]
        for p in ps:
            if p.end != e['block'] or any(q.canon(c) is const(False) for c in p.conds):
                continue
            v = q.canon(S.P.sub(it.valarg(e['state'], e['value']), p.env))
            v = it.phi_alias.get(v, v)
            if v.op == 'agg' and last(v.a[0]) == 'Err' or v.op == 'call' and 'from_residual' in v.a[0]:
                continue
            out.append((p, v))
    return out


class Here9:
    conds, env = (), {}

    def __init__(self, b):
        self.end, self.blocks = b, (b,)


def structs_with(trait, config):
    out = []
    for f in program(config).fns:
        m = re.match(r'^<(\w+) as %s>::\w+$' % trait, f.key)
        if m and m.group(1) not in out:
            out.append(m.group(1))
    return out


def norm_simd(e):
    """a vector and the array of its lanes are one value"""
    if e.op == 'call' and last(e.a[0]) in ('as_array', 'from_array', 'to_array', 'into', 'from') and 'Simd' in e.a[0] and len(e.a[1]) == 1:
        return bare(e.a[1][0])
    return norm9(e)


def values(rep):
    """hand-written implementations for values of fixed size"""
    n = 0
    fields = struct_fields(program('serde'))
    for t in structs_with('Archive', 'rkyv'):
        if t in OWNERS or any(f.key == '<Archived%s as Deserialize>::deserialize' % t for f in program('rkyv').fns):
            continue
        if derived_impl(t, 'rkyv'):
            continue
        key = '<%s as Archive>::resolve' % t
        it, q = single(rep, key, 'rkyv')
        w = [e for e in q.events('call') if last(e['name']) == 'write']
        st = [e for e in q.events('store') if e['loc'][0][0] == 'M']
        ok = len(w) + len(st) == 1 and all(q.dominates((w + st)[0]['block'], e['block']) for e in returns(q))
        if ok:
            d, v = (q.canon(a) for a in w[0]['args']) if w else (q.canon(st[0]['loc'][0][1]), q.canon(st[0]['value']))
            ok = bare(d) is mk('arg', 4) and whole(v, SELF, fields.get(t))
        rep.ob(ok, '%s: rkyv: save' % t, 'is not written as it is')
        key = '<%s as Deserialize>::deserialize' % t
        it, q = single(rep, key, 'rkyv')
        r = good_paths(key, it, q)
        rep.ob(len(r) >= 1 and all(v.op == 'agg' and whole(v.a[2][0], SELF, fields.get(t)) and not p.conds for p, v in r), '%s: rkyv: read' % t, 'is not read as it is: %s' % [show(v)[:80] for p, v in r][:2])
        n += 2
    pairs = [(t, '<%s as Serialize>::serialize' % t, '<%s as Deserialize>::deserialize' % t, fields.get(t)) for t in structs_with('Serialize', 'serde') if t not in OWNERS and not derived_impl(t, 'serde')]
    for f in program('serde').fns:
        m = re.match(r'^(.*serde_\w+)::serialize$', f.key)
        if m:
            pairs.append((m.group(1), f.key, m.group(1) + '::deserialize', None))
    for t, ser, de, names in pairs:
        n += sequence(rep, t, ser, de, names)
    rep.floor('values', n, 11)


def derived_impl(t, config):
    return any(re.match(r'^<%s as Deserialize>::(visit_map|visit_seq|visit_newtype_struct)$' % t, f.key) for f in program(config).fns) if config == 'serde' else attr_derived(t)


def whole(v, root, names):
    v = bare(v)
    if v is root:
        return True
    if v.op == 'agg' and names and v.a[1] and list(v.a[1]) == list(names):
        return all(unproj(bare(x)) == (root, (('f', f),)) for f, x in zip(v.a[1], v.a[2]))
    return False


def sequence(rep, t, ser, de, names):
    """saved as a fixed sequence of lane arrays and read back from one"""
    it, q = single(rep, ser, 'serde')
    q.norm = norm_simd
    q = Q(it, norm=norm_simd)
    calls = list(q.events('call'))
    head = [e for e in calls if last(e['name']) in ('serialize_tuple', 'serialize_seq', 'serialize_tuple_struct')]
    els = [e for e in calls if last(e['name']) in ('serialize_element', 'serialize_field')]
    ends = [e for e in calls if last(e['name']) == 'end']
    if len(head) != 1 or len(ends) != 1 or not els:
        raise Bad('%s: %d sequences, %d elements, %d ends' % (ser, len(head), len(els), len(ends)))
    els.sort(key=lambda e: sum(1 for x in els if q.dominates(x['block'], e['block'])))
    good = good_paths(ser, it, q)
    for p, v in good:
        bl = list(p.blocks)
        rep.ob(all(e['block'] in bl for e in els + ends), '%s: serde: save' % t, 'can end without saving everything')
        at = [bl.index(e['block']) for e in els if e['block'] in bl]
        rep.ob(at == sorted(at), '%s: serde: save' % t, 'the order differs')
    rep.ob(len(good) >= 1, '%s: serde: save' % t, 'never succeeds')
    n = q.canon(head[0]['args'][1])
    n = n.a[2][0] if n.op == 'agg' and n.a[2] else n
    saved = [bare(q.canon(e['args'][1])) for e in els]
    rep.ob(cval(n) == len(saved), '%s: serde: length' % t, 'announces %s elements and saves %d' % (show(n)[:30], len(saved)))
    rep.ob(last(head[0]['name']) == 'serialize_tuple', '%s: serde: kind' % t, 'saved as a sequence of any length, read as an array: formats that keep the difference cannot read it back')
    it, q = single(rep, de, 'serde')
    q = Q(it, norm=norm_simd)
    good = good_paths(de, it, q)
    k = 0
    for p, v in good:
        v = v.a[2][0] if v.op == 'agg' and last(v.a[0]) == 'Ok' else v
        parts = {}
        flat9(v, (), parts)
        for path, x in parts.items():
            b, pp = unproj(bare(x))
            src = b
            while src.op == 'pay':
                src = src.a[0]
            ok = src.op == 'call' and 'Deserialize' in src.a[0] and len(pp) == 1 and pp[0][0] == 'i' and isinstance(index(pp[0][1]), int)
            m = re.search(r'; (\d+)\]+ as', src.a[0]) if ok else None
            if not m:
                raise Bad('%s: %s' % (de, show(x)[:100]))
            k += 1
            rep.ob(int(m.group(1)) == len(saved), '%s: serde: length' % t, '%d saved, %s read' % (len(saved), m.group(1)))
            j = index(pp[0][1])
            b, pp = unproj(saved[j]) if j < len(saved) else (UNIT, ())
            rep.ob(b is SELF and key9(pp) == key9(path), '%s: serde: %s' % (t, path_name(path)), 'is read from what was saved of %s' % path_name(pp))
        rep.ob(len(parts) == len(saved) and (names is None or {p[0][1] for p in parts} == set(names)), '%s: serde: parts' % t, '%d parts read, %d saved' % (len(parts), len(saved)))
        for c in p.conds:
            rep.ob(any('Deserialize' in x.a[0] for x in walk(c) if x.op == 'call'), '%s: serde: read' % t, 'is read back only if %s' % show(c)[:100])
    rep.ob(k >= 1, '%s: serde: read' % t, 'nothing is read')
    return 1


def index(x):
    return cval(x) if isinstance(x, E) else x


def key9(p):
    return tuple((k[0], index(k[1])) for k in p)


def path_name(p):
    return '.'.join(str(index(k[1]) if len(k) > 1 else k) for k in p)


def flat9(v, path, out):
    v = bare(v)
    if v.op == 'agg' and v.a[2] and last(v.a[0]) not in ('Ok', 'Some'):
        arr = v.a[0] == '[]'
        for i, x in enumerate(v.a[2]):
            flat9(x, path + (('i', i) if arr else ('f', v.a[1][i] if v.a[1] else i),), out)
    else:
        out[path] = v


# ---------------------------------------------------------------- clones and comparisons
def clones(rep):
    n = 0
    fields = struct_fields(program('host'))
    for f in program('host').fns:
        m = re.match(r'^<(\w+) as Clone>::clone$', f.key)
        if not m or m.group(1) in OWNERS:
            continue
        t = m.group(1)
        it = interp('clone ' + f.key, fn=f, tag='c09', rep=rep)
        q = Q(it, norm=norm9)
        r = returns(q)
        n += 1
        v = bare(q.canon(it.valarg(r[0]['state'], r[0]['value']))) if len(r) == 1 else UNIT
        if v is SELF:
            rep.ob(True, f.key)
            continue
        if v.op != 'agg' or len(v.a[2]) != len(fields.get(t) or v.a[2]):
            rep.ob(not fields.get(t) and v.op in ('agg', 'const'), f.key, 'returns %s' % show(v)[:100])
            continue
        for k, x in zip(v.a[1] or range(len(v.a[2])), v.a[2]):
            x = bare(x)
            while x.op == 'call' and last(x.a[0]) in SAME and len(x.a[1]) == 1:
                x = bare(x.a[1][0])
            rep.ob(unproj(x) == (SELF, (('f', k),)), '%s: %s' % (f.key, k), 'is %s' % show(x)[:100])
    rep.floor('clones', n, 16)


def equalities(rep):
    n = 0
    fields = struct_fields(program('host'))
    for f in program('host').fns:
        m = re.match(r'^<(\w+) as PartialEq>::eq$', f.key)
        if not m:
            continue
        t = m.group(1)
        n += 1
        it = interp('eq ' + f.key, fn=f, tag='c09', rep=rep)
        q = Q(it, norm=norm9)
        names = fields.get(OWNERS.get(t, t))
        if not names:
            continue        # an enumeration without data
        if t in OWNERS:
            M = Model(Quiet(), t, c02.collect_views(Quiet(), program('host')).get(t, []))
            need = {f_ for f_ in names if f_ != M.size and f_ not in M.counts}
        else:
            need = set(names)
        for p, v in good_paths(f.key, it, q):
            seen, neg = set(), 0
            atoms = [q.canon(c) for c in p.conds] + ([v] if v.op != 'const' else [])
            for c in atoms:
                sign, pair = compared(c)
                if pair is None or not twin(q, *pair):
                    rep.fail(f.key, 'depends on %s' % show(c)[:160])
                    continue
                if sign:
                    seen |= {k for k in tops(pair[0], t)}
                else:
                    neg += 1
            if v is const(False):
                rep.ob(neg >= 1, f.key, 'can be false for equal parts')
            elif neg == 0:
                miss = need - seen
                rep.ob(not miss, f.key, 'can be true though %s differ' % sorted(miss)[:4])
            else:
                rep.fail(f.key, 'can be true for different parts')
    rep.floor('comparisons', n, 11)


def tops(e, t):
    out = set()
    for x in walk(e):
        if x.op in ('ld', 'pj'):
            b, p = unproj(x)
            if b.op == 'arg' and p:
                k = p[1] if t in OWNERS and OWNERS[t] != t and len(p) > 1 else p[0]
                out.add(k[1])
    return out


def twin(q, a, b):
    """the same expression over the two operands"""
    x, y, z = SELF, mk('arg', 2), mk('arg', 92)
    for p, r in ((x, y), (y, x)):
        if not any(n is r for n in walk(a)) and not any(n is p for n in walk(b)):
            if q.subst(a, lambda n: z if n is p else None, {}) is q.subst(b, lambda n: z if n is r else None, {}):
                return True
    return False


def compared(c):
    """(is it asserted equal?, the two sides) of a comparison"""
    sign = True
    while c.op == 'not':
        c, sign = c.a[0], not sign
    if c.op == 'call' and last(c.a[0]) in ('eq', 'ne') and len(c.a[1]) == 2:
        return sign == (last(c.a[0]) == 'eq'), tuple(bare(x) for x in c.a[1])
    if c.op in ('eq0', 'ne0'):
        x = c.a[0]
        k, d = lin_parts(x)
        if d == 0 and sorted(k.values()) == [-1, 1]:
            a, b = sorted(k, key=lambda z: k[z])
            return sign == (c.op == 'eq0'), (b, a)
    if c.op == 'fcmp' and c.a[0] in ('Eq', 'Ne'):
        return sign == (c.a[0] == 'Eq'), c.a[1:3]
    return sign, None


# ---------------------------------------------------------------- derived implementations
def attr_derived(t):
    return bool(re.search(r'derive\([^)]*rkyv::Archive[^\]]*\]\s*(?:#\[[^\n]*\]\s*)*(?:pub(?:\([a-z]+\))?\s+)?(?:struct|enum)\s+%s\b' % t, source()))


def source():
    import glob
    return '\n'.join(open(f).read() for f in sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.rs'), recursive=True)))


SERDE_OK = ('rename', 'rename_all', 'alias', 'default', 'deny_unknown_fields', 'bound', 'crate', 'transparent', 'borrow', 'expecting')
RKYV_OK = ('archive', 'archive_attr', 'crate', 'check_bytes', 'compare', 'bound', 'omit_bounds', 'name', 'as')


def derives(rep):
    """every derived pair keeps every field, unconditionally, and treats it the same both ways"""
    fields = struct_fields(program('serde'))
    n = 0
    read = {m.group(1) for f in program('serde').fns for m in [re.match(r'^<(\w+) as Deserialize>::deserialize$', f.key)] if m}
    for t in structs_with('Serialize', 'serde'):
        if t in OWNERS or not derived_impl(t, 'serde'):
            rep.ob(t in read, '%s: serde' % t, 'is saved but cannot be read back')
            continue
        names = fields.get(t)
        key = '<%s as Serialize>::serialize' % t
        it, q = single(rep, key, 'serde', opaque=derived)
        calls = list(q.events('call'))
        new = [e for e in calls if last(e['name']) == 'serialize_newtype_struct']
        ents = [e for e in calls if last(e['name']) in ('serialize_field', 'serialize_element', 'serialize_entry')]
        if names is None or len(new) == 1:
            rep.ob(len(new) == 1 and not ents or names is not None and len(new) == 1, key, 'is not understood')
        else:
            got = []
            for e in ents:
                a = [bare(q.canon(it.valarg(e['state'], x))) for x in e['args']]
                got += [x for x in a if x.op == 'str'][:1] or [UNIT]
            rep.ob(len(ents) == len(names) and len(set(got)) == len(got), key, '%d of the %d fields are saved' % (len(ents), len(names)))
            for p, v in good_paths(key, it, q):
                miss = [e for e in ents if e['block'] not in p.blocks]
                rep.ob(not miss, key, 'can leave out %s' % [show(bare(q.canon(e['args'][1])))[:40] for e in miss][:3])
            seq = 0
            for f in program('serde').fns:
                if f.key == '<%s as Deserialize>::visit_seq' % t:
                    seq += sum(1 for b, (_, c) in f.blocks.items() if c and c[0] == 'call' and isinstance(c[2], str) and 'next_element' in c[2])
            rep.ob(seq == len(names), key, '%d of the %d fields are read back' % (seq, len(names)))
        rep.ob(t in read, key, 'is saved but cannot be read back')
        n += 1
    rep.floor('derived', n, 8)
    src = re.sub(r'//[^\n]*', '', source())
    src = re.sub(r'#\[cfg\(test\)\]\s*mod \w+ \{.*?\n\}\n', '', src, flags=re.S)
    pairs = [f.key[:-len('::serialize')] for f in program('serde').fns if re.match(r'^.*serde_\w+::serialize$', f.key)]
    k = 0
    for m in re.finditer(r'\b(serde|archive|with)\s*\(', src):
        if not attribute(src, m.start()):
            continue
        body = balanced(src, m.end())
        if m.group(1) == 'with':
            rep.fail('#[with(%s)]' % body[:60], 'a field is archived as something else')
            continue
        for x in split(body):
            name, _, val = (y.strip() for y in x.partition('='))
            k += 1
            if m.group(1) == 'serde' and name == 'with':
                v = val.strip('"')
                rep.ob(any(p == v or p.endswith('::' + v) for p in pairs), 'serde(with = %s)' % v, 'no such pair of functions was checked')
            elif m.group(1) == 'serde':
                rep.ob(name in SERDE_OK, 'serde(%s)' % x[:60], 'the field is not treated the same both ways, or left out')
            else:
                rep.ob(re.match(r'\w*', name).group(0) in RKYV_OK, 'archive(%s)' % x[:60], 'the field is not treated the same both ways')
    rep.floor('attributes', k, 2)


def attribute(src, i):
    """position i is inside #[...]"""
    j = src.rfind('#[', 0, i)
    return j >= 0 and src.count('[', j, i) > src.count(']', j, i)


def balanced(src, i):
    d, j = 1, i
    while d and j < len(src):
        d += {'(': 1, ')': -1}.get(src[j], 0)
        j += 1
    return src[i:j - 1]


def split(s):
    out, d, cur = [], 0, ''
    for c in s:
        d += {'(': 1, ')': -1}.get(c, 0)
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return [x.strip() for x in out + [cur] if x.strip()]
