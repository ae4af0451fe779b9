"""C20: hierarchy traversals and joint queries of a skeleton."""
from common import *
from cursor import *
from soa import unproj
from spec import at
from c17 import weaker

NOTE = ('The traversals are cut at the calls of the visitor: every path from the entry or from one visit to the next visit or to the return is enumerated with its conditions and '
        'compared with the definition; the queries are compared, per return path, with what they have to answer. Joints are taken to be stored parents first, children following '
        '(depth-first), as the format demands; bimap looks up what was inserted.')
FROM = mk('index', 'joint')


def names(e):
    """OzzIndex: one number, however it is read"""
    if e.op == 'call' and len(e.a[1]) == 1 and 'OzzIndex' in e.a[0] and e.a[0].split('::')[-1] in ('i32', 'usize'):
        b = e.a[1][0]
        while b.op in ('&', 'deref'):
            b = b.a[0]
        if b is mk('arg', 2):
            return FROM
    if e.op == 'cast' and e.a[1] is FROM and e.a[0] in ('i32', 'i64', 'isize', 'usize'):
        return FROM
    return None


def base(e):
    while e.op in ('rawslice', 'slice', 'deref', '&', 'unsize') and (e.op != 'slice' or e.a[1] is const(0)):
        e = e.a[0]
    return e


class Fn:
    def __init__(self, rep, key):
        self.it = it = interp(key, rep=rep)
        self.ok = rep.ob(it is not None, key, 'function not found')
        if not self.ok:
            return
        self.q = q = Q(it, norm=norm_idx)
        sk = mk('arg', 1)
        self.n = mk('nat', 'joints')
        self.nloc = unproj(q.canon(at('Skeleton::num_joints', sk)))
        self.ploc = base(q.canon(at('Skeleton::joint_parents', sk)))
        self.parents = mk('nat', 'parents')

    def name(self, e):
        q = self.q

        def f(x):
            v = names(x)
            if v is not None:
                return v
            if x.op in ('ld', 'pj'):
                u = unproj(x)
                if u == self.nloc:
                    return self.n
            if x.op == 'elem' and base(x.a[0]) is self.ploc:
                return mk('elem', self.parents, self.name(x.a[1]))
            if x.op == 'len' and base(x.a[0]) is self.ploc:
                return self.n
            if x.op == 'cast' and x.a[0] in ('i16', 'i32', 'i64', 'isize'):
                return self.name(x.a[1])
            return None
        out = e
        for _ in range(3):
            out = q.canon(q.subst(q.canon(out), f, {}))
        return out


def parent(F, i):
    return mk('elem', F.parents, i)


def run(rep):
    rep.rule('depth first', 'the first visit is of max(0, from), each further one of the next joint; the walk ends exactly at the first joint that does not exist or (not being the first) whose parent is before from')
    rep.rule('reverse', 'the first visit is of the last joint, each further one of the joint before; the walk ends exactly before joint 0')
    rep.rule('visit', 'the visitor is given the joint and the parent stored for exactly that joint')
    rep.rule('queries', 'parent, leaf, name and count queries answer from the stored hierarchy and name table')
    visits(rep, 'Skeleton::iter_depth_first', False)
    visits(rep, 'Skeleton::iter_depth_first_reverse', True)
    leaf(rep)
    queries(rep)
    indices(rep)


def visits(rep, key, reverse):
    F = Fn(rep, key)
    if not F.ok:
        return
    q, n = F.q, F.n
    fn = mk('arg', 2 if reverse else 3)
    ev = {}
    for e in q.events('call'):
        m = e['name'].split('::')[-1]
        if m in ('call_mut', 'call', 'call_once') and '<F as' in e['name']:
            if not rep.ob(e['block'] not in ev, key, 'two visits in one step'):
                return
            ev[e['block']] = e
    rep.floor('%s: visits' % key, len(ev), 1)
    rets = {e['block'] for e in returns(q)}
    P = Paths(q, rounds=2)
    npaths = 0
    short = key.split('::')[-1]
    zero = const(0)

    def arg(e, k, env):
        t = e['args'][1]
        c = q.canon(P.sub(t, env))
        return F.name(c.a[2][k]) if c.op == 'agg' else F.name(mk('pj', c, (('f', k),)))
    for src in [None] + sorted(ev):
        start = F.it.body.entry if src is None else src
        try:
            paths = P.from_(start, set(ev) | rets)
        except OverflowError as x:
            rep.fail(key, str(x))
            return
        for p in paths:
            cs = {F.name(c) for c in p.conds}
            if src is not None:
                for ph in {x for c in cs for x in walk(c) if x.op == 'phi'}:
                    low = lower(q, ph)
                    if low is not None:
                        cs.add(F.name(le0(sub(low, ph))))
            cs = unsigned(q, cs)
            if not consistent(cs, q) or any(contradicts(c, cs) for c in cs):
                continue
            if p.end not in ev and p.end not in rets and not p.cyclic:
                continue
            if src is None:
                want = sub(n, const(1)) if reverse else None
            else:
                cur = arg(ev[src], 0, {})
                want = sub(cur, const(1)) if reverse else add(cur, const(1))
            if want is None:
                # max(0, from): which side the path is on
                if implied(le0(FROM), cs) :
                    want = zero
                elif implied(le0(sub(zero, FROM)), cs):
                    want = FROM
                else:
                    want = q.canon(mk('max', FROM, zero))
            npaths += 1
            where = '%s: %s visit' % (short, 'first' if src is None else 'next')
            if p.cyclic:
                rep.fail(where, 'a round of the loop visits nothing')
                continue
            inside = le0(sub(zero, want)) if reverse else le0(add(sub(want, n), const(1)))
            under = le0(add(sub(parent(F, want), FROM), const(1)))
            if p.end in ev:
                got, par = arg(ev[p.end], 0, p.env), arg(ev[p.end], 1, p.env)
                if not rep.ob(got is want or got.op == 'max' and want.op == 'max' and set(got.a) == set(want.a), where, 'joint %s is visited instead of %s' % (show(got)[:120], show(want)[:120])):
                    continue
                rep.ob(par is parent(F, got), where + ': parent', 'the parent passed for joint %s is %s' % (show(got)[:80], show(par)[:120]))
                rep.ob(implied(inside, cs), where + ': in range', 'no check that joint %s exists: %s' % (show(want)[:80], [show(c)[:80] for c in cs]))
                if src is not None and not reverse:
                    rep.ob(implied2(neg(under), cs | {le0(sub(const(-1), parent(F, want)))}), where + ': in the subtree', 'joint %s is visited without the check that its parent is not before from' % show(want)[:80])
            else:
                ok = implied(neg(inside), cs) or (src is not None and not reverse and implied(under, cs))
                if not ok:
                    alts = [neg(inside)] + ([under] if src is not None and not reverse else [])
                    for c in cs:
                        ds = disjuncts(c, ()) or []
                        if ds and all(any(weaker(d, a) for a in alts) for d in ds):
                            ok = True
                rep.ob(ok, where + ': the walk ends', 'the walk stops before joint %s although it belongs to it: %s' % (show(want)[:80], [show(c)[:80] for c in cs]))
    rep.floor('%s: paths' % key, npaths, 3)


def results(F):
    """(conditions, value) of every return path"""
    P = Paths(F.q, rounds=1)
    rets = {e['block']: e for e in returns(F.q)}
    out = []
    for p in P.from_(F.it.body.entry, set(rets)):
        if p.end not in rets:
            continue
        cs = {F.name(c) for c in p.conds}
        if not consistent(cs, F.q):
            continue
        out.append((cs, F.name(P.sub(rets[p.end]['value'], p.env)), p))
    return out


def leaf(rep):
    key = 'Skeleton::is_leaf'
    F = Fn(rep, key)
    if not F.ok:
        return
    nxt = add(FROM, const(1))
    base = {le0(sub(nxt, F.n)), le0(sub(const(0), FROM))}
    last = le0(sub(F.n, nxt))
    d = sub(parent(F, nxt), FROM)
    k = 0
    for cs, v, p in results(F):
        if isinstance(cval(v), (int, bool)):
            cases = [(cs, bool(cval(v)))]
        else:
            c = v.a[0] if v.op == 'b2i' else v
            cases = [(cs | {c}, True), (cs | {neg(c)}, False)]
        for c2, val in cases:
            c2 = c2 | base
            if not consistent(c2, F.q) or any(contradicts(c, c2) for c in c2):
                continue
            k += 1
            same = implied(le0(d), c2) and implied(le0(sub(const(0), d)), c2)
            diff = any(equal0(c, d, False) for c in c2)
            if val:
                rep.ob(implied(last, c2) or diff, key, 'a joint is called a leaf although the next one may be its child: %s' % [show(c)[:80] for c in c2])
            else:
                rep.ob(same or any(equal0(c, d, True) for c in c2), key, 'a joint is not called a leaf although nothing says that the next one is its child: %s' % [show(c)[:80] for c in c2])
    rep.floor('is_leaf: cases', k, 2)


def equal0(c, d, yes):
    """c says d == 0 (or d != 0)"""
    want = eq0(d)
    return c is (want if yes else neg(want))


def queries(rep):
    F = Fn(rep, 'Skeleton::joint_parent')
    if F.ok:
        for cs, v, p in results(F):
            rep.ob(v is parent(F, FROM), 'Skeleton::joint_parent', 'the parent of a joint is %s' % show(v)[:150])
    for key, side in (('Skeleton::joint_by_name', 'get_by_left'), ('Skeleton::name_by_joint', 'get_by_right')):
        F = Fn(rep, key)
        if not F.ok:
            continue
        kinds = set()
        table = unproj(F.q.canon(at('Skeleton::joint_names', mk('arg', 1))))
        is_get = lambda v: v.op == 'call' and v.a[0].split('::')[-1].split('::<')[0].startswith(side) or v.op == 'call' and '::%s' % side in v.a[0]
        for cs, v, p in results(F):
            look = [x for c in cs | {v} for x in walk(c) if x.op == 'call' and is_get(x)]
            for x in look:
                rep.ob(len(x.a[1]) == 2 and unproj(base(x.a[1][0])) == table and base(x.a[1][1]) is mk('arg', 2), key,
                       'the name table is asked for %s' % [show(y)[:100] for y in x.a[1]])
            g = look[0] if look else None
            if not rep.ob(g is not None, key, 'an answer that does not come from the name table by %s: %s' % (side, show(v)[:150])):
                continue
            if same_option(v, g):
                kinds |= {'some', 'none'}
                continue
            d = F.it.discr(v)
            if isinstance(cval(d), int) and cval(d) == 1:
                kinds.add('some')
                x = plain(v.a[2][0]) if v.op == 'agg' else None
                rep.ob(x is not None and x.op == 'pay' and x.a[0] is g, key, 'the answer is %s' % show(v)[:200])
            elif isinstance(cval(d), int) and cval(d) == 0:
                kinds.add('none')
                rep.ob(any(contradicts(c, {neg(eq0(mk('discr', g)))}) or c is eq0(mk('discr', g)) for c in cs), key, 'no answer although the table may have one')
            else:
                rep.fail(key, 'the answer is %s' % show(v)[:200])
        rep.ob(kinds == {'some', 'none'}, key, 'answers found and not found: %s' % sorted(kinds))
    F = Fn(rep, 'Skeleton::num_aligned_joints')
    if F.ok:
        four = const(4)
        soa = F.q.canon(at('Skeleton::num_soa_joints', mk('arg', 1)))
        ok = {F.q.canon(mul(four, x)) for x in (mk('div', add(F.n, const(3)), four), mk('div_ceil', F.n, four), soa)}
        for cs, v, p in results(F):
            rep.ob(v in ok or implied(eq0(mk('rem', F.n, four)), cs) and v is F.n, 'Skeleton::num_aligned_joints', 'the joint count rounded up to fours is %s' % show(v)[:150])


def same_option(v, g):
    return plain(v) is g


def plain(v):
    """v without copies and views of the same value"""
    while True:
        if v.op in ('&', 'deref', 'unsize') or v.op == 'ld' and not v.a[1]:
            v = v.a[0]
        elif v.op in ('copied', 'cloned'):
            v = v.a[0]
        elif v.op == 'call' and v.a[0].split('::')[-1] in ('copied', 'cloned', 'as_str', 'deref', 'as_ref', 'borrow', 'clone', 'as_deref') and len(v.a[1]) == 1:
            v = v.a[1][0]
        else:
            return v


def indices(rep):
    n = 0
    for t in ('usize', 'i32', 'i16'):
        for m in ('usize', 'i32'):
            key = '<%s as OzzIndex>::%s' % (t, m)
            it = interp(key, rep=rep)
            if not rep.ob(it is not None, key, 'function not found'):
                continue
            q = Q(it)
            for e in returns(q):
                n += 1
                v = q.canon(e['value'])
                while v.op == 'cast' and v.a[0] in (m,) or v.op in ('deref', '&') or v.op == 'ld' and not v.a[1]:
                    v = v.a[1] if v.op == 'cast' else v.a[0]
                rep.ob(v is mk('arg', 1), key, 'the index is %s' % show(v)[:150])
    rep.floor('index conversions', n, 6)
