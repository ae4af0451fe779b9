"""Index walks: which elements a loop visits, decided on the loop-free paths between its stores."""
from common import *
from paths import Paths, contradicts


def signed(k):
    return isinstance(k, tuple) and len(k) > 1 and k[0] == 'i' and isinstance(k[1], E) and k[1].op == 'cast' and len(k[1].a) > 2


def norm_idx(e):
    """norm_job, with index arithmetic over the integers"""
    if e.op == 'cast' and e.a[0] in ('usize', 'i32', 'isize', 'i64', 'u32', 'u64'):
        return None if len(e.a) > 2 and not natural(e.a[1]) else e.a[1]
    if e.op in ('elem', 'elemref') and e.a[1].op == 'cast' and len(e.a[1].a) > 2:
        return mk(e.op, e.a[0], e.a[1].a[1])           # a negative index does not get through
    if e.op == 'pj' and signed(e.a[1]):
        return mk('pj', e.a[0], ('i', e.a[1][1].a[1]))
    if e.op in ('ld', 'pj') and isinstance(e.a[1], tuple) and any(map(signed, e.a[1])):
        return mk(e.op, e.a[0], tuple((k[0], k[1].a[1]) if signed(k) else k for k in e.a[1]))
    if e.op == 'call' and e.a[0].split('::')[-1] in ('saturating_add', 'wrapping_add', 'saturating_sub', 'wrapping_sub') and len(e.a[1]) == 2:
        m = e.a[0].split('::')[-1]
        if m == 'saturating_sub' and '<impl i' not in e.a[0]:
            return None
        return (add if m.endswith('add') else sub)(*e.a[1])
    if e.op == 'iBitAnd':
        for m, x in (e.a, e.a[::-1]):
            k = None
            if m.op == 'bitnot' and isinstance(cval(m.a[0]), int):
                k = cval(m.a[0]) + 1
            elif isinstance(cval(m), int) and cval(m) < 0:
                k = -cval(m)
            if k and k & (k - 1) == 0 and k <= 4096:
                return mul(const(k), div_(x, k))
    if e.op == 'div' and isinstance(cval(e.a[1]), int):
        r = div_(e.a[0], cval(e.a[1]))
        return r if r is not e else None
    return norm_job(e)


def natural(e):
    """a signed number that cannot be negative by its form"""
    if e.op in ('nat', 'len', 'b2i') or isinstance(cval(e), int) and cval(e) >= 0:
        return True
    if e.op == 'max':
        return any(natural(x) for x in e.a)
    if e.op == 'min':
        return all(natural(x) for x in e.a)
    if e.op == 'lin':
        d, c = lin_parts(e)
        return c >= 0 and all(v > 0 and natural(x) for x, v in d.items())
    if e.op == 'cast':
        return len(e.a) > 2 or natural(e.a[1])
    return False


def implied2(c, facts):
    """c follows from one fact or from the sum of two"""
    if implied(c, facts):
        return True
    fs = [f for f in facts if f.op == 'le0']
    return any(implied(c, {le0(add(f.a[0], g.a[0]))}) for i, f in enumerate(fs) for g in fs[i + 1:])


def unsigned(q, conds):
    """conditions in which signed numbers taken as unsigned are known not to be negative, written without the cast"""
    conds = set(conds)
    while True:
        out = {q.subst(c, lambda x: x.a[1] if x.op == 'cast' and len(x.a) > 2 and implied(le0(sub(const(0), x.a[1])), conds) else None) for c in conds}
        out = {q.canon(c) for c in out}
        if out == conds:
            return out
        conds = out


def div_(x, k):
    """floor division with whole multiples of k taken out"""
    d, c = lin_parts(x)
    out = {a: v // k for a, v in d.items() if v % k == 0}
    rest = {a: v for a, v in d.items() if v % k}
    if not rest:
        return mklin(out, c // k)
    return add(mklin(out, c // k), mk('div', mklin(rest, c % k), const(k)))


def nonneg(e, depth=5):
    """linear form known to be >= 0, atoms being naturals unless signed; x-(k-1) <= k*(x/k) <= x"""
    d, c = lin_parts(e)
    if c >= 0 and all(v >= 0 and natural(a) for a, v in d.items()):
        return True
    if depth == 0:
        return False
    for a, v in d.items():
        if a.op == 'div' and isinstance(cval(a.a[1]), int):
            k = cval(a.a[1])
            if v % k == 0:
                x = a.a[0] if v < 0 else sub(a.a[0], const(k - 1))
                if nonneg(add(sub(e, mklin({a: v}, 0)), mul(x, const(v // k))), depth - 1):
                    return True
    return False


def natural(a):
    if a.op == 'max':
        return any(isinstance(cval(x), int) and cval(x) >= 0 for x in a.a)
    return a.op in ('len', 'div', 'rem', 'phi', 'nat') or (a.op == 'ld' and a.a[1] and str(a.a[1][-1][1]).startswith(('num_', 'count')))


def decide(c):
    if c.op == 'not':
        r = decide(c.a[0])
        return None if r is None else not r
    if c.op == 'le0':
        if nonneg(neg_lin(c.a[0])):
            return True
        if nonneg(sub(c.a[0], const(1))):
            return False
    if c.op == 'eq0':
        if nonneg(sub(c.a[0], const(1))) or nonneg(sub(neg_lin(c.a[0]), const(1))):
            return False
    return None


def neg_lin(e):
    return sub(const(0), e)


def lower(q, ph):
    """the one value a family of loop cursors starts from, when they only ever grow; else None"""
    seen, st, outs = set(), [ph], set()
    while st:
        p = st.pop()
        if p in seen:
            continue
        seen.add(p)
        for pred, v in q.it.phi_in.get(p, {}).items():
            if pred not in q.live:
                continue
            v = q.canon(v)
            d, c = lin_parts(v)
            fam = [a for a in d if a.op == 'phi' and a in q.it.phi_in and a.a[1] == p.a[1]]
            if len(d) == 1 and len(fam) == 1 and d[fam[0]] == 1 and c >= 0:
                st.append(fam[0])
            elif v.op == 'phi' and v in q.it.phi_in and v not in q.it.phi_alias and v.a[1:] == p.a[1:]:
                st.append(v)
            else:
                outs.add(v)
    if len(outs) != 1:
        return None
    v = outs.pop()
    return None if any(x in seen for x in walk(v)) else v


def grown(q, c):
    """the condition with every growing cursor written as start + natural"""
    def f(x):
        if x.op == 'phi' and x in q.it.phi_in:
            l = lower(q, x)
            if l is not None:
                return add(l, mk('nat', show(x)))
        return None
    return q.subst(c, f)


def consistent(conds, q=None):
    if all(decide(c) is not False for c in conds):
        if q is None:
            return True
        return all(decide(grown(q, c)) is not False for c in conds)
    return False


def conjuncts(c, keep=()):
    """boolean -> set of conjuncts, with x < min(a, b) and x < max(0, a) for naturals x taken apart"""
    out, st = set(), [c]
    while st:
        c = st.pop()
        if c in out:
            continue
        if c.op == 'and':
            st += c.a
            continue
        out.add(c)
        if c.op != 'le0':
            continue
        d, k = lin_parts(c.a[0])
        for a, v in d.items():
            if a in keep:
                continue
            rest = mklin({b: w for b, w in d.items() if b is not a}, k)
            if v == -1 and a.op == 'min':
                st += [le0(sub(rest, m)) for m in a.a]
            if v == 1 and a.op == 'max':
                st += [le0(add(rest, m)) for m in a.a]
            if v == -1 and a.op == 'max' and any(x is const(0) for x in a.a) and nonneg(sub(rest, const(1))):
                # 1 <= rest <= max(0, m): m decides
                st += [le0(sub(rest, x)) for x in a.a if x is not const(0)]
    return out


def disjuncts(c, keep=()):
    """boolean -> list of alternatives one of which holds"""
    if c.op == 'not' and c.a[0].op == 'and':
        return [y for x in c.a[0].a for y in disjuncts(neg(x), keep)]
    if c.op == 'le0':
        d, k = lin_parts(c.a[0])
        for a, v in d.items():
            if a in keep:
                continue
            rest = mklin({b: w for b, w in d.items() if b is not a}, k)
            if v == 1 and a.op == 'min':
                return [y for m in a.a for y in disjuncts(le0(add(rest, m)), keep)]
            if v == 1 and a.op == 'max':
                # max(0, m) + rest <= 0 : both hold; the interesting one is m
                m = [x for x in a.a if x is not const(0)]
                if len(m) == 1 and len(a.a) == 2:
                    return disjuncts(le0(add(rest, m[0])), keep)
            if v == -1 and a.op == 'max':
                return [y for m in a.a for y in disjuncts(le0(sub(rest, m)), keep)]
    return [c]


def known(conds, keep=()):
    return {y for c in conds for y in conjuncts(c, keep)}
