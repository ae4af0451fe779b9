"""C17: local-to-model: which joints are converted, and to what."""
from common import *
from cursor import *
from soa import *
from spec import Job, at

NOTE = ('LocalToModelJob::run is interpreted abstractly; the loop-free paths between consecutive stores to the output decide which joint is converted next and when '
        'the walk ends, for all ranges and hierarchies; the stored matrix is compared, lane by lane and as polynomials over the reals, with parent * (T*R*S) for each of '
        'the four lanes of a pose.')


def run(rep):
    rep.rule('walk', 'first joint max(0, from + excluded), then always the next index; a joint is converted exactly when it is below the joint count, not behind `to`, and (unless it is `from` itself) its parent is not before `from`')
    rep.rule('value', 'model = root * local for a joint without parent, otherwise model[parent] * local, with local = T*R*S of that joint\'s own lane')
    rep.rule('frame', 'the only elements written are the converted joints\' own outputs')
    key = 'LocalToModelJob::run'
    it = interp(key, rep=rep)
    if not rep.ob(it is not None, key, 'function not found'):
        return
    q = Q(it, norm=norm_idx)
    J = Job('LocalToModelJob')
    skel = J.obj('skeleton')
    n = q.canon(at('Skeleton::num_joints', skel))
    frm, to, exc = (q.canon(J.f(x)) for x in ('from', 'to', 'from_excluded'))
    parents = q.canon(at('Skeleton::joint_parents', skel))
    begin = mk('max', add(frm, mk('b2i', exc)), const(0))
    out = q.canon(mk('pay', mk('buf', J.obj('output'))))
    inp = q.canon(mk('pay', mk('buf', J.obj('input'))))
    stores = []
    for e in q.events('store'):
        base = q.canon(e['loc'][0][1]) if e['loc'][0][0] == 'M' else None
        if base is None:
            continue
        if not rep.ob(same_buf(base, out) and len(e['loc'][1]) == 1 and e['loc'][1][0][0] == 'i', 'write to %s' % show(base)[:60],
                      'something other than an element of the output is written: %s' % (show(base)[:120],)):
            continue
        stores.append((e, q.canon(as_e(e['loc'][1][0][1]))))
    rep.floor('stores to the output', len(stores), 1)
    walk_(rep, q, it, stores, begin, n, to, frm, exc, parents, (parents, out, inp, untrans(q.canon(J.f('root')))))
    hierarchy(rep)


def untrans(e):
    while e.op == 'transmute':
        e = e.a[0]
    return e


def as_e(x):
    return x if isinstance(x, E) else const(x)


def same_buf(base, out):
    r, p = unproj(base)
    return base is out or r is out or (base.op == 'deref' and same_buf(base.a[0], out))


def parent_at(q, it, parents, i):
    return q.canon(mk('ld', parents, (('i', i),)))


def walk_(rep, q, it, stores, begin, n, to, frm, exc, parents, ops):
    P = Paths(q, rounds=2)
    blocks = {}
    for e, idx in stores:
        if not rep.ob(e['block'] not in blocks, 'two stores in one step', 'an element is written twice'):
            return
        blocks[e['block']] = idx
    rets = {e['block']: e for e in returns(q)}
    npaths = 0
    for src in [None] + sorted(blocks):
        start = it.body.entry if src is None else src
        try:
            paths = P.from_(start, set(blocks) | set(rets))
        except OverflowError as x:
            rep.fail('paths', str(x))
            return
        for p in paths:
            conds = unsigned(q, known(p.conds, (begin,)))
            if not consistent(conds, q) or any(contradicts(c, conds) for c in conds):
                continue
            if src is None and p.end in rets and not ok_return(it, q, P, rets[p.end], p):
                continue
            if src is not None:
                cur = blocks[src]
                want = add(cur, const(1))
            else:
                want = begin
            if p.cyclic:
                # the loop is left and re-entered without converting anything
                if not feasible(P, p, conds, want):
                    continue
                rep.fail('a round of the loop converts no joint', 'there is a cycle through block %s without a store' % p.end)
                continue
            npaths += 1
            par = parent_at(q, it, parents, want)
            where = 'first joint' if src is None else 'next joint'
            if p.end in blocks:
                got = q.canon(q.subst(P.sub(blocks[p.end], p.env), lambda x: x.a[1] if x.op == 'cast' and len(x.a) > 2 and implied(le0(sub(const(0), x.a[1])), conds) else None))
                if not rep.ob(eqi(got, want), '%s: index' % where, 'joint %s is converted instead of %s' % (show(got)[:150], show(want)[:150])):
                    continue
                rep.ob(holds(le0(add(sub(want, n), const(1))), conds), '%s: below the joint count' % where, 'no check that %s is a joint of the skeleton' % show(want)[:80])
                rep.ob(holds(le0(sub(want, to)), conds), '%s: `to`' % where, 'joint %s is converted without a check against `to`' % show(want)[:80])
                ok = implied2(le0(sub(frm, par)), conds | {le0(sub(const(-1), par))})   # -1 is the smallest parent
                if src is None:
                    ok = ok or neg(exc) in conds
                ev = [e for e, _ in stores if e['block'] == p.end][0]
                value(rep, q, it, P, p, ev, want, conds | set(q.conds(p.end)), src is None, *ops)
                rep.ob(ok, '%s: in the hierarchy' % where, 'joint %s is converted without the check that its parent is not before `from`' % show(want)[:80])
            else:
                alt = [le0(sub(n, want)), le0(add(sub(to, want), const(1)))]
                alt2 = le0(add(sub(par, frm), const(1)))
                ok = src is not None and implied2(alt2, conds)
                for c in unsigned(q, p.conds):
                    ds = disjuncts(c, (want,))
                    if ds and all(any(weaker(d, a) for a in alt) or (weaker(d, alt2) and (src is not None or exc in conds)) for d in ds):
                        ok = True
                rep.ob(ok, '%s: the walk ends' % where, 'the conversion stops before %s although it is in range and below `from`: %s' % (show(want)[:80], [show(c)[:80] for c in p.conds][-4:]))
    rep.floor('paths between stores', npaths, 4)


def eqi(a, b):
    if a is b:
        return True
    # max(a, 0) in either argument order
    if a.op == 'max' and b.op == 'max':
        return set(a.a) == set(b.a)
    return False


def holds(c, conds):
    if implied(c, conds):
        return True
    # begin = max(0, x): compare the whole
    return False


def weaker(d, a):
    """d implies a"""
    return implied(a, {d})


def feasible(P, p, conds, want):
    return True


def ok_return(it, q, P, e, p):
    v = P.sub(it.valarg(e['state'], e['value']), p.env)
    d = it.discr(v)
    return not (isinstance(cval(d), int) and cval(d) == 1)


def value(rep, q, it, P, path, e, idx, facts, first, parents, out, inp, root):
    par = parent_at(q, it, parents, idx)
    isroot = implied(q.canon(eq0(add(par, const(1)))), facts) or implied(le0(add(par, const(1))), facts)
    nonroot = implied(neg(q.canon(eq0(add(par, const(1))))), facts) or implied(le0(sub(const(0), par)), facts)
    if not rep.ob(isroot or nonroot, 'store at block: parent known', 'the matrix is stored without deciding whether the joint has a parent'):
        return
    val = P.sub(e['value'], path.env)
    for k in range(4):
        def lane(x):
            return const(k) if x.op == 'rem' and x.a[0] is idx and x.a[1] is const(4) else None
        v = q.subst(val, lane)
        L = Pose(it, q)
        R = L.R
        try:
            got = [L.vec(c) for c in cols_of(it, v)]
        except (Mystery, OverflowError) as x:
            rep.fail('matrix of lane %d' % k, 'not understood: %s' % x)
            return
        atoms = {a for c in got for p in c for a in lane_atoms(p)}
        local, parent, bad = {}, {}, []
        for a in atoms:
            r, path = unproj(a.a[0]) if a.op == 'lane' else (a, ())
            names = tuple(x[1] for x in path if x[0] == 'f')
            idxs = [as_e(x[1]) for x in path if x[0] == 'i']
            if a.op == 'lane' and len(names) >= 2 and names[-2] in ('translation', 'rotation', 'scale') and r is inp and a.a[1] == k and len(idxs) == 1 and same_group(q, facts, idxs[0], idx):
                local[names[-2:]] = a
            elif a.op == 'lane' and isroot and r is mk('arg', 1) and path[:1] == unproj(root)[1][:1]:
                parent[(num(path[-1][1]), a.a[1])] = a
            elif a.op == 'lane' and nonroot and r.op == 'transmute' and prev_out(q, it, q.canon(r.a[0]), out, par, first):
                parent[(num(path[-1][1]), a.a[1])] = a
            else:
                bad.append(a)
        if not rep.ob(not bad, 'lane %d: operands' % k, 'the matrix of joint i depends on %s' % ', '.join(show(b)[-120:] for b in bad[:3])):
            return
        need = [(c, x) for c, xs in (('translation', 'xyz'), ('rotation', 'xyzw'), ('scale', 'xyz')) for x in xs]
        if not rep.ob(all(x in local for x in need) and len(parent) == 16, 'lane %d: all operands used' % k, 'missing %s' % [x for x in need if x not in local]):
            return
        A = {x: R.atom(a) for x, a in local.items()}
        lm = trs(R, [A[('translation', c)] for c in 'xyz'], [A[('rotation', c)] for c in 'xyzw'], [A[('scale', c)] for c in 'xyz'])
        pm = [[R.atom(parent[(j, i)]) for i in range(4)] for j in range(4)]
        want = matmul(R, pm, lm)
        for j in range(4):
            for i in range(4):
                rep.ob(same(got[j][i], want[j][i]), 'lane %d: column %d row %d (%s)' % (k, j, i, 'root' if isroot else 'parent'),
                       'stored %s, parent * T*R*S is %s' % (show_poly(got[j][i])[-200:], show_poly(want[j][i])[-200:]))
    rep.count('matrix stores', 1)


def prev_out(q, it, x, out, par, first):
    """x is the output element at the parent's index, as it is after the stores so far"""
    r, path = unproj(x)
    path = tuple((k[0], k[1].a[1]) if signed(k) else k for k in path)
    if path:
        if first and same_buf(r, out) and len(path) == 1 and as_e(path[0][1]) is par:
            return True    # nothing has been stored yet
        return r.op in ('phi', 'hvarr') and len(path) == 1 and as_e(path[0][1]) is par
    return r.op == 'phi' and mentions_loc(r, par, out)


def mentions_loc(ph, par, out):
    return 'pay(buf' in show(ph) and any(y is par for y in walk(ph)) or show(par) in show(ph)


def same_group(q, facts, a, idx):
    """a is idx / 4, directly or through the first index of its group of four"""
    if a is q.canon(mk('div', idx, const(4))):
        return True
    if a.op != 'div' or a.a[1] is not const(4):
        return False
    b = a.a[0]
    hi = implied(le0(sub(add(idx, const(1)), add(mul(const(4), a), const(4)))), facts)
    return hi and above(q, idx, b)


def above(q, i, b):
    """i >= b because i grows from b"""
    d, c = lin_parts(sub(i, b))
    if not d:
        return c >= 0
    ph = [a for a, v in lin_parts(i)[0].items() if a.op == 'phi' and v == 1]
    for p in ph:
        ind = q.induction(p)
        if ind is not None and isinstance(cval(ind[1]), int) and cval(ind[1]) >= 0 and nonneg(sub(add(sub(i, p), ind[0]), b)):
            return True
    return False


def hierarchy(rep):
    pass
