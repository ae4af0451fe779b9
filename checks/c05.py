"""C05: validation accepts exactly the documented configurations, run() accepts exactly what validation accepts."""
from common import *
from spec import Job, at
from real import Real, ONE

NOTE = ('Abstract interpretation (join-over-paths dataflow, no path enumeration) of every job\'s validate() and run() with all '
        'crate-local callees inlined; the must-facts at the accepting return are compared, in both directions, with the '
        'documented precondition table, per scenario of the discrete switches; error values of rejecting returns and the '
        'facts in force at every store through a reference are checked too.')

# a buffer that cannot be borrowed may also make run() fail with the buffer's own error
OPTIONAL = {('SkinningJob', f): (lambda: {Job('SkinningJob').bufok('joint_it_matrices')}) for f in ('validate', 'run')}

ATOMS = ('le0', 'eq0', 'fcmp')


def accept(it, q, boolean):
    """must-facts of the accepting return, None when nothing is ever accepted"""
    acc = None
    for e in returns(q):
        v = q.canon(e['value'])
        s = set(q.conds(e['block']))
        q.expand(v if boolean else q.iseq(it.discr(v), 0), s, ())
        if FALSE in s:
            continue
        acc = s if acc is None else acc & s
    return acc


def is_config(e):
    """a fact about the job's configuration only (no loop state, no result of a call)"""
    base = e.a[0] if e.op in ('not', 'forall') else e
    if e.op == 'forall':
        base = base.a[0] if base.op == 'not' else base
    if base.op not in ATOMS:
        return False
    return not mentions(e, lambda x: x.op in ('phi', 'hv', 'nondet', 'call', 'uninit', 'undef', 'next', 'cparam'))


def trivial(e):
    """index < length facts of the traversal itself"""
    b = e.a[0] if e.op == 'forall' else e
    if b.op == 'le0' and mentions(b, lambda x: x.op == 'each'):
        d, k = lin_parts(b.a[0])
        return len(d) <= 2 and d.get(mk('each')) == 1 and k <= 1
    return False


def holds(req, facts):
    if req.op == 'forall':
        body, seq = req.a
        if not implied_forall(body, facts):
            return False
        return any(f.op == 'swept' and implied(mk('le0', sub(mk('len', seq), mk('each'))), {f.a[0]}) for f in facts)
    if req.op == 'unit':
        return unit_holds(req, facts)
    return implied(req, facts)


def implied_forall(body, facts):
    return implied(body, {f.a[0] for f in facts if f.op == 'forall'})


def bounds_of(facts, vec):
    """tolerances (lo, hi) with which facts bound |vec|^2"""
    R = Real()
    want = None
    lo, hi = [], []
    for f in facts:
        if f.op != 'fcmp' or f.a[0] not in ('Lt', 'Le'):
            continue
        try:
            p = R.add(R(f.a[2]), R(f.a[1]), -1)     # > 0
        except OverflowError:
            continue
        c = p.pop(ONE, 0)
        sq = {}
        for k, v in p.items():
            if len(k) == 2 and k[0] is k[1]:
                sq[k[0]] = v
        if len(sq) != len(p) or len(sq) != 3:
            continue
        comps = sorted(show(x) for x in sq)
        if not all(comps[i].endswith(', %d)' % i) and show(vec) in comps[i] for i in range(3)):
            continue
        vals = set(sq.values())
        if vals == {1}:
            lo.append(float(-c))
        elif vals == {-1}:
            hi.append(float(c))
    return lo, hi


def unit_holds(req, facts):
    lo, hi = bounds_of(facts, req.a[0])
    return any(abs(x - 0.998) < 1e-5 for x in lo) and any(abs(x - 1.002) < 1e-5 for x in hi)


def plain(v):
    while v.op in ('transmute', 'conv'):
        v = v.a[0]
    return v


def specs():
    """job -> (scenarios: name -> (assumptions, requirements), allowed error variants)"""
    out = {}
    s = Job('SamplingJob')
    n = at('Animation::num_soa_tracks', s.obj('animation'))
    cap = at('SamplingContext::max_soa_tracks', s.obj('context'))
    out['SamplingJob'] = ({'any': ({}, [s.some('animation'), s.some('context'), s.some('output'), s.bufok('output'),
                                       ge(cap, n), ge(s.len('output'), n)])}, {'InvalidJob'})

    l = Job('LocalToModelJob')
    sk = l.obj('skeleton')
    ns, nj = at('Skeleton::num_soa_joints', sk), at('Skeleton::num_joints', sk)
    out['LocalToModelJob'] = ({'any': ({}, [l.some('skeleton'), l.some('input'), l.some('output'), l.bufok('input'), l.bufok('output'),
                                           ge(l.len('input'), ns), ge(l.len('output'), nj)])}, {'InvalidJob'})

    b = Job('BlendingJob')
    ns = at('Skeleton::num_soa_joints', b.obj('skeleton'))
    base = [b.some('skeleton'), b.some('context'), b.some('output'), b.bufok('output'), ge(b.len('output'), ns),
            cmp('Gt', b.f('threshold'), mk('fconst', 0.0), False)]
    lists = [strip(b.f('layers')), strip(b.f('additive_layers'))]
    lists = [x.a[0] if x.op == 'deref' else x for x in lists]

    def elem(seq, fld_):
        return mk('pj', mk('elem', seq, mk('each')), ('f', fld_))
    foralls, weights = [], []
    for seq in lists:
        tb = mk('buf', elem(seq, 'transform'))
        foralls.append(mk('forall', mk('eq0', mk('discr', tb)), seq))
        foralls.append(mk('forall', ge(mk('len', mk('pay', tb)), ns), seq))
        weights.append(mk('forall', ge(mk('len', elem(seq, 'joint_weights')), ns), seq))

    def wl(x):
        if x.op == 'len' and x.a[0].op in ('pj', 'ld'):
            p = x.a[0].a[1]
            return (p if isinstance(p[0], str) else p[-1]) == ('f', 'joint_weights')
        return False

    def without(x):
        return const(0) if wl(x) else None

    def with_(x):
        if x.op == 'eq0' and wl(x.a[0]):
            return FALSE
        if x.op == 'le0':
            d, k = lin_parts(x.a[0])
            if len(d) == 1 and wl(next(iter(d))):
                return const(k < 0) if list(d.values()) == [1] and k <= 0 else (TRUE if k == 1 else None) if list(d.values()) == [-1] else None
        return None
    out['BlendingJob'] = ({'layers without joint weights': (without, base + foralls),
                           'layers with joint weights': (with_, base + foralls + weights)}, {'InvalidJob'})

    k = Job('SkinningJob')
    vc, ic = k.f('vertex_count'), k.f('influences_count')
    scen = {}
    for nrm in (0, 1):
        for tan in (0, 1):
            for it in (0, 1):
                for inf in (0, 1, 2, 3, 4, 5, 8):
                    asm = {ic: const(inf), mk('discr', k.f('in_normals')): const(nrm), mk('discr', k.f('in_tangents')): const(tan),
                           mk('discr', k.f('joint_it_matrices')): const(it)}
                    if inf == 0 or (tan and not nrm):
                        scen['influences=%d normals=%d tangents=%d it=%d' % (inf, nrm, tan, it)] = (asm, None)
                        continue
                    req = [k.some('joint_matrices'), k.bufok('joint_matrices'), ge(k.len('joint_matrices'), const(1)),
                           k.some('joint_indices'), k.bufok('joint_indices'), ge(k.len('joint_indices'), mul(vc, const(inf)))]
                    if inf > 1:
                        req += [k.some('joint_weights'), k.bufok('joint_weights'), ge(k.len('joint_weights'), mul(vc, const(inf - 1)))]
                    bufs = ['in_positions', 'out_positions'] + (['in_normals', 'out_normals'] if nrm else []) + \
                        (['in_tangents', 'out_tangents'] if tan else [])
                    for x in bufs:
                        req += [k.some(x), k.bufok(x), ge(k.len(x), vc)]
                    scen['influences=%d normals=%d tangents=%d it=%d' % (inf, nrm, tan, it)] = (asm, req)
    out['SkinningJob'] = (scen, {'InvalidJob', 'InvalidIndex'})

    for jn in ('TrackSamplingJob', 'TrackTriggeringJob'):
        t = Job(jn)
        out[jn] = ({'any': ({}, [t.some('track')])}, {'InvalidJob'})
    a = Job('IKAimJob')
    out['IKAimJob'] = ({'any': ({}, [mk('unit', plain(a.f('forward')))])}, {'InvalidJob'})
    t = Job('IKTwoBoneJob')
    out['IKTwoBoneJob'] = ({'any': ({}, [mk('unit', plain(t.f('mid_axis')))])}, {'InvalidJob'})
    out['MotionBlendingJob'] = ({'any': ({}, [])}, set())
    return out


def it_for(job, fn, scen, asm, rep=None):
    """the interpretation of job::fn under the assumptions of a scenario: decided branches are cut"""
    if callable(asm):
        a = asm
    else:
        def a(x):
            return asm.get(x)
    return interp('%s::%s' % (job, fn), rep=rep, tag=scen, assume=a if asm else None)


def allowed_facts(reqs, asm, q):
    s = set()
    for r in reqs:
        s.add(mk('forall', r.a[0]) if r.op == 'forall' else q.canon(r) if r.op != 'unit' else r)
    return s


def settle(q, asm, reqs):
    """requirements in canonical form, without those the scenario already grants"""
    a = asm if callable(asm) else asm.get
    out = []
    for r in reqs:
        if r.op not in ('forall', 'unit'):
            r = q.canon(q.subst(r, a, {}))
        if r is not TRUE:
            out.append(r)
    return out


def check_scenario(rep, job, scen, fn, asm, reqs, boolean):
    it = it_for(job, fn, scen, asm, rep)
    if it is None:
        rep.fail('%s::%s missing' % (job, fn), 'public entry point not found')
        return None
    q = Q(it, norm=norm_job)
    where = '%s::%s [%s]' % (job, fn, scen)
    acc = accept(it, q, boolean)
    if reqs is None:
        rep.ob(acc is None, '%s accepts an invalid configuration' % where,
               'a configuration the documentation excludes reaches the accepting return')
        return q
    if acc is None:
        rep.fail('%s never accepts' % where, 'no accepting return is reachable')
        return q
    reqs = settle(q, asm, reqs)
    for r in reqs:
        rep.ob(holds(r, acc), '%s accepts without: %s' % (where, show(r)[:160]),
               'the accepting return is reachable without establishing the documented requirement %s' % show(r)[:400],
               sample='%s requires %s' % (where, show(r)[:160]))
    allow = allowed_facts(reqs, asm, q) | (OPTIONAL.get((job, fn)) or (lambda: set()))()
    units = [r.a[0] for r in reqs if r.op == 'unit']
    for f in sorted(acc):
        if not is_config(f) or trivial(f) or f.op == 'swept':
            continue
        if f.op == 'forall':
            ok = implied_forall(f.a[0], allow)
        else:
            ok = implied(f, allow)
        if not ok and f.op == 'fcmp' and any(any(bounds_of({f}, u)) for u in units):
            ok = True
        rep.ob(ok, '%s rejects unless: %s' % (where, show(f)[:160]),
               'acceptance additionally requires %s, which the documented precondition does not ask for' % show(f)[:400])
    return q


def err_variants(it, q):
    out = set()
    seen = set()

    def go(v):
        v = q.canon(v)
        if v in seen:
            return
        seen.add(v)
        if v.op == 'phi':
            for p, x in it.phi_in.get(v, {}).items():
                if p in q.live:
                    go(x)
            return
        if v.op == 'agg' and v.a[0].split('::')[-1] == 'Err':
            val(v.a[2][0])
        elif v.op == 'agg':
            return
        elif v.op in ('maperr', 'conv', 'branch', 'residual'):
            go(v.a[0])
        elif v.op == 'buf' or v.op == 'pay':
            out.add('buffer')
        else:
            out.add('?' + show(v)[:100])

    def val(x):
        x = q.canon(x)
        while x.op == 'conv':
            x = x.a[0]
        if x.op == 'phi':
            if x in seen:
                return
            seen.add(x)
            for p, y in it.phi_in.get(x, {}).items():
                if p in q.live:
                    val(y)
        elif x.op == 'agg':
            out.add(x.a[0].split('::')[-1])
        elif x.op == 'err':
            y = x.a[0]
            if y.op == 'buf':
                out.add('buffer')
            elif y.op == 'phi':
                go(y)
            else:
                out.add('?' + show(x)[:100])
        elif x.op == 'constitem':
            out.add(x.a[0].split('::')[-1])
        else:
            out.add('?' + show(x)[:100])
    for e in returns(q):
        go(e['value'])
    return out


def first_writes(rep, job, it, q, reqs, scen):
    """every store through a reference happens only under the whole precondition"""
    blocks = sorted({e['block'] for e in q.events('store') if e['loc'][0][1].op != 'uninit'})
    q._dominators()
    blocks.sort(key=lambda b: q._num[b])
    tops = []
    for b in blocks:
        if any(q.dominates(t, b) for t in tops):
            continue         # facts about the configuration persist below a dominating store
        tops.append(b)
        facts = q.conds(b)
        for r in reqs:
            rep.ob(holds(r, facts), '%s::run [%s] writes before checking: %s' % (job, scen, show(r)[:160]),
                   'a store through a reference is reachable before the requirement is established')
    return len(blocks)


def run(rep):
    rep.rule('exact precondition', 'facts(accepting return) == documented requirements, both directions, per scenario')
    rep.rule('agreement', 'validate() and run() are held to the same table')
    rep.rule('error value', 'a configuration error is reported as the invalid-job error; buffer access errors are passed through')
    rep.rule('no write before acceptance', 'every store through a reference in run() is dominated by all requirements')
    sp = specs()
    nscen = nw = 0
    for job, (scens, errs) in sp.items():
        for scen, (asm, reqs) in scens.items():
            nscen += 1
            check_scenario(rep, job, scen, 'validate', asm, reqs, True)
            q = check_scenario(rep, job, scen, 'run', asm, reqs, False)
            if q is None:
                continue
            it = q.it
            ev = err_variants(it, q)
            for v in sorted(ev):
                rep.ob(v in errs or v == 'buffer', '%s::run reports %s' % (job, v), 'a rejected run must report the invalid-job error (or pass a buffer error on)')
            if reqs is None:
                w = [e for e in q.events('store')]
                rep.ob(not w, '%s::run [%s] writes although invalid' % (job, scen), 'a store is reachable in an invalid configuration')
            else:
                nw += first_writes(rep, job, it, q, settle(q, asm, reqs), scen)
    rep.floor('scenarios', nscen, 64)
    rep.floor('jobs', len(sp), 9)
    rep.floor('guarded write blocks', nw, 100)
