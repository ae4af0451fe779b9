"""C04: a load that cannot succeed says why."""
from loaders import *

NOTE = ('On the read structure of every loader (see C03): each read, each UTF-8 conversion and the tag and version comparisons are followed by a branch whose '
        'failing side returns at once the matching error; nothing else is rejected; from_path and Archive constructors propagate; the error type '
        'keeps kind and position.')

FALLIBLE = ('open', 'new', 'from_archive', 'from_path', 'from_file', 'from_vec', 'from_slice', 'read_file', 'read_meta')


def run(rep):
    rep.rule('error arms', 'every fallible step is tested before anything else happens, and its failing arm returns an error made from that very failure')
    rep.rule('guards', 'tag and version are compared with the documented constants, mismatch gives InvalidTag / InvalidVersion; no other condition rejects')
    n = 0
    for L in loaders():
        m, probs, seen = run_loader(*L, rep)
        for k, msg in probs:
            if is_error_problem(k):
                rep.fail(k, msg)
        if m is None:
            rep.fail('%s: missing' % L[0], 'public function %s not found' % L[1])
            continue
        n += m.errs
        for i in range(m.errs):
            rep.ob(True, '')
        texts = {'tag'}
        if 'counts only' not in L[0]:
            texts.add('name')
        for x in sorted(texts):
            rep.ob(x in m.utf8, '%s: %s unchecked' % (L[0], x), 'the bytes of %s become text without a UTF-8 check that fails the load' % x)
    rep.floor('error arms', n, 190)
    propagation(rep)
    errors(rep)


def propagation(rep):
    """from_path, from_file, ...: Ok only when every step succeeded, otherwise the error of the step that failed"""
    rep.rule('propagation', 'constructors that open, wrap and load return the first error and otherwise the loaded value')
    P = program()
    ks = [k for k in ('Archive::from_path', 'Archive::from_file', 'Archive::from_vec', 'Archive::from_slice',
                      'Skeleton::from_path', 'Animation::from_path', 'Track::from_path')]
    n = 0
    for k in ks:
        key = k
        it = interp(k, opaque=opaque_steps(k), tag='prop', rep=rep)
        if it is None:
            rep.fail('%s: missing' % k, 'public function not found')
            continue
        q = Q(it, norm=norm_read)
        t = Terms(q).build()
        try:
            ps = paths(t)
        except ValueError:
            rep.fail('%s: loop' % k, 'unexpected loop')
            continue
        steps = [e for e in q.events('call') if e['dty'] and 'Result<' in e['dty'] and e['name'].split('::')[-1] in FALLIBLE]
        rep.ob(bool(steps), '%s: nothing loaded' % k, 'no fallible step found')
        for conds, v in ps:
            n += 1
            good = False
            if v.op == 'agg' and v.a[0].endswith('Err'):
                x = inner(v.a[2][0])
                good = x.op == 'call' and x.a[0].split('::')[-1] in FALLIBLE and eq0(sub(mk('discr', x), const(1))) in [q.n01(c) for c in conds]
            elif v.op == 'agg' and v.a[0].endswith('Ok'):
                x = inner(v.a[2][0])
                good = x.op == 'pay' and inner(x.a[0]).op == 'call' and inner(x.a[0]).a[0].split('::')[-1] == last_step(k) and eq0(mk('discr', inner(x.a[0]))) in [q.n01(c) for c in conds]
            else:
                x = inner(v)
                good = x.op == 'call' and x.a[0].split('::')[-1] == last_step(k)
            rep.ob(good, '%s: result' % k, 'returns %s under %s' % (show(v)[:200], [show(c)[:80] for c in conds]))
    rep.floor('constructor paths', n, 11)


def last_step(k):
    return 'new' if k.startswith('Archive') else 'from_archive'


def opaque_steps(k):
    def f(key, fn):
        if k.startswith('Archive'):
            return key.endswith('Archive::new')
        return key.endswith('::from_archive') or key in ('Archive::from_path', 'Archive::from_file', 'Archive::new')
    return f


VARIANTS = {'is_lock_poison': 'LockPoison', 'is_invalid_job': 'InvalidJob', 'is_io': 'IO', 'is_utf8': 'Utf8',
            'is_invalid_tag': 'InvalidTag', 'is_invalid_version': 'InvalidVersion'}


def errors(rep):
    rep.rule('error identity', 'an io::Error keeps its kind, a Utf8Error its position, and the is_* predicates hold for exactly their variant')
    P = program()
    for key, var, method in (('<OzzError as From>::from', 'IO', 'kind'), ('<OzzError as From>::from', 'Utf8', 'valid_up_to')):
        fs = [f for f in P.fns if f.key == key]
        hit = 0
        for f in fs:
            it = interp(key, fn=f, tag='from' + str(f.argtys))
            q = Q(it)
            for e in returns(q):
                v = q.canon(it.valarg(e['state'], e['value']))
                if v.op == 'agg' and v.a[0].endswith('::' + var) and any(x.op == 'call' and x.a[0].split('::')[-1] == method for x in walk(v.a[2][0])):
                    hit += 1
        rep.ob(hit == 1, 'OzzError from %s' % method, 'no conversion keeps %s in OzzError::%s' % (method, var))
    order = variants()
    n = 0
    for f, var in VARIANTS.items():
        it = interp('OzzError::' + f, rep=rep)
        if it is None:
            continue
        n += 1
        q = Q(it)
        t = Terms(q).build()
        d = mk('discr', mk('ld', mk('arg', 1), ()))
        for i, name in enumerate(order):
            got = set()
            for conds, v in paths(t):
                conds = [q.subst(c, lambda x: const(i) if x.op == 'discr' and strip(x.a[0]) in (mk('arg', 1), mk('ld', mk('arg', 1), ())) else None) for c in conds]
                v = q.subst(v, lambda x: const(i) if x.op == 'discr' and strip(x.a[0]) in (mk('arg', 1), mk('ld', mk('arg', 1), ())) else None)
                if FALSE in conds:
                    continue
                got.add(v)
            rep.ob(got == {const(name == var)}, 'OzzError::%s on %s' % (f, name), 'answers %s' % [show(x)[:80] for x in got])
    rep.floor('error predicates', n, 4)


def variants():
    import re
    txt = open(os.path.join(REPO, 'src', 'base.rs')).read()
    m = re.search(r'pub enum OzzError \{(.*?)\n\}', txt, re.S)
    return re.findall(r'^    (\w+)(?:\([^)]*\))?,', m.group(1), re.M) if m else []
