"""C02: asset and context memory: disjoint aligned views of one allocation, freed as allocated, no other unsafe access."""
import re

from common import *
from flow import struct_fields, SIZES, ALIGNS
from mir import type_head
import witness

NOTE = ('The constructors are interpreted abstractly; every raw-parts view in the crate is expressed over the owner\'s fields and, with the field values the constructor '
        'establishes, proved to lie in the allocation, aligned, and disjoint from every other view, for all counts. Deallocation layout is compared symbolically with the '
        'allocation layout. All remaining unsafe operations of the crate (four build configurations) are enumerated from the MIR and must be of an accounted-for kind.')

OWNERS = {'Skeleton': None, 'Animation': None, 'SamplingContext': 'SamplingContextInner'}
ALLOCS = ('alloc', 'alloc_zeroed')
RAW = ('from_raw_parts', 'from_raw_parts_mut')


def is_alloc(n):
    return n.startswith(('std::alloc::', 'alloc::alloc::')) and n.split('::')[-1] in ALLOCS


# ---------------------------------------------------------------- arithmetic of layouts
def norm_layout(e):
    """align-up idioms become k*div_ceil(x, k) with multiples of k pulled out"""
    if e.op == 'iBitAnd':
        for m, x in (e.a, e.a[::-1]):
            k = mask_of(m)
            if k:
                return mul(const(k), ceil(sub(x, const(k - 1)), k))
    if e.op == 'div' and isinstance(cval(e.a[1]), int) and cval(e.a[1]) > 1:
        return ceil(sub(e.a[0], const(cval(e.a[1]) - 1)), cval(e.a[1]))
    if e.op == 'div_ceil' and isinstance(cval(e.a[1]), int):
        r = ceil(e.a[0], cval(e.a[1]))
        return r if r is not e else None
    if e.op == 'call' and e.a[0].split('::')[-1] == 'next_multiple_of' and isinstance(cval(e.a[1][1]), int):
        return mul(const(cval(e.a[1][1])), ceil(e.a[1][0], cval(e.a[1][1])))
    if e.op in ('sizeof', 'alignof'):
        t = type_head(str(e.a[0])) if not str(e.a[0]).endswith('Simd<f32, 4>') else 'Simd<f32, 4>'
        if t == 'Simd<f32, 4>':
            return const(16)
        tab = SIZES if e.op == 'sizeof' else ALIGNS
        return const(tab[t]) if t in tab else None
    return None


def mask_of(m):
    """power of two k when m == !(k-1)"""
    if m.op == 'bitnot' and isinstance(cval(m.a[0]), int):
        k = cval(m.a[0]) + 1
    elif isinstance(cval(m), int):
        v = cval(m)
        k = -v if v < 0 else (1 << 64) - v
    else:
        return None
    return k if 0 < k <= 4096 and k & (k - 1) == 0 else None


def is_base(a):
    return a.op == 'call' and is_alloc(a.a[0])


def ceil(x, k):
    """div_ceil with multiples of k outside; the base pointer is a multiple of every k up to its alignment"""
    d, c = lin_parts(x)
    out, rest = {}, {}
    extra = const(0)
    for a, v in d.items():
        if v % k == 0:
            out[a] = v // k
        elif is_base(a) and v == 1 and base_align(a) % k == 0:
            extra = mk('basediv', a, k)
        else:
            rest[a] = v
    oc, rc = divmod(c, k)
    if rc and not rest:
        oc, rc = oc + 1, 0
    r = mklin(out, oc)
    if extra is not const(0):
        r = add(r, extra)
    if rest or rc:
        # one level of nesting: ceil(k*q + r) already removed
        r = add(r, mk('div_ceil', mklin(rest, rc), const(k)))
    return r


def base_align(a):
    lay = a.a[1][0]
    if lay.op == 'call' and 'from_size_align' in lay.a[0]:
        al = lay.a[1][1]
        al = norm_layout(al) or al
        if isinstance(cval(al), int):
            return cval(al)
    return 1


def unbase(e):
    """k*basediv(B, k) is B"""
    d, c = lin_parts(e)
    out = const(c)
    for a, v in d.items():
        if a.op == 'basediv' and v % a.a[1] == 0:
            out = add(out, mul(a.a[0], const(v // a.a[1])))
        else:
            out = add(out, mklin({a: v}, 0))
    return out


def nonneg(e, depth=6):
    """is the linear form >= 0 for all non-negative values of its atoms, with k*ceil(x/k) >= x and k*ceil(x/k) <= x+k-1"""
    d, c = lin_parts(e)
    if c >= 0 and all(v >= 0 for v in d.values()):
        return True
    if depth == 0:
        return False
    for a, v in d.items():
        if a.op == 'div_ceil' and isinstance(cval(a.a[1]), int):
            k = cval(a.a[1])
            if v > 0:
                m = v - v % k
                if m and nonneg(add(sub(e, mklin({a: m}, 0)), mul(a.a[0], const(m // k))), depth - 1):
                    return True
            elif v % k == 0:
                m = -v // k
                if nonneg(sub(add(e, mklin({a: -v}, 0)), mul(add(a.a[0], const(k - 1)), const(m))), depth - 1):
                    return True
        if a.op == 'max' and v > 0:
            for x in a.a:
                if nonneg(add(sub(e, mklin({a: v}, 0)), mul(x, const(v))), depth - 1):
                    return True
    return False


def multiple(e, k):
    d, c = lin_parts(e)
    if c % k:
        return False
    for a, v in d.items():
        if v % k:
            return False
    return True


# ---------------------------------------------------------------- owners
def returning(P, owner):
    return [f for f in P.fns if f.kind == 'fn' and f.ret and type_head(f.ret) == owner and not f.ret.startswith(('&', '*'))]


def constructors(P, owner):
    """functions returning the owner that allocate for it themselves (directly or through helpers)"""
    back = {f.key for f in returning(P, owner)}
    out = []
    for f in returning(P, owner):
        seen, st = set(), [f]
        hit = False
        while st:
            g = st.pop()
            if id(g) in seen:
                continue
            seen.add(id(g))
            for b, (_, t) in g.blocks.items():
                if t and t[0] == 'call' and isinstance(t[2], str):
                    r = P.resolve(t[2])
                    if r is None:
                        hit = hit or is_alloc(P.callee_name(t[2]))
                    elif r.key not in back:
                        st.append(r)
        if hit:
            out.append(f)
    return out


def run(rep):
    rep.rule('layout', 'for all counts: every view [p, p+n*size) is inside the allocation, aligned for its element type, and disjoint from the other views of the owner; all views of one pointer agree')
    rep.rule('allocation', 'allocated once with non-zero size, null tested before use, freed in Drop only, with the size, alignment and address it was allocated with')
    rep.rule('frozen', 'size, pointers and counts used by views are written by the constructor only; the owner is built nowhere else')
    rep.rule('unsafe inventory', 'every other unsafe operation is a cast between plain number types, a view of a local of that size, or a serialisation trait')
    layout_witness(rep)
    P = program('host')
    views = collect_views(rep, P)
    for owner, inner in OWNERS.items():
        check_owner(rep, P, owner, inner, views.get(owner, []))
    rep.floor('views', sum(len(v) for v in views.values()), 78)
    n = 0
    for cfg in ('host', 'serde', 'rkyv', 'wasm'):
        n += inventory(rep, cfg)
    rep.floor('unsafe operations accounted for', n, 400)


def layout_witness(rep):
    for ok, key, msg in witness.soa_layout():
        rep.ob(ok, key, msg)
    code = '#![feature(portable_simd)]\nuse std::mem::*;\n'
    for t, p in (('Float3Key', 'animation'), ('QuaternionKey', 'animation'), ('InterpSoaFloat3', 'sampling_job'), ('InterpSoaQuaternion', 'sampling_job'), ('SoaTransform', 'math')):
        code += 'const _: () = assert!(size_of::<ozz_animation_rs::%s::%s>() == %d && align_of::<ozz_animation_rs::%s::%s>() == %d);\n' % (p, t, SIZES[t], p, t, ALIGNS[t])
    code += 'const _: () = assert!(size_of::<std::simd::f32x4>() == 16 && align_of::<std::simd::f32x4>() == 16);\n'
    for cfg in ('host', 'wasm'):
        ok, codes, text = witness.compile(code, cfg)
        rep.ob(ok, 'element layout (%s)' % cfg, 'element sizes/alignments are not the ones the layout proof uses: %s' % text)


def direct_raw(f):
    for b, (_, t) in f.blocks.items():
        if t and t[0] == 'call' and isinstance(t[2], str) and 'from_raw_parts' in t[2]:
            return True
    return False


def collect_views(rep, P):
    """owner -> [(function, ptr field, len expr over the owner's fields, element type)]"""
    out = {}
    work = [f for f in P.fns if f.kind == 'fn' and direct_raw(f)]
    done = set()
    n = 0
    while work:
        f = work.pop()
        if id(f) in done:
            continue
        done.add(id(f))
        it = interp('raw ' + f.key + str(f.path), fn=f, tag='raw', rep=None)
        rep.functions.add(f.key)
        q = Q(it, norm=norm_layout)
        up = False
        for e in q.events('call'):
            if e['name'].split('::')[-1] not in RAW:
                continue
            ptr, ln = (q.canon(it.valarg(e['state'], a)) for a in e['args'][:2])
            ptr = strip_cast(ptr)
            ety = re.sub(r"^&('\w+ )?(mut )?\[(.*)\]$", r'\3', e['dty'])
            root, path = flat(ptr)
            if path and root.op == 'arg':
                oty = re.sub(r"^&('\w+ )?(mut )?", '', f.argtys[root.a[0] - 1])
                own = type_head(oty)
                if own == 'SamplingContextInner':
                    own, path = 'SamplingContext', (('f', '0'),) + path
                if own in OWNERS:
                    want = 2 if OWNERS[own] else 1
                    if len(path) == want:
                        out.setdefault(own, []).append((f.key, path[-1][1], ln, ety, root))
                        continue
            if ptr.op == 'arg':
                # a helper working on a pointer it was given: judged at its callers, where it is inlined
                callers = [g for g in P.fns if g.kind == 'fn' and g is not f and calls(P, g, f)]
                if callers:
                    work += callers
                    continue
            if ptr.op == '&' and local_view(P, f, e, ln):
                n += 1
                continue
            rep.fail('%s: view of %s' % (f.key, show(ptr)[:80]), 'a slice is made from a raw pointer that is not a whole array of an asset, a context or a local: (%s, %s)' % (show(ptr)[:200], show(ln)[:200]))
    rep.floor('views of locals', n, 10)
    return out


def flat(e):
    """root and full access path of a load"""
    path = ()
    while e.op in ('ld', 'deref', '&'):
        if e.op == 'ld':
            path = e.a[1] + path
        e = e.a[0]
    return e, path


def field_of(e, arg, inner):
    """name of the owner's field a load reads"""
    if e.op != 'ld':
        return None
    root, path = flat(e)
    if root is not arg or not path or any(p[0] != 'f' for p in path):
        return None
    return path[-1][1]


def strip_cast(p):
    while p.op in ('cast', 'ptrcast', 'transmute'):
        p = p.a[0]
    return p


def calls(P, g, f):
    for b, (_, t) in g.blocks.items():
        if t and t[0] == 'call' and isinstance(t[2], str) and P.resolve(t[2]) is f:
            return True
    return False


def local_view(P, f, e, ln):
    """the pointer is a cast of a reference to a local whose type has exactly ln bytes"""
    ty = {i: t for i, t in f.locals.items()}
    ptrs = [re.sub(r'^\*mut |^\*const |^&(mut )?', '', t) for t in ty.values() if re.match(r'^\*(mut|const) (?!u8$)', t)]
    sizes = {SIZES.get(t) for t in ptrs} or {1}
    return isinstance(cval(ln), int) and sizes == {cval(ln)}


def check_owner(rep, P, owner, inner, views):
    cons = constructors(P, owner)
    if not rep.ob(len(cons) >= 1, '%s: constructor' % owner, 'no allocating constructor found'):
        return
    for f in cons:
        it = interp('cons ' + f.key, fn=f, tag='cons', rep=rep)
        rep.functions.add(f.key)
        q = Q(it, norm=norm_layout)
        for e in returns(q):
            v = it.valarg(e['state'], e['value'])
            v = it.phi_alias.get(v, v)
            if v.op == 'agg' and v.a[0].split('::')[-1] in ('Err', 'None'):
                continue
            names = struct_fields(P).get(inner or owner) or []
            if inner:
                p = v.a[2][0] if v.op == 'agg' and v.a[2] else None
                if p is None or p.op != 'call':
                    rep.fail('%s: built from %s' % (owner, show(v)[:60]), 'the context does not own a fresh allocation')
                    continue
                val = {n: it.load(e['state'], (('M', p), (('f', n),))) for n in names}
            else:
                val = {n: it.proj(v, ('f', n)) for n in names}
            val = {n: unbase(q.canon(x)) for n, x in val.items()}
            check_layout(rep, owner, f, q, it, val, views, p if inner else None)
            check_drop(rep, P, owner, inner, val, q)
        check_alloc(rep, owner, f, q, it)
    frozen(rep, P, owner, inner, {c.key for c in cons}, views)


def check_layout(rep, owner, f, q, it, val, views, selfptr):
    allocs = [e for e in q.events('call') if is_alloc(e['name'])]
    if not rep.ob(len(allocs) == 1, '%s: one allocation' % owner, '%d allocations' % len(allocs)):
        return
    lay = q.canon(it.valarg(allocs[0]['state'], allocs[0]['args'][0]))
    okl = lay.op == 'call' and 'from_size_align' in lay.a[0]
    if not rep.ob(okl, '%s: layout' % owner, 'allocation layout is %s' % show(lay)[:200]):
        return
    size, align = lay.a[1]
    rep.ob(isinstance(cval(align), int), '%s: alignment constant' % owner, show(align))
    bases = {x for n in val.values() for x in walk(n) if is_base(x)}
    if not rep.ob(len(bases) == 1, '%s: base pointer' % owner, '%d different allocations in the fields' % len(bases)):
        return
    base = bases.pop()
    al = cval(align) or 1
    regions = {}
    for key, fieldn, ln, ety, arg in views:
        x = val.get(fieldn)
        th = ety if ety in SIZES else type_head(ety)
        if x is None or th not in SIZES:
            rep.fail('%s: view %s' % (key, fieldn), 'unknown field or element type %s' % ety)
            continue

        def fv(y):
            n = field_of(y, arg, None)
            if n in val:
                return val[n]
            return norm_layout(y)
        n = q.subst(ln, fv)
        off = unbase(sub(x, base))
        if any(is_base(a) for a in lin_parts(off)[0]):
            rep.fail('%s: view %s' % (key, fieldn), 'the pointer field holds %s' % show(x)[:200])
            continue
        end = add(off, mul(n, const(SIZES[th])))
        rep.ob(nonneg(off), '%s: %s starts before the allocation' % (key, fieldn), 'offset %s' % show(off)[:200])
        rep.ob(nonneg(sub(size, end)), '%s: %s ends behind the allocation' % (key, fieldn),
               'the view [%s, +%s x %d) is not inside %s bytes for all counts' % (show(off)[:200], show(n)[:100], SIZES[th], show(size)[:200]),
               sample='%s.%s: offset %s, %s x %s' % (owner, fieldn, show(off)[:100], show(n)[:60], th))
        a = ALIGNS.get(th, SIZES[th])
        rep.ob(al % a == 0 and multiple(off, a), '%s: %s misaligned' % (key, fieldn), 'offset %s of a %d-aligned block is not a multiple of %d' % (show(off)[:200], al, a))
        regions.setdefault(fieldn, {})[(off, end, th)] = key
    for fieldn, rs in regions.items():
        rep.ob(len(rs) == 1, '%s: views of %s differ' % (owner, fieldn), 'two functions view the same array with different extents or types: %s' % [(k, show(r[1])[:80], r[2]) for r, k in rs.items()])
    lst = [(n, r, k) for n, rs in regions.items() for r, k in rs.items()]
    if selfptr is not None:
        th = 'Inner'
        lst.append(('header', (const(0), mk('sizeof', inner_ty(q)), th), owner))
    for i in range(len(lst)):
        for j in range(i):
            (na, (oa, ea, _), ka), (nb, (ob, eb, _), kb) = lst[i], lst[j]
            if na == nb:
                continue
            ok = nonneg(sub(ob, ea)) or nonneg(sub(oa, eb))
            rep.ob(ok, '%s: %s and %s overlap' % (owner, na, nb), '[%s, %s) and [%s, %s) are not disjoint for all counts' % tuple(show(z)[:100] for z in (oa, ea, ob, eb)))
    for nme, x in val.items():
        if mentions(x, is_base) and nme not in regions and nme != 'size':
            rep.ob(True, '')
    rep.count('regions', len(regions))
    # the recorded size is what was allocated
    rep.ob('size' not in val or q.canon(val['size']) in (size, ) or (size.op == 'max' and val['size'] in size.a), '%s: size field' % owner, 'size is %s, allocated %s' % (show(val.get('size', const(0)))[:150], show(size)[:150]))
    nz = size.op == 'max' and any(isinstance(cval(z), int) and cval(z) > 0 for z in size.a)
    nz = nz or nonneg(sub(size, const(1))) or (selfptr is not None and nonneg(sub(size, mk('sizeof', inner_ty(q)))))
    rep.ob(nz, '%s: zero-sized allocation' % owner, 'nothing keeps the allocation size %s above zero' % show(size)[:200])


def inner_ty(q):
    for x in (y for e in q.events('call') for y in walk(q.canon(e['args'][0]) if e['args'] else UNIT)):
        if x.op == 'sizeof' and 'Inner' in str(x.a[0]):
            return x.a[0]
    return 'sampling_job::SamplingContextInner'


def check_alloc(rep, owner, f, q, it):
    """nothing is done with the pointer before it was tested; contexts start zeroed"""
    for e in q.events('call'):
        if not is_alloc(e['name']):
            continue
        if owner == 'SamplingContext':
            rep.ob(e['name'].endswith('alloc_zeroed'), '%s: zeroed' % f.key, 'a context exposes its arrays before anything is written: the memory must be zeroed')
        p = it.result(e) if hasattr(it, 'result') else None
    for e in returns(q):
        facts = q.conds(e['block'])
        ok = any(c.op in ('not', 'eq0', 'le0', 'fcmp') and mentions(c, is_base) for c in facts)
        rep.ob(ok, '%s: null not tested' % f.key, 'the object is returned without a test of the allocation result')


def dealloc_fns(P):
    out = []
    for f in P.fns:
        for b, (_, t) in f.blocks.items():
            if t and t[0] == 'call' and isinstance(t[2], str) and P.callee_name(t[2]).startswith('std::alloc::dealloc'):
                out.append(f)
                break
    return out


def check_drop(rep, P, owner, inner, val, q0):
    key = '<%s as Drop>::drop' % owner
    f = P.fn(key)
    if not rep.ob(f is not None, '%s missing' % key, 'the allocation is never freed'):
        return
    it = interp(key, rep=rep)
    q = Q(it, norm=norm_layout)
    evs = [e for e in q.events('call') if e['name'].split('::')[-1] == 'dealloc']
    if not rep.ob(len(evs) == 1, '%s: dealloc' % key, '%d calls of dealloc' % len(evs)):
        return
    e = evs[0]

    def fv(y):
        n = field_of(y, mk('arg', 1), inner)
        if n in val:
            return val[n]
        return norm_layout(y)
    ptr = strip_cast(q.canon(it.valarg(e['state'], e['args'][0])))
    lay = q.canon(it.valarg(e['state'], e['args'][1]))
    bases = {x for n in val.values() for x in walk(n) if is_base(x)}
    base = bases.pop() if len(bases) == 1 else None
    if inner:
        okp = flat(ptr)[0] is mk('arg', 1) and len(flat(ptr)[1]) == 1
    else:
        okp = q.subst(ptr, fv) is base
    rep.ob(okp, '%s: pointer' % key, 'dealloc gets %s, which is not the address of the allocation' % show(ptr)[:120])
    got = q.subst(lay, fv)
    want = q0.canon(base.a[1][0]) if base is not None else None
    rep.ob(got is want, '%s: layout' % key, 'freed with %s, allocated with %s' % (show(got)[:250], show(want)[:250] if want else '?'))
    rep.ob(any(mentions(c, lambda x: x is ptr) for c in q.conds(e['block'])), '%s: null guard' % key, 'dealloc is not guarded by a test of the pointer')
    # freed on every path on which the pointer is not null
    rets = [r for r in returns(q)]
    for r in rets:
        rep.ob(q.dominates(e['block'], r['block']) or reaches_only_null(q, e, r, ptr), '%s: leak' % key, 'a path returns without freeing')
    others = [g.key for g in dealloc_fns(P) if not g.key.endswith(' as Drop>::drop')]
    rep.ob(not others, 'dealloc outside Drop', 'memory is also freed by %s' % others)


def reaches_only_null(q, e, r, ptr):
    """the branch that skips the dealloc is the null branch: the only condition on the dealloc block is about the pointer"""
    conds = [c for c in q.conds(e['block'])]
    return bool(conds) and all(mentions(c, lambda x: x is ptr) for c in conds)


def frozen(rep, P, owner, inner, cons, views):
    """nobody but the constructor (and Drop) stores into pointer, size or count fields or builds the owner"""
    st = inner or owner
    names = struct_fields(P).get(st) or []
    keep = {v[1] for v in views} | {'size'}
    for _, _, ln, _, arg in views:
        for x in walk(ln):
            n = field_of(x, arg, inner)
            if n in names:
                keep.add(n)
    helpers = set()
    for k in cons:
        g = P.fn(k)
        stack = [g]
        while stack:
            h = stack.pop()
            for b, (_, t) in h.blocks.items():
                if t and t[0] == 'call' and isinstance(t[2], str):
                    r = P.resolve(t[2])
                    if r is not None and id(r) not in helpers:
                        helpers.add(id(r))
                        stack.append(r)
    n = 0
    for f in P.fns:
        if f.kind != 'fn' or f.key in cons or id(f) in helpers or f.path.split('::')[-1] == owner:
            continue
        n += 1
        for b, (sts, t) in f.blocks.items():
            for s in sts:
                if s[0] != 'assign':
                    continue
                if s[2][0] == 'agg' and type_head(s[2][1]) == owner and not (inner and False):
                    rep.fail('%s builds a %s' % (f.key, owner), 'only the allocating constructor may build the owner of the memory')
                for p, kind in places(s):
                    if kind == 'write' and writes_field(f, p, st, names, keep) and not null_in_drop(f, s):
                        rep.fail('%s writes %s' % (f.key, '/'.join(sorted(writes_field(f, p, st, names, keep)))), 'a pointer, size or count that views depend on is changed after construction')
                if s[2][0] in ('ref', 'rawptr') and s[2][1] not in ('shared', 'const'):
                    w = writes_field(f, s[2][2], st, names, keep)
                    if w:
                        rep.fail('%s borrows %s mutably' % (f.key, '/'.join(sorted(w))), 'a pointer, size or count that views depend on can change after construction')
            if t and t[0] == 'call' and t[1] is not None:
                w = writes_field(f, t[1], st, names, keep)
                if w and not (f.key == '<%s as Drop>::drop' % owner and 'null_mut' in str(t[2])):
                    rep.fail('%s writes %s' % (f.key, '/'.join(sorted(w))), 'a pointer, size or count that views depend on is changed after construction')
    rep.count('functions scanned for stores', n)


def places(s):
    return [(s[1], 'write')]


def null_in_drop(f, s):
    return f.key.endswith(' as Drop>::drop')


def writes_field(f, p, st, names, keep):
    """field names of struct st that place p is (a part of)"""
    t = f.locals.get(p[0], '')
    out = set()
    for pr in p[1]:
        if pr[0] == '*':
            t = re.sub(r"^(&('\w+ )?(mut )?|\*(mut|const) )", '', t)
        elif pr[0] == 'f':
            if type_head(t) == st and isinstance(pr[1], int) and pr[1] < len(names) and names[pr[1]] in keep:
                out.add(names[pr[1]])
                return out
            t = pr[2]
        else:
            t = ''
    return out


# ---------------------------------------------------------------- the rest of the unsafe surface
SUSPECT = re.compile(r'unchecked|from_raw|into_raw|transmute|assume_init|zeroed|set_len|nonoverlapping|^std::ptr::|^core::ptr::|_ptr::<impl \*|::as_mut_ptr$|forget|leak|^std::alloc::|^alloc::alloc|MaybeUninit|ManuallyDrop|intrinsics|UnsafeCell|::offset$|::byte_add$')
PLAIN = re.compile(r'^(\[+)?(f32|f64|u8|u16|u32|u64|i8|i16|i32|i64|Simd|std::simd::Simd<[fiu]\d+, \d+>|glam::(Vec2|Vec3|Vec3A|Vec4|Quat|Mat4|Mat3A?|Affine3A)|math::(AosMat4|SoaVec3|SoaQuat|SoaTransform|SoaMat4))(; \d+\]+)*$')
SERIAL = re.compile(r' as (Archive|CheckBytes)>::(resolve|check_bytes)')
OK_CALLS = re.compile(r'::is_null$|^std::ptr::null(_mut)?$|::handle_alloc_error$|Layout::(from_size_align_unchecked|from_size_align|size|align|array|new|extend)$|::cast$|::cast_(mut|const)$|std::ptr::eq$|::addr$|wasm_bindgen::')


def inventory(rep, cfg):
    P = program(cfg)
    n = 0
    alloc_ok = set()
    for o in OWNERS:
        for c in constructors(P, o):
            alloc_ok.add(id(c))
            st = [c]
            while st:
                g = st.pop()
                for b, (_, t) in g.blocks.items():
                    if t and t[0] == 'call' and isinstance(t[2], str):
                        r = P.resolve(t[2])
                        if r is not None and id(r) not in alloc_ok:
                            alloc_ok.add(id(r))
                            st.append(r)
    for f in P.fns:
        if f.kind != 'fn' or '/rustc/' in f.path:
            continue
        serial = bool(SERIAL.search(f.key))
        for b, (sts, t) in f.blocks.items():
            for s in sts:
                if s[0] == 'assign' and s[2][0] == 'cast' and s[2][1] == 'Transmute':
                    n += 1
                    src = op_ty(f, s[2][2])
                    ok = (PLAIN.match(s[2][3]) and PLAIN.match(src or '')) or serial
                    rep.ob(ok, '%s: transmute (%s)' % (f.key, cfg), 'reinterprets %s as %s, which is not a plain number type on both sides' % (src, s[2][3]))
            for p in raw_derefs(f, sts, t):
                n += 1
                ok = serial or 'SamplingContextInner' in p
                rep.ob(ok, '%s: raw dereference (%s)' % (f.key, cfg), 'dereferences %s' % p)
            if t and t[0] == 'call' and isinstance(t[2], str) and P.resolve(t[2]) is None:
                name = P.callee_name(t[2])
                if not SUSPECT.search(name):
                    continue
                n += 1
                last = name.split('::')[-1]
                ok = bool(OK_CALLS.search(name)) or serial
                if last in RAW:
                    ok = True              # judged as a view
                if last == 'dealloc':
                    ok = f.key.endswith(' as Drop>::drop')
                if last in ALLOCS or (last in ('add', 'sub', 'offset', 'byte_add', 'offset_from', 'write', 'align_offset') and '_ptr::<impl' in name):
                    ok = ok or id(f) in alloc_ok
                if 'transmute' in last:
                    ok = ok or all(PLAIN.match(x) for x in re.findall(r'transmute::<(.*), (.*)>', t[2])[0:1] for x in x)
                if 'wbindgen' in f.key:
                    ok = True              # generated glue
                rep.ob(ok, '%s: %s (%s)' % (f.key, last, cfg), 'calls %s, an unsafe operation no rule accounts for' % name)
    return n


def op_ty(f, o):
    if o[0] in ('move', 'copy'):
        p = o[1]
        t = f.locals.get(p[0], '')
        for pr in p[1]:
            if pr[0] == 'f':
                t = pr[2]
            elif pr[0] == '*':
                t = re.sub(r"^(&('\w+ )?(mut )?|\*(mut|const) )", '', t)
            else:
                t = ''
        return t
    return ''


def raw_derefs(f, sts, t):
    out = []

    def place(p):
        ty = f.locals.get(p[0], '')
        for pr in p[1]:
            if pr[0] == '*':
                if ty.startswith(('*mut', '*const')):
                    out.append(ty)
                ty = re.sub(r"^(&('\w+ )?(mut )?|\*(mut|const) )", '', ty)
            elif pr[0] == 'f':
                ty = pr[2]
            else:
                ty = ''

    def go(o):
        if isinstance(o, tuple):
            if len(o) == 2 and isinstance(o[0], int) and isinstance(o[1], tuple):
                place(o)
            else:
                for x in o:
                    go(x)
        elif isinstance(o, list):
            for x in o:
                go(x)
    for s in sts:
        if s[0] == 'assign':
            go(s[1])
            go(s[2])
    if t:
        go(t)
    return out
