"""C10: byte order."""
from loaders import *

NOTE = ('The endianness tag decides the swap flag (all paths of Archive::new); every primitive read is the bytes of the stream, reversed exactly when the flag is set; '
        'and every loader is matched against its layout twice, with the flag assumed set and clear, each multi-byte value having to arrive swapped or unswapped accordingly.')

WIDTH = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'f32': 4, 'f64': 8}


def run(rep):
    rep.rule('flag', 'the swap flag is set on exactly the paths where the endianness byte (0 = big, other = little) differs from the target byte order')
    rep.rule('primitive', 'Ok value of every primitive read = the bytes read, reversed iff the flag is set')
    rep.rule('loaders', 'with the flag assumed set (clear) every count, condition and stored value is the swapped (plain) value read')
    flag = spec.ret('Archive::endian_swap')[1]
    # Archive::new
    it = interp('Archive::new', models=MODELS, tag='g', rep=rep)
    q = Q(it, norm=norm_swap)
    n = 0
    for tagv in (0, 1, 2, 128, 255):
        for conds, v in paths(Terms(q).build()):
            rds = [c.a[0] for c in conds if c.op == 'read']
            if len(rds) != 1 or rds[0].a[1] is not const(1):
                rep.fail('Archive::new: endianness byte', 'the header is %s, not one byte' % [show(x) for x in rds])
                continue
            f = lambda x: const(tagv) if x is rds[0] else norm_swap(x)
            cs = [q.subst(c, f) for c in conds if c.op != 'read']
            if FALSE in cs or not (v.op == 'agg' and v.a[0].endswith('Ok')):
                continue
            n += 1
            got = q.subst(spec.at('Archive::endian_swap', mk('&', v.a[2][0])), f)
            got = q.canon(got)
            rep.ob(got is const(tagv == 0), 'Archive::new: flag for tag %s' % ('0' if tagv == 0 else 'other'),
                   'an archive with endianness byte %d gives endian_swap=%s on a little-endian target' % (tagv, show(got)[:200]))
    rep.floor('header paths', n, 5)
    n = 0
    for ty, w in WIDTH.items():
        it = interp('<%s as ArchiveRead>::read' % ty, models=MODELS, tag='g', rep=rep)
        if it is None:
            rep.fail('<%s>::read missing' % ty, 'not found')
            continue
        for sw in (True, False):
            q = Q(it, norm=norm_swap, assume={flag: TRUE if sw else FALSE})
            for conds, v in paths(Terms(q).build()):
                if not (v.op == 'agg' and v.a[0].endswith('Ok')):
                    continue
                n += 1
                rds = [c.a[0] for c in conds if c.op == 'read']
                rd = rds[0] if len(rds) == 1 else None
                want = mk('sw', rd) if sw and w > 1 else rd
                x = v.a[2][0]
                rep.ob(rd is not None and rd.a[1] is const(w) and x is want, '%s::read swap=%s' % (ty, sw), 'a %s is %s, expected %s' % (ty, show(x)[:200], show(want) if want else '?'))
    # bool: any non-zero byte is true
    it = interp('<bool as ArchiveRead>::read', models=MODELS, tag='g', rep=rep)
    for sw in (True, False):
        q = Q(it, norm=norm_swap, assume={flag: TRUE if sw else FALSE})
        for conds, v in paths(Terms(q).build()):
            if not (v.op == 'agg' and v.a[0].endswith('Ok')):
                continue
            n += 1
            rds = [c.a[0] for c in conds if c.op == 'read']
            x = v.a[2][0]
            if x.op == 'const' and len(rds) == 1:
                okay = implied(eq0(rds[0]) if x is FALSE else neg(eq0(rds[0])), set(conds) | {q.n01(c) for c in conds if c.op != 'read'})
            else:
                okay = len(rds) == 1 and x is neg(eq0(rds[0]))
            rep.ob(okay and rds[0].a[1] is const(1), 'bool::read swap=%s' % sw, 'a bool is %s' % show(x)[:200])
    rep.floor('primitive reads', n, 22)
    n = 0
    for L in loaders():
        for sw in (True, False):
            m, probs, seen = run_loader(*L, rep, sw)
            for k, msg in probs:
                if not is_error_problem(k) or ': rejects' in k or ': guard' in k:
                    rep.fail('%s (swap=%s)' % (k, sw), msg)
            if m is not None:
                n += len(seen)
                for s in seen:
                    rep.ob(True, '')
    rep.floor('loader destinations', n, 170)
