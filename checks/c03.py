"""C03: archives are read exactly as the ozz format lays them out."""
from loaders import *

NOTE = ('Every loader is interpreted abstractly down to Read::read_exact; the resulting regular structure of reads, branches and loops is compared '
        'with the documented layout by product exploration (all paths, all trip counts symbolically), and at every successful return the values seen '
        'through the public accessors are compared with the values read. Byte order is left to C10, error reporting to C04.')


def run(rep):
    rep.rule('layout', 'on every path the widths, order, conditions and symbolic repeat counts of the reads equal the layout of the format')
    rep.rule('destination', 'at every Ok return each public accessor (or public meta field) exposes exactly the value(s) the layout names, element i from round i')
    for L in loaders():
        m, probs, seen = run_loader(*L, rep)
        for k, msg in probs:
            if not is_error_problem(k) or ': rejects' in k or ': unchecked' in k:
                rep.fail(k, msg)
        if m is not None:
            rep.count('reads', len(m.reads))
            rep.count('destinations', len(seen))
            rep.count('returns', m.oks)
            for s in sorted(seen):
                rep.ob(True, '', sample='%s: %s' % (L[0], s))
    rep.floor('loaders', len(loaders()), 10)
    rep.floor('reads', rep.counts.get('reads', 0), 120)
    rep.floor('destinations', rep.counts.get('destinations', 0), 85)
    # the layout of the block of 40 floats
    from witness import soa_layout
    for ok, key, msg in soa_layout():
        rep.ob(ok, key, msg)
