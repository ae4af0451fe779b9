"""C06: running, validating and querying change nothing but the outputs."""
from common import *
from cursor import *
from soa import unproj, Mystery
from c13 import Spec, JOBS, OUTS, SELF, Bad, overlap
from flow import PURE_ACCESS
import os, re
import program as P

NOTE = ('Every store through a reference or raw pointer, and every mutable borrow handed to a function outside the crate, in every job\'s run() (everything of the crate inlined) is traced '
        'back to where its pointer comes from; it must be an output (the buffer borrowed from it, or the value the output getter reads) or lie behind the context. Everywhere else in the '
        'crate such a pointer must come from an argument the function may change or from memory it allocated itself.')
CONTEXT = {'SamplingJob': ('context',), 'BlendingJob': ('context',)}
VALUES = dict(OUTS, MotionBlendingJob=('output',))
CELLS = re.compile(r'\b(?:UnsafeCell|SyncUnsafeCell|Cell|RefCell|OnceCell|OnceLock|LazyCell|LazyLock|Mutex|RwLock|Atomic\w+)\b')
PROJECT = PURE_ACCESS | {'as_mut_slice', 'as_deref_mut', 'get_mut', 'get_unchecked_mut', 'first_mut', 'last_mut', 'iter_mut', 'split_at_mut', 'split_first_mut', 'split_last_mut', 'chunks_mut',
                         'chunks_exact_mut', 'array_chunks_mut', 'as_chunks_mut', 'into_iter', 'next', 'next_back', 'nth', 'unwrap', 'expect', 'unwrap_unchecked', 'cast', 'add', 'sub',
                         'offset', 'byte_add', 'from_raw_parts_mut', 'slice_from_raw_parts_mut', 'by_ref', 'as_uninit_mut', 'new_unchecked', 'as_non_null_ptr', 'from_mut', 'cast_mut',
                         'step_by', 'skip', 'take', 'zip', 'enumerate', 'rev', 'get_many_mut', 'get_disjoint_mut', 'transmute', 'to_bits', 'wrapping_add'}
WRITE = ('write', 'write_bytes', 'write_unaligned', 'write_volatile', 'copy', 'copy_nonoverlapping', 'copy_from', 'copy_from_nonoverlapping', 'copy_to', 'copy_to_nonoverlapping', 'swap',
         'swap_nonoverlapping', 'replace', 'drop_in_place', 'as_mut_unchecked')
ALLOC = ('alloc', 'alloc_zeroed', 'realloc')


def run(rep):
    rep.rule('run', 'run() writes only through the buffers of its outputs, the output values and behind the context')
    rep.rule('shared', 'no function writes through an argument it takes by shared reference')
    rep.rule('slot', 'the slots of a job (its animation, context, output buffers) stay filled with what they were given')
    rep.rule('cell', 'no object of the crate hides state that can change behind a shared reference')
    rep.assumptions += ['buffers handed to a job are different objects (two of them sharing memory is excluded by Rust\'s borrows unless the caller uses shared cells)',
                        'functions of std, glam and the traits OzzBuf/OzzMutBuf/OzzObj outside the crate change only what they are handed mutably']
    stores = 0
    for job, params in JOBS.items():
        try:
            stores += frame(rep, job, params)
        except (Mystery, Bad, KeyError) as x:
            rep.fail(job, 'not understood: %s' % str(x)[:200])
    rep.floor('writes of jobs', stores, 150)
    fns = refs = 0
    for f in program().fns:
        if f.kind != 'fn':
            continue
        mine = {i for i, t in enumerate(f.argtys) if not changing(t)}
        it = interp(f.key, fn=f, rep=rep, tag='c06')
        if it is None:
            continue
        q = Q(it, norm=norm_idx)
        fns += 1
        try:
            for o, what, at in writes(q):
                refs += 1
                if o[0] == 'arg' and o[1] - 1 in mine:
                    if not through(o, f):
                        rep.fail('%s writes %s' % (f.key, what[:60]), '%s writes to its argument %d of type %s (%s)' % (f.key, o[1], f.argtys[o[1] - 1][:60], what[:120]))
                        continue
                if o[0] == 'arg' and 'shared' in o[3]:
                    rep.fail('%s writes %s' % (f.key, what[:60]), '%s writes through what it was given by shared reference: %s' % (f.key, what[:120]))
                    continue
                if o[0] in ('const', 'unknown'):
                    rep.fail('%s writes %s' % (f.key, o[1]), '%s writes to something unknown: %s' % (f.key, what[:120]))
                    continue
                rep.ob(True, f.key)
        except Bad as x:
            rep.fail('%s origin' % f.key, '%s: %s' % (f.key, str(x)[:200]))
    rep.floor('functions', fns, 700)
    rep.floor('writes', refs, 400)
    cells(rep)


def changing(t):
    """may a function change what an argument of the type leads to: anything but a plain shared reference"""
    return not re.match(r"&(?:'\w+ )?(?!mut\b|'\w+ mut\b)", t) or re.search(r'&(?:\'\w+ )?mut ', t) is not None


def through(o, f):
    return o[1] - 1 < len(f.argtys) and 'buffer' in o[3]


def frame(rep, job, params):
    key = '%s::run' % job
    sp = Spec(rep, job, params)
    outs = [g for g in params if g.startswith('out_') or g in ('output', 'result') or g in OUTS.get(job, ())]
    places = {g: sp.reads(g) for g in outs + list(CONTEXT.get(job, ())) if g in sp.have}
    rep.ob(set(outs) <= sp.have, key, 'outputs without a getter')
    it = interp(key, rep=rep, tag='c06')
    if not rep.ob(it is not None, key, 'function not found'):
        return 0
    q = Q(it, norm=norm_idx)
    n = 0
    seen = set()
    for o, what, at in writes(q):
        n += 1
        if o[0] == 'fresh':
            continue
        hit = None
        if o[0] == 'arg' and o[1] == 1:
            for g, ps in places.items():
                for p in ps:
                    k = min(len(p), len(o[2]))
                    if o[2][:k] != p[:k] or len(o[2]) < len(p) and g not in VALUES.get(job, ()):
                        continue
                    if g in VALUES.get(job, ()) and 'buffer' not in o[3]:
                        hit = g
                    elif g in CONTEXT.get(job, ()) and 'pay' in o[3]:
                        hit = g
                    elif g not in VALUES.get(job, ()) and g not in CONTEXT.get(job, ()) and 'buffer' in o[3]:
                        hit = g
        k = '%s writes %s' % (key, what[:80])
        if hit is None:
            if k not in seen:
                rep.fail(k, '%s writes to %s, which is neither an output nor behind the context' % (key, what[:160]))
            seen.add(k)
        else:
            rep.ob(True, k)
            seen.add(hit)
    for g in outs:
        rep.ob(g in seen, '%s output %s' % (key, g), 'run() never writes the output %s' % g)
    v = interp('%s::validate' % job, rep=rep, tag='c06')
    if rep.ob(v is not None, '%s::validate' % job, 'function not found'):
        for o, what, at in writes(Q(v, norm=norm_idx)):
            rep.ob(o[0] == 'fresh', '%s::validate writes' % job, 'validate() writes to %s' % what[:120])
    return n


def writes(q):
    """(origin, text, block) of every write through a reference or pointer, and of every mutable borrow handed out of the crate"""
    O = Origins(q)
    for e in q.events('store'):
        loc = e['loc']
        if loc[0][0] == 'M':
            for o in O.of(loc[0][1], tuple(loc[1])):
                yield o, show(loc[0][1]) + path_text(loc[1]), e['block']
    for e in q.events('call'):
        m = e['name'].split('::')[-1]
        if m in PROJECT and not (m == 'take' and 'Option' in e['name'] or m == 'take' and 'mem::' in e['name']):
            continue
        if e['callee'] is not None:
            continue
        for v, t in zip(e['raw'], e['argtys']):
            if not t or not re.match(r"&(?:'\w+ )?mut ", t) and not (t.startswith('*mut ') and m in WRITE):
                continue
            u = v
            while u.op == 'unsize':
                u = u.a[0]
            if u.op == 'ref' and u.a[0][0][0] == 'L':
                continue
            for o in O.of(u, ()):
                yield o, '%s (handed to %s)' % (show(u), e['name'][-50:]), e['block']


def path_text(p):
    return ''.join('.%s' % x[1] if x[0] == 'f' else '[..]' for x in p)


class Origins:
    def __init__(self, q):
        self.q = q
        self.types = {}
        for e in q.events('call'):
            if e['result'] is not None:
                self.types.setdefault(e['result'], e['argtys'])

    def of(self, e, path):
        out = set()
        self.go(e, path, frozenset(), out, set())
        return out

    def go(self, e, path, marks, out, seen):
        b, p = unproj(e)
        path = tuple(p) + path
        k = (b, path if len(path) < 8 else path[:8], marks)
        if k in seen:
            return
        if len(seen) > 4000:
            raise Bad('too many origins of %s' % show(e)[:80])
        seen.add(k)
        o = b.op
        go = lambda x, pa=(), m=None: self.go(x, pa, marks | ({m} if m else set()), out, seen)
        if o == 'arg':
            out.add(('arg', b.a[0], tuple(x for x in path if x[0] == 'f' or True), marks))
        elif o == 'phi':
            for pred, v in self.q.it.phi_in.get(b, {}).items():
                if pred in self.q.live:
                    self.go(v, path, marks, out, seen)
        elif o in ('pay', 'opt'):
            go(b.a[0] if o == 'pay' else b.a[1], path, 'pay')
        elif o in ('asref', 'copied', 'unsize', 'conv', 'maperr', 'branch', 'ok_or', 'transmute', 'vproj', 'cast', 'some', 'ok'):
            x = next(y for y in reversed(b.a) if isinstance(y, E)) if o in ('transmute', 'cast') else b.a[0]
            go(x, path)
        elif o == 'unwrap_or':
            go(b.a[0], path, 'pay')
            go(b.a[1], path)
        elif o in ('slice', 'rawslice'):
            go(b.a[0], path)
        elif o == 'ref':
            loc = b.a[0]
            if loc[0][0] == 'L':
                out.add(('fresh',))
            else:
                go(loc[0][1], tuple(loc[1]) + path)
        elif o == 'hv':
            # what a call or loop left at a place
            loc = next((y for y in b.a if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], tuple) and y[0] and y[0][0] in ('M', 'L')), None)
            if loc is None or loc[0][0] == 'L':
                out.add(('fresh',) if loc else ('unknown', show(b)[:60]))
            else:
                go(loc[0][1], tuple(loc[1]) + path)
        elif o == 'lin':
            terms = [t for t, c in b.a[0]]
            al = [t for t in terms if any(x.op == 'call' and x.a[0].split('::')[-1] in ALLOC for x in walk(t))]
            ptrs = [t for t in terms if not sized(t)]
            for t in al or ptrs or terms:
                go(t)
        elif o == 'agg':
            kids = [x for x in b.a[2] if isinstance(x, E)]
            if path and path[0][0] == 'f' and b.a[1] and path[0][1] in b.a[1]:
                go(b.a[2][b.a[1].index(path[0][1])], path[1:])
            else:
                for x in kids:
                    go(x, path)
        elif o == 'call':
            m = b.a[0].split('::')[-1]
            if m in ALLOC:
                out.add(('fresh',))
            elif m == 'mut_buf':
                go(b.a[1][0], (), 'buffer')
            elif b.a[1]:
                # what a function returns can be written only if it was handed mutably
                tys = self.types.get(b) or [''] * len(b.a[1])
                some = any(changing(t) for t in tys)
                for x, t in zip(b.a[1], tys):
                    if changing(t) or not some:
                        go(x, (), None if some else 'shared')
            else:
                out.add(('fresh',))
        elif o in ('const', 'fconst', 'str', 'fn', 'uninit', 'undef', 'unit', 'bottom') or sized(b):
            pass
        elif o in ('constitem', 'static'):
            out.add(('const', show(b)))
        else:
            kids = []
            for y in b.a:
                for z in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(z, E):
                        kids.append(z)
            if not kids:
                out.add(('unknown', show(b)[:60]))
            for x in kids:
                go(x, ())


def sized(t):
    """a term of an address that is a number of bytes or elements, not a pointer"""
    return t.op in ('len', 'mul', 'sizeof', 'each', 'imul', 'div', 'div_ceil')


def cells(rep):
    src = os.path.join(P.REPO, 'src')
    n = 0
    for d, _, fs in os.walk(src):
        for fn in sorted(fs):
            if not fn.endswith('.rs'):
                continue
            text = re.sub(r'//[^\n]*', '', open(os.path.join(d, fn)).read())
            for m in re.finditer(r'\b(?:struct|enum|union) (\w+)\b[^{;(]*(\{.*?\n\s*\}|\([^;]*\)\s*;)', text, re.S):
                n += 1
                bad = CELLS.search(m.group(2))
                rep.ob(bad is None, '%s: cell' % m.group(1), '%s has a field of type %s: it can change behind a shared reference' % (m.group(1), bad.group(0) if bad else ''))
    rep.floor('types', n, 40)
