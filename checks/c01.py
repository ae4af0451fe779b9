"""C01: the same calls on the same data give the same results everywhere."""
import os
import re
from common import *
import program as P

NOTE = ('Over every function, constant and static of the crate in the MIR of six build configurations: each callee outside the crate is classified - float methods by an '
        'allowlist of exactly rounded or bit-exact operations, everything else by a list of sources of nondeterminism; casts, transmutes and types are checked the same way; '
        'addresses are followed to where they are used; walks over hash maps are followed up the call graph; and the code of every function is compared across configurations.')

# f32/f64 methods whose result is fixed by IEEE 754 (or exact on the bits)
EXACT = set('''abs sqrt floor ceil round round_ties_even trunc fract copysign signum min max clamp minimum maximum to_bits from_bits
is_nan is_finite is_infinite is_normal is_subnormal is_sign_negative is_sign_positive total_cmp classify recip to_degrees to_radians midpoint
rem_euclid div_euclid abs_sub to_ne_bytes from_ne_bytes to_le_bytes to_be_bytes from_le_bytes from_be_bytes to_int_unchecked lerp
clone eq ne lt le gt ge partial_cmp add sub mul div rem neg add_assign sub_assign mul_assign div_assign rem_assign
default from into fmt serialize deserialize resolve product sum'''.split())
EXACT_SIMD = set('''abs sqrt floor ceil round round_ties_even trunc fract copysign signum simd_min simd_max simd_clamp to_bits from_bits is_nan is_finite
is_infinite is_normal is_subnormal is_sign_negative is_sign_positive recip to_degrees to_radians cast reduce_sum reduce_product reduce_min reduce_max
to_int_unchecked'''.split())
# anything whose result differs between machines, builds or runs
SOURCES = [
    (r'\b(?:core|std)::arch::', 'a machine-specific instruction'),
    (r'\bstd_detect\b|is_x86_feature_detected|is_aarch64_feature_detected', 'what the machine supports'),
    (r'\b(?:core|std)::intrinsics::(?:\w*(?:_fast|algebraic|fmaf|fmuladd|relaxed|sinf|cosf|powf|powif|expf|exp2f|logf|log2f|log10f|const_eval|caller_location|type_name)\w*)', 'an inexact intrinsic'),
    (r'\bsimd_(?:relaxed_fma|fsin|fcos|fexp|fexp2|flog|flog2|flog10|reduce_add_unordered|reduce_mul_unordered)\b', 'an inexact intrinsic'),
    (r'\bstd::time::', 'the clock'),
    (r'\bstd::env::', 'the environment'),
    (r'\bstd::thread::(?!LocalKey)', 'threads'),
    (r'\bstd::process::', 'the process'),
    (r'\bstd::net::', 'the network'),
    (r'\b(?:std|core)::sync::(?:mpsc|atomic|Barrier|Condvar)\b', 'the order of threads'),
    (r'\b(?:LocalKey|OnceLock|LazyLock)\b|\bsync::(?:\w+::)*Once\b', 'state kept between calls'),
    (r'\bRandomState\b|\brand::|\bgetrandom\b', 'a random seed'),
    (r'\btry_(?:read|write|lock)\b', 'the order of threads'),
    (r'\b(?:any::type_name|type_name_of_val|TypeId)\b', 'compiler-chosen names'),
    (r'\bpanic::Location\b', 'source positions'),
    (r'\bMaybeUninit\b.*\bassume_init|\bmem::uninitialized\b|\bset_len\b', 'uninitialised memory'),
    (r'\bjs_sys::Math\b|\bMath::random\b', 'the JavaScript engine'),
    (r'::(?:to_ne_bytes|from_ne_bytes|align_to|align_to_mut)$', 'the byte order of the machine'),
    (r'<impl (?:usize|isize)>::(?:leading_zeros|trailing_zeros|leading_ones|count_zeros|rotate_left|rotate_right|reverse_bits|swap_bytes|to_le_bytes|to_be_bytes|wrapping_mul|wrapping_shl|wrapping_shr|wrapping_pow|overflowing_mul)$',
     'the width of usize'),
]
STATE = re.compile(r'\b(?:Cell|RefCell|UnsafeCell|Mutex|RwLock|Atomic\w+|OnceLock|OnceCell|LazyLock|LazyCell|Once|LocalKey)\b')
HASHERS = re.compile(r'\b(?:HashMap|HashSet|BiHashMap|BiMap)\b')
WALK = re.compile(r'\b(?:HashMap|HashSet|BiHashMap|BiMap)\b.*::(?:iter|iter_mut|into_iter|keys|values|values_mut|into_keys|into_values|left_values|right_values|drain|retain|extract_if)$')
# the one place where the byte order of the machine is asked for: C10 decides what is made of it
NE_OK = {'u16'}


def terms(f):
    for k in sorted(f.blocks):
        if k not in f.cleanup:
            yield k, f.blocks[k]


def casts(x, out):
    if isinstance(x, tuple):
        if len(x) == 4 and x[0] == 'cast' and isinstance(x[1], str):
            out.append(x)
        for y in x:
            casts(y, out)
    elif isinstance(x, list):
        for y in x:
            casts(y, out)
    return out


def opty(f, o):
    """type of an operand"""
    if o[0] == 'const':
        m = re.search(r'_(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)$', o[1])
        if m:
            return m.group(1)
        m = re.search(r'(f32|f64)$', o[1])
        return m.group(1) if m else '?'
    l, pr = o[1]
    for p in reversed(pr):
        if p[0] == 'f':
            return p[2]
        if p[0] != 'v':
            break
    t = f.locals.get(l, '?')
    if not pr:
        return t
    if all(p == ('*',) or p[0] == '*' for p in pr):
        for _ in pr:
            t = re.sub(r'^(&(?:\'\w+ )?(?:mut )?|\*(?:const|mut) )', '', t)
        return t
    m = re.match(r'^(?:&(?:\'\w+ )?(?:mut )?|\*(?:const|mut) )?\[(.*?)(?:; .*)?\]$', t)
    return m.group(1) if m and pr[-1][0] in ('i', 'ci', 'idx', '[') else '?'


def source(name):
    for pat, what in SOURCES:
        if re.search(pat, name):
            return what
    return None


def floatop(raw, name):
    """None: no float operation of std; True: exact; else what is wrong"""
    m = re.search(r'(?:<impl (f16|f32|f64|f128)>|^<?(f16|f32|f64|f128)>?)::(\w+)$', name)
    if m:
        return True if m.group(3) in EXACT else '%s::%s' % (m.group(1) or m.group(2), m.group(3))
    m = re.match(r'^<.* as (?:[\w:]*::)?(SimdFloat|StdFloat)>::(\w+)$', name)
    if m:
        return True if m.group(2) in EXACT_SIMD else 'f32x4::%s' % m.group(2)
    m = re.search(r'\b(?:std|core)::(?:f16|f32|f64|f128)::(?:math::)?(\w+)$', name)
    if m:
        return True if m.group(1) in EXACT else m.group(1)
    return None


# ------------------------------------------------------------------ configurations

def norm(f):
    """the code of a function without unwinding, storage markers, overflow assertions, block and local numbers"""
    preds = {}
    body = {}
    unwind = unwinding(f)
    flags = drop_flags(f)
    for k, (st, t) in f.blocks.items():
        if k in unwind:
            continue
        if flags:
            st = [s for s in st if not (s[0] == 'assign' and not s[1][1] and s[1][0] in flags)]
        if t and t[0] in ('call', 'assert', 'drop') and t[-1] in unwind:
            t = t[:-1] + (None,)
        st = [s for s in st if s[0] not in ('live', 'dead')]
        if t and t[0] == 'assert' and isinstance(t[3], str) and 'overflow' in t[3] and t[3].startswith('"attempt to compute'):
            t = ('goto', t[-1])
        body[k] = (st, t)

    def succ(t):
        if t is None:
            return []
        if t[0] == 'goto':
            return [t[1]]
        if t[0] == 'switch':
            return [b for _, b in t[2]] + [t[3]]
        if t[0] in ('call', 'assert', 'drop'):
            return [t[-1]]
        return []
    seen = set()
    work = [0]
    while work:
        k = work.pop()
        if k is None or k in seen or k not in body:
            continue
        seen.add(k)
        for s in succ(body[k][1]):
            preds.setdefault(s, []).append(k)
            work.append(s)
    read = set()        # locals that are read (drop flags are only read while unwinding)
    for k in seen:
        st, t = body[k]
        for s in st:
            reads(s[2] if s[0] == 'assign' else s, read)
            if s[0] == 'assign' and s[1][1]:
                read.add(s[1][0])
        if t:
            reads(t[2:] if t[0] == 'call' else t, read)
    for k in seen:
        body[k] = ([s for s in body[k][0] if not (s[0] == 'assign' and not s[1][1] and s[1][0] > f.nargs and s[1][0] not in read and
                                                  s[2][0] == 'use' and s[2][1][0] == 'const')], body[k][1])
    out, num, loc = [], {}, {}
    order = [0]
    num[0] = 0

    def block(k):
        if k is None:
            return None
        if k not in num:
            num[k] = len(num)
            order.append(k)
        return num[k]

    def ren(x):
        if isinstance(x, tuple):
            if len(x) == 2 and type(x[0]) is int and isinstance(x[1], tuple):      # a place
                l = x[0]
                pr = x[1]
                if pr and pr[0][0] == 'f' and pr[0][1] == 0 and re.match(r'^\((?:[iu](?:8|16|32|64|128|size)), bool\)$', f.locals.get(l, '')) and l > f.nargs:
                    pr = pr[1:]
                if l not in loc:
                    loc[l] = len(loc)
                return ('p', loc[l], tuple(ren(p) for p in pr))
            if len(x) == 4 and x[0] == 'bin' and x[1].endswith('WithOverflow'):
                return ('bin', x[1][:-12], ren(x[2]), ren(x[3]))
            return tuple(ren(y) for y in x)
        if isinstance(x, list):
            return [ren(y) for y in x]
        return x
    for a in range(f.nargs + 1):
        loc[a] = a
    i = 0
    while i < len(order):
        k = order[i]
        i += 1
        sts = []
        while True:
            st, t = body.get(k, ([], ('none',)))
            sts += [ren(s) for s in st]
            if t and t[0] == 'goto' and len(preds.get(t[1], [])) == 1 and t[1] not in num:
                k = t[1]
                continue
            break
        if t is None:
            tt = None
        elif t[0] == 'goto':
            tt = ('goto', block(t[1]))
        elif t[0] == 'switch':
            tt = ('switch', ren(t[1]), [(v, block(b)) for v, b in t[2]], block(t[3]))
        elif t[0] in ('call', 'assert', 'drop'):
            tt = ren(t[:-1]) + (block(t[-1]),)
        else:
            tt = t
        out.append((sts, tt))
    return repr((f.nargs, f.argtys, f.ret, [clean(f.locals.get(l, '')) for l in loc], out))


def unwinding(f):
    """blocks that end by resuming an unwind"""
    pr = {}
    for k, (st, t) in f.blocks.items():
        for s in succs(t):
            pr.setdefault(s, []).append(k)
    out, w = set(), [k for k, (st, t) in f.blocks.items() if t and t[0] == 'resume']
    while w:
        k = w.pop()
        if k in out:
            continue
        out.add(k)
        for p in pr.get(k, ()):
            t = f.blocks[p][1]
            if all(s in out for s in succs(t)) and not (t[0] == 'call'):
                w.append(p)
    return out


def drop_flags(f):
    """unnamed booleans that only decide whether something is dropped"""
    cand = {}
    named = repr(f.debug)
    for k, (st, t) in f.blocks.items():
        for s in st:
            if s[0] == 'assign' and not s[1][1] and f.locals.get(s[1][0]) == 'bool':
                ok = s[2][0] == 'use' and s[2][1][0] == 'const' and s[2][1][1] in ('true', 'false')
                cand[s[1][0]] = cand.get(s[1][0], True) and ok
        if t and t[0] == 'call' and not t[1][1]:
            cand[t[1][0]] = False
    out = set()
    for l, ok in cand.items():
        if not ok or l <= f.nargs or re.search(r"'_%d\b" % l, named):
            continue
        uses = [t for k, (st, t) in f.blocks.items() if t and t[0] == 'switch' and t[1][0] in ('copy', 'move') and t[1][1] == (l, ())]
        if uses and all(any(f.blocks[b][1] and f.blocks[b][1][0] == 'drop' and not [s for s in f.blocks[b][0] if s[0] not in ('live', 'dead')]
                            for b in succs(t) if b in f.blocks) for t in uses):
            out.add(l)
    return out


def reads(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and type(x[0]) is int and isinstance(x[1], tuple):
            out.add(x[0])
        for y in x:
            reads(y, out)
        if x and x[0] in ('idx', 'i') and len(x) > 1 and type(x[1]) is int:
            out.add(x[1])
    elif isinstance(x, list):
        for y in x:
            reads(y, out)


def clean(t):
    return re.sub(r'^\(([iu](?:8|16|32|64|128|size)), bool\)$', r'\1', t)


def index(c):
    d = {}
    for f in program(c).fns:
        d.setdefault(f.header, []).append(f)
    return d


# ------------------------------------------------------------------ addresses

def addresses(rep, prog):
    """where the number of an address goes: compared for equality, reduced to an alignment, or kept as the identity of an animation"""
    work, seen, n = [], set(), 0
    bykey = {}
    for f in prog.fns:
        bykey.setdefault(f.key, []).append(f)

    def add(f, l, why, ctx=()):
        if (id(f), l, ctx) not in seen:
            seen.add((id(f), l, ctx))
            work.append((f, l, why, ctx))
    callers = {}
    for f in prog.fns:
        for k, (st, t) in terms(f):
            if t and t[0] == 'call':
                g = prog.resolve(t[2])
                if g is not None:
                    callers.setdefault(id(g), []).append((f, t))
    for f in prog.fns:
        for k, (st, t) in terms(f):
            for s in st:
                if s[0] == 'assign' and s[2][0] == 'cast' and s[2][1] in ('PointerExposeProvenance', 'PointerExposeAddress'):
                    n += 1
                    add(f, s[1][0], '%s takes an address' % f.key)
            if t and t[0] == 'call' and re.search(r'::(?:addr|expose_provenance|expose_addr|align_offset|bare_addr)$', prog.callee_name(t[2])) and 'ptr' in t[2]:
                n += 1
                add(f, t[1][0], '%s takes an address' % f.key)
    uses = 0
    ends = {}
    while work:
        f, l, why, ctx = work.pop()

        def is_(o):
            return o[0] in ('copy', 'move') and o[1][0] == l

        def bad(what):
            rep.fail('%s: address' % f.key, '%s; in %s it %s' % (why, f.key, what))
        if l == 0 and ctx:
            g, d = ctx[-1]
            add(g, d, why, ctx[:-1])
        elif l == 0:
            for g, t in callers.get(id(f), []):
                add(g, t[1][0], why)
        if id(f) not in ends:
            ends[id(f)] = returning(f)
        for k, (st, t) in terms(f):
            if k not in ends[id(f)]:
                continue        # only tells a panic message
            for s in st:
                if s[0] != 'assign':
                    continue
                dst, rv = s[1], s[2]
                hit = any(is_(o) for o in rv if isinstance(o, tuple) and o and o[0] in ('copy', 'move')) or \
                    (rv[0] == 'agg' and any(is_(o) for o in rv[3])) or (rv[0] == 'ref' and len(rv) > 2 and rv[2][0] == l)
                if any(p[0] in ('i', 'idx') and l in p[1:] for p in dst[1]) or (rv[0] in ('use', 'ref') and re.search(r"\('(?:i|idx)', %d\)" % l, repr(rv))):
                    bad('selects an element')
                if not hit:
                    continue
                uses += 1
                if rv[0] == 'use' or rv[0] == 'ref':
                    if dst[1] and any(p[0] == 'f' for p in dst[1]):
                        fname = field_name(prog, f, dst)
                        rep.ob(fname in ('animation_id', None) and re.search(r'animation|context', f.key, re.I), '%s: address kept' % f.key,
                               '%s; it is stored in %s' % (why, fname), sample='%s: an address is kept as the identity of an animation' % f.key)
                    else:
                        add(f, dst[0], why, ctx)
                elif rv[0] == 'bin':
                    if rv[1] in ('Eq', 'Ne'):
                        rep.ob(True, '%s: address' % f.key, sample='%s: compared for equality' % f.key)
                    elif rv[1].replace('WithOverflow', '').replace('Unchecked', '') in ('Sub', 'Add', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'Shl', 'Shr'):
                        add(f, dst[0], why, ctx)
                    elif rv[1] in ('Lt', 'Le', 'Gt', 'Ge') and only_panics(f, dst, ends[id(f)]):
                        rep.ob(True, '%s: address' % f.key)
                    else:
                        bad('is used by %s' % rv[1])
                elif rv[0] == 'cast':
                    if rv[1] == 'PointerWithExposedProvenance':
                        rep.ob(True, '%s: address' % f.key, sample='%s: becomes a pointer again' % f.key)
                    elif rv[1] == 'IntToInt' and rv[3] in ('usize', 'u64'):
                        add(f, dst[0], why, ctx)
                    else:
                        bad('is converted to %s' % rv[3])
                elif rv[0] in ('agg', 'un'):
                    add(f, dst[0], why, ctx)
                else:
                    bad('is used by %s' % rv[0])
            if t and t[0] == 'switch' and is_(t[1]):
                bad('decides a branch by its value')
            if t and t[0] == 'call':
                for i, o in enumerate(t[3]):
                    if not is_(o):
                        continue
                    uses += 1
                    g = prog.resolve(t[2])
                    name = prog.callee_name(t[2])
                    if g is not None:
                        add(g, i + 1, why, (ctx + ((f, t[1][0]),))[-4:])
                    elif re.search(r'(?:PartialEq(?:<.*>)?>::(?:eq|ne)|::with_addr|without_provenance|with_exposed_provenance|is_multiple_of|is_aligned_to)$', name):
                        rep.ob(True, '%s: address' % f.key)
                    elif 'ptr' in name and re.search(r'::(?:wrapping_|byte_)?(?:add|sub|offset)$', name) and i > 0:
                        rep.ob(True, '%s: address' % f.key)
                    elif re.search(r'(?:wrapping_|checked_|saturating_)?(?:add|sub|mul|div|rem|next_multiple_of|div_ceil|bitand|not|into|from|clone)$', name):
                        add(f, t[1][0], why, ctx)
                    else:
                        bad('is handed to %s' % name)
    rep.floor('addresses taken', n, 3)
    rep.count('uses of addresses', uses)


def only_panics(f, dst, ends):
    """the boolean only decides between going on and a panic"""
    if dst[1]:
        return False
    for k, (st, t) in f.blocks.items():
        r = set()
        for s in st:
            reads(s[2] if s[0] == 'assign' else (), r)
        if dst[0] in r:
            return False
        if t and t[0] == 'switch' and t[1][0] in ('copy', 'move') and t[1][1] == dst:
            if sum(b in ends for b in succs(t)) != 1:
                return False
        elif t:
            reads(t[2:] if t[0] == 'call' else t, r)
            if dst[0] in r:
                return False
    return True


def returning(f):
    pr = {}
    for k, (st, t) in f.blocks.items():
        for s in succs(t):
            pr.setdefault(s, []).append(k)
    out, w = set(), [k for k, (st, t) in f.blocks.items() if t and t[0] == 'return']
    while w:
        k = w.pop()
        if k not in out:
            out.add(k)
            w += pr.get(k, [])
    return out


def field_name(prog, f, place):
    """name of the last field stored to: by the debug names of the crate's struct definitions"""
    t = f.locals.get(place[0], '')
    for p in place[1]:
        if p[0] == '*':
            t = re.sub(r"^(&(?:'\w+ )?(?:mut )?|\*(?:const|mut) )", '', t)
        elif p[0] == 'f':
            fs = FIELDS.get(t.split('<')[0].split('::')[-1])
            if not fs or p[1] >= len(fs):
                return None
            name = fs[p[1]]
            t = p[2]
    return name


FIELDS = {}


def struct_fields():
    FIELDS.clear()
    src = os.path.join(P.REPO, 'src')
    for fn in os.listdir(src):
        if fn.endswith('.rs'):
            text = re.sub(r'//[^\n]*', '', open(os.path.join(src, fn)).read())
            for m in re.finditer(r'\bstruct (\w+)(?:<[^{;(]*>)?[^{;(]*\{(.*?)\n\s*\}', text, re.S):
                FIELDS[m.group(1)] = re.findall(r'^\s*(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:', m.group(2), re.M)


# ------------------------------------------------------------------ the check

def run(rep):
    rep.rule('float', 'a float method of std is one whose result IEEE 754 fixes; anything else (mul_add, powi, sin, exp, ...) is up to the platform')
    rep.rule('source', 'no function asks for the clock, the environment, a random seed, machine features, thread order, uninitialised memory, or keeps state between calls')
    rep.rule('width', 'no float or wider integer is converted to usize/isize, whose width is the platform\'s')
    rep.rule('hash', 'hash maps use the seedless hasher, and only saving walks over one')
    rep.rule('address', 'addresses are only compared for equality, reduced to an alignment, or kept as the identity of an animation')
    rep.rule('same code', 'a function has the same code in every build configuration (wasm32, features, debug assertions), overflow checks apart; only opening files differs')
    rep.assumptions += [
        'the compiler and std::simd compute +, -, *, /, sqrt and conversions as IEEE 754 says on every target (no x87, no fast-math)',
        'the sign of a zero from min/max of zeros of both signs, and which NaN an operation gives, are outside',
        'glam and glam-ext with core-simd and libm compute the same everywhere',
    ]
    struct_fields()
    progs = {c: program(c) for c in ('host', 'wasm')}
    calls = floats = fns = 0
    done = set()
    for c, prog in progs.items():
        for f in prog.fns:
            fns += 1
            rep.functions.add(f.key)
            if f.kind == 'static':
                ty = f.ret if f.ret else f.header
                ok = not STATE.search(f.header) and 'static mut' not in f.header
                rep.ob(ok, '%s: static' % f.key, 'the static %s can change: results depend on earlier calls' % f.header[:120])
            for l, t in f.locals.items():
                if 'RandomState' in t or 'ThreadRng' in t:
                    rep.fail('%s: random' % f.key, '%s holds a %s' % (f.key, t[:120]))
                if 'Instant' in t and 'std::time' in t:
                    rep.fail('%s: time' % f.key, '%s holds a %s' % (f.key, t[:120]))
                if HASHERS.search(t) and not t.startswith('fn') and '<' in t and not re.search(r'DeterministicState|JointHashMap|Archived', t) and \
                        re.search(r'\b(?:HashMap|HashSet|BiHashMap)<', t) and 'BuildHasher' not in t:
                    rep.fail('%s: hasher' % f.key, '%s holds a hash map with a hasher of its own: %s' % (f.key, t[:160]))
            for k, (st, t) in terms(f):
                cs = casts(st, [])
                for x in cs:
                    src = opty(f, x[2])
                    if x[1] in ('FloatToInt',) and x[3] in ('usize', 'isize'):
                        rep.fail('%s: float to %s' % (f.key, x[3]), 'a float is converted to %s: large values saturate at the platform\'s width' % x[3])
                    elif x[1] == 'IntToInt' and x[3] in ('usize', 'isize') and src in ('u64', 'i64', 'u128', 'i128'):
                        rep.fail('%s: %s to %s' % (f.key, src, x[3]), 'a %s is cut to the platform\'s width' % src)
                    elif x[1] == 'Transmute' and bytes_to_wide(src, x[3]):
                        rep.fail('%s: transmute' % f.key, '%s as %s is read in the byte order of the machine' % (src, x[3]))
                    else:
                        rep.count('casts')
                        rep.obligations += 1
                        rep.discharged += 1
                # constants and statics named in operands
                for m in set(re.findall(r"(?:usize|isize)>::BITS|(?:usize|isize)::BITS", repr(st))):
                    rep.fail('%s: width' % f.key, '%s depends on the width of usize' % f.key)
                if not t or t[0] != 'call':
                    continue
                raw = t[2]
                name = prog.callee_name(raw)
                calls += 1
                fo = floatop(raw, name)
                if fo is not None and not name.endswith('_ne_bytes'):
                    floats += 1
                    rep.ob(fo is True, '%s: %s' % (f.key, fo if fo is not True else 'float'),
                           '%s calls %s, whose result is not fixed by IEEE 754: it differs between platforms' % (f.key, fo))
                    continue
                g = prog.resolve(raw)
                w = source(raw) or source(name)
                if w and w.startswith('the byte order') and ('u16' in name and f.key.startswith('Endian::') or ' as ArchiveRead>' in f.key):
                    w = None        # asks for the byte order itself, or reads as stored to swap later: C10
                if w and f.impl is None and f.key.startswith('nodejs::'):
                    w = None
                rep.ob(w is None, '%s: %s' % (f.key, w), '%s calls %s: its result depends on %s' % (f.key, name[:160], w))
    rep.count('calls', calls)
    rep.floor('float operations', floats, 100)
    rep.floor('functions and constants', fns, 2500)
    # names of constants and statics outside the crate read as values
    for c, prog in progs.items():
        for f in prog.fns:
            for k, (st, t) in terms(f):
                for m in re.finditer(r"\('const', '([^']*)'\)", repr((st, t and t[1:]))):
                    if re.search(r'RandomState|Instant|thread_local|LocalKey', m.group(1)):
                        rep.fail('%s: constant' % f.key, '%s uses %s' % (f.key, m.group(1)[:120]))
                    if m.group(1).startswith('{alloc') and 'static' in m.group(1):
                        rep.fail('%s: static' % f.key, m.group(1)[:120])
    # ---- hash walks
    prog = progs['host']
    up = {}
    for f in prog.fns:
        for k, (st, t) in terms(f):
            if t and t[0] == 'call':
                g = prog.resolve(t[2])
                if g is not None:
                    up.setdefault(id(g), set()).add(f)
            for m in re.findall(r'\{closure@[^}]*\}', repr(st)):
                g = prog.closures.get(m)
                if g is not None:
                    up.setdefault(id(g), set()).add(f)
    walks = 0
    for f in prog.fns:
        for k, (st, t) in terms(f):
            if not (t and t[0] == 'call'):
                continue
            name = prog.callee_name(t[2])
            raw = re.sub(r'\{closure@[^}]*\}', '', t[2])
            if not (WALK.search(name) or (re.search(r'::into_iter$', name) and t[3] and HASHERS.search(opty(f, t[3][0])) and
                                          re.match(r"^&?(?:'\w+ )?(?:mut )?(?:[\w:]*::)?(?:HashMap|HashSet|BiHashMap|BiMap|JointHashMap)\b", opty(f, t[3][0])))):
                continue
            walks += 1
            seen, work, roots = set(), [f], set()
            while work:
                g = work.pop()
                if id(g) in seen:
                    continue
                seen.add(id(g))
                cs = up.get(id(g), ())
                if not cs:
                    roots.add(g.key)
                work += list(cs)
            bad = [r for r in roots if not re.search(r' as (?:\w+::)*(?:Serialize|SerializeUnsized|PartialEq|Debug|Clone)(?:<.*>)?>::', r)]
            rep.ob(not bad, '%s: walk over a hash map' % f.key, '%s walks a hash map, whose order differs between platforms, on behalf of %s' % (f.key, sorted(bad)[:4]),
                   sample='%s walks the joint names only to save them' % f.key)
    rep.floor('walks over hash maps', walks, 1)
    b = prog.fn('<DeterministicState as BuildHasher>::build_hasher')
    if b is None:
        rep.fail('hasher missing', 'DeterministicState::build_hasher is not found')
    else:
        cs = [prog.callee_name(t[2]) for k, (st, t) in terms(b) if t and t[0] == 'call']
        rep.ob(all(re.search(r'(?:DefaultHasher.*::(?:default|new)|Default>::default)$', x) for x in cs) and cs, 'DeterministicState: seedless',
               'the hasher is built by %s' % cs)
    addresses(rep, prog)
    # ---- configurations
    H = index('host')
    nh = {}

    def nrm(f):
        if id(f) not in nh:
            nh[id(f)] = norm(f)
        return nh[id(f)]
    for c in ('wasm', 'nodefault', 'serde', 'rkyv'):
        W = index(c)
        same = 0
        names = {strip_impl(h) for h in W}
        for h, fs in W.items():
            if h not in H:
                if all(opens(program(c), f) for f in fs) or re.search(r'\bnodejs::', h):
                    continue
                rep.fail('%s only: %s' % (c, fs[0].key), '%s exists only in the build %s' % (h[:160], c))
                continue
            a, b = H[h], fs
            if len(a) == len(b) and all(nrm(x) == norm(y) for x, y in zip(a, b)):
                same += 1
                continue
            if all(opens(program('host'), f) for f in a) and all(opens(program(c), f) for f in b):
                continue
            rep.fail('%s: %s' % (c, a[0].key), 'the code of %s in the build %s differs from the default build%s' % (a[0].key, c, where(a[0], b[0], nrm)))
        if c == 'wasm':
            for h, fs in H.items():
                if h not in W and not all(opens(program('host'), f) for f in fs):
                    rep.fail('%s lacks: %s' % (c, fs[0].key), '%s does not exist in the build %s' % (h[:160], c))
        rep.obligations += same
        rep.discharged += same
        rep.floor('functions of %s with the code of host' % c, same, {'wasm': 1050, 'nodefault': 800, 'serde': 1000, 'rkyv': 850}[c])
    # ---- debug assertions
    A = index('host-assert')
    same = 0
    for h, fs in H.items():
        gs = A.get(h, [])
        if len(gs) != len(fs):
            rep.fail('debug: %s' % fs[0].key, '%s is not in both builds, with and without debug assertions' % h[:160])
            continue
        for a, b in zip(fs, gs):
            bad = debug_differs(prog, a, b)
            same += not bad
            rep.ob(not bad, 'debug: %s' % a.key, '%s with debug assertions %s' % (a.key, bad))
    rep.floor('functions unchanged by debug assertions', same, 1050)
    # ---- the libraries
    toml = open(os.path.join(P.REPO, 'Cargo.toml')).read()
    for lib in ('glam', 'glam-ext'):
        m = re.search(r'^%s\s*=\s*\{(.*)\}' % re.escape(lib), toml, re.M)
        rep.ob(bool(m) and 'core-simd' in m.group(1) and 'libm' in m.group(1), 'Cargo.toml: %s' % lib,
               '%s is built without core-simd and libm: its results depend on the platform' % lib)


def debug_differs(prog, a, b):
    """None, or how the build with debug assertions differs in more than checks that can only panic"""
    if repr(a.blocks) == repr(b.blocks):
        return None
    if set(a.blocks) != set(b.blocks):
        return 'has other code'
    for k in a.blocks:
        (sa, ta), (sb, tb) = a.blocks[k], b.blocks[k]
        if repr(ta) != repr(tb) or len(sa) != len(sb):
            return 'has other code'
        for x, y in zip(sa, sb):
            if repr(x) == repr(y):
                continue
            if not (x[0] == y[0] == 'assign' and x[1] == y[1] and not x[1][1] and x[2] == ('use', ('const', 'false')) and y[2] == ('use', ('const', 'true'))):
                return 'has other code'
            l = x[1][0]
            if not (ta and ta[0] == 'switch' and ta[1] in (('move', (l, ())), ('copy', (l, ())))):
                return 'uses cfg!(debug_assertions) as a value'
            off = [t for v, t in ta[2] if v == 0]
            bad = harmless(prog, a, ta[3], off[0] if off else ta[3])
            if bad:
                return bad
    return None


def succs(t):
    if not t:
        return []
    if t[0] == 'goto':
        return [t[1]]
    if t[0] == 'switch':
        return [x for _, x in t[2]] + [t[3]]
    if t[0] in ('call', 'assert', 'drop'):
        return [t[-1]] if t[-1] is not None else []
    return []


def harmless(prog, f, on, off):
    def reach(k):
        out, w = set(), [k]
        while w:
            n = w.pop()
            if n not in out and n in f.blocks:
                out.add(n)
                w += succs(f.blocks[n][1])
        return out
    joined = reach(off)
    region, w = set(), [on]
    while w:
        n = w.pop()
        if n not in region and n not in joined:
            region.add(n)
            w += succs(f.blocks[n][1])
    wrote = set()
    for n in region:
        st, t = f.blocks[n]
        for s in st:
            if s[0] == 'assign':
                if any(p[0] == '*' for p in s[1][1]):
                    return 'writes through a pointer'
                if s[2][0] in ('ref', 'raw') and s[2][1] in ('mut',):
                    return 'borrows mutably'
                if f.locals.get(s[1][0]) != '()':
                    wrote.add(s[1][0])
            elif s[0] not in ('live', 'dead', 'nop'):
                return 'does %s' % s[0]
        if t and t[0] == 'return':
            return 'returns early'
        if t and t[0] == 'call':
            for o in t[3]:
                if o[0] in ('copy', 'move') and re.match(r"^&(?:'\w+ )?mut ", f.locals.get(o[1][0], '')) and not o[1][1]:
                    return 'calls %s with a mutable reference' % prog.callee_name(t[2])
            wrote.add(t[1][0])
    later = set()
    for n in joined:
        st, t = f.blocks[n]
        for s in st:
            reads(s[2] if s[0] == 'assign' else (), later)
        if t:
            reads(t[2:] if t[0] == 'call' else t, later)
    if wrote & (later | {0}):
        return 'computes a value used afterwards'
    return None


def strip_impl(h):
    return re.sub(r'<impl at [^>]*>', '<impl>', h)


def where(a, b, nrm):
    x, y = nrm(a), norm(b)
    n = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
    return ': ...%s / ...%s' % (x[max(0, n - 60):n + 90], y[max(0, n - 60):n + 90])


def opens(prog, f, seen=None):
    """a function that opens a file itself, or through a function of the same name"""
    seen = seen or set()
    if f.key in seen:
        return False
    seen.add(f.key)
    if 'std::fs::File' in ' '.join(f.argtys):
        return True
    for k, (st, t) in terms(f):
        if t and t[0] == 'call':
            if re.search(r'std::fs::|nodejs::|js_sys::|wasm_bindgen', t[2]):
                return True
            g = prog.resolve(t[2])
            if re.search(r'::from_path\b', t[2]):
                return True
            if g is not None and opens(prog, g, seen):
                return True
    return False


def bytes_to_wide(a, b):
    n = re.compile(r'^\[[ui]8; \w+\]$')
    w = re.compile(r'^\[?(?:[ui](?:16|32|64|128|size)|f32|f64)\b')
    return bool((n.match(a) and w.match(b)) or (n.match(b) and w.match(a)))
