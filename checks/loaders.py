"""The documented layouts of the ozz archives and where each value must end up (as seen through the public accessors)."""
from grammar import *
import spec

u32 = 4


def n(name):
    return lambda env: env[name]


BITS = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64}


def plain(e, bits=None):
    """strip conversions that lose nothing of a value of that many bits"""
    x, least = e, 64
    while x.op in ('cast', 'conv') or (x.op == 'call' and x.a[0].split('::')[-1] in ('from', 'into') and len(x.a[1]) == 1):
        if x.op == 'cast':
            least = min(least, BITS.get(x.a[0], 0))
            x = x.a[1]
        else:
            x = x.a[0] if x.op == 'conv' else x.a[1][0]
    need = bits or (8 * cval(x.a[1]) if x.op == 'rd' and is_const(x.a[1]) else 32)
    return x if least >= need else e


def is_val(e, x):
    return x is not None and plain(e) is x


class Dest:
    """destination checks at one successful return"""

    def __init__(self, M, what, v, env, eff, facts, seen):
        self.M, self.what, self.v, self.env, self.eff, self.facts, self.seen = M, what, v, env, eff, facts, seen
        self.obj = mk('&', v)

    def get(self, acc):
        return strip(self.M.q.canon(spec.at(acc, self.obj)))

    def field(self, f):
        return strip(self.M.q.canon(self.it.proj(self.v, ('f', f))))

    @property
    def it(self):
        return self.M.it

    def zero(self, cnt):
        return implied(eq0(cnt), self.facts)

    def ck(self, okay, name, msg):
        self.seen.add(name)
        if not okay:
            self.M.bad('%s: destination of %s' % (self.what, name), msg)

    def scalar(self, name, got, want):
        self.ck(is_val(got, want), name, '%s of the result is %s, the archive stores it as %s' % (name, show(got)[:200], show(want)[:80] if want is not None else 'nothing'))

    def slice(self, name, got, item, cnt, f, loop):
        if self.zero(cnt):
            self.ck(True, name, '')
            return
        r = self.M.slice(got, self.eff, loop, f, cnt)
        self.ck(r, name, 'element i of %s (%s) is not the i-th value of the archive' % (name, show(got)[:160]))
        ln = self.it._len(got)
        self.ck(ln is cnt, name + ' length', 'the length of %s is %s, the archive stores %s' % (name, show(ln)[:160], show(cnt)[:120]))

    def vec(self, name, got, loop, f, cnt):
        if self.zero(cnt):
            self.ck(True, name, '')
            return
        r = self.M.vec(got, self.eff)
        self.ck(r is not None and r[0] == loop and f(r[1]), name, 'element i of %s (%s) is not the i-th value of the archive' % (name, show(got)[:160]))

    def text(self, name, got, item, rd, cnt=None):
        if cnt is not None and self.zero(cnt):
            x = got
            self.ck(x.op in ('emptystring',) or (x.op == 'call' and x.a[0].split('::')[-1] in ('new', 'default', 'from_utf8')) or inner(x).op == 'pay', name, '%s is %s' % (name, show(x)[:100]))
            return
        self.ck(self.M.text(got, self.eff, item, rd), name, '%s (%s) is not the text of the archive' % (name, show(got)[:160]))


def array(M, x, eff, item, env, n):
    """x is an array of n elements, element i being the i-th `item` read"""
    x = strip(x)
    if x.op == 'agg':
        return len(x.a[2]) == n and all(is_val(y, env.get('%s[%d]' % (item, i))) for i, y in enumerate(x.a[2]))
    while x.op == 'upd':
        x = x.a[0]
    if x.op != 'phi':
        return False
    for lo, ev in eff:
        if ev[0] == 'set' and lo and lo[-1][0] == x.a[0]:
            root, path = ev[1]
            if path and path[-1] == ('i', mk('trip', lo[-1][0])) and is_val(ev[2], env.get(item)) and env.get('@' + item) == lo and x.a[1] == (root, path[:-1]):
                return True
    return False


def soa(M, e, eff, env):
    """a SoaTransform made of 40 consecutive values"""
    x = e
    if x.op == 'transmute':
        x = x.a[0]
    elif x.op == 'call' and x.a[0].split('::')[-1] in ('transmute', 'transmute_copy', 'read'):
        x = x.a[1][0]
    else:
        return False
    return array(M, x, eff, 'x', env, 40)


# ---------------------------------------------------------------- skeleton
def skeleton(with_names, read_meta):
    items = [STR('tag'), V('version', 4), V('num_joints', 4)]
    if with_names:
        body = [V('char_count', 4), REP('names', n('num_joints'), STR('name')), REP('parents', n('num_joints'), V('parent', 2))]
        if not read_meta:
            body.append(REP('poses', lambda e: div_ceil(e['num_joints'], const(4)), REP('pose', lambda e: const(40), V('x', 4))))
        items.append(COND(lambda e: eq0(e['num_joints']), [], body))
    return items


def names(D, got, n):
    M, env = D.M, D.env
    if D.zero(n):
        D.ck(got.op == 'call', 'joint_names', 'names of a skeleton without joints: %s' % show(got)[:100])
        return
    ins = [(lo, e) for lo, e in D.eff if e[0] == 'call' and e[1] == 'insert' and lo and lo[-1][1] == 'names']
    ok = len(ins) == 1
    if ok:
        lo, e = ins[0]
        h = lo[-1][0]
        tgt = strip(e[2][0])
        ok = same_map(M, tgt, got) and M.text(e[2][1], D.eff, 'name', env.get('name')) and plain(e[2][2], 16) is mk('trip', h)
    D.ck(ok, 'joint_names', 'the i-th name of the archive is not what maps to joint i')


def same_map(M, a, b):
    """the map inserted into round by round is the one that is returned"""
    return a is b


# ---------------------------------------------------------------- what every loader must do
def loaders():
    """-> [(label, key, sub, items, guards, ok(D))]"""
    out = []

    def sk(label, key, items, dest, assume=None):
        out.append((label, key, None, items, {'tag': (g_text('tag', 'ozz-skeleton'), 'InvalidTag'), 'version': (g_equal('version', 2), 'InvalidVersion')}, dest, assume))

    def d_skel(D):
        e = D.env
        cnt = e['num_joints']
        D.scalar('num_joints', D.get('Skeleton::num_joints'), cnt)
        D.slice('joint_parents', D.get('Skeleton::joint_parents'), 'parent', cnt, lambda v: is_val(v, e.get('parent')), 'parents')
        D.slice('joint_rest_poses', D.get('Skeleton::joint_rest_poses'), 'x', div_ceil(cnt, const(4)),
                lambda v: soa(D.M, v, D.eff, e), 'poses') if not D.zero(cnt) else None
        names(D, D.get('Skeleton::joint_names'), cnt)
    sk('Skeleton::from_archive', 'Skeleton::from_archive', skeleton(True, False), d_skel)

    def d_meta(full):
        def f(D):
            e = D.env
            cnt = e['num_joints']
            D.scalar('num_joints', D.field('num_joints'), cnt)
            D.ck(D.field('version') in (const(2), e['version']), 'version', 'version is %s' % show(D.field('version'))[:100])
            if full:
                D.vec('joint_parents', D.field('joint_parents'), 'parents', lambda v: is_val(v, e.get('parent')), cnt)
                names(D, D.field('joint_names'), cnt)
        return f
    sk('Skeleton::read_meta(with joints)', 'Skeleton::read_meta', skeleton(True, True), d_meta(True), {mk('arg', 2): TRUE})
    sk('Skeleton::read_meta(counts only)', 'Skeleton::read_meta', skeleton(False, True), d_meta(False), {mk('arg', 2): FALSE})

    # ------------------------------------------------------------ animation
    head = [STR('tag'), V('version', 4), V('duration', 4)] + [V(x, 4) for x in (
        'num_tracks', 'name_len', 'timepoints', 'translations', 'rotations', 'scales',
        't_iframe_entries', 't_iframe_desc', 'r_iframe_entries', 'r_iframe_desc', 's_iframe_entries', 's_iframe_desc')]
    head.append(REP('name', n('name_len'), V('char', 1)))
    tail = [REP('timepoints_', n('timepoints'), V('timepoint', 4))]
    for c, cnt in (('t', 'translations'), ('r', 'rotations'), ('s', 'scales')):
        tail += [
            COND(lambda e: le0(sub(e['timepoints'], const(255))),
                 [REP(c + '_ratios', n(cnt), V(c + '_ratio', 1))], [REP(c + '_ratios', n(cnt), V(c + '_ratio', 2))]),
            REP(c + '_previouses', n(cnt), V(c + '_previous', 2)),
            REP(c + '_entries', n(c + '_iframe_entries'), V(c + '_entry', 1)),
            REP(c + '_descs', n(c + '_iframe_desc'), V(c + '_desc', 4)),
            V(c + '_interval', 4),
            REP(c + '_keys', n(cnt), REP(c + '_key', lambda e: const(3), V(c + 'k', 2))),
        ]
    guards = {'tag': (g_text('tag', 'ozz-animation'), 'InvalidTag'), 'version': (g_equal('version', 7), 'InvalidVersion')}

    def d_am(D):
        e = D.env
        for x in ('duration', 'num_tracks'):
            D.scalar(x, D.field(x), e[x])
        for x in ('timepoints', 'translations', 'rotations', 'scales', 't_iframe_entries', 't_iframe_desc',
                  'r_iframe_entries', 'r_iframe_desc', 's_iframe_entries', 's_iframe_desc'):
            D.scalar(x + '_count', D.field(x + '_count'), e[x])
        D.ck(D.field('version') in (const(7), e['version']), 'version', '')
        D.text('name', D.field('name'), 'name', e.get('char'), e['name_len'])
    out.append(('Animation::read_meta', 'Animation::read_meta', None, head, guards, d_am, None))

    def d_anim(D):
        e = D.env
        for x in ('duration', 'num_tracks'):
            D.scalar(x, D.get('Animation::' + x), e[x])
        D.text('name', text_of(D.get('Animation::name')), 'name', e.get('char'), e['name_len'])
        D.slice('timepoints', D.get('Animation::timepoints'), '', e['timepoints'], lambda v: is_val(v, e.get('timepoint')), 'timepoints_')
        for c, cnt in (('t', 'translations'), ('r', 'rotations'), ('s', 'scales')):
            ctrl = D.M.q.canon(spec.at('Animation::%s_ctrl' % cnt, D.obj))
            g = lambda f: strip(D.M.q.canon(D.it.proj(ctrl, ('f', f))))
            D.slice(c + '_ratios', g('ratios'), '', e[cnt], lambda v: is_val(v, e.get(c + '_ratio')), c + '_ratios')
            D.slice(c + '_previouses', g('previouses'), '', e[cnt], lambda v: is_val(v, e.get(c + '_previous')), c + '_previouses')
            D.slice(c + '_iframe_entries', g('iframe_entries'), '', e[c + '_iframe_entries'], lambda v: is_val(v, e.get(c + '_entry')), c + '_entries')
            D.slice(c + '_iframe_desc', g('iframe_desc'), '', e[c + '_iframe_desc'], lambda v: is_val(v, e.get(c + '_desc')), c + '_descs')
            D.scalar(c + '_iframe_interval', g('iframe_interval'), e[c + '_interval'])
            D.slice(cnt, D.get('Animation::' + cnt), '', e[cnt], lambda v: triple(D, v, c + 'k'), c + '_keys')
    out.append(('Animation::from_archive', 'Animation::from_archive', None, head + tail, guards, d_anim, None))

    # ------------------------------------------------------------ tracks
    for ty, w, tag in (('f32', 1, 'ozz-float_track'), ('glam::Vec2', 2, 'ozz-float2_track'), ('glam::Vec3', 3, 'ozz-float3_track'),
                       ('glam::Vec4', 4, 'ozz-float4_track'), ('glam::Quat', 4, 'ozz-quat_track')):
        items = [STR('tag'), V('version', 4), V('key_count', 4), V('name_len', 4),
                 REP('ratios', n('key_count'), V('ratio', 4)),
                 REP('values', n('key_count'), REP('value', lambda e, w=w: const(w), V('v', 4))),
                 REP('steps', lambda e: div_ceil(e['key_count'], const(8)), V('step', 1)),
                 REP('name', n('name_len'), V('char', 1))]

        def d_track(D, w=w):
            e = D.env
            D.scalar('key_count', D.get('Track::key_count'), e['key_count'])
            D.vec('ratios', vec_of(D.get('Track::ratios')), 'ratios', lambda v: is_val(v, e.get('ratio')), e['key_count'])
            D.vec('values', vec_of(D.get('Track::values')), 'values', lambda v: components(D, v, w), e['key_count'])
            D.vec('steps', vec_of(D.get('Track::steps')), 'steps', lambda v: is_val(v, e.get('step')), div_ceil(e['key_count'], const(8)))
            D.text('name', text_of(D.get('Track::name')), 'name', e.get('char'), e['name_len'])
        out.append(('Track<%s>::from_archive' % ty, 'Track::from_archive', ty, items,
                    {'tag': (g_text('tag', tag), 'InvalidTag'), 'version': (g_equal('version', 1), 'InvalidVersion')}, d_track, None))
    return out


def vec_of(e):
    while e.op in ('&', 'deref', 'buf', 'unsize') or (e.op == 'call' and e.a[0].split('::')[-1] in ('deref', 'as_slice', 'as_ref', 'borrow')):
        e = e.a[0] if e.op != 'call' else e.a[1][0]
    return e


text_of = vec_of


def triple(D, v, item):
    """Float3Key / QuaternionKey: a tuple struct around [u16; 3]"""
    while v.op == 'agg' and len(v.a[2]) == 1:
        v = v.a[2][0]
    return array(D.M, v, D.eff, item, D.env, 3)


def components(D, v, w):
    if w == 1:
        return is_val(v, D.env.get('v[0]'))
    if v.op == 'call' and v.a[0].split('::')[-1] in ('new', 'from_xyzw', 'from_array', 'vec2', 'vec3', 'vec4', 'quat', 'from'):
        a = v.a[1]
        if len(a) == 1:
            return array(D.M, a[0], D.eff, 'v', D.env, w)
        return len(a) == w and all(is_val(x, D.env.get('v[%d]' % i)) for i, x in enumerate(a))
    return False


def run_loader(label, key, sub, items, guards, dest, assume, rep, swap=None):
    """swap: None: byte order ignored; True/False: the archive does / does not need swapping"""
    tag = 'g' if sub is None else 'g' + sub
    it = interp(key, models=MODELS, tag=tag, sub={'V': sub} if sub else None, rep=rep)
    if it is None:
        return None, [('%s: missing' % label, 'public function %s not found' % key)], set()
    assume = dict(assume or {})
    wrap = None
    if swap is not None:
        assume[spec.ret('Archive::endian_swap')[1]] = TRUE if swap else FALSE
        if swap:
            wrap = lambda x: x if x.a[1] is const(1) else mk('sw', x)
    q = Q(it, norm=norm_read if swap is None else norm_swap, assume=assume)
    seen = set()

    def ok(M, v, env, eff, facts):
        dest(Dest(M, label, v, env, eff, facts, seen))
    m = Match(q, items, guards, ok, label, wrap=wrap)
    return m, m.run(), seen


ERRORS = (': unchecked read', ': guard', ': rejects', ': error of', 'a failed read', 'not UTF-8', 'a wrong ', ' panics')


def is_error_problem(key):
    return any(x in key for x in ERRORS)


def paths(t, conds=()):
    """[(conditions, term)] of all loop-free paths to a return"""
    if t.op == 'TRET':
        return [(conds, t.a[1])]
    if t.op == 'TBR':
        return paths(t.a[1], conds + (t.a[0],)) + paths(t.a[2], conds + (neg(t.a[0]),))
    if t.op in ('TEV',):
        return paths(t.a[1], conds)
    if t.op == 'TREAD':
        return paths(t.a[2], conds + (mk('read', t.a[1]),))
    if t.op == 'TDIV':
        return []
    raise ValueError('loop')
