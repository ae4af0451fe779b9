"""C11: views cannot outlive what they look into, and only what is safe to share or send can be."""
from common import *
import os, re
import program as P
import witness
from c12 import USE
from c06 import CELLS

NOTE = ('For every function that lends part of an object, a program that uses the part after the object is gone, or while it is changed, must be refused by the compiler with the borrow '
        'error, and its twin without the misuse accepted. Thread safety: programs that need Send and Sync of exactly the documented types, their opposites for Rc, and a rule on every '
        'unsafe impl. Functions with unsafe blocks that return references are judged by their signatures.')
OWNERS = {'Skeleton': 'Skeleton', 'Animation': 'Animation', 'SamplingContext': 'SamplingContext', 'BlendingContext': 'BlendingContext', 'Track': 'Track<f32>',
          'SamplingJob': 'SamplingJobRc', 'BlendingJob': 'BlendingJobRc', 'LocalToModelJob': 'LocalToModelJobRc', 'SkinningJob': 'SkinningJobRc', 'TrackSamplingJob': 'TrackSamplingJobRc<f32>',
          'TrackTriggeringJob': 'TrackTriggeringJobRc', 'MotionBlendingJob': 'MotionBlendingJob', 'BlendingLayer': 'BlendingLayer<OzzRcBuf<SoaTransform>>'}
ARGS = {'usize': '0', 'i32': '0', 'i16': '0', 'u32': '0', 'f32': '0.5', '&str': '"a"', 'bool': 'true'}
SHARED = ['Skeleton', 'Animation', 'SamplingContext', 'BlendingContext', 'Track<f32>', 'Track<Quat>', 'SoaVec3', 'SoaQuat', 'SoaTransform', 'Edge', 'IKAimJob', 'IKTwoBoneJob', 'MotionBlendingJob',
          'SamplingJobArc', 'BlendingJobArc', 'LocalToModelJobArc', 'SkinningJobArc', 'TrackSamplingJobArc<f32>', 'TrackSamplingJobArc<Vec3>', 'TrackTriggeringJobArc', 'MotionBlendingJobArc',
          'OzzArcBuf<SoaTransform>', 'OzzError',
          "SamplingJobRef<'static>", "BlendingJobRef<'static>", "LocalToModelJobRef<'static>", "SkinningJobRef<'static>", "TrackSamplingJobRef<'static, f32>", "TrackTriggeringJobRef<'static>"]
LOCAL = ['SamplingJobRc', "BlendingJobRc<'static>", 'LocalToModelJobRc', 'SkinningJobRc', 'TrackSamplingJobRc<f32>', 'TrackTriggeringJobRc', 'OzzRcBuf<SoaTransform>']


def run(rep):
    rep.rule('view', 'what a function lends cannot be used after its owner is gone, nor while the owner is changed')
    rep.rule('job', 'a job cannot outlive what it refers to; its output and context are its own while it lives')
    rep.rule('thread', 'objects, contexts and the Ref and Arc jobs can be sent and shared between threads; Rc jobs cannot')
    rep.rule('unsafe impl', 'a type declared Send or Sync by hand has no type parameters and owns plain data')
    rep.rule('signature', 'a function with unsafe code returns references only for as long as an argument is borrowed')
    rep.assumptions += ['the compiler\'s borrow and trait checking']
    views(rep)
    jobs(rep)
    threads(rep)
    source(rep)


def lends(f):
    r = f.ret or ''
    return re.search(r"^&|<&|<'_|, &|\(&", r) and f.nargs >= 1 and re.match(r"&(?:'\w+ )?(mut )?[\w:]+", f.argtys[0])


def views(rep):
    items, names = [], []
    for f in program().fns:
        m = re.match(r'(\w+)::(\w+)$', f.key)
        if f.kind != 'fn' or not m or m.group(1) not in OWNERS or not lends(f):
            continue
        ty, name = m.groups()
        mut = f.argtys[0].startswith('&mut')
        args = []
        for t in f.argtys[1:]:
            t = re.sub(r"'\w+ ", '', t)
            a = ARGS.get(t) if not t.startswith('impl') and t.split('::')[-1] not in ('I', 'T') or t in ARGS else '0usize'
            if a is None and re.match(r'&(?:[\w]+::)*(Animation|Skeleton)$', t):
                a = '&x%d' % len(args)
            args.append(a)
        if None in args:
            continue
        call = 'o.%s(%s)' % (name, ', '.join(args))
        pre = USE + 'fn keep<T: ?Sized>(_: &T) {}\n'
        head = 'pub fn w(%so: %s%s) {\n' % ('mut ' if mut else '', OWNERS[ty], ''.join(', x%d: %s' % (i, re.sub(r'.*::|&', '', t)) for i, t in enumerate(f.argtys[1:]) if args[i] and args[i].startswith('&x')))
        good = pre + head + '    let v = %s;\n    keep(&v);\n    drop(o);\n}\n' % call
        bad = pre + head + '    let v = %s;\n    drop(o);\n    keep(&v);\n}\n' % call
        write = pre + head.replace('(o:', '(mut o:') + '    let v = %s;\n    let _w = &mut o;\n    keep(&v);\n}\n' % call
        names.append(f.key)
        items += [(f.key + ' +', good), (f.key + ' -', bad), (f.key + ' w', write)]
    res = witness.batch(items)
    n = 0
    for k in names:
        ok, codes, text = res[k + ' +']
        if not ok and set(codes) & {'E0624', 'E0616', 'E0599', 'E0433', 'E0412'}:
            continue        # private: judged by its signature
        if not rep.ob(ok, '%s twin' % k, 'does not compile: %s' % text[:200]):
            continue
        n += 1
        bad = res[k + ' -']
        rep.ob(not bad[0] and bad[1] == ['E0505'], '%s outlives' % k, 'what %s lends can be used after its owner is gone%s' % (k, '' if bad[0] else ' (%s)' % bad[2][:120]))
        w = res[k + ' w']
        rep.ob(not w[0] and set(w[1]) <= {'E0502', 'E0499'} and bool(w[1]), '%s changed' % k, 'what %s lends can be used while its owner is changed%s' % (k, '' if w[0] else ' (%s)' % w[2][:120]))
    rep.floor('lending functions', n, 45)


MAKE = '''
pub fn anim() -> Animation { loop {} }
pub fn skel() -> Skeleton { loop {} }
pub fn track() -> Track<f32> { loop {} }
'''


def jobs(rep):
    """a Ref job and each object or buffer it is given: (job, setter, value owned by the scope)"""
    T = [
        ('SamplingJobRef', '', 'set_animation', 'anim()', '&x', False), ('SamplingJobRef', '', 'set_context', 'SamplingContext::new(4)', '&mut x', True),
        ('SamplingJobRef', '', 'set_output', 'Vec::<SoaTransform>::new()', '&mut x[..]', True),
        ('BlendingJobRef', '', 'set_skeleton', 'skel()', '&x', False), ('BlendingJobRef', '', 'set_output', 'Vec::<SoaTransform>::new()', '&mut x[..]', True),
        ('BlendingJobRef', '', 'layers_mut().push', 'Vec::<SoaTransform>::new()', 'BlendingLayer::new(&x[..])', False),
        ('LocalToModelJobRef', '', 'set_skeleton', 'skel()', '&x', False), ('LocalToModelJobRef', '', 'set_input', 'Vec::<SoaTransform>::new()', '&x[..]', False),
        ('LocalToModelJobRef', '', 'set_output', 'Vec::<Mat4>::new()', '&mut x[..]', True),
        ('SkinningJobRef', '', 'set_joint_matrices', 'Vec::<Mat4>::new()', '&x[..]', False), ('SkinningJobRef', '', 'set_joint_indices', 'Vec::<u16>::new()', '&x[..]', False),
        ('SkinningJobRef', '', 'set_joint_weights', 'Vec::<f32>::new()', '&x[..]', False), ('SkinningJobRef', '', 'set_in_positions', 'Vec::<Vec3>::new()', '&x[..]', False),
        ('SkinningJobRef', '', 'set_out_positions', 'Vec::<Vec3>::new()', '&mut x[..]', True), ('SkinningJobRef', '', 'set_out_normals', 'Vec::<Vec3>::new()', '&mut x[..]', True),
        ('TrackSamplingJobRef', '<f32>', 'set_track', 'track()', '&x', False), ('TrackTriggeringJobRef', '', 'set_track', 'track()', '&x', False),
    ]
    items = []
    for job, g, setter, make, val, mut in T:
        k = '%s::%s' % (job, setter)
        let = 'let mut x = %s;' % make
        head = USE + MAKE + 'pub fn w() {\n    let mut seen = 0usize;\n'
        j = 'let mut j = %s%s::default();' % (job, '::' + g if g else '')
        items.append((k + ' +', head + '    %s\n    {\n        %s\n        j.%s(%s);\n        let _ = j.run();\n    }\n    let _y = &mut x;\n}\n' % (let, j, setter, val)))
        items.append((k + ' -', head + '    %s\n    {\n        %s\n        j.%s(%s);\n    }\n    let _ = j.run();\n}\n' % (j, let, setter, val)))
        items.append((k + ' x', head + '    %s\n    %s\n    j.%s(%s);\n    let _y = &mut x;\n    let _ = j.run();\n}\n' % (let, j, setter, val)))
        if mut:
            items.append((k + ' r', head + '    %s\n    %s\n    j.%s(%s);\n    let _y = &x;\n    let _ = j.run();\n    let _z = _y;\n}\n' % (let, j, setter, val)))
    it = USE + MAKE + 'pub fn w() -> usize {\n    let t = track();\n    let mut j = TrackTriggeringJobRef::default();\n    j.set_track(&t);\n    let i = j.run().unwrap();\n    %s    i.count()\n}\n'
    items.append(('TrackTriggeringIter +', it % ''))
    items.append(('TrackTriggeringIter -', it % 'drop(j);\n'))
    items.append(('TrackTriggeringIter w', it % 'j.set_to(0.5);\n'))
    res = witness.batch(items)
    n = 0
    for k, _ in items:
        ok, codes, text = res[k]
        n += 1
        if k.endswith('+'):
            rep.ob(ok, k, 'does not compile: %s' % text[:200])
        else:
            want = {'-': {'E0597', 'E0505'}, 'x': {'E0499', 'E0502'}, 'r': {'E0502'}, 'w': {'E0506', 'E0502', 'E0499'}}[k[-1]]
            what = {'-': 'can be used after what it refers to is gone', 'x': 'leaves what it refers to open to changes', 'r': 'leaves what it changes open to readers', 'w': 'can be changed under its iterator'}[k[-1]]
            rep.ob(not ok and bool(codes) and set(codes) <= want, k, 'a job %s (%s)' % (what, text[:120] or 'accepted'))
    rep.floor('job programs', n, 55)


def threads(rep):
    items = []
    both = USE + 'fn both<T: Send + Sync>() {}\n'
    for t in SHARED:
        items.append(('%s is Send and Sync' % t, both + 'pub fn w() { both::<%s>() }\n' % t, True))
    for t in LOCAL:
        items.append(('%s is not Send' % t, USE + 'fn send<T: Send>() {}\npub fn w() { send::<%s>() }\n' % t, False))
        items.append(('%s is not Sync' % t, USE + 'fn sync<T: Sync>() {}\npub fn w() { sync::<%s>() }\n' % t, False))
    items.append(('Arc jobs run in threads', USE + '''
pub fn w(a: Arc<Animation>, s: Arc<Skeleton>, p: OzzArcBuf<SoaTransform>, m: OzzArcBuf<Mat4>) {
    let mut job = SamplingJobArc::default();
    job.set_animation(a.clone());
    job.set_context(SamplingContext::new(4));
    job.set_output(p.clone());
    let mut l2m = LocalToModelJobArc::default();
    l2m.set_skeleton(s);
    l2m.set_input(p);
    l2m.set_output(m);
    let h = std::thread::spawn(move || { job.run().unwrap(); job.take_context() });
    let g = std::thread::spawn(move || l2m.run());
    let _ = (h.join(), g.join());
}
''', True))
    items.append(('Ref jobs run in scoped threads', USE + '''
pub fn w(a: &Animation, out: &mut [SoaTransform]) {
    let n = out.len() / 2;
    let (x, y) = out.split_at_mut(n);
    let (mut c, mut d) = (SamplingContext::new(4), SamplingContext::new(4));
    std::thread::scope(|s| {
        for (o, c) in [(x, &mut c), (y, &mut d)] {
            s.spawn(move || {
                let mut job = SamplingJobRef::default();
                job.set_animation(a);
                job.set_context(c);
                job.set_output(o);
                job.run()
            });
        }
    });
}
''', True))
    res = witness.batch([x[:2] for x in items])
    for k, _, want in items:
        ok, codes, text = res[k]
        if want:
            rep.ob(ok, k, 'is not so: %s' % text[:200])
        else:
            rep.ob(not ok and codes == ['E0277'], k, 'is not so%s' % (': %s' % text[:200] if not ok else ''))
    rep.floor('thread programs', len(items), 45)


# ---------------------------------------------------------------- source rules
def text_of(fn):
    s = open(fn).read()
    s = re.sub(r'//[^\n]*', lambda m: ' ' * len(m.group(0)), s)
    return re.sub(r'"(?:[^"\\\n]|\\.)*"', lambda m: '"' + ' ' * (len(m.group(0)) - 2) + '"', s)


def balanced(s, i, o, c):
    d = 0
    for j in range(i, len(s)):
        if s[j] == o:
            d += 1
        elif s[j] == c and not (c == '>' and s[j - 1] in '-='):
            d -= 1
            if d == 0:
                return j
    return len(s) - 1


def functions(s):
    """(name, generics, parameters, result, body)"""
    for m in re.finditer(r'\bfn\s+(\w+)\s*', s):
        i = m.end()
        gen = ''
        if s[i:i + 1] == '<':
            j = balanced(s, i, '<', '>')
            gen, i = s[i:j + 1], j + 1
        if s[i:i + 1] != '(':
            continue
        j = balanced(s, i, '(', ')')
        par = s[i + 1:j]
        k = j + 1
        d = 0
        while k < len(s) and not (d == 0 and s[k] in '{;'):
            d += s[k] in '[(' 
            d -= s[k] in '])'
            k += 1
        ret = s[j + 1:k]
        body = ''
        if s[k:k + 1] == '{':
            body = s[k:balanced(s, k, '{', '}') + 1]
        yield m.group(1), gen, par, ret, body, re.search(r'\bpub\s+(?:const\s+|unsafe\s+|extern\s+)*$', s[max(0, m.start() - 40):m.start()]) is not None


def source(rep):
    n = impls = 0
    src = os.path.join(P.REPO, 'src')
    files = [os.path.join(d, f) for d, _, fs in os.walk(src) for f in sorted(fs) if f.endswith('.rs')]
    texts = {f: text_of(f) for f in files}
    types = {}
    for s in texts.values():
        for m in re.finditer(r'\bstruct (\w+)\b([^{;(]*)(\{.*?\n\s*\}|\([^;]*\)\s*;)', s, re.S):
            types[m.group(1)] = (m.group(2), m.group(3))
    for f, s in texts.items():
        for name, gen, par, ret, body, pub in functions(s):
            if 'unsafe' not in body and 'transmute' not in body:
                continue
            ret = ret.split('where')[0]
            if not pub and not re.search(r'\bself\b', par):
                continue        # a helper: what its callers lend is judged there
            if '&' not in ret and "'" not in ret:
                continue
            n += 1
            lts = set(re.findall(r"'(\w+)", ret)) - {'_'}
            have = set(re.findall(r"'(\w+)", par))
            free = lts - have
            if free and re.search(r'\bself\b', par) and not ("'static" in ret):
                # the lifetime of the type itself
                free = {x for x in free if re.search(r"'%s\b" % x, gen)}
            rep.ob(not free, '%s signature' % name, 'the function %s has unsafe code and returns references for %s, which no argument is borrowed for: they can outlive what they look into' % (name, ', '.join(sorted(free))))
        for m in re.finditer(r'\bunsafe\s+impl\s*(<[^>]*>)?\s*(!?)\s*(?:std::marker::|core::marker::)?(Send|Sync)\s+for\s+(\w+)([^{]*)\{', s):
            impls += 1
            gen, no, tr, ty, rest = m.groups()
            if no:
                continue
            key = 'unsafe impl %s for %s' % (tr, ty)
            rep.ob(not gen or not re.search(r'\b[A-Z]\w*\b', re.sub(r'\bconst\b[^,>]*', '', gen)), key, 'declares every %s of parameters to be %s, whatever its parameters are' % (ty, tr))
            body = types.get(ty, ('', ''))[1]
            bad = re.search(r'\bRc\b|\bArc\b|\bdyn\b|\bfn\s*\(|&|\bMutexGuard|' + CELLS.pattern, body)
            rep.ob(bool(body) and bad is None, key, '%s has a field with %s' % (ty, bad.group(0) if bad else 'unknown contents'))
    rep.floor('unsafe functions that lend', n, 12)
    rep.count('unsafe impls', impls)
