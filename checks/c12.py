"""C12: every kind of holder gives its whole content, and a run borrows each buffer once at a time."""
from common import *
from cursor import *
from soa import unproj
from c13 import JOBS
from paths import Paths
from c06 import Origins
import os, re
import program as P
import witness

NOTE = ('The holder implementations are interpreted for each outcome of the borrow; the guards a run holds are followed along its control flow (typestate of buf()/mut_buf() results up to '
        'the drop of the guard), with everything of the crate inlined; the aliases and foreign holders are handed to the type checker.')
BORROW = {'OzzBuf': ('borrow', 'read', 'try_borrow'), 'OzzMutBuf': ('borrow_mut', 'write', 'try_borrow_mut')}
GUARDS = ('ObSliceRef', 'ObSliceRefMut', 'ObCellRef', 'ObCellRefMut', 'ObRwLockReadGuard', 'ObRwLockWriteGuard')
LEAK = re.compile(r'(?:mem::forget|Box(?:::<.*>)?::leak|Vec(?:::<.*>)?::leak|Ref(?:Mut)?(?:::<.*>)?::leak|ManuallyDrop(?:::<.*>)?::new)$')


def run(rep):
    rep.rule('holder', 'obj() is the held object, buf() and mut_buf() the whole held buffer; a poisoned lock is the error LockPoison, and nothing else is an error')
    rep.rule('once', 'while a run or a validation holds the borrow of a buffer it does not borrow the same buffer again')
    rep.rule('wait', 'a buffer behind a lock is waited for, not tried')
    rep.rule('error', 'when a borrow fails, the run returns that error')
    rep.rule('release', 'no guard is leaked')
    rep.rule('alias', 'every job runs with references, Rc and Arc, and with foreign holders')
    rep.assumptions += ['RefCell and RwLock of std behave as documented']
    holders(rep)
    guards(rep)
    leaks(rep)
    aliases(rep)


# ---------------------------------------------------------------- holders
def whole(e):
    """the place an expression is a view of the whole of"""
    while True:
        if e.op in ('&', 'deref', 'asref', 'unsize', 'transmute') or e.op == 'ld' and not e.a[1]:
            e = e.a[0]
        elif e.op == 'slice' and len(e.a) == 3 and cval(e.a[1]) == 0 and e.a[2].op == 'len' and whole(e.a[2].a[0]) is whole(e.a[0]):
            e = e.a[0]
        elif e.op == 'call' and re.search(r'as Index(?:Mut)?>::index(?:_mut)?$', e.a[0]) and 'RangeFull' in show(e.a[1][1]):
            e = e.a[1][0]
        else:
            return e


def holders(rep):
    n = 0
    for f in program().fns:
        m = re.match(r'<(.*) as (OzzObj|OzzBuf|OzzMutBuf|Deref|DerefMut|AsSamplingContext)>::(\w+)$', f.key)
        if not m or '{' in f.key:
            continue
        ty, trait, name = m.groups()
        if trait in ('Deref', 'DerefMut') and ty not in GUARDS:
            continue
        it = interp(f.key, fn=f, rep=rep, tag='c12')
        q = Q(it, norm=norm_idx)
        n += 1
        arg = mk('arg', 1)
        where = '%s (%s)' % (f.key, f.argtys[0])
        S, ends = Paths(q), {e['block']: e for e in returns(q)}
        rets = []
        for p in S.from_(it.body.entry, set(ends)) if it.body.entry not in ends else []:
            if p.end in ends:
                rets += values(q, S.sub(it.valarg(ends[p.end]['state'], ends[p.end]['value']), p.env))
        if it.body.entry in ends:
            rets += values(q, q.canon(it.valarg(ends[it.body.entry]['state'], ends[it.body.entry]['value'])))
        rep.ob(bool(rets), where, 'never returns')
        for v in rets:
            w = whole(v)
            if trait in ('OzzObj', 'AsSamplingContext'):
                rep.ob(w is arg, where, 'gives %s instead of what it holds' % show(v)[:100])
            elif trait in ('Deref', 'DerefMut'):
                b, p = unproj(w)
                rep.ob(b is arg and tuple(p) == (('f', 0),), where, 'gives %s instead of the whole buffer' % show(v)[:100])
            else:
                buffer(rep, f, where, trait, v, arg)
        if trait in ('OzzBuf', 'OzzMutBuf') and 'RwLock' in f.argtys[0]:
            want = 'write' if trait == 'OzzMutBuf' else 'read'
            locks = {e['name'].split('::')[-1] for e in q.events('call') if 'RwLock' in e['name'] and 'Guard' not in e['name']}
            rep.ob(locks == {want}, '%s lock' % where, 'borrows by %s instead of %s' % (sorted(locks), want))
            es = [v for v in rets if v.op == 'agg' and v.a[0].endswith('Err')]
            rep.ob(len(es) >= 1 or any(v.op in ('maperr', 'call') for v in rets), '%s poison' % where, 'a poisoned lock is not an error')
        for e in q.events('call'):
            if re.search(r'::(?:unwrap\w*|expect\w*|into_inner|get_mut|clear_poison|panic\w*)$', e['name']):
                rep.ob(False, '%s %s' % (where, e['name'].split('::')[-1]), 'calls %s: a poisoned lock must be the error LockPoison' % e['name'][-60:])
    rep.floor('holder functions', n, 26)


def values(q, v, seen=()):
    """the values a φ may stand for"""
    if v.op == 'phi' and v not in seen:
        out = []
        for p, x in q.it.phi_in.get(v, {}).items():
            if p in q.live:
                out += values(q, q.canon(x), seen + (v,))
        return out
    return [v]


def buffer(rep, f, where, trait, v, arg):
    if v.op == 'agg' and v.a[0].endswith('Err'):
        x = v.a[2][0]
        while x.op in ('conv', 'call') and x.a and isinstance(x.a[0], E):
            x = x.a[0]
        rep.ob('LockPoison' in show(x), where, 'fails with %s' % show(x)[:80])
        rep.ob('RwLock' in f.argtys[0], where, 'fails although it holds no lock')
        return
    if not rep.ob(v.op == 'agg' and v.a[0].endswith('Ok') and len(v.a[2]) == 1, where, 'returns %s' % show(v)[:120]):
        return
    g = v.a[2][0]
    if not rep.ob(g.op == 'agg' and g.a[0].split('::')[-1] in GUARDS, where, 'hands out %s' % show(g)[:100]):
        return
    x = whole(g.a[2][0])
    if x is arg:
        rep.ob('RefCell' not in f.argtys[0] and 'RwLock' not in f.argtys[0], where, 'hands out the cell without borrowing it')
        return
    while x.op in ('pay', 'branch', 'maperr'):
        x = whole(x.a[0])
    ok = x.op == 'call' and x.a[0].split('::')[-1] in BORROW[trait] and whole(x.a[1][0]) is arg
    rep.ob(ok, where, 'hands out %s' % show(x)[:120])


# ---------------------------------------------------------------- guards
def holder(e):
    """the place of a buffer: root and path, elements of a list not told apart"""
    e = whole(e)
    p = ()
    while True:
        b, q = unproj(e)
        p = tuple(x if x[0] != 'i' else ('i',) for x in q) + p
        if b.op == 'pay':
            e, p = b.a[0], (('pay',),) + p
        elif b.op in ('asref', '&', 'deref', 'ref') and b.a and isinstance(b.a[0], E):
            e = b.a[0]
        else:
            return b, tuple(x for x in p if x[0] in ('f', 'i') and x[1:] != (0,))


def guards(rep):
    n = acq = 0
    for job in JOBS:
        for name in ('run', 'validate'):
            key = '%s::%s' % (job, name)
            it = interp(key, rep=rep, tag='c12')
            if it is None:
                rep.ob(name == 'validate' and job == 'MotionBlendingJob', key, 'function not found')
                continue
            q = Q(it, norm=norm_idx)
            n += 1
            gen, kill, reg = {}, {}, {}
            for e in it.all_events:
                b = e['block']
                if b not in q.live:
                    continue
                if e['kind'] == 'call' and e['callee'] is None and e['name'].split('::')[-1] in ('buf', 'mut_buf') and ' as Ozz' in e['name']:
                    h = holder(e['args'][0])
                    gen[b] = (e['result'], h, e['name'])
                    reg[e['result']] = h
                    acq += 1
                elif e['kind'] == 'drop' or e['kind'] == 'call' and e['name'].split('::')[-1] == 'drop':
                    kill.setdefault(b, []).append(e['value'] if e['kind'] == 'drop' else e['args'][0])
            memo = {}
            dead = {b: set().union(*[held_in(q, v, reg, memo) for v in vs]) for b, vs in kill.items()}
            held = {}
            entry = it.body.entry
            work = [entry]
            held[entry] = frozenset()
            bad = set()
            while work:
                b = work.pop()
                cur = set(held[b])
                if b in gen:
                    r, h, nm = gen[b]
                    for r2, h2, nm2 in cur:
                        if h2 == h and b not in bad:
                            bad.add(b)
                    cur.add((r, h, nm))
                if b in dead:
                    cur = {x for x in cur if x[0] not in dead[b]}
                for t, c in q.edges.get(b, []):
                    no = failed(c)
                    new = held.get(t, frozenset()) | {x for x in cur if x[0] is not no}
                    if t not in held or new != held[t]:
                        held[t] = frozenset(new)
                        work.append(t)
            if name == 'run':
                passed_on(rep, key, it, q, gen)
            for b, (r, h, nm) in gen.items():
                what = '.'.join(str(x[1]) if x[0] == 'f' else '[]' for x in h[1])
                rep.ob(b not in bad, '%s borrows %s' % (key, what), '%s borrows %s again while it still holds the borrow: this blocks for ever or panics when a writer waits or the buffer is behind a cell' % (key, what))
    rep.floor('runs and validations', n, 16)
    rep.floor('borrows', acq, 190)


def passed_on(rep, key, it, q, gen):
    """the error of a borrow is what the run returns"""
    rets = {e['block']: e for e in returns(q)}
    for b, (r, h, nm) in gen.items():
        what = '.'.join(str(x[1]) if x[0] == 'f' else '[]' for x in h[1])
        S = Paths(q)
        vs, more = [], False
        facts = [y for x in q.norm(('is', mk('discr', r), 1)) for y in (x.a if x.op == 'and' else (x,))]
        for p in S.from_(b, set(rets) | set(gen), conds=facts):
            if p.end in gen:
                more = True
            elif p.end in rets:
                vs.append(S.sub(it.valarg(rets[p.end]['state'], rets[p.end]['value']), p.env))
        r = q.canon(r)
        ok = bool(vs) and not more and all(v.op == 'agg' and v.a[0].endswith('Err') and any(y is r for y in walk(v)) for v in vs)
        rep.ob(ok, '%s error of %s' % (key, what), 'when the borrow of %s fails, %s %s' % (what, key, 'goes on' if more else 'returns %s instead of the error' % ', '.join({show(v)[:60]: 1 for v in vs})))


def failed(c):
    """the borrow that an edge is taken without: its result is an error"""
    if c is None or c[1].op != 'discr':
        return None
    r = c[1].a[0]
    while r.op in ('branch', 'maperr', 'ok'):
        r = r.a[0]
    return r if c[0] == 'is' and c[2] == 1 or c[0] == 'notin' and 0 in c[2] else None


def held_in(q, v, reg, memo, depth=0):
    """acquisitions a dropped value may contain"""
    if v in memo:
        return memo[v]
    memo[v] = set()
    out = set()
    for x in walk(v):
        if x in reg:
            out.add(x)
        if x.op == 'phi':
            for p, y in q.it.phi_in.get(x, {}).items():
                if p in q.live and y is not v:
                    out |= held_in(q, y, reg, memo, depth + 1)
    memo[v] = out
    return out


def leaks(rep):
    n = 0
    for f in program().fns:
        for k, (st, t) in f.blocks.items():
            if t and t[0] == 'call':
                n += 1
                name = program().callee_name(t[2])
                if LEAK.search(name):
                    tys = [str(x) for x in f.locals.values()]
                    arg = t[3][0]
                    ty = f.locals.get(arg[1][0], '') if arg[0] in ('copy', 'move') else ''
                    rep.ob(not re.search(r'Ref|Guard|Buf|::Mut', ty), '%s leak' % f.key, '%s leaks a %s by %s' % (f.key, ty[:60], name[-40:]))
    rep.floor('calls', n, 5000)


# ---------------------------------------------------------------- aliases
USE = '''#![feature(portable_simd)]
#![allow(unused)]
use ozz_animation_rs::*;
use ozz_animation_rs::math::*;
use glam::*;
use std::rc::Rc;
use std::cell::RefCell;
use std::sync::{Arc, RwLock};
'''
KINDS = {
    'Ref': dict(o=lambda t: "&'t %s" % t, b=lambda t: "&'t [%s]" % t, m=lambda t: "&'t mut [%s]" % t, c="&'t mut SamplingContext", lt="<'t>"),
    'Rc': dict(o=lambda t: 'Rc<%s>' % t, b=lambda t: 'OzzRcBuf<%s>' % t, m=lambda t: 'OzzRcBuf<%s>' % t, c='SamplingContext', lt=''),
    'Arc': dict(o=lambda t: 'Arc<%s>' % t, b=lambda t: 'OzzArcBuf<%s>' % t, m=lambda t: 'OzzArcBuf<%s>' % t, c='SamplingContext', lt=''),
}


def uses(kind):
    """(name, program) for every job with this kind of holder"""
    k = KINDS[kind]
    o, b, m, lt = k['o'], k['b'], k['m'], k['lt']
    L = "'t, " if lt else ''
    lp = "<'t>" if lt else ''
    ref = '&' if kind == 'Ref' else ''
    out = {}

    def fn(name, ty, params, body, ret='Result<(), OzzError>', run='job.run()'):
        out[name] = 'pub fn f%s(%s) -> %s {\n    let mut job: %s = Default::default();\n%s    %s\n}\n' % (
            lp, ', '.join('%s: %s' % p for p in params), ret, ty, ''.join('    job.%s;\n' % s for s in body), run)
    fn('SamplingJob' + kind, 'SamplingJob%s%s' % (kind, lp), [('a', o('Animation')), ('c', k['c']), ('out', m('SoaTransform'))],
       ['set_animation(a)', 'set_context(c)', 'set_output(out)', 'set_ratio(0.5)'])
    fn('BlendingJob' + kind, 'BlendingJob%s%s' % (kind, lp if kind == 'Ref' else ''), [('s', o('Skeleton')), ('l', b('SoaTransform')), ('l2', b('SoaTransform')), ('w', 'Vec<Vec4>'), ('out', m('SoaTransform'))],
       ['set_skeleton(s)', 'set_context(BlendingContext::new(4))', 'layers_mut().push(BlendingLayer::with_weight(l, 0.5))', 'additive_layers_mut().push(BlendingLayer::with_joint_weights(l2, w))', 'set_output(out)', 'set_threshold(0.2)'])
    fn('LocalToModelJob' + kind, 'LocalToModelJob%s%s' % (kind, lp), [('s', o('Skeleton')), ('i', b('SoaTransform')), ('out', m('Mat4'))],
       ['set_skeleton(s)', 'set_input(i)', 'set_output(out)', 'set_root(&Mat4::IDENTITY)', 'set_from(0i32)', 'set_to(3i32)'])
    fn('SkinningJob' + kind, 'SkinningJob%s%s' % (kind, lp), [('jm', b('Mat4')), ('it', b('Mat4')), ('ji', b('u16')), ('jw', b('f32')), ('ip', b('Vec3')), ('inn', b('Vec3')), ('tan', b('Vec3')), ('op', m('Vec3')), ('on', m('Vec3')), ('ot', m('Vec3'))],
       ['set_vertex_count(3)', 'set_influences_count(2)', 'set_joint_matrices(jm)', 'set_joint_it_matrices(it)', 'set_joint_indices(ji)', 'set_joint_weights(jw)', 'set_in_positions(ip)', 'set_in_normals(inn)', 'set_in_tangents(tan)',
        'set_out_positions(op)', 'set_out_normals(on)', 'set_out_tangents(ot)'])
    for v in ('f32', 'Vec2', 'Vec3', 'Vec4', 'Quat'):
        fn('TrackSamplingJob%s %s' % (kind, v), 'TrackSamplingJob%s<%s%s>' % (kind, L, v), [('t', o('Track<%s>' % v))], ['set_track(t)', 'set_ratio(0.5)'], ret=v, run='job.run().unwrap();\n    job.result()')
    fn('TrackTriggeringJob' + kind, 'TrackTriggeringJob%s%s' % (kind, lp), [('t', o('Track<f32>'))], ['set_track(t)', 'set_from(0.0)', 'set_to(1.0)', 'set_threshold(0.5)'], ret='Vec<Edge>',
       run='let v = job.run().unwrap().collect();\n    v')
    fn('IKAimJob', 'IKAimJob', [('m', 'Mat4')], ['set_joint(m)'])
    fn('IKTwoBoneJob', 'IKTwoBoneJob', [('m', 'Mat4')], ['set_start_joint(m)', 'set_mid_joint(m)', 'set_end_joint(m)'])
    fn('MotionBlendingJob' + kind, 'MotionBlendingJob' + kind, [('l', 'MotionBlendingLayer')], ['layers_mut().push(l)'])
    return [(n, USE + p) for n, p in out.items()]


OWN = USE + '''
use std::ops::{Deref, DerefMut};
#[derive(Debug)]
pub struct Own<T>(std::sync::Mutex<Box<[T]>>);
pub struct G<'t, T>(std::sync::MutexGuard<'t, Box<[T]>>);
impl<T> Deref for G<'_, T> { type Target = [T]; fn deref(&self) -> &[T] { &self.0 } }
impl<T> DerefMut for G<'_, T> { fn deref_mut(&mut self) -> &mut [T] { &mut self.0 } }
impl<T: std::fmt::Debug + Clone + 'static> OzzBuf<T> for Own<T> {
    type Buf<'t> = G<'t, T>;
    fn buf(&self) -> Result<G<'_, T>, OzzError> { self.0.lock().map(G).map_err(|_| OzzError::LockPoison) }
}
impl<T: std::fmt::Debug + Clone + 'static> OzzMutBuf<T> for Own<T> {
    type MutBuf<'t> = G<'t, T>;
    fn mut_buf(&mut self) -> Result<G<'_, T>, OzzError> { self.0.lock().map(G).map_err(|_| OzzError::LockPoison) }
}
#[derive(Debug)]
pub struct Obj<T>(T);
impl OzzObj<Skeleton> for Obj<Skeleton> { fn obj(&self) -> &Skeleton { &self.0 } }
impl OzzObj<Animation> for Obj<Animation> { fn obj(&self) -> &Animation { &self.0 } }
pub fn a(x: Obj<Animation>, o: Own<SoaTransform>, c: SamplingContext) -> Result<(), OzzError> {
    let mut j: SamplingJob<Obj<Animation>, Own<SoaTransform>, SamplingContext> = SamplingJob::default();
    j.set_animation(x); j.set_output(o); j.set_context(c); j.run()
}
pub fn b(s: Obj<Skeleton>, i: Own<SoaTransform>, o: Own<SoaTransform>) -> Result<(), OzzError> {
    let mut j: BlendingJob<Obj<Skeleton>, Own<SoaTransform>, Own<SoaTransform>> = BlendingJob::default();
    j.set_skeleton(s); j.layers_mut().push(BlendingLayer::new(i)); j.set_output(o); j.run()
}
pub fn c(s: Obj<Skeleton>, i: Own<SoaTransform>, o: Own<Mat4>) -> Result<(), OzzError> {
    let mut j: LocalToModelJob<Obj<Skeleton>, Own<SoaTransform>, Own<Mat4>> = LocalToModelJob::default();
    j.set_skeleton(s); j.set_input(i); j.set_output(o); j.run()
}
pub fn d(m: Own<Mat4>, i: Own<u16>, w: Own<f32>, p: Own<Vec3>, o: Own<Vec3>) -> Result<(), OzzError> {
    let mut j: SkinningJob<Own<Mat4>, Own<u16>, Own<f32>, Own<Vec3>, Own<Vec3>> = SkinningJob::default();
    j.set_joint_matrices(m); j.set_joint_indices(i); j.set_joint_weights(w); j.set_in_positions(p); j.set_out_positions(o); j.run()
}
pub fn e(s: Skeleton, i: Vec<SoaTransform>, o: Vec<Mat4>) -> Result<(), OzzError> {
    let mut j: LocalToModelJob<Skeleton, Vec<SoaTransform>, Vec<Mat4>> = LocalToModelJob::default();
    j.set_skeleton(s); j.set_input(i); j.set_output(o); j.run()
}
'''


def aliases(rep):
    items = [x for k in KINDS for x in uses(k)] + [('foreign holders', OWN)]
    res = witness.batch(items)
    for name, _ in items:
        ok, codes, text = res[name]
        rep.ob(ok, 'alias %s' % name, 'does not compile: %s' % text[:300])
    rep.floor('witness programs', len(items), 30)
