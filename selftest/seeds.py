from mkseed import seed

# a float track archive, byte by byte
TRACK = r'''
use ozz_animation_rs::*;
fn track(be: bool, keys: &[(f32, f32)], steps: &[u8], name: &str) -> Vec<u8> {
    let u = |x: u32| if be { x.to_be_bytes() } else { x.to_le_bytes() };
    let mut b = vec![if be { 0u8 } else { 1u8 }];
    b.extend_from_slice(b"ozz-float_track\0");
    b.extend_from_slice(&u(1));
    b.extend_from_slice(&u(keys.len() as u32));
    b.extend_from_slice(&u(name.len() as u32));
    for k in keys { b.extend_from_slice(&u(k.0.to_bits())); }
    for k in keys { b.extend_from_slice(&u(k.1.to_bits())); }
    b.extend_from_slice(steps);
    b.extend_from_slice(name.as_bytes());
    b
}
'''
SKEL = r'''
use ozz_animation_rs::*;
fn skeleton(be: bool, names: &[&str], parents: &[i16]) -> Vec<u8> {
    let u = |x: u32| if be { x.to_be_bytes() } else { x.to_le_bytes() };
    let h = |x: i16| if be { x.to_be_bytes() } else { x.to_le_bytes() };
    let mut b = vec![if be { 0u8 } else { 1u8 }];
    b.extend_from_slice(b"ozz-skeleton\0");
    b.extend_from_slice(&u(2));
    b.extend_from_slice(&u(names.len() as u32));
    b.extend_from_slice(&u(names.iter().map(|n| n.len() as u32 + 1).sum()));
    for n in names { b.extend_from_slice(n.as_bytes()); b.push(0); }
    for p in parents { b.extend_from_slice(&h(*p)); }
    for s in 0..(names.len() + 3) / 4 { for i in 0..40 { b.extend_from_slice(&u(((s * 100 + i) as f32).to_bits())); } }
    b
}
'''

# an animation archive, byte by byte; every element has its own value
ANIM = r'''
use ozz_animation_rs::*;
#[derive(Clone, Default)]
struct Chan { ratios: Vec<u16>, prev: Vec<u16>, entries: Vec<u8>, desc: Vec<u32>, interval: f32, keys: Vec<[u16; 3]> }
#[derive(Clone, Default)]
struct Anim { duration: f32, tracks: u32, name: String, timepoints: Vec<f32>, c: [Chan; 3] }
fn animation(be: bool, a: &Anim) -> Vec<u8> {
    let mut b = vec![if be { 0u8 } else { 1u8 }];
    let u = |b: &mut Vec<u8>, x: u32| b.extend_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() });
    let h = |b: &mut Vec<u8>, x: u16| b.extend_from_slice(&if be { x.to_be_bytes() } else { x.to_le_bytes() });
    b.extend_from_slice(b"ozz-animation\0");
    u(&mut b, 7);
    u(&mut b, a.duration.to_bits());
    u(&mut b, a.tracks);
    u(&mut b, a.name.len() as u32);
    u(&mut b, a.timepoints.len() as u32);
    for c in &a.c { u(&mut b, c.keys.len() as u32); }
    for c in &a.c { u(&mut b, c.entries.len() as u32); u(&mut b, c.desc.len() as u32); }
    b.extend_from_slice(a.name.as_bytes());
    for t in &a.timepoints { u(&mut b, t.to_bits()); }
    for c in &a.c {
        for r in &c.ratios { if a.timepoints.len() <= 255 { b.push(*r as u8) } else { h(&mut b, *r) } }
        for p in &c.prev { h(&mut b, *p); }
        b.extend_from_slice(&c.entries);
        for d in &c.desc { u(&mut b, *d); }
        u(&mut b, c.interval.to_bits());
        for k in &c.keys { for v in k { h(&mut b, *v); } }
    }
    b
}
fn load(b: &[u8]) -> Animation { Animation::from_archive(&mut Archive::from_slice(b).unwrap()).unwrap() }
'''

seed('C03-ratio-255', 'C03', 'an animation with exactly 255 timepoints',
     'its 8-bit ratios are read as 16-bit values and everything after them is misread',
     [('animation.rs', 'animation.timepoints().len() <= (u8::MAX as usize)', 'animation.timepoints().len() < (u8::MAX as usize)')],
     ANIM + r'''
fn main() {
    for n in [2usize, 254, 255, 256, 257] {
        let mut a = Anim { duration: 3.0, tracks: 4, name: "walk".into(), ..Default::default() };
        a.timepoints = (0..n).map(|i| i as f32 / (n - 1) as f32).collect();
        for (k, c) in a.c.iter_mut().enumerate() {
            c.ratios = vec![0, 0, 0, 0, (n - 1) as u16, (n - 1) as u16, (n - 1) as u16, (n - 1) as u16];
            c.prev = vec![0, 0, 0, 0, 4, 4, 4, 4];
            c.interval = k as f32;
            c.keys = (0..8).map(|i| [i, i + 1, k as u16]).collect();
        }
        let bytes = animation(false, &a);
        let mut ar = Archive::from_slice(&bytes).unwrap();
        let anim = Animation::from_archive(&mut ar).unwrap_or_else(|e| panic!("{} timepoints: {:?}", n, e));
        assert_eq!(anim.timepoints(), &a.timepoints[..]);
        assert!(ar.read::<u8>().is_err(), "everything consumed");
    }
}
''')

seed('C10-i16-swap', 'C10', 'a big-endian skeleton archive',
     'joint parent indices are not byte-swapped when the archive has the other byte order',
     [('endian.rs', '''    fn swap_endian(self) -> i16 {
        self.swap_bytes()''', '''    fn swap_endian(self) -> i16 {
        i16::from_le_bytes(self.to_le_bytes())''')],
     SKEL + r'''
fn main() {
    let (n, p) = (["root", "a", "b", "c", "d"], [-1i16, 0, 1, 1, 300]);
    let a = Skeleton::from_archive(&mut Archive::from_vec(skeleton(false, &n, &p)).unwrap()).unwrap();
    let b = Skeleton::from_archive(&mut Archive::from_vec(skeleton(true, &n, &p)).unwrap()).unwrap();
    assert_eq!(a.joint_parents(), &p);
    assert_eq!(b.joint_parents(), &p);
    assert_eq!(a.joint_rest_poses(), b.joint_rest_poses());
}
''')

seed('C04-short-vec', 'C04', 'an archive truncated inside a vector',
     'a load of a truncated archive succeeds with fewer elements',
     [('archive.rs', '''            buffer.push(Self::read(archive)?);
''', '''            match Self::read(archive) {
                Ok(value) => buffer.push(value),
                Err(err) if buffer.is_empty() => return Err(err),
                Err(_) => break,
            }
''')],
     SKEL + r'''
fn main() {
    let full = skeleton(false, &["root", "a", "b", "c", "d"], &[-1, 0, 1, 1, 2]);
    let end = full.len() - 2 * 160;
    for cut in 1..end {
        let r = Skeleton::read_meta(&mut Archive::from_slice(&full[..cut]).unwrap(), true);
        match r {
            Err(e) => assert!(e.is_io(), "cut at {}: {:?}", cut, e),
            Ok(m) => panic!("cut at {} of {} loads: {:?}", cut, end, m.joint_parents),
        }
    }
}
''')

seed('C05-skin-weights', 'C05', 'three or more influences and a weight buffer between one and influences-1 per vertex',
     'validation accepts a skinning configuration whose joint weights are too short, so that running it is rejected or panics',
     [('skinning_job.rs', 'ok &= joint_weights.len() >= self.vertex_count * (self.influences_count - 1);', 'ok &= joint_weights.len() >= self.vertex_count + (self.influences_count - 2);')],
     r'''
use ozz_animation_rs::*;
use glam::{Mat4, Vec3};
fn main() {
    for inf in 2usize..6 { for vc in 1usize..5 { for len in 0..30usize {
        let mut job: SkinningJobRc = SkinningJob::default();
        job.set_influences_count(inf);
        job.set_vertex_count(vc);
        job.set_joint_matrices(ozz_rc_buf(vec![Mat4::IDENTITY; 2]));
        job.set_joint_indices(ozz_rc_buf(vec![0u16; inf * vc]));
        job.set_joint_weights(ozz_rc_buf(vec![0.25f32; len]));
        job.set_in_positions(ozz_rc_buf(vec![Vec3::ONE; vc]));
        job.set_out_positions(ozz_rc_buf(vec![Vec3::ZERO; vc]));
        assert_eq!(job.validate(), len >= vc * (inf - 1), "influences {} vertices {} weights {}", inf, vc, len);
        assert_eq!(job.run().is_ok(), len >= vc * (inf - 1));
    } } }
}
''')

seed('C02-context-release', 'C02', 'a global allocator that looks at the alignment of a release (as hardened ones do)',
     'the memory of a sampling context is released with another alignment than it was requested with',
     [('sampling_job.rs', '                let layout = Layout::from_size_align_unchecked(self.size(), mem::size_of::<f32x4>());\n                alloc::dealloc', '                let layout = Layout::from_size_align_unchecked(self.size(), mem::align_of::<SamplingContextInner>());\n                alloc::dealloc')],
     r'''
use ozz_animation_rs::*;
use std::alloc::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A;
const N: usize = 4096;
static LOG: [[AtomicUsize; 3]; N] = [const { [const { AtomicUsize::new(0) }; 3] }; N];
static BAD: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        for e in LOG.iter() { if e[0].compare_exchange(0, p as usize, SeqCst, SeqCst).is_ok() { e[1].store(l.size(), SeqCst); e[2].store(l.align(), SeqCst); break; } }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        for e in LOG.iter() { if e[0].load(SeqCst) == p as usize {
            if e[1].load(SeqCst) != l.size() || e[2].load(SeqCst) != l.align() { BAD.fetch_add(1, SeqCst); }
            let l = Layout::from_size_align(e[1].load(SeqCst), e[2].load(SeqCst)).unwrap();
            e[0].store(0, SeqCst);
            return System.dealloc(p, l);
        } }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    for n in 0..70usize { let c = SamplingContext::new(n); drop(c); }
    assert_eq!(BAD.load(SeqCst), 0, "releases that do not match their request");
}
''')

seed('C02-desc-unaligned', 'C02', 'an animation whose number of scale i-frame entry bytes is not a multiple of four',
     'the 32-bit scale i-frame table is an unaligned slice',
     [('animation.rs', '''        animation.size = align_usize(animation.size, ALIGN);
        animation.size += animation.s_iframe_desc_count''', '''        animation.size += animation.s_iframe_desc_count'''),
      ('animation.rs', '''            ptr = align_ptr(ptr, ALIGN);
            animation.s_iframe_desc = ptr''', '''            animation.s_iframe_desc = ptr''')],
     ANIM + r'''
fn main() {
    for e in 0..9usize {
        let mut a = Anim { duration: 1.0, tracks: 4, name: "a".into(), timepoints: vec![0.0, 1.0], ..Default::default() };
        for c in a.c.iter_mut() {
            c.ratios = vec![0, 0, 0, 0, 1, 1, 1, 1];
            c.prev = vec![0, 0, 0, 0, 4, 4, 4, 4];
            c.keys = (0..8).map(|i| [i as u16; 3]).collect();
            c.entries = vec![7; e];
            c.desc = vec![1, 2];
        }
        let an = load(&animation(false, &a));
        let d = an.scales_ctrl().iframe_desc;
        assert_eq!(d.as_ptr() as usize % 4, 0, "{} entry bytes", e);
        assert_eq!(d, &[1, 2]);
    }
}
''')

LTM = SKEL + r'''
use glam::{Mat4, Vec4};
fn skel(parents: &[i16]) -> Skeleton {
    let names: Vec<String> = (0..parents.len()).map(|i| format!("j{i}")).collect();
    let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    Skeleton::from_archive(&mut Archive::from_slice(&skeleton(false, &names, parents)).unwrap()).unwrap()
}
'''

seed('C17-from-excluded', 'C17', 'from is excluded, and the joint after it does not belong to its hierarchy (from is a leaf)',
     'joints outside the hierarchy of `from` are overwritten',
     [('local_to_model_job.rs', 'let mut process = idx < end && (!self.from_excluded || skeleton.joint_parent(idx) as i32 >= self.from);',
       'let mut process = idx < end && (!self.from_excluded || skeleton.joint_parent(idx) as i32 >= self.from || self.from == self.to - 1);')],
     LTM + r'''
fn main() {
    let sk = skel(&[-1, 0, 0, 2, 0]);
    let pose = vec![SoaTransform::IDENTITY; 2];
    let mark: Vec<Mat4> = (0..5).map(|i| Mat4::from_cols(Vec4::splat(i as f32), Vec4::X, Vec4::Y, Vec4::Z)).collect();
    for (from, to) in [(1, 4), (1, 2), (3, 4)] {
        let mut out = mark.clone();
        {
            let mut job: LocalToModelJobRef = LocalToModelJobRef::default();
            job.set_skeleton(&sk);
            job.set_input(&pose[..]);
            job.set_output(&mut out[..]);
            job.set_from(from);
            job.set_to(to);
            job.set_from_excluded(true);
            job.run().unwrap();
        }
        assert!(out == mark, "from {from} to {to}: a joint outside the hierarchy was converted");
    }
}
''')


seed('C17-group-tail', 'C17', 'a conversion with `from` excluded that starts at the last lane of a group of four',
     'the joint after it takes the pose of the previous group',
     [('local_to_model_job.rs', 'let soa_end = (idx + 4) & !3;', 'let soa_end = (idx + 4 + self.from_excluded as usize) & !3;')],
     LTM + r"""
fn main() {
    // the skeleton's rest pose has a different value in every lane
    let sk = skel(&[-1, 0, 1, 2, 3, 4, 5, 6, 7]);
    let pose: Vec<SoaTransform> = sk.joint_rest_poses().iter().map(|p| SoaTransform { translation: p.translation, ..SoaTransform::IDENTITY }).collect();
    let mut all = vec![Mat4::IDENTITY; 9];
    {
        let mut job: LocalToModelJobRef = LocalToModelJobRef::default();
        job.set_skeleton(&sk);
        job.set_input(&pose[..]);
        job.set_output(&mut all[..]);
        for i in 0..9 { job.set_from(i); job.set_to(i); job.run().unwrap(); }
    }
    for from in 0..9 {
        let mut out = all.clone();
        let mut job: LocalToModelJobRef = LocalToModelJobRef::default();
        job.set_skeleton(&sk);
        job.set_input(&pose[..]);
        job.set_output(&mut out[..]);
        job.set_from(from);
        job.set_from_excluded(true);
        job.run().unwrap();
        drop(job);
        assert!(out == all, "converting from {from} differs from converting joint by joint");
    }
}
""")

BLEND = SKEL + r'''
use glam::{Vec3, Vec4, Quat};
use std::rc::Rc;
use std::cell::RefCell;
fn skel(n: usize) -> Rc<Skeleton> {
    let names: Vec<String> = (0..n).map(|i| format!("j{i}")).collect();
    let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let parents: Vec<i16> = (0..n as i16).map(|i| i - 1).collect();
    Rc::new(Skeleton::from_archive(&mut Archive::from_slice(&skeleton(false, &names, &parents)).unwrap()).unwrap())
}
type Buf = Rc<RefCell<Vec<SoaTransform>>>;
fn buf(v: Vec<SoaTransform>) -> Buf { Rc::new(RefCell::new(v)) }
fn pose(n: usize, x: f32) -> Vec<SoaTransform> {
    vec![SoaTransform { translation: math::SoaVec3::splat_vec3(Vec3::new(x, 2.0 * x, 3.0 * x)), ..SoaTransform::IDENTITY }; n]
}
fn close(a: f32, b: f32) -> bool { (a - b).abs() < 1e-4 * (1.0 + b.abs()) }
fn x_of(out: &Buf, i: usize) -> f32 { out.borrow()[i / 4].translation.vec3(i % 4).x }
'''
seed('C16-context-reuse', 'C16', 'a job run first with a layer that has joint weights, then (same context) without',
     'the second run treats the layers as partial: the accumulated weights of the first run are used',
     [('blending_job.rs', '        ctx.num_partial_passes = 0;\n        ctx.num_passes = 0;', '        if self.layers.iter().any(|l| !l.joint_weights.is_empty()) {\n            ctx.num_partial_passes = 0;\n        }\n        ctx.num_passes = 0;')],
     BLEND + r'''
fn main() {
    let sk = skel(4);
    let out = buf(pose(1, 0.0));
    let mut job: BlendingJob = BlendingJob::default();
    job.set_skeleton(sk.clone());
    job.set_context(BlendingContext::new(1));
    job.set_output(out.clone());
    job.layers_mut().push(BlendingLayer { transform: buf(pose(1, 1.0)), weight: 5.0, joint_weights: vec![Vec4::splat(1.0)] });
    job.run().unwrap();
    job.layers_mut().clear();
    job.run().unwrap();
    let rest = sk.joint_rest_poses()[0].translation.vec3(1).x;
    assert!(close(x_of(&out, 1), rest), "without layers the result is {} instead of the rest pose {}", x_of(&out, 1), rest);
}
''')

seed('C16-mixed-layers', 'C16', 'a layer without joint weights after one with joint weights, on a joint whose joint weight is zero',
     'the rest pose is mixed in although the layers reach the threshold',
     [('blending_job.rs', '''                    for idx in 0..num_soa_joints {
                        ctx.accumulated_weights[idx] += layer_weight;
                        Self::blend_n_pass''', '''                    for idx in 0..num_soa_joints {
                        if ctx.num_partial_passes == 0 || idx % 4 != 3 {
                            ctx.accumulated_weights[idx] += layer_weight;
                        }
                        Self::blend_n_pass''')],
     BLEND + r'''
fn main() {
    let sk = skel(20);
    let out = buf(pose(5, 0.0));
    let mut job: BlendingJob = BlendingJob::default();
    job.set_skeleton(sk.clone());
    job.set_context(BlendingContext::new(5));
    job.set_output(out.clone());
    job.layers_mut().push(BlendingLayer { transform: buf(pose(5, 1.0)), weight: 1.0, joint_weights: vec![Vec4::splat(0.0); 5] });
    job.layers_mut().push(BlendingLayer { transform: buf(pose(5, 3.0)), weight: 1.0, joint_weights: vec![] });
    job.run().unwrap();
    for i in 0..20 { assert!(close(x_of(&out, i), 3.0), "joint {i}: {}", x_of(&out, i)); }
}
''')

SKIN = r'''
use ozz_animation_rs::*;
use glam::{Mat4, Vec3, Vec4};
fn mats(n: usize) -> Vec<Mat4> { (0..n).map(|k| Mat4::from_cols(Vec4::new(1.0 + k as f32, 0.25, 0.0, 0.0), Vec4::new(0.0, 2.0, 0.5 * k as f32, 0.0), Vec4::new(0.125, 0.0, 1.0, 0.0), Vec4::new(k as f32 * 3.0, -1.0, k as f32, 1.0))).collect() }
fn sum(m: &[Mat4], idx: &[u16], w: &[f32]) -> Mat4 {
    let mut r = Mat4::ZERO;
    let mut rest = 1.0;
    for j in 0..idx.len() - 1 { r += m[idx[j] as usize] * w[j]; rest -= w[j]; }
    r + m[idx[idx.len() - 1] as usize] * rest
}
fn close(a: Vec3, b: Vec3) -> bool { (a - b).abs().max_element() < 1e-3 * (1.0 + b.abs().max_element()) }
'''
seed('C15-missing-joint', 'C15', 'the last influence of a vertex names a joint without a matrix, with a weight of exactly zero',
     'the run succeeds and leaves that influence out',
     [('skinning_job.rs', '''            let weight = Vec4::ONE - weight_sum;
            let joint_index = indices[index_offset + $n - 1] as usize;
            transform += mat4_col_mul(matrices.get(joint_index).ok_or(OzzError::InvalidIndex)?, weight);''', '''            let weight = Vec4::ONE - weight_sum;
            let joint_index = indices[index_offset + $n - 1] as usize;
            if weight != Vec4::ZERO {
                transform += mat4_col_mul(matrices.get(joint_index).ok_or(OzzError::InvalidIndex)?, weight);
            }''')],
     SKIN + r'''
fn main() {
    let m = mats(3);
    let idx = [1u16, 2, 7];
    let p = [Vec3::new(1.0, 2.0, 3.0)];
    for w in [[0.25f32, 0.5], [0.5, 0.5]] {
        let mut out = [Vec3::ZERO; 1];
        let mut job: SkinningJobRef = SkinningJobRef::default();
        job.set_vertex_count(1);
        job.set_influences_count(3);
        job.set_joint_matrices(&m);
        job.set_joint_indices(&idx);
        job.set_joint_weights(&w);
        job.set_in_positions(&p);
        job.set_out_positions(&mut out);
        assert!(job.run().is_err(), "weights {w:?}: joint 7 of 3 is accepted");
    }
}
''')

seed('C15-many-influences', 'C15', 'nine or more influences per vertex',
     'influences after the eighth are dropped from the sum although their weights are not given to the last joint',
     [('skinning_job.rs', 'for j in 1..($n - 1).max(1) {', 'for j in 1..($n - 1).clamp(1, 8) {')],
     SKIN + r'''
fn main() {
    let m = mats(12);
    for n in 2..12usize {
        let idx: Vec<u16> = (0..n as u16).collect();
        let w: Vec<f32> = (0..n - 1).map(|k| 0.05 + 0.01 * k as f32).collect();
        let p = [Vec3::new(1.0, 2.0, 3.0)];
        let mut out = [Vec3::ZERO; 1];
        let mut job: SkinningJobRef = SkinningJobRef::default();
        job.set_vertex_count(1);
        job.set_influences_count(n);
        job.set_joint_matrices(&m);
        job.set_joint_indices(&idx);
        job.set_joint_weights(&w);
        job.set_in_positions(&p);
        job.set_out_positions(&mut out);
        job.run().unwrap();
        let e = sum(&m, &idx, &w).transform_point3(p[0]);
        assert!(close(out[0], e), "{n} influences: {} instead of {}", out[0], e);
    }
}
''')

WAVE = ANIM + r'''
// times: per channel the key times shared by all tracks; every key has its own value
fn wave(tracks: usize, times: [&[f32]; 3]) -> Animation {
    let nt = (tracks + 3) / 4 * 4;
    let mut tp: Vec<f32> = times.iter().flat_map(|t| t.iter().copied()).collect();
    tp.sort_by(|a, b| a.partial_cmp(b).unwrap());
    tp.dedup();
    let mut a = Anim { duration: 1.0, tracks: tracks as u32, name: "wave".into(), timepoints: tp.clone(), ..Default::default() };
    for (n, c) in a.c.iter_mut().enumerate() {
        c.interval = 1.0;
        for (k, t) in times[n].iter().enumerate() {
            for track in 0..nt {
                c.ratios.push(tp.iter().position(|x| x == t).unwrap() as u16);
                c.prev.push(if k == 0 { 0 } else { nt as u16 });
                let v = ((track * 7 + (k * k % 4000) * 13 + n * 3) % 900) as u16;
                c.keys.push(if n == 1 { [(v * 64) & 0xfffc, v.wrapping_mul(331), v.wrapping_mul(977)] } else { [0x3c00 + v, 0x3800 + v, 0x4000 + v] });
            }
        }
    }
    load(&animation(false, &a))
}
fn context(a: &Animation) -> SamplingContext { SamplingContext::new(a.num_tracks()) }
fn sample(a: &Animation, ctx: SamplingContext, r: f32) -> (Vec<[[f32; 4]; 10]>, SamplingContext) {
    let out = std::rc::Rc::new(std::cell::RefCell::new(vec![SoaTransform::default(); a.num_soa_tracks()]));
    let mut job: SamplingJob<&Animation> = SamplingJob::default();
    job.set_animation(a);
    job.set_context(ctx);
    job.set_output(out.clone());
    job.set_ratio(r);
    job.run().unwrap();
    let v = out.borrow().iter().map(|t| [
        t.translation.x.to_array(), t.translation.y.to_array(), t.translation.z.to_array(),
        t.rotation.x.to_array(), t.rotation.y.to_array(), t.rotation.z.to_array(), t.rotation.w.to_array(),
        t.scale.x.to_array(), t.scale.y.to_array(), t.scale.z.to_array()]).collect();
    (v, job.take_context().unwrap())
}
'''

seed('C07-same-ratio', 'C07', 'two animations sampled alternately with one context at the same ratio',
     'the context is not started over for the other animation when the ratio has not changed',
     [('sampling_job.rs', '        if ctx.animation_id() != animation_id {', '        if ctx.animation_id() != animation_id && (ctx.animation_id() == 0 || ctx.ratio() != ratio) {')],
     '#![feature(portable_simd)]\n' + WAVE + r'''
fn main() {
    let a = wave(8, [&[0.0, 0.5, 1.0], &[0.0, 0.5, 1.0], &[0.0, 0.25, 0.5, 1.0]]);
    let b = wave(8, [&[0.0, 0.1, 0.2, 0.4, 1.0], &[0.0, 0.7, 1.0], &[0.0, 0.3, 1.0]]);
    let mut ctx = context(&a);
    for (x, r) in [(&a, 0.75f32), (&b, 0.75), (&a, 0.75), (&b, 0.5), (&a, 0.5), (&b, 0.0), (&a, 0.0)] {
        let (got, c) = sample(x, ctx, r);
        ctx = c;
        let (want, _) = sample(x, context(x), r);
        assert_eq!(got, want, "at {}", r);
    }
}
''')

seed('C07-scale-restart', 'C07', 'the same context used with a second animation that animates scale, and a first one that was sampled before',
     'only translations and rotations start over when the context is used with another animation; scales keep the other animation\'s cached keys',
     [('sampling_job.rs', '''            ctx.set_rotation_next(0);
            ctx.set_scale_next(0);
        }
        let prev_ratio''', '''            ctx.set_rotation_next(0);
            if ratio < ctx.ratio() {
                ctx.set_scale_next(0);
            }
        }
        let prev_ratio''')],
     '#![feature(portable_simd)]\n' + WAVE + r'''
fn main() {
    let a = wave(8, [&[0.0, 0.5, 1.0], &[0.0, 0.5, 1.0], &[0.0, 0.25, 0.5, 1.0]]);
    let b = wave(4, [&[0.0, 0.4, 1.0], &[0.0, 0.7, 1.0], &[0.0, 0.3, 0.5, 0.8, 0.9, 0.95, 1.0]]);
    let mut ctx = context(&a);
    for (x, r) in [(&a, 0.2f32), (&b, 0.3), (&a, 0.35), (&b, 0.6), (&a, 0.1), (&b, 0.9)] {
        let (got, c) = sample(x, ctx, r);
        ctx = c;
        let (want, _) = sample(x, context(x), r);
        assert_eq!(got, want, "at {}", r);
    }
}
''')

seed('C08-wide-times', 'C08', 'an animation with more than 256 time points',
     'for the third joint of a group the time of a key is looked up with the low byte of its index only',
     [('sampling_job.rs', 'timepoints[ctrl.ratios[ats[2] as usize] as usize]', 'timepoints[ctrl.ratios[ats[2] as usize] as u8 as usize]')],
     '#![feature(portable_simd)]\n' + WAVE + r'''
fn half(h: u16) -> f32 { ((h & 0x3ff) as f32 / 1024.0 + 1.0) * 2f32.powi((h >> 10) as i32 - 15) }
fn main() {
    let many: Vec<f32> = (0..301).map(|i| i as f32 / 300.0).collect();
    let st = [0.0f32, many[140], many[280], 1.0];
    let mut ts = many.clone();
    ts.truncate(2);
    ts.extend(&many[2..]);
    let a = wave(8, [&ts, &[0.0, 1.0], &st]);
    for r in [0.1f32, 0.2, 0.51, 0.6, 0.7, 0.8, 0.95, 0.99] {
        let (got, _) = sample(&a, context(&a), r);
        let k = st.iter().position(|t| r < *t).unwrap();
        for track in 0..8usize {
            let v = |k: usize| half(0x3c00 + ((track * 7 + k * k * 13 + 6) % 900) as u16);
            let want = v(k - 1) + (v(k) - v(k - 1)) * (r - st[k - 1]) / (st[k] - st[k - 1]);
            let x = got[track / 4][7][track % 4];
            assert!((x - want).abs() < 1e-3, "track {} at {}: {} instead of {}", track, r, x, want);
        }
    }
}
''')

seed('C18-step-byte', 'C18', 'a track with more than eight keys and steps behind the eighth',
     'the step bits of the second and later bytes are looked up in the wrong byte',
     [('track_sampling_job.rs', 'track.steps()[id0 / 8]', 'track.steps()[id0 / 16]')],
     TRACK + r'''
fn main() {
    let keys: Vec<(f32, f32)> = (0..20).map(|i| (i as f32 / 19.0, (i * i) as f32)).collect();
    let steps = [0b0101_0011u8, 0b1010_0110, 0b0000_1001];
    let t = Track::<f32>::from_archive(&mut Archive::from_slice(&track(false, &keys, &steps, "steps")).unwrap()).unwrap();
    let mut job: TrackSamplingJob<f32, &Track<f32>> = TrackSamplingJob::default();
    job.set_track(&t);
    for i in 0..19 {
        let r = (keys[i].0 + keys[i + 1].0) / 2.0;
        job.set_ratio(r);
        job.run().unwrap();
        let step = steps[i / 8] >> (i % 8) & 1 == 1;
        let want = if step { keys[i].1 } else { (keys[i].1 + keys[i + 1].1) / 2.0 };
        assert!((job.result() - want).abs() < 1e-3, "{}: {} instead of {}", r, job.result(), want);
    }
}
''')

seed('C21-negative-root', 'C21', 'a rotation key whose three stored components together are longer than one',
     'the restored component is not a number where the stored three leave it no room',
     [('animation.rs', 'let ww0 = f32::max(0.0, 1f32 - dot);', 'let ww0 = 1f32 - dot;')],
     r'''
use ozz_animation_rs::animation::QuaternionKey;
fn main() {
    for n in 0..65536u32 {
        let key = QuaternionKey::new([n as u16, (n.wrapping_mul(40503) >> 3) as u16, (n.wrapping_mul(2654435761) >> 13) as u16]);
        let q = key.decompress();
        assert!(q.to_array().iter().all(|x| x.is_finite()), "{:?}: {}", key, q);
    }
}
''')

seed('C21-nan-payload', 'C21', 'a NaN half float with only low mantissa bits',
     'some NaN patterns of a compressed translation are decompressed as infinity',
     [('math.rs', 'let base = (n & 0x03FF) as u32;', 'let base = (n & 0x03FC) as u32;')],
     r'''
use ozz_animation_rs::animation::Float3Key;
fn main() {
    for h in 0..=0xFFFFu16 {
        let v = Float3Key::new([h, h, h]).decompress();
        let (e, m) = ((h >> 10) & 31, h & 0x3ff);
        let want = match (e, m) {
            (31, 0) => f32::INFINITY,
            (31, _) => f32::NAN,
            (0, m) => m as f32 / 16777216.0,
            (e, m) => (1024 + m) as f32 * 2f32.powi(e as i32 - 25),
        } * if h & 0x8000 != 0 { -1.0 } else { 1.0 };
        for x in [v.x, v.y, v.z] {
            assert!(x.to_bits() == want.to_bits() || x.is_nan() && want.is_nan(), "{:#06x}: {} instead of {}", h, x, want);
        }
    }
}
''')

seed('C19-weight-order', 'C19', 'three or more layers of which one in the middle has weight zero or below',
     'layers behind a layer without weight are blended without their translation',
     [('motion_blending_job.rs', '''        for layer in &self.layers {
            let weight = layer.weight;
            if weight <= 0.0 {
                continue;
            }
            acc_weight += weight;
''', '''        let mut active = 0;
        for (index, layer) in self.layers.iter().enumerate() {
            let weight = layer.weight;
            if weight <= 0.0 {
                continue;
            }
            acc_weight += weight;
            active += 1;
            if index > active {
                continue;
            }
''')], r'''
use ozz_animation_rs::motion_blending_job::*;
use glam::{Quat, Vec3};
use glam_ext::Transform3A;
fn blend(ws: &[f32]) -> Transform3A {
    let mut job = MotionBlendingJob::default();
    for (i, w) in ws.iter().enumerate() {
        job.layers_mut().push(MotionBlendingLayer { weight: *w, delta: Transform3A::new(Vec3::new(1.0 + i as f32, 2.0, -(i as f32)), Quat::from_rotation_x(0.3 * (i / 2) as f32), Vec3::ONE) });
    }
    job.run().unwrap();
    job.output()
}
fn main() {
    // layers of weight 0 or below count for nothing
    for n in 2..7usize { for mask in 0..(1u32 << n) {
        let ws: Vec<f32> = (0..n).map(|i| if mask >> i & 1 == 1 { 0.5 + i as f32 } else { -1.0 }).collect();
        let mut job = MotionBlendingJob::default();
        for (i, w) in ws.iter().enumerate() {
            if *w > 0.0 { job.layers_mut().push(MotionBlendingLayer { weight: *w, delta: Transform3A::new(Vec3::new(1.0 + i as f32, 2.0, -(i as f32)), Quat::from_rotation_x(0.3 * (i / 2) as f32), Vec3::ONE) }); }
        }
        job.run().unwrap();
        let (a, b) = (blend(&ws), job.output());
        assert!(a.abs_diff_eq(b, 1e-5), "weights {:?}: {:?} instead of {:?}", ws, a, b);
    } }
}
''')

seed('C19-opposed', 'C19', 'three layers of which a later rotation lies on the other side of the sum so far but on the side of the first layer',
     'the side of each rotation is chosen against the first layer instead of the sum so far',
     [('motion_blending_job.rs', 'let dot = dr.dot(rot_vec);', 'let dot = if dr == Vec4::ZERO { 0.0 } else { Vec4::from(self.layers[0].delta.rotation).dot(rot_vec) };')],
     r'''
use ozz_animation_rs::motion_blending_job::*;
use glam::{Quat, Vec3, Vec4};
use glam_ext::Transform3A;
fn main() {
    let qs = [Quat::from_rotation_x(0.0), Quat::from_rotation_x(3.0), Quat::from_rotation_x(3.4), Quat::from_rotation_y(-3.0), Quat::from_xyzw(0.0, 0.6, 0.0, -0.8)];
    for a in qs { for b in qs { for c in qs {
        let ls = [(0.1f32, a), (0.6, b), (0.3, c)];
        let mut job = MotionBlendingJob::default();
        let mut sum = Vec4::ZERO;
        for (w, q) in ls {
            job.layers_mut().push(MotionBlendingLayer { weight: w, delta: Transform3A::new(Vec3::X, q, Vec3::ONE) });
            let v = Vec4::from(q);
            sum += v * if sum.dot(v) >= 0.0 { w } else { -w };
        }
        job.run().unwrap();
        let want = Quat::from_vec4(sum.normalize());
        assert!(job.output().rotation.abs_diff_eq(want, 1e-5), "{:?}: {} instead of {}", ls, job.output().rotation, want);
    } } }
}
''')

seed('C20-two-roots', 'C20', 'a skeleton with a second root behind the joint the walk starts from',
     'a walk from a joint goes on into another tree of the hierarchy',
     [('skeleton.rs', '(self.joint_parent(i) as i32 >= from.i32())', '(self.joint_parent(i) as usize >= from.usize())')],
     SKEL + r'''
fn main() {
    for parents in [vec![-1i16, 0, 1, 0, -1, 4, 5], vec![-1, -1, -1], vec![-1, 0, -1, 2, 3, 3, 2, 0x7fff.min(2)]] {
        let names: Vec<String> = (0..parents.len()).map(|i| format!("j{}", i)).collect();
        let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let s = Skeleton::from_archive(&mut Archive::from_vec(skeleton(false, &names, &parents)).unwrap()).unwrap();
        for from in -1..parents.len() as i32 {
            let mut seen = Vec::new();
            s.iter_depth_first(from, |j, p| seen.push((j, p)));
            let mut want = Vec::new();
            for j in from.max(0)..parents.len() as i32 {
                if j > from.max(0) && (parents[j as usize] as i32) < from { break; }
                want.push((j as i16, parents[j as usize]));
            }
            assert_eq!(seen, want, "from {}", from);
        }
    }
}
''')



TB = r'''
use glam::*;
use ozz_animation_rs::*;
fn chain(job: &mut IKTwoBoneJob) {
    job.set_start_joint(Mat4::IDENTITY);
    job.set_mid_joint(Mat4::from_rotation_translation(Quat::from_rotation_z(1.5707964), Vec3::Y));
    job.set_end_joint(Mat4::from_translation(Vec3::X + Vec3::Y));
    job.set_mid_axis(Vec3A::Z);
}
'''
seed('C23-over-soften', 'C23', 'a soften ratio above one and a target farther than the chain is long',
     'reached is reported for a target beyond the length of the chain',
     [('ik_two_bone_job.rs', 'fx4_clamp_or_min(f32x4::from_array([self.soften, 0.0, 0.0, 0.0]), ZERO, ONE)', 'f32x4::from_array([self.soften, 0.0, 0.0, 0.0]).simd_max(ZERO)')],
     '#![feature(portable_simd)]\n' + TB + r'''
fn main() {
    for (soften, dist, want) in [(1.0, 1.5, true), (1.0, 2.5, false), (1.5, 1.5, true), (1.5, 2.5, false), (4.0, 7.0, false), (-1.0, 1.5, false)] {
        let mut job = IKTwoBoneJob::default();
        chain(&mut job);
        job.set_soften(soften);
        job.set_target(Vec3A::new(dist, 0.0, 0.0));
        job.run().unwrap();
        assert_eq!(job.reached(), want, "soften {} distance {}", soften, dist);
    }
}
''')

seed('C14-neg-weight', 'C14', 'a weight below zero',
     'the correction turns the joint away from the target instead of leaving it',
     [('ik_aim_job.rs', 'let simd_weight = f32x4::splat(self.weight).simd_max(ZERO);', 'let simd_weight = f32x4::splat(self.weight);')],
     r'''
use glam::*;
use ozz_animation_rs::*;
fn main() {
    for w in [-0.0f32, -0.25, -1.0, -3.0] {
        let mut job = IKAimJob::default();
        job.set_target(Vec3A::new(1.0, 1.0, 0.0));
        job.set_pole_vector(Vec3A::Y);
        job.set_weight(w);
        job.run().unwrap();
        assert!(job.reached());
        assert!(job.joint_correction().abs_diff_eq(Quat::IDENTITY, 1e-6), "weight {}: {}", w, job.joint_correction());
    }
}
''')

seed('C23-neg-twist', 'C23', 'a twist angle below zero together with a pole vector along the direction to the target',
     'the chain is not twisted about the direction to the target',
     [('ik_two_bone_job.rs', 'if self.twist_angle != 0.0 {', 'if self.twist_angle > 0.0 {')],
     TB + r'''
fn main() {
    for a in [-2.0f32, -0.5, 0.5, 2.0] {
        let mut plain = IKTwoBoneJob::default();
        chain(&mut plain);
        plain.set_pole_vector(Vec3A::Y);
        plain.set_target(Vec3A::new(1.0, 1.0, 0.0));
        plain.run().unwrap();
        let mut job = IKTwoBoneJob::default();
        chain(&mut job);
        job.set_pole_vector(Vec3A::Y);
        job.set_target(Vec3A::new(1.0, 1.0, 0.0));
        job.set_twist_angle(a);
        job.run().unwrap();
        let dir = Vec3::new(1.0, 1.0, 0.0).normalize();
        let want = Quat::from_axis_angle(dir, a) * plain.start_joint_correction();
        let got = job.start_joint_correction();
        assert!(got.dot(want).abs() > 0.9999, "{}: {} instead of {}", a, got, want);
    }
}
''')

seed('C22-or-num', 'C22', 'or_num with a mask that the test of it does not use',
     'a lane of one component keeps bits of the wrong component',
     [('math.rs', '''            x: fx4_or(self.x, i),
            y: fx4_or(self.y, i),
            z: fx4_or(self.z, i),
            w: fx4_or(self.w, i),''', '''            x: fx4_or(self.x, i),
            y: fx4_or(self.y, i),
            z: fx4_or(self.z, i),
            w: fx4_xor(self.w, i),''')],
     '#![feature(portable_simd)]\n' + r'''
use ozz_animation_rs::math::*;
use std::simd::prelude::*;
fn main() {
    let q = SoaQuat { x: f32x4::splat(1.5), y: f32x4::splat(-2.5), z: f32x4::splat(3.0), w: f32x4::from_array([0.5, -0.5, 2.0, -7.0]) };
    for m in [0, 1, 0x3f80_0000, i32::MIN, -1, 0x00ff_ff00] {
        let r = q.or_num(i32x4::splat(m));
        for (a, b) in [(r.x, q.x), (r.y, q.y), (r.z, q.z), (r.w, q.w)] {
            for k in 0..4 {
                assert_eq!(a[k].to_bits(), b[k].to_bits() | m as u32, "mask {:x}", m);
            }
        }
    }
}
''')

seed('C09-cursor-narrow', 'C09', 'a context saved late in an animation of more than 65535 keys',
     'the cursor of the rotations read back is cut to 16 bits',
     [('sampling_job.rs', 'context.set_rotation_next(archived.rotation_next as usize);', 'context.set_rotation_next(archived.rotation_next as u16 as usize);')],
     '#![feature(portable_simd)]\n' + WAVE + r'''
use rkyv::Deserialize;
use std::{cell::RefCell, rc::Rc};
fn main() {
    let t: Vec<f32> = (0..701).map(|n| n as f32 / 700.0).collect();
    let a = Rc::new(wave(100, [&[0.0, 1.0], &t, &[0.0, 0.5, 1.0]]));
    let out = Rc::new(RefCell::new(vec![ozz_animation_rs::math::SoaTransform::default(); 25]));
    let mut job: SamplingJobRc = SamplingJob::default();
    job.set_animation(a.clone());
    job.set_context(SamplingContext::new(100));
    job.set_output(out.clone());
    job.set_ratio(0.999);
    job.run().unwrap();
    let ctx = job.context().unwrap();
    assert!(ctx.rotation_next() > 65535);
    let b = rkyv::to_bytes::<_, 4096>(ctx).unwrap();
    let c: SamplingContext = rkyv::check_archived_root::<SamplingContext>(&b[..]).unwrap().deserialize(&mut rkyv::Infallible).unwrap();
    assert_eq!(c.rotation_next(), ctx.rotation_next());
    assert!(&c == ctx);
}
''')
seed('C09-eq-animation', 'C09', 'two contexts in the same state, for different animations',
     'they compare equal although one cannot be used for the other animation',
     [('sampling_job.rs', '            && self.animation_id() == other.animation_id()\n', '')],
     '#![feature(portable_simd)]\n' + WAVE + r'''
use std::{cell::RefCell, rc::Rc};
fn main() {
    let mut ctx = Vec::new();
    let anims: Vec<_> = (0..2).map(|_| Rc::new(wave(5, [&[0.0, 1.0], &[0.0, 0.5, 1.0], &[0.0, 1.0]]))).collect();
    for a in &anims {
        let mut job: SamplingJobRc = SamplingJob::default();
        job.set_animation(a.clone());
        job.set_context(SamplingContext::new(8));
        job.set_output(Rc::new(RefCell::new(vec![SoaTransform::default(); 2])));
        job.set_ratio(0.3);
        job.run().unwrap();
        let c = job.take_context().unwrap();
        assert!(c == c.clone());
        ctx.push(c);
    }
    assert!(ctx[0] != ctx[1]);
}
''')
seed('C09-key-limit', 'C09', 'an animation with more than 65535 scale keys, read back from rkyv',
     'the keys behind the limit stay what the memory held',
     [('animation.rs', 'for (idx, s) in archived.scales.iter().enumerate() {', 'for (idx, s) in archived.scales.iter().enumerate().take(u16::MAX as usize) {')],
     ANIM + r'''
fn main() {
    use rkyv::Deserialize;
    let mut a = Anim { duration: 1.0, tracks: 1, name: "long".into(), timepoints: vec![0.0, 1.0], ..Default::default() };
    for (n, c) in a.c.iter_mut().enumerate() {
        let k = if n == 2 { 70_000u32 } else { 8 };
        c.interval = 1.0;
        for i in 0..k {
            c.ratios.push((i % 2) as u16);
            c.prev.push(4);
            c.keys.push([(i % 30_000) as u16 + 1, (i / 7) as u16, 3]);
        }
    }
    let b = animation(false, &a);
    let a = Animation::from_archive(&mut Archive::from_slice(&b).unwrap()).unwrap();
    let bytes = rkyv::to_bytes::<_, 4096>(&a).unwrap();
    let ar = unsafe { rkyv::archived_root::<Animation>(&bytes[..]) };
    let r: Animation = ar.deserialize(&mut rkyv::Infallible).unwrap();
    assert_eq!(r.scales().len(), 70_000);
    assert!(r.scales() == a.scales());
}
''')
seed('C13-ratio-nan', 'C13', 'a sampling ratio that is not a number',
     'the ratio is stored as NaN instead of within 0..1',
     [('sampling_job.rs', 'self.ratio = f32_clamp_or_max(ratio, 0.0f32, 1.0f32);', 'self.ratio = ratio.clamp(0.0f32, 1.0f32);')], '''
use ozz_animation_rs::*;
fn main() {
    let mut job: SamplingJobRc = SamplingJob::default();
    for r in [0.25f32, -1.0, 7.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY] {
        job.set_ratio(r);
        assert!(job.ratio() >= 0.0 && job.ratio() <= 1.0, "{} -> {}", r, job.ratio());
    }
}
''')
seed('C13-clear-neighbour', 'C13', 'clearing the input of a local to model job whose output is to be kept',
     'the output is cleared as well',
     [('local_to_model_job.rs', '''    pub fn clear_input(&mut self) {
        self.input = None;''', '''    pub fn clear_input(&mut self) {
        self.output = None;
        self.input = None;''')],
     r'''
use ozz_animation_rs::*;
use ozz_animation_rs::math::SoaTransform;
use glam::*;
use std::{cell::RefCell, rc::Rc};
fn main() {
    let mut job: LocalToModelJobRc = LocalToModelJob::default();
    job.set_input(Rc::new(RefCell::new(vec![SoaTransform::default(); 1])));
    job.set_output(Rc::new(RefCell::new(vec![Mat4::IDENTITY; 2])));
    job.clear_input();
    assert!(job.input().is_none());
    assert!(job.output().is_some());
}
''')
seed('C13-take-keeps', 'C13', 'taking the context of a blending job and using the job again',
     'the job keeps a copy of the context it gave away',
     [('blending_job.rs', '        self.context.take()\n', '        self.context.clone()\n')],
     r'''
use ozz_animation_rs::*;
fn main() {
    let mut job: BlendingJobRc = BlendingJob::default();
    assert!(job.take_context().is_some());
    assert!(job.context().is_none());
    assert!(job.take_context().is_none());
}
''')


seed('C01-fma-lerp', 'C01', 'a fused multiply-add in the interpolation of float tracks',
     'sampled values are rounded once instead of twice: other bits than on the platforms that sampled them before',
     [('track.rs', '    fn lerp(a: f32, b: f32, t: f32) -> f32 {\n        a + (b - a) * t\n', '    fn lerp(a: f32, b: f32, t: f32) -> f32 {\n        (b - a).mul_add(t, a)\n')],
     r'''
use ozz_animation_rs::track::TrackValue;
fn main() {
    let mut seed = 1u32;
    let mut next = || { seed = seed.wrapping_mul(1664525).wrapping_add(1013904223); (seed >> 8) as f32 / 16777216.0 };
    for _ in 0..10000 {
        let (a, b, t) = (next(), next(), next());
        let d = b - a;
        let p = d * t;
        let want = a + p;
        assert_eq!(<f32 as TrackValue>::lerp(a, b, t).to_bits(), want.to_bits());
    }
}
''')
seed('C01-debug-lerp', 'C01', 'a build with debug assertions',
     'float tracks are interpolated by another formula than in other builds',
     [('track.rs', '    fn lerp(a: f32, b: f32, t: f32) -> f32 {\n', '    fn lerp(a: f32, b: f32, t: f32) -> f32 {\n        if cfg!(debug_assertions) {\n            return a * (1.0 - t) + b * t;\n        }\n')],
     r'''
use ozz_animation_rs::track::TrackValue;
fn main() {
    let mut seed = 1u32;
    let mut next = || { seed = seed.wrapping_mul(1664525).wrapping_add(1013904223); (seed >> 8) as f32 / 16777216.0 };
    for _ in 0..10000 {
        let (a, b, t) = (next(), next(), next());
        let d = b - a;
        let p = d * t;
        assert_eq!(<f32 as TrackValue>::lerp(a, b, t).to_bits(), (a + p).to_bits());
    }
}
''')
seed('C01-process-hash', 'C01', 'the same skeleton loaded in two processes',
     'the order of its joint names differs between the processes',
     [('base.rs', '        DefaultHasher::default()', '        static STATE: std::sync::OnceLock<std::collections::hash_map::RandomState> = std::sync::OnceLock::new();\n        STATE.get_or_init(Default::default).build_hasher()')],
     SKEL + r'''
fn main() {
    let b = skeleton(false, &["a", "b", "c", "d", "e", "f", "g"], &[-1, 0, 0, 1, 1, 2, 2]);
    let s = Skeleton::from_archive(&mut Archive::from_slice(&b).unwrap()).unwrap();
    let order: String = s.joint_names().iter().map(|(n, _)| n.as_str()).collect();
    if std::env::args().count() > 1 {
        print!("{}", order);
        return;
    }
    for _ in 0..8 {
        let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
        assert_eq!(String::from_utf8(o.stdout).unwrap(), order);
    }
}
''')

seed('C06-soften-kept', 'C06', 'a soften ratio outside 0..1 and a run with a weight above zero',
     'running the two bone job replaces the soften ratio the user has set',
     [('ik_two_bone_job.rs', '        let setup = IKConstantSetup::new(self);', '        self.soften = self.soften.clamp(0.0, 1.0);\n        let setup = IKConstantSetup::new(self);')],
     '#![feature(portable_simd)]\n' + TB + """
fn main() {
    for (soften, weight) in [(0.5, 1.0), (1.5, 0.0), (1.5, 1.0), (-0.5, 0.5)] {
        let mut job = IKTwoBoneJob::default();
        chain(&mut job);
        job.set_soften(soften);
        job.set_weight(weight);
        job.run().unwrap();
        assert_eq!(job.soften(), soften);
        assert_eq!(job.weight(), weight);
    }
}
""")
seed('C06-to-kept', 'C06', 'a job run with a small skeleton, then given a larger one without setting the range again',
     'running the job narrows its range of joints for later runs',
     [('local_to_model_job.rs', '        let mut idx = begin;', '        self.to = i32::min(self.to, skeleton.num_joints() as i32 - 1);\n        let mut idx = begin;')],
     LTM + """
fn main() {
    let small = skel(&[-1, 0]);
    let large = skel(&[-1, 0, 1, 2, 3]);
    let pose = vec![SoaTransform::IDENTITY; 2];
    let mark = Mat4::from_cols(Vec4::ONE, Vec4::X, Vec4::Y, Vec4::Z);
    let mut out1 = vec![mark; 5];
    let mut job: LocalToModelJobRef = LocalToModelJobRef::default();
    let mut out2 = vec![mark; 5];
    job.set_skeleton(&small);
    job.set_input(&pose[..]);
    job.set_output(&mut out1[..]);
    job.run().unwrap();
    job.set_skeleton(&large);
    job.set_output(&mut out2[..]);
    job.run().unwrap();
    drop(job);
    assert!(out2.iter().all(|m| *m == Mat4::IDENTITY), "joints of the second skeleton were left out");
}
""")
seed('C06-layer-weight', 'C06', 'a layer with a negative weight',
     'running the blending job changes the weight of its layers',
     [('blending_job.rs', '        Self::blend_layers(skeleton, ctx, &self.layers, &mut output)?;', '        for layer in &mut self.layers {\n            layer.weight = layer.weight.max(0.0);\n        }\n        Self::blend_layers(skeleton, ctx, &self.layers, &mut output)?;')],
     BLEND + """
fn main() {
    let sk = skel(4);
    let out = buf(pose(1, 0.0));
    let mut job: BlendingJob = BlendingJob::default();
    job.set_skeleton(sk.clone());
    job.set_context(BlendingContext::new(1));
    job.set_output(out.clone());
    for w in [1.0, -0.5, 0.0] {
        job.layers_mut().push(BlendingLayer { transform: buf(pose(1, 1.0)), weight: w, joint_weights: vec![] });
    }
    job.run().unwrap();
    let after: Vec<f32> = job.layers().iter().map(|l| l.weight).collect();
    assert_eq!(after, [1.0, -0.5, 0.0]);
}
""")

seed('C11-static-parents', 'C11', 'a program that keeps the parents slice after the skeleton is gone',
     'the slice of joint parents can be kept for ever, also when the skeleton is freed',
     [('skeleton.rs', 'pub fn joint_parents(&self) -> &[i16] {', "pub fn joint_parents<'s>(&self) -> &'s [i16] {")],
     (SKEL + '''
fn main() {
    let sk = Skeleton::from_archive(&mut Archive::from_slice(&skeleton(false, &["a", "b"], &[-1, 0])).unwrap()).unwrap();
    let p = sk.joint_parents();
    assert_eq!(p, [-1, 0]);
    drop(sk);
}
''', SKEL + '''
fn main() {
    let sk = Skeleton::from_archive(&mut Archive::from_slice(&skeleton(false, &["a", "b"], &[-1, 0])).unwrap()).unwrap();
    let p = sk.joint_parents();
    drop(sk);
    assert_eq!(p, [-1, 0]);
}
'''))
seed('C11-ctx-entries', 'C11', 'a program that looks at the cache entries of a context while a run changes them',
     'the entries of a sampling context can be kept while the context is changed',
     [('sampling_job.rs', 'pub fn translation_entries(&self) -> &[u32] {', "pub fn translation_entries<'s>(&self) -> &'s [u32] {")],
     ('''
use ozz_animation_rs::*;
fn main() {
    let mut c = SamplingContext::new(4);
    let n = c.translation_entries().len();
    c.clear();
    assert_eq!(c.translation_entries().len(), n);
}
''', '''
use ozz_animation_rs::*;
fn main() {
    let mut c = SamplingContext::new(4);
    let e = c.translation_entries();
    c.clear();
    assert_eq!(e.len(), c.translation_entries().len());
}
'''))
seed('C11-send-job', 'C11', 'a job with reference counted buffers sent to another thread',
     'a job is declared to be Send for every kind of holder, so that Rc counts and cells race',
     [('sampling_job.rs', 'impl<A, O, C> Default for SamplingJob<A, O, C>', '''unsafe impl<A, O, C> Send for SamplingJob<A, O, C>
where
    A: OzzObj<Animation>,
    O: OzzMutBuf<SoaTransform>,
    C: AsSamplingContext,
{
}

impl<A, O, C> Default for SamplingJob<A, O, C>''')],
     ('''
use ozz_animation_rs::*;
fn main() {
    let job: SamplingJobArc = SamplingJobArc::default();
    std::thread::spawn(move || drop(job)).join().unwrap();
}
''', '''
use ozz_animation_rs::*;
fn main() {
    let job: SamplingJobRc = SamplingJobRc::default();
    std::thread::spawn(move || drop(job)).join().unwrap();
}
'''))
seed('C11-trigger-iter', 'C11', 'a program that changes the job while it goes through the edges',
     'the iterator of edges does not keep its job borrowed',
     [('track_triggering_job.rs', "pub fn run(&mut self) -> Result<TrackTriggeringIter<'_, T>, OzzError> {", "pub fn run<'s>(&mut self) -> Result<TrackTriggeringIter<'s, T>, OzzError> {"),
      ('track_triggering_job.rs', 'Ok(TrackTriggeringIter::new(self))', 'Ok(TrackTriggeringIter::new(unsafe { &*(self as *const Self) }))')],
     (TRACK + '''
fn main() {
    let t = Track::<f32>::from_archive(&mut Archive::from_slice(&track(false, &[(0.0, 0.0), (0.5, 2.0)], &[3], "")).unwrap()).unwrap();
    let mut job: TrackTriggeringJobRef = TrackTriggeringJobRef::default();
    job.set_track(&t);
    job.set_threshold(1.0);
    job.set_to(1.0);
    let n = job.run().unwrap().count();
    assert_eq!(n, 2);
}
''', TRACK + '''
fn main() {
    let t = Track::<f32>::from_archive(&mut Archive::from_slice(&track(false, &[(0.0, 0.0), (0.5, 2.0)], &[3], "")).unwrap()).unwrap();
    let mut job: TrackTriggeringJobRef = TrackTriggeringJobRef::default();
    job.set_track(&t);
    let it = job.run().unwrap();
    drop(job);
    assert_eq!(it.count(), 2);
}
'''))

POISON = r'''
use std::sync::{Arc, RwLock};
fn poison<T: Send + Sync + 'static>(b: &Arc<RwLock<Vec<T>>>) {
    let b = b.clone();
    std::panic::set_hook(Box::new(|_| ()));
    let _ = std::thread::spawn(move || { let _g = b.write().unwrap(); panic!() }).join();
    let _ = std::panic::take_hook();
}
'''
seed('C12-poison', 'C12', 'an output buffer behind a lock, and a thread that died while it wrote to it',
     'the run takes no notice and writes to the half written buffer',
     [('base.rs', '''        match self.write() {
            Ok(guard) => Ok(ObRwLockWriteGuard(guard)),
            Err(_) => Err(OzzError::LockPoison),
        }''', '''        let guard = self.write().unwrap_or_else(|poison| poison.into_inner());
        Ok(ObRwLockWriteGuard(guard))''')],
     LTM + POISON + """
fn main() {
    let out = Arc::new(RwLock::new(vec![Mat4::ZERO; 2]));
    let pose = Arc::new(RwLock::new(vec![SoaTransform::IDENTITY; 1]));
    let mut job: LocalToModelJobArc = LocalToModelJobArc::default();
    job.set_skeleton(Arc::new(skel(&[-1, 0])));
    job.set_input(pose.clone());
    job.set_output(out.clone());
    job.run().unwrap();
    poison(&out);
    assert!(matches!(job.run(), Err(OzzError::LockPoison)));
}
""")
seed('C12-try-lock', 'C12', 'a thread that writes to the input buffer at the moment another one runs a job',
     'the run fails as if the lock were poisoned',
     [('base.rs', 'match self.read() {', 'match self.try_read() {')],
     LTM + """
use std::sync::{Arc, RwLock, Barrier};
fn main() {
    let out = Arc::new(RwLock::new(vec![Mat4::ZERO; 2]));
    let pose = Arc::new(RwLock::new(vec![SoaTransform::IDENTITY; 1]));
    let mut job: LocalToModelJobArc = LocalToModelJobArc::default();
    job.set_skeleton(Arc::new(skel(&[-1, 0])));
    job.set_input(pose.clone());
    job.set_output(out.clone());
    job.run().unwrap();
    let start = Arc::new(Barrier::new(2));
    let h = std::thread::spawn({
        let start = start.clone();
        move || {
            let g = pose.write().unwrap();
            start.wait();
            std::thread::sleep(std::time::Duration::from_millis(400));
            drop(g);
        }
    });
    start.wait();
    let r = job.run();
    h.join().unwrap();
    assert!(r.is_ok(), "the run did not wait: {:?}", r);
}
""")
COUNTED = r'''
use std::cell::Cell;
use std::ops::Deref;
use std::rc::Rc;
/// a buffer that counts the borrows in use
#[derive(Debug, Clone)]
struct Counted(Rc<(Vec<SoaTransform>, Cell<i32>, Cell<i32>)>);
struct Guard<'t>(&'t (Vec<SoaTransform>, Cell<i32>, Cell<i32>));
impl Deref for Guard<'_> { type Target = [SoaTransform]; fn deref(&self) -> &[SoaTransform] { &self.0.0 } }
impl Drop for Guard<'_> { fn drop(&mut self) { self.0.1.set(self.0.1.get() - 1); } }
impl OzzBuf<SoaTransform> for Counted {
    type Buf<'t> = Guard<'t>;
    fn buf(&self) -> Result<Guard<'_>, OzzError> {
        self.0.1.set(self.0.1.get() + 1);
        self.0.2.set(self.0.2.get().max(self.0.1.get()));
        Ok(Guard(&self.0))
    }
}
'''
seed('C12-reborrow', 'C12', 'an input buffer behind a lock for which a writer queues up between two borrows of the run',
     'the run borrows its input again while it holds it: with a queued writer it blocks for ever',
     [('local_to_model_job.rs', '        let mut ok = input.len() >= skeleton.num_soa_joints();\n        ok &= output.len() >= skeleton.num_joints();\n        if !ok {\n            return Err(OzzError::InvalidJob);\n        }',
              '        let mut ok = self.input.as_ref().map_or(Ok(0), |i| i.buf().map(|b| b.len()))? >= skeleton.num_soa_joints();\n        ok &= output.len() >= skeleton.num_joints();\n        if !ok {\n            return Err(OzzError::InvalidJob);\n        }')],
     LTM + COUNTED + """
fn main() {
    let sk = skel(&[-1, 0]);
    let pose = Counted(Rc::new((vec![SoaTransform::IDENTITY; 1], Cell::new(0), Cell::new(0))));
    let mut out = vec![Mat4::ZERO; 2];
    let mut job: LocalToModelJob<&Skeleton, Counted, &mut [Mat4]> = LocalToModelJob::default();
    job.set_skeleton(&sk);
    job.set_input(pose.clone());
    job.set_output(&mut out[..]);
    job.run().unwrap();
    assert_eq!((pose.0.1.get(), pose.0.2.get()), (0, 1), "borrowed more than once at a time");
}
""")
seed('C12-error-changed', 'C12', 'a skinning job with a poisoned input lock',
     'the run reports an invalid job instead of the poisoned lock',
     [('skinning_job.rs', '    let buf = ozz_buf.as_ref().ok_or(OzzError::InvalidJob)?.buf()?;', '    let Some(Ok(buf)) = ozz_buf.as_ref().map(|b| b.buf()) else {\n        return Err(OzzError::InvalidJob);\n    };')],
     SKIN + POISON + """
fn main() {
    let lock = |v: Vec<Vec3>| Arc::new(RwLock::new(v));
    let (a, b) = (lock(vec![Vec3::ONE]), lock(vec![Vec3::ZERO]));
    let mut job: SkinningJobArc = SkinningJobArc::default();
    job.set_vertex_count(1);
    job.set_influences_count(1);
    job.set_joint_matrices(Arc::new(RwLock::new(mats(2))));
    job.set_joint_indices(Arc::new(RwLock::new(vec![1u16])));
    job.set_joint_weights(Arc::new(RwLock::new(vec![])));
    job.set_in_positions(a.clone());
    job.set_out_positions(b.clone());
    job.run().unwrap();
    poison(&a);
    assert!(matches!(job.run(), Err(OzzError::LockPoison)));
}
""")
seed('C12-leak', 'C12', 'a job run on an animation without tracks, and its output buffer used afterwards',
     'the borrow of the output is never given back',
     [('sampling_job.rs', '        if anim.num_soa_tracks() == 0 {\n            return Ok(());', '        if anim.num_soa_tracks() == 0 {\n            // nothing was written\n            std::mem::forget(output);\n            return Ok(());')],
     ANIM + """
use std::rc::Rc;
use std::cell::RefCell;
fn main() {
    let bytes = animation(false, &Anim { duration: 1.0, timepoints: vec![0.0, 1.0], ..Default::default() });
    let anim = Rc::new(Animation::from_archive(&mut Archive::from_slice(&bytes).unwrap()).unwrap());
    let out = Rc::new(RefCell::new(vec![SoaTransform::IDENTITY; 1]));
    let mut job: SamplingJobRc = SamplingJobRc::default();
    job.set_animation(anim);
    job.set_context(SamplingContext::new(4));
    job.set_output(out.clone());
    job.run().unwrap();
    assert!(out.try_borrow_mut().is_ok(), "the buffer is still borrowed");
    job.run().unwrap();
}
""")

TRIG = TRACK + r'''
/// what the definition yields
fn define(keys: &[(f32, f32)], steps: u64, th: f32, from: f32, to: f32) -> Vec<Edge> {
    let n = keys.len();
    let fwd = from < to;
    let (lo, hi) = if fwd { (from, to) } else { (to, from) };
    let mut out = vec![];
    let mut o = from.floor();
    while if fwd { o < to } else { o + 1.0 > to } {
        for k in 0..n {
            let i = if fwd { k } else { n - 1 - k };
            let j = if i == 0 { n - 1 } else { i - 1 };
            let (v0, v1) = (keys[j].1, keys[i].1);
            if (v0 > th) == (v1 > th) { continue; }
            let r = if steps >> j & 1 != 0 { keys[i].0 } else if i == 0 { 0.0 } else { keys[j].0 + (keys[i].0 - keys[j].0) * ((th - v0) / (v1 - v0)) };
            let r = r + o;
            if r >= lo && (r < hi || hi >= 1.0 + o) { out.push(Edge::new(r, (v1 > th) == fwd)); }
        }
        o += if fwd { 1.0 } else { -1.0 };
    }
    out
}
fn edges(keys: &[(f32, f32)], steps: u64, th: f32, from: f32, to: f32) -> Vec<Edge> {
    let bytes: Vec<u8> = (0..(keys.len() + 7) / 8).map(|b| (steps >> (8 * b)) as u8).collect();
    let t = Track::<f32>::from_archive(&mut Archive::from_slice(&track(false, keys, &bytes, "")).unwrap()).unwrap();
    let mut job: TrackTriggeringJobRef = TrackTriggeringJobRef::default();
    job.set_track(&t);
    job.set_threshold(th);
    job.set_from(from);
    job.set_to(to);
    job.run().unwrap().take(1000).collect()
}
fn check(keys: &[(f32, f32)], steps: u64, th: f32, from: f32, to: f32) {
    assert_eq!(edges(keys, steps, th, from, to), define(keys, steps, th, from, to), "keys {keys:?} steps {steps:b} threshold {th} from {from} to {to}");
}
'''
seed('C24-step-byte', 'C24', 'a track of more than eight keys with steps after the eighth',
     'the step bits of later keys are looked up in the first byte',
     [('track_triggering_job.rs', 'let step = (track.steps()[it0 / 8] & (1 << (it0 & 7))) != 0;', 'let step = (track.steps()[it0 / 8 & track.steps().len() / 2] & (1 << (it0 & 7))) != 0;')],
     TRIG + """
fn main() {
    let keys: Vec<(f32, f32)> = (0..11).map(|i| (i as f32 / 16.0, (i % 2) as f32 * 2.0)).collect();
    for steps in [0u64, 0xff, 0x1ff, 0x7ff, 0x155, 0x600] {
        check(&keys, steps, 1.0, 0.0, 1.0);
        check(&keys, steps, 1.0, 1.0, 0.0);
    }
    let keys: Vec<(f32, f32)> = (0..19).map(|i| (i as f32 / 32.0, (i % 2) as f32 * 2.0)).collect();
    for steps in [0u64, 0xff, 0xff00, 0x70000, 0x15555] {
        check(&keys, steps, 1.0, 0.0, 1.0);
        check(&keys, steps, 1.0, 1.0, 0.0);
    }
}
""")
seed('C24-wrap', 'C24', 'several repetitions forward of a track whose last key and first key lie on different sides of the threshold',
     'the edge from the last to the first key is yielded in the first repetition only',
     [('track_triggering_job.rs', '                self.inner = 0;\n                self.outer += 1.0;', '                self.inner = isize::from(self.outer > self.job.from + 1.0);\n                self.outer += 1.0;')],
     TRIG + """
fn main() {
    let keys = [(0.0, 0.0), (0.5, 2.0)];
    for to in [0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.5, 6.0] {
        check(&keys, 3, 1.0, 0.0, to);
        check(&keys, 3, 1.0, 0.25, to);
        check(&keys, 3, 1.0, to, 0.0);
    }
}
""")
