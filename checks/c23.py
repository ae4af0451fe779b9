"""C23: the two-bone IK job sets all three outputs, to the documented rotations."""
from c14 import *

NOTE = ('IKTwoBoneJob::run is interpreted abstractly with everything but sine, cosine and arc sine inlined; every loop-free path to a successful return is taken apart into the cases '
        'of the comparisons it and the definition depend on, and in each case the three outputs are compared with the definition by fingerprint of their real-number normal form '
        '(field evaluation at random points, checks/fp.py). Lengths are taken to be non-negative. Rounding and NaN are outside.')


def two_bones(v, g, out):
    o = v.o
    w = g('weight')
    if o.le(w, 0):
        return False if out == 'reached' else IDENTITY
    S, M, E_ = g('start_joint'), g('mid_joint'), g('end_joint')
    axis, pole = g('mid_axis'), g('pole_vector')
    iS, iM = v.inverse(S), v.inverse(M)
    start_m, end_m = v.point(iM, S[3]), v.point(iM, E_[3])
    mid_s, end_s = v.point(iS, M[3]), v.point(iS, E_[3])
    # lengths of the two bones, of start to end and of start to target, in the space of the start joint
    a2, b2, c2 = v.dot(mid_s, mid_s), v.dot(v.sub(end_s, mid_s), v.sub(end_s, mid_s)), v.dot(end_s, end_s)
    T = v.point(iS, g('target'))
    t2 = v.dot(T, T)
    a, b, t = v.sqrt(a2), v.sqrt(b2), v.sqrt(t2)
    da = (a + b) * v.clamp(g('soften'), 0, 1) % P
    ds = (a + b - da) % P
    beyond = o.lt(da, t)
    if beyond and not o.lt(0, t):
        raise Infeasible          # 0 <= da < t
    if out == 'reached':
        return not beyond and o.lt(v.L.fn1('abs', (a - b) % P), t) and not o.lt(w, 1)
    if beyond and o.lt(0, ds):
        r = pow(v.div(3, (v.div(t - da, ds) + 3) % P), 4, P)
        n = (da + ds - ds * r) % P
        T, t2 = v.scale(T, v.div(n, t)), n * n % P
    # law of cosines, before and after
    k = v.div(1, 2 * v.sqrt(a2 * b2))
    ang = lambda d2: (v.L.R.const(HALF_PI) - v.L.fn1('asin', v.clamp((a2 + b2 - d2) * k % P, -1, 1))) % P
    now, then = ang(c2), ang(t2)
    if o.lt(v.dot(v.cross(v.scale(start_m, -1), axis), end_m), 0):
        now = -now
    mid = v.about(axis, (then - now) % P)
    if out == 'mid_joint_correction':
        return v.toward(mid, w)
    end_then = v.add(mid_s, v.vector(iS, v.vector(M, v.rotate(mid, end_m))))
    rot = v.between(end_then, T)
    start = rot
    if o.lt(0, t2):
        pole_s = v.vector(iS, pole)
        ref = v.cross(T, pole_s)
        nor = v.rotate(rot, v.vector(iS, v.vector(M, axis)))
        cos = v.div(v.dot(ref, nor), v.sqrt(v.dot(ref, ref)) * v.sqrt(v.dot(nor, nor)) % P)
        about = v.scale(T, pow(v.sqrt(t2), P - 2, P))
        flipped = v.scale(about, -1) if o.lt(v.dot(nor, pole_s), 0) else about
        start = v.qmul(v.about_cos(flipped, v.clamp(cos, -1, 1)), rot)
        tw = g('twist_angle')
        if not o.eq(tw, 0):
            start = v.qmul(v.about(about, tw), start)
    return v.toward(start, w)


def run(rep):
    rep.rule('complete', 'every successful path stores the three outputs and nothing else')
    rep.rule('value', 'in every case the three outputs equal the definition')
    Ik(rep, 'IKTwoBoneJob::run', ('twist_angle', 'weight', 'soften'), ('start_joint', 'mid_joint', 'end_joint'),
       {'start_joint_correction': 'quat', 'mid_joint_correction': 'quat', 'reached': 'bool'}, two_bones)
