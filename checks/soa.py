"""Helpers for matrix/pose formulas on top of lanes.py."""
from common import *
from lanes import Lanes, same, pkey, show_poly, Mystery
from real import ONE
import re


def cols_of(it, v):
    """the four column vectors of a matrix value (AosMat4, or a Mat4 made of one)"""
    while v.op == 'transmute':
        v = v.a[0]
    c = it.proj(v, ('f', 'cols'))
    return [it.proj(c, ('i', const(j))) for j in range(4)]


class Pose(Lanes):
    """lanes that see through [Simd; 16] -> [AosMat4; 4] reinterpretation"""

    def __init__(self, it, q, **kw):
        Lanes.__init__(self, **kw)
        self.it, self.q = it, q
        self.user = self.vleaf
        self.vleaf = self._pj

    def _pj(self, e):
        r = self.user(e)
        if r is not None:
            return r
        if e.op in ('pj', 'ld', 'elem'):
            root, path = unproj(e)
            if root.op == 'transmute' and 'AosMat4; ' in root.a[2] and 'Simd<f32, 4>; 16' in root.a[1]:
                idx = [x for x in path if x[0] == 'i']
                if len(idx) == 2 and all(isinstance(num(x[1]), int) for x in idx):
                    return self.vec(self.q.canon(self.it.proj(root.a[0], ('i', const(4 * num(idx[0][1]) + num(idx[1][1]))))))
        if e.op == 'phi' and e in self.it.phi_alias:
            return self.vec(self.it.phi_alias[e])
        return None


def num(x):
    return cval(x) if isinstance(x, E) else x


def unproj(e):
    """root and whole access path of nested projections/loads"""
    path = ()
    while True:
        if e.op == 'pj':
            p = e.a[1]
            path = (p if p and isinstance(p[0], tuple) else (p,)) + path
            e = e.a[0]
        elif e.op == 'ld':
            path = e.a[1] + path
            e = e.a[0]
        elif e.op == 'elem':
            path = (('i', e.a[1]),) + path
            e = e.a[0]
        elif e.op in ('&', 'deref'):
            e = e.a[0]
        elif e.op == 'ref' and e.a[0][0][0] == 'M' and isinstance(e.a[0][0][1], E):
            path = e.a[0][1] + path
            e = e.a[0][0][1]
        else:
            return e, path


def lane_atoms(p):
    return {a for k in p for a in k}


def trs(R, t, r, s):
    """columns (lists of 4 polynomials) of the matrix of translation t, unit rotation r, scale s (polynomials)"""
    one, two = R.const(1), R.const(2)
    x, y, z, w = r

    def m(a, b):
        return R.mul(a, b)

    def a2(p, q, sg=1):
        return R.mul(two, R.add(p, q, sg))
    rot = [[R.add(one, a2(m(y, y), m(z, z)), -1), a2(m(x, y), m(z, w)), a2(m(x, z), m(y, w), -1)],
           [a2(m(x, y), m(z, w), -1), R.add(one, a2(m(x, x), m(z, z)), -1), a2(m(y, z), m(x, w))],
           [a2(m(x, z), m(y, w)), a2(m(y, z), m(x, w), -1), R.add(one, a2(m(x, x), m(y, y)), -1)]]
    cols = [[R.mul(s[j], rot[j][i]) for i in range(3)] + [{}] for j in range(3)]
    cols.append([t[0], t[1], t[2], one])
    return cols


def matmul(R, a, b):
    """columns of a*b, both given by columns"""
    out = []
    for j in range(4):
        c = []
        for i in range(4):
            p = {}
            for k in range(4):
                p = R.add(p, R.mul(a[k][i], b[j][k]))
            c.append(p)
        out.append(c)
    return out
