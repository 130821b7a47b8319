"""C26: quaternions represent rotations (floats read as reals)."""
import re
import z3
from scal import HS, And, Or, Implies, Not, bv, pz0
from C25 import vec, out, getm, zr, run, eqs, mv, mm, dot, cross, trig, orthonormal, affine
SRC = 'mat.cpp'
HCLS = HS
ASSUMPTIONS = ['float arithmetic is read as real arithmetic', 'sine and cosine are axiomatised by s^2+c^2=1 and the double-angle laws; atan2(y, x) is an angle with sine y/h and cosine x/h, h = hypot(x, y)',
               'the degree constant of the code may differ from pi/180 by 1e-6', 'quaternions that are normalised or inverted and axes are not zero',
               'to_euler: the cosine of the middle angle is zero or exceeds the tolerance of the code']
TRUSTED = ['LLVM vector instructions; libm sqrt and hypot are the mathematical functions']
CONTRACTS = []
def Q(h, st, n): return vec(h, st, n, 4)
def qm(a, b):
    ax, ay, az, aw = a; bx, by, bz, bw = b
    return [aw * bx + ax * bw + ay * bz - az * by, aw * by - ax * bz + ay * bw + az * bx, aw * bz + ax * by - ay * bx + az * bw, aw * bw - ax * bx - ay * by - az * bz]
def conj(a): return [-a[0], -a[1], -a[2], a[3]]
def unitq(h, st, n):
    """every unit quaternion is p / |p| for a nonzero p"""
    p = h.r(*[f'{n}{i}' for i in range(4)]); n2 = dot(p, p); st.assume(Not(pz0(n2))); l = h.D.sqrt(n2); v = [x / l for x in p]
    return h.putv(st, n, v), v, p
def rotv(q, v, z): return qm(qm(q, v + [z]), conj(q))[:3]
def rmat(h, q, z):
    c = [rotv(q, [z + (1 if i == j else 0) for j in range(3)], z) for i in range(3)]
    return [h.D.const(0) + x for x in c[0] + [z] + c[1] + [z] + c[2] + [z] + [z, z, z, z + 1]]
def algebra(h):
    st0 = h.state(); pa, a = Q(h, st0, 'a'); pb, b = Q(h, st0, 'b'); c = h.r('c'); o = out(h, st0, 4); o3 = h.putv(st0, 'o3', h.r('z0 z1 z2')); zero, one = h.D.const(0), h.D.const(1)
    def t(f, args, want, name, p=o, n=4):
        for s, _ in run(h, st0.copy(), f, args):
            eqs(h, s, name, getm(h, s, p, n), want); eqs(h, s, 'operand unchanged', getm(h, s, pa, 4) + getm(h, s, pb, 4), a + b)
    t('q_default', [o], [zero, zero, zero, one], 'the default quaternion is the identity')
    t('q_make', [o] + a, a, 'components in order'); t('q_vec4', [o, pa], a, 'components in order')
    s0 = st0.copy(); p3 = h.putv(s0, 'p3', a[:3])
    for s, _ in run(h, s0, 'q_vec', [o, p3, a[3]]): eqs(h, s, 'complex and real part', getm(h, s, o, 4), a)
    t('q_mul', [o, pa, pb], qm(a, b), 'Hamilton product'); t('q_mul_s', [o, pa, c], [x * c for x in a], 'scaling'); t('q_add', [o, pa, pb], [x + y for x, y in zip(a, b)], 'sum')
    t('q_sub', [o, pa, pb], [x - y for x, y in zip(a, b)], 'difference'); t('q_neg', [o, pa], [-x for x in a], 'negation'); t('q_conj', [o, pa], conj(a), 'conjugate'); t('q_complex', [o3, pa], a[:3], 'complex part', o3, 3)
    for f, w in (('q_real', a[3]), ('q_norm2', dot(a, a)), ('q_norm', h.D.sqrt(dot(a, a))), ('q_first', a[0])):
        for s, v in run(h, st0.copy(), f, [pa]): h.eq(s, f, v, w)
    for i in range(4):
        for s, v in run(h, st0.copy(), 'q_at', [pa, i]): h.eq(s, 'component', v, a[i])
        for s, _ in run(h, st0.copy(), 'q_put', [pa, i, c]): eqs(h, s, 'writing a component', getm(h, s, pa, 4), a[:i] + [c] + a[i + 1:])
    for s, v in run(h, st0.copy(), 'q_iter', [pa]): h.prove(s, 'iteration covers the components', bv(v, 64) == 4)
    for f in ('q_same', 'q_differ'):
        for s, v in run(h, st0.copy(), f, [pa, pb]):
            e = And(*[x.z3() == y.z3() for x, y in zip(a, b)]); v = v if z3.is_expr(v) else z3.BoolVal(bool(v)); h.prove(s, 'equality of every component', v == (e if f == 'q_same' else Not(e)))
def laws(h):
    """lemmas over the contracts: the product is associative, the norm multiplicative, conjugation reverses products"""
    st = h.state(); a = h.r('a0 a1 a2 a3'); b = h.r('b0 b1 b2 b3'); c = h.r('c0 c1 c2 c3'); v = h.r('v0 v1 v2'); z = h.D.const(0)
    eqs(h, st, 'lemma: associative', qm(qm(a, b), c), qm(a, qm(b, c))); h.eq(st, 'lemma: norm of a product', dot(qm(a, b), qm(a, b)), dot(a, a) * dot(b, b)); eqs(h, st, 'lemma: conjugate of a product', conj(qm(a, b)), qm(conj(b), conj(a)))
    r = rotv(a, v, z); h.eq(st, 'lemma: rotating scales the squared length by the squared norm squared', dot(r, r), dot(a, a) * dot(a, a) * dot(v, v)); eqs(h, st, 'lemma: composing quaternions composes rotations', rotv(qm(a, b), v, z), rotv(a, rotv(b, v, z), z))
    h.eq(st, 'lemma: the result of a rotation is a pure vector', qm(qm(a, v + [z]), conj(a))[3], z)
def inverse(h):
    st = h.state(); pa, a = Q(h, st, 'a'); n2 = dot(a, a); st.assume(Not(pz0(n2))); o = out(h, st, 4); o2 = h.putv(st, 'o2', h.r('x0 x1 x2 x3')); z, one = h.D.const(0), h.D.const(1)
    for s, _ in run(h, st.copy(), 'q_inv', [o, pa]):
        eqs(h, s, 'inverse', getm(h, s, o, 4), [x / n2 for x in conj(a)]); h.nonzero(s)
        for x, y in ((pa, o), (o, pa)):
            for s2, _ in run(h, s.copy(), 'q_mul', [o2, x, y]): eqs(h, s2, 'a quaternion times its inverse is one', getm(h, s2, o2, 4), [z, z, z, one])
    for s, _ in run(h, st.copy(), 'q_unit', [o, pa]):
        g = getm(h, s, o, 4); l = h.D.sqrt(n2); eqs(h, s, 'unit', g, [x / l for x in a]); h.eq(s, 'unit length', dot(g, g), one); h.nonzero(s)
def rotate(h):
    st = h.state(); pa, a = Q(h, st, 'a'); pb, b = Q(h, st, 'b'); pv, v = vec(h, st, 'v', 3); o = h.putv(st, 'o3', h.r('z0 z1 z2')); o2 = h.putv(st, 'o2', h.r('x0 x1 x2')); oq = out(h, st, 4); z = h.D.const(0)
    for s, _ in run(h, st.copy(), 'q_rotate', [o, pa, pv]):
        g = getm(h, s, o, 3); eqs(h, s, 'rotation is conjugation', g, rotv(a, v, z)); h.eq(s, 'rotation: length', dot(g, g), dot(a, a) * dot(a, a) * dot(v, v)); eqs(h, s, 'operand unchanged', getm(h, s, pa, 4) + getm(h, s, pv, 3), a + v)
    for s, _ in run(h, st.copy(), 'q_mul', [oq, pa, pb]):
        for s2, _ in run(h, s, 'q_rotate', [o, oq, pv]):
            for s3, _ in run(h, s2, 'q_rotate', [o2, pb, pv]):
                for s4, _ in run(h, s3, 'q_rotate', [o2, pa, o2]): eqs(h, s4, 'rotating by a product rotates by the factors in turn', getm(h, s4, o, 3), getm(h, s4, o2, 3))
def matrix(h):
    st = h.state(); pq, q, p = unitq(h, st, 'p'); pv, v = vec(h, st, 'v', 3); o = out(h, st); o3 = h.putv(st, 'o3', h.r('z0 z1 z2')); z = h.D.const(0)
    for s, _ in run(h, st, 'q_mat', [o, pq]):
        M = getm(h, s, o); affine(h, s, 'matrix', M); eqs(h, s, 'matrix: no translation', M[12:15], [z] * 3); orthonormal(h, s, 'matrix', M)
        for s2, _ in run(h, s, 'q_rotate', [o3, pq, pv]): eqs(h, s2, 'the matrix maps vectors like the quaternion', mv(M, v + [z])[:3], getm(h, s2, o3, 3))
def matprod(h):
    st = h.state(); pa, a, _ = unitq(h, st, 'a'); pb, b, _ = unitq(h, st, 'b'); oq = out(h, st, 4); A, B, C = [vec(h, st, n, 16)[0] for n in 'ABC']
    for s, _ in run(h, st, 'q_mul', [oq, pa, pb]):
        for s1, _ in run(h, s, 'q_mat', [A, pa]):
            for s2, _ in run(h, s1, 'q_mat', [B, pb]):
                for s3, _ in run(h, s2, 'q_mat', [C, oq]): eqs(h, s3, 'the matrix of a product is the product of the matrices', getm(h, s3, C), mm(getm(h, s3, A), getm(h, s3, B)))
def axis(h):
    st = h.state(); pv, v = vec(h, st, 'v', 3); px, x = vec(h, st, 'x', 3); a = h.r('t'); n2 = dot(v, v); st.assume(Not(pz0(n2))); l = h.D.sqrt(n2); o = out(h, st, 4); o3 = h.putv(st, 'o3', h.r('z0 z1 z2')); one = h.D.const(1)
    for s, _ in run(h, st, 'q_axis', [o, pv, a]):
        S, C = trig(h, a, 0.5)
        if S is None: continue
        k = [y / l for y in v]; g = getm(h, s, o, 4); h.eq(s, 'axis-angle: unit', dot(g, g), one); eqs(h, s, 'axis-angle: half angle', g, [S * y for y in k] + [C])
        S2, C2 = S * C * 2, C * C - S * S; kx = cross(k, x); kd = dot(k, x)
        for s2, _ in run(h, s, 'q_rotate', [o3, o, px]): eqs(h, s2, 'axis-angle: rotation about the axis by the angle', getm(h, s2, o3, 3), [x[i] * C2 + kx[i] * S2 + k[i] * kd * (1 - C2) for i in range(3)])
        h.nonzero(s); eqs(h, s, 'operand unchanged', getm(h, s, pv, 3), v)
def euler(h):
    st = h.state(); pv, v = vec(h, st, 'v', 3); o = out(h, st, 4); z, one = h.D.const(0), h.D.const(1); n = 0
    for s, _ in run(h, st, 'q_euler', [o, pv]):
        g = getm(h, s, o, 4)
        if all(x.reduce().is_const() for x in g):
            # a special case of the code: the angles are then constants, and the quaternion is the rotation by them, up to sign
            w = And(*[zr(h, x) == c for x, c in zip(v, (0, 0, 180))]); h.prove(s, 'constant result only for a half turn about z', w); eqs(h, s, 'half turn about z', [g[0], g[1], g[2] * g[2], g[3]], [z, z, one, z]); continue
        sc = [trig(h, x, 0.5) for x in v]
        if any(S is None for S, _ in sc): continue
        (s0, c0), (s1, c1), (s2, c2) = sc; n += 1
        eqs(h, s, 'Euler angles: turn about x, then y, then z', g, qm(qm([z, z, s2, c2], [z, s1, z, c1]), [s0, z, z, c0])); h.eq(s, 'Euler angles: unit', dot(g, g), one)
    if not n: h.fail('postcondition', 'no general case')
def eulmat(h, R):
    """Rz Ry Rx of the three (sin, cos) pairs, columns"""
    (sx, cx), (sy, cy), (sz, cz) = R
    return [[cz * cy, sz * cy, -sy], [cz * sy * sx - sz * cx, sz * sy * sx + cz * cx, cy * sx], [cz * sy * cx + sz * sx, sz * sy * cx - cz * sx, cy * cx]]
def to_euler(h, what, case):
    st = h.state(); z, one = h.D.const(0), h.D.const(1)
    if case[0] == 'g':   # every unit quaternion is (x, y, z, +-sqrt(1 - x^2 - y^2 - z^2))
        p = h.r('x y z'); w2 = one - dot(p, p); st.assume(zr(h, w2) >= 0); w = h.D.sqrt(w2); q = p + [w if case == 'general' else -w]
    else:
        a, b = h.r('a b'); p = [a, b, -a, b] if case == 'up' else [a, -b, a, b]   # every quaternion whose middle angle is a right angle
        n2 = dot(p, p); st.assume(Not(pz0(n2))); l = h.D.sqrt(n2); q = [x / l for x in p]
    M = [x.reduce() for x in rmat(h, q, z)]
    if case[0] != 'g': st.assume(z3.Not(z3.And(*[zr(h, x) == 0 for x in p])))
    # path conditions see the entries of the rotation matrix as opaque numbers with the two facts the branches need
    K = [h.D.define(f'm{i}', x) if not x.is_const() else x for i, x in enumerate(M)]
    h.eq(st, 'lemma: no rotation matrix is the reflection diag(1, -1, 1)', one - (M[0] - M[5] + M[10]), q[1] * q[1] * 4)
    st.assume(zr(h, K[0] - K[5] + K[10]) <= 1)
    if case[0] == 'g': cy = h.D.sqrt(K[0] * K[0] + K[1] * K[1]); st.assume(zr(h, K[0] * K[0] + K[1] * K[1]) > z3.Q(1, 10**8)); st.assume(cy.z3() > z3.Q(1, 10**4))
    h.ex.purify_abs = True
    def name_entries(ex, s, args):
        P_ = args[-1]; g = getm(h, s, P_); eqs(h, s, 'the matrix handed on is the matrix of the rotation', g, M); [h.put(s, P_, 4 * i, x) for i, x in enumerate(K)]
    if what == 'q': h.ex.on_enter.append((re.compile(r'.*Mat48to_eulerEv'), name_entries)); src = h.putv(st, 'q', q)
    else: src = h.putv(st, 'M', K)
    o = h.putv(st, 'o3', h.r('z0 z1 z2')); k = 0
    for s, _ in run(h, st, 'q_to_euler' if what == 'q' else 'm_euler', [o, src]):
        g = getm(h, s, o, 3); R = []
        for x in g:
            x = x.reduce()
            if x.is_const() and not x.num: R.append((z, one)); continue
            t = trig(h, x, 1)
            if t[0] is None: break
            R.append(t)
        if len(R) < 3: continue
        k += 1; E_ = eulmat(h, R)
        eqs(h, s, 'turning about x, y and z by the angles is the rotation', E_[0] + E_[1] + E_[2], M[0:3] + M[4:7] + M[8:11])
        for nm, kind, ar in h.D.atoms:
            if kind == 'fn:atan2':
                r = h.D.expand(ar[0] * ar[0] + ar[1] * ar[1]); c2 = M[0] * M[0] + M[1] * M[1]
                if not (case[0] == 'g' and (r.same(c2) or r.same(one))): h.prove(s, 'the point of an angle is not the origin', Not(pz0(r)))
    if not k: h.fail('postcondition', 'no case was decided')
CONTRACTS += [('algebra', algebra), ('laws', laws), ('inverse', inverse), ('rotate', rotate), ('matrix', matrix), ('matprod', matprod), ('axis', axis), ('euler', euler)]
CONTRACTS += [('to_euler', to_euler, w, c) for w in ('q', 'm') for c in ('general', 'general2', 'up', 'down') if (w, c) != ('m', 'general2')]
