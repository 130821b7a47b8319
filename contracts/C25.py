"""C25: matrix operations satisfy linear algebra; the constructors are the matrices of the named maps (floats read as reals)."""
import math
import z3
from scal import HS, And, Or, Implies, Not, bv, pz0
from real import R
SRC = 'mat.cpp'
HCLS = HS
ASSUMPTIONS = ['float arithmetic is read as real arithmetic', 'sine and cosine are axiomatised by s^2+c^2=1 and the double-angle laws; tangent is their quotient', 'the degree constant of the code may differ from pi/180 by 1e-6',
               'matrices that are inverted have a nonzero determinant; axes, directions and view vectors are not degenerate', 'rotate_y_to and rotate_z_to: within the tolerance of the code around straight up and straight down the result is the rotation to exactly that direction']
TRUSTED = ['LLVM vector instructions; libm sqrt is the mathematical function']
CONTRACTS = []
FT = ('float',)
def mat(h, st, n):
    v = h.r(*[f'{n}{i}' for i in range(16)]); return h.putv(st, n, v), v
def vec(h, st, n, k):
    v = h.r(*[f'{n}{i}' for i in range(k)]); return h.putv(st, n, v), v
def out(h, st, k=16): return vec(h, st, 'o', k)[0]
def R_(h, x): return x if isinstance(x, R) else h.D.const(x)
def getm(h, s, p, k=16): return [R_(h, x) for x in h.getv(s, p, k)]
def zr(h, x): return R_(h, x).z3()
def run(h, st, f, args): return h.must_return(h.run(st, f, args))
def eqs(h, s, name, got, want):
    for i, (g, w) in enumerate(zip(got, want)): h.eq(s, f'{name} ({i})', g, w)
def mm(A, B): return [sum((A[4 * k + r] * B[4 * c + k] for k in range(1, 4)), A[r] * B[4 * c]) for c in range(4) for r in range(4)]
def mv(A, v): return [sum((A[4 * k + r] * v[k] for k in range(1, 4)), A[r] * v[0]) for r in range(4)]
def ident(h): return [h.D.const(1 if i % 5 == 0 else 0) for i in range(16)]
def dot(a, b): return sum((x * y for x, y in zip(a[1:], b[1:])), a[0] * b[0])
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def basic(h):
    st0 = h.state(); o = out(h, st0)
    for n, want in (('default', ident(h)), ('I', ident(h)), ('zero', [h.D.const(0)] * 16), ('swap', [h.D.const(x) for x in (0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1)])):
        for s, _ in run(h, st0.copy(), f'm_{n}', [o]): eqs(h, s, n, getm(h, s, o), want)
    st = st0.copy(); pa, a = mat(h, st, 'a')
    for s, _ in run(h, st.copy(), 'm_make', [o, pa]): eqs(h, s, 'entries in column order', getm(h, s, o), a)
    cs = [vec(h, st, f'c{i}_', 4) for i in range(4)]
    for s, _ in run(h, st.copy(), 'm_cols', [o] + [p for p, _ in cs]): eqs(h, s, 'columns in order', getm(h, s, o), sum((v for _, v in cs), []))
    q = h.putv(st, 'q', h.r('q0 q1 q2 q3'))
    for i in range(4):
        for f in ('m_at', 'm_ref'):
            for s, _ in run(h, st.copy(), f, [q, pa, i]): eqs(h, s, f'column {i}', getm(h, s, q, 4), a[4 * i:4 * i + 4])
        for s, _ in run(h, st.copy(), 'm_put', [pa, i, q]): eqs(h, s, f'writing column {i} changes nothing else', getm(h, s, pa), a[:4 * i] + h.r('q0 q1 q2 q3') + a[4 * i + 4:])
    for f in ('m_at', 'm_ref'):
        s = st.copy(); k = h.bv('k', 64); s.assume(z3.UGE(k, 4)); h.never_returns(h.run(s, f, [q, pa, k]))
    for s, v in run(h, st.copy(), 'm_iter', [pa]): h.prove(s, 'iteration covers the columns', bv(v, 64) == 4)
    for s, v in run(h, st.copy(), 'm_first', [q, pa]): eqs(h, s, 'iteration starts at the first column', getm(h, s, q, 4), a[:4])
def entry(h, op):
    st = h.state(); o = out(h, st); pa, a = mat(h, st, 'a'); pb, b = mat(h, st, 'b'); c = h.r('c')
    F = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'div': lambda x, y: x / y}[op]
    if op in ('add', 'sub'):
        for s, _ in run(h, st.copy(), f'm_{op}', [o, pa, pb]):
            eqs(h, s, f'{op}', getm(h, s, o), [F(x, y) for x, y in zip(a, b)]); eqs(h, s, 'operand unchanged', getm(h, s, pa), a); eqs(h, s, 'operand unchanged', getm(h, s, pb), b)
    if op == 'div': st.assume(Not(pz0(c)))
    for s, _ in run(h, st.copy(), f'm_{op}_s', [o, pa, c]): eqs(h, s, f'{op} scalar', getm(h, s, o), [F(x, c) for x in a]); h.nonzero(s)
def product(h):
    st = h.state(); o = out(h, st); pa, a = mat(h, st, 'a'); pb, b = mat(h, st, 'b'); pv, v = vec(h, st, 'v', 4); ov = h.putv(st, 'ov', h.r('w0 w1 w2 w3')); o2 = h.putv(st, 'o2', h.r('x0 x1 x2 x3'))
    for s, _ in run(h, st.copy(), 'm_mul', [o, pa, pb]):
        eqs(h, s, 'product entry', getm(h, s, o), mm(a, b)); eqs(h, s, 'operand unchanged', getm(h, s, pa), a); eqs(h, s, 'operand unchanged', getm(h, s, pb), b)
        for s2, _ in run(h, s, 'm_vec4', [ov, o, pv]):
            for s3, _ in run(h, s2, 'm_vec4', [o2, pb, pv]):
                for s4, _ in run(h, s3, 'm_vec4', [o2, pa, o2]): eqs(h, s4, 'applying a product applies the factors in turn', getm(h, s4, ov, 4), getm(h, s4, o2, 4))
    for s, _ in run(h, st.copy(), 'm_mul', [pa, pa, pa]): eqs(h, s, 'square in place', getm(h, s, pa), mm(a, a))
def apply(h):
    st = h.state(); pa, a = mat(h, st, 'a'); pv, v = vec(h, st, 'v', 4); o = out(h, st, 4); one, zero = h.D.const(1), h.D.const(0)
    for s, _ in run(h, st.copy(), 'm_vec4', [o, pa, pv]): eqs(h, s, 'matrix times vector', getm(h, s, o, 4), mv(a, v)); eqs(h, s, 'operand unchanged', getm(h, s, pa), a)
    for f, w in (('m_vec3', one), ('m_rot', zero)):
        s0 = st.copy(); p3 = h.putv(s0, 'p3', v[:3]); o3 = h.putv(s0, 'o3', h.r('z0 z1 z2'))
        for s, _ in run(h, s0, f, [o3, pa, p3]): eqs(h, s, 'point' if w is one else 'direction', getm(h, s, o3, 3), mv(a, v[:3] + [w])[:3])
def transpose(h):
    for f in ('m_T', 'm_transpose'):
        st = h.state(); o = out(h, st); pa, a = mat(h, st, 'a')
        for s, _ in run(h, st, f, [o, pa]): eqs(h, s, 'transpose', getm(h, s, o), [a[4 * r + c] for c in range(4) for r in range(4)]); eqs(h, s, 'operand unchanged', getm(h, s, pa), a)
def compare(h):
    for f in ('m_same', 'm_differ'):
        st = h.state(); pa, a = mat(h, st, 'a'); pb, b = mat(h, st, 'b')
        for s, v in run(h, st, f, [pa, pb]):
            e = And(*[x.z3() == y.z3() for x, y in zip(a, b)]); v = v if z3.is_expr(v) else z3.BoolVal(bool(v)); h.prove(s, 'equality of every entry', v == (e if f == 'm_same' else Not(e)))
def minor(a, rows, cols):
    if len(rows) == 1: return a[4 * cols[0] + rows[0]]
    t = None
    for i, c in enumerate(cols):
        m = a[4 * c + rows[0]] * minor(a, rows[1:], cols[:i] + cols[i + 1:])
        t = (m if i % 2 == 0 else -m) if t is None else (t + m if i % 2 == 0 else t - m)
    return t
def inverse(h, f):
    st = h.state(); o = out(h, st); pa, a = mat(h, st, 'a'); L = [0, 1, 2, 3]; det = minor(a, L, L); st.assume(Not(pz0(det)))
    adj = [minor(a, [x for x in L if x != c], [x for x in L if x != r]) * (1 if (c + r) % 2 == 0 else -1) for c in L for r in L]
    for s, _ in run(h, st, f, [o, pa]):
        eqs(h, s, 'inverse entry times the determinant is the cofactor', [x * det for x in getm(h, s, o)], adj); h.nonzero(s); eqs(h, s, 'operand unchanged', getm(h, s, pa), a)
    I = ident(h); eqs(h, st, 'lemma: matrix times adjugate is the determinant times the identity', mm(a, adj), [x * det for x in I]); eqs(h, st, 'lemma: adjugate times matrix is the determinant times the identity', mm(adj, a), [x * det for x in I])
def affine(h, s, name, M):
    z, o = h.D.const(0), h.D.const(1)
    eqs(h, s, f'{name}: last row', [M[3], M[7], M[11], M[15]], [z, z, z, o])
def simple(h):
    st = h.state(); o = out(h, st); pv, v = vec(h, st, 'v', 3); x = h.r('x y z w')
    for s, _ in run(h, st.copy(), 'm_scale', [o, pv]): eqs(h, s, 'scaling', mv(getm(h, s, o), x), [v[0] * x[0], v[1] * x[1], v[2] * x[2], x[3]])
    for s, _ in run(h, st.copy(), 'm_translate', [o, pv]): eqs(h, s, 'translation', mv(getm(h, s, o), x), [x[0] + v[0] * x[3], x[1] + v[1] * x[3], x[2] + v[2] * x[3], x[3]])
def ratio(h, a, b):
    """constant a/b, or None"""
    q = (a / b).reduce()
    return q.cval() if q.is_const() else None
def trig(h, a, k, fallback=True):
    """(sin, cos) the code used for k degrees-to-radians units of the angle a"""
    for b, s, c in h.D.trig:
        q = ratio(h, b, a)
        if q is not None and abs(float(q) / (math.pi / 180 * k) - 1) < 1e-6: return s, c
        if q is not None and abs(float(q) / (math.pi / 180 * k) + 1) < 1e-6: return -s, c
    h.fail('postcondition', 'the angle is not converted from degrees to radians'); return None, None
def lin(M): return [[M[4 * c + r] for r in range(3)] for c in range(3)]
def orthonormal(h, s, name, M):
    c = lin(M); one, zero = h.D.const(1), h.D.const(0)
    for i in range(3):
        for j in range(i, 3): h.eq(s, f'{name}: columns {i} and {j} are orthonormal', dot(c[i], c[j]), one if i == j else zero)
    h.eq(s, f'{name}: determinant is one', dot(c[0], cross(c[1], c[2])), one)
def rotate(h):
    st = h.state(); o = out(h, st); pv, v = vec(h, st, 'v', 3); a = h.r('a'); n2 = dot(v, v); st.assume(Not(pz0(n2))); x = h.r('x y z'); l = h.D.sqrt(n2)
    for s, _ in run(h, st, 'm_rotate', [o, a, pv]):
        M = getm(h, s, o); S, C = trig(h, a, 1)
        if S is None: continue
        k = [t / l for t in v]; kx = cross(k, x); kd = dot(k, x)
        got = mv(M, x + [h.D.const(0)])[:3]; eqs(h, s, 'rotation about an axis', got, [x[i] * C + kx[i] * S + k[i] * kd * (1 - C) for i in range(3)])
        affine(h, s, 'rotation', M); eqs(h, s, 'rotation: no translation', M[12:15], [h.D.const(0)] * 3); orthonormal(h, s, 'rotation', M); h.nonzero(s)
def look_at(h):
    # every target is pos + d for d = target - pos, so the target is given as that sum and nothing is lost
    st = h.state(); o = out(h, st); pp, p = vec(h, st, 'p', 3); pu, u = vec(h, st, 'u', 3); d = h.r('d0 d1 d2'); a = [x + y for x, y in zip(p, d)]; pa = h.putv(st, 'at', a)
    du = cross(d, u); st.assume(Not(pz0(dot(d, d)))); st.assume(Not(pz0(dot(du, du)))); one, zero = h.D.const(1), h.D.const(0)
    for s, _ in run(h, st, 'm_look_at', [o, pp, pa, pu]):
        M = getm(h, s, o); l = h.D.sqrt(dot(d, d))
        eqs(h, s, 'the eye goes to the origin', mv(M, p + [one])[:3], [zero] * 3)
        eqs(h, s, 'the target goes to the negative z axis at its distance', mv(M, a + [one])[:3], [zero, zero, -l])
        uu = mv(M, u + [zero])[:3]; h.eq(s, 'the up vector stays in the plane x = 0', uu[0], zero)
        h.eq(s, 'the up vector: height', uu[1] * l, h.D.sqrt(dot(du, du)))
        orthonormal(h, s, 'view', M); affine(h, s, 'view', M); h.nonzero(s)
def ortho(h):
    st = h.state(); o = out(h, st); l, r, b, t, n, f = h.r('l r b t n f'); one, zero = h.D.const(1), h.D.const(0)
    for x, y in ((l, r), (b, t), (n, f)): st.assume(Not(pz0(x - y)))
    for s, _ in run(h, st, 'm_ortho', [o, l, r, b, t, n, f]):
        M = getm(h, s, o); eqs(h, s, 'orthographic: the near lower left corner', mv(M, [l, b, -n, one]), [-one, -one, zero, one]); eqs(h, s, 'orthographic: the far upper right corner', mv(M, [r, t, -f, one]), [one, one, one, one])
        eqs(h, s, 'orthographic: axes stay separate', [M[i] for i in (1, 2, 4, 6, 8, 9)], [zero] * 6); affine(h, s, 'orthographic', M); h.nonzero(s)
def proj(h):
    st = h.state(); o = out(h, st); fov, ar, n = h.r('fov ar n'); st.assume(Not(pz0(ar))); zero = h.D.const(0)
    outs = None
    for b in (h.D.const(1),):
        h.ex.trig_nonzero = True
        for s, _ in run(h, st, 'm_proj', [o, fov, ar, n]):
            M = getm(h, s, o); S, C = trig(h, fov, 0.5)
            if S is None: continue
            s.assume(Not(pz0(S))); s.assume(Not(pz0(C)))
            eqs(h, s, 'projection: columns', [M[0] * ar * S, M[5] * S], [C, -C]); eqs(h, s, 'projection: depth and w', [M[14], M[11], M[10], M[15]], [n, h.D.const(-1), zero, zero])
            eqs(h, s, 'projection: axes stay separate', [M[i] for i in (1, 2, 3, 4, 6, 7, 8, 9, 12, 13)], [zero] * 10); h.nonzero(s)
def rotate_to(h, f):
    st = h.state(); o = out(h, st); pd, d = vec(h, st, 'd', 3); n2 = dot(d, d); st.assume(Not(pz0(n2))); l = h.D.sqrt(n2); one, zero = h.D.const(1), h.D.const(0); kinds = set()
    for s, _ in run(h, st, f, [o, pd]):
        M = getm(h, s, o); orthonormal(h, s, f, M); affine(h, s, f, M); eqs(h, s, f'{f}: no translation', M[12:15], [zero] * 3)
        im = M[4:7] if f == 'm_rotate_y_to' else [-x for x in M[8:11]]
        u = [x / l for x in d]
        if all(x.is_const() for x in [y.reduce() for y in im]):
            kinds.add('const'); e = h.D.const(2) / h.D.const(100000)
            h.prove(s, f'{f}: the axis is carried to the direction (within the tolerance)', And(*[zr(h, (im[1] - u[1])) < e.z3(), zr(h, (im[1] - u[1])) > (-e).z3()])); eqs(h, s, f'{f}: straight up or down', [im[0], im[1] * im[1], im[2]], [zero, one, zero])
        else: kinds.add('general'); eqs(h, s, f'{f}: the axis is carried to the direction', im, u)
        h.nonzero(s)
    if 'general' not in kinds: h.fail('postcondition', 'no general case')
CONTRACTS += [('basic', basic)] + [('entry', entry, op) for op in ('add', 'sub', 'mul', 'div')] + [('product', product), ('apply', apply), ('transpose', transpose), ('compare', compare), ('inverse', inverse, 'm_inv'), ('inverse', inverse, 'm_inverse'),
    ('simple', simple), ('rotate', rotate), ('look_at', look_at), ('ortho', ortho), ('proj', proj), ('rotate_to', rotate_to, 'm_rotate_y_to'), ('rotate_to', rotate_to, 'm_rotate_z_to')]
