"""C24: vectors equal their component-wise definitions in every dimension; boxes are the smallest enclosing boxes (floats read as reals, integers exact)."""
import z3
from scal import HS, simp, And, Or, Implies, Not, bv, pz0
from real import R
SRC = 'vmath.cpp'
HCLS = HS
ASSUMPTIONS = ['float arithmetic is read as real arithmetic', 'divisors are not zero; a vector that is normalised is not zero', 'box corners and points lie within the finite float range',
               'integer division overflow (minimum / -1) and absolute value or negation of the minimum are excluded']
TRUSTED = ['LLVM vector instructions and intrinsics; libm sqrt, floor and ceil are the mathematical functions']
CONTRACTS = []
TY = {'f': ('float',), 'd': ('double',), 'i': ('int', 32), 'u': ('int', 32)}
class VT:
    def __init__(s, h, P):
        s.h = h; s.P = P; s.k = P[0]; s.n = int(P[1]); s.ty = TY[s.k]; s.fl = s.k in 'fd'; s.w = 8 if s.k == 'd' else 4
        s.pad = 16 if P == 'f4' else s.w * s.n
    def val(s, n): return s.h.r(n) if s.fl else s.h.bv(n, 32)
    def vec(s, st, n, m=None):
        v = [s.val(f'{n}{i}') for i in range(m or s.n)]
        return s.h.putv(st, n, v, s.ty), v
    def get(s, st, p, m=None): return s.h.getv(st, p, m or s.n, s.ty)
    def out(s, st, m=None): return s.vec(st, 'o', m)[0]
    def eq(s, st, name, a, b):
        if s.fl: s.h.eq(st, name, a, b)
        else: s.h.prove(st, name, bv(a, 32) == bv(b, 32))
    def z(s, a): return a.z3() if isinstance(a, R) else a
    def le(s, a, b):
        if s.fl: return s.z3r(a) <= s.z3r(b)
        return (z3.ULE if s.k == 'u' else lambda x, y: x <= y)(bv(a, 32), bv(b, 32))
    def same(s, a, b): return s.z3r(a) == s.z3r(b) if s.fl else bv(a, 32) == bv(b, 32)
    def z3r(s, a): return a.z3() if isinstance(a, R) else s.h.D.const(a).z3()
    def div(s, a, b):
        if s.fl: return a / b
        return z3.UDiv(a, b) if s.k == 'u' else a / b
    def nz(s, b):
        if s.fl: return Not(pz0(b))
        return b != 0
    def ovf(s, a, b): return True if s.k != 'i' else Not(And(a == 0x80000000, b == 0xffffffff))
def AOP(t, op, a, b): return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: t.div(a, b)}[op]()
def vals(t, rs, p, want, name, keep=()):
    h = t.h
    for s, _ in rs:
        for i, x in enumerate(t.get(s, p, len(want))): t.eq(s, f'{name}: component {i}', x, want[i])
        for q, v in keep:
            for i, x in enumerate(t.get(s, q, len(v))): t.eq(s, f'{name}: operand component {i} is unchanged', x, v[i])
        if t.fl: h.nonzero(s)
def arith(h, P, op):
    t = VT(h, P)
    def go(fn, form):
        st = h.state(); o = t.out(st); pa, a = t.vec(st, 'a'); pb, b = t.vec(st, 'b'); c = t.val('c'); n = range(t.n)
        l, r, args, keep, dst = {'vv': (a, b, [o, pa, pb], [(pa, a), (pb, b)], [o]), 'vs': (a, [c] * t.n, [o, pa, c], [(pa, a)], [o]), 'sv': ([c] * t.n, a, [o, c, pa], [(pa, a)], [o]),
                           'eq': (a, b, [o, pa, pb], [(pb, b)], [o, pa]), 'eqs': (a, [c] * t.n, [o, pa, c], [], [o, pa])}[form]
        if op == 'div':
            for i in n: st.assume(t.nz(r[i])); st.assume(t.ovf(l[i], r[i]))
        rs = h.must_return(h.run(st, f'{P}_{fn}', args)); want = [AOP(t, op, l[i], r[i]) for i in n]
        for d in dst: vals(t, rs, d, want, f'{form} {op}', keep)
    go(op, 'vv'); go(f'{op}_s', 'vs'); go(f's_{op}', 'sv'); go(f'{op}_eq', 'eq'); go(f'{op}_eq_s', 'eqs')
    st = h.state(); o = t.out(st); pa, a = t.vec(st, 'a')
    if op != 'div': vals(t, h.must_return(h.run(st, f'{P}_{op}_eq', [o, pa, pa])), pa, [AOP(t, op, x, x) for x in a], f'self {op}')
def zb(v): return v if z3.is_expr(v) else z3.BoolVal(bool(v))
def compare(h, P):
    t = VT(h, P)
    for fn in ('same', 'differ'):
        st = h.state(); pa, a = t.vec(st, 'a'); pb, b = t.vec(st, 'b')
        for s, v in h.must_return(h.run(st, f'{P}_{fn}', [pa, pb])):
            e = And(*[t.same(x, y) for x, y in zip(a, b)])
            h.prove(s, 'equal exactly when every component is equal' if fn == 'same' else 'different exactly when some component differs', zb(v) == (e if fn == 'same' else Not(e)))
def reduce(h, P):
    t = VT(h, P); st0 = h.state(); pa, a = t.vec(st0, 'a'); pb, b = t.vec(st0, 'b')
    for s, v in h.must_return(h.run(st0.copy(), f'{P}_dot', [pa, pb])): t.eq(s, 'dot product', v, sum((x * y for x, y in zip(a[1:], b[1:])), a[0] * b[0]))
    for s, v in h.must_return(h.run(st0.copy(), f'{P}_norm2', [pa])): t.eq(s, 'squared norm', v, sum((x * x for x in a[1:]), a[0] * a[0]))
    for fn in ('hmin', 'hmax'):
        for s, v in h.must_return(h.run(st0.copy(), f'{P}_{fn}', [pa])):
            h.prove(s, f'{fn[1:]} is a component', Or(*[t.same(v, x) for x in a]))
            for x in a: h.prove(s, f'{fn[1:]} bounds every component', t.le(v, x) if fn == 'hmin' else t.le(x, v))
def minmax(h, P):
    t = VT(h, P)
    for fn in ('min', 'max'):
        st = h.state(); o = t.out(st); pa, a = t.vec(st, 'a'); pb, b = t.vec(st, 'b')
        for s, _ in h.must_return(h.run(st, f'{P}_{fn}', [o, pa, pb])): mm(t, s, fn, t.get(s, o), a, b)
def mm(t, s, fn, g, a, b):
    for i in range(len(a)):
        t.h.prove(s, f'{fn} component {i} is one of the operands', Or(t.same(g[i], a[i]), t.same(g[i], b[i])))
        t.h.prove(s, f'{fn} component {i} bounds both operands', And(*[t.le(g[i], x) if fn == 'min' else t.le(x, g[i]) for x in (a[i], b[i])]))
def clamp(h, P):
    t = VT(h, P); st = h.state(); o = t.out(st); pa, a = t.vec(st, 'a'); pb, b = t.vec(st, 'b'); pc, c = t.vec(st, 'c')
    for x, y in zip(b, c): st.assume(t.le(x, y))
    for s, _ in h.must_return(h.run(st, f'{P}_clamp', [o, pa, pb, pc])):
        for i, g in enumerate(t.get(s, o)):
            h.prove(s, f'clamp component {i}', And(Implies(t.le(a[i], b[i]), t.same(g, b[i])), Implies(t.le(c[i], a[i]), t.same(g, c[i])), Implies(And(t.le(b[i], a[i]), t.le(a[i], c[i])), t.same(g, a[i]))))
def build(h, P):
    t = VT(h, P); st0 = h.state(); o = t.out(st0); z = h.D.const(0) if t.fl else 0; c = t.val('c')
    vals(t, h.must_return(h.run(st0.copy(), f'{P}_default', [o])), o, [z] * t.n, 'default')
    vals(t, h.must_return(h.run(st0.copy(), f'{P}_splat', [o, c])), o, [c] * t.n, 'splat')
    a = [t.val(f'a{i}') for i in range(t.n)]
    vals(t, h.must_return(h.run(st0.copy(), f'{P}_make', [o, *a])), o, a, 'components in order')
    st = st0.copy(); pa, a = t.vec(st, 'a')
    for i in range(t.n):
        for s, v in h.must_return(h.run(st.copy(), f'{P}_at', [pa, i])): t.eq(s, f'index {i} reads component {i}', v, a[i])
        vals(t, h.must_return(h.run(st.copy(), f'{P}_put', [pa, i, c])), pa, a[:i] + [c] + a[i + 1:], f'index {i} writes component {i} only')
    for s, v in h.must_return(h.run(st.copy(), f'{P}_iter', [pa])): h.prove(s, 'iteration covers every component', bv(v, 64) == t.n)
    for s, v in h.must_return(h.run(st.copy(), f'{P}_first', [pa])): t.eq(s, 'iteration starts at the first component', v, a[0])
    if t.n > 2:
        s2 = st0.copy(); pb, b = t.vec(s2, 'b', t.n - 1)
        vals(t, h.must_return(h.run(s2, f'{P}_extend', [o, pb, c])), o, b + [c], 'extension')
        s3 = st.copy(); q = t.out(s3, 2)
        for k in range(t.n - 1): vals(t, h.must_return(h.run(s3.copy(), f'{P}_sub_{k}', [q, pa])), q, a[k:k + 2], f'swizzle {k}')
    if t.n == 4:
        s3 = st.copy(); q = t.out(s3, 3)
        for k in range(2): vals(t, h.must_return(h.run(s3.copy(), f'{P}_sub3_{k}', [q, pa])), q, a[k:k + 3], f'swizzle3 {k}')
def sign(h, P):
    t = VT(h, P)
    st = h.state(); o = t.out(st); pa, a = t.vec(st, 'a')
    vals(t, h.must_return(h.run(st, f'{P}_neg', [o, pa])), o, [-x for x in a], 'negation', [(pa, a)])
    for fn in ('abs', 'fabs'):
        st = h.state(); o = t.out(st); pa, a = t.vec(st, 'a')
        if t.k == 'i': st.assume(And(*[x != 0x80000000 for x in a]))
        for s, _ in h.must_return(h.run(st, f'{P}_{fn}', [o, pa])):
            for i, g in enumerate(t.get(s, o)):
                zero = h.D.const(0) if t.fl else 0
                h.prove(s, f'absolute value, component {i}', And(t.le(zero, g), Or(t.same(g, a[i]), t.same(g, -a[i]))))
            for i, g in enumerate(t.get(s, pa)): t.eq(s, 'absolute value: operand is unchanged', g, a[i])
def norms(h, P):
    t = VT(h, P); st0 = h.state(); o = t.out(st0); pa, a = t.vec(st0, 'a'); n2 = sum((x * x for x in a[1:]), a[0] * a[0])
    for s, v in h.must_return(h.run(st0.copy(), f'{P}_norm', [pa])):
        t.eq(s, 'norm squared is the squared norm', v * v, n2); h.prove(s, 'norm is not negative', v.z3() >= 0); h.nonzero(s)
    st0.assume(Not(pz0(n2))); l = h.D.sqrt(n2)
    for fn in ('unit', 'normalize', 'nrm'):
        rs = h.must_return(h.run(st0.copy(), f'{P}_{fn}', [o, pa]))
        vals(t, rs, o, [x / l for x in a], fn, [(pa, a)] if fn != 'normalize' else [])
        if fn == 'normalize': vals(t, rs, pa, [x / l for x in a], fn)
        for s, _ in rs:
            g = t.get(s, o); t.eq(s, f'{fn}: the result has unit length', sum((x * x for x in g[1:]), g[0] * g[0]), h.D.const(1))
def rounding(h, P):
    t = VT(h, P)
    for fn in ('floor', 'ceil'):
        st = h.state(); o = t.out(st); pa, a = t.vec(st, 'a')
        vals(t, h.must_return(h.run(st, f'{P}_{fn}', [o, pa])), o, [h.D.fn(fn, x) for x in a], fn, [(pa, a)])
def lerp(h, P):
    t = VT(h, P); st = h.state(); o = t.out(st); pa, a = t.vec(st, 'a'); pb, b = t.vec(st, 'b'); c = t.val('c')
    vals(t, h.must_return(h.run(st, f'{P}_lerp', [o, pa, pb, c])), o, [x * (1 - c) + y * c for x, y in zip(a, b)], 'interpolation', [(pa, a), (pb, b)])
def proj(h, P):
    t = VT(h, P); st = h.state(); o = t.out(st, t.n - 1); pa, a = t.vec(st, 'a'); st.assume(t.nz(a[-1]))
    vals(t, h.must_return(h.run(st, f'{P}_proj', [o, pa])), o, [x / a[-1] for x in a[:-1]], 'projection', [(pa, a)])
def cross(h):
    t = VT(h, 'f3'); st = h.state(); o = t.out(st); pa, a = t.vec(st, 'a'); pb, b = t.vec(st, 'b')
    rs = h.must_return(h.run(st, 'f3_cross', [o, pa, pb]))
    vals(t, rs, o, [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], 'cross product', [(pa, a), (pb, b)])
def convert(h):
    t = VT(h, 'f3'); st = h.state(); o = h.putv(st, 'o', h.r('q0 q1 q2'), ('double',)); pa, a = t.vec(st, 'a')
    for s, _ in h.must_return(h.run(st, 'f3_as_d', [o, pa])):
        for i, x in enumerate(h.getv(s, o, 3, ('double',))): t.eq(s, f'conversion keeps component {i}', x, a[i])
    t = VT(h, 'i4'); st = h.state(); o = t.out(st); pa, a = t.vec(st, 'a')
    vals(t, h.must_return(h.run(st, 'i4_as_u', [o, pa])), o, a, 'conversion', [(pa, a)])
for P in ('f2', 'f3', 'f4', 'd2', 'd3', 'd4', 'i2', 'i3', 'i4', 'u2', 'u3', 'u4'):
    CONTRACTS += [('arith', arith, P, op) for op in ('add', 'sub', 'mul', 'div')] + [('compare', compare, P), ('reduce', reduce, P), ('minmax', minmax, P), ('clamp', clamp, P), ('build', build, P)]
    if P[0] != 'u': CONTRACTS.append(('sign', sign, P))
    if P[0] in 'fd': CONTRACTS += [('norms', norms, P), ('rounding', rounding, P), ('lerp', lerp, P)] + ([('proj', proj, P)] if P[1] != '2' else [])
CONTRACTS += [('cross', cross), ('convert', convert)]
# ---------------------------------------------------------------- boxes
from fractions import Fraction as Fr
MAX = Fr(2 - 2.0 ** -23) * 2 ** 127
def fin(h, st, v):
    for x in v: st.assume(And(x.z3() <= h.D.const(MAX).z3(), x.z3() >= h.D.const(-MAX).z3()))
def box(h, st, n, full=True):
    p = h.putv(st, n, h.r(*[f'{n}{i}' for i in range(6)])); v = h.getv(st, p, 6); fin(h, st, v)
    if full:
        for i in range(3): st.assume(v[i].z3() <= v[i + 3].z3())
    return p, v
def z(v): return v.z3()
def inside(h, b, p): return And(*[And(z(b[i]) <= z(p[i]), z(p[i]) <= z(b[i + 3])) for i in range(3)])
def b_basic(h):
    for fn in ('b_init', 'b_reset'):
        st = h.state(); p, v = box(h, st, 'b', False)
        for s, _ in h.must_return(h.run(st, fn, [p])):
            g = h.getv(s, p, 6)
            for i in range(3): h.eq(s, 'an empty box encloses nothing: lower corner', g[i], h.D.const(MAX)); h.eq(s, 'an empty box encloses nothing: upper corner', g[i + 3], h.D.const(-MAX))
    st = h.state(); p, v = box(h, st, 'o', False); t = VT(h, 'f3'); pa, a = t.vec(st, 'a'); pb, b = t.vec(st, 'b')
    for s, _ in h.must_return(h.run(st, 'b_make', [p, pa, pb])):
        for i, x in enumerate(h.getv(s, p, 6)): h.eq(s, f'box corner component {i}', x, (a + b)[i])
    st = h.state(); p, v = box(h, st, 'b', False)
    for s, r in h.must_return(h.run(st, 'b_empty', [p])): h.prove(s, 'empty exactly when some extent is negative', zb(r) == Or(*[z(v[i]) > z(v[i + 3]) for i in range(3)]))
    st = h.state(); p, v = box(h, st, 'b', False); o = h.putv(st, 'o', h.r('o0 o1 o2'))
    for s, _ in h.must_return(h.run(st, 'b_center', [o, p])):
        for i, x in enumerate(h.getv(s, o, 3)): h.eq(s, f'centre component {i}', x * 2, v[i] + v[i + 3])
    st = h.state(); p, v = box(h, st, 'b', False)
    for s, r in h.must_return(h.run(st, 'b_area', [p])):
        e = Or(*[z(v[i]) > z(v[i + 3]) for i in range(3)]); d = [v[i + 3] - v[i] for i in range(3)]; A = (d[0] * d[1] + d[1] * d[2] + d[0] * d[2]) * 2
        rz = r.z3() if isinstance(r, R) else h.D.const(r).z3()
        h.prove(s, 'surface area', And(Implies(e, rz == 0), Implies(Not(e), rz == z(A))))
def b_point(h):
    st = h.state(); p, v = box(h, st, 'b', False); q = h.r('x y z'); fin(h, st, q); pq = h.putv(st, 'q', q)
    for s, _ in h.must_return(h.run(st, 'b_point', [p, pq])):
        g = h.getv(s, p, 6)
        for i in range(3):
            lo, hi = z(g[i]), z(g[i + 3])
            h.prove(s, f'enclosing a point, axis {i}: lower end is the minimum', And(Or(lo == z(v[i]), lo == z(q[i])), lo <= z(v[i]), lo <= z(q[i])))
            h.prove(s, f'enclosing a point, axis {i}: upper end is the maximum', And(Or(hi == z(v[i + 3]), hi == z(q[i])), hi >= z(v[i + 3]), hi >= z(q[i])))
        h.prove(s, 'the point lies in the box', inside(h, g, q))
def b_first(h, fn):
    """the first point given to an empty box becomes the whole box"""
    st = h.state(); p, v = box(h, st, 'b', False); q = h.r('x y z'); fin(h, st, q); pq = h.putv(st, 'q', q)
    for s, _ in h.must_return(h.run(st, fn, [p])):
        for s2, _ in h.must_return(h.run(s, 'b_point', [p, pq])):
            g = h.getv(s2, p, 6)
            for i in range(3): h.prove(s2, 'a single point is its own box', And(z(g[i]) == z(q[i]), z(g[i + 3]) == z(q[i])))
def b_box(h):
    st = h.state(); p, v = box(h, st, 'b', False); q, w = box(h, st, 'c', False)
    for s, _ in h.must_return(h.run(st, 'b_box', [p, q])):
        g = h.getv(s, p, 6)
        for i in range(3):
            lo, hi = z(g[i]), z(g[i + 3])
            h.prove(s, f'enclosing a box, axis {i}: lower end is the minimum', And(Or(lo == z(v[i]), lo == z(w[i])), lo <= z(v[i]), lo <= z(w[i])))
            h.prove(s, f'enclosing a box, axis {i}: upper end is the maximum', And(Or(hi == z(v[i + 3]), hi == z(w[i + 3])), hi >= z(v[i + 3]), hi >= z(w[i + 3])))
        for i, x in enumerate(h.getv(s, q, 6)): h.eq(s, 'the other box is unchanged', x, w[i])
def b_transform(h):
    st = h.state(); p, v = box(h, st, 'b'); m = h.r(*[f'm{i}' for i in range(16)]); pm = h.putv(st, 'm', m)
    for s, _ in h.must_return(h.run(st, 'b_transform', [p, pm])):
        g = h.getv(s, p, 6)
        for i in range(3):
            # the image of the box under x -> M x + t: each row is linear, so its extremes are at corners chosen per column
            lo = [z3.If(z(m[4 * j + i]) >= 0, z(m[4 * j + i] * v[j]), z(m[4 * j + i] * v[j + 3])) for j in range(3)]
            hi = [z3.If(z(m[4 * j + i]) >= 0, z(m[4 * j + i] * v[j + 3]), z(m[4 * j + i] * v[j])) for j in range(3)]
            h.prove(s, f'transformed box, axis {i}: lower end is the least image of the corners', z(g[i]) == z(m[12 + i]) + sum(lo))
            h.prove(s, f'transformed box, axis {i}: upper end is the greatest image of the corners', z(g[i + 3]) == z(m[12 + i]) + sum(hi))
CONTRACTS += [('box_basic', b_basic), ('box_point', b_point), ('box_first', b_first, 'b_init'), ('box_first', b_first, 'b_reset'), ('box_box', b_box), ('box_transform', b_transform)]
def b_project(h):
    """the projected rectangle encloses the eight projected corners and touches them on every side"""
    h.ex.purify = True
    st = h.state(); p, v = box(h, st, 'b'); m = h.r(*[f'm{i}' for i in range(16)]); pm = h.putv(st, 'm', m); lo = h.putv(st, 'lo', h.r('l0 l1')); hi = h.putv(st, 'hi', h.r('h0 h1'))
    cs = [[v[0 + 3 * ((k >> 0) & 1)], v[1 + 3 * ((k >> 1) & 1)], v[2 + 3 * ((k >> 2) & 1)]] for k in range(8)]
    im = [[m[i] * c[0] + m[4 + i] * c[1] + m[8 + i] * c[2] + m[12 + i] for i in range(3)] for c in cs]
    for q in im: fin(h, st, q[:2])
    behind = [z(q[2]) < 0 for q in im]
    for s, _ in h.must_return(h.run(st, 'b_project', [p, pm, lo, hi])):
        a, b = h.getv(s, lo, 2), h.getv(s, hi, 2); z_ = lambda x: x.z3() if isinstance(x, R) else h.D.const(x).z3()
        front = Not(Or(*behind)); al = And(*behind)
        h.prove(s, 'all corners behind: nothing is covered', Implies(al, And(*[z_(x) == 0 for x in a + b])))
        h.prove(s, 'some corners behind: everything is covered', Implies(And(Not(front), Not(al)), And(*[z_(x) == -1 for x in a], *[z_(x) == 1 for x in b])))
        for i in range(2):
            for k in range(8): h.prove(s, f'corner {k} lies in the rectangle, axis {i}', Implies(front, And(z_(a[i]) <= z(im[k][i]), z(im[k][i]) <= z_(b[i]))))
            h.prove(s, f'the lower end is attained, axis {i}', Implies(front, Or(*[z_(a[i]) == z(q[i]) for q in im])))
            h.prove(s, f'the upper end is attained, axis {i}', Implies(front, Or(*[z_(b[i]) == z(q[i]) for q in im])))
        for i, x in enumerate(h.getv(s, p, 6)): h.eq(s, 'the box is unchanged', x, v[i])
CONTRACTS.append(('box_project', b_project))
