"""C21: integer math helpers equal their mathematical definitions (exact bit-vector semantics, IEEE floats)."""
import z3
from scal import HS, UNDEF, simp, And, Or, Implies, Not, F32, F64, bv, St, mulfits
SRC = {'': 'math.cpp', 'ub': ('mathub.cpp', 'NOSPEC')}
BCKEY = lambda e: 'ub' if e[0] == 'power_small' else ''
HCLS = HS
ASSUMPTIONS = ['signed power: a product that overflows is taken to wrap', 'float arguments of minimum, maximum and clamp are not NaN (and finite for list forms)']
TRUSTED = ['libm and compiler builtins (popcount, clz) as defined by the LLVM language reference']
CONTRACTS = []
W = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}
def lt(T, a, b):
    if T[0] == 'u': return z3.ULT(a, b)
    if T[0] == 'i': return a < b
    return z3.fpLT(a, b)
def le(T, a, b):
    if T[0] == 'u': return z3.ULE(a, b)
    if T[0] == 'i': return a <= b
    return z3.fpLEQ(a, b)
def eq(T, a, b): return z3.fpEQ(a, b) if T[0] == 'f' else a == b
def args(h, T, n):
    h.mode('fp')
    if T[0] == 'f': return [z3.FP('abcdefg'[i], F32 if T == 'f32' else F64) for i in range(n)]
    return [z3.BitVec('abcdefg'[i], W[T]) for i in range(n)]
def call(h, f, T, a, pre=True):
    st = h.state()
    if T[0] == 'f':
        for x in a: st.assume(z3.Not(z3.fpIsNaN(x)))
    st.assume(pre)
    rs = h.must_return(h.run(st, f, a))
    w = None if T[0] == 'f' else W[T]
    return [(s, v if T[0] == 'f' else bv(v, w)) for s, v in rs]

def minmax(h, T, op, n):
    a = args(h, T, n); f = f'{T}_{op}' + ('' if n == 2 and T[0] == 'f' else '')
    f = f'{T}_{op}'
    for s, v in call(h, f, T, a): sel(h, s, T, op, a, v)
def sel(h, s, T, op, a, v):
    h.prove(s, f'{op}: the result is one of the arguments', Or(*[eq(T, v, x) for x in a]))
    for i, x in enumerate(a): h.prove(s, f'{op}: no argument is {"smaller" if op == "min" else "larger"} ({i})', le(T, v, x) if op == 'min' else le(T, x, v))
def lst(h, T, op, n):
    a = args(h, T, n)
    fin = True if T[0] != 'f' else And(*[z3.Not(z3.fpIsInf(x)) for x in a])
    for s, v in call(h, f'{T}_{op}{n}', T, a, fin): sel(h, s, T, op, a, v)
def clamp(h, T):
    x, a, b = args(h, T, 3)
    for s, v in call(h, f'{T}_clamp', T, [x, a, b], le(T, a, b)):
        h.prove(s, 'clamp: below the range gives the lower end', Implies(lt(T, x, a), eq(T, v, a)))
        h.prove(s, 'clamp: above the range gives the upper end', Implies(lt(T, b, x), eq(T, v, b)))
        h.prove(s, 'clamp: inside the range is unchanged', Implies(And(le(T, a, x), le(T, x, b)), eq(T, v, x)))
for T in list(W) + ['f32', 'f64']:
    for op in ('min', 'max'):
        CONTRACTS.append(('minmax', minmax, T, op, 2))
        for n in ((1, 2, 3, 5) if T[0] != 'f' else (3,)): CONTRACTS.append(('list', lst, T, op, n))
    CONTRACTS.append(('clamp', clamp, T))

def bit(x, i): return z3.Extract(i, i, x) == 1
def pow2(x): return And(x != 0, x & (x - 1) == 0)
def bits(h, T):
    w = W[T]; x, = args(h, T, 1)
    for s, v in call(h, f'{T}_popcount', T, [x]):
        n = z3.BitVecVal(0, w)
        for i in range(w): n = n + z3.If(bit(x, i), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        h.prove(s, 'popcount: number of one bits', v == n)
    for s, v in call(h, f'{T}_ctlz', T, [x]):
        h.prove(s, 'ctlz of zero is the width', Implies(x == 0, v == w))
        h.prove(s, 'ctlz: the top one bit is at width-1-ctlz', And(*[Implies(v == k, And(bit(x, w - 1 - k), *[Not(bit(x, i)) for i in range(w - k, w)])) for k in range(w)]))
        h.prove(s, 'ctlz is at most the width', z3.ULE(v, w)); h.prove(s, 'ctlz of nonzero is below the width', Implies(x != 0, z3.ULT(v, w)))
    for s, v in call(h, f'{T}_log2', T, [x], x != 0):
        h.prove(s, 'log2: floor of the binary logarithm', And(z3.ULT(v, w), *[Implies(v == k, And(bit(x, k), *[Not(bit(x, i)) for i in range(k + 1, w)])) for k in range(w)]))
    for s, v in call(h, f'{T}_prev', T, [x]):
        h.prove(s, 'prev_pow2(0) is 0', Implies(x == 0, v == 0))
        h.prove(s, 'prev_pow2 is a power of two', Implies(x != 0, pow2(v)))
        h.prove(s, 'prev_pow2 is the greatest one not above', Implies(x != 0, And(z3.ULE(v, x), z3.ULT(x - v, v))))
    top = z3.BitVecVal(1 << (w - 1), w)
    for s, v in call(h, f'{T}_next', T, [x], And(x != 0, z3.ULE(x, top))):
        h.prove(s, 'next_pow2 is a power of two', pow2(v))
        h.prove(s, 'next_pow2 is the least one not below', And(z3.ULE(x, v), z3.ULT(v - x, x)))
        h.prove(s, 'next_pow2 fixes powers of two', Implies(pow2(x), v == x))
def align2(h, T):
    w = W[T]; x, a = args(h, T, 2)
    for s, v in call(h, f'{T}_down2', T, [x, a], pow2(a)):
        h.prove(s, 'align_down_pow2: multiple of the alignment', v & (a - 1) == 0)
        h.prove(s, 'align_down_pow2: the greatest multiple not above', And(z3.ULE(v, x), z3.ULT(x - v, a)))
    for s, v in call(h, f'{T}_up2', T, [x, a], And(pow2(a), z3.ULE(x, (1 << w) - a))):
        h.prove(s, 'align_pow2: multiple of the alignment', v & (a - 1) == 0)
        h.prove(s, 'align_pow2: the least multiple not below', Implies(z3.ULE(x, 0 - a), And(z3.ULE(x, v), z3.ULT(v - x, a))))
def align(h, T):
    w = W[T]; x, a = args(h, T, 2); m = z3.URem(x, a); q = z3.UDiv(x, a)
    for s, v in call(h, f'{T}_down', T, [x, a], a != 0):
        h.prove(s, 'align_down: floor(x / a) * a', v == x - m)
        h.prove(s, 'align_down: multiple of the alignment', v == q * a)
    for s, v in call(h, f'{T}_up', T, [x, a], And(a != 0, Or(m == 0, z3.ULE(x - m, (1 << w) - 1 - a)))):
        h.prove(s, 'align: least multiple not below', v == z3.If(m == 0, x, x - m + a))
for T in ('u32', 'u64'):
    CONTRACTS += [('bits', bits, T), ('align_pow2', align2, T), ('align', align, T)]

def absv(h, T):
    if T[0] == 'f':
        x, = args(h, T, 1)
        for s, v in call(h, f'{T}_abs', T, [x]): h.prove(s, 'abs', And(z3.fpGEQ(v, z3.FPVal(0, v.sort())), Or(z3.fpEQ(v, x), z3.fpEQ(v, z3.fpNeg(x)))))
        for s, v in call(h, f'{T}_sign', T, [x]):
            z = z3.FPVal(0, v.sort()); o = z3.FPVal(1, v.sort())
            h.prove(s, 'sign', And(Implies(z3.fpGT(x, z), v == o), Implies(z3.fpLT(x, z), v == z3.fpNeg(o)), Implies(z3.fpEQ(x, z), z3.fpEQ(v, z))))
        return
    x, = args(h, T, 1)
    for s, v in call(h, f'{T}_abs', T, [x], x != (1 << (W[T] - 1))): h.prove(s, 'abs', And(v >= 0, Or(v == x, v == -x)))
for T in ('f32', 'f64', 'i32', 'i64'): CONTRACTS.append(('abs', absv, T))
def units(h):
    x, = args(h, 'u64', 1)
    for n, k in (('KB', 10), ('MB', 20), ('GB', 30)):
        for s, v in call(h, f'u64_{n}', 'u64', [x], z3.ULT(x, 1 << (64 - k))): h.prove(s, f'{n} is 2^{k} times its argument', v == x << k)
CONTRACTS.append(('units', units))

def power(h, T):
    w = W[T]; S = z3.BitVecSort(w); M = z3.Function('power', S, S, S)
    a, b = args(h, T, 2); tot = z3.If(b == 0, z3.BitVecVal(1, w), M(a, b))
    role = {}
    def inv(ex, st, vals, first):
        vals = [bv(v, w) if not (z3.is_expr(v) and z3.is_bool(v)) else v for v in vals]
        vv = [v if v.size() == w else z3.Extract(w - 1, 0, v) for v in vals]
        if first:
            role.clear()
            for i, v in enumerate(vv):
                x = simp(v)
                if isinstance(x, int) and x == 1 and 'r' not in role: role['r'] = i
                elif z3.is_expr(x) and x.eq(a) and 'a' not in role: role['a'] = i
                elif z3.is_expr(x) and x.eq(b) and 'b' not in role: role['b'] = i
            if len(role) != 3: raise Exception_('power loop does not keep result, base and exponent')
        r, x, e = (vv[role[k]] for k in 'rab')
        out = [('result * base^exponent is the power wanted', z3.If(e == 0, r, r * M(x, e)) == tot)]
        if T[0] == 'i': out.append(('exponent is not negative', e >= 0))
        if W[T] < 32 or True:
            for k in 'rab':
                v = vals[role[k]]
                if v.size() != w: out.append((f'{k} in range', v == (z3.ZeroExt if T[0] == 'u' else z3.SignExt)(v.size() - w, vv[role[k]])))
        # definition of the power by squaring, justified by lemma()
        h1 = z3.LShR(e, 1); y = simp(x * x); y = bv(y, w)
        st.assume(Implies(And(e != 0, z3.Extract(0, 0, e) == 1), r * M(x, e) == z3.If(h1 == 0, r * x, r * x * M(y, h1))))
        st.assume(Implies(And(e != 0, z3.Extract(0, 0, e) == 0), r * M(x, e) == r * M(y, h1)))
        return out
    h.ex.inv['3powI'] = inv
    for s, v in call(h, f'{T}_pow', T, [a, b], True if T[0] == 'u' else b >= 0): h.prove(s, 'power equals repeated multiplication modulo the range', v == tot)
def power_small(h, T, e):
    """no intermediate product overflows when the power itself is representable (exponents 1 and 2)"""
    h.ex.nsw = True; w = W[T]; a, = args(h, T, 1); pre = True if e == 1 else mulfits(a, a)
    for s, v in call(h, f'{T}_pow', T, [a, e], pre): h.prove(s, f'power {e} is the repeated product', v == (a if e == 1 else a * a))
def Exception_(m):
    from terms import Unsupported
    return Unsupported(m)
def lemma(h):
    """repeated multiplication P(b,0)=1, P(b,n+1)=b*P(b,n) satisfies the squaring recursion (over any commutative ring)"""
    h.mode('int'); P = z3.Function('P', z3.IntSort(), z3.IntSort(), z3.IntSort()); b, k = z3.Ints('b k'); s = h.state()
    q = b * b
    h.prove(s, 'base: P(b, 0) = P(b*b, 0)', Implies(And(P(b, 0) == 1, P(q, 0) == 1), P(b, 0) == P(q, 0)))
    h.prove(s, 'step: P(b, 2k+2) = P(b*b, k+1)', Implies(And(k >= 0, P(b, 2 * k) == P(q, k), P(b, 2 * k + 1) == b * P(b, 2 * k), P(b, 2 * k + 2) == b * P(b, 2 * k + 1), P(q, k + 1) == q * P(q, k)), P(b, 2 * k + 2) == P(q, k + 1)))
    h.prove(s, 'odd: P(b, 2k+1) = b * P(b*b, k)', Implies(And(P(b, 2 * k) == P(q, k), P(b, 2 * k + 1) == b * P(b, 2 * k)), P(b, 2 * k + 1) == b * P(q, k)))
for T in ('u8', 'u32', 'u64', 'i32', 'i64'): CONTRACTS.append(('power', power, T))
CONTRACTS.append(('power_lemma', lemma))
for T in ('i32', 'i64'): CONTRACTS += [('power_small', power_small, T, 1), ('power_small', power_small, T, 2)]
