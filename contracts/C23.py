"""C23: every packed operation equals the scalar operation applied lane by lane (exact IEEE semantics; dot product over the reals)."""
import z3
from scal import HS, simp, And, Or, Implies, Not, F32, RNE
SRC = 'simd.cpp'
HCLS = HS
ASSUMPTIONS = ['lanes of min and max are not NaN', 'the dot product is read over the reals (order of additions is free)']
TRUSTED = ['LLVM vector instructions and the floor/ceil/fabs/minnum/maxnum intrinsics as defined by the LLVM language reference']
CONTRACTS = []
def lanes(h, n, st, nan=False):
    v = [z3.FP(f'{n}{i}', F32) for i in range(4)]
    if nan: st.assume(And(*[Not(z3.fpIsNaN(x)) for x in v]))
    return h.putv(st, n, v), v
def setup(h, k, nan=False):
    h.mode('fp'); st = h.state(); o = h.putv(st, 'o', [z3.FP(f'junk{i}', F32) for i in range(4)])
    return st, o, [lanes(h, 'ab'[i], st, nan) for i in range(k)]
def same(a, b): return Or(z3.fpEQ(a, b), And(z3.fpIsNaN(a), z3.fpIsNaN(b)))
def check(h, rs, o, ops, op, f):
    for s, _ in rs:
        got = h.getv(s, o, 4)
        for i in range(4): h.prove(s, f'{op}: lane {i} is the scalar result', same(got[i], f(i)) if True else None)
        for p, v in ops:
            for i, x in enumerate(h.getv(s, p, 4)): h.prove(s, f'{op}: operands are unchanged', x == v[i])
ARITH = {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}
def binary(h, op):
    st, o, ops = setup(h, 2); (pa, a), (pb, b) = ops
    check(h, h.must_return(h.run(st, f's_{op}', [o, pa, pb])), o, ops, op, lambda i: ARITH[op](RNE, a[i], b[i]))
def alias(h, op):
    st, o, ops = setup(h, 1); pa, a = ops[0]
    rs = h.must_return(h.run(st, f's_{op}', [pa, pa, pa]))
    for s, _ in rs:
        for i, x in enumerate(h.getv(s, pa, 4)): h.prove(s, f'{op} in place: lane {i}', same(x, ARITH[op](RNE, a[i], a[i])))
def minmax(h, op):
    st, o, ops = setup(h, 2, True); (pa, a), (pb, b) = ops
    for s, _ in h.must_return(h.run(st, f's_{op}', [o, pa, pb])):
        for i, x in enumerate(h.getv(s, o, 4)):
            le = (lambda p, q: z3.fpLEQ(p, q)) if op == 'min' else (lambda p, q: z3.fpLEQ(q, p))
            h.prove(s, f'{op}: lane {i} is one of the operands', Or(z3.fpEQ(x, a[i]), z3.fpEQ(x, b[i])))
            h.prove(s, f'{op}: lane {i} bounds both operands', And(le(x, a[i]), le(x, b[i])))
UN = {'floor': lambda x: z3.fpRoundToIntegral(z3.RTN(), x), 'ceil': lambda x: z3.fpRoundToIntegral(z3.RTP(), x), 'abs': z3.fpAbs}
def unary(h, op):
    st, o, ops = setup(h, 1); pa, a = ops[0]
    check(h, h.must_return(h.run(st, f's_{op}', [o, pa])), o, ops, op, lambda i: UN[op](a[i]))
def sets(h):
    st, o, _ = setup(h, 0); a = [z3.FP(f'x{i}', F32) for i in range(4)]
    check(h, h.must_return(h.run(st.copy(), 's_set', [o, *a])), o, [], 'set', lambda i: a[i])
    check(h, h.must_return(h.run(st.copy(), 's_set1', [o, a[0]])), o, [], 'set1', lambda i: a[0])
    for n, k in (('zero', 0), ('one', 1)): check(h, h.must_return(h.run(st.copy(), f's_{n}', [o])), o, [], n, lambda i: z3.FPVal(k, F32))
def equal(h):
    st, o, ops = setup(h, 2); (pa, a), (pb, b) = ops
    for s, v in h.must_return(h.run(st, 's_eq', [pa, pb])):
        h.prove(s, 'cmpeq_all holds exactly when every lane is equal', (v if z3.is_expr(v) else z3.BoolVal(bool(v))) == And(*[z3.fpEQ(x, y) for x, y in zip(a, b)]))
def dot(h):
    h.mode('real'); st = h.state(); a = h.r('a0 a1 a2 a3'); b = h.r('b0 b1 b2 b3'); pa = h.putv(st, 'a', a); pb = h.putv(st, 'b', b)
    for s, v in h.must_return(h.run(st, 's_dp', [pa, pb])):
        h.eq(s, 'dp is the sum of the lane products', v, a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3])
for op in ARITH: CONTRACTS += [('binary', binary, op), ('in_place', alias, op)]
for op in ('min', 'max'): CONTRACTS.append(('minmax', minmax, op))
for op in UN: CONTRACTS.append(('unary', unary, op))
CONTRACTS += [('set', sets), ('equal', equal), ('dot', dot)]
