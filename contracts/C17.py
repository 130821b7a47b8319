"""C17: equality, order and hash of strings as functions of their byte sequences, for every pairing of string kinds."""
from strc import *
SRC = 'str.cpp'
SQ = fresh_fn('mix', I, 0, (1 << 64) - 1)
MIX = '_ZN3rpp4Hash9squirrel5Em'
def mix(h):
    """the mixing function is used through its contract: its result depends on its argument alone (see c_mix)"""
    h.ex.add_contract(MIX + '$', lambda ex, st, ins, a, n: ('val', SQ(zi(ex.norm(st, a[0], 64)))))
def c_mix(h):
    f = h.m.func(MIX) if MIX in h.m.fns else None
    ops = set(i.op for b in (f.blocks.values() if hasattr(f.blocks, 'values') else f.blocks) for i in b.insts) if f else set()
    st = h.state(); h.prove(st, 'the mixing function reads and writes no memory and calls nothing', not (ops & {'load', 'store', 'call', 'invoke', 'alloca'}))
def pair(h, ka, kb):
    setup(h); st = h.state(); return st, mk(h, st, ka, 'a', ro=True), mk(h, st, kb, 'b', ro=True)
def qf(st, body, v, name):
    k = z3.Int(fresh_name('q')); b = body(k); st.q.append(QFact([k], b, [vexec.trig_of(zb(b), k)], name))
def agree(st, a, b, n, name='equal-bytes'): qf(st, lambda k: Implies(And(Le(0, k), Lt(k, n)), Eq(a.val(k), b.val(k))), None, name)
def decide(h, st, fn, a, b, want, what):
    for s, r in h.must_return(h.run(st, fn, [a.p(), b.p()])): h.prove(s, what, truth(h, s, r) == zb(want))
def c_eq(h, fn, ka, kb, neg=False):
    st, a, b = pair(h, ka, kb); st.assume(Eq(a.len, b.len)); agree(st, a, b, a.len); decide(h, st, fn, a, b, not neg, 'same length and bytes: equal')
    st, a, b = pair(h, ka, kb); st.assume(Ne(a.len, b.len)); decide(h, st, fn, a, b, neg, 'different lengths: not equal')
    st, a, b = pair(h, ka, kb); d = h.int('d'); st.assume(And(Eq(a.len, b.len), d < a.len, Ne(a.val(d), b.val(d)))); decide(h, st, fn, a, b, neg, 'some byte differs: not equal')
def c_eq_self(h, fn, k):
    setup(h); st = h.state(); a = mk(h, st, k, 'a', ro=True); decide(h, st, fn, a, a, True, 'equal to itself')
def c_lt(h, fn, ka, kb):
    for sign in (True, False):
        st, a, b = pair(h, ka, kb); d = h.int('d'); st.assume(And(d < a.len, d < b.len, Lt(a.val(d), b.val(d)) if sign else Gt(a.val(d), b.val(d)))); agree(st, a, b, d)
        decide(h, st, fn, a, b, sign, 'the first differing byte decides')
    st, a, b = pair(h, ka, kb); st.assume(a.len < b.len); agree(st, a, b, a.len); decide(h, st, fn, a, b, True, 'a proper prefix is less')
    st, a, b = pair(h, ka, kb); st.assume(a.len >= b.len); agree(st, a, b, b.len); decide(h, st, fn, a, b, False, 'never less than its own prefix')
def recs(t, out):
    """recurrence values F(n) occurring in a returned term"""
    if z3.is_expr(t) and z3.is_app(t):
        if t.num_args() == 1 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(t): out.append(t)
        for c in t.children(): recs(c, out)
    return out
def agree_by_induction(h, st, r1, r2, n):
    """two loop recurrences agree at every step up to n: base and step are obligations"""
    A, B = recs(r1, []), recs(r2, [])
    for x in A:
        for y in B:
            if x.decl().eq(y.decl()): continue
            f, g = x.decl(), y.decl()
            if not h.ex.valid(st, Eq(f(z3.IntVal(0)), g(z3.IntVal(0))), timeout=4000): continue
            h.prove(st, 'hash recurrences start alike', Eq(f(z3.IntVal(0)), g(z3.IntVal(0))))
            t = st.copy(); k = fresh_int('k', 0); t.assume(And(k < zi(n), Eq(f(k), g(k)))); h.prove(t, 'hash recurrences step alike', Eq(f(k + 1), g(k + 1)))
            q = z3.Int(fresh_name('q'))
            st.q.append(QFact([q], Implies(And(0 <= q, q <= zi(n)), f(q) == g(q)), [[(f.name(), 0, 1, z3.IntVal(0))], [(g.name(), 0, 1, z3.IntVal(0))]], 'hashes-agree', [[zi(n)]]))
def c_hash(h, f1, f2, ka, kb):
    st, a, b = pair(h, ka, kb); st.assume(Eq(a.len, b.len)); agree(st, a, b, a.len)
    mix(h)
    for s1, r1 in h.must_return(h.run(st, f1, [a.p()])):
        for s2, r2 in h.must_return(h.run(s1, f2, [b.p()])):
            r1, r2 = h.ex.norm(s2, r1, 64), h.ex.norm(s2, r2, 64)
            if z3.is_expr(r1) and z3.is_expr(r2): agree_by_induction(h, s2, r1, r2, a.len)
            h.prove(s2, 'equal strings hash alike', Eq(r1, r2))
K2 = [('vv', 'V', 'V'), ('sv', 'S', 'V'), ('vs', 'V', 'S'), ('ss', 'S', 'S')]
CONTRACTS = [('equal', c_eq, 'eq_' + n, a, b) for n, a, b in K2] + [('unequal', c_eq, 'ne_' + n, a, b, True) for n, a, b in K2 if a == b] + [('equal_self', c_eq_self, f, k) for f, k in (('eq_vv', 'V'), ('eq_ss', 'S'))]
CONTRACTS += [('less', c_lt, 'lt_' + n, a, b) for n, a, b in K2 if a == b]
CONTRACTS += [('hash', c_hash, f'hash_{p}{x}', f'hash_{p}{y}', x.upper(), y.upper()) for p in ('', 'nz_') for x in 'sv' for y in 'sv']
CONTRACTS += [('mix', c_mix)]
ASSUMPTIONS = ['strings are shorter than 2^40 bytes', 'memcmp compares exactly the given number of bytes']
