"""C22: random samples lie in their range and cover it, equal seeds give equal sequences, a shuffle is a permutation."""
import re
import z3
from contract import H
from scal import HS, F32, F64, bv, simp as zsimp
SRC = 'rng.cpp'
HCLSOF = lambda e: H if e[0] == 'shuffle' else HS
ASSUMPTIONS = ['the range given to range() is not empty, the probability given to coin_flip() is not NaN', 'storage of 2^40 elements or more cannot be obtained']
TRUSTED = ['a moved-from element may be move-assigned to itself (the swap of an element with itself, as std::swap does)']
CONTRACTS = []
W = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}
I64 = ('int', 64)
def stream(h):
    h.mode('fp'); st = h.state(); x = h.bv('state', 64); r = h.obj(st, 'r', h.const('size_stream')); off = h.const('off_stream_state'); h.put(st, r, off, x, I64)
    return st, r, x, (lambda s: bv(h.get(s, r, off, I64), 64))
HASH = z3.Function('squirrel5', z3.BitVecSort(64), z3.BitVecSort(64))
def opaque_hash(h):
    """callee contract of the hash: some permutation of the 64-bit numbers (proved by the contract hash)"""
    h.ex.add_contract(r'_ZN3rpp4Hash9squirrel5E', lambda ex, st, ins, a, n: HASH(bv(a[0], 64)))
def free(t, out=None, seen=None):
    out = set() if out is None else out; seen = set() if seen is None else seen
    if t.get_id() in seen: return out
    seen.add(t.get_id())
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(t.decl().name())
    for c in t.children(): free(c, out, seen)
    return out
def nodes(t):
    out, seen = [], set()
    def go(e):
        if e.get_id() in seen: return
        seen.add(e.get_id())
        for c in e.children(): go(c)
        out.append(e)
    go(t); return out
def occurs(t, x): return any(e.eq(x) for e in nodes(t))
def peel(t, x):
    """t as a chain of steps, each a function of the previous step alone: [(step as a term over v, v)], from x to t"""
    v = z3.BitVec('v!', 64); cuts = []
    for e in nodes(t):
        if z3.is_bv(e) and e.size() == 64 and occurs(e, x) and not occurs(z3.substitute(t, (e, v)), x): cuts.append(e)
    steps = []
    for a, b in zip(cuts, cuts[1:]): steps.append((z3.substitute(b, (a, v)), v))
    return steps if cuts and cuts[0].eq(x) and cuts[-1].eq(t) else None
def injective(step, v):
    if z3.is_app_of(step, z3.Z3_OP_BMUL) and step.num_args() == 2:
        a, b = step.children()
        if z3.is_bv_value(b): a, b = b, a
        if z3.is_bv_value(a) and b.eq(v): return a.as_long() % 2 == 1
    w = z3.BitVec('w!', 64); s = z3.Solver(); s.set('timeout', 20000); s.add(step == z3.substitute(step, (v, w)), v != w)
    return s.check() == z3.unsat
def hash_(h):
    st, r, x, state = stream(h); n = 0; h.ex.raw = True   # keep the steps of the hash apart
    for s, v in h.must_return(h.run(st, 'rng_next', [r])):
        t = state(s); n += 1
        h.prove(s, 'the sample is the new state', bv(v, 64) == t)
        h.prove(s, 'the next state depends on nothing but the state', z3.BoolVal(free(t) <= {'state'}))
        p = peel(t, x)
        if p is None: h.prove(s, 'the next state is a chain of invertible steps', z3.BoolVal(False)); continue
        for i, (e, w) in enumerate(p):
            h.prove(s, f'the step is injective ({i})', z3.BoolVal(injective(e, w)))
    h.prove(st, 'one behaviour', z3.BoolVal(n == 1))
def seeds(h):
    for f in ('rng_seeded', 'rng_seed'):
        st, r, x, state = stream(h); k = h.bv('seed', 64)
        for s, _ in h.must_return(h.run(st, f, [r, k])): h.prove(s, 'a seeded stream is determined by its seed', z3.BoolVal(free(state(s)) == {'seed'}))
def sample(h, f, extra=()):
    """-> (state, result over the random word w): the result depends on nothing but the word drawn from the stream"""
    opaque_hash(h); st, r, x, state = stream(h)
    w = z3.BitVec('word', 64)
    def go(pre):
        s0 = st.copy(); s0.assume(pre)
        for s, v in h.must_return(h.run(s0, f, [r] + list(extra))):
            t = state(s); sub = lambda e: z3.substitute(e, (t, w)) if z3.is_expr(e) else e
            if not z3.is_expr(v) and not isinstance(v, (int, bool)): v = None
            vv = sub(v); s.pc = [sub(c) if z3.is_expr(c) else c for c in s.pc]
            h.prove(s, f'{f}: the stream advances and the result depends on the drawn word alone', z3.BoolVal(not occurs(t, w) and occurs(t, x) and not (z3.is_expr(vv) and occurs(vv, x))))
            yield s, vv
    return st, w, go
def unit(h, T):
    S = F32 if T == 'f32' else F64; st, w, go = sample(h, f'rng_unit_{T}'); val = lambda q: z3.FPVal(q, S); paths = []
    for s, v in go(True):
        h.prove(s, 'a unit sample is at least 0', z3.fpGEQ(v, val(0.0))); h.prove(s, 'a unit sample is less than 1', z3.fpLT(v, val(1.0))); paths.append((list(s.pc), v))
    for i in range(8):
        ok = False
        for pc, v in paths:
            s = z3.Solver(); s.set('timeout', 20000); s.add(*[c for c in pc if z3.is_expr(c)]); s.add(z3.fpGEQ(v, val(i / 8)), z3.fpLT(v, val((i + 1) / 8))); ok = ok or s.check() == z3.sat
        h.prove(h.state(), f'samples reach every eighth of [0, 1) ({i})', z3.BoolVal(ok))
def flip(h, T):
    S = F32 if T == 'f32' else F64; p = z3.FP('p', S); st, w, go = sample(h, f'rng_flip_{T}', [p]); val = lambda q: z3.FPVal(q, S)
    B = lambda v: v if z3.is_expr(v) and z3.is_bool(v) else (bv(v, 1) == 1 if not isinstance(v, bool) else z3.BoolVal(v))
    for s, v in go(z3.fpGEQ(p, val(1.0))): h.prove(s, 'a certain event happens', B(v))
    for s, v in go(z3.fpLEQ(p, val(0.0))): h.prove(s, 'an impossible event does not happen', z3.Not(B(v)))
def integer(h, T):
    n = W[T]; st, w, go = sample(h, f'rng_integer_{T}'); t = z3.BitVec('target', n)
    for s, v in go(True): h.prove(s, 'every value is reachable', z3.substitute(bv(v, n), (w, z3.ZeroExt(64 - n, t) if n < 64 else t)) == t)
def range_(h, T):
    n = W[T]; a, b = z3.BitVecs('a b', n); st, w, go = sample(h, f'rng_range_{T}', [a, b]); lt = z3.ULT if T[0] == 'u' else (lambda x, y: x < y); le = z3.ULE if T[0] == 'u' else (lambda x, y: x <= y)
    ext = (lambda x: x) if n == 64 else ((lambda x: z3.ZeroExt(64 - n, x)) if T[0] == 'u' else (lambda x: z3.SignExt(64 - n, x))); t = z3.BitVec('target', n)
    for s, v in go(lt(a, b)):
        v = bv(v, n); d = ext(b) - ext(a)
        # facts about the remainder, stated for the word and the span
        h.prove(s, 'a sample is not below the range', le(a, v)); h.prove(s, 'a sample is below the end of the range', lt(v, b))
        s2 = s.copy(); s2.assume(z3.And(le(a, t), lt(t, b))); k = ext(t) - ext(a)
        h.prove(s2, 'every value of the range is reachable', z3.substitute(v, (w, k)) == t)
CONTRACTS += [('hash', hash_), ('seeds', seeds)] + [('unit', unit, T) for T in ('f32', 'f64')] + [('flip', flip, T) for T in ('f32', 'f64')] + [('integer', integer, T) for T in W] + [('range', range_, T) for T in W]

from shufflec import shuffle
CONTRACTS += [('shuffle', shuffle, S) for S in ('u64', 'TK')]
