"""The shuffle of C22, on the array engine."""
import z3
import loops
# ---- shuffle
from seqc import *
from seqc import check as seqcheck
class Perm:
    """the contents are a rearrangement of the elements"""
    def __init__(s, h, S, obj, leaf, v0, phi=None): s.phi = phi; s.h = h; s.S = S; s.obj = obj; s.leaf = leaf; s.v0 = v0
    def at(s, v, k):
        d, l, c = view(s.h, v.st, s.S, s.obj); return s.h.get(v.st, d.r, 0, i=k)
    def ghost0(s, v): return lambda k: loops.provenance(v.ex, zi(s.at(v, k)), s.leaf)
    def ghostn(s, v):
        P_ = fresh_fn('perm'); d, l, c = view(s.h, v.st, s.S, s.obj); base = v.st.reg(d.r).cells[0].v
        if isinstance(base, Base): v.ex.prov[base.fn.name()] = lambda k: P_(zi(k))
        return lambda k: P_(zi(k))
    def ghoststep(s, hv, v): return s.ghost0(v)
    def facts(s, v):
        d, l, c = view(s.h, v.st, s.S, s.obj); g = v.ghost
        if d.r is None: raise Unsupported('no storage')
        n = s.v0.len; inn = lambda k: And(Le(0, k), Lt(k, n))
        def gg(k):
            r = g(k)
            if r is None: raise Unsupported('contents are not a rearrangement of the elements')
            return r
        fs = [('elements are rearranged only', 1, lambda k: Implies(inn(k), And(Eq(s.at(v, k), s.v0.val(zi(gg(k)))), inn(gg(k))))),
              ('no element is duplicated', 2, lambda a, b: Implies(And(inn(a), inn(b), Ne(a, b)), Ne(gg(a), gg(b))))]
        if s.phi is not None: fs.append(('position within the sequence', 0, lambda: Le(zi(v.ex.norm(v.st, v.vals[s.phi], 64)), n)))
        if tracked(s.S): fs.append(('exactly the elements are alive', 1, lambda k: Implies(And(Le(0, k), Lt(k, c)), zb(Eq(zi(s.h.live_at(v.st, d.r, k)), LIVE)) == zb(inn(k)))))
        return fs
    def __repr__(s): return 'Perm'
def self_move(ex, st, ins, a, n):
    d = ex.check_access(st, a[0], 8, True); s = ex.check_access(st, a[1], 8, True); same = veq(d, s)
    ex.oblig(st, 'assign-to-constructed', Ne(ex.gget(st, d), RAW), 'assignment to a constructed element')
    ex.oblig(st, 'move-from-live', Or(same, Eq(ex.gget(st, s), LIVE)), 'element moved from while alive')
    v = ex.rd(st, s, 8, 'i'); ld, ls = ex.gget(st, d), ex.gget(st, s)
    ex.wr(st, d, 8, 'i', v); ex.gset(st, d, vite(same, ld, LIVE)); ex.gset(st, s, vite(same, ls, MOVED)); return ('val', a[0])
def rng_range(ex, st, ins, a, n):
    """callee contract of range(min, max): requires min < max, returns a number in between (proved by the contract range)"""
    ex.oblig(st, 'precondition', Lt(a[1], a[2]), 'the range is not empty'); r = fresh_int('j', 0, (1 << 64) - 1); st.assume(And(Le(a[1], r), Lt(r, a[2]))); return ('val', r)
def shuffle(h, S):
    h.ex.add_contract(r'_ZN3rpp3RNG6Stream5rangeI', rng_range)
    if tracked(S): h.ex.add_contract(r'trk_move_assign', self_move)
    st = h.state(); v = V(h, st, S); r = h.sreg(st, 'stream', h.size('stream')); h.put(st, r, h.off('stream_state'), 8, h.int('state'))
    leaf = lambda t: t.arg(0) if z3.is_app(t) and t.decl().name() == v.val.name() else None
    def cands(ex, L, st, mods):
        phis = [loc[1] for loc in sorted(mods, key=str) if loc[0] == 'phi' and next(i for i in L.phi if i.id == loc[1]).ty[0] == 'int' and L.width(st, loc) == 64]
        return [Perm(h, S, v.obj, leaf, v, p) for p in phis + [None]]
    h.ex.loop_inv = cands
    for s, _ in h.must_return(h.run(st, f'rng_shuffle_{S}', [Ptr(r), v.p()])):
        d, l, c = view(h, s, S, v.obj); sig = lambda k: loops.provenance(h.ex, zi(h.get(s, d.r, 0, i=k)), leaf); inn = lambda k: And(Le(0, k), Lt(k, v.len))
        seqcheck(h, s, S, v.obj, v.len, lambda k: v.val(zi(sig(k))), 'shuffled')
        h.forall(s, 'every element comes from the sequence', lambda k: Implies(inn(k), inn(sig(k)))); h.forall(s, 'no element appears twice', lambda a, b: Implies(And(inn(a), inn(b), Ne(a, b)), Ne(sig(a), sig(b))), n=2)
