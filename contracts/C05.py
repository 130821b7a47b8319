"""C05: Heap. View: the bag of elements; invariant: no element is less than its parent (so the root is a least element)."""
from seqc import *
from seqc import check as seqcheck
import loops
SRC = 'heap.cpp'
def par(k): return zi(simp((zi(k) - 1) / 2))
class HV(V):
    """Heap object in heap order"""
    def __init__(s, h, st, S, name='v', ro=False):
        V.__init__(s, h, st, S, name, ro, pre='heap')
        k = z3.Int(fresh_name('q'))
        st.q.append(QFact([k], Implies(And(0 < k, k < s.len), Not(Lt(s.val(k), s.val(par(k))))), [[(s.val.name(), 0, 1, z3.IntVal(0))]], 'heap-order'))

class Sift:
    """a sift loop: the contents are a rearrangement of the elements, in heap order except around position h"""
    def __init__(s, h, S, obj, phi, up, leaf, val, ok, e=None):
        s.h = h; s.S = S; s.obj = obj; s.phi = phi; s.up = up; s.leaf = leaf; s.val = val; s.okidx = ok; s.e = e or (lambda x: x)
    def data(s, v): return view(s.h, v.st, s.S, s.obj, 'heap')
    def at(s, v, k):
        d, l, c = s.data(v)
        return s.h.get(v.st, d.r, 0, i=k)
    def pos(s, v): return zi(s.e(v.ex.norm(v.st, v.vals[s.phi], 64)))
    def ghost0(s, v): return None if s.h.life else lambda k: loops.provenance(v.ex, zi(s.at(v, k)), s.leaf)
    def ghostn(s, v):
        if s.h.life: return None
        P = fresh_fn('perm'); d, l, c = s.data(v)
        base = v.st.reg(d.r).cells[0].v
        if isinstance(base, Base): v.ex.prov[base.fn.name()] = lambda k: P(zi(k))
        return lambda k: P(zi(k))
    def ghoststep(s, hv, v): return None if s.h.life else lambda k: loops.provenance(v.ex, zi(s.at(v, k)), s.leaf)
    def facts(s, v):
        d, l, c = s.data(v); n = l; p = s.pos(v); g = v.ghost
        if d.r is None: raise Unsupported("no storage")
        cap = v.st.reg(d.r).count
        at = lambda k: s.at(v, k)
        inn = lambda k: And(Le(0, k), Lt(k, n))
        def gg(k):
            r = g(k)
            if r is None: raise Unsupported("contents are not a rearrangement of the elements")
            return r
        excl = (lambda k: Ne(k, p)) if s.up else (lambda k: Ne(par(k), p))
        fs = [('sift position in range', 0, lambda: inn(p)),
              ('elements are rearranged only', 1, lambda k: Implies(inn(k), And(Eq(at(k), s.val(gg(k))), s.okidx(gg(k))))),
              ('no element is duplicated', 2, lambda a, b: Implies(And(inn(a), inn(b), Ne(a, b)), Ne(gg(a), gg(b)))),
              ('heap order outside the sift position', 1, lambda k: Implies(And(0 < zi(k), inn(k), excl(k)), Not(Lt(at(k), at(par(k)))))),
              ('children of the sift position are in order with its parent', 1, lambda k: Implies(And(0 < zi(k), inn(k), Eq(par(k), p), 0 < p), Not(Lt(at(k), at(par(p))))))]
        if s.h.life: fs = fs[:1]
        if tracked(s.S): fs.append(('exactly the elements are alive', 1, lambda k: Implies(And(Le(0, k), Lt(k, cap)), zb(Eq(zi(s.h.live_at(v.st, d.r, k)), LIVE)) == zb(inn(k)))))
        return fs
    def __repr__(s): return f'Sift(phi {s.phi}, {"up" if s.up else "down"})'
def sift(h, S, obj, leaf, val, ok, dirs):
    def cands(ex, L, st, mods):
        phis = [loc[1] for loc in sorted(mods, key=str) if loc[0] == 'phi' and next(i for i in L.phi if i.id == loc[1]).ty[0] == 'int' and L.width(st, loc) and L.width(st, loc) >= 32]
        d = view(h, st, S, obj, 'heap')[0]
        if not any(loc[0] == 'arr' and d.r == loc[1] and loc[2] == 0 for loc in mods): return []
        return [Sift(h, S, obj, p, up, leaf, val, ok) for up in dirs for p in phis]
    h.ex.loop_inv = cands

def check(h, st, S, obj, length, what, leaf, val, ok, **kw):
    """heap invariant, and the contents are a bijective rearrangement of val(i), i with ok(i)"""
    if h.life: return seqcheck(h, st, S, obj, length, lambda k: 0, what, pre='heap', **kw) or view(h, st, S, obj, 'heap')[0]
    d, l, c = view(h, st, S, obj, 'heap')
    sig = (lambda k: loops.provenance(h.ex, zi(h.get(st, d.r, 0, i=k)), leaf)) if d.r is not None else None
    def at(k):
        r = sig(k)
        if r is None: raise Unsupported("contents are not a rearrangement of the elements")
        return val(r)
    seqcheck(h, st, S, obj, length, at, what, pre='heap', **kw)
    if d.r is None: return d
    inn = lambda k: And(Le(0, k), Lt(k, length))
    h.forall(st, f'{what}: every element comes from the expected elements', lambda k: Implies(inn(k), ok(sig(k))))
    h.forall(st, f'{what}: no element appears twice', lambda a, b: Implies(And(inn(a), inn(b), Ne(a, b)), Ne(sig(a), sig(b))), n=2)
    h.forall(st, f'{what}: no element is less than its parent', lambda k: Implies(And(0 < zi(k), inn(k)), Not(Lt(h.get(st, d.r, 0, i=k), h.get(st, d.r, 0, i=par(k))))))
    return d
def leafof(v, extra=()):
    def leaf(t):
        for x, i in extra:
            if z3.is_expr(x) and t.eq(x): return i
        if z3.is_app(t) and t.decl().name() == v.val.name(): return t.arg(0)
        return None
    return leaf
def same(v):
    return dict(leaf=leafof(v), val=lambda i: v.val(zi(i)), ok=lambda i: And(Le(0, i), Lt(i, v.len)))
EMPTY = dict(leaf=lambda t: None, val=lambda i: 0, ok=lambda i: True)
def newh(h, st, S): return h.sreg(st, 'r', h.size('heap_' + S))

def c_lemma(h, S):
    """heap order makes the root a least element (induction over the position; the step)"""
    st = h.state(); v = HV(h, st, S); k = h.int('k'); st.assume(And(0 < k, k < v.len))
    j = z3.Int(fresh_name('q'))
    st.q.append(QFact([j], Implies(And(0 <= j, j < k), Not(Lt(v.val(j), v.val(z3.IntVal(0))))), [[(v.val.name(), 0, 1, z3.IntVal(0))]], 'induction-hypothesis'))
    h.prove(st, 'lemma: an element whose predecessors are not less than the root is not less than the root', Not(Lt(v.val(k), v.val(z3.IntVal(0)))))
    h.prove(st, 'lemma: the root itself', Not(Lt(v.val(z3.IntVal(0)), v.val(z3.IntVal(0)))))
def c_ctor(h, S):
    st = h.state(); r = newh(h, st, S)
    for s, _ in h.must_return(h.run(st, f'heap_ctor_{S}', [Ptr(r)])): check(h, s, S, r, 0, 'empty heap', **EMPTY)
def c_ctor_cap(h, S):
    st = h.state(); r = newh(h, st, S); n = h.int('n', hi=MAXCAP)
    for s, _ in h.must_return(h.run(st, f'heap_ctor_cap_{S}', [Ptr(r), n])): check(h, s, S, r, 0, 'heap with capacity', cap_min=n, **EMPTY)
def c_init3(h, S):
    st = h.state(); r = newh(h, st, S); xs = [elem_arg(h, st, S, n) for n in 'abc']
    def leaf(t):
        for i, (p, x) in enumerate(xs):
            if t.eq(x): return i
    for s, _ in h.must_return(h.run(st, f'heap_init3_{S}', [Ptr(r)] + [x[0] for x in xs])):
        check(h, s, S, r, 3, 'initialised', leaf, lambda i: Ite(Eq(i, 0), xs[0][1], Ite(Eq(i, 1), xs[1][1], xs[2][1])), lambda i: And(Le(0, i), Lt(i, 3)))
def _add(h, S, fn, mk):
    st = h.state(); v = HV(h, st, S); st.assume(v.cap * 2 <= MAXCAP); arg, x = mk(h, st)
    leaf = leafof(v, [(x, v.len)]); val = lambda i: Ite(Eq(i, v.len), x, v.val(zi(i))); ok = lambda i: And(Le(0, i), Le(i, v.len))
    sift(h, S, v.obj, leaf, val, ok, [True])
    for s, _ in h.must_return(h.run(st, fn, [v.p(), arg])): check(h, s, S, v.obj, simp(v.len + 1), 'insertion', leaf, val, ok)
def c_push(h, S): _add(h, S, f'heap_push_{S}', lambda h, st: elem_arg(h, st, S))
def c_emplace(h, S):
    def mk(h, st): x = h.int('x'); return x, x
    _add(h, S, f'heap_emplace_{S}', mk)
def c_pop(h, S):
    st = h.state(); v = HV(h, st, S); st.assume(v.len > 0)
    leaf = leafof(v); val = lambda i: v.val(zi(i)); ok = lambda i: And(Lt(0, i), Lt(i, v.len))
    sift(h, S, v.obj, leaf, val, ok, [False])
    for s, _ in h.must_return(h.run(st, f'heap_pop_{S}', [v.p()])): check(h, s, S, v.obj, simp(v.len - 1), 'removal of the top', leaf, val, ok)
    h.ex.loop_inv = None
    st = h.state(); v = HV(h, st, S); st.assume(Eq(v.len, 0))
    h.never_returns(h.run(st, f'heap_pop_{S}', [v.p()]))
def _gone(h, s, S, obj, d, what):
    dd, l, c = view(h, s, S, obj, 'heap')
    h.prove(s, what + ': the source is empty', And(Eq(l, 0), Eq(c, 0)))
    h.prove(s, what + ': the source no longer refers to the storage', dd.r is None or d.r is None or Or(dd.n, dd.r != d.r))
def c_move(h, S):
    st = h.state(); v = HV(h, st, S); r = newh(h, st, S)
    for s, _ in h.must_return(h.run(st, f'heap_move_{S}', [Ptr(r), v.p()])):
        d = check(h, s, S, r, v.len, 'move target', **same(v)); _gone(h, s, S, v.obj, d, 'move')
def c_assign(h, S):
    st = h.state(); v = HV(h, st, S); t = HV(h, st, S, 't')
    for s, _ in h.must_return(h.run(st, f'heap_assign_{S}', [t.p(), v.p()])):
        d = check(h, s, S, t.obj, v.len, 'assignment target', **same(v)); _gone(h, s, S, v.obj, d, 'assignment')
def c_dtor(h, S):
    st = h.state(); v = HV(h, st, S)
    for s, _ in h.must_return(h.run(st, f'heap_dtor_{S}', [v.p()])): h.heap_owned(s, [], 'storage released')
def c_clone(h, S):
    st = h.state(); v = HV(h, st, S, ro=True); r = newh(h, st, S)
    for s, _ in h.must_return(h.run(st, f'heap_clone_{S}', [Ptr(r), v.p()])):
        d = check(h, s, S, r, v.len, 'clone', owned_extra=[v.data], **same(v))
        h.prove(s, 'clone: own storage', d.r is None or d.r != v.data)
        if tracked(S): h.live_only(s, v.data, lambda k: Lt(k, v.len), 'clone: source elements still alive')
def c_grow(h, S):
    st = h.state(); v = HV(h, st, S); st.assume(v.cap * 2 <= MAXCAP)
    for s, _ in h.must_return(h.run(st, f'heap_grow_{S}', [v.p()])): check(h, s, S, v.obj, v.len, 'grow', cap_min=simp(v.cap + 1), **same(v))
def c_clear(h, S):
    st = h.state(); v = HV(h, st, S)
    for s, _ in h.must_return(h.run(st, f'heap_clear_{S}', [v.p()])): check(h, s, S, v.obj, 0, 'clear', **EMPTY)
def c_reserve(h, S):
    st = h.state(); v = HV(h, st, S); n = h.int('n', hi=MAXCAP)
    for s, _ in h.must_return(h.run(st, f'heap_reserve_{S}', [v.p(), n])): check(h, s, S, v.obj, v.len, 'reserve', cap_min=n, **same(v))
def c_observers(h, S):
    for fn, want in (('empty', lambda v: Eq(v.len, 0)), ('full', lambda v: Eq(v.len, v.cap)), ('length', lambda v: v.len)):
        st = h.state(); v = HV(h, st, S, ro=True)
        for s, r in h.must_return(h.run(st, f'heap_{fn}_{S}', [v.p()])):
            if fn != 'length': r = h.ex.tobool(r)
            h.prove(s, fn, Eq(r, want(v)))
    for fn, k in (('top', lambda v: 0), ('ctop', lambda v: 0), ('begin', lambda v: 0), ('cbegin', lambda v: 0), ('end', lambda v: v.len), ('cend', lambda v: v.len)):
        st = h.state(); v = HV(h, st, S, ro=True); st.assume(v.len > 0)
        for s, r in h.must_return(h.run(st, f'heap_{fn}_{S}', [v.p()])): h.prove(s, fn, veq(r, Ptr(v.data, k(v), 0)))
CONTRACTS = [(f.__name__[2:], f, S) for f in (c_lemma, c_ctor, c_ctor_cap, c_init3, c_push, c_emplace, c_pop, c_move, c_assign, c_dtor, c_clone, c_grow, c_clear, c_reserve, c_observers) for S in ELS]
