"""C04: Queue. View: sequence q[k] = data[ring(k)], ring(k) = (last - length + k) mod capacity."""
from seqc import *
SRC = 'queue.cpp'
def offs(h, S): return [h.off(f'queue_{f}_{S}') for f in ('data', 'length', 'last', 'capacity')]
def ring(last, length, cap, k):
    i = simp(zi(last) - length + k)
    return Ite(i < 0, simp(i + cap), i) if z3.is_expr(i) else (i + cap if i < 0 else i)
def occupied(last, length, cap, j):
    """slot j holds an element"""
    return Ite(Le(length, last), And(Le(simp(zi(last) - length), j), Lt(j, last)), Or(Lt(j, last), Le(simp(zi(last) - length + cap), j)))
class Q:
    def __init__(s, h, st, S, name='q', ro=False):
        s.od, s.ol, s.oa, s.oc = offs(h, S)
        s.obj = h.sreg(st, name, h.size('queue_' + S))
        s.len = h.int(name + '.len', hi=MAXCAP); s.cap = h.int(name + '.cap', hi=MAXCAP); s.last = h.int(name + '.last', hi=MAXCAP)
        st.assume(s.len <= s.cap); st.assume(Or(s.last < s.cap, Eq(s.cap, 0)))
        s.data = h.areg(st, name + '.storage', 8, s.cap, heap=True)
        s.null = fresh_bool(name + '.null'); st.assume(Implies(s.null, Eq(s.cap, 0))); h.exists(st, s.data, Not(s.null))
        s.occ = lambda j: And(Le(0, j), Lt(j, s.cap), occupied(s.last, s.len, s.cap, j))
        s.raw = h.elems(st, s.data, live=s.occ if tracked(S) else None)
        s.val = lambda k: s.raw(zi(ring(s.last, s.len, s.cap, k)))
        h.put(st, s.obj, s.od, 8, Ptr(s.data, 0, 0, s.null))
        h.put(st, s.obj, s.ol, 8, s.len); h.put(st, s.obj, s.oa, 8, s.last); h.put(st, s.obj, s.oc, 8, s.cap)
        if ro: h.ro(st, s.obj); h.ro(st, s.data)
        h.ex.rings.append(s.cap)
    def p(s): return Ptr(s.obj)
    def idx(s, k): return ring(s.last, s.len, s.cap, k)
def view(h, st, S, obj):
    od, ol, oa, oc = offs(h, S)
    return h.get(st, obj, od, k='p'), h.get(st, obj, ol), h.get(st, obj, oa), h.get(st, obj, oc)
def check(h, st, S, obj, length, at, what, owned_extra=(), cap_min=None, leak=True):
    d, l, a, c = view(h, st, S, obj)
    h.prove(st, f'{what}: length', Eq(l, length))
    h.prove(st, f'{what}: length <= capacity', Le(l, c))
    h.prove(st, f'{what}: end position inside the ring', Or(Lt(a, c), Eq(c, 0)))
    if cap_min is not None: h.prove(st, f'{what}: capacity', Ge(c, cap_min))
    if d.r is None:
        h.prove(st, f'{what}: null storage has capacity 0', Eq(c, 0))
        if leak: h.heap_owned(st, owned_extra)
        return None
    r = st.reg(d.r)
    h.prove(st, f'{what}: storage is null only when the capacity is 0', Implies(d.n, Eq(c, 0)))
    h.prove(st, f'{what}: storage allocated, at its start', r.alive and r.heap and d.o == 0 and Eq(d.i, 0))
    h.prove(st, f'{what}: storage has room for capacity elements', Or(d.n, Le(c, r.count)))
    h.forall(st, f'{what}: every element has its value', lambda k: Implies(And(Le(0, k), Lt(k, length)), Eq(h.get(st, d.r, 0, i=ring(a, l, c, k)), at(k))))
    if tracked(S): h.live_only(st, d.r, lambda j: occupied(a, l, c, j), f'{what}: exactly the elements of the queue are alive')
    if leak: h.heap_owned(st, [d] + list(owned_extra))
    return d
def newq(h, st, S): return h.sreg(st, 'r', h.size('queue_' + S))
def c_ctor(h, S):
    st = h.state(); r = newq(h, st, S)
    for s, _ in h.must_return(h.run(st, f'queue_ctor_{S}', [Ptr(r)])): check(h, s, S, r, 0, lambda k: 0, 'empty queue')
def c_ctor_cap(h, S):
    st = h.state(); r = newq(h, st, S); n = h.int('n', hi=MAXCAP)
    for s, _ in h.must_return(h.run(st, f'queue_ctor_cap_{S}', [Ptr(r), n])): check(h, s, S, r, 0, lambda k: 0, 'queue with capacity', cap_min=n)
def c_init3(h, S):
    st = h.state(); r = newq(h, st, S); xs = [elem_arg(h, st, S, n) for n in 'abc']
    for s, _ in h.must_return(h.run(st, f'queue_init3_{S}', [Ptr(r)] + [x[0] for x in xs])):
        check(h, s, S, r, 3, lambda k: Ite(Eq(k, 0), xs[0][1], Ite(Eq(k, 1), xs[1][1], xs[2][1])), 'initialised')
def _append(h, S, fn, mkarg):
    st = h.state(); v = Q(h, st, S); st.assume(v.cap * 2 <= MAXCAP)
    arg, x = mkarg(h, st)
    for s, ret in h.must_return(h.run(st, fn, [v.p(), arg])):
        d = check(h, s, S, v.obj, simp(v.len + 1), lambda k: Ite(Lt(k, v.len), v.val(k), x), 'append')
        _, l, a, c = view(h, s, S, v.obj)
        h.prove(s, 'append: returns the new element', veq(ret, Ptr(d.r, ring(a, l, c, v.len), 0)) if d else False)
def c_push(h, S): _append(h, S, f'queue_push_{S}', lambda h, st: elem_arg(h, st, S))
def c_pushc(h, S): _append(h, S, f'queue_pushc_{S}', lambda h, st: elem_arg(h, st, S, ro=True))
def c_emplace(h, S):
    def mk(h, st): x = h.int('x'); return x, x
    _append(h, S, f'queue_emplace_{S}', mk)
def c_pop(h, S):
    st = h.state(); v = Q(h, st, S); st.assume(v.len > 0)
    for s, _ in h.must_return(h.run(st, f'queue_pop_{S}', [v.p()])): check(h, s, S, v.obj, simp(v.len - 1), lambda k: v.val(simp(k + 1)), 'pop')
    st = h.state(); v = Q(h, st, S); st.assume(Eq(v.len, 0))
    h.never_returns(h.run(st, f'queue_pop_{S}', [v.p()]))
def _gone(h, s, S, obj, d, what):
    dd = view(h, s, S, obj)[0]
    h.prove(s, what + ': the source no longer refers to the storage', dd.r is None or d is None or Or(dd.n, dd.r != d.r))
def c_move(h, S):
    st = h.state(); v = Q(h, st, S); r = newq(h, st, S)
    for s, _ in h.must_return(h.run(st, f'queue_move_{S}', [Ptr(r), v.p()])):
        d = check(h, s, S, r, v.len, v.val, 'move target'); check(h, s, S, v.obj, 0, lambda k: 0, 'move source', leak=False); _gone(h, s, S, v.obj, d, 'move')
def c_assign(h, S):
    st = h.state(); v = Q(h, st, S); t = Q(h, st, S, 't')
    for s, _ in h.must_return(h.run(st, f'queue_assign_{S}', [t.p(), v.p()])):
        d = check(h, s, S, t.obj, v.len, v.val, 'assignment target'); check(h, s, S, v.obj, 0, lambda k: 0, 'assignment source', leak=False); _gone(h, s, S, v.obj, d, 'assignment')
def c_dtor(h, S):
    st = h.state(); v = Q(h, st, S)
    for s, _ in h.must_return(h.run(st, f'queue_dtor_{S}', [v.p()])): h.heap_owned(s, [], 'storage released')
def c_clone(h, S):
    st = h.state(); v = Q(h, st, S, ro=True); r = newq(h, st, S)
    for s, _ in h.must_return(h.run(st, f'queue_clone_{S}', [Ptr(r), v.p()])):
        d = check(h, s, S, r, v.len, v.val, 'clone', owned_extra=[v.data])
        h.prove(s, 'clone: own storage', d is None or d.r != v.data)
        if tracked(S): h.live_only(s, v.data, v.occ, 'clone: source elements still alive')
def c_grow(h, S):
    st = h.state(); v = Q(h, st, S); st.assume(v.cap * 2 <= MAXCAP)
    for s, _ in h.must_return(h.run(st, f'queue_grow_{S}', [v.p()])): check(h, s, S, v.obj, v.len, v.val, 'grow', cap_min=simp(v.cap + 1))
def c_clear(h, S):
    st = h.state(); v = Q(h, st, S)
    for s, _ in h.must_return(h.run(st, f'queue_clear_{S}', [v.p()])): check(h, s, S, v.obj, 0, lambda k: 0, 'clear')
def c_reserve(h, S):
    st = h.state(); v = Q(h, st, S); n = h.int('n', hi=MAXCAP)
    for s, _ in h.must_return(h.run(st, f'queue_reserve_{S}', [v.p(), n])): check(h, s, S, v.obj, v.len, v.val, 'reserve', cap_min=n)
def c_erase(h, S):
    st = h.state(); v = Q(h, st, S); p, x = elem_arg(h, st, S, ro=True)
    # f: position of the first equal element (length if there is none)
    f = h.int('f', hi=MAXCAP); st.assume(And(f <= v.len, Implies(f < v.len, Eq(v.val(f), x))))
    k = z3.Int(fresh_name('q')); body = Implies(And(0 <= k, k < f), Ne(v.val(k), x))
    trig = [(v.raw.name(), 0, 1, simp(zi(v.last) - v.len)), (v.raw.name(), 0, 1, simp(zi(v.last) - v.len + v.cap))]
    st.q.append(QFact([k], body, [trig], 'first-equal'))
    rs = h.must_return(h.run(st, f'queue_erase_{S}', [v.p(), p]))
    for s, r in rs:
        r = h.ex.tobool(r)
        h.prove(s, 'erase: reports whether it was found', Eq(r, Lt(f, v.len)))
        n = Ite(Lt(f, v.len), simp(v.len - 1), v.len)
        check(h, s, S, v.obj, n, lambda k: Ite(Lt(k, f), v.val(k), v.val(simp(k + 1))), 'erase')
def c_observers(h, S):
    for fn, want in (('empty', lambda v: Eq(v.len, 0)), ('full', lambda v: Eq(v.len, v.cap)), ('length', lambda v: v.len), ('sameit', lambda v: Eq(v.len, 0))):
        st = h.state(); v = Q(h, st, S, ro=True)
        for s, r in h.must_return(h.run(st, f'queue_{fn}_{S}', [v.p()])):
            if fn != 'length': r = h.ex.tobool(r)
            h.prove(s, fn, Eq(r, want(v)))
def c_index(h, S):
    for fn in ('at', 'cat'):
        st = h.state(); v = Q(h, st, S, ro=True); i = h.int('i'); st.assume(i < v.len)
        for s, r in h.must_return(h.run(st, f'queue_{fn}_{S}', [v.p(), i])): h.prove(s, f'{fn}: address of element i', veq(r, Ptr(v.data, v.idx(i), 0)))
        st = h.state(); v = Q(h, st, S, ro=True); i = h.int('i'); st.assume(i >= v.len)
        h.never_returns(h.run(st, f'queue_{fn}_{S}', [v.p(), i]))
def c_ends(h, S):
    for fn, need, k in (('front', 1, lambda v: 0), ('cfront', 1, lambda v: 0), ('back', 1, lambda v: simp(v.len - 1)), ('cback', 1, lambda v: simp(v.len - 1)),
                        ('pen', 2, lambda v: simp(v.len - 2)), ('cpen', 2, lambda v: simp(v.len - 2))):
        st = h.state(); v = Q(h, st, S, ro=True); st.assume(v.len >= need)
        for s, r in h.must_return(h.run(st, f'queue_{fn}_{S}', [v.p()])): h.prove(s, fn, veq(r, Ptr(v.data, v.idx(k(v)), 0)))
        st = h.state(); v = Q(h, st, S, ro=True); st.assume(v.len < need)
        h.never_returns(h.run(st, f'queue_{fn}_{S}', [v.p()]))
def c_iterate(h, S):
    for fn in ('iterate', 'citerate'):
        st = h.state(); v = Q(h, st, S, ro=True)
        out = h.areg(st, 'out', 8, v.len); h.elems(st, out); n = h.sreg(st, 'n', 8)
        for s, _ in h.must_return(h.run(st, f'queue_{fn}_{S}', [v.p(), Ptr(out), Ptr(n)])):
            h.prove(s, 'iteration: number of steps', Eq(h.get(s, n, 0), v.len))
            h.forall(s, 'iteration: step k is element k', lambda k: Implies(And(Le(0, k), Lt(k, v.len)), Eq(h.get(s, out, 0, i=k), v.idx(k))))
    for fn, k, a in (('arrow', 0, []), ('carrow', 0, []), ('inc', 1, []), ('postinc', 1, [True]), ('postinc', 0, [False])):
        st = h.state(); v = Q(h, st, S, ro=True); st.assume(v.len >= 2)
        for s, r in h.must_return(h.run(st, f'queue_{fn}_{S}', [v.p()] + a)): h.prove(s, f'iterator {fn}', veq(r, Ptr(v.data, v.idx(k), 0)))

CONTRACTS = [(f.__name__[2:], f, S) for f in (c_ctor, c_ctor_cap, c_init3, c_push, c_pushc, c_emplace, c_pop, c_move, c_assign, c_dtor, c_clone, c_grow, c_clear,
    c_reserve, c_erase, c_observers, c_index, c_ends, c_iterate) for S in ELS if not (f is c_pushc and S == 'TK')]
