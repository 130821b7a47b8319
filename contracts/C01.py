"""C01: Vec. View: sequence of length_ elements at data_[0..length_)."""
from seqc import *
SRC = 'vec.cpp'

def c_ctor(h, S):
    st = h.state(); r = h.sreg(st, 'r', h.size('vec_' + S))
    for s, _ in h.must_return(h.run(st, f'vec_ctor_{S}', [Ptr(r)])):
        check(h, s, S, r, 0, lambda k: 0, 'empty array')
def c_ctor_cap(h, S):
    st = h.state(); r = h.sreg(st, 'r', h.size('vec_' + S)); n = h.int('n', hi=MAXCAP)
    for s, _ in h.must_return(h.run(st, f'vec_ctor_cap_{S}', [Ptr(r), n])):
        check(h, s, S, r, 0, lambda k: 0, 'array with capacity', cap_min=n)
def c_make(h, S):
    st = h.state(); r = h.sreg(st, 'r', h.size('vec_' + S)); n = h.int('n', hi=MAXCAP)
    for s, _ in h.must_return(h.run(st, f'vec_make_{S}', [Ptr(r), n])):
        check(h, s, S, r, n, lambda k: 0, 'make')
def c_init3(h, S):
    st = h.state(); r = h.sreg(st, 'r', h.size('vec_' + S))
    xs = [elem_arg(h, st, S, n) for n in 'abc']
    for s, _ in h.must_return(h.run(st, f'vec_init3_{S}', [Ptr(r)] + [x[0] for x in xs])):
        check(h, s, S, r, 3, lambda k: Ite(Eq(k, 0), xs[0][1], Ite(Eq(k, 1), xs[1][1], xs[2][1])), 'initializer list')
def _append(h, S, fn, mkarg):
    st = h.state(); v = V(h, st, S)
    st.assume(v.cap < MAXCAP)
    arg, x, src = mkarg(h, st)
    for s, ret in h.must_return(h.run(st, fn, [v.p(), arg])):
        d = check(h, s, S, v.obj, simp(v.len + 1), lambda k: Ite(Lt(k, v.len), v.val(zi(k)), x), 'append')
        h.prove(s, 'append: returns the new element', And(veq(ret, Ptr(d.r, v.len, 0)), True) if d else False)
        if src is not None and tracked(S):
            h.prove(s, 'append: source was moved from', Ne(zi(h.ex.gget(s, src)), RAW))
def c_push(h, S):
    def mk(h, st):
        p, x = elem_arg(h, st, S); return p, x, p
    _append(h, S, f'vec_push_{S}', mk)
def c_pushc(h, S):
    if S == 'TK': return
    def mk(h, st):
        p, x = elem_arg(h, st, S, ro=True); return p, x, None
    _append(h, S, f'vec_pushc_{S}', mk)
def c_emplace(h, S):
    def mk(h, st):
        x = h.int('x'); return x, x, None
    _append(h, S, f'vec_emplace_{S}', mk)
def c_pop(h, S):
    st = h.state(); v = V(h, st, S); st.assume(v.len > 0)
    for s, _ in h.must_return(h.run(st, f'vec_pop_{S}', [v.p()])):
        check(h, s, S, v.obj, simp(v.len - 1), seq(v), 'pop')
def c_pop_empty(h, S):
    st = h.state(); v = V(h, st, S); st.assume(Eq(v.len, 0))
    h.never_returns(h.run(st, f'vec_pop_{S}', [v.p()]))
def c_move(h, S):
    st = h.state(); v = V(h, st, S); r = h.sreg(st, 'r', h.size('vec_' + S))
    for s, _ in h.must_return(h.run(st, f'vec_move_{S}', [Ptr(r), v.p()])):
        d = check(h, s, S, r, v.len, seq(v), 'move target')
        check(h, s, S, v.obj, 0, lambda k: 0, 'move source', leak=False)
        dd, _, _ = view(h, s, S, v.obj)
        h.prove(s, 'move: the source no longer refers to the storage', dd.r is None or d is None or Or(dd.n, dd.r != d.r))
def c_assign(h, S):
    st = h.state(); v = V(h, st, S); t = V(h, st, S, 't')
    for s, _ in h.must_return(h.run(st, f'vec_assign_{S}', [t.p(), v.p()])):
        d = check(h, s, S, t.obj, v.len, seq(v), 'assignment target')
        check(h, s, S, v.obj, 0, lambda k: 0, 'assignment source', leak=False)
        dd, _, _ = view(h, s, S, v.obj)
        h.prove(s, 'assignment: the source no longer refers to the storage', dd.r is None or d is None or Or(dd.n, dd.r != d.r))
def c_dtor(h, S):
    st = h.state(); v = V(h, st, S)
    for s, _ in h.must_return(h.run(st, f'vec_dtor_{S}', [v.p()])):
        h.heap_owned(s, [], 'storage released')
def c_clone(h, S):
    st = h.state(); v = V(h, st, S, ro=True); r = h.sreg(st, 'r', h.size('vec_' + S))
    for s, _ in h.must_return(h.run(st, f'vec_clone_{S}', [Ptr(r), v.p()])):
        d = check(h, s, S, r, v.len, seq(v), 'clone', owned_extra=[v.data])
        h.prove(s, 'clone: own storage', d is None or d.r != v.data)
        if tracked(S): h.live_only(s, v.data, lambda k: Lt(k, v.len), 'clone: source elements still alive')
def c_grow(h, S):
    st = h.state(); v = V(h, st, S); st.assume(v.cap * 2 <= MAXCAP)
    for s, _ in h.must_return(h.run(st, f'vec_grow_{S}', [v.p()])):
        check(h, s, S, v.obj, v.len, seq(v), 'grow', cap_min=simp(v.cap + 1))
def c_clear(h, S):
    st = h.state(); v = V(h, st, S)
    for s, _ in h.must_return(h.run(st, f'vec_clear_{S}', [v.p()])):
        check(h, s, S, v.obj, 0, lambda k: 0, 'clear')
def c_reserve(h, S):
    st = h.state(); v = V(h, st, S); n = h.int('n', hi=MAXCAP)
    for s, _ in h.must_return(h.run(st, f'vec_reserve_{S}', [v.p(), n])):
        check(h, s, S, v.obj, v.len, seq(v), 'reserve', cap_min=n)
def c_resize(h, S):
    st = h.state(); v = V(h, st, S); n = h.int('n', hi=MAXCAP)
    for s, _ in h.must_return(h.run(st, f'vec_resize_{S}', [v.p(), n])):
        check(h, s, S, v.obj, n, lambda k: Ite(Lt(k, v.len), v.val(zi(k)), 0), 'resize')
def c_extend(h, S):
    st = h.state(); v = V(h, st, S); n = h.int('n', hi=MAXCAP); st.assume(v.len + n <= MAXCAP)
    for s, _ in h.must_return(h.run(st, f'vec_extend_{S}', [v.p(), n])):
        check(h, s, S, v.obj, simp(v.len + n), lambda k: Ite(Lt(k, v.len), v.val(zi(k)), 0), 'extend')
def c_observers(h, S):
    for fn, want in (('empty', lambda v: Eq(v.len, 0)), ('full', lambda v: Eq(v.len, v.cap)), ('length', lambda v: v.len),
                     ('capacity', lambda v: v.cap), ('bytes', lambda v: v.len * 8)):
        st = h.state(); v = V(h, st, S, ro=True)
        for s, r in h.must_return(h.run(st, f'vec_{fn}_{S}', [v.p()])):
            if z3.is_expr(want(v)) and z3.is_bool(want(v)): r = h.ex.tobool(r)
            h.prove(s, f'{fn}', Eq(r, want(v)))
            h.heap_owned(s, [v.data])
def c_index(h, S):
    for fn in ('at', 'cat'):
        st = h.state(); v = V(h, st, S, ro=True); i = h.int('i'); st.assume(i < v.len)
        for s, r in h.must_return(h.run(st, f'vec_{fn}_{S}', [v.p(), i])):
            h.prove(s, f'{fn}: address of element i', veq(r, Ptr(v.data, i, 0)))
        st = h.state(); v = V(h, st, S, ro=True); i = h.int('i'); st.assume(i >= v.len)
        h.never_returns(h.run(st, f'vec_{fn}_{S}', [v.p(), i]))
def c_ends(h, S):
    for fn, idx in (('front', lambda v: 0), ('cfront', lambda v: 0), ('back', lambda v: simp(v.len - 1)), ('cback', lambda v: simp(v.len - 1))):
        st = h.state(); v = V(h, st, S, ro=True); st.assume(v.len > 0)
        for s, r in h.must_return(h.run(st, f'vec_{fn}_{S}', [v.p()])):
            h.prove(s, f'{fn}', veq(r, Ptr(v.data, idx(v), 0)))
        st = h.state(); v = V(h, st, S, ro=True); st.assume(Eq(v.len, 0))
        h.never_returns(h.run(st, f'vec_{fn}_{S}', [v.p()]))
def c_iter(h, S):
    for fn, idx in (('begin', lambda v: 0), ('cbegin', lambda v: 0), ('end', lambda v: v.len), ('cend', lambda v: v.len), ('dataptr', lambda v: 0), ('cdataptr', lambda v: 0)):
        st = h.state(); v = V(h, st, S, ro=True)
        for s, r in h.must_return(h.run(st, f'vec_{fn}_{S}', [v.p()])):
            h.prove(s, f'{fn}', Or(And(v.null, True), veq(r, Ptr(v.data, idx(v), 0))))
    for fn in ('slice', 'cslice'):
        st = h.state(); v = V(h, st, S, ro=True); r = h.sreg(st, 'r', 16)
        for s, _ in h.must_return(h.run(st, f'vec_{fn}_{S}', [Ptr(r), v.p()])):
            h.prove(s, f'{fn}: length', Eq(h.get(s, r, 8), v.len))
            p = h.get(s, r, 0, k='p')
            h.prove(s, f'{fn}: start', Or(v.null, veq(p, Ptr(v.data, 0, 0))))

CONTRACTS = [(f.__name__[2:], f, S) for f in (c_ctor, c_ctor_cap, c_make, c_init3, c_push, c_pushc, c_emplace, c_pop, c_pop_empty, c_move, c_assign,
    c_dtor, c_clone, c_grow, c_clear, c_reserve, c_resize, c_extend, c_observers, c_index, c_ends, c_iter) for S in ELS if not (f is c_pushc and S == 'TK')]
