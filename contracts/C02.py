"""C02: Stack. View: sequence of length elements, the last one is the top."""
from seqc import *
SRC = 'stack.cpp'
PRE = 'stack'

import seqc
def check(*a, **k): return seqc.check(*a, pre=PRE, **k)
def c_ctor(h, S):
    st = h.state(); r = h.sreg(st, 'r', h.size('stack_' + S))
    for s, _ in h.must_return(h.run(st, f'stack_ctor_{S}', [Ptr(r)])):
        check(h, s, S, r, 0, lambda k: 0, 'empty array')
def c_ctor_cap(h, S):
    st = h.state(); r = h.sreg(st, 'r', h.size('stack_' + S)); n = h.int('n', hi=MAXCAP)
    for s, _ in h.must_return(h.run(st, f'stack_ctor_cap_{S}', [Ptr(r), n])):
        check(h, s, S, r, 0, lambda k: 0, 'array with capacity', cap_min=n)
def c_init3(h, S):
    st = h.state(); r = h.sreg(st, 'r', h.size('stack_' + S))
    xs = [elem_arg(h, st, S, n) for n in 'abc']
    for s, _ in h.must_return(h.run(st, f'stack_init3_{S}', [Ptr(r)] + [x[0] for x in xs])):
        check(h, s, S, r, 3, lambda k: Ite(Eq(k, 0), xs[0][1], Ite(Eq(k, 1), xs[1][1], xs[2][1])), 'initializer list')
def _append(h, S, fn, mkarg):
    st = h.state(); v = V(h, st, S, pre=PRE)
    st.assume(v.cap < MAXCAP)
    arg, x, src = mkarg(h, st)
    for s, ret in h.must_return(h.run(st, fn, [v.p(), arg])):
        d = check(h, s, S, v.obj, simp(v.len + 1), lambda k: Ite(Lt(k, v.len), v.val(zi(k)), x), 'append')
        h.prove(s, 'append: returns the new element', And(veq(ret, Ptr(d.r, v.len, 0)), True) if d else False)
        if src is not None and tracked(S):
            h.prove(s, 'append: source was moved from', Ne(zi(h.ex.gget(s, src)), RAW))
def c_push(h, S):
    def mk(h, st):
        p, x = elem_arg(h, st, S); return p, x, p
    _append(h, S, f'stack_push_{S}', mk)
def c_pushc(h, S):
    if S == 'TK': return
    def mk(h, st):
        p, x = elem_arg(h, st, S, ro=True); return p, x, None
    _append(h, S, f'stack_pushc_{S}', mk)
def c_emplace(h, S):
    def mk(h, st):
        x = h.int('x'); return x, x, None
    _append(h, S, f'stack_emplace_{S}', mk)
def c_pop(h, S):
    st = h.state(); v = V(h, st, S, pre=PRE); st.assume(v.len > 0)
    for s, _ in h.must_return(h.run(st, f'stack_pop_{S}', [v.p()])):
        check(h, s, S, v.obj, simp(v.len - 1), seq(v), 'pop')
def c_pop_empty(h, S):
    st = h.state(); v = V(h, st, S, pre=PRE); st.assume(Eq(v.len, 0))
    h.never_returns(h.run(st, f'stack_pop_{S}', [v.p()]))
def c_move(h, S):
    st = h.state(); v = V(h, st, S, pre=PRE); r = h.sreg(st, 'r', h.size('stack_' + S))
    for s, _ in h.must_return(h.run(st, f'stack_move_{S}', [Ptr(r), v.p()])):
        d = check(h, s, S, r, v.len, seq(v), 'move target')
        check(h, s, S, v.obj, 0, lambda k: 0, 'move source', leak=False)
        dd, _, _ = view(h, s, S, v.obj, PRE)
        h.prove(s, 'move: the source no longer refers to the storage', dd.r is None or d is None or Or(dd.n, dd.r != d.r))
def c_assign(h, S):
    st = h.state(); v = V(h, st, S, pre=PRE); t = V(h, st, S, 't', pre=PRE)
    for s, _ in h.must_return(h.run(st, f'stack_assign_{S}', [t.p(), v.p()])):
        d = check(h, s, S, t.obj, v.len, seq(v), 'assignment target')
        check(h, s, S, v.obj, 0, lambda k: 0, 'assignment source', leak=False)
        dd, _, _ = view(h, s, S, v.obj, PRE)
        h.prove(s, 'assignment: the source no longer refers to the storage', dd.r is None or d is None or Or(dd.n, dd.r != d.r))
def c_dtor(h, S):
    st = h.state(); v = V(h, st, S, pre=PRE)
    for s, _ in h.must_return(h.run(st, f'stack_dtor_{S}', [v.p()])):
        h.heap_owned(s, [], 'storage released')
def c_clone(h, S):
    st = h.state(); v = V(h, st, S, pre=PRE, ro=True); r = h.sreg(st, 'r', h.size('stack_' + S))
    for s, _ in h.must_return(h.run(st, f'stack_clone_{S}', [Ptr(r), v.p()])):
        d = check(h, s, S, r, v.len, seq(v), 'clone', owned_extra=[v.data])
        h.prove(s, 'clone: own storage', d is None or d.r != v.data)
        if tracked(S): h.live_only(s, v.data, lambda k: Lt(k, v.len), 'clone: source elements still alive')
def c_clear(h, S):
    st = h.state(); v = V(h, st, S, pre=PRE)
    for s, _ in h.must_return(h.run(st, f'stack_clear_{S}', [v.p()])):
        check(h, s, S, v.obj, 0, lambda k: 0, 'clear')
def c_observers(h, S):
    for fn, want in (('empty', lambda v: Eq(v.len, 0)), ('full', lambda v: Eq(v.len, v.cap)), ('length', lambda v: v.len)):
        st = h.state(); v = V(h, st, S, pre=PRE, ro=True)
        for s, r in h.must_return(h.run(st, f'stack_{fn}_{S}', [v.p()])):
            if z3.is_expr(want(v)) and z3.is_bool(want(v)): r = h.ex.tobool(r)
            h.prove(s, f'{fn}', Eq(r, want(v)))
            h.heap_owned(s, [v.data])
def c_top(h, S):
    for fn in ('top', 'ctop'):
        st = h.state(); v = V(h, st, S, pre=PRE, ro=True); st.assume(v.len > 0)
        for s, r in h.must_return(h.run(st, f'stack_{fn}_{S}', [v.p()])):
            h.prove(s, f'{fn}', veq(r, Ptr(v.data, simp(v.len - 1), 0)))
        st = h.state(); v = V(h, st, S, pre=PRE, ro=True); st.assume(Eq(v.len, 0))
        h.never_returns(h.run(st, f'stack_{fn}_{S}', [v.p()]))
def c_iter(h, S):
    for fn, idx in (('begin', lambda v: 0), ('cbegin', lambda v: 0), ('end', lambda v: v.len), ('cend', lambda v: v.len)):
        st = h.state(); v = V(h, st, S, pre=PRE, ro=True)
        for s, r in h.must_return(h.run(st, f'stack_{fn}_{S}', [v.p()])):
            h.prove(s, f'{fn}', Or(v.null, veq(r, Ptr(v.data, idx(v), 0))))

CONTRACTS = [(f.__name__[2:], f, S) for f in (c_ctor, c_ctor_cap, c_init3, c_push, c_pushc, c_emplace, c_pop, c_pop_empty, c_move, c_assign,
    c_dtor, c_clone, c_clear, c_observers, c_top, c_iter) for S in ELS if not (f is c_pushc and S == 'TK')]
