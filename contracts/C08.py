"""C08: Opt and Storage. View: nothing, or one value; the element is alive exactly while the optional is engaged."""
from ownc import *
SRC = 'opt.cpp'
class O:
    def __init__(s, h, st, S, name='o', ro=False):
        s.h = h; s.S = S; s.oo = h.off('opt_ok_' + S); s.ov = h.off('opt_value_' + S)
        s.obj = h.sreg(st, name, h.size('opt_' + S)); s.ok = fresh_bool(name + '.ok'); s.val = h.int(name + '.val')
        h.put(st, s.obj, s.oo, 1, Ite(s.ok, 1, 0)); hold(h, st, S, s.obj, s.ov, s.val, s.ok)
        if ro: h.ro(st, s.obj)
    def p(s): return Ptr(s.obj, 0, 0)
def newo(h, st, S): return h.sreg(st, 'r', h.size('opt_' + S))
def check(h, st, S, obj, ok, val, what):
    oo, ov = h.off('opt_ok_' + S), h.off('opt_value_' + S)
    f = h.ex.norm(st, h.get(st, obj, oo, w=1), 8)
    h.prove(st, what + ': engaged flag is a truth value', Or(Eq(f, 0), Eq(f, 1)))
    if h.life: ok = Ne(f, 0)
    h.prove(st, what + ': engaged', zb(Ne(f, 0)) == zb(ok))
    if ok is False: shell(h, st, S, obj, ov, what)
    else: held(h, st, S, obj, ov, val, what, live=ok)
def c_ctor(h, S):
    st = h.state(); r = newo(h, st, S)
    for s, _ in h.must_return(h.run(st, 'opt_ctor_' + S, [Ptr(r)])): check(h, s, S, r, False, 0, 'empty optional')
def c_value_ctor(h, S):
    for fn in ('value_ctor', 'copy_ctor'):
        if fn == 'copy_ctor' and S != 'TC': continue
        st = h.state(); r = newo(h, st, S); x, xv = elem_arg(h, st, S)
        if fn == 'copy_ctor': h.ro(st, x.r)
        for s, _ in h.must_return(h.run(st, f'opt_{fn}_{S}', [Ptr(r), x])):
            check(h, s, S, r, True, xv, 'optional of a value')
            if tracked(S): isalive(h, s, x.r, 0, fn == 'copy_ctor', 'the given value')
def c_emplace_ctor(h, S):
    st = h.state(); r = newo(h, st, S); x = h.int('x')
    for s, _ in h.must_return(h.run(st, 'opt_emplace_ctor_' + S, [Ptr(r), x])): check(h, s, S, r, True, x, 'optional constructed in place')
def c_dtor(h, S):
    st = h.state(); o = O(h, st, S)
    for s, _ in h.must_return(h.run(st, 'opt_dtor_' + S, [o.p()])): shell(h, s, S, o.obj, o.ov, 'destroyed optional')
def c_after_move(h, S):
    """an optional whose value was moved out can be destroyed, cleared, assigned to and given a new value"""
    def moved():
        st = h.state(); o = O(h, st, S)
        st.wreg(o.obj).cells[('L', o.ov)] = Cell(0, 'g', Ite(o.ok, MOVED, RAW)); return st, o
    st, o = moved()
    for s, _ in h.must_return(h.run(st, 'opt_dtor_' + S, [o.p()])): shell(h, s, S, o.obj, o.ov, 'destroyed moved-from optional')
    st, o = moved()
    for s, _ in h.must_return(h.run(st, 'opt_clear_' + S, [o.p()])): check(h, s, S, o.obj, False, 0, 'cleared moved-from optional')
    st, o = moved(); x = h.int('x')
    for s, _ in h.must_return(h.run(st, 'opt_emplace_' + S, [o.p(), x])): check(h, s, S, o.obj, True, x, 'value given to a moved-from optional')
    st, o = moved(); q = O(h, st, S, 'src')
    for s, _ in h.must_return(h.run(st, 'opt_assign_' + S, [o.p(), q.p()])): check(h, s, S, o.obj, q.ok, q.val, 'assignment to a moved-from optional')
def c_clear(h, S):
    st = h.state(); o = O(h, st, S)
    for s, _ in h.must_return(h.run(st, 'opt_clear_' + S, [o.p()])): check(h, s, S, o.obj, False, 0, 'cleared optional')
def c_move(h, S):
    st = h.state(); o = O(h, st, S); r = newo(h, st, S)
    for s, _ in h.must_return(h.run(st, 'opt_move_' + S, [Ptr(r), o.p()])):
        check(h, s, S, r, o.ok, o.val, 'move target'); shell(h, s, S, o.obj, o.ov, 'move source')
def c_assign(h, S):
    st = h.state(); o = O(h, st, S, 'src'); t = O(h, st, S, 'dst')
    for s, _ in h.must_return(h.run(st, 'opt_assign_' + S, [t.p(), o.p()])):
        check(h, s, S, t.obj, o.ok, o.val, 'assignment target'); shell(h, s, S, o.obj, o.ov, 'assignment source')
def c_assign_value(h, S):
    st = h.state(); t = O(h, st, S); x, xv = elem_arg(h, st, S)
    for s, _ in h.must_return(h.run(st, 'opt_assign_value_' + S, [t.p(), x])):
        check(h, s, S, t.obj, True, xv, 'assignment of a value')
        if tracked(S): isalive(h, s, x.r, 0, False, 'the given value')
def c_emplace(h, S):
    st = h.state(); t = O(h, st, S); x = h.int('x')
    for s, _ in h.must_return(h.run(st, 'opt_emplace_' + S, [t.p(), x])): check(h, s, S, t.obj, True, x, 'emplaced value')
def c_clone(h, S):
    fns = ['clone'] + (['copy'] if S == 'u64' else [])
    for fn in fns:
        st = h.state(); o = O(h, st, S, ro=True); r = newo(h, st, S)
        for s, _ in h.must_return(h.run(st, f'opt_{fn}_{S}', [Ptr(r), o.p()])):
            check(h, s, S, r, o.ok, o.val, fn); check(h, s, S, o.obj, o.ok, o.val, fn + ' source')
    if S == 'u64':
        st = h.state(); o = O(h, st, S, 'src', ro=True); t = O(h, st, S, 'dst')
        for s, _ in h.must_return(h.run(st, 'opt_copy_assign_u64', [t.p(), o.p()])): check(h, s, S, t.obj, o.ok, o.val, 'copy assignment')
def c_read(h, S):
    for fn in ('deref', 'cderef', 'arrow', 'carrow'):
        st = h.state(); o = O(h, st, S, ro=True); st.assume(o.ok)
        for s, r in h.must_return(h.run(st, f'opt_{fn}_{S}', [o.p()])): h.prove(s, fn + ' refers to the held value', veq(r, Ptr(o.obj, 0, o.ov)))
        st = h.state(); o = O(h, st, S, ro=True); st.assume(Not(o.ok))
        h.never_returns(h.run(st, f'opt_{fn}_{S}', [o.p()]))
    st = h.state(); o = O(h, st, S, ro=True); 
    for s, r in h.must_return(h.run(st, f'opt_ok_{S}', [o.p()])): h.prove(s, 'ok', zb(h.ex.tobool(r)) == o.ok)
    st = h.state(); o = O(h, st, S, ro=True); x, xv = elem_arg(h, st, S, ro=True)
    for s, r in h.must_return(h.run(st, f'opt_value_or_{S}', [o.p(), x])):
        t = h.ex.valid(s, o.ok)
        h.prove(s, 'value_or refers to the held value or the alternative', And(o.ok, veq(r, Ptr(o.obj, 0, o.ov))) if t else And(Not(o.ok), veq(r, x)))
def c_storage(h, S):
    def mk(live):
        st = h.state(); r = h.sreg(st, 'st', 8); v = h.int('v'); hold(h, st, 'TC', r, 0, v, live); return st, r, v
    for fn in ('ctor', 'construct'):
        st, r, v = mk(False); x = h.int('x')
        for s, _ in h.must_return(h.run(st, f'sto_{fn}_TC', [Ptr(r), x])): held(h, s, 'TC', r, 0, x, fn)
    st, r, v = mk(True)
    for s, _ in h.must_return(h.run(st, 'sto_destruct_TC', [Ptr(r)])): shell(h, s, 'TC', r, 0, 'destruct')
    for fn in ('deref', 'cderef', 'arrow', 'carrow', 'data', 'mdata'):
        st, r, v = mk(True); h.ro(st, r)
        for s, q in h.must_return(h.run(st, f'sto_{fn}_TC', [Ptr(r)])): h.prove(s, fn + ' is the address of the storage', veq(q, Ptr(r)))
CONTRACTS = [(f.__name__[2:], f, S) for f in (c_ctor, c_value_ctor, c_emplace_ctor, c_dtor, c_after_move, c_clear, c_move, c_assign, c_assign_value, c_emplace, c_clone, c_read) for S in ELS if not (f in (c_dtor, c_after_move) and not tracked(S))] + [('storage', c_storage, 'TC')]
