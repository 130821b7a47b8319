"""Contiguous growable sequences (Vec, Stack, Heap): {data, length, capacity}"""
from common import *

def offs(h, pre, S): return h.off(f"{pre}_data_{S}"), h.off(f"{pre}_length_{S}"), h.off(f"{pre}_capacity_{S}")
class V:
    """symbolic Vec object satisfying the representation invariant"""
    def __init__(s, h, st, S, name='v', ro=False, obj=None, pre='vec'):
        s.h = h; s.S = S; s.name = name
        s.od, s.ol, s.oc = offs(h, pre, S)
        s.obj = h.sreg(st, name, h.size(pre + '_' + S)) if obj is None else obj
        s.len = h.int(name + '.len', hi=MAXCAP); s.cap = h.int(name + '.cap', hi=MAXCAP)
        st.assume(s.len <= s.cap)
        s.data = h.areg(st, name + '.storage', 8, s.cap, heap=True)
        s.null = fresh_bool(name + '.null'); st.assume(Implies(s.null, Eq(s.cap, 0))); h.exists(st, s.data, Not(s.null))
        s.val = h.elems(st, s.data, live=(lambda k: And(Le(0, k), Lt(k, s.len))) if tracked(S) else None)
        if tracked(S) is False: pass
        h.put(st, s.obj, s.od, 8, Ptr(s.data, 0, 0, s.null))
        h.put(st, s.obj, s.ol, 8, s.len); h.put(st, s.obj, s.oc, 8, s.cap)
        if ro: h.ro(st, s.obj); h.ro(st, s.data)
    def p(s): return Ptr(s.obj, 0, 0)

def view(h, st, S, obj, pre='vec'):
    od, ol, oc = offs(h, pre, S)
    return h.get(st, obj, od, k='p'), h.get(st, obj, ol), h.get(st, obj, oc)

def check(h, st, S, obj, length, at, what, owned_extra=(), cap_min=None, leak=True, pre='vec'):
    """rep invariant and view of the Vec object obj: length elements, element k = at(k)"""
    d, l, c = view(h, st, S, obj, pre)
    if h.life: length = l
    h.prove(st, f'{what}: length', Eq(l, length))
    h.prove(st, f'{what}: length <= capacity', Le(l, c))
    if cap_min is not None: h.prove(st, f'{what}: capacity', Ge(c, cap_min))
    if d.r is None:
        h.prove(st, f'{what}: null storage has capacity 0', Eq(c, 0))
        if leak: h.heap_owned(st, owned_extra)
        return None
    r = st.reg(d.r)
    h.prove(st, f'{what}: storage is null only when the capacity is 0', Implies(d.n, Eq(c, 0)))
    h.prove(st, f'{what}: storage allocated, at its start', r.alive and r.heap and d.o == 0 and Eq(d.i, 0))
    h.prove(st, f'{what}: storage has room for capacity elements', Or(d.n, Le(c, r.count)))
    h.forall(st, f'{what}: every element has its value', lambda k: Implies(And(Le(0, k), Lt(k, length)), Eq(h.get(st, d.r, 0, i=k), at(k))))
    if tracked(S): h.live_only(st, d.r, lambda k: Lt(k, length), f'{what}: exactly the elements of the sequence are alive')
    if leak: h.heap_owned(st, [d] + list(owned_extra))
    return d

def seq(v): return lambda k: v.val(zi(k))

