"""C10: Box (unique owner), Rc and Arc (shared owners), Atomic (sequential meaning).
View: nothing, or one object in one live allocation; for shared owners with a count equal to the number of handles."""
from ownc import *
SRC = 'box.cpp'
ASSUMPTIONS = ['fewer than 2^63 handles refer to one object', 'source and target of a move assignment are distinct handles, and the source is not stored inside the object the target owns',
               'the atomic operations are given their sequential meaning: what happens when handles are dropped by several threads at once is not claimed here']
MAXREF = (1 << 63) - 2
def prep(h): h.ex.const_alloc_scalar = True
class B:
    """an owner of kind P (box/rc/arc) of an S, null or holding a value; rc: its count"""
    def __init__(s, h, st, P, S, null, name='b', ro=False, share=None, handles=1):
        s.h = h; s.P = P; s.S = S; s.od = h.off(f'{P}_data_{S}'); s.null = null
        s.obj = h.sreg(st, name, h.size(f'{P}_{S}'))
        s.ovl = 0 if P == 'box' else h.off(f'{P}d_value_{S}'); s.orf = None if P == 'box' else h.off(f'{P}d_refs_{S}')
        if null: s.d = None; h.put(st, s.obj, s.od, 8, NULL)
        else:
            if share: s.d, s.val, s.refs = share.d, share.val, share.refs
            else:
                s.d = h.sreg(st, name + '.object', 8 if P == 'box' else h.size(f'{P}d_{S}'), heap=True)
                s.val = h.int(name + '.val'); hold(h, st, S, s.d, s.ovl, s.val)
                if P != 'box':
                    s.refs = fresh_int(name + '.refs', handles, MAXREF); h.put(st, s.d, s.orf, 8, s.refs)
            h.put(st, s.obj, s.od, 8, Ptr(s.d))
            if ro and P == 'box': h.ro(st, s.d)
        if ro: h.ro(st, s.obj)
    def p(s): return Ptr(s.obj)
def newb(h, st, P, S, name='r'): return h.sreg(st, name, h.size(f'{P}_{S}'))
def dptr(h, st, P, S, obj): return h.get(st, obj, h.off(f'{P}_data_{S}'), k='p')
def isnull(h, st, P, S, obj, what):
    p = dptr(h, st, P, S, obj); h.prove(st, what + ': empty', Or(p.r is None, p.n))
def object_ok(h, st, P, S, d, val, refs, what):
    r = st.reg(d); ov = 0 if P == 'box' else h.off(f'{P}d_value_{S}')
    h.prove(st, what + ': the allocation is live', r.alive)
    held(h, st, S, d, ov, val, what)
    if P != 'box': h.prove(st, what + ': reference count', Eq(h.ex.norm(st, h.get(st, d, h.off(f'{P}d_refs_{S}')), 64), refs))
def owns(h, st, P, S, obj, val, refs, what, same=None):
    """obj refers to a live object with this value and count"""
    p = dptr(h, st, P, S, obj)
    if p.r is None: return h.prove(st, what + ': refers to an object', False)
    h.prove(st, what + ': refers to the start of its object', And(Not(p.n), Eq(p.i, 0), p.o == 0))
    if same is not None: h.prove(st, what + ': refers to the same object', p.r == same)
    object_ok(h, st, P, S, p.r, val, refs, what)
    return p.r
def gone(h, st, P, S, b, what):
    """object destroyed and its storage released"""
    h.prove(st, what + ': the object is released', not st.reg(b.d).alive)
    shell(h, st, S, b.d, b.ovl, what)
def released(h, st, P, S, b, what):
    """one handle to b's object was dropped: gone with the last one, otherwise one less"""
    if b.null: return []
    if P == 'box': gone(h, st, P, S, b, what); return []
    if h.ex.valid(st, Eq(b.refs, 1)): gone(h, st, P, S, b, what); return []
    h.prove(st, what + ': not the last handle', Ne(b.refs, 1))
    object_ok(h, st, P, S, b.d, b.val, simp(zi(b.refs) - 1), what); return [b.d]
# ---- construction
def c_ctor(h, P, S):
    prep(h); st = h.state(); r = newb(h, st, P, S)
    for s, _ in h.must_return(h.run(st, f'{P}_ctor_{S}', [Ptr(r)])): isnull(h, s, P, S, r, 'default constructed')
def c_make(h, P, S):
    prep(h)
    for fn in ('value_ctor', 'args_ctor', 'make'):
        st = h.state(); r = newb(h, st, P, S)
        if fn == 'value_ctor': x, xv = elem_arg(h, st, S)
        else: x = xv = h.int('x')
        for s, _ in h.must_return(h.run(st, f'{P}_{fn}_{S}', [Ptr(r), x])):
            d = owns(h, s, P, S, r, xv, 1, fn); h.heap_owned(s, [d])
            if tracked(S) and fn == 'value_ctor': isalive(h, s, x.r, 0, False, 'the given value')
# ---- destruction, clear
def c_dtor(h, P, S):
    prep(h)
    for fn in ('dtor',) + (() if P == 'box' else ('clear',)):
        for null in (True, False):
            st = h.state(); b = B(h, st, P, S, null)
            for s, _ in h.must_return(h.run(st, f'{P}_{fn}_{S}', [b.p()])):
                own = released(h, s, P, S, b, fn); h.heap_owned(s, own)
                if fn == 'clear': isnull(h, s, P, S, b.obj, fn)
# ---- moves
def c_move(h, P, S):
    prep(h)
    for null in (True, False):
        st = h.state(); b = B(h, st, P, S, null); r = newb(h, st, P, S)
        for s, _ in h.must_return(h.run(st, f'{P}_move_{S}', [Ptr(r), b.p()])):
            isnull(h, s, P, S, b.obj, 'move source')
            if null: isnull(h, s, P, S, r, 'move target'); h.heap_owned(s, [])
            else: owns(h, s, P, S, r, b.val, None if P == 'box' else b.refs, 'move target', b.d); h.heap_owned(s, [b.d])
def c_assign(h, P, S, fn):
    prep(h); dup = fn == 'assign_dup'
    for tn in (True, False):
        for sn in (True, False):
            st = h.state(); t = B(h, st, P, S, tn, 'target'); b = B(h, st, P, S, sn, 'source')
            for s, _ in h.must_return(h.run(st, f'{P}_{fn}_{S}', [t.p(), b.p()])):
                own = released(h, s, P, S, t, 'old object of the target')
                if not dup: isnull(h, s, P, S, b.obj, 'assignment source')
                if sn: isnull(h, s, P, S, t.obj, 'assignment target'); h.heap_owned(s, own)
                else:
                    n = None if P == 'box' else simp(zi(b.refs) + (1 if dup else 0))
                    owns(h, s, P, S, t.obj, b.val, n, 'assignment target', b.d); h.heap_owned(s, own + [b.d])
                    if dup: owns(h, s, P, S, b.obj, b.val, n, 'duplicated handle', b.d)
    if P != 'box':
        st = h.state(); t = B(h, st, P, S, False, 'target', handles=2); b = B(h, st, P, S, False, 'source', share=t)
        for s, _ in h.must_return(h.run(st, f'{P}_{fn}_{S}', [t.p(), b.p()])):
            n = simp(zi(t.refs) - (0 if dup else 1))
            owns(h, s, P, S, t.obj, t.val, n, 'assignment between handles of one object', t.d); h.heap_owned(s, [t.d])
            if not dup: isnull(h, s, P, S, b.obj, 'assignment source')
            else: owns(h, s, P, S, b.obj, t.val, n, 'duplicated handle', t.d)
# ---- box only
def c_box(h, S):
    prep(h)
    for null in (True, False):
        st = h.state(); b = B(h, st, 'box', S, null); x = h.int('x')
        for s, _ in h.must_return(h.run(st, f'box_emplace_{S}', [b.p(), x])):
            released(h, s, 'box', S, b, 'old object'); d = owns(h, s, 'box', S, b.obj, x, None, 'emplaced'); h.heap_owned(s, [d])
        st = h.state(); b = B(h, st, 'box', S, null, ro=True); r = newb(h, st, 'box', S)
        for s, _ in h.must_return(h.run(st, f'box_clone_{S}', [Ptr(r), b.p()])):
            if null: isnull(h, s, 'box', S, r, 'clone'); h.heap_owned(s, [])
            else:
                d = owns(h, s, 'box', S, r, b.val, None, 'clone'); owns(h, s, 'box', S, b.obj, b.val, None, 'clone source', b.d)
                h.prove(s, 'the clone is a separate object', d != b.d); h.heap_owned(s, [d, b.d])
        if S == 'TC':
            st = h.state(); b = B(h, st, 'box', S, null); r = newb(h, st, 'box', S)
            for s, _ in h.must_return(h.run(st, 'box_derived_TC', [Ptr(r), b.p()])):
                isnull(h, s, 'box', S, b.obj, 'derived source')
                if null: isnull(h, s, 'box', S, r, 'from derived')
                else: owns(h, s, 'box', S, r, b.val, None, 'from derived', b.d)
# ---- shared only
def c_dup(h, P, S):
    prep(h)
    for null in (True, False):
        st = h.state(); b = B(h, st, P, S, null, ro=True); r = newb(h, st, P, S)
        for s, _ in h.must_return(h.run(st, f'{P}_dup_{S}', [Ptr(r), b.p()])):
            if null: isnull(h, s, P, S, r, 'dup'); isnull(h, s, P, S, b.obj, 'dup source')
            else:
                n = simp(zi(b.refs) + 1)
                owns(h, s, P, S, r, b.val, n, 'dup', b.d); owns(h, s, P, S, b.obj, b.val, n, 'dup source', b.d); h.heap_owned(s, [b.d])
    st = h.state(); b = B(h, st, P, S, False); r = newb(h, st, P, S)
    for s, _ in h.must_return(h.run(st, f'{P}_from_this_{S}', [Ptr(r), Ptr(b.d, 0, b.ovl)])):
        n = simp(zi(b.refs) + 1)
        owns(h, s, P, S, r, b.val, n, 'from_this', b.d); owns(h, s, P, S, b.obj, b.val, n, 'from_this original', b.d)
# ---- observers
def c_read(h, P, S):
    prep(h)
    for fn in ('deref', 'cderef', 'arrow', 'carrow'):
        st = h.state(); b = B(h, st, P, S, False, ro=True)
        for s, r in h.must_return(h.run(st, f'{P}_{fn}_{S}', [b.p()])): h.prove(s, fn + ' yields the object', veq(r, Ptr(b.d, 0, b.ovl)))
        st = h.state(); b = B(h, st, P, S, True, ro=True)
        h.never_returns(h.run(st, f'{P}_{fn}_{S}', [b.p()]))
    for null in (True, False):
        st = h.state(); b = B(h, st, P, S, null, ro=True)
        for s, r in h.must_return(h.run(st, f'{P}_ok_{S}', [b.p()])): h.prove(s, 'ok', zb(h.ex.tobool(r)) == zb(not null))
        if P == 'box': continue
        st = h.state(); b = B(h, st, P, S, null, ro=True)
        for s, r in h.must_return(h.run(st, f'{P}_references_{S}', [b.p()])): h.prove(s, 'references', Eq(h.ex.norm(s, r, 64), 0 if null else b.refs))
def c_atomic(h):
    M = 1 << 64
    for fn, na in (('load', 0), ('incr', 0), ('decr', 0), ('exchange', 1), ('cas', 2)):
        st = h.state(); a = h.sreg(st, 'a', 8); v = h.int('v'); h.put(st, a, 0, 8, v); xs = [h.int(f'x{i}') for i in range(na)]
        for s, r in h.must_return(h.run(st, 'atomic_' + fn, [Ptr(a)] + xs)):
            now = h.ex.norm(s, h.get(s, a, 0), 64); r = h.ex.norm(s, r, 64)
            inc = Ite(Eq(v, M - 1), 0, simp(zi(v) + 1)); dec = Ite(Eq(v, 0), M - 1, simp(zi(v) - 1))
            new, ret = dict(load=(v, v), incr=(inc, inc), decr=(dec, dec), exchange=(xs[0] if xs else 0, v), cas=(Ite(Eq(v, xs[0]), xs[1], v) if na == 2 else 0, v))[fn]
            h.prove(s, fn + ': new value', Eq(now, new)); h.prove(s, fn + ': result', Eq(r, ret))
PS = ['box', 'rc', 'arc']
CONTRACTS = [(f.__name__[2:], f, P, S) for f in (c_ctor, c_make, c_dtor, c_move, c_read) for P in PS for S in ELS] + [('assign', c_assign, P, S, 'assign') for P in PS for S in ELS] + \
    [('assign', c_assign, P, S, 'assign_dup') for P in PS[1:] for S in ELS] + [('dup', c_dup, P, S) for P in PS[1:] for S in ELS] + [('box', c_box, S) for S in ELS] + [('atomic', c_atomic)]
