"""C03: Array and Slice. Array view: N elements in order; Slice view: (start, length) of some storage."""
from seqc import *
SRC = 'arr.cpp'
ARRS = ['u64_1', 'u64_7', 'TC_1', 'TC_5', 'TK_2', 'TK_5', 'u64_100']
def T(S): return S.split('_')[0]
def trk(S): return T(S) != 'u64'
class A:
    def __init__(s, h, st, S, name='a', ro=False, raw=False):
        s.n = h.const('len_arr_' + S)
        s.r = h.areg(st, name, 8, s.n)
        if not raw: s.val = h.elems(st, s.r, live=(lambda k: And(Le(0, k), Lt(k, s.n))) if trk(S) else None)
        if ro: h.ro(st, s.r)
    def p(s): return Ptr(s.r, 0, 0)
def acheck(h, st, S, a, at, what):
    h.forall(st, f'{what}: every element has its value', lambda k: Eq(h.get(st, a.r, 0, i=k), at(k)), lo=0, hi=a.n)
    if trk(S): h.live_only(st, a.r, lambda k: Lt(k, a.n), f'{what}: all elements are alive')
def c_ctor(h, S):
    st = h.state(); r = A(h, st, S, 'r', raw=True)
    for s, _ in h.must_return(h.run(st, f'arr_ctor_{S}', [r.p()])): acheck(h, s, S, r, lambda k: 0, 'default')
def c_dtor(h, S):
    st = h.state(); a = A(h, st, S)
    for s, _ in h.must_return(h.run(st, f'arr_dtor_{S}', [a.p()])):
        if trk(S): h.forall(s, 'destroyed', lambda k: Eq(h.live_at(s, a.r, k), RAW), lo=0, hi=a.n)
        else: acheck(h, s, S, a, lambda k: a.val(zi(k)), 'destroyed')
def _xfer(h, S, fn, assign, const, what):
    st = h.state(); a = A(h, st, S, ro=const); r = A(h, st, S, 'r', raw=not assign)
    for s, _ in h.must_return(h.run(st, fn, [r.p(), a.p()])):
        acheck(h, s, S, r, lambda k: a.val(zi(k)), what)
        if const: acheck(h, s, S, a, lambda k: a.val(zi(k)), what + ' source')
        elif trk(S): h.forall(s, what + ': source elements stay destructible', lambda k: Ne(h.live_at(s, a.r, k), RAW), lo=0, hi=a.n)
def c_move(h, S): _xfer(h, S, f'arr_move_{S}', False, False, 'move')
def c_assign(h, S): _xfer(h, S, f'arr_assign_{S}', True, False, 'move assignment')
def c_clone(h, S): _xfer(h, S, f'arr_clone_{S}', False, True, 'clone')
def c_copy(h, S): _xfer(h, S, f'arr_copy_{S}', False, True, 'copy')
def c_cassign(h, S): _xfer(h, S, f'arr_cassign_{S}', True, True, 'copy assignment')
def c_init(h, S, c):
    st = h.state(); r = A(h, st, S, 'r', raw=True)
    xs = [elem_arg(h, st, T(S), 'x%d' % i, ro=bool(c)) for i in range(r.n)]
    def at(k):
        e = zi(0)
        for i in range(r.n): e = Ite(Eq(k, i), xs[i][1], e)
        return e
    for s, _ in h.must_return(h.run(st, f'arr_init{c}_{S}', [r.p()] + [x[0] for x in xs])): acheck(h, s, S, r, at, 'initialised')
def c_index(h, S):
    for fn in ('at', 'cat'):
        st = h.state(); a = A(h, st, S, ro=True); i = h.int('i'); st.assume(i < a.n)
        for s, r in h.must_return(h.run(st, f'arr_{fn}_{S}', [a.p(), i])): h.prove(s, f'{fn}: element i', veq(r, Ptr(a.r, i, 0)))
        st = h.state(); a = A(h, st, S, ro=True); i = h.int('i'); st.assume(i >= a.n)
        h.never_returns(h.run(st, f'arr_{fn}_{S}', [a.p(), i]))
def c_views(h, S):
    for fn, e in (('data', 0), ('cdata', 0), ('begin', 0), ('cbegin', 0), ('end', 1), ('cend', 1)):
        st = h.state(); a = A(h, st, S, ro=True)
        for s, r in h.must_return(h.run(st, f'arr_{fn}_{S}', [a.p()])): h.prove(s, fn, veq(r, Ptr(a.r, a.n * e, 0)))
    st = h.state(); a = A(h, st, S, ro=True)
    for s, r in h.must_return(h.run(st, f'arr_length_{S}', [a.p()])): h.prove(s, 'length', Eq(r, a.n))
    for fn in ('slice', 'cslice'):
        st = h.state(); a = A(h, st, S, ro=True); r = h.sreg(st, 'r', 16)
        for s, _ in h.must_return(h.run(st, f'arr_{fn}_{S}', [Ptr(r), a.p()])):
            h.prove(s, f'{fn}: length', Eq(h.get(s, r, h.off('slice_length_u64')), a.n)); h.prove(s, f'{fn}: start', veq(h.get(s, r, h.off('slice_data_u64'), k='p'), Ptr(a.r, 0, 0)))

SLS = ['u64', 'cu64', 'TC', 'u8', 'cu8']
class SL:
    def __init__(s, h, st, S, name='s', ro=True, nonnull=False):
        s.w = 1 if 'u8' in S else 8
        s.len = h.int(name + '.len', hi=MAXCAP); s.base = h.int(name + '.base', hi=MAXCAP); cnt = h.int(name + '.n', hi=2 * MAXCAP)
        st.assume(And(s.base + s.len <= cnt))
        s.data = h.areg(st, name + '.storage', s.w, cnt); h.elems(st, s.data, w=s.w); h.ro(st, s.data)
        s.null = False if nonnull else fresh_bool('null'); st.assume(Implies(s.null, Eq(s.len, 0)))
        s.obj = h.sreg(st, name, h.size('slice_' + S)); s.od, s.ol = h.off('slice_data_' + S), h.off('slice_length_' + S)
        s.ptr = Ptr(s.data, s.base, 0, s.null)
        h.put(st, s.obj, s.od, 8, s.ptr); h.put(st, s.obj, s.ol, 8, s.len)
        if ro: h.ro(st, s.obj)
    def p(s): return Ptr(s.obj)
def scheck(h, st, S, obj, ptr, n, what, null=False):
    h.prove(st, f'{what}: length', Eq(h.get(st, obj, h.off('slice_length_' + S)), n))
    h.prove(st, f'{what}: start', Or(null, veq(h.get(st, obj, h.off('slice_data_' + S), k='p'), ptr)))
def s_ctor(h, S):
    st = h.state(); r = h.sreg(st, 'r', h.size('slice_' + S))
    for s, _ in h.must_return(h.run(st, f'slice_ctor_{S}', [Ptr(r)])): scheck(h, s, S, r, NULL, 0, 'empty slice')
def s_init(h, S):
    st = h.state(); x = SL(h, st, S); r = h.sreg(st, 'r', h.size('slice_' + S))
    for s, _ in h.must_return(h.run(st, f'slice_init_{S}', [Ptr(r), x.ptr, x.len])): scheck(h, s, S, r, x.ptr, x.len, 'slice')
def s_copy(h, S):
    for fn in ('copy', 'cassign', 'clone', 'move', 'massign'):
        st = h.state(); x = SL(h, st, S, ro=fn[0] == 'c')
        if 'assign' in fn: r = SL(h, st, S, 't', ro=False).obj
        else: r = h.sreg(st, 'r', h.size('slice_' + S))
        for s, _ in h.must_return(h.run(st, f'slice_{fn}_{S}', [Ptr(r), x.p()])): scheck(h, s, S, r, x.ptr, x.len, fn)
def s_sub(h, S):
    st = h.state(); x = SL(h, st, S); r = h.sreg(st, 'r', h.size('slice_' + S)); a = h.int('start'); n = h.int('length')
    st.assume(a + n <= x.len)
    for s, _ in h.must_return(h.run(st, f'slice_sub_{S}', [Ptr(r), x.p(), a, n])):
        scheck(h, s, S, r, Ptr(x.data, simp(x.base + a), 0, x.null), n, 'sub')
def s_sub_bad(h, S):
    st = h.state(); x = SL(h, st, S); r = h.sreg(st, 'r', h.size('slice_' + S)); a = h.int('start'); n = h.int('length')
    st.assume(a + n > x.len)
    h.never_returns(h.run(st, f'slice_sub_{S}', [Ptr(r), x.p(), a, n]))
def s_observers(h, S):
    for fn, want in (('empty', lambda v: Eq(v.len, 0)), ('length', lambda v: v.len), ('bytes', lambda v: v.len * v.w)):
        st = h.state(); x = SL(h, st, S)
        for s, r in h.must_return(h.run(st, f'slice_{fn}_{S}', [x.p()])):
            if fn == 'empty': r = h.ex.tobool(r)
            h.prove(s, fn, Eq(r, want(x)))
    for fn, i in (('data', 0), ('cdata', 0), ('begin', 0), ('cbegin', 0), ('end', 1), ('cend', 1)):
        st = h.state(); x = SL(h, st, S)
        for s, r in h.must_return(h.run(st, f'slice_{fn}_{S}', [x.p()])): h.prove(s, fn, veq(r, Ptr(x.data, simp(x.base + i * x.len), 0, x.null)))
def s_index(h, S):
    for fn in ('at', 'cat'):
        st = h.state(); x = SL(h, st, S); i = h.int('i'); st.assume(i < x.len)
        for s, r in h.must_return(h.run(st, f'slice_{fn}_{S}', [x.p(), i])): h.prove(s, f'{fn}: element i', veq(r, Ptr(x.data, simp(x.base + i), 0)))
        st = h.state(); x = SL(h, st, S); i = h.int('i'); st.assume(i >= x.len)
        h.never_returns(h.run(st, f'slice_{fn}_{S}', [x.p(), i]))
    for fn, i in (('front', lambda x: x.base), ('back', lambda x: simp(x.base + x.len - 1))):
        st = h.state(); x = SL(h, st, S); st.assume(x.len > 0)
        for s, r in h.must_return(h.run(st, f'slice_{fn}_{S}', [x.p()])): h.prove(s, fn, veq(r, Ptr(x.data, i(x), 0)))
        st = h.state(); x = SL(h, st, S); st.assume(Eq(x.len, 0))
        h.never_returns(h.run(st, f'slice_{fn}_{S}', [x.p()]))
def s_bytes(h, S, fn):
    st = h.state(); x = SL(h, st, S); r = h.sreg(st, 'r', 16)
    for s, _ in h.must_return(h.run(st, f'slice_{fn}_{S}', [Ptr(r), x.p()])): scheck(h, s, 'u8', r, x.ptr, simp(x.len * x.w), 'bytes')
def s_toconst(h):
    st = h.state(); x = SL(h, st, 'u64'); r = h.sreg(st, 'r', 16)
    for s, _ in h.must_return(h.run(st, 'slice_toconst_u64', [Ptr(r), x.p()])): scheck(h, s, 'cu64', r, x.ptr, x.len, 'view as constant')
def s_list(h):
    for i in range(3):
        st = h.state(); v = [h.int(n) for n in 'abc']
        for s, r in h.must_return(h.run(st, 'slice_list', [i] + v)): h.prove(s, 'initializer list', Eq(r, v[i]))
    st = h.state(); i = h.int('i'); st.assume(i >= 3)
    h.never_returns(h.run(st, 'slice_list', [i] + [h.int(n) for n in 'abc']))

CONTRACTS = [('array_' + f.__name__[2:], f, S) for f in (c_ctor, c_dtor, c_move, c_assign, c_clone, c_index, c_views) for S in ARRS if not (S == 'u64_100' and False)]
CONTRACTS += [('array_' + f.__name__[2:], f, S) for f in (c_copy, c_cassign) for S in ARRS if T(S) != 'TK']
CONTRACTS += [('array_init', c_init, 'u64_7', ''), ('array_init', c_init, 'u64_7', 'c'), ('array_init', c_init, 'TC_5', ''), ('array_init', c_init, 'TC_5', 'c'), ('array_init', c_init, 'TK_5', '')]
CONTRACTS += [('slice_' + f.__name__[2:], f, S) for f in (s_ctor, s_init, s_copy, s_sub, s_sub_bad, s_observers, s_index) for S in SLS]
CONTRACTS += [('slice_bytes', s_bytes, S, 'cbytes') for S in SLS] + [('slice_bytes', s_bytes, 'u64', 'mbytes'), ('slice_toconst', s_toconst), ('slice_list', s_list)]
