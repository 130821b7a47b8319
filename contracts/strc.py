"""String {data, length, capacity} and String_View {data, length}: byte sequences. Regions have one-byte elements."""
from common import *
from loops import *
import loops, vexec
def setup(h):
    h.ex.stride_hint = 1
    h.ex.add_contract(r'_ZN3rpp4Libc6strlenEPKc$|^strlen$', c_strlen)
    h.ex.add_contract(r'_ZN3rpp4Libc7strtollE|_ZN3rpp4Libc6strtofE|^strtoll$|^strtof$', c_strto)
    h.ex.add_contract(r'_ZN3rpp16Region_Allocator5begin', r_begin)
    h.ex.add_contract(r'_ZN3rpp16Region_Allocator3endE', r_end)
    h.ex.add_contract(r'_ZN3rpp16Region_Allocator5alloc', r_alloc)
    h.ex.add_contract(r'_ZN3rpp16Region_Allocator4free', r_free)
# ---- callee contracts
def c_strlen(ex, st, ins, a, n):
    """number of bytes before the first zero byte (which exists: precondition of every caller)"""
    s = vexec.cstring(ex, st, a[0])
    if s is not None: return ('val', len(s))
    p = a[0]; c = st.ghost.get('cstr', {}).get(p.r)
    ex.oblig(st, 'precondition', c is not None and Eq(p.i, 0), 'strlen of a terminated string')
    return ('val', c if c is not None else 0)
def c_strto(ex, st, ins, a, n):
    """strtoll/strtof: needs a terminated text; stores where the number ends (0..position of the first zero byte); the value and
    the number of bytes consumed are functions of the text"""
    p = a[0]; r = st.reg(p.r); last = simp(zi(r.count) - 1) if not r.scalar else r.size - 1
    src, ln, val, used = st.ghost['number']
    rdb = vexec.bytes_read(ex, st, Ptr(p.r, p.i, p.o), simp(zi(ln) + 1), 'number text')
    k = fresh_int('k')
    ex.oblig(st, 'precondition', Implies(And(Le(0, k), Lt(k, ln)), Eq(rdb(k), src(k))), 'the text given to the number parser is the input')
    ex.oblig(st, 'precondition', Eq(rdb(ln), 0), 'the text given to the number parser is terminated')
    if 'strtoll' in n: ex.oblig(st, 'precondition', Eq(ex.norm(st, a[2], 32), 10), 'decimal')
    if not (isinstance(a[1], Ptr) and a[1].r is None): ex.wr(st, ex.check_access(st, a[1], 8, True), 8, 'p', Ptr(p.r, simp(zi(p.i) + zi(used)), p.o))
    return ('val', val)
def r_begin(ex, st, ins, a, n):
    st.ghost['regions'] = st.ghost.get('regions', []) + [(ex.norm(st, a[0], 64), [])]; return None
def top(ex, st, b, what):
    g = st.ghost.get('regions', [])
    ex.oblig(st, 'precondition', Eq(g[-1][0], ex.norm(st, b, 64)) if g else False, what + ' the innermost region')
    return g
def r_end(ex, st, ins, a, n):
    g = top(ex, st, a[0], 'ending')
    for rid in g[-1][1] if g else []:
        if rid in st.mem: st.wreg(rid).alive = False
    st.ghost['regions'] = g[:-1]; return None
def r_alloc(ex, st, ins, a, n):
    g = top(ex, st, a[0], 'allocation from')
    sz = ex.norm(st, a[1], 64); hp = list(st.ghost.get('heap', []))
    p = vexec.heap_alloc(ex, st, sz, n); st.ghost['heap'] = hp
    st.reg(p.r).heap = False
    if g: st.ghost['regions'] = g[:-1] + [(g[-1][0], g[-1][1] + [p.r])]
    return [(st, p)]
def r_free(ex, st, ins, a, n):
    top(ex, st, a[0], 'freeing into'); return None

# ---- symbolic objects
class Str:
    """a String satisfying its invariant: length <= capacity, storage of capacity bytes (null when the capacity is 0)"""
    kind = 'S'
    def __init__(s, h, st, name='s', ro=False):
        s.h = h; s.od, s.ol, s.oc = h.off('str_data'), h.off('str_length'), h.off('str_capacity')
        s.obj = h.sreg(st, name, h.size('str')); s.len = h.int(name + '.len', hi=MAXCAP); s.cap = h.int(name + '.cap', hi=MAXCAP); st.assume(s.len <= s.cap)
        s.data = h.areg(st, name + '.bytes', 1, s.cap, heap=True)
        s.null = fresh_bool(name + '.null'); st.assume(Implies(s.null, Eq(s.cap, 0))); h.exists(st, s.data, Not(s.null))
        s.val = h.elems(st, s.data, w=1, name=name)
        h.put(st, s.obj, s.od, 8, Ptr(s.data, 0, 0, s.null)); h.put(st, s.obj, s.ol, 8, s.len); h.put(st, s.obj, s.oc, 8, s.cap)
        s.first = Ptr(s.data, 0, 0, s.null)
        if ro: h.ro(st, s.obj); h.ro(st, s.data)
    def p(s): return Ptr(s.obj)
class View:
    """a view of len readable bytes somewhere inside a larger buffer (its data is null only when it is empty)"""
    kind = 'V'
    def __init__(s, h, st, name='v', ro=True, whole=False):
        s.h = h; s.od, s.ol = h.off('view_data'), h.off('view_length')
        s.obj = h.sreg(st, name, h.size('view')); s.len = h.int(name + '.len', hi=MAXCAP)
        s.lo = 0 if whole else h.int(name + '.lo', hi=MAXCAP); s.tot = s.len if whole else h.int(name + '.tot', hi=2 * MAXCAP)
        st.assume(Le(simp(zi(s.lo) + s.len), s.tot))
        s.data = h.areg(st, name + '.buffer', 1, s.tot); f = h.elems(st, s.data, w=1, name=name); s.buf = f
        s.val = lambda k: f(simp2(s.lo, k))
        s.null = fresh_bool(name + '.null'); st.assume(Implies(s.null, And(Eq(s.len, 0), Eq(s.lo, 0))))
        s.first = Ptr(s.data, s.lo, 0, s.null)
        h.put(st, s.obj, s.od, 8, s.first); h.put(st, s.obj, s.ol, 8, s.len)
        if ro: h.ro(st, s.obj); h.ro(st, s.data)
    def p(s): return Ptr(s.obj)
def simp2(a, b): return zi(simp(zi(a) + zi(b)))
def mk(h, st, kind, name, **kw): return (Str if kind == 'S' else View)(h, st, name, **kw)
def newstr(h, st, name='r'): return h.sreg(st, name, h.size('str'))
def newview(h, st, name='r'): return h.sreg(st, name, h.size('view'))
def strof(h, st, obj):
    return h.get(st, obj, h.off('str_data'), k='p'), h.get(st, obj, h.off('str_length')), h.get(st, obj, h.off('str_capacity'))
def viewof(h, st, obj, o=0):
    return h.get(st, obj, o + h.off('view_data'), k='p'), h.get(st, obj, o + h.off('view_length'))
def byte(h, st, rid, k): return h.ex.norm(st, h.get(st, rid, 0, w=1, i=k), 8)
def check(h, st, obj, length, at, what, cap=None, owned=(), leak=True):
    """the String obj holds exactly length bytes, byte k = at(k), in storage of its own"""
    d, l, c = strof(h, st, obj)
    h.prove(st, what + ': length', Eq(l, length)); h.prove(st, what + ': length within capacity', Le(l, c))
    if cap is not None: h.prove(st, what + ': capacity', Eq(c, cap))
    if d.r is None:
        h.prove(st, what + ': no storage only at capacity 0', Eq(c, 0))
        if leak: h.heap_owned(st, owned)
        return None
    r = st.reg(d.r)
    h.prove(st, what + ': no storage only at capacity 0', Implies(d.n, Eq(c, 0)))
    h.prove(st, what + ': storage of its own', r.alive and r.heap and d.o == 0 and Eq(d.i, 0))
    h.prove(st, what + ': room for the capacity', Or(d.n, Le(c, r.count if not r.scalar else r.size)))
    h.forall(st, what + ': every byte', lambda k: Implies(And(Le(0, k), Lt(k, length)), Eq(byte(h, st, d.r, k), at(k))))
    if leak: h.heap_owned(st, [d] + list(owned))
    return d
def isview(h, st, obj, first, lo, length, what, o=0):
    """the String_View stored at obj+o is bytes [lo, lo+length) behind pointer first"""
    d, l = viewof(h, st, obj, o)
    h.prove(st, what + ': length', Eq(l, length))
    want = Ptr(first.r, simp(zi(first.i) + zi(lo)), first.o, first.n)
    h.prove(st, what + ': position', Or(Eq(length, 0), And(d.r == want.r and d.o == want.o, Eq(d.i, want.i) if d.r == want.r else False, Not(d.n) if d.r is not None else False)))
    # an empty result is still inside (or just behind) the text
    if d.r is not None: h.prove(st, what + ': stays with its text', d.r == want.r and And(Le(0, d.i), Le(d.i, st.reg(d.r).count)))
def same(h, st, v, what):
    """the source is unchanged"""
    h.forall(st, what + ': source bytes unmodified', lambda k: Implies(And(Le(0, k), Lt(k, v.len)), Eq(byte(h, st, v.data, simp2(getattr(v, 'lo', 0), k)), v.val(k))))
    h.prove(st, what + ': source length unmodified', Eq(h.get(st, v.obj, v.ol), v.len))
def truth(h, st, r):
    """a returned bool"""
    return zb(r) if isinstance(r, bool) or z3.is_bool(r) else zb(Ne(h.ex.norm(st, r, 8), 0))
