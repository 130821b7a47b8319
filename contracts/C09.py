"""C09: Variant. View: (k, value): the alternative held and its value. Every contract is checked once per alternative."""
from ownc import *
SRC = 'variant.cpp'
NALT = dict(V1=1, V3=3, V8=8, V9=9, V12=12, VT=4)
WIDTH = dict(VT=[1, 16, 8, 4])
def trk(V, k): return not (V in ('VT', 'V255') or (V == 'V3' and k == 0))
def alts(h, st): return st.ghost.setdefault('alt', {})
def setup(h):
    def key(ex, st, p, w=8):
        p = ex.check_access(st, p, w, False); return (p.r, p.o)
    def alt_born(ex, st, ins, a, n): st.ghost.setdefault('alt', {})[key(ex, st, a[1])] = a[0]
    def alt_use(ex, st, ins, a, n):
        ex.oblig(st, 'right-alternative', st.ghost.get('alt', {}).get(key(ex, st, a[1])) == a[0], f'code for alternative {a[0]} runs on the alternative that is held')
    def alt_visit(ex, st, ins, a, n):
        p = a[1]; x = fresh_int('visit', 0, (1 << 64) - 1)
        st.ghost.setdefault('visits', []).append((n, a[0], p, x)); return ('val', x)
    for f in (alt_born, alt_use): h.ex.add_contract(f.__name__ + '$', f)
    h.ex.add_contract('alt_c?r?visit$', alt_visit)
class Var:
    def __init__(s, h, st, V, k, name='v', ro=False, moved=False):
        s.h = h; s.V = V; s.k = k; s.od = h.off('var_data_' + V); s.oi = h.off('var_index_' + V)
        s.obj = h.sreg(st, name, h.size('var_' + V)); s.vals = putalt(h, st, V, k, s.obj, s.od, name, moved)
        h.put(st, s.obj, s.oi, 1, k)
        if ro: h.ro(st, s.obj)
    def p(s): return Ptr(s.obj, 0, 0)
def parts(V, k):
    w = WIDTH[V][k] if V in WIDTH else 8
    return [(0, 8), (8, 8)] if w == 16 else [(0, w)]
def putalt(h, st, V, k, rid, off, name, moved=False):
    vals = []
    for o, w in parts(V, k):
        v = h.int(f'{name}.val{o}', w=8 * w); vals.append(v); h.put(st, rid, off + o, w, v)
    if trk(V, k):
        st.wreg(rid).cells[('L', off)] = Cell(0, 'g', MOVED if moved else LIVE); alts(h, st)[(rid, off)] = k
    return vals
def newv(h, st, V):
    """storage for a variant with no object in it"""
    return h.sreg(st, 'r', h.size('var_' + V))
def check(h, st, V, obj, k, vals, what):
    od, oi = h.off('var_data_' + V), h.off('var_index_' + V)
    h.prove(st, what + ': index of the alternative', Eq(h.ex.norm(st, h.get(st, obj, oi, w=1), 8), k))
    for (o, w), v in zip(parts(V, k), vals): h.prove(st, what + ': the value', Eq(h.ex.norm(st, h.get(st, obj, od + o, w=w), 8 * w), v))
    if trk(V, k):
        isalive(h, st, obj, od, True, what)
        h.prove(st, what + ': the object is of the alternative indexed', alts(h, st).get((obj, od)) == k)
    elif ('L', od) in st.reg(obj).cells: shell(h, st, 'TC', obj, od, what)
def gone(h, st, V, obj, what):
    od = h.off('var_data_' + V)
    if ('L', od) in st.reg(obj).cells: shell(h, st, 'TC', obj, od, what)
def c_ctor(h, V, k):
    setup(h); st = h.state(); r = newv(h, st, V); x = h.sreg(st, 'x', h.const(f'size_alt_{V}_{k}')); vals = putalt(h, st, V, k, x, 0, 'x')
    for s, _ in h.must_return(h.run(st, f'var_ctor_{V}_{k}', [Ptr(r), Ptr(x)])): check(h, s, V, r, k, vals, 'constructed')
def c_dtor(h, V):
    setup(h)
    for k in range(NALT[V]):
        for mv in (False, True) if trk(V, k) else (False,):
            st = h.state(); v = Var(h, st, V, k, moved=mv)
            for s, _ in h.must_return(h.run(st, 'var_dtor_' + V, [v.p()])):
                gone(h, s, V, v.obj, 'destroyed')
                if trk(V, k): h.prove(s, 'the destructor of the alternative ran', Eq(zi(h.ex.gget(s, Ptr(v.obj, 0, v.od))), RAW))
def c_move(h, V):
    setup(h)
    for k in range(NALT[V]):
        st = h.state(); v = Var(h, st, V, k); r = newv(h, st, V)
        for s, _ in h.must_return(h.run(st, 'var_move_' + V, [Ptr(r), v.p()])): check(h, s, V, r, k, v.vals, 'move target'); gone(h, s, V, v.obj, 'move source')
def c_assign(h, V):
    setup(h)
    for k in range(NALT[V]):
        for j in range(NALT[V]):
            for mv in (False, True) if trk(V, j) else (False,):
                st = h.state(); v = Var(h, st, V, k, 'src'); t = Var(h, st, V, j, 'dst', moved=mv)
                for s, _ in h.must_return(h.run(st, 'var_assign_' + V, [t.p(), v.p()])): check(h, s, V, t.obj, k, v.vals, f'assigned {j}<-{k}'); gone(h, s, V, v.obj, 'assignment source')
def c_clone(h, V):
    setup(h)
    for k in range(NALT[V]):
        st = h.state(); v = Var(h, st, V, k, ro=True); r = newv(h, st, V)
        for s, _ in h.must_return(h.run(st, 'var_clone_' + V, [Ptr(r), v.p()])): check(h, s, V, r, k, v.vals, 'clone'); check(h, s, V, v.obj, k, v.vals, 'clone source')
def c_match(h, V, fn):
    setup(h)
    for k in range(NALT[V]):
        st = h.state(); v = Var(h, st, V, k, ro=True)
        for s, r in h.must_return(h.run(st, f'var_{fn}_{V}', [v.p()])):
            vs = s.ghost.get('visits', [])
            h.prove(s, f'alternative {k}: the callable runs exactly once', len(vs) == 1)
            if len(vs) == 1:
                n, kk, p, x = vs[0]
                h.prove(s, f'alternative {k}: the callable gets the alternative that is held', kk == k and n == dict(match='alt_visit', cmatch='alt_cvisit', rmatch='alt_rvisit')[fn])
                h.prove(s, f'alternative {k}: the callable gets the held object', veq(p, Ptr(v.obj, 0, v.od)))
                h.prove(s, f'alternative {k}: its result is returned', Eq(r, x))
            check(h, s, V, v.obj, k, v.vals, 'matched variant')
def c_index(h, V):
    setup(h)
    for k in range(NALT[V]):
        st = h.state(); v = Var(h, st, V, k, ro=True)
        for s, r in h.must_return(h.run(st, 'var_index_' + V, [v.p()])): h.prove(s, f'index of alternative {k}', Eq(h.ex.norm(s, r, 64), k))
    st = h.state(); v = Var(h, st, V, 0, ro=False); h.put(st, v.obj, v.oi, 1, 255); h.ro(st, v.obj)
    h.never_returns(h.run(st, 'var_index_' + V, [v.p()]))
VS = list(NALT); NALT.update(V40=40, V255=255)
CONTRACTS = [('ctor', c_ctor, V, k) for V in VS for k in range(NALT[V])] + [('dtor', c_dtor, V) for V in VS if V != 'VT'] + \
    [(f.__name__[2:], f, V) for f in (c_move, c_assign, c_clone, c_index) for V in VS] + [('match', c_match, V, fn) for V in VS for fn in ('match', 'cmatch', 'rmatch')]
CONTRACTS += [(f.__name__[2:], f, 'V40') for f in (c_dtor, c_index, c_move, c_clone)] + [('match', c_match, 'V40', fn) for fn in ('match', 'cmatch', 'rmatch')] + [('ctor', c_ctor, 'V40', k) for k in (0, 8, 16, 31, 32, 39)] + \
    [(f.__name__[2:], f, 'V255') for f in (c_index, c_move)] + [('match', c_match, 'V255', 'cmatch')] + [('ctor', c_ctor, 'V255', k) for k in (0, 16, 31, 127, 128, 254)]
