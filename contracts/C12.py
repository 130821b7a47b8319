"""C12: Tuple and Pair. View: the list of component values. Where a component lives is asked from the real get<k>;
the components are shown to be disjoint and inside the object."""
from ownc import *
import re
SRC = 'tuple.cpp'
COMP = dict(T1=['TC'], T2=['TK', 8], T3=[8, 'TC', 'TK'], T5=[1, 'TC', 8, 2, 'TK'], T4=[8, 4, 8, 8], T7=['TC'] * 7, P1=[8, 'TC'], P2=['TK', 8], P3=['TC', 'TK'], P4=[8, 4], P5=['TC', 'TC'], P6=['TK', 'TK'])
def own(c): return isinstance(c, str)
def width(c): return 8 if own(c) else c
def setup(h):
    def inv_arg(ex, st, ins, a, n): st.ghost.setdefault('args', []).append((a[0], a[1]))
    def inv_result(ex, st, ins, a, n):
        x = fresh_int('result', 0, (1 << 64) - 1); st.ghost.setdefault('res', []).append(x); return ('val', x)
    h.ex.add_contract('inv_arg$', inv_arg); h.ex.add_contract('inv_result$', inv_result)
def places(h, S):
    """offset of each component, from the real accessors"""
    if getattr(h, 'pl', None) is None: h.pl = {}
    if S not in h.pl:
        ps = []
        for k, c in enumerate(COMP[S]):
            for fn in ('get', 'cget'):
                st = h.state(); r = h.sreg(st, 't', h.size(S)); h.ro(st, r)
                (s, p), = h.must_return(h.run(st, f'{S}_{fn}_{k}', [Ptr(r)]))
                h.prove(s, f'{fn}<{k}> refers into the object', p.r == r and p.n is False and p.i == 0 and isinstance(p.o, int) and 0 <= p.o and p.o + width(c) <= h.size(S))
                if fn == 'get': ps.append(p.o)
                else: h.prove(s, f'const and non-const get<{k}> agree', p.o == ps[k])
        for i in range(len(ps)):
            for j in range(i): h.prove(s, f'components {j} and {i} do not overlap', ps[i] + width(COMP[S][i]) <= ps[j] or ps[j] + width(COMP[S][j]) <= ps[i])
        h.pl[S] = ps
    return h.pl[S]
class Tp:
    def __init__(s, h, st, S, name='t', ro=False, moved=False):
        s.h = h; s.S = S; s.at = places(h, S); s.obj = h.sreg(st, name, h.size(S)); s.vals = []
        for k, (c, o) in enumerate(zip(COMP[S], s.at)):
            v = h.int(f'{name}.{k}', w=8 * width(c)); s.vals.append(v); h.put(st, s.obj, o, width(c), v)
            if own(c): st.wreg(s.obj).cells[('L', o)] = Cell(0, 'g', MOVED if moved else LIVE)
        if ro: h.ro(st, s.obj)
    def p(s): return Ptr(s.obj)
def check(h, st, S, obj, vals, what):
    for k, (c, o, v) in enumerate(zip(COMP[S], places(h, S), vals)):
        w = width(c)
        if v is not None: h.prove(st, f'{what}: component {k}', Eq(h.ex.norm(st, h.get(st, obj, o, w=w), 8 * w), v))
        if own(c): isalive(h, st, obj, o, True, f'{what}: component {k}')
def shells(h, st, S, obj, what):
    for c, o in zip(COMP[S], places(h, S)):
        if own(c): shell(h, st, S, obj, o, what)
def c_ctor(h, S):
    for fn in sorted(h.m.fns):
        m = re.fullmatch(S + r'_ctor_(rest_)?([mc]+)', fn)
        if not m: continue
        st = h.state(); places(h, S); r = h.sreg(st, 'r', h.size(S)); args = []; vals = []
        for k, (c, how) in enumerate(zip(COMP[S], m.group(2))):
            a = h.sreg(st, f'a{k}', width(c)); v = h.int(f'a{k}', w=8 * width(c)); h.put(st, a, 0, width(c), v)
            if own(c): st.wreg(a).cells[('L', 0)] = Cell(0, 'g', LIVE)
            if how == 'c': h.ro(st, a)
            args.append(Ptr(a)); vals.append(v)
        for s, _ in h.must_return(h.run(st, fn, [Ptr(r)] + args)):
            check(h, s, S, r, vals, fn)
            for a, c, how in zip(args, COMP[S], m.group(2)):
                if own(c): isalive(h, s, a.r, 0, how == 'c', fn + ': the argument')
    if all(c in (8, 'TC') or S in ('T1', 'T7') for c in COMP[S]):
        st = h.state(); r = h.sreg(st, 'r', h.size(S))
        for s, _ in h.must_return(h.run(st, S + '_default', [Ptr(r)])): check(h, s, S, r, [0 if own(c) else None for c in COMP[S]], 'default constructed')
def c_move(h, S):
    st = h.state(); t = Tp(h, st, S); r = h.sreg(st, 'r', h.size(S))
    for s, _ in h.must_return(h.run(st, S + '_move', [Ptr(r), t.p()])): check(h, s, S, r, t.vals, 'move target'); shells(h, s, S, t.obj, 'move source')
    for mv in (False, True):
        st = h.state(); t = Tp(h, st, S, 'src'); d = Tp(h, st, S, 'dst', moved=mv)
        for s, _ in h.must_return(h.run(st, S + '_assign', [d.p(), t.p()])): check(h, s, S, d.obj, t.vals, 'assignment target'); shells(h, s, S, t.obj, 'assignment source')
def c_clone(h, S):
    for fn in ('clone', 'copy'):
        if f'{S}_{fn}' not in h.m.fns: continue
        st = h.state(); t = Tp(h, st, S, ro=True); r = h.sreg(st, 'r', h.size(S))
        for s, _ in h.must_return(h.run(st, f'{S}_{fn}', [Ptr(r), t.p()])): check(h, s, S, r, t.vals, fn); check(h, s, S, t.obj, t.vals, fn + ' source')
    if S + '_copy_assign' in h.m.fns:
        st = h.state(); t = Tp(h, st, S, 'src', ro=True); d = Tp(h, st, S, 'dst')
        for s, _ in h.must_return(h.run(st, S + '_copy_assign', [d.p(), t.p()])): check(h, s, S, d.obj, t.vals, 'copy assignment'); check(h, s, S, t.obj, t.vals, 'copy assignment source')
def c_dtor(h, S):
    for mv in (False, True):
        st = h.state(); t = Tp(h, st, S, moved=mv)
        for s, _ in h.must_return(h.run(st, S + '_dtor', [t.p()])):
            for c, o in zip(COMP[S], t.at):
                if own(c): h.prove(s, 'destroyed: every component is destroyed', Eq(zi(h.ex.gget(s, Ptr(t.obj, 0, o))), RAW))
def c_access(h, S):
    setup(h); at = places(h, S)
    if S[0] == 'T':
        st = h.state(); t = Tp(h, st, S, ro=True)
        for s, r in h.must_return(h.run(st, S + '_invoke', [t.p()])):
            a = s.ghost.get('args', [])
            h.prove(s, 'invoke passes every component, in order', len(a) == len(at) and all(x[0] == i and veq(x[1], Ptr(t.obj, 0, at[i])) is True for i, x in enumerate(a)))
            h.prove(s, 'invoke calls the function once and returns its result', len(s.ghost.get('res', [])) == 1 and Eq(r, s.ghost['res'][0]))
            check(h, s, S, t.obj, t.vals, 'after invoke')
        st = h.state(); t = Tp(h, st, S, ro=True)
        for s, r in h.must_return(h.run(st, S + '_length', [t.p()])): h.prove(s, 'length', Eq(r, len(at)))
    else:
        for k, fn in enumerate(('first', 'second')):
            st = h.state(); t = Tp(h, st, S, ro=True)
            for s, r in h.must_return(h.run(st, f'{S}_{fn}', [t.p()])): h.prove(s, f'get<{k}> is {fn}', veq(r, Ptr(t.obj, 0, at[k])))
    if S + '_bind' in h.m.fns:
        st = h.state(); t = Tp(h, st, S, ro=True); a = h.sreg(st, 'a', 8 * len(at))
        for s, r in h.must_return(h.run(st, S + '_bind', [t.p(), Ptr(a)])):
            for k, o in enumerate(at): h.prove(s, f'structured binding {k}', veq(h.get(s, a, 8 * k, k='p'), Ptr(t.obj, 0, o)))
def c_empty(h):
    setup(h); st = h.state(); n = h.sreg(st, 'n', 8)
    for s, r in h.must_return(h.run(st, 'T0_ops', [Ptr(n)])): h.prove(s, 'empty tuple: length 0, invoke calls once', len(s.ghost['res']) == 1 and Eq(h.ex.norm(s, h.get(s, n, 0), 64), s.ghost['res'][0]))
CONTRACTS = [(f.__name__[2:], f, S) for f in (c_ctor, c_move, c_clone, c_dtor, c_access) for S in COMP if not (f is c_dtor and not any(own(c) for c in COMP[S]))] + [('empty', c_empty)]
