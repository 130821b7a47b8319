"""C11: Function. View: empty, or one callable (kind, captured values). Every state is built by the real constructor (and
emptied by the real move), and after every operation the object is shown to be in the state the view says, by comparing the
captures, the lifetime of owned captures and what a call does."""
from ownc import *
SRC = 'function.cpp'
# captures of each callable: (offset, width, owned)
CAPS = {0: [], 1: [(0, 8, 0), (8, 8, 0), (16, 8, 0), (24, 8, 0)], 2: [(0, 8, 0), (8, 8, 1)], 3: [(0, 8, 1), (8, 8, 0), (16, 8, 1)], 4: [(0, 4, 0), (4, 2, 0)],
        5: [(8 * i, 8, 0) for i in range(6)], 6: [(0, 8, 0), (8, 8, 1)], 7: [(0, 8, 1)]}
KINDS = dict(Fn=[0, 1, 2, 3, 4], FnB=[3, 5], FnA=[6], FnV=[7])
def setup(h):
    h.ex.init_globals = True
    def fn_call(ex, st, ins, a, n):
        x = fresh_int('result', 0, (1 << 64) - 1); st.ghost.setdefault('calls', []).append((n, a, x))
        if n == 'fn_call2':
            vals = []
            for q in (a[2], a[4]):
                q = ex.check_access(st, q, 8, False); ex.oblig(st, 'use-live', Eq(ex.gget(st, q), LIVE), 'argument alive when the callable runs'); vals.append(ex.rd(st, q, 8, 'i'))
            st.ghost.setdefault('argvals', []).append(vals)
        return ('val', x)
    h.ex.add_contract('fn_(call|call2|void)$', fn_call)
def caps(h, st, k, name):
    """a caller-owned callable of kind k"""
    rid = h.sreg(st, name, h.size(f'F{k}')); vals = []
    for o, w, own in CAPS[k]:
        v = h.int(f'{name}.c{o}', w=8 * w); vals.append(v); h.put(st, rid, o, w, v)
        if own: st.wreg(rid).cells[('L', o)] = Cell(0, 'g', LIVE)
    return rid, vals
def build(h, st, S, k, name, empty=False):
    """a function object of type S holding callable k (or moved out of); returns (state, region, values)"""
    r = h.sreg(st, name, h.size(S)); f, vals = caps(h, st, k, name + '.f')
    (s, _), = h.must_return(h.run(st, f'{S}_ctor_{k}', [Ptr(r), Ptr(f)]))
    if empty:
        d = h.sreg(s, name + '.sink', h.size(S))
        (s, _), = h.must_return(h.run(s, f'{S}_move', [Ptr(d), Ptr(r)]))
    return s, r, (None if empty else (k, vals))
def check(h, st, S, obj, view, what):
    os = h.off(S + '_storage'); vt = h.get(st, obj, h.off(S + '_vtable'), k='p')
    if view is None:
        h.prove(st, what + ': empty', Or(vt.r is None, vt.n))
        for key, c in st.reg(obj).cells.items():
            if isinstance(key, tuple) and key[0] == 'L': h.prove(st, what + ': owns nothing', Ne(zi(c.v), LIVE))
        return
    k, vals = view
    h.prove(st, what + ': not empty', vt.r is not None and Not(vt.n))
    for (o, w, own), v in zip(CAPS[k], vals):
        h.prove(st, what + ': captured value', Eq(h.ex.norm(st, h.get(st, obj, os + o, w=w), 8 * w), v))
        if own: isalive(h, st, obj, os + o, True, what)
    for key, c in st.reg(obj).cells.items():
        if isinstance(key, tuple) and key[0] == 'L' and not any(own and key[1] == os + o for o, w, own in CAPS[k]): h.prove(st, what + ': owns nothing else', Ne(zi(c.v), LIVE))
    calls(h, st.copy(), S, obj, view, what)
def calls(h, st, S, obj, view, what):
    """calling it runs exactly that callable, once, on these captures, with these arguments, and returns its result"""
    os = h.off(S + '_storage')
    st.ghost['calls'] = []; st.ghost['argvals'] = []
    if S in ('Fn', 'FnB'): args = [h.int('x'), h.int('y')]; exp = args
    elif S == 'FnA':
        (v, vv), (m, mv) = elem_arg(h, st, 'TC', 'v'), elem_arg(h, st, 'TC', 'm'); q = h.sreg(st, 'ref', 8); h.put(st, q, 0, 8, h.int('ref')); args = [v, Ptr(q), m]
    else: args = []
    if view is None: h.never_returns(h.run(st, S + '_call', [Ptr(obj)] + args)); return
    k, vals = view
    for s, r in h.must_return(h.run(st, S + '_call', [Ptr(obj)] + args)):
        cs = s.ghost['calls']
        h.prove(s, what + ': one call runs the callable once', len(cs) == 1)
        if len(cs) != 1: continue
        n, a, x = cs[0]
        self = a[0] if S == 'FnV' else a[1]
        h.prove(s, what + ': the callable that was stored runs', S == 'FnV' or a[0] == k)
        h.prove(s, what + ': on its captures', veq(self, Ptr(obj, 0, os)))
        if S in ('Fn', 'FnB'): h.prove(s, what + ': with the given arguments', And(Eq(h.ex.norm(s, a[2], 64), args[0]), Eq(h.ex.norm(s, a[3], 64), args[1])))
        if S == 'FnA':
            h.prove(s, what + ': with the given values', And(*[Eq(p, q) for p, q in zip(s.ghost['argvals'][0], (vv, mv))]))
            h.prove(s, what + ': with the given references', And(veq(a[3], args[1]), veq(a[4], args[2])))
        if S != 'FnV': h.prove(s, what + ': returns its result', Eq(r, x))
        for (o, w, own), v in zip(CAPS[k], vals):
            h.prove(s, what + ': a call leaves the captures alone', Eq(h.ex.norm(s, h.get(s, obj, os + o, w=w), 8 * w), v))
            if own: isalive(h, s, obj, os + o, True, what + ': after a call')
def c_ctor(h, S, k):
    setup(h); st = h.state(); r = h.sreg(st, 'f', h.size(S)); f, vals = caps(h, st, k, 'callable')
    for s, _ in h.must_return(h.run(st, f'{S}_ctor_{k}', [Ptr(r), Ptr(f)])):
        check(h, s, S, r, (k, vals), 'constructed')
        for o, w, own in CAPS[k]:
            if own: isalive(h, s, f, o, False, 'the callable given')
def states(S): return [(k, e) for k in KINDS[S] for e in (False, True)]
def c_dtor(h, S):
    setup(h)
    for k, e in states(S):
        st, r, view = build(h, h.state(), S, k, 'f', e)
        for s, _ in h.must_return(h.run(st, S + '_dtor', [Ptr(r)])):
            for key, c in s.reg(r).cells.items():
                if isinstance(key, tuple) and key[0] == 'L': h.prove(s, 'destroyed: no capture is left alive', Ne(zi(c.v), LIVE))
            if not e:
                for o, w, own in CAPS[k]:
                    if own: h.prove(s, 'destroyed: the capture was destroyed', Eq(zi(h.ex.gget(s, Ptr(r, 0, h.off(S + '_storage') + o))), RAW))
        if not e and not any(own for o, w, own in CAPS[k]): h.prove(st, 'destroyed: nothing to destroy', True)
def c_move(h, S):
    setup(h)
    for k, e in states(S):
        st, r, view = build(h, h.state(), S, k, 'f', e); d = h.sreg(st, 'target', h.size(S)); vt = h.off(S + '_vtable'); rep = h.get(st, r, vt, k='p')
        for s, _ in h.must_return(h.run(st, S + '_move', [Ptr(d), Ptr(r)])):
            check(h, s, S, d, view, 'move target'); check(h, s, S, r, None, 'move source')
            if view: h.prove(s, 'the moved callable is represented as a constructed one', veq(h.get(s, d, vt, k='p'), rep))
def c_assign(h, S):
    setup(h)
    for k, e in states(S):
        for k2, e2 in states(S):
            st, r, view = build(h, h.state(), S, k, 'source', e); st, d, view2 = build(h, st, S, k2, 'target', e2)
            for s, _ in h.must_return(h.run(st, S + '_assign', [Ptr(d), Ptr(r)])):
                check(h, s, S, d, view, 'assignment target'); check(h, s, S, r, None, 'assignment source')
def c_empty(h, S):
    """calling an empty function object never returns"""
    setup(h)
    for k in KINDS[S]:
        st, r, view = build(h, h.state(), S, k, 'f', True); calls(h, st, S, r, None, 'empty')
CONTRACTS = [('ctor', c_ctor, S, k) for S in KINDS for k in KINDS[S]] + [(f.__name__[2:], f, S) for f in (c_dtor, c_move, c_assign, c_empty) for S in KINDS]
