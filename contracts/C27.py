"""C27: the scope tree of the profiler. Nodes of one frame are an array region; the children of node i are listed in their own block of the
region `children`, at i * 2^40. The clock is a contract: it never goes back. Texts are compared through a contract of String_View ==."""
from contract import *
import vexec, contract
from vexec import Base, Upd, Cell, NULL
from terms import QFact, fresh_fn, fresh_name, fresh_int, fresh_bool, Unsupported
SRC = 'profile.cpp'
W = 1 << 40; M64 = 1 << 64
TXT = z3.Function('text', I, I, I)
def imp(st, n, mk, name):
    ks = [z3.Int(fresh_name('q')) for _ in range(n)]; b = zb(mk(*ks)); st.q.append(QFact(ks, b, [vexec.trig_of(b, k) for k in ks], name))
NUM = ('begin', 'end', 'self', 'heir', 'calls', 'parent', 'nchild', 'line', 'flen', 'slen')
class World:
    def __init__(w, h, empty=False, self_arg=False):
        w.h = h; ex = h.ex; w.st = st = h.state(); o = h.off; c = o('tn_children')
        w.off = dict(begin=o('tn_begin'), end=o('tn_end'), self=o('tn_self'), heir=o('tn_heir'), calls=o('tn_calls'), parent=o('tn_parent'), line=o('tn_loc') + o('loc_line'), nchild=c + o('vu_length'), flen=o('tn_loc') + o('loc_function') + o('sv_length'), slen=o('tn_loc') + o('loc_file') + o('sv_length'))
        w.poff = dict(fptr=o('tn_loc') + o('loc_function') + o('sv_data'), sptr=o('tn_loc') + o('loc_file') + o('sv_data')); w.och, w.occap = c + o('vu_data'), c + o('vu_capacity')
        w.n = 0 if empty else h.int('nodes', hi=W - 1); w.cap = h.int('capacity', hi=W); st.assume(Le(w.n, w.cap))
        w.nd = h.areg(st, 'nodes', h.size('tn'), w.cap, heap=True); h.exists(st, w.nd, Gt(w.cap, 0)) if empty else None; r = st.wreg(w.nd); w.F = {f: fresh_fn(f, I, 0, (M64 - 1) if f != 'nchild' else W - 1) for f in NUM}; w.P = {f: fresh_fn(f, I, 0, 1 << 47) for f in w.poff}
        for f in NUM: r.cells[w.off[f]] = Cell(8, 'i', Base(w.F[f]))
        for f in w.poff: r.cells[w.poff[f]] = Cell(8, 'p', Base(w.P[f], 'opaque'))
        ZERO = z3.Function(fresh_name('childblock'), I, I); w.CB = ZERO; imp(st, 1, lambda i: Eq(ZERO(i), simp(i * W)), 'the block of children of a node'); w.CN = z3.Function(fresh_name('nochildblock'), I, B); w.CC = fresh_fn('childcap', I, 0, W - 1)
        w.ch = h.areg(st, 'children', 8, 1 << 90); w.CH = fresh_fn('child', I, 0, W - 1); st.wreg(w.ch).cells[0] = Cell(8, 'i', Base(w.CH))
        r.cells[w.och] = Cell(8, 'p', Base(ZERO, w.ch, w.CN)); r.cells[w.occap] = Cell(8, 'i', Base(w.CC))
        w.now = h.int('now'); st.ghost['clock'] = w.now; st.ghost['held'] = 0; st.ghost['ticks'] = 0; w.cur = 0 if empty else h.int('current')
        w.KID = z3.Function(fresh_name('kid'), I, I, I); imp(st, 2, lambda i, j: Eq(w.KID(i, j), w.CH(simp(w.CB(i) + j))), 'the list of children'); F = w.F; n = w.n; rng = w.rng; w.cp = z3.Function(fresh_name('place'), I, I)
        imp(st, 1, lambda i: Implies(rng(i), And(Lt(F['parent'](i), n), Le(F['nchild'](i), w.CC(i)), zb(w.CN(i)) == zb(Eq(w.CC(i), 0)), Le(F['begin'](i), w.now))), 'a node')
        imp(st, 2, lambda i, j: Implies(And(rng(i), Le(0, j), Lt(j, F['nchild'](i))), And(Lt(i, w.child(i, j)), Lt(w.child(i, j), n), Eq(F['parent'](w.child(i, j)), i), Eq(w.cp(w.child(i, j)), j))), 'children are later nodes with this parent, listed once')
        if not empty: st.assume(Lt(w.cur, n))
        w.fp = h.sreg(st, 'frame', h.size('fp')) if not self_arg else None
        if w.fp is not None: w.frame(st, w.fp)
        w.ptag = 'opaque'
        for pat, f in ((r'^_ZN3rpp6Thread12perf_counterEv$', w.clock), (r'^_ZN3rpp3VecINS_7Profile11Timing_NodeE.*(4push|7emplace)', w.push_node), (r'^_ZN3rpp3VecImNS_10Mallocator.*(4push|7emplace)', w.push_child), (r'^_ZN3rppeqENS_11String_ViewES0_$', w.same_text),
                       (r'^_ZN3rpp6Thread5Mutex4lockEv$', w.lock), (r'^_ZN3rpp6Thread5Mutex6unlockEv$', w.unlock), (r'_ZN3rpp10MallocatorI.*4freeEPv$', lambda ex, st, ins, a, n: vexec.va_free(ex, st, ins, a, n))): ex.add_contract(pat, f)
        ex.force_summary = lambda fn, hd: True; ex.loop_inv = w.cands; w.mode = None
    def frame(w, st, r):
        h = w.h; o = h.off; h.put(st, r, o('fp_current'), 8, w.cur); v = o('fp_nodes'); h.put(st, r, v + o('vn_data'), 8, Ptr(w.nd, 0, 0, zb(Eq(w.cap, 0)))); h.put(st, r, v + o('vn_length'), 8, w.n); h.put(st, r, v + o('vn_capacity'), 8, w.cap)
    def rng(w, i): return And(Le(0, i), Lt(i, w.n))
    def child(w, i, j): return w.KID(zi(i), zi(j))
    # ---- state
    def cur_(w, st): return w.h.get(st, w.fp, w.h.off('fp_current'))
    def len_(w, st): return w.h.get(st, w.fp, w.h.off('fp_nodes') + w.h.off('vn_length'))
    def nodes(w, st): return w.h.get(st, w.fp, w.h.off('fp_nodes') + w.h.off('vn_data'), k='p')
    def f(w, st, name, k): return st.reg(w.nodes(st).r).cells[w.off[name]].v.get(w.h.ex, zi(k))
    def kid(w, st, i, j): return st.reg(w.ch).cells[0].v.get(w.h.ex, simp(w.CB(zi(i)) + zi(j)))
    def text(w, st, k, p, l):
        a = st.reg(w.nodes(st).r).cells[w.poff[p]].v.get(w.h.ex, zi(k)); return TXT(zi(a.i), zi(w.f(st, l, k)))
    # ---- contracts
    def clock(w, ex, st, ins, a, n):
        t = fresh_int('t', 0, M64 - 1); st.assume(Le(st.ghost['clock'], t)); st.ghost['clock'] = t; st.ghost['ticks'] = st.ghost['ticks'] + 1; return ('val', t)
    def lock(w, ex, st, ins, a, n): ex.oblig(st, 'precondition', st.ghost['held'] == 0, 'the mutex is not locked twice'); st.ghost['held'] = 1
    def unlock(w, ex, st, ins, a, n): ex.oblig(st, 'precondition', st.ghost['held'] == 1, 'the mutex is held'); st.ghost['held'] = 0
    def same_text(w, ex, st, ins, a, n):
        t = [TXT(zi(ex.i2p(st, a[i]).i if not isinstance(a[i], Ptr) else a[i].i), zi(ex.norm(st, a[i + 1], 64))) for i in (0, 2)]; return ('val', zb(Eq(*t)))
    def push_child(w, ex, st, ins, a, n):
        """Vec<u64>::push: the list of children grows by one; the blocks are laid out so that there is always room"""
        v, p = a[0], a[1]; k = ex.norm(st, ex.rd(st, ex.check_access(st, p, 8, False), 8, 'i'), 64); q = Ptr(v.r, v.i, v.o + w.h.off('vu_length'), v.n); ex.oblig(st, 'precondition', v.o == w.h.off('tn_children') and st.reg(v.r).name.startswith('nodes'), 'the list of children of a node')
        ln = ex.norm(st, ex.rd(st, ex.check_access(st, q, 8, False), 8, 'i'), 64); ex.wr(st, q, 8, 'i', simp(zi(ln) + 1))
        c2 = fresh_int('cap', 0, W - 1); st.assume(Gt(c2, ln)); ex.wr(st, Ptr(v.r, v.i, v.o + w.h.off('vu_capacity'), v.n), 8, 'i', c2)
        r = st.wreg(v.r); r.cells[w.och] = Cell(8, 'p', Upd(r.cells[w.och].v, v.i, Ptr(w.ch, w.CB(zi(v.i)), 0))); at = simp(w.CB(zi(v.i)) + zi(ln)); r = st.wreg(w.ch); r.cells[0] = Cell(8, 'i', Upd(r.cells[0].v, at, k)); return ('val', Ptr(w.ch, at, 0))
    def push_node(w, ex, st, ins, a, n):
        """Vec<Timing_Node>::push: all nodes move to new storage (references to them end), the new one is last"""
        v, p = a[0], a[1]; h = w.h; o = h.off; ok = v.r == w.fp and v.o == o('fp_nodes'); ex.oblig(st, 'precondition', ok, 'the nodes of the frame')
        if not ok: raise Unsupported('a node list outside the frame grows')
        old = w.nodes(st); ln = w.len_(st); cap = fresh_int('cap', 0, W); st.assume(Gt(cap, ln)); rd = lambda off, k='i': ex.rd(st, ex.check_access(st, Ptr(p.r, p.i, p.o + off, p.n), 8, False), 8, k); R = st.reg(old.r)
        new = h.areg(st, 'nodes moved', h.size('tn'), cap, heap=True); N = st.wreg(new)
        for f in NUM: N.cells[w.off[f]] = Cell(8, 'i', Upd(R.cells[w.off[f]].v, ln, ex.norm(st, rd(w.off[f]), 64)))
        for f in w.poff: N.cells[w.poff[f]] = Cell(8, 'p', Upd(R.cells[w.poff[f]].v, ln, rd(w.poff[f], 'p')))
        c = rd(w.och, 'p'); ex.oblig(st, 'precondition', c.r is None or c.n is True, 'a new node has no children yet')
        N.cells[w.och] = Cell(8, 'p', Upd(R.cells[w.och].v, ln, Ptr(w.ch, w.CB(zi(ln)), 0, True))); N.cells[w.occap] = Cell(8, 'i', Upd(R.cells[w.occap].v, ln, 0)); ex.oblig(st, 'precondition', Eq(ex.norm(st, rd(w.off['nchild']), 64), 0), 'a new node has no children yet')
        st.wreg(old.r).alive = False; b = o('fp_nodes'); h.put(st, w.fp, b + o('vn_data'), 8, Ptr(new, 0, 0)); h.put(st, w.fp, b + o('vn_length'), 8, simp(zi(ln) + 1)); h.put(st, w.fp, b + o('vn_capacity'), 8, cap); w.moved = True
        return ('val', Ptr(new, ln, 0))
    # ---- loops over the children of one node
    def cands(w, ex, L, st, mods):
        if w.mode is None: return []
        ms = sorted(mods, key=str)
        if w.mode[1] == 'find' or any(l[0] == 'phi' and isinstance(L.init[l[1]], Ptr) for l in ms): return [Inv(w, L, ms, w.mode)]
        return [Inv(w, L, ms, w.mode, i) for i in (0, 1)]   # an index loop: which of the counters that start at zero is the index
    def loc_match(w, st0, k, tok): return And(Eq(TXT(zi(w.P['fptr'](zi(k))), w.F['flen'](zi(k))), tok[0]), Eq(TXT(zi(w.P['sptr'](zi(k))), w.F['slen'](zi(k))), tok[1]), Eq(w.F['line'](zi(k)), tok[2]))
    def location(w, st, name='loc'):
        """a location value; returns (pointer, token)"""
        h = w.h; o = h.off; r = h.sreg(st, name, h.size('loc'), ro=True); t = []
        for s in ('function', 'file'):
            a = h.int(f'{name}.{s}', hi=1 << 47); l = h.int(f'{name}.{s}.len'); h.put(st, r, o('loc_' + s) + o('sv_data'), 8, Ptr('opaque', a, 0)); h.put(st, r, o('loc_' + s) + o('sv_length'), 8, l); t.append(TXT(zi(a), zi(l)))
        ln = h.int(name + '.line'); h.put(st, r, o('loc_line'), 8, ln); return Ptr(r), t + [ln]
    def kept(w, st, what, ch=None, n=None, **chg):
        """all nodes keep their fields, but for the stated changes (field -> function of index and old value)"""
        h = w.h; n = w.n if n is None else n
        for f in NUM:
            g = chg.get(f); h.forall(st, f'{what}: {f}', lambda k, f=f, g=g: Implies(w.rng(k), Eq(w.f(st, f, k), g(k, w.F[f](k)) if g else w.F[f](k))))
        for p, l in (('fptr', 'flen'), ('sptr', 'slen')): h.forall(st, what + ': the names of scopes', lambda k: Implies(w.rng(k), Eq(w.text(st, k, p, l), TXT(zi(w.P[p](k)), w.F[l](k)))))
        h.forall(st, what + ': the lists of children', lambda i, j: Implies(And(w.rng(i), Le(0, j), Lt(j, w.F['nchild'](i))), Eq(w.kid(st, i, j), w.child(i, j))), n=2)
class Inv:
    optional = False
    def __init__(i, w, L, mods, mode, index=None): i.index = index; i.w = w; i.L = L; i.mods = mods; i.mode = mode; i.enter = L.enter
    def is_index(i, zeros): zeros[0] += 1; return i.index == zeros[0] - 1
    def ghost0(i, v): return z3.IntVal(0)
    def ghostn(i, v): return fresh_int('passed', 0)
    def ghoststep(i, hv, v): return simp(hv.ghost + 1)
    def facts(i, v):
        zeros = [0]; w = i.w; j = v.ghost; node, m = i.mode[0], w.F['nchild'](zi(i.mode[0])); fs = [('no more than all children', 0, lambda: And(Le(0, j), Le(j, m)))]
        if i.mode[1] == 'find': has, mp = i.mode[2:4]; hit = And(has, Lt(mp, j)); curv = Ite(hit, w.child(node, mp), node)
        for loc in i.mods:
            if loc[0] == 'arr':
                if i.mode[1] == 'find' and getattr(w, 'fr', None) == loc[1] and loc[2] == w.h.off('fp_current'): g = lambda st, k, loc=loc: st.reg(loc[1]).cells[loc[2]].v.get(v.ex, zi(k)); fs.append(('the current scope of this frame is the match, others keep theirs', 1, lambda k, g=g: Eq(g(v.st, k), Ite(Eq(k, w.back), curv, g(i.enter, k)))))
                continue
            x = v.vals[loc[1]] if loc[0] == 'phi' else v.st.reg(loc[1]).cells[loc[2]].v
            x0 = i.L.init[loc[1]] if loc[0] == 'phi' else i.enter.reg(loc[1]).cells[loc[2]].v
            if isinstance(x0, Ptr): fs.append(('the iterator is at the next child', 0, lambda x=x, x0=x0: And(x.r == w.ch, x.o == 0, zb(x.n) == zb(x0.n), Eq(x.i, simp(w.CB(zi(node)) + j))) if isinstance(x, Ptr) else False)); fs.append(('the next child', 0, lambda x=x: Implies(Lt(j, m), Eq(w.CH(zi(x.i)), w.child(node, j))) if isinstance(x, Ptr) else False)); continue
            if isinstance(x0, bool) or (z3.is_expr(x0) and z3.is_bool(x0)):
                if i.mode[1] == 'find': fs.append(('a match was found', 0, lambda x=x: zb(x) == zb(hit)))
                continue
            wd = i.L.width(i.enter, loc)
            if wd is None: continue
            wd = wd if loc[0] == 'phi' else (wd * 8 if wd in (1, 8) else wd)
            y0 = v.ex.norm(i.enter, x0, wd); y = v.ex.norm(v.st, x, wd)
            if wd <= 8:
                if i.mode[1] == 'find': fs.append(('a match was found', 0, lambda y=y: Eq(y, Ite(hit, 1, 0))))
            elif i.mode[1] == 'find' and v.ex.valid(i.enter, Eq(y0, node)) and not (isinstance(y0, int) and loc[0] == 'phi'): fs.append(('the current scope is the match', 0, lambda y=y: Eq(y, curv)))
            elif i.mode[1] == 'sum' and v.ex.valid(i.enter, Eq(y0, 0)) and not i.is_index(zeros): fs.append(('the time of the children so far', 0, lambda y=y: Eq(y, w.S(node, j))))
            elif i.mode[1] == 'sum' and v.ex.valid(i.enter, Eq(y0, w.F['heir'](zi(node)))): fs.append(('what the children leave', 0, lambda y=y: Eq(y, simp((w.F['heir'](zi(node)) - w.S(node, j)) % M64))))
            elif v.ex.valid(i.enter, Eq(y0, 0)): fs.append(('the index of the next child', 0, lambda y=y: Eq(y, j))); fs.append(('the child there', 0, lambda y=y: Implies(Lt(j, m), Eq(w.CH(simp(w.CB(zi(node)) + y)), w.child(node, j)))))
        if i.mode[1] == 'find' and not any(f[0].startswith(('a match', 'the current scope')) for f in fs): fs.append(('no match so far', 0, lambda: Not(hit)))
        if i.mode[1] == 'sum':
            IN, WIT = i.mode[2:4]
            for loc in i.mods:
                if loc == ('arr', w.nd, w.off['self']): fs.append(('the subtrees passed have their own times', 1, lambda k: Implies(w.rng(k), Eq(w.f(v.st, 'self', k), Ite(And(IN(zi(node), zi(k)), Ne(k, node), Lt(WIT(zi(k)), j)), w.target(k), w.f(i.enter, 'self', k))))))
        return fs
    def __repr__(i): return 'children loop'
def find_world(h, tls=False):
    w = World(h, self_arg=tls); st = w.st; p, tok = w.location(st)
    has = fresh_bool('known'); mp = fresh_int('match'); m = w.F['nchild'](zi(w.cur)); st.assume(Implies(has, And(Le(0, mp), Lt(mp, m), w.loc_match(st, w.child(w.cur, mp), tok))))
    imp(st, 1, lambda j: Implies(And(Le(0, j), Lt(j, m), w.loc_match(st, w.child(w.cur, j), tok)), And(has, Eq(j, mp))), 'sibling scopes have different locations')
    w.mode = (w.cur, 'find', has, mp); return w, st, p, tok, has, mp
def tls(h, w, st, during=True):
    """the calling thread's profile: registered, with the frame as the last of its queue"""
    ex = h.ex; o = h.off; name = '_ZN3rpp7Profile11this_threadE'; t = ex.gptr(st, name).r; ex.add_contract(r'^_ZTWN3rpp7Profile11this_threadE$', lambda ex, st, ins, a, n: ('val', Ptr(t)))
    h.put(st, t, o('tp_registered'), 1, 1); h.put(st, t, o('tp_during'), 1, 1 if during else 0)
    q = o('tp_frames'); cap, ln, last = h.int('frames.capacity', hi=W), h.int('frames.length'), h.int('frames.last'); st.assume(And(Le(1, ln), Le(ln, cap), Lt(last, cap)))
    w.fr = h.areg(st, 'frames', h.size('fp'), cap, heap=True); b = simp(Ite(Eq(last, 0), zi(cap) - 1, zi(last) - 1)); w.back = b; w.tp = t
    for f, x in (('data', Ptr(w.fr, 0, 0)), ('length', ln), ('last', last), ('capacity', cap)): h.put(st, t, q + o('qf_' + f), 8, x)
    r = st.wreg(w.fr); v = o('fp_nodes'); NI = lambda n, hi=M64 - 1: Base(fresh_fn(n, I, 0, hi))
    w.old = {}
    for off, val in ((o('fp_current'), w.cur), (v + o('vn_length'), w.n), (v + o('vn_capacity'), w.cap)): bs = NI('other'); w.old[off] = bs; r.cells[off] = Cell(8, 'i', Upd(bs, b, val))
    ND = fresh_fn('nodesat', I, 1, W); r.cells[v + o('vn_data')] = Cell(8, 'p', Upd(Base(ND, w.nd), b, Ptr(w.nd, 0, 0)))
    r.guard = lambda ex, st, p, n, write: (ex.oblig(st, 'frame', Eq(p.i, b), 'only the last frame of this thread is accessed'), ex.oblig(st, 'race', st.ghost['held'] == 1, 'frames are only accessed with their mutex held'))
    # the frame is element b of the queue: rebind the accessors
    w.fp = w.fr; get = lambda st, off, k='i': st.reg(w.fr).cells[off].v.get(ex, b)
    w.cur_ = lambda st: get(st, o('fp_current')); w.len_ = lambda st: get(st, v + o('vn_length')); w.nodes = lambda st: get(st, v + o('vn_data'))
def ended(h, w, s, what):
    h.prove(s, what + ': the mutex is released', s.ghost['held'] == 0)
def post_enter(h, w, s, tok, has, mp):
    t = s.ghost['clock']; cur = w.cur; c = w.child(cur, mp)
    ended(h, w, s, 'enter'); h.prove(s, 'enter: the clock was read once', s.ghost['ticks'] == 1)
    if h.ex.valid(s, has):
        h.prove(s, 'enter: the known scope becomes current', Eq(w.cur_(s), c)); h.prove(s, 'enter: no record is added', Eq(w.len_(s), w.n))
        w.kept(s, 'enter a known scope', begin=lambda k, o: Ite(Eq(k, c), t, o), calls=lambda k, o: Ite(Eq(k, c), simp((o + 1) % M64), o)); return
    n = w.n; h.prove(s, 'enter: an unknown scope', Not(has)); h.prove(s, 'enter: the new scope becomes current', Eq(w.cur_(s), n)); h.prove(s, 'enter: one record is added', Eq(w.len_(s), simp(zi(n) + 1)))
    w.kept(s, 'enter a new scope', nchild=lambda k, o: Ite(Eq(k, cur), simp(o + 1), o)); h.prove(s, 'enter: it is the last child of the current scope', Eq(w.kid(s, cur, w.F['nchild'](zi(cur))), n))
    for f, x in (('begin', t), ('heir', 0), ('calls', 1), ('parent', cur), ('nchild', 0), ('line', tok[2])): h.prove(s, 'enter: the new record: ' + f, Eq(w.f(s, f, n), x))
    h.prove(s, 'enter: the new record: the location', And(Eq(w.text(s, n, 'fptr', 'flen'), tok[0]), Eq(w.text(s, n, 'sptr', 'slen'), tok[1])))
def c_enter(h, known):
    w, st, p, tok, has, mp = find_world(h); st.assume(has if known == 'known' else Not(has))
    for s, _ in h.must_return(h.run(st, 'fp_enter', [Ptr(w.fp), p])): post_enter(h, w, s, tok, has, mp)
def c_enter_thread(h):
    """a known scope entered through Profile::enter"""
    w, st, p, tok, has, mp = find_world(h, True); tls(h, w, st); st.assume(has)
    for s, _ in h.must_return(h.run(st, 'pf_enter', [p])): post_enter(h, w, s, tok, has, mp)
def c_outside(h, fn):
    w = World(h, self_arg=True); st = w.st; tls(h, w, st, during=False); args = [w.location(st)[0]] if fn == 'pf_enter' else []
    for s, _ in h.must_return(h.run(st, fn, args)): w.kept(s, 'outside a frame'); h.prove(s, 'outside a frame: the current scope', Eq(w.cur_(s), w.cur)); ended(h, w, s, 'outside a frame')
def c_exit(h):
    w = World(h, self_arg=True); st = w.st; tls(h, w, st); cur = w.cur
    for s, _ in h.must_return(h.run(st, 'pf_exit', [])):
        t = s.ghost['clock']; ended(h, w, s, 'exit'); h.prove(s, 'exit: the parent becomes current', Eq(w.cur_(s), w.F['parent'](zi(cur)))); h.prove(s, 'exit: no record is added', Eq(w.len_(s), w.n))
        w.kept(s, 'exit', end=lambda k, o: Ite(Eq(k, cur), t, o), heir=lambda k, o: Ite(Eq(k, cur), simp((o + t - w.F['begin'](zi(cur))) % M64), o))
def tree(h, w, st):
    """subtrees: IN(a, k); WIT(k, a) is the child of a whose subtree holds k; S(i, j) is the time of the first j children"""
    IN = z3.Function(fresh_name('in'), I, I, B); S = z3.Function(fresh_name('childtime'), I, I, I); F = w.F; w.S = lambda i, j: S(zi(i), zi(j)); w.IN = IN
    w.target = lambda k, s=None: simp(((w.f(s, 'heir', k) if s is not None else F['heir'](zi(k))) - S(zi(k), F['nchild'](zi(k)))) % M64)
    imp(st, 1, lambda i: Implies(w.rng(i), And(Eq(S(i, z3.IntVal(0)), 0), IN(i, i))), 'no children'); imp(st, 2, lambda i, j: Implies(And(w.rng(i), Le(0, j), Lt(j, F['nchild'](i))), And(Eq(S(i, simp(j + 1)), simp(S(i, j) + F['heir'](w.child(i, j)))), Le(0, S(i, j)), Lt(S(i, simp(j + 1)), M64))), 'the time of the children')
def rec_contract(h, w):
    """compute_self_times(c): exactly the nodes of the subtree of c get their own time"""
    def g(ex, st, ins, a, n):
        c = ex.norm(st, a[1], 64); ex.oblig(st, 'precondition', w.rng(c), 'the index of a node'); ex.oblig(st, 'precondition', a[0].r == w.fp and a[0].o == 0, 'the same frame')
        if w.idx is not None: ex.oblig(st, 'decreases', Lt(w.idx, c), 'the recursion goes to later nodes')
        s0 = st.copy(); r = st.wreg(w.nodes(st).r); old = r.cells[w.off['self']].v; new = fresh_fn('self', I, 0, M64 - 1); r.cells[w.off['self']] = Cell(8, 'i', Base(new))
        imp(st, 1, lambda k: Implies(w.rng(k), Eq(new(k), Ite(w.IN(zi(c), k), w.target(k, s0), old.get(ex, k)))), 'the subtree has its own times'); return None
    w.idx = None; h.ex.add_contract(r'^_ZN3rpp7Profile13Frame_Profile18compute_self_timesEm$', g)
def c_self(h):
    w = World(h); st = w.st; tree(h, w, st); rec_contract(h, w); i = w.idx = h.int('idx'); st.assume(Lt(i, w.n)); WIT = z3.Function(fresh_name('via'), I, I); IN = w.IN; m = w.F['nchild'](zi(i))
    imp(st, 1, lambda k: Implies(And(w.rng(k), IN(zi(i), k), Ne(k, i)), And(Le(0, WIT(k)), Lt(WIT(k), m), IN(w.child(i, WIT(k)), k))), 'a node of the subtree is in the subtree of a child')
    imp(st, 2, lambda k, j: Implies(And(w.rng(k), Le(0, j), Lt(j, m), IN(w.child(i, j), k)), And(IN(zi(i), k), Ne(k, i), Eq(WIT(k), j))), 'subtrees are disjoint')
    w.mode = (i, 'sum', IN, WIT)
    for s, _ in h.must_return(h.run(st, '_ZN3rpp7Profile13Frame_Profile18compute_self_timesEm', [Ptr(w.fp), i])):
        w.kept(s, 'own times', self=lambda k, o: Ite(IN(zi(i), k), w.target(k), o)); h.prove(s, 'own times: current scope', Eq(w.cur_(s), w.cur))
def c_end(h, ok):
    w = World(h); st = w.st; tree(h, w, st); rec_contract(h, w)
    if ok == 'open': st.assume(Ne(w.cur, 0)); return h.never_returns(h.run(st, 'fp_end', [Ptr(w.fp)]))
    st.assume(Eq(w.cur, 0)); F = w.F; imp(st, 1, lambda k: Implies(w.rng(k), w.IN(z3.IntVal(0), k)), 'every node belongs to the root')
    root = lambda t: simp((t - F['begin'](z3.IntVal(0))) % M64)
    for s, _ in h.must_return(h.run(st, 'fp_end', [Ptr(w.fp)])):
        t = s.ghost['clock']; w.kept(s, 'end', end=lambda k, o: Ite(Eq(k, 0), t, o), heir=lambda k, o: Ite(Eq(k, 0), root(t), o), self=lambda k, o: simp((Ite(Eq(k, 0), root(t), F['heir'](zi(k))) - w.S(k, F['nchild'](zi(k)))) % M64)); h.prove(s, 'end: the root stays current', Eq(w.cur_(s), 0))
def c_begin(h):
    w = World(h, empty=True); st = w.st
    for s, r in h.must_return(h.run(st, 'fp_begin', [Ptr(w.fp)])):
        t = s.ghost['clock']; h.prove(s, 'begin: one record', Eq(w.len_(s), 1)); h.prove(s, 'begin: it is current', Eq(w.cur_(s), 0)); h.prove(s, 'begin: the time', Eq(r, t))
        for f, x in (('begin', t), ('heir', 0), ('parent', 0), ('nchild', 0)): h.prove(s, 'begin: the root record: ' + f, Eq(w.f(s, f, 0), x))
def c_loc(h):
    w = World(h); st = w.st; a, ta = w.location(st, 'a'); b, tb = w.location(st, 'b')
    for s, r in h.must_return(h.run(st, 'loc_eq', [a, b])):
        y = r if isinstance(r, bool) or (z3.is_expr(r) and z3.is_bool(r)) else Ne(h.ex.norm(s, r, 1), 0); h.prove(s, 'locations are equal exactly when function, file and line are', zb(y) == zb(And(*[Eq(x, z) for x, z in zip(ta, tb)])))
def c_end_frame(h):
    w = World(h, self_arg=True); st = w.st; tls(h, w, st); st.ghost['ends'] = 0
    def end(ex, st, ins, a, n): ex.oblig(st, 'precondition', And(a[0].r == w.fr, a[0].o == 0, Eq(a[0].i, w.back)) if a[0].r == w.fr else False, 'the current frame'); ex.oblig(st, 'race', st.ghost['held'] == 1, 'frames are only accessed with their mutex held'); st.ghost['ends'] += 1; return None
    h.ex.add_contract(r'^_ZN3rpp7Profile13Frame_Profile3endEv$', end)
    for s, _ in h.must_return(h.run(st, 'pf_end_frame', [])): h.prove(s, 'end of a frame: the frame is closed once', s.ghost['ends'] == 1); h.prove(s, 'end of a frame: later scopes are outside', Eq(h.get(s, w.tp, h.off('tp_during'), 1), 0)); ended(h, w, s, 'end of a frame'); w.kept(s, 'end of a frame')
class AnyFloat:
    """the float results (durations in seconds) are left unconstrained"""
    X = z3.Real('duration')
    def const(self, *a): return self.X
    neg = fresh = bin = fn = const
    def cmp(self, *a): return fresh_bool('float comparison')
    def conv(self, ex, st, op, a, t0, t1): return fresh_int('from float', 0, M64 - 1) if t1[0] == 'int' else self.X
def c_begin_frame(h, kind):
    """the queue of frames by contract: a full queue drops its oldest frame, the new one is last"""
    w = World(h, self_arg=True); st = w.st; tls(h, w, st, during=False); o = h.off; ex = h.ex; ex.fp = AnyFloat(); q = o('tp_frames'); ln, cap = h.int('recorded', hi=W), h.int('room', hi=W); h.put(st, w.tp, q + o('qf_length'), 8, ln); h.put(st, w.tp, q + o('qf_capacity'), 8, cap); st.ghost['log'] = ()
    st.assume({'empty': Eq(ln, 0), 'room': And(Lt(0, ln), Lt(ln, cap)), 'full': And(Lt(0, ln), Eq(ln, cap))}[kind]); new = h.sreg(st, 'new frame', h.size('fp'))
    def step(st, x, a): ok = a.r == w.tp and a.o == q; ex.oblig(st, 'precondition', ok, 'the queue of this thread'); ex.oblig(st, 'race', st.ghost['held'] == 1, 'frames are only accessed with their mutex held'); st.ghost['log'] = st.ghost['log'] + (x,)
    def pop(ex, st, ins, a, n): step(st, 'drop', a[0]); l = h.get(st, w.tp, q + o('qf_length')); ex.oblig(st, 'precondition', Gt(l, 0), 'the queue is not empty'); h.put(st, w.tp, q + o('qf_length'), 8, simp(zi(l) - 1)); return None
    def add(ex, st, ins, a, n): step(st, 'add', a[0]); l = h.get(st, w.tp, q + o('qf_length')); h.put(st, w.tp, q + o('qf_length'), 8, simp(zi(l) + 1)); return ('val', Ptr(new))
    def prev(ex, st, ins, a, n): step(st, 'previous', a[0]); ex.oblig(st, 'precondition', Gt(h.get(st, w.tp, q + o('qf_length')), 1), 'there is a previous frame'); st.assume(Gt(w.n, 0)); r = h.sreg(st, 'previous frame', h.size('fp'), ro=True); w.frame(st, r); return ('val', Ptr(r))
    def open_(ex, st, ins, a, n): ex.oblig(st, 'precondition', a[0].r == new and a[0].o == 0 and 'add' in st.ghost['log'], 'the new frame'); st.ghost['log'] = st.ghost['log'] + ('open',); return w.clock(ex, st, ins, a, n)
    ex.add_contract(r'^_ZN3rpp6Thread14perf_frequencyEv$', lambda ex, st, ins, a, n: ('val', fresh_int('frequency', 1, M64 - 1)))
    Q = r'^_ZN3rpp5QueueINS_7Profile13Frame_Profile.*'
    for pat, f in ((Q + r'3popEv$', pop), (Q + r'(7emplace|4push)', add), (Q + r'11penultimateEv$', prev), (r'^_ZN3rpp7Profile13Frame_Profile5beginEv$', open_)): ex.add_contract(pat, f)
    for s, _ in h.must_return(h.run(st, 'pf_begin_frame', [])):
        l = tuple(x for x in s.ghost['log'] if x != 'previous'); h.prove(s, 'begin of a frame: a full queue drops its oldest frame, then one frame is added and opened', l == (('drop',) if kind == 'full' else ()) + ('add', 'open')); h.prove(s, 'begin of a frame: later scopes are inside', Eq(h.get(s, w.tp, o('tp_during'), 1), 1)); ended(h, w, s, 'begin of a frame')
CONTRACTS = [('end-frame', c_end_frame), ('begin-frame', c_begin_frame, 'empty'), ('begin-frame', c_begin_frame, 'room'), ('begin-frame', c_begin_frame, 'full'), ('enter', c_enter, 'known'), ('enter', c_enter, 'new'), ('thread-enter', c_enter_thread), ('enter-outside', c_outside, 'pf_enter'), ('exit-outside', c_outside, 'pf_exit'), ('exit', c_exit), ('self-times', c_self), ('end', c_end, 'closed'), ('end', c_end, 'open'), ('begin', c_begin), ('location', c_loc)]
ASSUMPTIONS = ['the clock never goes back (Thread::perf_counter)', 'growing the node list and the child lists is the contract of Vec::push (C01)', 'equality of texts is the contract of String_View == (C17)', 'the times of the children of one scope together fit in 64 bits', 'the calling thread is registered; iterate_timings is not under contract', 'the queue of frames is the contract of Queue (C01)', 'the tree is the frame of the calling thread: other threads only read it under its mutex']
