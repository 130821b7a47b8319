"""C28: allocation accounting. The statistics of all names are one array region indexed by the text of the name; the live blocks of a name
(current_set) are the ghost map (name, address) -> size that the contracts of Map operate on."""
from contract import *
import vexec, contract
from vexec import Base, Upd, Cell, NULL, UNDEF
from terms import QFact, fresh_fn, fresh_name, fresh_int, fresh_bool, Unsupported
SRC = 'account.cpp'
M64 = 1 << 64
TXT = z3.Function('text', I, I, I)
CNT = ('allocates', 'frees', 'allocate_size', 'free_size', 'high_water', 'current_set_size')
def addr(ex, st, p):
    if isinstance(p, Ptr): return 0 if p.r is None else zi(p.i) if p.r == 'opaque' else ex.p2i(st, p)
    return ex.norm(st, p, 64)
class World:
    def __init__(w, h, during):
        w.h = h; ex = h.ex; o = h.off; w.st = st = h.state(); G = h.m.globals
        w.pr = h.areg(st, 'statistics', h.size('ap'), 1 << 62); r = st.wreg(w.pr); w.F = {f: fresh_fn(f, I, 0, (1 << 62)) for f in CNT}
        for f in CNT: r.cells[o('ap_' + f)] = Cell(8, 'i', Base(w.F[f]))
        r.guard = lambda ex, st, p, n, wr: ex.oblig(st, 'race', w.alock in st.ghost['held'], 'statistics are only accessed with their mutex held')
        w.allocs = ex.gptr(st, '_ZN3rpp7Profile6allocsE').r; w.alock = (ex.gptr(st, '_ZN3rpp7Profile11allocs_lockE').r, 0); st.ghost['held'] = (); st.ghost['events'] = []; st.ghost['dead'] = []
        w.LIVE = z3.Function(fresh_name('live'), I, I, B); w.SZ = z3.Function(fresh_name('blocksize'), I, I, I); st.ghost['live'] = lambda n, a: w.LIVE(zi(n), zi(a)); st.ghost['sz'] = lambda n, a: w.SZ(zi(n), zi(a))
        t = ex.gptr(st, '_ZN3rpp7Profile11this_threadE').r; w.tp = t; w.flock = (t, o('tp_lock')); h.put(st, t, o('tp_registered'), 1, 1); h.put(st, t, o('tp_during'), 1, 1 if during else 0); q = o('tp_frames'); w.during = during
        cap, ln, last = h.int('frames.capacity', hi=1 << 40), h.int('frames.length'), h.int('frames.last'); st.assume(And(Le(1, ln), Le(ln, cap), Lt(last, cap))); w.fr = h.areg(st, 'frames', h.size('fp'), cap, heap=True); w.back = simp(Ite(Eq(last, 0), zi(cap) - 1, zi(last) - 1))
        for f, x in (('data', Ptr(w.fr, 0, 0)), ('length', ln), ('last', last), ('capacity', cap)): h.put(st, t, q + o('qf_' + f), 8, x)
        K = r'^_ZNK?3rpp3MapIPvm.*'
        for pat, f in ((r'^_ZTWN3rpp7Profile11this_threadE$', lambda ex, st, ins, a, n: ('val', Ptr(t))), (r'^_ZN3rpp3MapINS_11String_ViewENS_7Profile13Alloc_Profile.*13get_or_insert', w.entry), (K + r'8containsERKS1_$', w.contains), (K + r'(6insert|7emplace)[EI]', w.insert), (K + r'7try_getERKS1_$', w.try_get), (K + r'(5erase|9try_erase)ERKS1_$', w.erase),
                       (r'^_ZN3rpp3VecINS_7Profile5AllocE.*(4push|7emplace)', w.event), (r'^_ZN3rpp6Thread5Mutex4lockEv$', w.lock), (r'^_ZN3rpp6Thread5Mutex6unlockEv$', w.unlock), (r'^_ZN3rpp3Log3logI', lambda ex, st, ins, a, n: None), (r'^_ZN3rpp3Log8Location4make', lambda ex, st, ins, a, n: None)): ex.add_contract(pat, f)
    def lock(w, ex, st, ins, a, n):
        k = (a[0].r, a[0].o); ex.oblig(st, 'precondition', k not in st.ghost['held'], 'the mutex is not locked twice'); st.ghost['held'] = st.ghost['held'] + (k,)
    def unlock(w, ex, st, ins, a, n):
        k = (a[0].r, a[0].o); ex.oblig(st, 'precondition', k in st.ghost['held'], 'the mutex is held'); st.ghost['held'] = tuple(x for x in st.ghost['held'] if x != k)
    def entry(w, ex, st, ins, a, n):
        """the statistics of a name (all zero, no live block, for a name not seen before: contract `new`)"""
        ex.oblig(st, 'precondition', a[0].r == w.allocs and w.alock in st.ghost['held'], 'the table of statistics, with its mutex held'); p = a[1]; rd = lambda off, k: ex.rd(st, ex.check_access(st, Ptr(p.r, p.i, p.o + off, p.n), 8, False), 8, k)
        return ('val', Ptr(w.pr, TXT(zi(addr(ex, st, rd(w.h.off('sv_data'), 'p'))), zi(ex.norm(st, rd(w.h.off('sv_length'), 'i'), 64))), 0))
    def where(w, ex, st, m, kp):
        ok = isinstance(m, Ptr) and m.r == w.pr and m.o == w.h.off('ap_set') and w.alock in st.ghost['held']; ex.oblig(st, 'precondition', ok, 'the live blocks of a name, with the mutex held')
        if not ok: raise Unsupported('a map that is not the set of live blocks')
        return m.i, zi(addr(ex, st, ex.rd(st, ex.check_access(st, kp, 8, False), 8, 'p')))
    def contains(w, ex, st, ins, a, n): return ('val', zb(st.ghost['live'](*w.where(ex, st, a[0], a[1]))))
    def insert(w, ex, st, ins, a, n):
        p, k = w.where(ex, st, a[0], a[1]); v = ex.norm(st, ex.rd(st, ex.check_access(st, a[2], 8, False), 8, 'i'), 64); L, S = st.ghost['live'], st.ghost['sz']
        st.ghost['live'] = lambda x, y: Or(And(Eq(x, p), Eq(y, k)), L(x, y)); st.ghost['sz'] = lambda x, y: Ite(And(Eq(x, p), Eq(y, k)), v, S(x, y)); return ('val', Ptr(w.box(st, v)))
    def box(w, st, v): r = w.h.sreg(st, 'block size', 8, ro=True); w.h.put(st, r, 0, 8, v); return r
    def try_get(w, ex, st, ins, a, n):
        p, k = w.where(ex, st, a[1], a[2]); o = a[0]; lv = st.ghost['live'](p, k); outs = []
        for c in (True, False):
            s = st.copy(); s.assume(lv if c else Not(lv)); ex.wr(s, ex.check_access(s, Ptr(o.r, o.i, o.o + w.h.off('opt_ok'), o.n), 1, True), 1, 'i', 1 if c else 0)
            if c: r = w.box(s, s.ghost['sz'](p, k)); s.ghost['boxes'] = s.ghost.get('boxes', []) + [r]; ex.wr(s, ex.check_access(s, Ptr(o.r, o.i, o.o + w.h.off('opt_value'), o.n), 8, True), 8, 'p', Ptr(r))
            outs.append((s, None))
        return outs
    def erase(w, ex, st, ins, a, n):
        p, k = w.where(ex, st, a[0], a[1]); L = st.ghost['live']; ex.oblig(st, 'precondition', L(p, k), 'an erased block is recorded'); st.ghost['live'] = lambda x, y: And(Not(And(Eq(x, p), Eq(y, k))), L(x, y))
        for r in st.ghost.get('boxes', []): st.wreg(r).alive = False   # references into the map end
        return None if ins.ty[0] == 'void' else ('val', True)
    def event(w, ex, st, ins, a, n):
        v, p = a[0], a[1]; ex.oblig(st, 'precondition', And(v.r == w.fr, v.o == w.h.off('fp_allocations'), Eq(v.i, w.back)) if v.r == w.fr else False, 'the event goes to the current frame of this thread'); ex.oblig(st, 'race', w.flock in st.ghost['held'], 'frames are only accessed with their mutex held')
        rd = lambda off, k: ex.rd(st, ex.check_access(st, Ptr(p.r, p.i, p.o + off, p.n), 8, False), 8, k); o = w.h.off
        st.ghost['events'] = st.ghost['events'] + [(TXT(zi(addr(ex, st, rd(o('pa_name') + o('sv_data'), 'p'))), zi(ex.norm(st, rd(o('pa_name') + o('sv_length'), 'i'), 64))), addr(ex, st, rd(o('pa_address'), 'p')), ex.norm(st, rd(o('pa_size'), 'i'), 64))]; return ('val', UNDEF)
    def get(w, st, f, k): return st.reg(w.pr).cells[w.h.off('ap_' + f)].v.get(w.h.ex, zi(k))
def c_alloc(h, what, during):
    w = World(h, during == 'frame'); st = w.st; o = h.off; r = h.sreg(st, 'event', h.size('pa'), ro=True); p, l, a, n = h.int('name', hi=1 << 47), h.int('name.len'), h.int('address', hi=1 << 47), h.int('size', hi=1 << 47); st.assume(Gt(a, 0))
    h.put(st, r, o('pa_name') + o('sv_data'), 8, Ptr('opaque', p, 0)); h.put(st, r, o('pa_name') + o('sv_length'), 8, l); h.put(st, r, o('pa_address'), 8, Ptr('opaque', a, 0)); h.put(st, r, o('pa_size'), 8, n)
    t = TXT(zi(p), zi(l)); L = w.LIVE(t, zi(a)); sz = w.SZ(t, zi(a)); F = {f: w.F[f](t) for f in CNT}; st.assume(And(Le(0, sz), Le(sz, 1 << 47), Le(0, t), Lt(t, 1 << 62), *[Le(F[f], 1 << 60) for f in CNT])); chg = {}
    if what == 'alloc': st.assume(And(Gt(n, 0), Not(L))); chg = dict(allocates=F['allocates'] + 1, allocate_size=F['allocate_size'] + n, current_set_size=F['current_set_size'] + n, high_water=Ite(Gt(simp(F['current_set_size'] + n), F['high_water']), simp(F['current_set_size'] + n), F['high_water']))
    elif what == 'free': st.assume(And(Eq(n, 0), L, Le(sz, F['current_set_size']))); chg = dict(frees=F['frees'] + 1, free_size=F['free_size'] + sz, current_set_size=F['current_set_size'] - sz)
    else: st.assume(And(Eq(n, 0), Not(L)))
    for s, _ in h.must_return(h.run(st, 'pa_alloc', [Ptr(r)])):
        for f in CNT: h.forall(s, f'{what}: {f}', lambda k, f=f: Implies(And(Le(0, k), Lt(k, 1 << 62)), Eq(w.get(s, f, k), Ite(Eq(k, t), simp(chg[f]), w.F[f](k)) if f in chg else w.F[f](k))))
        h.forall(s, what + ': exactly the blocks not freed are live', lambda k, b: zb(s.ghost['live'](k, b)) == zb(Or(w.LIVE(k, b), And(Eq(k, t), Eq(b, a))) if what == 'alloc' else And(w.LIVE(k, b), Not(And(Eq(k, t), Eq(b, a)))) if what == 'free' else w.LIVE(k, b)), n=2)
        h.forall(s, what + ': with their sizes', lambda k, b: Implies(s.ghost['live'](k, b), Eq(s.ghost['sz'](k, b), Ite(And(Eq(k, t), Eq(b, a)), n, w.SZ(k, b)) if what == 'alloc' else w.SZ(k, b))), n=2)
        e = s.ghost['events']; h.prove(s, what + ': recorded in the current frame', (len(e) == 1 and And(Eq(e[0][0], t), Eq(e[0][1], a), Eq(e[0][2], n))) if w.during else not e); h.prove(s, what + ': all mutexes are released', not s.ghost['held'])
def c_new(h):
    st = h.state(); r = h.sreg(st, 'new', h.size('ap'))
    for s, _ in h.must_return(h.run(st, 'ap_ctor', [Ptr(r)])):
        for f in CNT: h.prove(s, 'a new name has no ' + f, Eq(h.get(s, r, h.off('ap_' + f)), 0))
        for i in range(0, h.size('ap') - h.off('ap_set'), 8): x = s.reg(r).cells.get(h.off('ap_set') + i); h.prove(s, 'and no live block', Eq(h.get(s, r, h.off('ap_set') + i), 0) if x is not None and x.k == 'i' else x is not None and x.v.r is None)
class Sys:
    """malloc, free and the atomic counter"""
    def __init__(y, h, st):
        y.h = h; y.cnt = h.ex.gptr(st, [g for g in h.m.globals if g.startswith('_ZN3rpp') and g.endswith('12g_net_allocsE') or g.endswith('g_net_allocsE')][0]).r; st.ghost['net'] = 0; st.ghost['log'] = []
        for pat, f in ((r'^malloc$', y.malloc), (r'^free$', y.free), (r'^_ZN3rpp6Thread6Atomic4incrEv$', lambda *a: y.step(*a, d=1)), (r'^_ZN3rpp6Thread6Atomic4decrEv$', lambda *a: y.step(*a, d=-1)), (r'^_ZNK3rpp6Thread6Atomic4loadEv$', y.load)): h.ex.add_contract(pat, f)
        h.ex.add_contract(r'^_ZN3rpp3Log', lambda ex, st, ins, a, n: None if ins.ty[0] == 'void' else ('val', UNDEF))
    def malloc(y, ex, st, ins, a, n):
        ok = st.copy(); k = fresh_int('block', 1, 1 << 47); ok.ghost['log'] = ok.ghost['log'] + [('malloc', ex.norm(ok, a[0], 64), k)]; return [(ok, Ptr('opaque', k, 0)), (st, NULL)]
    def free(y, ex, st, ins, a, n): st.ghost['log'] = st.ghost['log'] + [('free', addr(ex, st, a[0]))]; return None
    def step(y, ex, st, ins, a, n, d):
        ex.oblig(st, 'precondition', a[0].r == y.cnt, 'the counter of live blocks'); st.ghost['net'] = st.ghost['net'] + d; return ('val', fresh_int('net', 0, M64 - 1))
    def load(y, ex, st, ins, a, n): ex.oblig(st, 'precondition', a[0].r == y.cnt, 'the counter of live blocks'); st.ghost['loaded'] = fresh_int('net', 0, M64 - 1); return ('val', st.ghost['loaded'])
def c_sys_alloc(h):
    st = h.state(); y = Sys(h, st); n = h.int('n')
    for s, r in h.returns(h.run(st, 'sa_alloc', [n])) if hasattr(h, 'returns') else [(s, v) for k, s, v in h.run(st, 'sa_alloc', [n]) if k == 'ret']:
        l = s.ghost['log']; h.prove(s, 'one block of the given size is taken from the system', len(l) == 1 and l[0][0] == 'malloc' and Eq(l[0][1], n)); h.prove(s, 'and returned', Eq(addr(h.ex, s, r), l[0][2]) if l else False); h.prove(s, 'the balance grows by one', s.ghost['net'] == 1)
def c_sys_free(h, what):
    st = h.state(); y = Sys(h, st); a = h.int('address', hi=1 << 47); st.assume(Gt(a, 0))
    for s, _ in h.must_return(h.run(st, 'sa_free', [Ptr('opaque', a, 0) if what == 'block' else NULL])):
        l = s.ghost['log']
        if what == 'null': h.prove(s, 'nothing happens', not l and s.ghost['net'] == 0); continue
        h.prove(s, 'the block is returned to the system once', len(l) == 1 and l[0][0] == 'free' and Eq(l[0][1], a)); h.prove(s, 'the balance shrinks by one', s.ghost['net'] == -1)
def c_net(h):
    st = h.state(); y = Sys(h, st)
    for s, r in h.must_return(h.run(st, 'sa_net', [])): h.prove(s, 'the balance', Eq(h.ex.norm(s, r, 64), s.ghost['loaded']))
def mall(h, name):
    """Mallocator over contracts of sys_alloc, sys_free and Profile::alloc"""
    st = h.state(); ex = h.ex; o = h.off; st.ghost['log'] = []; w = len(name)
    def sa(ex, st, ins, a, n): k = fresh_int('block', 1, 1 << 47); st.ghost['log'] = st.ghost['log'] + [('sys_alloc', ex.norm(st, a[0], 64), k)]; return ('val', Ptr('opaque', k, 0))
    def sf(ex, st, ins, a, n): st.ghost['log'] = st.ghost['log'] + [('sys_free', addr(ex, st, a[0]))]; return None
    def pa(ex, st, ins, a, n):
        p = a[0]; rd = lambda off, k: ex.rd(st, ex.check_access(st, Ptr(p.r, p.i, p.o + off, p.n), 8, False), 8, k); q = rd(o('pa_name') + o('sv_data'), 'p'); ex.oblig(st, 'precondition', Eq(ex.norm(st, rd(o('pa_name') + o('sv_length'), 'i'), 64), w), 'the name of the allocator: length')
        b = vexec.bytes_read(ex, st, q, w, 'name'); [ex.oblig(st, 'precondition', Eq(b(i), ord(c)), 'the name of the allocator') for i, c in enumerate(name)]
        st.ghost['log'] = st.ghost['log'] + [('profile', addr(ex, st, rd(o('pa_address'), 'p')), ex.norm(st, rd(o('pa_size'), 'i'), 64))]; return None
    for pat, f in ((r'^_ZN3rpp9sys_allocEm$', sa), (r'^_ZN3rpp8sys_freeEPv$', sf), (r'^_ZN3rpp7Profile5allocENS0_5AllocE$', pa)): ex.add_contract(pat, f)
    return st
def c_mall(h, fn, name, zero):
    st = mall(h, name); log = name == 'Test'; a = h.int('n' if fn.endswith('alloc') else 'address', hi=1 << 47); st.assume(Eq(a, 0) if zero == 'zero' else Gt(a, 0)); al = fn.endswith('alloc')
    for s, r in h.must_return(h.run(st, fn, [a if al else (NULL if zero == 'zero' else Ptr('opaque', a, 0))])):
        l = s.ghost['log']
        if zero == 'zero': h.prove(s, 'nothing is recorded', not l); al and h.prove(s, 'no block', Eq(addr(h.ex, s, r), 0)); continue
        h.prove(s, 'one system call' + (' and one record' if log else ''), [x[0] for x in l] == (['sys_alloc', 'profile'] if al else ['profile', 'sys_free'])[0 if log or al else 1:(2 if log or not al else 1)])
        for x in l:
            if x[0] == 'sys_alloc': h.prove(s, 'of the given size', Eq(x[1], a)); h.prove(s, 'the block is returned', Eq(addr(h.ex, s, r), x[2])); blk = x[2]
            elif x[0] == 'profile': h.prove(s, 'the record names the block', Eq(x[1], blk if al else a)); h.prove(s, 'and its size', Eq(x[2], a if al else 0))
            else: h.prove(s, 'of the given block', Eq(x[1], a))
CONTRACTS = [('record', c_alloc, k, d) for k in ('alloc', 'free', 'unknown') for d in ('frame', 'outside')] + [('new', c_new), ('sys-alloc', c_sys_alloc), ('sys-free', c_sys_free, 'block'), ('sys-free', c_sys_free, 'null'), ('net', c_net)] + [
    ('allocator', c_mall, f, n, z) for f, n in (('mt_alloc', 'Test'), ('mt_free', 'Test'), ('mq_alloc', 'Quiet'), ('mq_free', 'Quiet')) for z in ('some', 'zero')]
ASSUMPTIONS = ['Map operations by contract (C06): the live blocks of a name are a finite map', 'a block the system hands out is not live (no event allocates an address twice)', 'counters stay below 2^60', 'malloc/free of the C library; Atomic::incr/decr/load are atomic', 'names that are equal texts are one allocator (C17)', 'Profile::finalize only prints the statistics and is not under contract']
