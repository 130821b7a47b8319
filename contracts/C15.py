"""C15: object pools. The nodes of a pool are one array region (one block of the underlying allocator each); ghost state records for each
node whether it is allocated (alive), whether an object lives in it (life), and the idle list as a sequence SEQ(0..m-1) of distinct nodes."""
from contract import *
import vexec, contract
from vexec import Base, Upd, Cell, NULL
from terms import QFact, fresh_fn, fresh_name, fresh_int
SRC = 'pool.cpp'
def imp(st, n, mk, name):
    ks = [z3.Int(fresh_name('q')) for _ in range(n)]; b = zb(mk(*ks)); st.q.append(QFact(ks, b, [vexec.trig_of(b, k) for k in ks], name))
class List:
    def __init__(l, rid, off, m, seq, pos): l.rid = rid; l.off = off; l.m = m; l.seq = seq; l.pos = pos
    def rng(l, j): return And(Le(0, j), Lt(j, l.m))
    def idle(l, k): return And(l.rng(l.pos(k)), Eq(l.seq(l.pos(k)), k))
class World:
    def __init__(w, h, kind, lists=1, empty=False):
        w.h = h; ex = h.ex; w.kind = kind; w.st = st = h.state(); w.size = h.size('node_' + ('s' if kind == 's' else 'o')) if kind != 'p' else h.size('obj'); w.off = h.off('fl_list' if kind != 's' else 'fs_list')
        w.locked = kind == 'p'; w.dtor = kind != 's'; w.lists = []; w.fresh = []
        w.nd = h.areg(st, 'nodes', w.size, 1 << 48); r = st.wreg(w.nd); w.NX = fresh_fn('next', I, 0, (1 << 48) - 1); r.cells[0] = Cell(8, 'p', Base(w.NX, w.nd, z3.Function(fresh_name('next.null'), I, B))); r.guard = w.guard
        w.AL, w.LF = fresh_fn('alive', I, 0, 1), fresh_fn('life', I, 0, 1)
        w.al = h.areg(st, 'alive', 8, 1 << 48); st.wreg(w.al).cells[0] = Cell(8, 'i', Base(w.AL)); w.lf = h.areg(st, 'life', 8, 1 << 48); st.wreg(w.lf).cells[0] = Cell(8, 'i', Base(w.LF))
        for n in range(lists):
            if w.locked:
                g = [x for x in h.m.globals if x.startswith('_ZN3rpp6detail4PoolILm16EE') and x.endswith('4listE')]
                if len(g) != 1: raise vexec.Unsupported('the idle list of the pool is not found')
                rid = ex.gptr(st, g[0]).r; st.wreg(rid).guard = w.lguard
            else: rid = h.sreg(st, f'list{n}', h.size('fl' if kind != 's' else 'fs'))
            l = List(rid, w.off, 0 if empty else h.int(f'idle{n}', hi=1 << 40), fresh_fn('seq', I, 0, (1 << 48) - 1), fresh_fn('pos', I)); w.lists.append(l); w.put(st, l, l.m, l.seq)
            imp(st, 1, lambda j, l=l: Implies(l.rng(j), And(Eq(l.pos(l.seq(j)), j), Eq(w.AL(l.seq(j)), 1), Eq(w.LF(l.seq(j)), 0))), 'idle blocks are distinct, allocated and unoccupied')
            imp(st, 1, lambda j, l=l: Implies(l.rng(j), w.linked(st, l.seq(j), Eq(j, simp(zi(l.m) - 1)), l.seq(simp(j + 1)))), 'idle blocks are linked')
        if lists == 2: a, b = w.lists; imp(st, 2, lambda i, j: Implies(And(a.rng(i), b.rng(j)), Ne(a.seq(i), b.seq(j))), 'two pools share no block')
        st.ghost['held'] = 0
        B_ = r'(_ZN7Backing|_ZN3rpp10MallocatorI.*)'
        for pat, f in ((B_ + r'5allocEm$', w.alloc), (B_ + r'4freeEPv$', w.free), (r'^_ZN3(Obj)C[12]Em$|^_ZN5SmallC[12]Em$', w.ctor), (r'^_ZN3ObjD[12]Ev$', w.dtor_), (r'^_ZN3rpp6Thread5Mutex4lockEv$', w.lock), (r'^_ZN3rpp6Thread5Mutex6unlockEv$', w.unlock)): ex.add_contract(pat, f)
        ex.force_summary = lambda fn, hd: True; ex.loop_inv = w.cands
    def put(w, st, l, m, seq):
        w.h.put(st, l.rid, l.off, 8, Ptr(w.nd, zi(seq(z3.IntVal(0))), 0, zb(Eq(m, 0))))
    def linked(w, st, k, last, nxt):
        p = w.next(st, k); return And(Not(zb(p.n)) == Not(zb(last)), Or(last, And(p.r == w.nd, p.o == 0, Eq(p.i, nxt)))) if isinstance(p, Ptr) else False
    def next(w, st, k): return st.reg(w.nd).cells[0].v.get(w.h.ex, zi(k))
    def alive(w, st, k): return st.reg(w.al).cells[0].v.get(w.h.ex, zi(k))
    def life(w, st, k): return st.reg(w.lf).cells[0].v.get(w.h.ex, zi(k))
    def set(w, st, rid, k, v): r = st.wreg(rid); r.cells[0] = Cell(8, 'i', Upd(r.cells[0].v, zi(k), v))
    # ---- contracts of what the pool calls
    def guard(w, ex, st, p, n, write):
        ex.oblig(st, 'frame', p.o + n <= w.size, 'accesses stay inside the block'); ex.oblig(st, 'no-use-after-free', Eq(w.alive(st, p.i), 1), 'the block is allocated'); ex.oblig(st, 'frame', Eq(w.life(st, p.i), 0), 'the pool does not touch a block an object lives in')
        if w.locked: ex.oblig(st, 'race', Or(st.ghost['held'] == 1, Not(w.lists[0].idle(zi(p.i)))), 'idle blocks are only accessed with the mutex held')
    def lguard(w, ex, st, p, n, write): ex.oblig(st, 'race', st.ghost['held'] == 1, 'the idle list is only accessed with the mutex held')
    def lock(w, ex, st, ins, a, n): ex.oblig(st, 'precondition', st.ghost['held'] == 0, 'the mutex is not locked twice'); st.ghost['held'] = 1
    def unlock(w, ex, st, ins, a, n): ex.oblig(st, 'precondition', st.ghost['held'] == 1, 'the mutex is held'); st.ghost['held'] = 0
    def alloc(w, ex, st, ins, a, n):
        """a block no one holds"""
        sz = ex.norm(st, a[-1], 64); ex.oblig(st, 'precondition', Ge(sz, w.size), 'a block is large enough for the object and the link')
        k = fresh_int('block', 0, (1 << 48) - 1); st.assume(And(Eq(w.alive(st, k), 0), Eq(w.life(st, k), 0))); w.set(st, w.al, k, 1); st.ghost['got'] = st.ghost.get('got', []) + [k]; return ('val', Ptr(w.nd, k, 0))
    def node(w, ex, st, p, what):
        p = ex.i2p(st, p) if not isinstance(p, Ptr) else p
        ok = p.r == w.nd and p.o == 0; ex.oblig(st, 'precondition', And(Not(p.n), Eq(w.alive(st, p.i), 1)) if ok else False, what + ': an allocated block'); return p
    def free(w, ex, st, ins, a, n):
        p = a[-1]
        if isinstance(p, Ptr) and p.r is None: return None
        p = w.node(ex, st, p, 'a block is returned exactly once'); ex.oblig(st, 'precondition', Eq(w.life(st, p.i), 0) if p.r == w.nd else False, 'no object lives in a returned block')
        if p.r == w.nd: w.set(st, w.al, p.i, 0)
        return None
    def ctor(w, ex, st, ins, a, n):
        p = w.node(ex, st, a[0], 'construction'); ex.oblig(st, 'precondition', Eq(w.life(st, p.i), 0) if p.r == w.nd else False, 'nothing lives where an object is constructed')
        if w.locked: ex.oblig(st, 'deadlock', st.ghost['held'] == 0, 'objects are constructed without the mutex held')
        if p.r == w.nd: w.set(st, w.lf, p.i, 1); st.ghost['built'] = st.ghost.get('built', []) + [(p.i, ex.norm(st, a[1], 64))]
        return None
    def dtor_(w, ex, st, ins, a, n):
        p = w.node(ex, st, a[0], 'destruction'); ex.oblig(st, 'precondition', Eq(w.life(st, p.i), 1) if p.r == w.nd else False, 'a destroyed object is alive')
        if w.locked: ex.oblig(st, 'deadlock', st.ghost['held'] == 0, 'objects are destroyed without the mutex held')
        if p.r == w.nd: w.set(st, w.lf, p.i, 0)
        return None
    # ---- the loop that returns all idle blocks: the ghost is the number returned so far
    def cands(w, ex, L, st, mods):
        if ('arr', w.al, 0) not in mods: return []
        ptrs = [L.get(st, L.init, m) for m in mods if m[0] != 'arr']
        for l in w.lists:
            if w.clearing is l: return [Inv(w, l, L, sorted(mods, key=str))]
        return []
    clearing = None
    # ---- checks
    def chain(w, st, what, l, m, seq):
        """the idle list is seq(0..m-1)"""
        h = w.h; p = h.get(st, l.rid, l.off, k='p'); emp = Eq(m, 0)
        h.prove(st, what + ': the list starts with the first idle block', And(zb(p.n) == zb(emp), Or(emp, And(p.r == w.nd, p.o == 0, Eq(p.i, seq(z3.IntVal(0)))))) if isinstance(p, Ptr) else False)
        h.forall(st, what + ': idle blocks are linked in order', lambda j: Implies(And(Le(0, j), Lt(j, m)), w.linked(st, seq(j), Eq(j, simp(zi(m) - 1)), seq(simp(j + 1)))))
        h.forall(st, what + ': idle blocks are allocated and unoccupied', lambda j: Implies(And(Le(0, j), Lt(j, m)), And(Eq(w.alive(st, seq(j)), 1), Eq(w.life(st, seq(j)), 0))))
        if w.locked: h.prove(st, what + ': the mutex is released', st.ghost['held'] == 0)
    def kept(w, st, what, life=lambda k, o: o, alive=lambda k, o: o):
        w.h.forall(st, what + ': which blocks hold objects', lambda k: Eq(w.life(st, k), life(k, w.LF(k)))); w.h.forall(st, what + ': which blocks are allocated', lambda k: Eq(w.alive(st, k), alive(k, w.AL(k))))
class Inv:
    optional = False
    def __init__(i, w, l, L, mods): i.w = w; i.l = l; i.L = L; i.mods = mods; i.enter = L.enter
    def ghost0(i, v): return z3.IntVal(0)
    def ghostn(i, v): return fresh_int('returned', 0)
    def ghoststep(i, hv, v): return simp(hv.ghost + 1)
    def facts(i, v):
        w, l = i.w, i.l; j = v.ghost; fs = [('no more blocks are returned than are idle', 0, lambda: And(Le(0, j), Le(j, l.m)))]
        first = w.h.get(i.enter, l.rid, l.off, k='p')
        for loc in i.mods:
            if loc[0] == 'arr': continue
            x = v.vals[loc[1]] if loc[0] == 'phi' else v.st.reg(loc[1]).cells[loc[2]].v
            if isinstance(x, Ptr): fs.append(('the pointer is the next idle block', 0, lambda x=x: And(zb(x.n) == zb(Eq(j, l.m)), Or(Eq(j, l.m), And(x.r == w.nd, x.o == 0, Eq(x.i, l.seq(j)))))))
        al0 = lambda k: i.enter.reg(w.al).cells[0].v.get(v.ex, zi(k))
        fs.append(('exactly the idle blocks passed are returned', 1, lambda k: Eq(w.alive(v.st, k), Ite(And(l.idle(k), Lt(l.pos(k), j)), 0, al0(k)))))
        return fs
    def __repr__(i): return 'idle block loop'
def c_make(h, fn, kind, empty):
    w = World(h, kind, empty=empty == 'empty'); st = w.st; l = w.lists[0]; x = h.int('x'); args = ([] if kind == 'p' else [Ptr(l.rid)]) + [x]
    if not w.lists or empty != 'empty': st.assume(Gt(l.m, 0))
    for s, r in h.must_return(h.run(st, fn, args)):
        ok = isinstance(r, Ptr) and r.r == w.nd and r.o == 0; h.prove(s, 'make: a block is handed out', Not(r.n) if ok else False)
        if not ok: continue
        got = s.ghost.get('got', []); b = s.ghost.get('built', [])
        h.prove(s, 'make: no live object occupied the block', Eq(w.LF(zi(r.i)), 0)); h.prove(s, 'make: one object is constructed, in the block handed out', And(len(b) == 1, Eq(b[0][0], r.i), Eq(b[0][1], x)) if b else False)
        if empty == 'empty': h.prove(s, 'make: the block is new', And(len(got) == 1, Eq(got[0], r.i)) if got else False); w.chain(s, 'make', l, 0, l.seq)
        else: h.prove(s, 'make: an idle block is reused', And(not got, Eq(r.i, l.seq(z3.IntVal(0))))); w.chain(s, 'make', l, simp(zi(l.m) - 1), lambda j: l.seq(simp(zi(j) + 1)))
        h.prove(s, 'make: the block handed out is no longer idle', Implies(l.idle(zi(r.i)), Eq(l.pos(zi(r.i)), 0)))
        w.kept(s, 'make', life=lambda k, o: Ite(Eq(k, r.i), 1, o), alive=lambda k, o: Ite(Eq(k, r.i), 1, o))
def c_destroy(h, fn, kind):
    w = World(h, kind); st = w.st; l = w.lists[0]; p = h.int('object', hi=(1 << 48) - 1)
    st.assume(And(Eq(w.AL(zi(p)), 1), Eq(w.LF(zi(p)), 1 if w.dtor else 0), Not(l.idle(zi(p)))))   # an object without a destructor ends with its storage
    imp(st, 1, lambda j: Implies(l.rng(j), Ne(l.seq(j), p)), 'the object is not idle')
    for s, _ in h.must_return(h.run(st, fn, ([] if kind == 'p' else [Ptr(l.rid)]) + [Ptr(w.nd, p, 0)])):
        w.chain(s, 'destroy', l, simp(zi(l.m) + 1), lambda j: Ite(Eq(j, 0), p, l.seq(simp(zi(j) - 1)))); w.kept(s, 'destroy', life=lambda k, o: Ite(Eq(k, p), 0, o))
        h.prove(s, 'destroy: nothing is constructed or allocated', not s.ghost.get('got') and not s.ghost.get('built'))
def c_clear(h, fn, kind):
    w = World(h, kind); st = w.st; l = w.clearing = w.lists[0]
    for s, _ in h.must_return(h.run(st, fn, [Ptr(l.rid)])):
        w.kept(s, 'clear', alive=lambda k, o: Ite(l.idle(k), 0, o))
        if fn != 'fo_dtor': w.chain(s, 'clear', l, 0, l.seq)
def c_ctor(h):
    w = World(h, 'o', empty=True); st = w.st; l = w.lists[0]; r = h.sreg(st, 'new', h.size('fl'))
    for s, _ in h.must_return(h.run(st, 'fo_ctor', [Ptr(r)])): w.chain(s, 'create', List(r, w.off, 0, l.seq, l.pos), 0, l.seq); w.kept(s, 'create')
def c_move(h):
    w = World(h, 'o'); st = w.st; l = w.lists[0]; r = h.sreg(st, 'new', h.size('fl'))
    for s, _ in h.must_return(h.run(st, 'fo_move', [Ptr(r), Ptr(l.rid)])):
        w.chain(s, 'move: the target', List(r, w.off, 0, l.seq, l.pos), l.m, l.seq); w.chain(s, 'move: the source', l, 0, l.seq); w.kept(s, 'move')
def c_assign(h):
    w = World(h, 'o', lists=2); st = w.st; l, q = w.lists; w.clearing = l
    for s, _ in h.must_return(h.run(st, 'fo_assign', [Ptr(l.rid), Ptr(q.rid)])):
        w.chain(s, 'assign: the target', List(l.rid, w.off, 0, l.seq, l.pos), q.m, q.seq); w.chain(s, 'assign: the source', q, 0, q.seq); w.kept(s, 'assign', alive=lambda k, o: Ite(l.idle(k), 0, o))
CONTRACTS = [(n, c_make, f, k, e) for n, f, k in (('make', 'fo_make', 'o'), ('make', 'fs_make', 's'), ('pool-make', 'po_make', 'p')) for e in ('empty', 'idle')] + [
    ('destroy', c_destroy, 'fo_destroy', 'o'), ('destroy', c_destroy, 'fs_destroy', 's'), ('pool-destroy', c_destroy, 'po_destroy', 'p'),
    ('clear', c_clear, 'fo_clear', 'o'), ('clear', c_clear, 'fs_clear', 's'), ('dtor', c_clear, 'fo_dtor', 'o'), ('create', c_ctor), ('move', c_move), ('assign', c_assign)]
ASSUMPTIONS = ['the underlying allocator hands out blocks that are not in use, or the program stops', 'destroy is given an object the same pool handed out and that is alive', 'the mutex excludes other threads (Thread::Mutex)', 'the finaliser that clears a Mpool list at exit only calls Free_List::clear; when it runs is not decided', 'object sizes: a 16-byte class with a destructor and a 4-byte class without; the templates are the same for others']
