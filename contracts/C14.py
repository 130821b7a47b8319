"""C14: scoped regions. The chunks of the calling thread form a stack: chunk 0 is the thread's own first chunk, chunk i > 0 came from the
system. Chunk headers are one array region indexed by stack position; the bytes behind a header are only ever named by their address.
Ghost: B(i) = bytes handed out from the chunks below i, alive(i) = the chunk has not been returned."""
from contract import *
import vexec, contract
from vexec import Base, Gen, Fill, Upd, Cell, Region, NULL, UNDEF
from terms import QFact, fresh_fn, fresh_name
SRC = 'region.cpp'
HDR = 24; BIG = 1 << 60; CHUNKMAX = 1 << 47
def imp(st, n, mk, name):
    ks = [z3.Int(fresh_name('q')) for _ in range(n)]; b = zb(mk(*ks)); st.q.append(QFact(ks, b, [vexec.trig_of(b, k) for k in ks], name))
class World:
    def __init__(w, h, st, depth=None):
        w.h = h; ex = h.ex; G = h.m.globals
        def region(sub, n):
            c = [g for g in G if g.startswith('_ZN3rpp') and g.endswith(sub)]
            if len(c) != 1: raise vexec.Unsupported(f'the global {sub} is not found')
            return c[0]
        w.t = h.int('top', hi=1 << 40); w.cur = h.int('depth', hi=h.size('max_depth') - 1) if depth is None else depth; t = w.t
        w.ch = ch = h.areg(st, 'chunk', 1 << 16, 1 << 48); r = st.wreg(ch)
        w.S, w.U, w.UP, w.ADDR, w.B, w.AL = [fresh_fn(n, I, 0, 1 << 62) for n in ('size', 'used', 'up', 'addr', 'below', 'alive')]; w.UPN = z3.Function(fresh_name('up.null'), I, B)
        w.OFF = fresh_fn('offset', I, 0, (1 << 64) - 1); w.BR = fresh_fn('brand', I, 0, (1 << 64) - 1)
        w.osz, w.ous, w.oup = h.off('chunk_size'), h.off('chunk_used'), h.off('chunk_up')
        r.cells[w.osz] = Cell(8, 'i', Base(w.S)); r.cells[w.ous] = Cell(8, 'i', Base(w.U)); r.cells[w.oup] = Cell(8, 'p', Base(w.UP, ch, w.UPN))
        r.addr = lambda i: w.ADDR(zi(i)); r.guard = w.guard
        w.al = h.areg(st, 'alive', 8, 1 << 48); st.wreg(w.al).cells[0] = Cell(8, 'i', Base(w.AL))
        w.off = h.areg(st, 'region offsets', 8, h.size('max_depth')); st.wreg(w.off).cells[0] = Cell(8, 'i', Base(w.OFF))
        w.br = h.areg(st, 'region brands', 8, h.size('max_depth')); st.wreg(w.br).cells[0] = Cell(8, 'i', Base(w.BR))
        for n, rid in ((region('14region_offsetsE', 1), w.off), (region('13region_brandsE', 1), w.br), (region('11first_chunkE', 1), ch)): ex.globals[n] = rid
        w.gc = ex.gptr(st, region('6chunksE', 1)).r; w.gd = ex.gptr(st, region('14current_regionE', 1)).r
        h.put(st, w.gc, 0, 8, Ptr(ch, t, 0)); h.put(st, w.gd, 0, 8, w.cur)
        S, U, UP, A, Bf, OFF = w.S, w.U, w.UP, w.ADDR, w.B, w.OFF
        imp(st, 1, lambda i: Implies(And(Le(0, i), Le(i, t)), And(Eq(UP(i), i - 1), zb(w.UPN(i)) == zb(Eq(i, 0)))), 'each chunk links to the one below')
        imp(st, 1, lambda i: Implies(And(Le(0, i), Le(i, t)), And(Le(U(i), S(i)), Le(S(i), CHUNKMAX), Eq(Bf(i + 1), simp(Bf(i) + U(i))), Or(Eq(i, 0), Lt(0, U(i))))), 'each chunk has room, and only the first may be empty')
        imp(st, 2, lambda i, j: Implies(And(Le(0, i), Le(i, j), Le(j, t + 1)), Le(Bf(i), Bf(j))), 'bytes below grow')
        imp(st, 1, lambda i: zb(Eq(w.AL(i), Ite(And(Le(0, i), Le(i, t)), 1, 0))), 'the chunks in the stack are the ones not returned')
        imp(st, 2, lambda i, j: Implies(And(Le(0, i), Lt(i, j), Le(j, t)), w.apart(i, S(i), j, S(j))), 'chunks do not overlap')
        imp(st, 1, lambda i: Implies(And(Le(0, i), Le(i, t)), And(Lt(0, A(i)), Le(A(i), CHUNKMAX))), 'addresses')
        imp(st, 2, lambda i, j: Implies(And(Le(0, i), Le(i, j), Le(j, w.cur)), Le(OFF(i), OFF(j))), 'regions nest')
        st.assume(And(Eq(Bf(0), 0), Eq(Bf(t + 1), OFF(w.cur)), Le(OFF(w.cur), BIG), Ge(OFF(0), 0)))
        w.allocs = 0; w.loops(); ex.add_contract(r'^_ZTWN3rpp6chunksE$', lambda ex, st, ins, a, n: ('val', Ptr(w.gc)))   # already initialised (contract init)
        for pat, f in ((r'_ZN3rpp10MallocatorI.*5allocEm$', w.alloc), (r'_ZN3rpp10MallocatorI.*4freeEPv$', w.free), (r'_ZN3rpp3Log9sys_errorEv$', lambda ex, st, ins, a, n: None), (r'_ZN3rpp3Log8Location4make', lambda ex, st, ins, a, n: None)): ex.add_contract(pat, f)
    def apart(w, i, si, j, sj): return Or(Le(simp(w.ADDR(zi(i)) + HDR + zi(si)), w.ADDR(zi(j))), Le(simp(w.ADDR(zi(j)) + HDR + zi(sj)), w.ADDR(zi(i))))
    def guard(w, ex, st, p, n, write):
        ex.oblig(st, 'frame', p.o + n <= HDR, 'only chunk headers are accessed, never the memory handed out'); ex.oblig(st, 'no-use-after-free', Eq(w.alive(st, p.i), 1), 'the chunk is alive')
    def alive(w, st, k): return st.reg(w.al).cells[0].v.get(w.h.ex, zi(k))
    def used(w, st, k): return st.reg(w.ch).cells[w.ous].v.get(w.h.ex, zi(k))
    def size(w, st, k): return st.reg(w.ch).cells[w.osz].v.get(w.h.ex, zi(k))
    def up(w, st, k): return st.reg(w.ch).cells[w.oup].v.get(w.h.ex, zi(k))
    def offset(w, st, k): return st.reg(w.off).cells[0].v.get(w.h.ex, zi(k))
    def brand(w, st, k): return st.reg(w.br).cells[0].v.get(w.h.ex, zi(k))
    def top(w, st): return w.h.get(st, w.gc, 0, k='p')
    def depth(w, st): return w.h.get(st, w.gd, 0)
    def alloc(w, ex, st, ins, a, n):
        """the system hands out a block that overlaps no live one, or the program stops"""
        sz = ex.norm(st, a[-1], 64); ex.oblig(st, 'precondition', Gt(sz, 0), 'a chunk has a size'); st.assume(Le(sz, CHUNKMAX))
        w.allocs += 1; i = simp(w.t + w.allocs); A = w.ADDR
        ex.oblig(st, 'precondition', Le(HDR, sz), 'a chunk holds its header')
        st.assume(And(Lt(0, A(i)), Le(A(i), CHUNKMAX)))
        imp(st, 1, lambda k: Implies(And(Le(0, k), Lt(k, i)), Or(Le(simp(A(k) + HDR + w.S(k)), A(i)), Le(simp(A(i) + zi(sz)), A(k)))), 'a new block overlaps no live one')
        st.ghost['blocks'] = st.ghost.get('blocks', []) + [(i, sz)]
        r = st.wreg(w.al); c = r.cells[0]; r.cells[0] = Cell(8, 'i', Upd(c.v, i, 1)); return ('val', Ptr(w.ch, i, 0))
    def free(w, ex, st, ins, a, n):
        p = a[-1]; p = ex.i2p(st, p) if not isinstance(p, Ptr) else p
        if p.r is None: return None
        ex.oblig(st, 'precondition', And(p.r == w.ch, p.o == 0, Not(p.n), Eq(w.alive(st, p.i), 1), Lt(0, p.i)), 'a chunk is returned once, and never the first')
        if p.r == w.ch: r = st.wreg(w.al); r.cells[0] = Cell(8, 'i', Upd(r.cells[0].v, p.i, 0))
        return None
    def loops(w):
        h = w.h
        class Inv:
            optional = False
            def __init__(i, L, mods, start, end): i.L = L; i.mods = mods; i.start = start; i.end = end
            def ghost0(i, v): return None
            def ghostn(i, v): return None
            def ghoststep(i, hv, v): return None
            def facts(i, v):
                fs = []; c = None
                for loc in i.mods:
                    if loc[0] == 'arr': continue
                    x = v.vals[loc[1]] if loc[0] == 'phi' else v.st.reg(loc[1]).cells[loc[2]].v
                    x0 = i.L.init[loc[1]] if loc[0] == 'phi' else i.L.enter.reg(loc[1]).cells[loc[2]].v
                    if isinstance(x0, Ptr):
                        if x0.r == w.ch:
                            fs.append(('the current chunk exists', 0, lambda x=x: And(Not(x.n), Le(0, x.i), Le(x.i, w.t)) if isinstance(x, Ptr) and x.r == w.ch else False))
                            c = x if c is None or loc == ('cell', w.gc, 0) else c
                if c is None or c.r != w.ch: return fs
                b = w.B(simp(zi(c.i) + 1))
                for loc in i.mods:
                    if loc[0] == 'arr' or (loc[0] == 'cell' and loc[1] == w.gc): continue
                    x = v.vals[loc[1]] if loc[0] == 'phi' else v.st.reg(loc[1]).cells[loc[2]].v
                    x0 = i.L.init[loc[1]] if loc[0] == 'phi' else i.L.enter.reg(loc[1]).cells[loc[2]].v
                    if isinstance(x0, Ptr):
                        if x0.r == w.ch: fs.append(('chunk pointers agree', 0, lambda x=x: Eq(x.i, c.i) if isinstance(x, Ptr) and x.r == w.ch else False))
                        continue
                    y0 = v.ex.norm(i.L.enter, x0, 64); y = v.ex.norm(v.st, x, 64); valid = lambda g: v.ex.valid(i.L.enter, g)
                    if valid(Eq(y0, simp(i.end - i.start))): fs.append(('bytes still to release', 0, lambda y=y: Eq(y, simp(b - i.start))))
                    elif valid(Eq(y0, i.end)): fs.append(('bytes up to the current chunk', 0, lambda y=y: Eq(y, b)))
                    elif valid(Eq(y0, 0)): fs.append(('bytes released so far', 0, lambda y=y: Eq(y, simp(i.end - b))))
                fs.append(('the rest reaches past the start of the region', 0, lambda: Le(i.start, b)))
                if ('arr', w.al, 0) in i.mods: fs.append(('the chunks above have been returned', 1, lambda k: Eq(w.alive(v.st, k), Ite(And(Le(0, k), Le(k, c.i)), 1, 0))))
                return fs
            def __repr__(i): return 'chunk loop'
        def cands(ex, L, st, mods):
            if not any(m[:2] == ('cell', w.gc) or m == ('arr', w.al, 0) for m in mods): return []
            cd = w.cur
            return [Inv(L, sorted(mods, key=str), w.OFF(simp(zi(cd) - 1)), w.OFF(zi(cd)))]
        h.ex.loop_inv = cands; h.ex.force_summary = lambda fn, hd: True
    def stack(w, st, what, total, cur):
        """the representation invariant again; returns the index of the top chunk"""
        h = w.h; p = w.top(st); ok = isinstance(p, Ptr) and p.r == w.ch and p.o == 0
        h.prove(st, f'{what}: there is a current chunk', And(ok, Not(p.n), Le(0, p.i)) if ok else False)
        if not ok: return None
        t = p.i; rng_ = lambda k: And(Le(0, k), Le(k, t))
        h.forall(st, f'{what}: exactly the chunks in the stack are alive', lambda k: Eq(w.alive(st, k), Ite(rng_(k), 1, 0)))
        h.forall(st, f'{what}: each chunk links to the one below', lambda k: Implies(rng_(k), And(zb(w.up(st, k).n) == zb(Eq(k, 0)), Or(Eq(k, 0), And(w.up(st, k).o == 0, w.up(st, k).r == w.ch, Eq(w.up(st, k).i, k - 1))))))
        h.forall(st, f'{what}: no chunk is overfull', lambda k: Implies(rng_(k), Le(w.used(st, k), w.size(st, k))))
        h.forall(st, f'{what}: only the first chunk may be empty', lambda k: Implies(And(rng_(k), Lt(0, k)), Lt(0, w.used(st, k))))
        h.forall(st, f'{what}: chunks do not overlap', lambda i, j: Implies(And(Le(0, i), Lt(i, j), Le(j, t)), w.apart(i, w.size(st, i), j, w.size(st, j))), n=2)
        for i, sz in st.ghost.get('blocks', []): h.prove(st, f'{what}: a chunk is not larger than its block', Implies(rng_(i), Le(simp(HDR + zi(w.size(st, i))), sz)))
        h.forall(st, f'{what}: lower chunks keep their bytes', lambda k: Implies(And(Le(0, k), Lt(k, t), Lt(k, w.t)), Eq(w.used(st, k), w.U(k))))
        h.forall(st, f'{what}: chunk sizes are kept', lambda k: Implies(And(rng_(k), Le(k, w.t)), Eq(w.size(st, k), w.S(k))))
        d = w.depth(st); h.prove(st, f'{what}: depth', Eq(d, cur)); h.prove(st, f'{what}: size', Eq(w.offset(st, cur), total))
        return t
def same_regions(h, w, s, what, upto):
    h.forall(s, what + ': enclosing regions keep their sizes', lambda k: Implies(And(Le(0, k), Le(k, upto)), Eq(w.offset(s, k), w.OFF(k))))
    h.forall(s, what + ': enclosing regions keep their brands', lambda k: Implies(And(Le(0, k), Le(k, upto)), Eq(w.brand(s, k), w.BR(k))))
def untouched(h, w, s, what):
    t = w.stack(s, what, w.OFF(w.cur), w.cur); same_regions(h, w, s, what, w.cur)
    if t is not None: h.prove(s, what + ': the same chunk', Eq(t, w.t)); h.prove(s, what + ': nothing handed out or taken back', Eq(w.used(s, w.t), w.U(w.t)))
def addr_of(h, s, p): return h.ex.p2i(s, p) if isinstance(p, Ptr) and p.r != 'opaque' else (simp(zi(p.i) + p.o) if isinstance(p, Ptr) else p)
def c_alloc(h):
    st = h.state(); w = World(h, st); n = h.int('n', hi=(1 << 63) - 1); b = w.BR(zi(w.cur))
    for s, r in h.must_return(h.run(st, 'rg_alloc', [b, n])):
        total = w.OFF(zi(w.cur)); t = w.stack(s, 'alloc', simp(total + n), w.cur); same_regions(h, w, s, 'alloc', simp(zi(w.cur) - 1)); h.prove(s, 'alloc: the brand is kept', Eq(w.brand(s, w.cur), b))
        if t is None: continue
        h.prove(s, 'alloc: all live bytes stay in place', Or(And(Eq(t, w.t), Eq(w.used(s, t), simp(w.U(zi(t)) + n))), And(Eq(t, simp(w.t + 1)), Eq(w.used(s, t), n), Eq(w.used(s, w.t), w.U(zi(w.t))))))
        a = addr_of(h, s, r); h.prove(s, 'alloc: the memory is the end of the top chunk', Eq(a, simp(w.ADDR(zi(t)) + HDR + zi(w.used(s, t)) - n))); h.prove(s, 'alloc: not null', Not(r.n) if isinstance(r, Ptr) else Ne(r, 0))
        h.prove(s, 'alloc: inside the chunk', And(Le(simp(w.ADDR(zi(t)) + HDR), a), Le(simp(zi(a) + n), simp(w.ADDR(zi(t)) + HDR + zi(w.size(s, t))))))
        # no byte handed out before (chunk i, offset o below what was used) and no chunk header lies in the new memory
        h.forall(s, 'alloc: disjoint from all memory handed out before', lambda i, o, x: Implies(And(Le(0, i), Le(i, w.t), Le(-HDR, o), Lt(o, w.U(i)), Le(0, x), Lt(x, n)), Ne(simp(w.ADDR(i) + HDR + o), simp(zi(a) + x))), n=3)
def c_begin(h, over):
    st = h.state(); w = World(h, st, depth=h.size('max_depth') - 1 if over else None); b = h.int('brand')
    if not over: st.assume(Lt(w.cur, h.size('max_depth') - 1))
    outs = h.run(st, 'rg_begin', [b])
    if over: return h.never_returns(outs)
    for s, _ in h.must_return(outs):
        t = w.stack(s, 'begin', w.OFF(zi(w.cur)), simp(zi(w.cur) + 1)); same_regions(h, w, s, 'begin', w.cur); h.prove(s, 'begin: the region has the given brand', Eq(w.brand(s, simp(zi(w.cur) + 1)), b))
        if t is not None: h.prove(s, 'begin: the same chunk', Eq(t, w.t)); h.prove(s, 'begin: nothing handed out', Eq(w.used(s, w.t), w.U(w.t)))
def c_end(h):
    st = h.state(); w = World(h, st); st.assume(Gt(w.cur, 0)); b = w.BR(zi(w.cur)); start = w.OFF(simp(zi(w.cur) - 1))
    for s, _ in h.must_return(h.run(st, 'rg_end', [b])):
        t = w.stack(s, 'end', start, simp(zi(w.cur) - 1)); same_regions(h, w, s, 'end', simp(zi(w.cur) - 1))
        if t is None: continue
        h.prove(s, 'end: no chunk was added', Le(t, w.t)); h.prove(s, 'end: exactly the memory obtained before the region remains', Eq(simp(w.B(zi(t)) + zi(w.used(s, t))), start))
        h.prove(s, 'end: what remains was in use', Le(w.used(s, t), w.U(zi(t))))
def c_wrong(h, fn, args):
    st = h.state(); w = World(h, st); b = h.int('brand'); st.assume(Ne(b, w.BR(zi(w.cur))))
    h.never_returns(h.run(st, fn, [b] + ([h.int('n')] if args == 'n' else [Ptr('opaque', h.int('p'), 0)] if args == 'p' else [])))
def c_end0(h):
    st = h.state(); w = World(h, st, depth=0); h.never_returns(h.run(st, 'rg_end', [h.int('brand')]))
def c_free(h):
    st = h.state(); w = World(h, st); b = w.BR(zi(w.cur))
    for s, _ in h.must_return(h.run(st, 'rg_free', [b, Ptr('opaque', h.int('p'), 0)])): untouched(h, w, s, 'free')
def c_query(h, fn):
    st = h.state(); w = World(h, st)
    for s, r in h.must_return(h.run(st, fn, [])): untouched(h, w, s, 'query'); h.prove(s, 'the depth' if fn == 'rg_depth' else 'the bytes handed out', Eq(r, w.cur if fn == 'rg_depth' else w.OFF(zi(w.cur))))
def c_init(h):
    """a new thread: no region, nothing handed out, the first chunk is empty and as large as its storage"""
    ex = h.ex; G = h.m.globals; find = lambda e: [g for g in G if g.startswith('_ZN3rpp') and g.endswith(e)][0]; ex.init_globals = True; chunks = find('6chunksE'); done = 0
    for fn in ['rg_size'] + [f for f in h.m.fns if f.startswith('__cxx_global_var_init') and any(getattr(o, 'name', None) == chunks or chunks in str(o) for b in h.m.func(f).blocks for i in b.insts for o in i.ops)]:
        st = h.state()
        for s, r in h.must_return(h.run(st, fn, [])):
            if fn == 'rg_size':
                h.prove(s, 'nothing is handed out', Eq(r, 0))
                for o in range(0, 8 * h.size('max_depth'), 8): h.prove(s, 'every size is zero', Eq(h.get(s, ex.gptr(s, find('14region_offsetsE')).r, o), 0))
                h.prove(s, 'no region is open', Eq(h.get(s, ex.gptr(s, find('14current_regionE')).r, 0), 0))
            c = h.get(s, ex.gptr(s, chunks).r, 0, k='p'); f = ex.gptr(s, find('11first_chunkE'))
            if not (isinstance(c, Ptr) and c.r == f.r): continue
            done += 1; h.prove(s, 'the first chunk is current', c.i == 0 and c.o == 0); h.prove(s, 'it is empty', Eq(h.get(s, f.r, h.off('chunk_used')), 0))
            h.prove(s, 'it is the last one', h.get(s, f.r, h.off('chunk_up'), k='p').n); h.prove(s, 'its size is its storage', Eq(simp(zi(h.get(s, f.r, h.off('chunk_size'))) + HDR), s.reg(f.r).stride))
    if not done: h.fail('postcondition', 'no initialisation makes the first chunk current')
CONTRACTS = [('init', c_init), ('alloc', c_alloc), ('begin', c_begin, False), ('begin-too-deep', c_begin, True), ('end', c_end), ('end-without-region', c_end0), ('free', c_free), ('depth', c_query, 'rg_depth'), ('size', c_query, 'rg_size'),
             ('alloc-other-region', c_wrong, 'rg_alloc', 'n'), ('free-other-region', c_wrong, 'rg_free', 'p'), ('end-other-region', c_wrong, 'rg_end', '')]
ASSUMPTIONS = ['the system allocator returns blocks that overlap no live block, below 2^47 bytes, or the program stops', 'a request is below 2^63 bytes and all requests together below 2^60', 'distinct regions have distinct brands (a hash of the source location)', 'the state is per thread (thread_local)', 'alignment of region memory is not part of the property: the allocator does not align']
