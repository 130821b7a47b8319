"""C06: Map. View: the finite map has(x) / val(x) given by the occupied slots of a table that satisfies the probing discipline:
an occupied slot stores the hash of its key, every slot between a key's home and its place is occupied by an entry at least as far from
its own home (cyclically), and no key is stored twice. The ghost function P gives the slot of each key. Hashes are uninterpreted."""
from ownc import *
import contract, vexec
from vexec import Base, Gen, Fill, Upd, Cell, NULL, LIVE, RAW, MOVED, HASHF
from terms import Unsupported, UNDEF, QFact, fresh_fn, fresh_name, fresh_int
SRC = 'map.cpp'
NP2 = z3.Function('next_pow2', I, I)
def imp(st, n, mk, name):
    ks = [z3.Int(fresh_name('q')) for _ in range(n)]; b = zb(mk(*ks)); st.q.append(QFact(ks, b, [vexec.trig_of(b, k) for k in ks], name))
HZF = z3.Function('keyhash.nonzero', I, I); FBOUNDS['keyhash.nonzero'] = (1, (1 << 64) - 1)
def HZ(k): return HZF(zi(k))
def hash_odd(k): x = HASHF(zi(k)); return simp(z3.If(x % 2 == 0, x + 1, x))
def is_ite(e): return z3.is_expr(e) and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE
class Tab:
    """a table in a state: contents, capacity, shift and the ghost place of each key"""
    def __init__(t, w, st, rid, C, P, sh=None):
        r = st.reg(rid); ex = w.h.ex; t.w = w; t.rid = rid; t.C = C; t.P = P; t.sh = w.shift_of(C) if sh is None else sh
        def getter(off, width=8):
            if off not in st.reg(rid).cells: ex.lazy_cell(st, st.wreg(rid), off, width, 'i')
            v = st.reg(rid).cells[off].v; return lambda k: v.get(ex, zi(k))
        t.H, t.K, t.V = getter(w.oh), getter(w.ok), getter(w.ov)
        if w.trk:
            def live(off):
                c = st.reg(rid).cells.get(('L', off))
                return (lambda k: c.v.get(ex, zi(k))) if c is not None else (lambda k: RAW)
            t.LK, t.LV = live(w.ok), live(w.ov)
    def rng(t, k): return And(Le(0, k), Lt(k, t.C))
    def occ(t, k): return Ne(t.H(k), 0)
    def homeh(t, x): return Ite(x.arg(0), t.homeh(x.arg(1)), t.homeh(x.arg(2))) if is_ite(x) else t.w.h.ex.uf('lshr', 64, x, t.sh)
    def home(t, k): return t.homeh(t.H(k))
    def cyc(t, a, b): return Ite(Le(a, b), simp(zi(b) - zi(a)), simp(zi(t.C) + b - zi(a)))
    def d(t, k): return t.cyc(t.home(k), k)
    def has(t, x): return And(t.rng(t.P(x)), t.occ(t.P(x)), Eq(t.K(t.P(x)), x))
    def val(t, x): return t.V(t.P(x))
    def hashes(t): return ('an occupied slot holds the hash of its key', 1, lambda q: Implies(And(t.rng(q), t.occ(q)), Eq(t.H(q), HZ(t.K(q)))))
    def chain(t, hole=None): return ('the way from a key to its home is occupied by entries at least as far from theirs', 2,
        lambda q, i: Implies(And(t.rng(q), t.rng(i), t.occ(q), Le(t.cyc(t.home(q), i), t.d(q)), True if hole is None else Ne(i, hole)), And(t.occ(i), Ge(t.d(i), t.cyc(t.home(q), i)))))
    def places(t): return ('no key is stored twice', 1, lambda q: Implies(And(t.rng(q), t.occ(q)), Eq(t.P(t.K(q)), q)))
    def alive(t): return [] if not t.w.trk else [('exactly the occupied slots hold live ' + n, 1, lambda q, L=L: Implies(t.rng(q), zb(Eq(zi(L(q)), LIVE)) == zb(t.occ(q)))) for n, L in (('keys', t.LK), ('values', t.LV))]
    def valid(t): return [t.hashes(), t.chain(), t.places()] + t.alive()
class World:
    def __init__(w, h, S, st, hashes=True):
        w.h = h; w.S = S; w.trk = S != 'P'; ex = h.ex; w.st = st
        x = z3.Int(fresh_name('q')); st.q.append(QFact([x], zb(Eq(HZF(x), hash_odd(x))), [[('keyhash', 0, 1, z3.IntVal(0))]], 'the hash stored for a key'))
        if hashes: ex.add_contract(r'^_ZN3rpp12hash_nonzeroI', w.c_hash_nonzero)
        w.oh = h.off('slot_hash_' + S); d = h.off('slot_data_' + S); w.ok = d + h.off('pair_first_' + S); w.ov = d + h.off('pair_second_' + S); w.stride = h.size('slot_' + S)
        w.fields = {n: h.off(f'map_{n}_{S}') for n in ('data', 'cap', 'len', 'use', 'shift')}
        ex.stride_hint = w.stride; ex.add_contract(r'^_ZN3rpp4Math9next_pow2Em$', w.next_pow2); ex.add_contract(r'^_ZN3rpp4Math4ctlzEm$', lambda ex, st, ins, a, n: ('val', ex.ctlz(st, ex.norm(st, a[-1], 64), 64))); w.k = w.v = w.m = w.CN = None
        ex.loop_inv = w.cands; ex.force_summary = lambda fn, hd: True; w.caps = []; ex.null_region = lambda st: st.ghost['current'][0] if 'current' in st.ghost else None
        imp(st, 1, lambda c: Implies(And(Le(1, c), Le(c, MAXCAP)), And(Le(c, NP2(c)), Lt(NP2(c), 2 * c), Eq(NP2(NP2(c)), NP2(c)))), 'next_pow2'); imp(st, 1, lambda c: Implies(And(Le(1, c), Le(c, MAXCAP), Eq(NP2(c), c)), Eq(NP2(2 * c), 2 * c)), 'next_pow2 of twice a power of two')
        st.assume(And(Eq(NP2(z3.IntVal(4)), 4), Eq(NP2(z3.IntVal(32)), 32), Eq(NP2(z3.IntVal(0)), 0)))
    def next_pow2(w, ex, st, ins, a, n):
        x = ex.norm(st, a[-1], 64); return ('val', simp(NP2(zi(x))))
    def shift_of(w, C):
        """shift = ctlz(C) + 1; a hash shifted by it is below C (bit-vector lemma, contract `shift`)"""
        return simp(w.h.ex.uf('ctlz', 64, C) + 1)
    def capfacts(w, st, C):
        """the shift lemma for one capacity"""
        sh = w.shift_of(C); x = z3.Int(fresh_name('q')); f = w.h.ex.uf('lshr', 64, x, sh)
        st.assume(Implies(Ge(C, 2), Le(sh, 63))); st.q.append(QFact([x], zb(Implies(Ge(C, 2), And(Le(0, f), Lt(f, C)))), [[(f.decl().name(), 0, 1, z3.IntVal(0))]], 'a home slot is inside the table'))
    def cap(w, st, C):
        st.assume(And(Le(4, C), Le(C, MAXCAP), Eq(NP2(C), C))); w.capfacts(st, C)
    def table(w, st, C, name, heap=True):
        """fresh contents"""
        rid = w.h.areg(st, name, w.stride, C, heap=heap); w.fill(st, rid); return rid
    def fill(w, st, rid):
        r = st.wreg(rid); r.zero = []
        for o, n in ((w.oh, 'H'), (w.ok, 'K'), (w.ov, 'V')): r.cells[o] = Cell(8, 'i', Base(fresh_fn(n, I, 0, (1 << 64) - 1)))
        if w.trk:
            H = r.cells[w.oh].v; ex = w.h.ex
            for o in (w.ok, w.ov): r.cells[('L', o)] = Cell(0, 'g', Gen(Fill(RAW), lambda k: (Ne(H.get(ex, zi(k)), 0), LIVE)))
    def map(w, st, null=False, name='m', ro=False):
        """a map object; for a table also its Tab"""
        h = w.h; m = h.sreg(st, name, h.size('map_' + w.S))
        if null:
            for f in w.fields: h.put(st, m, w.fields[f], 8, NULL if f == 'data' else 0)
            return m, None
        C = h.int(name + '.capacity'); w.cap(st, C); n = h.int(name + '.length'); rid = w.table(st, C, name + '.table'); st.assume(Le(n, simp(zi(C) / 4 * 3)))
        P = fresh_fn('place', I); t = Tab(w, st, rid, C, lambda x: P(zi(x)))
        for f in t.valid(): imp(st, f[1], f[2], f[0])
        t.n = n; w.empty(st, t, Eq(n, 0)); t.E = w.free_slot(st, t)
        for f, v in (('data', Ptr(rid)), ('cap', C), ('len', n), ('use', simp(zi(C) / 4 * 3)), ('shift', t.sh)): h.put(st, m, w.fields[f], 8, v)
        st.ghost['tab'] = dict(st.ghost.get('tab', {}), **{str(rid): t.P}); st.ghost['free'] = dict(st.ghost.get('free', {}), **{str(rid): t.E})
        if ro: h.ro(st, m); h.ro(st, rid)
        return m, t
    def empty(w, st, t, cond): imp(st, 1, lambda q: Implies(And(cond, t.rng(q)), Not(t.occ(q))), 'length 0: no slot is occupied')
    def free_slot(w, st, t):
        """counting lemma: fewer entries than slots, so some slot is free"""
        e = fresh_int('free', 0); st.assume(And(Lt(e, t.C), Not(t.occ(e)))); return e
    def get(w, st, m, f): return w.h.get(st, m, w.fields[f], k='p' if f == 'data' else 'i')
    def now(w, st, m, P=None):
        """the table the map holds now"""
        p = w.get(st, m, 'data'); 
        return Tab(w, st, p.r, w.get(st, m, 'cap'), P or st.ghost['tab'][str(p.r)], w.get(st, m, 'shift'))
    def moved(w, st, t, at, P):
        T = Tab(w, st, t.rid, t.C, None); return lambda x: Ite(And(T.occ(at), Eq(T.K(at), x)), at, P(x))
    def c_hash_nonzero(w, ex, st, ins, a, n):
        p = ex.check_access(st, a[-1], 8, False)
        if w.trk: ex.oblig(st, 'use-live', Eq(ex.gget(st, p), LIVE), 'key hashed while alive')
        return ('val', HZ(ex.norm(st, ex.rd(st, p, 8, 'i'), 64)))
    # ---- callee contracts (each is proved of the function itself by the contract of the same name)
    def c_reserve(w, ex, st, ins, a, n):
        m, c = a[0], ex.norm(st, a[-1], 64); st.ghost.setdefault('x', 0); outs = []
        if not (isinstance(m, Ptr) and m.r == w.m): raise vexec.Unsupported('reserve of another map')
        cap = w.get(st, m.r, 'cap'); s0 = st.copy(); s0.assume(Le(c, cap)); s1 = st.copy(); s1.assume(And(Gt(c, cap), Le(c, MAXCAP)))
        if ex.feasible(s0): outs.append((s0, UNDEF))
        C = fresh_int('capacity', 4, MAXCAP); s1.assume(Le(c, C)); w.cap(s1, C); rid = w.table(s1, C, 'new table'); P = fresh_fn('place', I); P_ = lambda x: P(zi(x)); T = Tab(w, s1, rid, C, P_)
        for f in T.valid(): imp(s1, f[1], f[2], f[0])
        cur = st.ghost.get('current')
        if cur is not None:
            t = Tab(w, st, cur[0], cur[1], st.ghost['tab'][str(cur[0])]); w.check(ex, st, m.r, t)
            imp(s1, 1, lambda x: And(Implies(t.has(x), And(T.has(x), Eq(T.val(x), t.val(x)))), Implies(T.has(x), t.has(x))), 'the same entries')
            imp(s1, 1, lambda q: Implies(And(T.rng(q), T.occ(q)), t.has(T.K(q))), 'the same entries')
            if w.trk:
                r = s1.wreg(cur[0])
                for o in (w.ok, w.ov): r.cells[('L', o)] = Cell(0, 'g', Fill(MOVED))
            vexec.do_free(ex, s1, w.get(s1, m.r, 'data'))
        else: w.empty(s1, T, True)
        for f, v in (('data', Ptr(rid)), ('cap', C), ('use', simp(zi(C) / 4 * 3)), ('shift', T.sh)): w.h.put(s1, m.r, w.fields[f], 8, v)
        s1.ghost['tab'] = dict(s1.ghost.get('tab', {}), **{str(rid): P_}); s1.ghost['current'] = (rid, C); s1.ghost['base'] = T
        s1.ghost['free'] = dict(s1.ghost.get('free', {}), **{str(rid): w.free_slot(s1, T)}); outs.append((s1, UNDEF)); return outs
    def c_try_get(w, ex, st, ins, a, n):
        out, m, kp = a[0], a[1], a[2]; k = ex.norm(st, ex.rd(st, ex.check_access(st, kp, 8, False), 8, 'i'), 64); cur = st.ghost.get('current'); outs = []
        if not (isinstance(m, Ptr) and m.r == w.m): raise Unsupported('lookup in another map')
        if cur is None: has = False
        else: t = Tab(w, st, cur[0], cur[1], st.ghost['tab'][str(cur[0])]); w.check(ex, st, m.r, t); has = t.has(k)
        for ok in (True, False):
            g = has if ok else Not(has)
            if not ex.feasible(st, g): continue
            s = st.copy(); s.assume(g); q = lambda o: Ptr(out.r, out.i, out.o + o, out.n); ex.wr(s, ex.check_access(s, q(w.h.off('opt_ok')), 1, True), 1, 'i', int(ok))
            if ok: ex.wr(s, ex.check_access(s, q(w.h.off('opt_value')), 8, True), 8, 'p', Ptr(cur[0], t.P(k), w.ov))
            outs.append((s, UNDEF))
        return outs
    def check(w, ex, st, m, t):
        p = w.get(st, m, 'data'); ex.oblig(st, 'precondition', And(p.r == t.rid, Eq(w.get(st, m, 'cap'), t.C), Eq(w.get(st, m, 'shift'), t.sh)) if p.r == t.rid else False, 'the map describes its table')
        for f in t.valid(): ex.oblig(st, 'precondition', f[2](*[fresh_int('k') for _ in range(f[1])]), f[0])
    def c_insert_slot(w, ex, st, ins, a, n):
        m, sl = a[0], a[1]; get = lambda o: ex.norm(st, ex.rd(st, ex.check_access(st, Ptr(sl.r, sl.i, sl.o + o, sl.n), 8, False), 8, 'i'), 64)
        hh, k, v = get(w.oh), get(w.ok), get(w.ov); p = w.get(st, m.r, 'data'); C = w.get(st, m.r, 'cap'); rid = p.r; t = Tab(w, st, rid, C, st.ghost.get('tab', {}).get(str(rid), lambda x: z3.IntVal(-1)))
        ex.oblig(st, 'precondition', And(Ne(hh, 0), Eq(hh, HZ(k))), 'the entry holds the hash of its key'); w.check(ex, st, m.r, t); E = st.ghost.get('free', {}).get(str(rid), -1)
        if not ex.valid(st, And(t.rng(E), Not(t.occ(E)))) and w.m == m.r and ex.valid(st, Lt(w.get(st, m.r, 'len'), C)): E = w.free_slot(st, t)
        ex.oblig(st, 'precondition', And(t.rng(E), Not(t.occ(E))), 'there is a free slot')
        w.fill(st, rid); P = fresh_fn('place', I); P_ = lambda x: P(zi(x)); T = Tab(w, st, rid, C, P_); pl = fresh_int('placed', 0); st.ghost['tab'] = dict(st.ghost.get('tab', {}), **{str(rid): P_})
        for f in T.valid(): imp(st, f[1], f[2], f[0])
        st.assume(And(T.has(k), Eq(T.val(k), v), Eq(P_(k), pl), Implies(Not(t.has(k)), Not(t.occ(pl_new := fresh_int('filled', 0))))))
        imp(st, 1, lambda q: Implies(T.rng(q), zb(T.occ(q)) == zb(Or(t.occ(q), And(Not(t.has(k)), Eq(q, pl_new))))), 'a slot becomes occupied for a new key only'); st.ghost['filled'] = dict(st.ghost.get('filled', {}), **{str(rid): pl_new})
        imp(st, 1, lambda x: And(Implies(And(t.has(x), Ne(x, k)), And(T.has(x), Eq(T.val(x), t.val(x)))), Implies(And(T.has(x), Ne(x, k)), t.has(x))), 'the other entries')
        imp(st, 1, lambda q: Implies(And(T.rng(q), T.occ(q)), Or(Eq(T.K(q), k), t.has(T.K(q)))), 'nothing else is added')
        ln = w.get(st, m.r, 'len'); w.h.put(st, m.r, w.fields['len'], 8, simp(zi(ln) + Ite(t.has(k), 0, 1)))
        q = Ptr(sl.r, sl.i, sl.o + w.oh, sl.n); ex.wr(st, ex.check_access(st, q, 8, True), 8, 'i', 0)
        if w.trk:
            for o in (w.ok, w.ov): q = Ptr(sl.r, sl.i, sl.o + o, sl.n); ex.oblig(st, 'use-live', Eq(ex.gget(st, q), LIVE), 'the entry is alive'); ex.gset(st, q, MOVED)
        return ('val', Ptr(rid, pl, 0))
    # ---- loops
    def cands(w, ex, L, st, mods):
        tabs = [rid for rid in (st.ghost.get('tab') or {})]
        valid = lambda g: ex.valid(st, g)
        ints = []; arr = set(m[1] for m in mods if m[0] == 'arr' and str(m[1]) in tabs); ptrs = []
        for m in sorted(mods, key=str):
            if m[0] == 'arr': continue
            x0 = L.get(st, L.init, m)
            if isinstance(x0, Ptr): ptrs.append((m, x0)); continue
            if isinstance(x0, bool) or (z3.is_expr(x0) and z3.is_bool(x0)) or x0 is vexec.UNDEF: continue
            if L.width(st, m) == 64: ints.append((m, ex.norm(st, x0, 64)))
        cur = st.ghost.get('current')
        if cur is None: return []
        p = w.get(st, w.m, 'data')
        if p.r != cur[0] and p.r is not None and w.CN is not None:
            zero = [m for m, x in ints if isinstance(x, int) and x == 0 and m[:2] != ('cell', w.m)]
            return [Rehash(w, L, Tab(w, st, cur[0], cur[1], st.ghost['tab'][str(cur[0])]), p.r, w.get(st, w.m, 'cap'), zero[0])] if zero else []
        if w.k is None: return []
        t = Tab(w, st, cur[0], cur[1], st.ghost['tab'][str(cur[0])]); home = t.homeh(HZ(w.k))
        idx = [m for m, x in ints if valid(Eq(x, home))]; zero = [m for m, x in ints if x == 0]
        if idx and zero and not arr: return [Lookup(w, L, t, idx[0], zero[0])]
        if arr and idx and zero: return [Insert(w, L, t, idx[0], zero[0], ints, ptrs)]
        hole = [m for m, x in ints if valid(Eq(x, t.P(w.k)))] if arr else []
        if hole: return [Shift(w, L, t, hole[0])]
        return []
def value(v, loc):
    x = v.vals[loc[1]] if loc[0] == 'phi' else v.st.reg(loc[1]).cells[loc[2]].v
    return v.ex.norm(v.st, x, 64)
class Inv:
    optional = False
    def ghost0(i, v): return None
    def ghostn(i, v): return None
    def ghoststep(i, hv, v): return None
class Lookup(Inv):
    """searching for key k: at distance `dist` from its home, and not found before"""
    def __init__(i, w, L, t, idx, dist): i.w = w; i.L = L; i.t = t; i.idx = idx; i.dist = dist
    def ghost0(i, v): return -1
    def ghostn(i, v): return fresh_int('before')
    def ghoststep(i, hv, v): return value(hv, i.dist)
    def facts(i, v):
        t = i.t; ix = value(v, i.idx); d = value(v, i.dist); home = t.homeh(HZ(i.w.k)); s = simp(zi(home) + d)
        return [('the distance is at most the capacity', 0, lambda: And(Le(0, d), Le(d, t.C))), ('the index is home plus distance, cyclically', 0, lambda: Eq(ix, Ite(Lt(s, t.C), s, simp(s - t.C)))),
                ('the key is not in the slots passed', 0, lambda: Implies(t.has(i.w.k), Ge(t.d(t.P(i.w.k)), d))), ('every step makes progress', 0, lambda: Lt(v.ghost, d))]
    def __repr__(i): return 'lookup'
class Shift(Inv):
    """closing the gap after an erasure"""
    def __init__(i, w, L, t, hole): i.w = w; i.L = L; i.t = t; i.hole = hole
    def ghost0(i, v): return i.t.P, i.t.C + 1
    def ghostn(i, v):
        P = fresh_fn('place', I); return (lambda x: P(zi(x))), fresh_int('left')
    def ghoststep(i, hv, v):
        old = value(hv, i.hole); T = Tab(i.w, v.st, i.t.rid, i.t.C, None); P = hv.ghost[0]
        return (lambda x: Ite(And(T.occ(old), Eq(T.K(old), x)), old, P(x))), i.t.cyc(old, i.t.w.st_free(v.st, i.t))
    def facts(i, v):
        w = i.w; t = i.t; hole = value(v, i.hole); P, left = v.ghost; T = Tab(w, v.st, t.rid, t.C, P); k = w.k; E = w.st_free(v.st, t)
        v.st.ghost['tab'] = dict(v.st.ghost['tab'], **{str(t.rid): P})
        return [('the gap is a free slot', 0, lambda: And(T.rng(hole), Not(T.occ(hole)), w.T0occ(t, hole))), T.hashes(), T.chain(hole), T.places(),
                ('the erased key is gone', 1, lambda q: Implies(And(T.rng(q), T.occ(q)), Ne(T.K(q), k))),
                ('nothing is added', 1, lambda q: Implies(And(T.rng(q), T.occ(q)), And(w.T0has(t, T.K(q)), Eq(T.V(q), w.T0val(t, T.K(q)))))),
                ('every other key stays', 1, lambda x: Implies(And(w.T0has(t, x), Ne(x, k)), And(T.has(x), Eq(T.val(x), w.T0val(t, x))))),
                ('one slot fewer is occupied', 1, lambda q: Implies(T.rng(q), zb(T.occ(q)) == zb(And(w.T0occ(t, q), Ne(q, hole))))),
                ('the gap moves towards a free slot', 0, lambda: Lt(t.cyc(hole, E), left))] + T.alive()
    def __repr__(i): return 'back-shift'
def loc_value(L, st, m): return L.get(st, L.init, m)
class Insert(Inv):
    """carrying an entry (the hand) from its home towards a free slot, swapping it with entries closer to theirs"""
    def __init__(i, w, L, t, idx, dist, ints, ptrs):
        i.w = w; i.L = L; i.t = t; i.idx = idx; i.dist = dist; st = L.enter; valid = lambda g: w.h.ex.valid(st, g); 
        # the value and hash of the hand are looked for among what the loop changes, by what they are on entry
        pick = lambda g: next((m for m, x in ints if m not in (idx, dist) and valid(Eq(x, g))), None)
        i.hh = pick(HZ(w.k)); i.hk = pick(w.k); i.hv = pick(w.v); i.pl = next((m for m, x in ptrs if x.r is None or x.n is True), None)
    def place(i, v):
        if i.pl is None: return None
        return v.vals[i.pl[1]] if i.pl[0] == 'phi' else v.st.reg(i.pl[1]).cells[i.pl[2]].v
    def ghost0(i, v): return i.t.P, i.t.C + 1
    def ghostn(i, v): P = fresh_fn('place', I); return (lambda x: P(zi(x))), fresh_int('left')
    def ghoststep(i, hv, v): old = value(hv, i.idx); return i.w.moved(v.st, i.t, old, hv.ghost[0]), i.t.cyc(old, i.w.st_free(v.st, i.t))
    def facts(i, v):
        w = i.w; t = i.t; ix = value(v, i.idx); d = value(v, i.dist); P, left = v.ghost; T = Tab(w, v.st, t.rid, t.C, P); E = w.st_free(v.st, t); k, kv = w.k, w.v
        if None in (i.hh, i.hk, i.hv, i.pl): return [('the entry carried and its placement are tracked', 0, lambda: False)]
        hh, hk, hv = (value(v, x) for x in (i.hh, i.hk, i.hv)); p = i.place(v); pn = True if p.r is None else p.n; ok = p.r is None or (p.r == t.rid and p.o == 0); pi = p.i if p.r is not None else 0
        v.st.ghost['tab'] = dict(v.st.ghost['tab'], **{str(t.rid): P}); v.st.ghost['at'] = dict(v.st.ghost.get('at', {}), **{str(t.rid): ix})
        home = T.homeh(hh); s = simp(zi(home) + d)
        return [('the hand holds the hash of its key', 0, lambda: And(Ne(hh, 0), Eq(hh, HZ(hk)))), ('the index is inside', 0, lambda: T.rng(ix)),
                ('the index is home plus distance, before a free slot', 0, lambda: And(Le(0, d), Lt(simp(zi(d) + T.cyc(ix, E)), t.C), Eq(ix, Ite(Lt(s, t.C), s, simp(s - t.C))))), ('the free slot stays free', 0, lambda: And(T.rng(E), Not(T.occ(E)))),
                T.hashes(), T.chain(), T.places(),
                ('the slots passed are occupied', 1, lambda j: Implies(And(T.rng(j), Lt(T.cyc(home, j), d)), T.occ(j))), ('their entries are at least as far from home', 1, lambda j: Implies(And(T.rng(j), Lt(T.cyc(home, j), d)), Ge(T.d(j), T.cyc(home, j)))),
                ('none of them holds the key carried', 1, lambda j: Implies(And(T.rng(j), Lt(T.cyc(home, j), d)), Ne(T.K(j), hk))),
                ('before the entry is placed it is the one carried', 0, lambda: Implies(pn, And(Eq(hk, k), Eq(hv, kv)))),
                ('a stored key is still ahead', 0, lambda: Implies(And(pn, t.has(k)), And(T.has(k), Ge(T.d(T.P(k)), d)))), ('an entry is placed only for a new key', 0, lambda: Implies(t.has(k), pn)),
                ('once it is placed a displaced entry is carried', 0, lambda: Implies(Not(pn), And(ok, t.has(hk), Eq(hv, t.val(hk))))), ('which has another key', 0, lambda: Implies(Not(pn), Ne(hk, k))),
                ('the placement holds the entry', 0, lambda: Implies(Not(pn), And(ok, T.rng(pi), T.occ(pi), Eq(T.K(pi), k), Eq(T.V(pi), kv), Lt(T.cyc(ix, E), T.cyc(pi, E))))),
                ('the entry carried is not in the table', 1, lambda q: Implies(And(Not(pn), T.rng(q), T.occ(q)), Ne(T.K(q), hk))),
                ('nothing else is added', 1, lambda q: Implies(And(T.rng(q), T.occ(q)), Or(And(t.has(T.K(q)), Eq(T.V(q), t.val(T.K(q)))), And(Not(pn), Eq(q, pi))))),
                ('every other key stays', 1, lambda x: Implies(And(t.has(x), Or(pn, Ne(x, hk))), And(T.has(x), Eq(T.val(x), t.val(x))))),
                ('the same slots are occupied', 1, lambda q: Implies(T.rng(q), zb(T.occ(q)) == zb(t.occ(q)))), ('every step makes progress', 0, lambda: Lt(T.cyc(ix, E), left))] + T.alive()
    def __repr__(i): return 'insertion'
class Rehash(Inv):
    """moving every entry of the old table t into the new one"""
    def __init__(i, w, L, t, new, C1, idx): i.w = w; i.L = L; i.t = t; i.new = new; i.C1 = C1; i.idx = idx
    def ghost0(i, v): return (lambda x: z3.IntVal(-1)), -1
    def ghostn(i, v):
        P = fresh_fn('place', I); P_ = lambda x: P(zi(x)); T = Tab(i.w, v.st, i.new, i.C1, P_)
        e = i.w.free_slot(v.st, T); v.st.ghost['free'] = dict(v.st.ghost.get('free', {}), **{str(i.new): e}); return P_, fresh_int('before')
    def ghoststep(i, hv, v): return v.st.ghost['tab'][str(i.new)], value(hv, i.idx)
    def facts(i, v):
        w = i.w; t = i.t; x = value(v, i.idx); P, prev = v.ghost; T = Tab(w, v.st, i.new, i.C1, P); O = Tab(w, v.st, t.rid, t.C, t.P)
        v.st.ghost['tab'] = dict(v.st.ghost['tab'], **{str(i.new): P}); n = w.get(v.st, w.m, 'len'); CN = w.CN
        f = [('fewer entries are moved than the new table has slots', 0, lambda: And(Le(0, x), Le(x, t.C), Lt(t.C, i.C1), Lt(prev, x)))] + T.valid() + [
             ('only entries passed are in the new table', 1, lambda q: Implies(And(T.rng(q), T.occ(q)), And(t.has(T.K(q)), Lt(t.P(T.K(q)), x), Eq(T.V(q), t.val(T.K(q)))))),
             ('all entries passed are in the new table', 1, lambda y: Implies(And(t.has(y), Lt(t.P(y), x)), And(T.has(y), Eq(T.val(y), t.val(y))))),
             ('the rest of the old table is untouched', 1, lambda q: Implies(And(Le(x, q), Lt(q, t.C)), And(Eq(O.H(q), t.H(q)), Eq(O.K(q), t.K(q)), Eq(O.V(q), t.V(q))))),
             ('the length counts the entries moved', 0, lambda: Eq(n, CN(zi(x))))]
        if w.trk: f += [('in the old table exactly the entries not passed are alive', 1, lambda q, L=L: Implies(And(Le(0, q), Lt(q, t.C)), zb(Eq(zi(L(q)), LIVE)) == zb(And(t.occ(q), Le(x, q))))) for L in (O.LK, O.LV)]
        return f
    def __repr__(i): return 'rehash'
def start(h, S, k=True, **kw):
    st = h.state(); w = World(h, S, st); m, t = w.map(st, **kw); w.m = m; w.st_free = lambda s, t: s.ghost['free'][str(t.rid)]
    if t is not None: w.T0 = t; st.ghost['current'] = (t.rid, t.C); w.T0has = lambda t, x: w.T0.has(x); w.T0val = lambda t, x: w.T0.val(x); w.T0occ = lambda t, q: w.T0.occ(q)
    if k: kr, w.k = elem_arg(h, st, 'u64' if S == 'P' else S, 'key', ro=True)
    else: kr = None
    return st, w, m, t, kr
def unchanged(h, w, s, m, t, what):
    T = w.now(s, m, t.P); h.prove(s, what + ': the same table', And(T.rid == t.rid, Eq(T.C, t.C), Eq(T.sh, t.sh))); h.prove(s, what + ': the length', Eq(w.get(s, m, 'len'), t.n))
    h.forall(s, what + ': the slots are unchanged', lambda q: Implies(t.rng(q), And(Eq(T.H(q), t.H(q)), Implies(t.occ(q), And(Eq(T.K(q), t.K(q)), Eq(T.V(q), t.V(q)))))))
def c_lookup(h, fn, S, kind):
    st, w, m, t, k = start(h, S, null=kind == 'null', ro=True); has = t.has(w.k) if t else False
    outs = h.run(st, f'map_{fn}_{S}', [Ptr(m), k])
    if fn in ('get', 'cget'):
        if not t: return h.never_returns(outs)
        n = 0
        for s, r in h.returns(outs): h.prove(s, 'returns only for a stored key', has); n += 1
        for x, s, v in outs:
            if x == 'abort': h.prove(s, 'stops only for a key that is not stored', Not(has))
    for s, r in (h.returns(outs) if fn in ('get', 'cget') else h.must_return(outs)):
        if fn == 'contains': h.prove(s, 'true exactly for the stored keys', zb(Ne(h.ex.norm(s, zi(r) if not isinstance(r, (bool,)) and not (z3.is_expr(r) and z3.is_bool(r)) else Ite(r, 1, 0), 8), 0)) == zb(has)); continue
        null = r.r is None or r.n is True
        h.prove(s, 'found exactly when stored', zb(Not(True if null else r.n)) == zb(has))
        if not null: h.prove(s, 'the value stored under the key', Implies(has, And(r.r == t.rid, r.o == w.ov, Eq(r.i, t.P(w.k))) if r.r == t.rid else False))
def c_erase(h, fn, S, kind):
    st, w, m, t, k = start(h, S, null=kind == 'null'); has = t.has(w.k) if t else False
    outs = h.run(st, f'map_{fn}_{S}', [Ptr(m), k])
    if fn == 'erase':
        if not t: return h.never_returns(outs)
        for x, s, v in outs:
            if x == 'abort': h.prove(s, 'stops only for a key that is not stored', Not(has))
    for s, r in (h.returns(outs) if fn == 'erase' else h.must_return(outs)):
        if not t: h.prove(s, 'nothing to erase', Eq(r, 0) if not isinstance(r, bool) else not r); continue
        erased = True if fn == 'erase' else r if isinstance(r, bool) or (z3.is_expr(r) and z3.is_bool(r)) else Ne(r, 0)
        h.prove(s, 'erases exactly when stored', zb(erased) == zb(has))
        if h.ex.valid(s, Not(has)): unchanged(h, w, s, m, t, 'absent key'); continue
        T = w.now(s, m); h.prove(s, 'the table stays', And(T.rid == t.rid, Eq(T.C, t.C), Eq(T.sh, t.sh), Eq(w.get(s, m, 'use'), simp(zi(t.C) / 4 * 3))))
        h.prove(s, 'the length goes down by one', Eq(w.get(s, m, 'len'), simp(zi(t.n) - 1)))
        for f in T.valid(): h.forall(s, 'erased: ' + f[0], f[2], n=f[1])
        h.forall(s, 'only the given key is erased', lambda x: Implies(And(t.has(x), Ne(x, w.k)), And(T.has(x), Eq(T.val(x), t.val(x)))))
        h.forall(s, 'the key is gone and nothing is added', lambda q: Implies(And(T.rng(q), T.occ(q)), And(Ne(T.K(q), w.k), t.has(T.K(q)))))
def post_insert(h, w, s, m, t, r, k, v, what, use=True):
    has = t.has(k) if t else False; T = w.now(s, m); at = s.ghost.get('filled', {}).get(str(T.rid))
    if at is None:    # the loop was followed here: the last step may have filled the slot it looked at
        at = s.ghost.get('at', {}).get(str(T.rid)); at = at if at is not None else r.i if isinstance(r, Ptr) and r.r == T.rid else None; T.P = w.moved(s, T, at, T.P)
    n0 = t.n if t else 0; n = w.get(s, m, 'len')
    ok = isinstance(r, Ptr) and r.r == T.rid
    h.prove(s, what + ': a reference into the table', ok)
    if not ok: return
    h.prove(s, what + ': the entry is stored where the reference points', And(Not(r.n), T.rng(r.i), T.occ(r.i), Eq(T.K(r.i), k), Eq(T.V(r.i), v)))
    for f in T.valid(): h.forall(s, f'{what}: {f[0]}', f[2], n=f[1])
    if t: h.forall(s, what + ': the other entries stay', lambda x: Implies(And(t.has(x), Ne(x, k)), And(T.has(x), Eq(T.val(x), t.val(x)))))
    h.forall(s, what + ': nothing else is added', lambda q: Implies(And(T.rng(q), T.occ(q)), Or(Eq(T.K(q), k), t.has(T.K(q)) if t else False)))
    h.prove(s, what + ': the length is the number of distinct keys', Eq(n, simp(zi(n0) + Ite(has, 0, 1))))
    b = s.ghost.get('base', t)
    h.forall(s, what + ': a slot becomes occupied for a new key only', lambda q: Implies(T.rng(q), zb(T.occ(q)) == zb(Or(b.occ(q), And(Not(has), Eq(q, at if at is not None else -1))))))
    h.prove(s, what + ': the slot was free', Implies(Not(has), Not(b.occ(at)) if at is not None else False))
    h.prove(s, what + ': capacity, limit and shift agree', And(Le(4, T.C), Eq(NP2(zi(T.C)), T.C), Eq(T.sh, w.shift_of(T.C)), Eq(w.get(s, m, 'use'), simp(zi(T.C) / 4 * 3))))
    if use: h.prove(s, what + ': the load limit is kept', Le(n, w.get(s, m, 'use')))
def c_insert(h, fn, S, kind):
    st, w, m, t, k = start(h, S, null=kind == 'null'); ex = h.ex; has = t.has(w.k) if t else False
    ex.add_contract(r'^_ZN3rpp3MapI.*7reserveEm$', w.c_reserve); ex.add_contract(r'^_ZN3rpp3MapI.*11insert_slotE', w.c_insert_slot); st.reg(k.r).ro = fn in ('insert_cc', 'insert_cm', 'goi_c')
    if fn.startswith('goi'): ex.add_contract(r'^_ZNK?3rpp3MapI.*7try_getERKS', w.c_try_get); w.v = 0 if S == 'P' else 0; args = []
    elif fn == 'emplace': w.v = h.int('v'); args = [w.v]
    else: x, w.v = elem_arg(h, st, 'u64' if S == 'P' else S, 'v', ro=fn in ('insert_cc', 'insert_mc')); args = [x]
    for s, r in h.must_return(h.run(st, f'map_{fn}_{S}', [Ptr(m), k] + args)):
        if fn.startswith('goi') and t:
            if h.ex.valid(s, has):
                unchanged(h, w, s, m, t, 'stored'); h.prove(s, 'the stored value', And(r.r == t.rid, r.o == w.ov, Not(r.n), Eq(r.i, t.P(w.k)))); continue
            h.prove(s, 'inserted only when absent', Not(has))
        h.heap_owned(s, [w.get(s, m, 'data')]); h.prove(s, 'a reference to the value', r.o == w.ov); post_insert(h, w, s, m, t, r, w.k, w.v, fn)
def c_insert_slot(h, S):
    st, w, m, t, k = start(h, S, k=False); r = h.sreg(st, 'slot', w.stride); w.k = h.int('key'); w.v = h.int('v')
    hold(h, st, 'u64' if S == 'P' else S, r, w.ok, w.k); hold(h, st, 'u64' if S == 'P' else S, r, w.ov, w.v); h.put(st, r, w.oh, 8, HZ(w.k))
    for s, p in h.must_return(h.run(st, f'map_insert_slot_{S}', [Ptr(m), Ptr(r)])):
        h.prove(s, 'a reference to the slot', p.o == 0); post_insert(h, w, s, m, t, p, w.k, w.v, 'insert_slot', use=False); h.prove(s, 'the entry was moved out', Eq(h.get(s, r, w.oh), 0))
        if w.trk: shell(h, s, S, r, w.ok, 'key moved'); shell(h, s, S, r, w.ov, 'value moved')
def c_reserve(h, fn, S, kind):
    st, w, m, t, _ = start(h, S, k=False, null=kind == 'null'); h.ex.add_contract(r'^_ZN3rpp3MapI.*11insert_slotE', w.c_insert_slot); n = h.int('n', hi=MAXCAP)
    if t:
        CN = fresh_fn('count', I, 0, MAXCAP); w.CN = lambda x: CN(zi(x)); st.assume(And(Eq(CN(z3.IntVal(0)), 0), Eq(CN(t.C), t.n))); imp(st, 1, lambda j: Implies(t.rng(j), Eq(CN(simp(j + 1)), simp(CN(j) + Ite(t.occ(j), 1, 0)))), 'the length counts the occupied slots')
    C0 = t.C if t else 0; want = n if fn == 'reserve' else simp(2 * zi(C0)) if t else 32; st.assume(Le(want, 1 << 39)); w.capfacts(st, simp(NP2(zi(want)))); w.capfacts(st, z3.IntVal(4))
    for s, _ in h.must_return(h.run(st, f'map_{fn}_{S}', [Ptr(m)] + ([n] if fn == 'reserve' else []))):
        if h.ex.valid(s, Le(want, C0)):
            if t: unchanged(h, w, s, m, t, 'no growth')
            else: h.prove(s, 'still empty', w.get(s, m, 'data').r is None)
            continue
        p = w.get(s, m, 'data'); T = w.now(s, m, (lambda x: z3.IntVal(-1)) if not t else None); h.prove(s, 'room for the given number of slots', And(Le(want, T.C), Le(4, T.C), Eq(NP2(zi(T.C)), T.C)))
        h.prove(s, 'limit and shift agree', And(Eq(w.get(s, m, 'use'), simp(zi(T.C) / 4 * 3)), Eq(T.sh, w.shift_of(T.C)))); h.prove(s, 'the length', Eq(w.get(s, m, 'len'), t.n if t else 0))
        h.prove(s, 'the table has the given capacity', And(Not(p.n), Eq(p.i, 0), Eq(s.reg(p.r).count, T.C))); h.heap_owned(s, [p])
        if not t: h.forall(s, 'the new table is empty', lambda q: Implies(T.rng(q), Not(T.occ(q)))); continue
        for f in T.valid(): h.forall(s, 'after growth: ' + f[0], f[2], n=f[1])
        h.forall(s, 'the same entries', lambda x: And(Implies(t.has(x), And(T.has(x), Eq(T.val(x), t.val(x)))), Implies(T.has(x), t.has(x)))); h.forall(s, 'nothing is added', lambda q: Implies(And(T.rng(q), T.occ(q)), t.has(T.K(q))))
def c_hash(h, S):
    """hash_nonzero: never the marker of a free slot, and a function of the key only"""
    st = h.state(); w = World(h, S, st, hashes=False); k, kv = elem_arg(h, st, 'u64' if S == 'P' else S, 'key', ro=True)
    for s, r in h.must_return(h.run(st, f'map_hash_{S}', [k])): r = h.ex.norm(s, r, 64); h.prove(s, 'not the free-slot marker', Ne(r, 0)); h.prove(s, 'a function of the key', Eq(r, HZ(kv)))
def c_shift(h):
    """bit-vector lemma behind the home slot: for a capacity c in [2^(63-z), 2^(64-z)) (z = leading zeros), x >> (z + 1) < c"""
    st = h.state()
    for z in range(63):
        x, c = z3.BitVecs('x c', 64); sv = z3.Solver(); sv.add(z3.LShR(c, 63 - z) == 1, z3.Not(z3.ULT(z3.LShR(x, z + 1), c)))
        h.prove(st, f'a hash shifted by {z + 1} is below every capacity with {z} leading zeros', sv.check() == z3.unsat)
def isnull(h, w, s, m, what):
    p = w.get(s, m, 'data'); h.prove(s, what + ': no table', Or(p.r is None, p.n))
    for f in ('cap', 'len', 'use', 'shift'): h.prove(s, f'{what}: {f} is 0', Eq(w.get(s, m, f), 0))
def same_table(h, w, s, m, t, what, rid=None):
    """m holds the contents of t (in region rid when given, else in a table of its own)"""
    p = w.get(s, m, 'data'); h.prove(s, what + ': has a table', And(p.r is not None, Not(p.n), Eq(p.i, 0), p.o == 0))
    if p.r is None: return
    T = Tab(w, s, p.r, w.get(s, m, 'cap'), t.P, w.get(s, m, 'shift'))
    h.prove(s, what + ': which table', p.r == rid if rid is not None else p.r != t.rid); h.prove(s, what + ': capacity, shift, limit and length', And(Eq(T.C, t.C), Eq(T.sh, t.sh), Eq(w.get(s, m, 'use'), simp(zi(t.C) / 4 * 3)), Eq(w.get(s, m, 'len'), t.n), Eq(s.reg(p.r).count, t.C), s.reg(p.r).alive))
    h.forall(s, what + ': the same slots are occupied by the same entries', lambda q: Implies(t.rng(q), And(Eq(T.H(q), t.H(q)), Implies(t.occ(q), And(Eq(T.K(q), t.K(q)), Eq(T.V(q), t.V(q)))))))
    for f in T.alive(): h.forall(s, f'{what}: {f[0]}', f[2])
def dead(h, w, s, t, what): h.prove(s, what + ': the table is released', not s.reg(t.rid).alive)
def c_ctor(h, S):
    st = h.state(); w = World(h, S, st); m = h.sreg(st, 'm', h.size('map_' + S))
    for s, _ in h.must_return(h.run(st, f'map_ctor_{S}', [Ptr(m)])): isnull(h, w, s, m, 'default constructed')
def c_cap(h, S):
    st = h.state(); w = World(h, S, st); m = w.m = h.sreg(st, 'm', h.size('map_' + S)); n = h.int('n', hi=1 << 39); w.capfacts(st, simp(NP2(zi(n)))); w.capfacts(st, z3.IntVal(4))
    for s, _ in h.must_return(h.run(st, f'map_ctor_cap_{S}', [Ptr(m), n])):
        p = w.get(s, m, 'data'); h.prove(s, 'empty', Eq(w.get(s, m, 'len'), 0))
        if p.r is None or h.ex.valid(s, p.n): h.prove(s, 'no table only for no capacity', Eq(n, 0)); isnull(h, w, s, m, 'no capacity'); continue
        T = w.now(s, m, lambda x: z3.IntVal(-1)); h.prove(s, 'room for the given number of slots, below the load limit', And(Le(n, T.C), Le(4, T.C), Eq(NP2(zi(T.C)), T.C))); h.forall(s, 'all slots are free', lambda q: Implies(T.rng(q), Not(T.occ(q))))
        h.prove(s, 'limit and shift agree', And(Eq(w.get(s, m, 'use'), simp(zi(T.C) / 4 * 3)), Eq(T.sh, w.shift_of(T.C)))); h.prove(s, 'the table has the given capacity', And(Not(p.n), Eq(p.i, 0), Eq(s.reg(p.r).count, T.C))); h.heap_owned(s, [p])
def c_move(h, S, kind):
    st, w, m, t, _ = start(h, S, k=False, null=kind == 'null'); r = h.sreg(st, 'r', h.size('map_' + S))
    for s, _ in h.must_return(h.run(st, f'map_move_{S}', [Ptr(r), Ptr(m)])):
        isnull(h, w, s, m, 'moved-from'); same_table(h, w, s, r, t, 'moved', t.rid) if t else isnull(h, w, s, r, 'moved')
def c_assign(h, S, kt, ks):
    st, w, m, t, _ = start(h, S, k=False, null=ks == 'null'); r, o = w.map(st, null=kt == 'null', name='target')
    for s, _ in h.must_return(h.run(st, f'map_assign_{S}', [Ptr(r), Ptr(m)])):
        isnull(h, w, s, m, 'moved-from'); same_table(h, w, s, r, t, 'assigned', t.rid) if t else isnull(h, w, s, r, 'assigned')
        if o: dead(h, w, s, o, 'old entries')
        h.heap_owned(s, [t.rid] if t else [])
def c_dtor(h, S, kind):
    st, w, m, t, _ = start(h, S, k=False, null=kind == 'null')
    for s, _ in h.must_return(h.run(st, f'map_dtor_{S}', [Ptr(m)])):
        if t: dead(h, w, s, t, 'destroyed')
        else: h.prove(s, 'nothing is released', True)
        h.heap_owned(s, [])
def c_clone(h, S, kind):
    st, w, m, t, _ = start(h, S, k=False, null=kind == 'null', ro=True); r = h.sreg(st, 'r', h.size('map_' + S))
    for s, _ in h.must_return(h.run(st, f'map_clone_{S}', [Ptr(r), Ptr(m)])):
        if not t: h.prove(s, 'clone of an empty map is empty', Eq(w.get(s, r, 'len'), 0)); p = w.get(s, r, 'data'); h.heap_owned(s, [p] if p.r is not None else []); h.prove(s, 'no table', Or(p.r is None, p.n)); continue
        same_table(h, w, s, r, t, 'clone'); same_table(h, w, s, m, t, 'original', t.rid); h.heap_owned(s, [t.rid, w.get(s, r, 'data')])
def c_clear(h, S, kind):
    st, w, m, t, _ = start(h, S, k=False, null=kind == 'null')
    for s, _ in h.must_return(h.run(st, f'map_clear_{S}', [Ptr(m)])):
        if not t: isnull(h, w, s, m, 'cleared'); continue
        T = w.now(s, m, t.P); h.prove(s, 'the table stays', And(T.rid == t.rid, Eq(T.C, t.C), Eq(T.sh, t.sh), Eq(w.get(s, m, 'use'), simp(zi(t.C) / 4 * 3)))); h.prove(s, 'empty', Eq(w.get(s, m, 'len'), 0))
        h.forall(s, 'all slots are free', lambda q: Implies(T.rng(q), Not(T.occ(q))))
        for f in T.alive(): h.forall(s, 'cleared: ' + f[0], f[2])
def asbool(h, s, r): return r if isinstance(r, bool) or (z3.is_expr(r) and z3.is_bool(r)) else Ne(h.ex.norm(s, r, 8), 0)
def c_query(h, fn, S, kind):
    st, w, m, t, _ = start(h, S, k=False, null=kind == 'null', ro=True); n = t.n if t else 0; u = simp(zi(t.C) / 4 * 3) if t else 0
    for s, r in h.must_return(h.run(st, f'map_{fn}_{S}', [Ptr(m)])):
        if fn == 'length': h.prove(s, 'the length', Eq(r, n))
        else: h.prove(s, fn, zb(asbool(h, s, r)) == zb(Eq(n, 0) if fn == 'empty' else Eq(n, u)))
def c_iter(h, fn, S, kind):
    st, w, m, t, _ = start(h, S, k=False, null=kind == 'null', ro=True); oc = h.off('it_count_' + S); om = 8 - oc; it = h.sreg(st, 'it', h.size('it_' + S)); C = t.C if t else 0; occ = (lambda q: And(t.rng(q), t.occ(q))) if t else lambda q: False
    args = [Ptr(it), Ptr(m)]; lo = 0; c0 = None
    if fn in ('next', 'cnext', 'itkey', 'itval'):
        if not t: raise Unsupported('no entry')
        c0 = h.int('at', hi=MAXCAP); st.assume(occ(c0)); h.put(st, it, om, 8, Ptr(m)); h.put(st, it, oc, 8, c0); args = [Ptr(it)]; lo = simp(c0 + 1)
    for s, r in h.must_return(h.run(st, f'map_{fn}_{S}', args)):
        if fn in ('itkey', 'itval'): h.prove(s, 'refers to the entry', And(r.r == t.rid, Not(r.n), Eq(r.i, c0), r.o == (w.ok if fn == 'itkey' else w.ov))); continue
        c = h.get(s, it, oc); p = h.get(s, it, om, k='p'); h.prove(s, 'iterates over this map', And(p.r == m, p.o == 0))
        if fn in ('end', 'cend'): h.prove(s, 'the end is past the last slot', Eq(c, C)); continue
        h.prove(s, 'the next position', And(Le(lo, c), Le(c, C), Or(Eq(c, C), occ(c)))); h.forall(s, 'no entry is skipped', lambda q: Implies(And(Le(lo, q), Lt(q, c)), Not(occ(q))))
def c_iteq(h, S):
    st, w, m, t, _ = start(h, S, k=False, ro=True); oc = h.off('it_count_' + S); om = 8 - oc; cs = []; its = []
    for n in 'ab': i = h.sreg(st, n, h.size('it_' + S), ro=True); c = h.int('c' + n); h.put(st, i, om, 8, Ptr(m)); h.put(st, i, oc, 8, c); cs.append(c); its.append(Ptr(i))
    for s, r in h.must_return(h.run(st, f'map_iteq_{S}', its)): h.prove(s, 'equal exactly at the same position', zb(asbool(h, s, r)) == zb(Eq(*cs)))
def c_init(h, S):
    st = h.state(); w = World(h, S, st); m = w.m = h.sreg(st, 'm', h.size('map_' + S)); w.st_free = lambda s, t: s.ghost['free'][str(t.rid)]; kv = []
    h.ex.add_contract(r'^_ZN3rpp3MapI.*7reserveEm$', w.c_reserve); h.ex.add_contract(r'^_ZN3rpp3MapI.*11insert_slotE', w.c_insert_slot); E = 'u64' if S == 'P' else S; ps = []
    for n in 'ab':
        r = h.sreg(st, n, 16); k, v = h.int('k' + n), h.int('v' + n); hold(h, st, E, r, h.off('pair_first_' + S), k); hold(h, st, E, r, h.off('pair_second_' + S), v); kv.append((k, v)); ps.append(Ptr(r))
    for s, _ in h.must_return(h.run(st, f'map_init2_{S}', [Ptr(m)] + ps)):
        T = w.now(s, m); (k1, v1), (k2, v2) = kv
        h.prove(s, 'the second pair is stored', And(T.has(k2), Eq(T.val(k2), v2))); h.prove(s, 'the first pair is stored unless the second has its key', Implies(Ne(k1, k2), And(T.has(k1), Eq(T.val(k1), v1))))
        h.forall(s, 'nothing else is stored', lambda q: Implies(And(T.rng(q), T.occ(q)), Or(Eq(T.K(q), k1), Eq(T.K(q), k2)))); h.prove(s, 'the length', Eq(w.get(s, m, 'len'), Ite(Eq(k1, k2), 1, 2)))
        for f in T.valid(): h.forall(s, 'initialised: ' + f[0], f[2], n=f[1])
def c_erase_or_stop(h, S, kind):
    """erase: over the contract of try_erase"""
    st, w, m, t, k = start(h, S, null=kind == 'null'); has = t.has(w.k) if t else False
    def te(ex, st, ins, a, n):
        ex.oblig(st, 'precondition', And(a[0].r == m, Eq(ex.rd(st, ex.check_access(st, a[1], 8, False), 8, 'i'), w.k)), 'erases the given key of this map'); st.ghost['tried'] = st.ghost.get('tried', 0) + 1
        if not t: return ('val', False)
        w.fill(st, t.rid); w.h.put(st, m, w.fields['len'], 8, simp(zi(t.n) - Ite(has, 1, 0))); return ('val', has)
    h.ex.add_contract(r'^_ZN3rpp3MapI.*9try_eraseER', te); outs = h.run(st, f'map_erase_{S}', [Ptr(m), k])
    if not t: return h.never_returns(outs)
    for x, s, v in outs:
        if x == 'abort': h.prove(s, 'stops only for a key that is not stored', Not(has))
    for s, _ in h.returns(outs):
        h.prove(s, 'returns only when the key was erased', has); h.prove(s, 'erased once', s.ghost.get('tried', 0) == 1); h.prove(s, 'nothing else happens', And(w.get(s, m, 'data').r == t.rid, Eq(w.get(s, m, 'cap'), t.C), Eq(w.get(s, m, 'len'), simp(zi(t.n) - 1)), Eq(w.get(s, m, 'use'), simp(zi(t.C) / 4 * 3)), Eq(w.get(s, m, 'shift'), t.sh)))
SS = ('P', 'C', 'K'); KK = ('table', 'null')
CONTRACTS = [(fn, c_lookup, fn, S, k) for S in SS for fn in ('try_get', 'ctry_get', 'get', 'cget', 'contains') for k in KK] + [('try_erase', c_erase, 'try_erase', S, k) for S in SS for k in KK] + [('erase', c_erase_or_stop, S, k) for S in SS for k in KK]
CONTRACTS += [('insert_slot', c_insert_slot, S) for S in SS] + [(fn, c_reserve, fn, S, k) for S in SS for fn in ('reserve', 'grow') for k in KK]
CONTRACTS += [(fn, c_insert, fn, S, k) for S in SS for fn in ['insert', 'emplace'] + {'P': ['goi_c'], 'C': ['insert_cc', 'insert_mc', 'insert_cm', 'goi_c'], 'K': ['goi']}[S] for k in KK]
CONTRACTS += [('ctor', c_ctor, S) for S in SS] + [('ctor_cap', c_cap, S) for S in SS] + [(n, f, S, k) for n, f in (('move', c_move), ('dtor', c_dtor), ('clone', c_clone), ('clear', c_clear)) for S in SS for k in KK] + [('assign', c_assign, S, a, b) for S in SS for a in KK for b in KK]
CONTRACTS += [(fn, c_query, fn, S, k) for fn in ('empty', 'full', 'length') for S in SS for k in KK] + [(fn, c_iter, fn, S, k) for S in SS for fn in ('begin', 'cbegin', 'end', 'cend') for k in KK] + [(fn, c_iter, fn, S, 'table') for S in SS for fn in ('next', 'cnext', 'itkey', 'itval')] + [('iteq', c_iteq, S) for S in SS] + [('init2', c_init, 'P'), ('thorough_init2', c_init, 'C')]
CONTRACTS += [('hash', c_hash, S) for S in SS] + [('shift', c_shift)]
ASSUMPTIONS = ['hashing is a function of the key (uninterpreted: every hash function result is covered)', 'counting: a table with fewer entries than slots has a free slot; a map of length 0 has no occupied slot; the length stays the number of occupied slots when it changes by one exactly as one slot becomes occupied or free, and when entries and keys correspond one to one',
               'Math::ctlz and Math::next_pow2 are used by their contracts (decided by C21); the shift lemma is discharged over bit vectors here', 'tables have at most 2^40 slots', 'source and target of a move assignment are distinct']
TIMEOUT = 30000   # the table lemmas take up to 8 s
