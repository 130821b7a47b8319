"""Contract layer: builds pre-states, runs the real code, states postconditions."""
import z3, time
import terms, vexec, llvmir
from terms import *
from vexec import Exec, State, Cell, Region, Base, Fill, Upd, Gen, RAW, LIVE, MOVED, veq, vite

MAXCAP = 1 << 40       # element counts: storage of 2^40 elements or more cannot be obtained on any supported platform

class H:
    """one contract run"""
    def __init__(self, mod, name, timeout=10000):
        self.m = mod; self.name = name
        self.ex = Exec(mod, name, timeout=timeout)
        self.ex.stride_hint = 8
        self.reached = {}
        self.post = 0
        self.kinds = set()
    life = False       # only lifetimes and storage are checked (C07)
    # ---- module constants exported by the harness
    def const(self, n):
        g = self.m.globals[n]; c = self.m.ginit(g)
        return c[2]
    def off(self, n): return self.const('off_' + n)
    def size(self, n): return self.const('size_' + n)
    # ---- state construction
    def state(self): return State()
    def sreg(self, st, name, size, heap=False, ro=False):
        rid = self.ex.new_region(st, name, size, 1, True, heap)
        st.reg(rid).ro = ro
        if heap: st.ghost.setdefault('heap', []).append(rid)
        return rid
    def areg(self, st, name, stride, count, heap=False, ro=False):
        rid = self.ex.new_region(st, name, stride, count, False, heap)
        st.reg(rid).ro = ro
        if heap: st.ghost.setdefault('heap', []).append(rid)
        return rid
    def exists(self, st, rid, cond):
        """the block only exists under cond (its owner's pointer is null otherwise)"""
        st.ghost.setdefault('exists', {})[rid] = cond
    def put(self, st, rid, off, w, v, k=None):
        if k is None: k = 'p' if isinstance(v, (Ptr, FnPtr)) else 'i'
        r = st.wreg(rid)
        r.cells[off] = Cell(w, k, v)
    def get(self, st, rid, off, w=8, k='i', i=0):
        r = st.reg(rid)
        if k == 'i' and r.scalar:
            v = self.ex.rd(st, Ptr(rid, i, off), w, k)
            return v
        return self.ex.rd(st, Ptr(rid, i, off), w, k)
    def ptr(self, rid, i=0, o=0, n=False): return Ptr(rid, i, o, n)
    def int(self, name, w=64, hi=None): return fresh_int(name, 0, (1 << w) - 1 if hi is None else hi)
    # ---- elements
    def elems(self, st, rid, off=0, w=8, live=None, name='v'):
        """array region contents: values given by a fresh function, liveness by live(k)->bool"""
        f = fresh_fn(name, I, 0, (1 << (8 * w)) - 1)
        r = st.wreg(rid)
        r.cells[off] = Cell(w, 'i', Base(f))
        if live is not None:
            r.cells[('L', off)] = Cell(0, 'g', Gen(Fill(RAW), lambda k: (live(k), LIVE)))
        return f
    def live_at(self, st, rid, k, off=0):
        return self.ex.gget(st, Ptr(rid, k, off))
    # ---- run
    def run(self, st, fn, args, expect_abort=False):
        assert fn in self.m.fns, fn
        self.ex.obls_start = len(self.ex.obls)
        # the precondition must be satisfiable
        r, _ = self.ex.p.check(st.pc, st.q, timeout=20000)
        if r == 'unsat': raise Unsupported(f"vacuous precondition in {self.name}")
        outs = self.ex.run_function(st, fn, args)
        return [o for o in outs if o[0] != 'dead']
    def returns(self, outs):
        rs = []
        for k, s, v in outs:
            if k == 'ret': rs.append((s, v))
        return rs
    def must_return(self, outs):
        """no path may abort"""
        for k, s, v in outs:
            if k == 'abort': self.ex.oblig(s, 'no-abort', False, 'operation must not abort under its precondition', loc=str(v), assume=False)
        rs = self.returns(outs)
        if not any(self.ex.feasible(s) for s, _ in rs):
            self.fail('reachable', 'no normal return is reachable')
        return rs
    def never_returns(self, outs):
        n = 0
        for k, s, v in outs:
            if k == 'ret': self.ex.oblig(s, 'never-returns', False, 'operation must not return when its precondition is violated', loc='post', assume=False)
            else:
                if n or self.ex.feasible(s): n += 1
                self.ex.oblig(s, 'never-returns', True, 'the operation stops', loc='post', assume=False)
        if not n: self.fail('reachable', 'nothing reached')
    def fail(self, kind, detail):
        o = vexec.Obligation(); o.kind = kind; o.name = kind; o.loc = 'post'; o.status = 'refuted'; o.detail = detail; o.contract = self.name; o.model = None; o.time = 0
        self.ex.obls.append(o)
    def prove(self, st, name, goal):
        self.post += 1
        if isinstance(goal, int) and not isinstance(goal, bool): goal = bool(goal)
        return self.ex.oblig(st, 'postcondition', goal, name, loc='post', assume=False)
    def forall(self, st, name, mk, n=1, lo=None, hi=None):
        """prove mk(k) for a fresh k (lo<=k<hi if given)"""
        ks = [fresh_int('k') for _ in range(n)]
        g = mk(*ks)
        for k in ks:
            if lo is not None: g = Implies(Le(lo, k), g)
            if hi is not None: g = Implies(Lt(k, hi), g)
        return self.prove(st, name, g)
    def heap_owned(self, st, owned, what='no storage leaked'):
        """every heap block still allocated is one of owned (list of Ptr/rid)"""
        own = set(p.r if isinstance(p, Ptr) else p for p in owned)
        for rid in st.ghost.get('heap', []):
            r = st.mem.get(rid)
            if r is None or not r.alive: continue
            if rid not in own: self.prove(st, f'{what} ({r.name})', Not(st.ghost.get('exists', {}).get(rid, True)))
    def live_only(self, st, rid, cond, what):
        """element k of rid is alive iff cond(k)  (moved-from shells are not alive)"""
        self.forall(st, what, lambda k: Implies(And(Le(0, k), Lt(k, st.reg(rid).count)), zb(Eq(zi(self.live_at(st, rid, k)), LIVE)) == zb(cond(k))))
    def ro(self, st, rid): st.reg(rid).ro = True
    # ---- results
    def result(self):
        return self.ex.obls

class Trace: pass
