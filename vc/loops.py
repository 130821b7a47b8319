"""Loops: complete unrolling where the trip count is concrete, inductive summaries otherwise.

A summary describes the state at the start of iteration n (n >= 0 arbitrary): variables with a constant step
are x0 + c*n, other loop-carried scalars are F(n) for a fresh F with the recurrence F(m+1) = g(F(m), m), and
arrays written at an index linear in n are described by the iteration that wrote each element last.
Candidates are guessed from the first iterations; the summary is then established by induction: one iteration
from the summarised state at n must re-establish it at n+1 (obligation 'loop-invariant-preserved'), and all
obligations inside the body are discharged in that arbitrary iteration."""
import z3
from terms import *
import vexec as X

def handle(ex, st, h, stop):
    fr = st.frames[-1]
    body = fr.fn.loops[h]; depth = len(st.frames)
    if ex.loop_hook is not None:
        r = ex.loop_hook(ex, st, h, stop)
        if r is not None: return None if r == 'goto' else r
    L = Loop(ex, st, h, stop)
    return L.run()

def concrete(v):
    return isinstance(v, (bool, int)) or (isinstance(v, X.Ptr) and v.r is None) or isinstance(v, X.FnPtr)

def resume(ex, outs, stop):
    """outcomes of a nested run -> items for the surrounding run"""
    res = []
    for k, s, v in outs:
        if k == 'exit':
            r = ex.jump(s, v, stop)
            if r is None: res.append(('fork', s, None))
            else: res += r
        else: res.append((k, s, v))
    return res

class Loop:
    def __init__(self, ex, st, h, stop):
        self.ex = ex; self.h = h; self.stop = stop
        fr = st.frames[-1]
        self.fn = fr.fn; self.body = fr.fn.loops[h]; self.depth = len(st.frames)
        self.mystop = (self.depth, h, self.body)
        self.phi = [i for i in fr.fn.blocks[h].insts if i.op == 'phi']
        self.enter = st
        self.pred = fr.b

    # ---- running one iteration
    def at_header(self, st, vals):
        """put st at the header with the given phi values"""
        fr = st.frames[-1]
        for i in self.phi: fr.env[i.id] = vals[i.id]
        fr.prev = fr.b; fr.b = self.h; fr.ip = len(self.phi)
        return st
    def iterate(self, st):
        return self.ex.run(st, self.mystop)
    def silent_iterate(self, st):
        self.ex.silent += 1
        try: return self.iterate(st)
        finally: self.ex.silent -= 1
    def phivals(self, st, frm):
        out = {}
        for i in self.phi:
            for (b, o) in i.ops:
                if b == frm: out[i.id] = self.ex.val(st, o); break
            else: raise Unsupported("phi without incoming edge")
        return out

    def run(self):
        ex = self.ex; st = self.enter
        self.init = {k: (ex.tidy(st, v) if z3.is_expr(v) and z3.is_int(v) else v) for k, v in self.phivals(st, self.pred).items()}
        pr = {'depth': self.depth, 'body': self.body, 'exits': []}
        # probe: first iteration from the actual state
        for attempt in range(8):
            ex.probes.append(pr); pr['exits'] = []
            try: outs = self.silent_iterate(self.at_header(st.copy(), self.init))
            finally: ex.probes.pop()
            if not self.materialise(st, [o[1] for o in outs]): break
        if getattr(ex, 'force_summary', None) and ex.force_summary(self.fn.name, self.h): pass
        elif any(pr['exits']): return self.unroll(st)
        backs = [s for k, s, v in outs if k == 'back']
        if not backs: return self.unroll(st)
        if ex.loop_inv is not None:
            r = InvLoop(self).run()
            if r is not None: return r
        return self.summarise(st, backs)
    def unroll(self, st):
        fr = st.frames[-1]; fr.unroll[self.h] = 0
        self.at_header(st, self.init)
        return None

    def materialise(self, st, outs):
        """cells looked at for the first time inside the loop exist before it"""
        new = False
        for o in outs:
            for rid, r in o.mem.items():
                if rid not in st.mem: continue
                p = st.mem[rid]
                for key, c in r.cells.items():
                    if key in p.cells: continue
                    if isinstance(key, tuple):
                        w = st.wreg(rid); w.cells[key] = X.Cell(0, 'g', X.RAW if r.scalar else X.Fill(X.RAW)); new = True; continue
                    if any(isinstance(k, int) and k < key + c.w and key < k + q.w for k, q in p.cells.items()): continue
                    self.ex.lazy_cell(st, st.wreg(rid), key, c.w, c.k); new = True
                    p = st.mem[rid]
        return new

    # ---- modified locations
    def locs(self, pre, prevals, back):
        """locations whose value at the back edge differs from the header"""
        out = {}
        pv = self.phivals(back, back.frames[-1].b)
        for i in self.phi:
            if not X_same(prevals[i.id], pv[i.id]): out[('phi', i.id)] = pv[i.id]
        for rid, r in back.mem.items():
            p = pre.mem.get(rid)
            if p is None:
                continue
            if p is r: continue
            if p.alive != r.alive: raise Unsupported(f"{r.name} released inside a loop")
            for key, c in r.cells.items():
                q = p.cells.get(key)
                if q is None: 
                    if isinstance(key, tuple) and r.scalar and c.v == X.RAW: continue
                    raise Unsupported(f"cell layout of {r.name} changes inside a loop")
                if c is q: continue
                if r.scalar:
                    if not X_same(q.v, c.v): out[('cell', rid, key)] = c.v
                elif q.v is not c.v: out[('arr', rid, key)] = c.v
        hp, hb = pre.ghost.get('heap', []), back.ghost.get('heap', [])
        if len(hp) != len(hb): raise Unsupported("allocation inside a loop")
        for f, g in zip(pre.frames[:-1], back.frames[:-1]): pass
        return out
    def get(self, st, vals, loc):
        if loc[0] == 'phi': return vals[loc[1]]
        return st.mem[loc[1]].cells[loc[2]].v

    def width(self, st, loc):
        if loc[0] == 'phi':
            for i in self.phi:
                if i.id == loc[1]: return i.ty[1] if i.ty[0] == 'int' else None
        c = st.mem[loc[1]].cells[loc[2]]
        return c.w * 8 if c.k == 'i' else None

    def guess(self, st, loc, x0, xs):
        """hypothesis for a location from its values in the first iterations"""
        if isinstance(x0, X.Ptr):
            if x0.r is None:
                if all(isinstance(x, X.Ptr) and x.r is None for x in xs): return ('const',)
                return ('mode',)
            if all(isinstance(x, X.Ptr) and x.r == x0.r and x.o == x0.o and X_same(x.n, x0.n) for x in xs):
                d = [simp(zi(b.i) - zi(a.i)) for a, b in zip([x0] + xs, xs)]
                if all(isinstance(q, int) and q == d[0] for q in d): return ('plin', d[0])
                return ('prec',)
            return ('rec',)
        if isinstance(x0, bool) or (z3.is_expr(x0) and z3.is_bool(x0)):
            if isinstance(x0, bool) and all(isinstance(x, bool) for x in xs): return ('mode',)
            return ('rec',)
        if isinstance(x0, int) or (z3.is_expr(x0) and z3.is_int(x0)):
            if all(isinstance(x, int) or (z3.is_expr(x) and z3.is_int(x)) for x in xs):
                d = [simp(zi(b) - zi(a)) for a, b in zip([x0] + xs, xs)]
                if all(isinstance(q, int) and q == d[0] for q in d): return ('lin', d[0])
                if isinstance(x0, int) and all(isinstance(x, int) for x in xs): return ('mode',)
            return ('rec',)
        if x0 is UNDEF: return ('last',)
        if isinstance(x0, X.FnPtr): return ('mode',)
        return ('rec',)

    def hypval(self, st, loc, hyp, x0, n):
        k = hyp[0]
        if k == 'lin': return simp(zi(x0) + hyp[1] * n)
        if k == 'ring':
            c = self.ex.rings[hyp[1]]; e = simp(zi(self.ex.norm(self.enter, x0, self.width(st, loc))) + n)
            return Ite(Lt(e, c), e, simp(zi(e) - c))
        if k == 'plin': return X.Ptr(x0.r, simp(zi(x0.i) + hyp[1] * n), x0.o, x0.n)
        if k in ('mode', 'const'): return x0
        if k == 'last': return UNDEF
        if k in ('rec', 'prec'):
            F = self.F.get(loc)
            if F is None:
                if k == 'prec': F = fresh_fn('P')
                elif isinstance(x0, bool) or (z3.is_expr(x0) and z3.is_bool(x0)): F = fresh_fn('F', B)
                elif hasattr(x0, 'fite'): raise Unsupported("floating-point loop accumulator")
                else:
                    w = self.width(st, loc)
                    if w is None: raise Unsupported(f"loop-carried value of unknown kind {x0}")
                    F = fresh_fn('F', I, 0, (1 << w) - 1)
                self.F[loc] = F
            v = F(zi(n))
            return X.Ptr(x0.r, v, x0.o, x0.n) if k == 'prec' else v
        raise Unsupported(k)

    def setup(self, base, hyps, n):
        """copy of base at the header with all modified scalars replaced by their value at iteration n"""
        s = base.copy()
        vals = dict(self.init)
        for loc, hyp in hyps.items():
            if loc[0] == 'arr': continue
            x0 = self.get(base, self.init, loc)
            v = self.hypval(base, loc, hyp, x0, n)
            if loc[0] == 'phi': vals[loc[1]] = v
            else:
                r = s.wreg(loc[1]); c = r.cells[loc[2]]; r.cells[loc[2]] = X.Cell(c.w, c.k, v)
        s.normed = {}
        self.at_header(s, vals)
        return s, vals

    def summarise(self, st, backs):
        ex = self.ex
        self.F = {}
        # guesses from two consecutive iterations
        seqs = {}
        two = []
        for b in backs[:4]:
            m = self.locs(st, self.init, b)
            bv = self.phivals(b, b.frames[-1].b)
            nxt = []
            try: nxt = [s for k, s, v in self.silent_iterate(self.at_header(b.copy(), bv)) if k == 'back']
            except Unsupported: nxt = []
            two.append((b, bv, m, nxt))
        locs = set()
        for b, bv, m, nxt in two:
            locs |= set(m)
            for c in nxt:
                cv = self.phivals(c, c.frames[-1].b)
                locs |= set(self.locs(b, bv, c))
        hyps = {}
        for loc in locs:
            if loc[0] == 'arr': hyps[loc] = ('arr',); continue
            x0 = self.get(st, self.init, loc)
            gs = set(); seen = [x0]
            for b, bv, m, nxt in two:
                x1 = self.get(b, bv, loc); seen.append(x1)
                if not nxt: gs.add(self.guess(st, loc, x0, [x1]))
                for c in nxt:
                    cv = self.phivals(c, c.frames[-1].b); seen.append(self.get(c, cv, loc))
                    gs.add(self.guess(st, loc, x0, [x1, self.get(c, cv, loc)]))
            g = gs.pop() if len(gs) == 1 else None
            if g is None:
                g = ('mode',) if all(x[0] == 'mode' for x in gs) and False else ('prec',) if isinstance(x0, X.Ptr) and x0.r is not None else ('rec',)
                if concrete(x0) and (isinstance(x0, bool) or (all(isinstance(x, int) for x in seen) and len(set(seen)) <= 2)): g = ('mode',)
            if g == ('rec',) and ex.rings and not isinstance(x0, bool) and (isinstance(x0, int) or z3.is_int(x0)): g = ('ring', 0)
            hyps[loc] = g
        # refine against a symbolic iteration
        for attempt in range(12):
            n = fresh_int('n', 0)
            s, vals = self.setup(st, hyps, n)
            # candidates are only proposed under the assumption that stepping variables stay in range; the induction below re-checks without it
            for loc, hyp in hyps.items():
                if hyp[0] == 'lin':
                    w = self.width(st, loc); v = self.get(s, vals, loc)
                    if w: s.assume(And(Le(0, v), Lt(v, 1 << w), Le(0, simp(zi(v) + hyp[1])), Lt(simp(zi(v) + hyp[1]), 1 << w)))
                elif hyp[0] == 'ring':
                    w = self.width(st, loc); v = self.get(s, vals, loc)
                    if w: s.assume(And(Le(0, v), Lt(v, ex.rings[hyp[1]])))
                elif hyp[0] == 'plin':
                    v = self.get(s, vals, loc)
                    if v.r != 'opaque' and st.mem[v.r].count is not None: s.assume(And(Le(-1, v.i), Le(v.i, st.mem[v.r].count)))
            base_pc = len(s.pc)
            outs = self.silent_iterate(s.copy())
            if self.materialise(st, [o[1] for o in outs]): continue
            changed = False
            paths = []
            for k, b, v in outs:
                if k != 'back': continue
                m = self.locs(s, vals, b)
                bv = self.phivals(b, b.frames[-1].b)
                for loc in m:
                    if loc not in hyps:
                        x0 = self.get(st, self.init, loc)
                        hyps[loc] = ('arr',) if loc[0] == 'arr' else self.guess(st, loc, x0, [m[loc]]) if not isinstance(x0, (int, bool)) or isinstance(m[loc], (int, bool)) else ('rec',)
                        changed = True
                if changed: continue
                modechange = False
                for loc, hyp in list(hyps.items()):
                    if hyp[0] in ('arr', 'last', 'rec', 'prec'):
                        if hyp[0] == 'prec':
                            y = self.get(b, bv, loc); x0 = self.get(st, self.init, loc)
                            if not (isinstance(y, X.Ptr) and y.r == x0.r and y.o == x0.o): raise Unsupported("loop-carried pointer changes its target object")
                        continue
                    y = self.get(b, bv, loc); x = self.get(s, vals, loc)
                    if hyp[0] in ('mode', 'const'):
                        if concrete(y):
                            if not X_same(y, x): modechange = True
                        elif X_same(y, x): pass
                        else:
                            hyps[loc] = self.guess2(st, loc, x, y); changed = True
                    else:
                        want = self.hypval(st, loc, hyp, self.get(st, self.init, loc), n + 1)
                        e = X.veq(y, want)
                        if e is True: continue
                        if not ex.valid(b, e):
                            nr = 0 if hyp[0] == 'lin' else hyp[1] + 1 if hyp[0] == 'ring' else 99
                            if nr < len(ex.rings): hyps[loc] = ('ring', nr); changed = True; continue
                            hyps[loc] = ('prec',) if isinstance(x, X.Ptr) else ('rec',)
                            if isinstance(self.get(st, self.init, loc), bool): hyps[loc] = ('rec',)
                            changed = True
                if not modechange: paths.append((b, bv))
            if not changed: break
        else: raise Unsupported(f"loop at {ex.loc(st)} has no stable summary")
        # per-iteration facts as functions of n
        known = len(st.pc)
        P = []
        for b, bv in paths:
            pcs = [c for c in b.pc[base_pc:] if c.get_id() not in ex.oblpc]     # branch conditions only
            P.append((And(*pcs), b, bv))
        self.n = n
        self.check_fresh(P, st, n)
        gens = {}
        for loc, hyp in hyps.items():
            if hyp[0] != 'arr': continue
            gens[loc] = self.arrsum(st, s, loc, P, n)
        # the hypothesised state
        N = fresh_int('n', 0)
        t, tv = self.setup(st, hyps, N)
        for loc, g in gens.items():
            r = t.wreg(loc[1]); c = r.cells[loc[2]]
            r.cells[loc[2]] = X.Cell(c.w, c.k, X.Gen(c.v, g(N)))
        self.facts(t, st, hyps, P, n, N)
        cont_any = Or(*[p[0] for p in P])
        outs = self.iterate(t.copy())
        res = []
        for k, b, v in outs:
            if k != 'back':
                res.append((k, b, v)); continue
            bv = self.phivals(b, b.frames[-1].b)
            m = self.locs(t, tv, b)
            mc = None
            for loc, hyp in hyps.items():
                if hyp[0] in ('mode', 'const'):
                    y = self.get(b, bv, loc)
                    if not X_same(y, self.get(t, tv, loc)): mc = loc
            for loc in m:
                if loc not in hyps: raise Unsupported("loop modifies an unexpected location")
            if mc is not None:
                # the loop continues in another mode: a new loop entry
                g = b.ghost.setdefault('modes', {}); key = (self.depth, self.fn.name, self.h)
                g[key] = g.get(key, 0) + 1
                if g[key] > 4: raise Unsupported("too many loop mode changes")
                sub = Loop(ex, b, self.h, self.stop); sub.pred = b.frames[-1].b
                r = sub.run()
                res += [('fork', b, None)] if r is None else [x for x in r]
                continue
            # induction step
            goals = []
            alts = []
            for (pc, pb, pbv) in P:
                g = [subst(pc, [(n, N)]) if z3.is_expr(pc) else pc]
                for loc, hyp in hyps.items():
                    if hyp[0] in ('rec', 'prec'):
                        y = self.get(b, bv, loc); z = self.get(pb, pbv, loc)
                        if hyp[0] == 'prec': y, z = y.i, z.i
                        w = self.width(st, loc)
                        if w is not None and hyp[0] == 'rec' and not isinstance(y, bool) and not (z3.is_expr(y) and z3.is_bool(y)): y = ex.norm(b, y, w); z = ex.norm(pb, z, w)
                        g.append(Eq(y, vsub(z, [(n, N)])))
                alts.append(And(*g))
            goals.append(Or(*alts))
            for loc, hyp in hyps.items():
                if hyp[0] in ('lin', 'plin', 'ring'):
                    want = self.hypval(st, loc, hyp, self.get(st, self.init, loc), N + 1)
                    goals.append(X.veq(self.get(b, bv, loc), want))
            ok = True
            for g in goals: ok = self.prove(b, g) and ok
            for loc, gg in gens.items():
                kk = fresh_int('k')
                cur = b.mem[loc[1]].cells[loc[2]].v.get(ex, kk)
                want = X.Gen(st.mem[loc[1]].cells[loc[2]].v, gg(simp(N + 1))).get(ex, kk)
                ok = self.prove(b, X.veq(cur, want), kk, loc) and ok
            if not ok and ex.silent: raise Unsupported("no inductive summary (nested)")
        # termination of a counted loop
        return resume_nested(ex, res, self.stop)
    def prove(self, b, g, kk=None, loc=None):
        if g is True: return True
        r = self.ex.valid(b, g, timeout=8000) if self.ex.silent else self.ex.oblig(b.copy(), 'loop-invariant-preserved', g, f'summary of the loop is inductive{"" if loc is None else " (contents of " + b.mem[loc[1]].name + ")"}')
        return r
    def guess2(self, st, loc, x, y):
        if isinstance(y, X.Ptr) and isinstance(x, X.Ptr) and x.r is not None: return ('prec',)
        if isinstance(x, X.Ptr): raise Unsupported("pointer loop variable without a common target")
        return ('rec',)

    def check_fresh(self, P, st, n): pass

    def arrsum(self, st, s, loc, P, n):
        """function N -> (k -> (written?, value)) describing the contents after N iterations"""
        ex = self.ex
        entries = []
        single = len(P) == 1
        for pi, (pc, b, bv) in enumerate(P):
            r = b.mem[loc[1]]
            c = r.cells.get(loc[2])
            base = s.mem[loc[1]].cells[loc[2]].v
            if c is None or c.v is base: continue
            chain = []
            v = c.v
            while v is not base:
                if isinstance(v, X.Upd): chain.append((v.i, v.v)); v = v.prev
                else: raise Unsupported(f"bulk write to {r.name} inside a loop")
            chain.reverse()
            for o, (i, val) in enumerate(chain):
                for cond, j in cases(i):
                    a, cf = self.lin_n(ex, j, n)
                    if a is None: raise Unsupported(f"write to {r.name} at an index that is not linear in the iteration count: {j}")
                    entries.append((cf, a, o, val, And(cond, True if single else pc)))
        # later iterations win: sort by iteration number for a given element (constant differences), then program order
        def key(e): return e
        # (groups whose distances are not constant are compared by iteration number)
        groups = []
        for o in sorted(set(e[2] for e in entries)):
            mine = [e for e in entries if e[2] == o]
            if groups and all(self.dist(e, f) is not None for e in groups[-1] for f in mine): groups[-1] += mine
            else: groups.append(mine)
        groups = [self.order(g) for g in groups]
        def group(g, k, N):
            any_ = False; res = UNDEF; at = None
            for (cf, a, o, val, cond) in reversed(g):
                if cf == 1: m = simp(zi(k) - a); ok = True
                elif cf == -1: m = simp(zi(a) - k); ok = True
                else:
                    q = simp(zi(k) - a)
                    if cf < 0: q = simp(-zi(q))
                    m = simp(zi(q) / abs(cf)); ok = Eq(simp(zi(q) % abs(cf)), 0)
                c = And(ok, Le(0, m), Lt(m, N), vsub(cond, [(n, m)]))
                res = X.vite(c, vsub(val, [(n, m)]), res) if res is not UNDEF else vsub(val, [(n, m)])
                at = Ite(c, m, at) if at is not None else m
                any_ = Or(any_, c)
            return any_, res, at
        def at(N):
            def f(k):
                any_, res, t = group(groups[0], k, N) if groups else (False, UNDEF, None)
                for g in groups[1:]:
                    a2, r2, t2 = group(g, k, N)
                    w = And(a2, Or(Not(any_), Ge(t2, t)))
                    res = X.vite(w, r2, res); t = Ite(w, t2, t); any_ = Or(any_, a2)
                return (any_, res)
            return f
        return at
    def dist(self, e, f):
        if e[0] != f[0] or abs(e[0]) != 1: return None
        d = simp((zi(f[1]) - zi(e[1])) * e[0])     # iteration of e minus iteration of f for one element
        return d if isinstance(d, int) else None
    def order(self, entries):
        # the latest iteration first; within an iteration the last write first
        def before(e, f):
            d = self.dist(e, f)
            return d is not None and (d > 0 or (d == 0 and e[2] > f[2]))
        out = []; rest = sorted(entries, key=lambda e: -e[2])
        while rest:
            for i, e in enumerate(rest):
                if not any(before(f, e) for f in rest if f is not e): break
            else: raise Unsupported("writes of a loop cannot be ordered")
            out.append(rest.pop(i))
        return out
    def lin_n(self, ex, j, n):
        """j = a + cf*n"""
        if isinstance(j, int): return None, None
        l, c = ex.lin(j)
        cf = 0; a = z3.IntVal(c)
        for t, k in l.values():
            if t.eq(n): cf = k
            elif n.get_id() in consts(t): return None, None
            else: a = a + t * k
        if cf == 0: return None, None
        return simp(a), cf

    def facts(self, t, st, hyps, P, n, N):
        """what is known at iteration N: every earlier iteration continued, recurrences of the carried values"""
        cont = Or(*[p[0] for p in P])
        q = z3.Int(fresh_name('q'))
        body = subst(zb(cont), [(n, q)]) if z3.is_expr(cont) else cont
        body = zb(body)
        seeds = [simp(N - 1), z3.IntVal(0)] + [s for s in roots(self.ex, cont, n)]
        t.q.append(QFact([q], Implies(And(Le(0, q), Lt(q, N)), body), [X.trig_of(body, q)], 'loop-continued', [seeds]))
        for loc, hyp in hyps.items():
            if hyp[0] not in ('rec', 'prec'): continue
            F = self.F[loc]; x0 = self.get(st, self.init, loc)
            if hyp[0] == 'prec': x0 = x0.i
            w = self.width(st, loc)
            if w is not None and hyp[0] == 'rec' and not isinstance(x0, bool): x0 = self.ex.norm(st, x0, w)
            t.assume(Eq(F(z3.IntVal(0)), x0))
            q = z3.Int(fresh_name('q'))
            alts = []
            for (pc, b, bv) in P:
                v = self.get(b, bv, loc)
                if hyp[0] == 'prec': v = v.i
                elif w is not None and not isinstance(v, bool) and not (z3.is_expr(v) and z3.is_bool(v)): v = self.ex.norm(b, v, w)
                alts.append(And(vsub(pc, [(n, q)]), Eq(F(q + 1), vsub(v, [(n, q)]))))
            body = Or(*alts)
            t.q.append(QFact([q], Implies(And(Le(0, q), Lt(q, N)), zb(body)), [[(F.name(), 0, 1, z3.IntVal(0)), (F.name(), 0, 1, z3.IntVal(1))]], 'loop-recurrence', [[simp(N - 1), z3.IntVal(0)]]))

class View:
    """a program state at a loop head as an invariant sees it"""
    def __init__(self, ex, st, vals, ghost=None): self.ex = ex; self.st = st; self.vals = vals; self.ghost = ghost

class InvLoop:
    """a loop cut by an invariant the contract supplies: an object with
         facts(view) -> [(name, number of bound variables, body)]
         ghost0(view) / ghostn(view) / ghoststep(header view, view): ghost state on entry, at an arbitrary iteration, after one iteration"""
    def __init__(self, L): self.L = L; self.ex = L.ex
    def havoc(self, st, mods):
        L = self.L
        s = st.copy(); vals = dict(L.init)
        for loc in sorted(mods, key=str):
            x0 = L.get(st, L.init, loc)
            if loc[0] == 'arr':
                r = s.wreg(loc[1]); c = r.cells[loc[2]]
                if c.k == 'i': v = X.Base(fresh_fn('H', I, 0, (1 << (8 * c.w)) - 1))
                elif c.k == 'g': v = X.Base(fresh_fn('L', I, 0, 2))
                elif c.k == 'p': v = self.hptr(c.v)
                else: raise Unsupported("loop writes an array of a kind no invariant describes")
                r.cells[loc[2]] = X.Cell(c.w, c.k, v); continue
            if isinstance(x0, bool) or (z3.is_expr(x0) and z3.is_bool(x0)): v = fresh_bool('h')
            elif isinstance(x0, X.Ptr):
                if x0.r is None:
                    nr = self.ex.null_region(st) if getattr(self.ex, 'null_region', None) else None
                    if nr is None: raise Unsupported("loop-carried pointer starts as null")
                    x0 = X.Ptr(nr, 0, 0, True)
                v = X.Ptr(x0.r, fresh_int('hp'), x0.o, False if x0.n is False else fresh_bool('hn'))
            elif x0 is UNDEF: v = UNDEF
            elif isinstance(x0, X.FnPtr) or isinstance(x0, Agg) or hasattr(x0, 'fite'): raise Unsupported("loop-carried value of a kind no invariant describes")
            else:
                w = L.width(st, loc)
                if w is None: raise Unsupported("loop-carried value of unknown width")
                v = fresh_int('h', 0, (1 << w) - 1)
            if loc[0] == 'phi': vals[loc[1]] = v
            else:
                r = s.wreg(loc[1]); c = r.cells[loc[2]]; r.cells[loc[2]] = X.Cell(c.w, c.k, v)
        s.normed = {}
        L.at_header(s, vals)
        return s, vals
    def hptr(self, v):
        while not isinstance(v, X.Base): 
            if isinstance(v, (X.Upd, X.Gen)): v = v.prev
            else: raise Unsupported("loop writes an array of pointers")
        return X.Base(fresh_fn('HP'), v.tr, z3.Function(fresh_name('HN'), I, B) if v.nfn is not None else None, v.off)
    def modified(self):
        L = self.L; st = L.enter; mods = set()
        for _ in range(10):
            s, vals = self.havoc(st, mods)
            outs = L.silent_iterate(s.copy())
            if L.materialise(st, [o[1] for o in outs]): continue
            new = set()
            for k, b, v in outs:
                if k == 'back': new |= set(L.locs(s, vals, b))
            if new <= mods: return mods
            mods |= new
        raise Unsupported("modified locations of the loop do not stabilise")
    def goals(self, inv, view):
        out = []
        for name, n, mk in inv.facts(view):
            out.append((name, mk(*[fresh_int('k') for _ in range(n)])))
        return out
    def assume(self, inv, view):
        for name, n, mk in inv.facts(view):
            if n == 0: view.st.assume(mk()); continue
            ks = [z3.Int(fresh_name('q')) for _ in range(n)]
            body = zb(mk(*ks))
            view.st.q.append(QFact(ks, body, [X.trig_of(body, k) for k in ks], name))
    def attempt(self, inv, mods, silent):
        """returns (ok, outcomes)"""
        L = self.L; ex = self.ex; st = L.enter
        ok = True
        v0 = View(ex, st, L.init); v0.ghost = inv.ghost0(v0)
        for name, g in self.goals(inv, v0):
            if silent:
                if not ex.valid(st, g, timeout=4000): self.why = ('entry', name); return False, None
            else: ex.oblig(st.copy(), 'loop-invariant-established', g, name)
        s, vals = self.havoc(st, mods)
        h = View(ex, s, vals); h.ghost = inv.ghostn(h)
        self.assume(inv, h)
        outs = L.silent_iterate(s.copy()) if silent else L.iterate(s.copy())
        res = []
        for k, b, v in outs:
            if k != 'back': res.append((k, b, v)); continue
            bv = L.phivals(b, b.frames[-1].b)
            w = View(ex, b, bv)
            if not silent and not ex.feasible(b): continue
            for loc in L.locs(s, vals, b):
                if loc not in mods: raise Unsupported("loop modifies an unexpected location")
            for loc in mods:    # a pointer taken to be non-null at the loop head has to be so again
                if loc[0] == 'arr': continue
                x0 = L.get(st, L.init, loc); x = bv[loc[1]] if loc[0] == 'phi' else b.mem[loc[1]].cells[loc[2]].v
                if isinstance(x0, X.Ptr) and x0.n is False and isinstance(x, X.Ptr) and x.n is not False:
                    if silent:
                        if not ex.valid(b, Not(x.n), timeout=4000): self.why = ('preserved', 'non-null'); return False, None
                    else: ex.oblig(b.copy(), 'loop-invariant-preserved', Not(x.n), 'the pointer is not null')
            w.ghost = inv.ghoststep(h, w)
            for name, g in self.goals(inv, w):
                if silent:
                    if not ex.valid(b, g, timeout=8000): self.why = ('preserved', name); return False, None
                else: ex.oblig(b.copy(), 'loop-invariant-preserved', g, name)
        return True, res
    def run(self):
        ex = self.ex; L = self.L; st = L.enter
        mods = self.modified()
        cands = list(ex.loop_inv(ex, L, st, mods))
        if not cands: return None
        best = None; self.why = None
        if len(cands) == 1 and not getattr(cands[0], 'optional', True): best = cands[0]; cands = []
        for c in cands:
            try: ok, _ = self.attempt(c, mods, True)
            except Unsupported as e: ok = False; self.why = ('unsupported', str(e))
            if ok: best = c; break
            if getattr(ex, 'trace_inv', None): print('candidate', c, 'rejected:', self.why)
        if best is None:
            if getattr(cands[0], 'optional', True):
                try: 
                    n0 = len(ex.obls); return L.summarise(st.copy(), [s for k, s, v in L.silent_iterate(L.at_header(st.copy(), L.init)) if k == 'back'])
                except Unsupported: del ex.obls[n0:]
            best = cands[0]
        ok, res = self.attempt(best, mods, False)
        return resume_nested(ex, res, L.stop)

def provenance(ex, t, leaf):
    """index of the original element a value term denotes, through copies (-1 where it is not a copy of one)"""
    t = zi(t)
    r = leaf(t)
    if r is not None: return zi(r)
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_ITE: return Ite(t.arg(0), provenance(ex, t.arg(1), leaf), provenance(ex, t.arg(2), leaf))
        p = ex.prov.get(t.decl().name()) if t.num_args() == 1 else None
        if p is not None: return p(t.arg(0))
    return z3.IntVal(-1)

def resume_nested(ex, outs, stop):
    res = []
    for k, s, v in outs:
        if k == 'exit':
            r = ex.jump(s, v, stop)
            if r is None: res.append(('fork', s, None))
            else: res += r
        else: res.append((k, s, v))
    return res

def cases(i):
    """case split of an index built from if-then-else"""
    if z3.is_expr(i) and z3.is_app(i) and i.decl().kind() == z3.Z3_OP_ITE:
        return [(And(i.arg(0), c), j) for c, j in cases(i.arg(1))] + [(And(Not(i.arg(0)), c), j) for c, j in cases(i.arg(2))]
    ite = find_ite(i)
    if ite is not None:
        c, a, b = ite.children()
        return [(And(c, d), j) for d, j in cases(simp(z3.substitute(i, (ite, a))))] + [(And(Not(c), d), j) for d, j in cases(simp(z3.substitute(i, (ite, b))))]
    return [(True, i)]
def find_ite(e):
    if not z3.is_expr(e): return None
    st = [e]
    while st:
        x = st.pop()
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE and z3.is_int(x): return x
            if x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS): st.extend(x.children())
    return None

def roots(ex, e, n):
    """iteration numbers at which an (in)equality over n changes its truth value"""
    out = []
    if not z3.is_expr(e): return out
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if not z3.is_app(x): continue
        k = x.decl().kind()
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_int(x.arg(0)):
            d = simp(x.arg(0) - x.arg(1))
            if z3.is_expr(d):
                l, c = ex.lin(d)
                cf = None; rest = z3.IntVal(c); ok = True
                for t, kk in l.values():
                    if t.eq(n): cf = kk
                    elif n.get_id() in consts(t): ok = False
                    else: rest = rest + t * kk
                if ok and cf:
                    q = ex.exdiv(simp(-rest), abs(cf))
                    if q is not None: out.append(simp(zi(q) * (1 if cf > 0 else -1)))
        st.extend(x.children())
    return out[:6]

def vsub(v, pairs):
    if isinstance(v, X.Ptr): return X.Ptr(v.r, subst(v.i, pairs), v.o, subst(v.n, pairs))
    if isinstance(v, Agg): return Agg(vsub(x, pairs) for x in v)
    if hasattr(v, 'fsub'): return v.fsub(pairs)
    if z3.is_expr(v): return subst(v, pairs)
    return v
def X_same(a, b):
    if a is b: return True
    if isinstance(a, X.Ptr) and isinstance(b, X.Ptr):
        return a.r == b.r and a.o == b.o and X_same(a.i, b.i) and X_same(a.n, b.n) if a.r is not None or b.r is not None else True
    if isinstance(a, X.Ptr) or isinstance(b, X.Ptr): return False
    if isinstance(a, X.FnPtr) and isinstance(b, X.FnPtr): return a.name == b.name
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, int) and isinstance(b, int): return a == b
    if a is UNDEF or b is UNDEF: return False
    if isinstance(a, Agg): return isinstance(b, Agg) and all(X_same(x, y) for x, y in zip(a, b))
    if hasattr(a, 'feq'): return a.feq(b) is True
    if z3.is_expr(a) and z3.is_expr(b):
        if a.eq(b): return True
        if z3.is_int(a) and z3.is_int(b): return simp(a - b) == 0 if isinstance(simp(a - b), int) else False
        return False
    if (z3.is_expr(a) and z3.is_int(a)) or (z3.is_expr(b) and z3.is_int(b)):
        d = simp(zi(a) - zi(b)) if not (z3.is_expr(a) and z3.is_bool(a)) and not (z3.is_expr(b) and z3.is_bool(b)) else None
        return isinstance(d, int) and d == 0
    return False
