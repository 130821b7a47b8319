"""Symbolic executor over LLVM IR that turns the real code plus contracts into proof obligations."""
import re, time, sys
import z3
from terms import *
import llvmir
from llvmir import sizeof

RAW, LIVE, MOVED = 0, 1, 2

# ------------------------------------------------------------------ memory contents of array regions
class Base:
    """contents given by an uninterpreted function of the element index"""
    __slots__ = ('fn', 'tr', 'nfn', 'off')
    def __init__(self, fn, tr=None, nfn=None, off=0): self.fn = fn; self.tr = tr; self.nfn = nfn; self.off = off
    def get(self, ex, k):
        if self.tr is not None:
            return Ptr(self.tr, self.fn(zi(k)), self.off, self.nfn(zi(k)) if self.nfn is not None else False)
        return self.fn(zi(k))
class Fill:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def get(self, ex, k): return self.v
class Upd:
    __slots__ = ('prev', 'i', 'v')
    def __init__(self, prev, i, v): self.prev = prev; self.i = i; self.v = v
    def get(self, ex, k):
        c = Eq(k, self.i)
        if c is True: return self.v
        if c is False: return self.prev.get(ex, k)
        return vite(c, self.v, self.prev.get(ex, k))
class Gen:
    """f(k) -> (cond, value): where cond holds the value is overwritten"""
    __slots__ = ('prev', 'f', 'tag')
    def __init__(self, prev, f, tag=None): self.prev = prev; self.f = f; self.tag = tag
    def get(self, ex, k):
        c, v = self.f(k)
        c = simp(c) if z3.is_expr(c) else c
        if c is False: return self.prev.get(ex, k)
        if c is True: return v
        return vite(c, v, self.prev.get(ex, k))

def vite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported("ite of pointer and non-pointer")
        if a.r is None and b.r is None: return a
        if a.r is None: return Ptr(b.r, b.i, b.o, Or(c, b.n))
        if b.r is None: return Ptr(a.r, a.i, a.o, Or(Not(c), a.n))
        if a.r != b.r or a.o != b.o: raise Unsupported("ite of pointers into different regions")
        return Ptr(a.r, Ite(c, a.i, b.i), a.o, Ite(c, a.n, b.n))
    if isinstance(a, Agg): return Agg(vite(c, x, y) for x, y in zip(a, b))
    if hasattr(a, 'fite'): return a.fite(c, b)
    if hasattr(b, 'fite'): return b.fite(Not(c), a)
    return Ite(c, a, b)
def veq(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.r is None: return b.n
        if b.r is None: return a.n
        if a.r != b.r: return And(a.n, b.n)
        if a.o != b.o: return And(a.n, b.n)
        return Or(And(a.n, b.n), And(Not(a.n), Not(b.n), Eq(a.i, b.i)))
    if isinstance(a, Ptr) or isinstance(b, Ptr): return False
    if isinstance(a, FnPtr) or isinstance(b, FnPtr): return isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
    if a is UNDEF or b is UNDEF: return False
    if isinstance(a, Agg): return And(*[veq(x, y) for x, y in zip(a, b)])
    if hasattr(a, 'feq'): return a.feq(b)
    return Eq(a, b)

class Cell:
    __slots__ = ('w', 'k', 'v')        # width bytes, kind ('i','p','f','d','g'), value (scalar) or content (array)
    def __init__(self, w, k, v): self.w = w; self.k = k; self.v = v

class Region:
    __slots__ = ('rid', 'name', 'stride', 'count', 'scalar', 'alive', 'heap', 'ro', 'cells', 'zero', 'owner', 'lazy', 'zerosz', 'base', 'ptrinfo', 'bytes', 'addr', 'guard')
    def __init__(self, rid, name, stride, count, scalar, heap=False):
        self.rid = rid; self.name = name; self.stride = stride; self.count = count; self.scalar = scalar
        self.alive = True; self.heap = heap; self.ro = False; self.cells = {}; self.zero = []; self.owner = None
        self.lazy = 'junk'; self.base = None; self.ptrinfo = {}; self.bytes = None; self.addr = None; self.guard = None   # addr(i): address of element i; guard(ex, st, p, w, write): obligations of an access
    def copy(self, owner):
        r = Region.__new__(Region)
        for s in Region.__slots__:
            try: setattr(r, s, getattr(self, s))
            except AttributeError: pass
        r.cells = dict(self.cells); r.zero = list(self.zero); r.owner = owner
        return r

class Frame:
    __slots__ = ('fn', 'b', 'ip', 'env', 'prev', 'retid', 'unroll', 'allocas', 'args', 'loc', 'sel')
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.b = self.b; f.ip = self.ip; f.env = dict(self.env); f.prev = self.prev; f.retid = self.retid
        f.unroll = dict(self.unroll); f.allocas = list(self.allocas); f.args = self.args; f.loc = self.loc; f.sel = self.sel
        return f

class State:
    __slots__ = ('frames', 'mem', 'pc', 'q', 'ghost', 'tok', 'val', 'normed', 'steps', 'events')
    def __init__(self):
        self.frames = []; self.mem = {}; self.pc = []; self.q = []; self.ghost = {}; self.tok = object(); self.val = None
        self.normed = {}; self.steps = 0; self.events = []
    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem); s.pc = list(self.pc); s.q = list(self.q)
        s.ghost = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in self.ghost.items()}
        s.tok = object(); self.tok = object(); s.val = self.val; s.normed = dict(self.normed); s.steps = self.steps
        s.events = list(self.events)
        return s
    def reg(self, rid): return self.mem[rid]
    def wreg(self, rid):
        r = self.mem[rid]
        if r.owner is not self.tok:
            r = r.copy(self.tok); self.mem[rid] = r
        return r
    def assume(self, c):
        c = zb(c) if not isinstance(c, bool) else c
        if c is True: return
        self.pc.append(c)

class Obligation:
    __slots__ = ('name', 'kind', 'loc', 'status', 'detail', 'model', 'time', 'contract')

class Abort(Exception): pass

class _with:
    """a path condition extended by c (for validity queries only)"""
    __slots__ = ('pc', 'q', 'normed')
    def __init__(self, st, c): self.pc = st.pc + [zb(c)]; self.q = st.q; self.normed = {}
RESIDX = re.compile(r'^llvm\.(\w+)')

class Exec:
    def __init__(self, mod, contract_name, prover=None, timeout=10000):
        self.m = mod; self.cname = contract_name
        self.p = prover or Prover(timeout)
        self.obls = []; self.silent = 0; self.oblpc = {}
        self.contracts = []            # list of (compiled regex or exact name, handler(ex, st, ins, args) -> list of states or None)
        self.rid = 0
        self.failed = {}
        self.doomed = {}
        self.functions = set()         # functions whose bodies were executed
        self.used_contracts = set()
        self.stride_hint = None
        self.max_unroll = 300
        self.loop_hook = None; self.loop_inv = None; self.prov = {}
        self.fp = None
        self.globals = {}
        self.alloc_count = 0
        self.max_paths = 3000
        self.npaths = 0
        self.bv = False
        self.loopinfo = []
        self.deadline = None
        self.assume_loops_terminate = True
        self.trackloc = None
        self.probes = []
        self.rings = []                # candidate moduli for circular indices (only proposals; checked by induction)

    # ---------------------------------------------------------------- obligations
    def loc(self, st):
        for f in reversed(st.frames):
            ins = f.fn.blocks[f.b].insts[min(f.ip, len(f.fn.blocks[f.b].insts) - 1)]
            if ins.line and '/repo/' in ins.file or (ins.line and 'rpp/' in ins.file):
                return f"{ins.file.split('/repo/')[-1]}:{ins.line}"
        for f in reversed(st.frames):
            ins = f.fn.blocks[f.b].insts[min(f.ip, len(f.fn.blocks[f.b].insts) - 1)]
            if ins.line: return f"{ins.file}:{ins.line}"
        return "?"
    def oblig(self, st, kind, goal, name=None, loc=None, assume=True):
        if self.silent:
            if assume:
                n0 = len(st.pc); st.assume(goal)
                for c in st.pc[n0:]: self.oblpc[zb(c).get_id()] = c
            return True
        loc = loc or (self.loc(st) if st.frames else 'post')
        o = Obligation(); o.kind = kind; o.name = name or kind; o.loc = loc; o.contract = self.cname; o.model = None; o.detail = ''
        t0 = time.time()
        if goal is True or (z3.is_expr(goal) and z3.is_true(goal)):
            o.status = 'discharged'; self.p.by['simplifier'] += 1
        else:
            r, m = self.p.check(st.pc + [Not(goal)], st.q)
            if r == 'unsat': o.status = 'discharged'
            else:
                o.status = 'refuted' if r == 'sat' else 'unknown'
                o.model = m
                o.detail = self.describe(st, goal, m)
        o.time = time.time() - t0
        self.obls.append(o)
        if assume and goal is not False: st.assume(goal)
        return o.status == 'discharged'
    def describe(self, st, goal, m):
        s = "goal: " + str(goal)[:600]
        if m is not None:
            vals = []
            for d in m.decls():
                if d.arity() == 0: vals.append(f"{d.name()}={m[d]}")
            fals = []
            def walk(e):
                if z3.is_and(e):
                    for c in e.children(): walk(c)
                elif z3.is_false(m.eval(e, model_completion=True)): fals.append(str(e)[:600])
            if z3.is_expr(goal):
                walk(goal)
                if len(fals) > 0: s = "goal (failing part): " + " AND ".join(fals[:4])
            s += "\nmodel: " + ", ".join(sorted(vals))[:1500]
        return s
    def valid(self, st, goal, timeout=3000):
        if goal is True: return True
        if goal is False: return False
        r, _ = self.p.check(st.pc + [Not(goal)], st.q, timeout=timeout, rounds=2)
        return r == 'unsat'
    def feasible(self, st, cond=True):
        if cond is False: return False
        r, _ = self.p.check(st.pc + [cond], st.q, timeout=2000, rounds=2)
        return r != 'unsat'

    # ---------------------------------------------------------------- integers (mathematical, interpreted modulo 2^w)
    def norm(self, st, a, w):
        if isinstance(a, int): return a & ((1 << w) - 1)
        if a is UNDEF: return fresh_int('undef', 0, (1 << w) - 1)
        if isinstance(a, Ptr): a = self.p2i(st, a)
        lo, hi = rng(a); M = 1 << w
        if lo is not None and hi is not None and lo >= 0 and hi < M: return a
        k = (a.get_id(), w)
        c = st.normed.get(k)
        if c is not None and c[0].eq(a): return c[1]
        r = self.norm1(st, a, w, True, 0)
        st.normed[k] = (a, r)
        return r
    def norm1(self, st, a, w, cond, depth):
        if isinstance(a, int): return a & ((1 << w) - 1)
        lo, hi = rng(a); M = 1 << w
        if lo is not None and hi is not None and lo >= 0 and hi < M: return a
        if depth < 6 and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            c, x, y = a.children()
            return Ite(c, self.norm1(st, x, w, And(cond, c), depth + 1), self.norm1(st, y, w, And(cond, Not(c)), depth + 1))
        V = lambda g: self.valid(st, Implies(cond, g))
        if lo is not None and lo >= 0: inr = a < M
        elif hi is not None and hi < M: inr = a >= 0
        else: inr = And(a >= 0, a < M)
        if V(inr): return a
        if (hi is None or hi >= 0 or lo is None or lo < -M) and V(And(a < 0, a >= -M)): return simp(a + M)
        if (hi is None or hi >= M) and V(And(a >= M, a < 2 * M)): return simp(a - M)
        if (lo is None or lo >= -M) and (hi is None or hi < M or lo is None) and V(And(a >= -M, a < M)): return z3.If(a < 0, simp(a + M), a)
        if V(And(a >= 0, a < 2 * M)): return z3.If(a >= M, simp(a - M), a)
        if V(And(a >= -M, a < 2 * M)): return z3.If(a < 0, simp(a + M), z3.If(a >= M, simp(a - M), a))
        return simp(a % M)
    def tidy(self, st, e, depth=0):
        """e with the conditions of its if-then-elses simplified under the path condition"""
        if not z3.is_expr(e) or not z3.is_int(e): return e
        k = (e.get_id(), 'tidy')
        c = st.normed.get(k)
        if c is not None and c[0].eq(e): return c[1]
        r = e
        for _ in range(12):
            import loops
            if isinstance(r, int): break
            t = r if r.decl().kind() == z3.Z3_OP_ITE else loops.find_ite(r)
            if t is None: break
            c, x, y = t.children()
            c2 = self.tidyb(st, c)
            if c2 is True: v = x
            elif c2 is False: v = y
            else:
                x2 = self.tidy(_with(st, c2), x, depth + 1) if depth < 4 else x
                y2 = self.tidy(_with(st, Not(c2)), y, depth + 1) if depth < 4 else y
                n = Ite(c2, x2, y2)
                r = n if t is r else simp(z3.substitute(r, (t, zi(n))))
                break
            r = simp(v) if t is r else simp(z3.substitute(r, (t, zi(v))))
        st.normed[k] = (e, r)
        return r
    def tidyb(self, st, c):
        if self.valid(st, c): return True
        if self.valid(st, Not(c)): return False
        if z3.is_or(c) or z3.is_and(c):
            o = z3.is_or(c); ch = list(c.children()); keep = []
            for i, x in enumerate(ch):
                rest = keep + ch[i + 1:]
                # drop a part that never matters
                if o and self.valid(st, Implies(x, Or(*rest))): continue
                if not o and self.valid(st, Implies(And(*rest), x)): continue
                keep.append(x)
            return Or(*keep) if o else And(*keep)
        return c
    def snorm(self, st, a, w):
        if isinstance(a, int):
            a &= (1 << w) - 1
            return a - (1 << w) if a >> (w - 1) else a
        if a is UNDEF: return fresh_int('undef', -(1 << (w-1)), (1 << (w-1)) - 1)
        if isinstance(a, Ptr): a = self.p2i(st, a)
        H = 1 << (w - 1)
        lo, hi = rng(a)
        if lo is not None and hi is not None and lo >= -H and hi < H: return a
        k = (a.get_id(), -w)
        c = st.normed.get(k)
        if c is not None and c[0].eq(a): return c[1]
        if self.valid(st, And(a >= -H, a < H)): r = a
        elif self.valid(st, And(a >= H, a < 3 * H)): r = simp(a - 2 * H)
        elif self.valid(st, And(a < -H, a >= -3 * H)): r = simp(a + 2 * H)
        else:
            n = self.norm(st, a, w)
            r = z3.If(n >= H, n - 2 * H, n) if not isinstance(n, int) else (n - 2 * H if n >= H else n)
        st.normed[k] = (a, r)
        return r
    def toint(self, v):
        """Bool -> 0/1"""
        if isinstance(v, bool): return int(v)
        if z3.is_expr(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v
    def tobool(self, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return bool(v & 1)
        if v is UNDEF: return fresh_bool('undef')
        if z3.is_bool(v): return v
        return simp(v % 2 == 1)
    UF = {}
    def uf(self, name, w, *args):
        key = (name, w, len(args))
        f = Exec.UF.get(key)
        if f is None:
            n = f"{name}.{w}"
            FBOUNDS[n] = (0, (1 << w) - 1)
            f = z3.Function(n, *([I] * (len(args) + 1))); Exec.UF[key] = f
        return f(*[zi(a) for a in args])

    def binop(self, st, op, a, b, w, flags=None):
        if w == 1:
            a, b = self.tobool(a), self.tobool(b)
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, bool): return Not(b) if a else b
                if isinstance(b, bool): return Not(a) if b else a
                return z3.Xor(a, b)
            if op == 'mul': return And(a, b)
            raise Unsupported(f"i1 {op}")
        if isinstance(a, Ptr): a = self.p2i(st, a)
        if isinstance(b, Ptr): b = self.p2i(st, b)
        if a is UNDEF: a = fresh_int('undef', 0, (1 << w) - 1)
        if b is UNDEF: b = fresh_int('undef', 0, (1 << w) - 1)
        a, b = self.toint(a), self.toint(b)
        M = 1 << w
        ca, cb = isinstance(a, int), isinstance(b, int)
        if op == 'add': return (a + b) % M if ca and cb else simp(zi(a) + zi(b if not cb else self.small(b, w)))
        if op == 'sub': return (a - b) % M if ca and cb else simp(zi(a) - zi(b))
        if op == 'mul':
            if ca and cb: return (a * b) % M
            if ca: a, b = b, a; ca, cb = cb, ca
            if cb:
                if self.small(b, w) == 0: return 0
                if abs(self.small(b, w)) < (1 << 40): return simp(zi(a) * self.small(b, w))
                return self.uf('mulc', w, self.norm(st, a, w), b)
            x, y = self.norm(st, a, w), self.norm(st, b, w)
            return simp(x * y)
        if op in ('udiv', 'urem'):
            x, y = self.norm(st, a, w), self.norm(st, b, w)
            self.oblig(st, 'no-division-by-zero', Ne(y, 0))
            if isinstance(x, int) and isinstance(y, int): return (x // y if op == 'udiv' else x % y) if y else 0
            if op == 'udiv':
                q = self.exdiv(x, y) if isinstance(y, int) else None
                if q is not None: return q
                return simp(zi(x) / zi(y))
            return simp(zi(x) % zi(y))
        if op in ('sdiv', 'srem'):
            x, y = self.snorm(st, a, w), self.snorm(st, b, w)
            self.oblig(st, 'no-division-by-zero', Ne(y, 0))
            if isinstance(x, int) and isinstance(y, int):
                q = abs(x) // abs(y) if y else 0
                q = q if (x < 0) == (y < 0) else -q
                return (q if op == 'sdiv' else x - q * y) % M
            if isinstance(y, int) and op == 'sdiv':
                q = self.exdiv(x, y)
                if q is not None: return q
            X, Y = zi(x), zi(y)
            if isinstance(y, int) and y > 0:
                q = z3.If(X >= 0, X / Y, -((-X) / Y))
            else:
                ax, ay = z3.If(X >= 0, X, -X), z3.If(Y >= 0, Y, -Y)
                q0 = ax / ay
                q = z3.If((X >= 0) == (Y >= 0), q0, -q0)
            return simp(q) if op == 'sdiv' else simp(X - q * Y)
        if op == 'shl':
            if cb:
                self.oblig(st, 'shift-in-range', b < w)
                return (a << b) % M if ca else simp(zi(a) * (1 << b))
            x, y = self.norm(st, a, w), self.norm(st, b, w)
            self.oblig(st, 'shift-in-range', Lt(y, w))
            return self.uf('shl', w, x, y)
        if op == 'lshr':
            x = self.norm(st, a, w)
            if cb:
                self.oblig(st, 'shift-in-range', b < w)
                return x >> b if isinstance(x, int) else simp(x / (1 << b))
            y = self.norm(st, b, w)
            self.oblig(st, 'shift-in-range', Lt(y, w))
            return self.uf('lshr', w, x, y)
        if op == 'ashr':
            x = self.snorm(st, a, w)
            if cb: return (x >> b) % M if isinstance(x, int) else simp(x / (1 << b))
            return self.uf('ashr', w, self.norm(st, a, w), self.norm(st, b, w))
        if op in ('and', 'or', 'xor'):
            if ca and cb: return (a & b) if op == 'and' else (a | b) if op == 'or' else (a ^ b)
            if ca: a, b = b, a; ca, cb = cb, ca
            if cb:
                b %= M
                if op == 'and':
                    if b == 0: return 0
                    if b == M - 1: return a
                    if b & (b + 1) == 0: return simp(self.norm(st, a, w) % (b + 1))
                    nb = (M - 1) ^ b
                    if nb & (nb + 1) == 0:
                        x = self.norm(st, a, w); return simp(x - x % (nb + 1))
                if op in ('or', 'xor') and b == 0: return a
                if op == 'xor' and b == M - 1: return simp(-zi(a) - 1)
                x = self.norm(st, a, w)
                if op == 'or' and b == 1: return simp(z3.If(x % 2 == 0, x + 1, x))
                if op == 'and' and b & (b - 1) == 0:    # single bit
                    return simp(z3.If((x / b) % 2 == 1, z3.IntVal(b), z3.IntVal(0)))
                return self.uf(op + 'c', w, x, b)
            x, y = self.norm(st, a, w), self.norm(st, b, w)
            if op in ('or', 'xor'):   # disjoint bits: one is a multiple of 2^k and the other is smaller than that
                for p, q in ((x, y), (y, x)):
                    k = tz2(p)
                    if 0 < k <= w and self.valid(st, Lt(q, 1 << k)): return simp(zi(p) + zi(q))
            if not isinstance(x, int) and not isinstance(y, int) and x.get_id() > y.get_id(): x, y = y, x
            return self.uf(op, w, x, y)
        raise Unsupported(op)
    def small(self, c, w):
        """a constant as the representative closest to zero"""
        c %= (1 << w)
        return c - (1 << w) if c >> (w - 1) else c
    def resolve(self, st, e):
        """drop if-then-else branches the path condition excludes"""
        for _ in range(8):
            if isinstance(e, int) or not z3.is_app(e): return e
            if e.decl().kind() == z3.Z3_OP_ITE: t = e
            else:
                import loops
                t = loops.find_ite(e)
                if t is None: return e
            c = t.arg(0)
            if self.valid(st, c): v = t.arg(1)
            elif self.valid(st, Not(c)): v = t.arg(2)
            else: return e
            e = simp(v) if t is e else simp(z3.substitute(e, (t, v)))
        return e
    def unique(self, st, e):
        """the constant e must equal under the path condition, if there is one"""
        if isinstance(e, int): return e
        s = z3.Solver(); s.set('timeout', 3000)
        for c in st.pc: s.add(zb(c))
        if s.check() != z3.sat: return e
        v = s.model().eval(zi(e), model_completion=True)
        if z3.is_int_value(v) and self.valid(st, Eq(e, v.as_long())): return v.as_long()
        return e
    def lin(self, e):
        """linear form {term_id: (term, coef)}, const or None"""
        if isinstance(e, int): return {}, e
        e = zi(simp(e))
        if z3.is_int_value(e): return {}, e.as_long()
        out = {}; c = 0
        terms = e.children() if z3.is_add(e) else [e]
        for t in terms:
            if z3.is_int_value(t): c += t.as_long(); continue
            k = 1
            if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
                k = t.arg(0).as_long(); t = t.arg(1)
            elif t.decl().kind() == z3.Z3_OP_UMINUS: k = -1; t = t.arg(0)
            o = out.get(t.get_id())
            out[t.get_id()] = (t, k + (o[1] if o else 0))
        return out, c
    def exdiv(self, e, d):
        """e/d when d divides every coefficient"""
        if isinstance(e, int): return e // d if e % d == 0 else None
        l, c = self.lin(e)
        if c % d or any(k % d for _, k in l.values()): return self._exdiv2(e, d)
        r = z3.IntVal(c // d)
        for t, k in l.values(): r = r + t * (k // d)
        return simp(r)
    def _exdiv2(self, e, d):
        # If-expressions: divide both branches
        if z3.is_expr(e) and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            a, b = self.exdiv(e.arg(1), d), self.exdiv(e.arg(2), d)
            if a is not None and b is not None: return Ite(e.arg(0), a, b)
        return None

    def icmp(self, st, pred, a, b, ty):
        if ty[0] == 'vec':
            return Agg(self.icmp(st, pred, x, y, ty[2]) for x, y in zip(a, b))
        if ty[0] == 'ptr': return self.pcmp(st, pred, a, b)
        w = ty[1]
        if isinstance(a, FnPtr) or isinstance(b, FnPtr): return veq(a, b) if pred == 'eq' else Not(veq(a, b))
        if w == 1:
            a, b = self.tobool(a), self.tobool(b)
            if pred == 'eq': return Eq(a, b)
            if pred == 'ne': return Not(Eq(a, b))
            if pred == 'ult': return And(Not(a), b)
            if pred == 'ugt': return And(a, Not(b))
            raise Unsupported("i1 icmp")
        a, b = self.toint(a), self.toint(b)
        if pred in ('eq', 'ne'):
            if not (isinstance(a, Ptr) or isinstance(b, Ptr)) and a is not UNDEF and b is not UNDEF:
                d = simp(zi(a) - zi(b))
                if isinstance(d, int):
                    r = d % (1 << w) == 0
                    return r if pred == 'eq' else not r
            x, y = self.norm(st, a, w), self.norm(st, b, w)
            r = Eq(x, y)
            return r if pred == 'eq' else Not(r)
        if pred[0] == 'u': x, y = self.norm(st, a, w), self.norm(st, b, w)
        else: x, y = self.snorm(st, a, w), self.snorm(st, b, w)
        return {'gt': Lt(y, x), 'ge': Le(y, x), 'lt': Lt(x, y), 'le': Le(x, y)}[pred[1:]]

    # ---------------------------------------------------------------- pointers
    def rbase(self, st, rid):
        r = st.reg(rid)
        if r.base is None:
            n = f"base.{rid}"; BOUNDS[n] = (16, 1 << 47); b = z3.Int(n)
            for s in (st.wreg(rid),): s.base = b
            return b
        return r.base
    def p2i(self, st, p):
        if isinstance(p, (int,)) or (z3.is_expr(p)): return p
        if isinstance(p, FnPtr): return fresh_int('fnaddr', 16, 1 << 47)
        if p.r is None: return 0
        r = st.reg(p.r)
        e = simp(zi(r.addr(p.i)) + p.o) if r.addr else simp(self.rbase(st, p.r) + zi(p.i) * (r.stride or 1) + p.o)
        st.ghost.setdefault('p2i', {})[zi(e).get_id()] = (e, p)
        return e if p.n is False else Ite(p.n, 0, e)
    def i2p(self, st, v):
        if isinstance(v, Ptr): return v
        if isinstance(v, int): 
            if v == 0: return NULL
            return Ptr('opaque', v, 0, False)
        m = st.ghost.get('p2i', {}).get(v.get_id())
        if m and m[0].eq(v): return m[1]
        # base + offset forms
        for rid, r in st.mem.items():
            if r.base is not None:
                d = simp(v - r.base)
                if r.base.get_id() not in consts(zi(d)): return self.padd(st, Ptr(rid, 0, 0), d)
        return Ptr('opaque', v, 0, Eq(v, 0))
    def pcmp(self, st, pred, a, b):
        if isinstance(a, (int,)) or z3.is_expr(a): a = self.i2p(st, a)
        if isinstance(b, (int,)) or z3.is_expr(b): b = self.i2p(st, b)
        if a is UNDEF or b is UNDEF: return fresh_bool('undef')
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            r = veq(a, b) if isinstance(a, FnPtr) and isinstance(b, FnPtr) else False
            return r if pred == 'eq' else Not(r)
        if pred in ('eq', 'ne'):
            if a.r is not None and a.r == b.r and a.r != 'opaque':
                s = st.reg(a.r).stride or 1
                same = Eq(a.i, b.i) if a.o == b.o else Eq(simp(zi(a.i) * s + a.o), simp(zi(b.i) * s + b.o))
                r = Or(And(a.n, b.n), And(Not(a.n), Not(b.n), same))
            else: r = veq(a, b)
            return r if pred == 'eq' else Not(r)
        if a.r is None and b.r is None: x = y = 0
        elif a.r != b.r:
            x, y = self.p2i(st, a), self.p2i(st, b)
        elif a.o == b.o: x, y = a.i, b.i
        else:
            s = st.reg(a.r).stride or 1
            x, y = simp(zi(a.i) * s + a.o), simp(zi(b.i) * s + b.o)
        return {'gt': Lt(y, x), 'ge': Le(y, x), 'lt': Lt(x, y), 'le': Le(x, y)}[pred[1:]]
    def padd(self, st, p, off):
        """p + off bytes (off: int or term, signed)"""
        if isinstance(off, int) and off == 0: return p
        if p.r is None:
            return Ptr(None, 0, 0, True)
        if p.r == 'opaque': return Ptr('opaque', simp(zi(p.i) + off), p.o, p.n)
        r = st.reg(p.r); S = r.stride
        if isinstance(off, int):
            o = p.o + off
            if S and not r.scalar and (o < 0 or o >= S): return Ptr(p.r, simp(zi(p.i) + o // S), o % S, p.n)
            return Ptr(p.r, p.i, o, p.n)
        l, c = self.lin(off)
        if S is None: raise Unsupported("variable offset into region of unknown element size")
        d = self.exdiv(simp(off - c), S)
        if d is None and r.addr: return Ptr('opaque', simp(zi(r.addr(p.i)) + p.o + off), 0, p.n)
        if d is None: raise NeedConst(off)
        return self.padd(st, Ptr(p.r, simp(zi(p.i) + d), p.o, p.n), c)
    def gep(self, st, p, ty, idx, idxt):
        if isinstance(p, (int,)) or z3.is_expr(p): p = self.i2p(st, p)
        if p is UNDEF: raise Unsupported("gep on undef")
        off = 0
        t = ty
        for n, i in enumerate(idx):
            if n == 0: scale = sizeof(t)
            elif t[0] == 'struct':
                i = i if isinstance(i, int) else None
                off = off + t[2][i]; t = t[1][i]; continue
            else: t = t[2]; scale = sizeof(t)
            i = self.snorm(st, i, idxt[n][1])
            if isinstance(i, int): off = off + i * scale if isinstance(off, int) else simp(off + i * scale)
            else: off = simp(zi(off) + i * scale)
        if p.r is None and not (isinstance(off, int) and off == 0): return NULL
        return self.padd(st, p, off)

    # ---------------------------------------------------------------- regions
    def new_region(self, st, name, stride, count, scalar=False, heap=False):
        self.rid += 1; rid = self.rid
        r = Region(rid, name, stride, count, scalar, heap); r.owner = st.tok
        st.mem[rid] = r
        return rid
    def check_access(self, st, p, w, write):
        """obligations for an access of w bytes at p; returns normalised pointer"""
        if isinstance(p, (int,)) or z3.is_expr(p): p = self.i2p(st, p)
        if p is UNDEF: 
            self.oblig(st, 'memory-access', False, 'access through an undefined pointer'); raise Abort()
        if p.n is not False:
            self.oblig(st, 'no-null-dereference', Not(p.n))
            if p.r is None: raise Abort()
        if p.r == 'opaque': raise Unsupported("access through opaque pointer")
        r = st.reg(p.r)
        if not r.alive:
            self.oblig(st, 'no-use-after-free', False, f'{r.name} used after it was released')
        if r.scalar:
            if not isinstance(p.i, int): 
                raise Unsupported(f"symbolic index into scalar object {r.name}")
            o = p.o + p.i * (r.stride or 0)
            if o < 0 or (r.stride is not None and o + w > r.stride):
                self.oblig(st, 'in-bounds', False, f'access outside {r.name} (offset {o}, {w} bytes)'); raise Abort()
            p = Ptr(p.r, 0, o)
        else:
            o = p.o; S = r.stride; i = p.i
            if o < 0 or o >= S: i = simp(zi(i) + o // S); o = o % S
            self.oblig(st, 'in-bounds', And(Le(0, i), Lt(i, r.count)), f'access inside {r.name}')
            if o + w > S: raise Unsupported(f"access of {w} bytes crosses elements of {r.name} (stride {S})")
            p = Ptr(p.r, i, o)
        if r.guard: r.guard(self, st, p, w, write)
        if write and r.ro:
            self.oblig(st, 'frame', False, f'{r.name} must not be modified')
        return p
    def lazy_cell(self, st, r, off, w, k):
        """materialise a never-seen cell"""
        z = None
        for (lo, hi, v) in r.zero:
            pass
        if r.scalar:
            val = None
            for (lo, hi, v) in reversed(r.zero):
                if lo <= off and off + w <= hi: val = v; break
            if val is not None:
                if k == 'i': c = int.from_bytes(bytes([val]) * w, 'little')
                elif k == 'p': c = NULL
                else: c = self.fp.const(0.0) if val == 0 else None
            else: c = self.junk(st, f"{r.name}+{off}", w, k)
            cell = Cell(w, k, c)
        else:
            if k == 'p':
                inf = r.ptrinfo.get(off)
                if inf is None: base = Base(fresh_fn(f"{r.name}+{off}", I), 'opaque', fresh_fn('n', B))
                else: base = Base(inf[0], inf[1], inf[2], inf[3] if len(inf) > 3 else 0)
            elif k in 'fd': base = Base(fresh_fn(f"{r.name}+{off}", z3.RealSort()))
            else: base = Base(fresh_fn(f"{r.name}+{off}", I, 0, (1 << (8 * w)) - 1))
            for (lo, hi, v) in r.zero:
                c = int.from_bytes(bytes([v]) * w, 'little') if k == 'i' else NULL if k == 'p' else 0
                base = Gen(base, (lambda lo, hi, c: lambda kk: (And(Le(lo, kk), Lt(kk, hi)), c))(lo, hi, c))
            cell = Cell(w, k, base)
        r.cells[off] = cell
        return cell
    def junk(self, st, name, w, k):
        if k == 'i': return fresh_int(name, 0, (1 << (8 * w)) - 1)
        if k == 'p': return Ptr('opaque', fresh_int(name, 0, 1 << 48), 0, fresh_bool('n'))
        return self.fp.fresh(name)
    def tk(self, ty):
        if ty[0] == 'int': return 'i'
        if ty[0] == 'ptr': return 'p'
        return 'f' if ty[0] == 'float' else 'd'
    def load(self, st, p, ty):
        if ty[0] in ('vec', 'arr'):
            es = sizeof(ty[2])
            return Agg(self.load(st, self.padd(st, p, i * es), ty[2]) for i in range(ty[1]))
        if ty[0] == 'struct':
            return Agg(self.load(st, self.padd(st, p, o), t) for t, o in zip(ty[1], ty[2]))
        w = sizeof(ty); k = self.tk(ty)
        p = self.check_access(st, p, w, False)
        v = self.rd(st, p, w, k)
        if ty == ('int', 1): return self.tobool(v)
        return v
    def rd(self, st, p, w, k):
        """read without checks"""
        r = st.reg(p.r)
        c = r.cells.get(p.o)
        if c is None or c.w != w:
            if c is None and not any(o < p.o + w and p.o < o + cc.w for o, cc in r.cells.items() if isinstance(o, int)):
                r = st.wreg(p.r); c = self.lazy_cell(st, r, p.o, w, k)
            else: return self.rd_mixed(st, p, w, k)
        v = c.v if r.scalar else c.v.get(self, p.i)
        if c.k != k: v = self.convert(st, v, c.k, k, w)
        return v
    def convert(self, st, v, k0, k, w):
        if v is UNDEF: return v
        if k0 == 'i' and k == 'p':
            return self.i2p(st, v)
        if k0 == 'p' and k == 'i': return v     # keep the pointer; arithmetic converts
        if k0 in 'fd' and k == 'i': return self.fp.bits(v, w)
        if k0 == 'i' and k in 'fd': return self.fp.frombits(v, w)
        raise Unsupported(f"type punning {k0}->{k}")
    def rd_mixed(self, st, p, w, k):
        r = st.reg(p.r)
        parts = []
        off = p.o; end = p.o + w
        while off < end:
            c = r.cells.get(off)
            if c is not None and c.w <= end - off:
                parts.append((c.w, self.rd(st, Ptr(p.r, p.i, off), c.w, c.k), c.k)); off += c.w; continue
            cov = None
            for o, cc in r.cells.items():
                if isinstance(o, int) and o <= off < o + cc.w: cov = (o, cc); break
            if cov:
                o, cc = cov
                if cc.k != 'i': raise Unsupported(f"partial read of a {cc.k} cell")
                v = self.rd(st, Ptr(p.r, p.i, o), cc.w, 'i')
                n = min(o + cc.w, end) - off
                sh = 8 * (off - o)
                v = self.norm(st, v, 8 * cc.w)
                x = (v >> sh) & ((1 << 8 * n) - 1) if isinstance(v, int) else simp((v / (1 << sh)) % (1 << 8 * n))
                parts.append((n, x, 'i')); off += n; continue
            nxt = min([o for o in r.cells if isinstance(o, int) and o > off] + [end])
            n = min(nxt, end) - off
            self.lazy_cell(st, st.wreg(p.r), off, n, 'i'); r = st.reg(p.r)
        if len(parts) == 1: return self.convert(st, parts[0][1], parts[0][2], k, w) if parts[0][2] != k else parts[0][1]
        v = 0; sh = 0
        for n, x, kk in parts:
            if kk != 'i': raise Unsupported("combining non-integer cells")
            x = self.norm(st, x, 8 * n)
            v = v + (x << sh) if isinstance(x, int) and isinstance(v, int) else simp(zi(v) + zi(x) * (1 << sh)); sh += 8 * n
        return v if k == 'i' else self.convert(st, v, 'i', k, w)
    def store(self, st, p, v, ty):
        if ty[0] in ('vec', 'arr'):
            es = sizeof(ty[2])
            if v is UNDEF: v = [UNDEF] * ty[1]
            for i in range(ty[1]): self.store(st, self.padd(st, p, i * es), v[i], ty[2])
            return
        if ty[0] == 'struct':
            if v is UNDEF: v = [UNDEF] * len(ty[1])
            for x, t, o in zip(v, ty[1], ty[2]): self.store(st, self.padd(st, p, o), x, t)
            return
        w = sizeof(ty); k = self.tk(ty)
        p = self.check_access(st, p, w, True)
        if ty == ('int', 1): v = self.toint(v)
        if k == 'i' and not isinstance(v, Ptr) and v is not UNDEF: v = self.norm(st, v, 8 * w)
        self.wr(st, p, w, k, v)
    def wr(self, st, p, w, k, v):
        r = st.wreg(p.r)
        if k == 'i' and isinstance(v, Ptr): k = 'p'
        if isinstance(v, FnPtr): k = 'p'
        if v is UNDEF: v = self.junk(st, 'undef', w, k) if k != 'p' else NULL
        c = r.cells.get(p.o)
        if c is None or c.w != w:
            self.split(st, r, p, w)
            c = r.cells.get(p.o)
        if r.scalar:
            r.cells[p.o] = Cell(w, k, v)
        else:
            if c is None: c = self.lazy_cell(st, r, p.o, w, k)
            elif c.k != k:
                if not (isinstance(c.v, (Base,)) and k == 'p'): raise Unsupported(f"store of kind {k} into array cell of kind {c.k} in {r.name}")
            if isinstance(v, Ptr) and isinstance(c.v, Base) and c.v.tr == 'opaque' and v.r not in ('opaque', None):
                pass
            r.cells[p.o] = Cell(w, k, Upd(c.v, p.i, v))
    def split(self, st, r, p, w):
        """make room for a cell [p.o, p.o+w) in region r"""
        for o in [o for o in r.cells if isinstance(o, int)]:
            c = r.cells[o]
            if o < p.o + w and p.o < o + c.w and not (o == p.o and c.w == w):
                if not r.scalar: raise Unsupported(f"mixed-width access in array region {r.name}")
                if p.o <= o and o + c.w <= p.o + w: del r.cells[o]; continue
                if c.k != 'i':
                    raise Unsupported(f"partial overwrite of a {c.k} cell")
                v = self.norm(st, c.v, 8 * c.w)
                del r.cells[o]
                if o < p.o:
                    n = p.o - o; r.cells[o] = Cell(n, 'i', v & ((1 << 8*n) - 1) if isinstance(v, int) else simp(v % (1 << 8*n)))
                if o + c.w > p.o + w:
                    n = o + c.w - p.o - w; sh = 8 * (p.o + w - o)
                    r.cells[p.o + w] = Cell(n, 'i', v >> sh if isinstance(v, int) else simp(v / (1 << sh)))

    # ghost element state ----------------------------------------------------
    def gkey(self, o): return ('L', o)
    def gget(self, st, p):
        r = st.reg(p.r); c = r.cells.get(('L', p.o))
        if c is None: return RAW
        return c.v if r.scalar else c.v.get(self, p.i)
    def gset(self, st, p, v):
        r = st.wreg(p.r); key = ('L', p.o)
        if r.scalar: r.cells[key] = Cell(0, 'g', v)
        else:
            c = r.cells.get(key)
            r.cells[key] = Cell(0, 'g', Upd(c.v if c else Fill(RAW), p.i, v))
    def elem(self, st, p, w=8):
        """check an element address and normalise it"""
        return self.check_access(st, p, w, False)

    # ---------------------------------------------------------------- bulk memory
    def memcpy(self, st, d, s, n, move=False):
        if isinstance(n, int) and n == 0: return
        n = self.resolve(st, self.norm(st, n, 64))
        if not isinstance(n, int) and self.valid(st, Eq(n, 0)): return
        if isinstance(d, int) or isinstance(s, int): d = self.i2p(st, d); s = self.i2p(st, s)
        nz = True if isinstance(n, int) else Gt(n, 0)
        # null with zero length is tolerated
        if d.n is not False: self.oblig(st, 'no-null-dereference', Implies(nz, Not(d.n)), 'memcpy destination')
        if s.n is not False: self.oblig(st, 'no-null-dereference', Implies(nz, Not(s.n)), 'memcpy source')
        if d.r is None or s.r is None: return
        R, S = st.reg(d.r), st.reg(s.r)
        for r in (R, S):
            if not r.alive: self.oblig(st, 'no-use-after-free', False, f'{r.name} used after it was released')
        if R.ro: self.oblig(st, 'frame', Not(nz), f'{R.name} must not be modified')
        if isinstance(n, int) and (R.scalar or S.scalar or n <= (R.stride or 0)):
            return self.memcpy_const(st, d, s, n)
        if R.scalar or S.scalar:
            raise Unsupported("variable-size memcpy with a scalar object")
        if R.stride != S.stride: raise Unsupported(f"memcpy between strides {R.stride} and {S.stride}")
        if d.o or s.o: raise Unsupported("memcpy at element offset")
        cnt = self.exdiv(n, R.stride)
        partial = None
        if cnt is None:
            cnt = fresh_int('cnt', 0, None); rest = fresh_int('rest', 0, R.stride - 1)
            st.assume(cnt * R.stride + rest == zi(n))
            if not self.valid(st, Eq(rest, 0)): partial = rest      # the last element is copied in part: its value is unknown afterwards
        self.oblig(st, 'in-bounds', Or(Eq(cnt, 0), And(Le(0, d.i), Le(simp(zi(d.i) + cnt), R.count))), f'memcpy destination inside {R.name}')
        self.oblig(st, 'in-bounds', Or(Eq(cnt, 0), And(Le(0, s.i), Le(simp(zi(s.i) + cnt), S.count))), f'memcpy source inside {S.name}')
        if d.r == s.r and not move:
            self.oblig(st, 'memcpy-no-overlap', Or(Eq(cnt, 0), Le(simp(zi(d.i) + cnt), s.i), Le(simp(zi(s.i) + cnt), d.i)), 'memcpy ranges must not overlap')
        R = st.wreg(d.r)
        S = st.wreg(s.r) if s.r != d.r else R
        keys = set(S.cells) | set(R.cells)
        src = {}
        for key in keys:
            c = S.cells.get(key)
            if c is None:
                if isinstance(key, tuple): c = Cell(0, 'g', Fill(RAW))
                else: c = self.lazy_cell(st, S, key, R.cells[key].w, R.cells[key].k)
            src[key] = c
        for key in keys:
            c = src[key]
            dc = R.cells.get(key)
            if dc is None:
                if isinstance(key, tuple): dc = Cell(0, 'g', Fill(RAW))
                else: dc = self.lazy_cell(st, R, key, c.w, c.k)
            di, si = d.i, s.i
            R.cells[key] = Cell(c.w, c.k, Gen(dc.v, (lambda cv: lambda k: (And(Le(di, k), Lt(k, simp(zi(di) + cnt))), cv.get(self, simp(zi(k) - di + si))))(c.v)))
        if partial is not None:
            lim = simp(zi(d.i) + cnt)
            self.oblig(st, 'in-bounds', Or(Eq(partial, 0), And(Le(0, lim), Lt(lim, R.count))), f'memcpy destination inside {R.name}')
            self.oblig(st, 'in-bounds', Or(Eq(partial, 0), And(Le(0, simp(zi(s.i) + cnt)), Lt(simp(zi(s.i) + cnt), S.count))), f'memcpy source inside {S.name}')
            for key, c in list(R.cells.items()):
                if isinstance(key, tuple): continue
                if c.k == 'p': raise Unsupported("pointer copied in part")
                jk = self.junk(st, 'partial', c.w, c.k)
                R.cells[key] = Cell(c.w, c.k, Gen(c.v, (lambda jk: lambda k: (And(Ne(partial, 0), Eq(k, lim)), jk))(jk)))
        # cells nobody has looked at yet
        R.zero.append(('copy', d.i, s.i, cnt, s.r)) if False else None
        R.lazy = 'copied'
    def memcpy_const(self, st, d, s, n):
        d = self.check_access(st, d, 1, True); s = self.check_access(st, s, 1, False)
        R, S = st.reg(d.r), st.reg(s.r)
        if not R.scalar and not S.scalar and R.stride == n and d.o == 0 and s.o == 0:
            pass
        for p, r in ((d, R), (s, S)):
            lim = r.stride
            if p.o + n > lim:
                if r.scalar: self.oblig(st, 'in-bounds', False, f'copy of {n} bytes runs outside {r.name}'); raise Abort()
                # several whole elements
                if p.o == 0 and n % lim == 0:
                    self.oblig(st, 'in-bounds', Le(simp(zi(p.i) + n // lim), r.count), f'copy inside {r.name}')
                else: raise Unsupported("memcpy across elements")
        es = min(x for x in [R.stride if not R.scalar else n, S.stride if not S.scalar else n, n])
        done = 0
        items = []
        while done < n:
            step = min(es, n - done)
            sp = self.padd(st, s, done)
            dp = self.padd(st, d, done)
            items += self.copy_piece(st, dp, sp, step)
            done += step
        for (dp, w, k, v) in items:
            if k == 'g': self.gset(st, dp, v)
            else: self.wr(st, dp, w, k, v)
    def copy_piece(self, st, d, s, n):
        S = st.wreg(s.r); out = []
        offs = sorted(o for o in S.cells if isinstance(o, int))
        cur = s.o; end = s.o + n
        R = st.reg(d.r)
        while cur < end:
            c = S.cells.get(cur)
            if c is not None and cur + c.w <= end:
                out.append((Ptr(d.r, d.i, d.o + cur - s.o), c.w, c.k, self.rd(st, Ptr(s.r, s.i, cur), c.w, c.k)))
                cur += c.w; continue
            if any(o <= cur < o + S.cells[o].w for o in offs):
                # partial: read bytes
                nxt = min([o + S.cells[o].w for o in offs if o <= cur < o + S.cells[o].w])
                w = min(nxt, end) - cur
                out.append((Ptr(d.r, d.i, d.o + cur - s.o), w, 'i', self.rd_mixed(st, Ptr(s.r, s.i, cur), w, 'i'))); cur += w; continue
            # never seen: choose the widest aligned piece, guided by the destination's cells
            dc = R.cells.get(d.o + cur - s.o)
            nxt = min([o for o in offs if o > cur] + [end])
            w = min(dc.w if dc else 8, nxt - cur)
            while w & (w - 1): w &= w - 1
            k = dc.k if dc and dc.w == w else 'i'
            if k == 'i':
                for (wk, kk) in [(8, 'p')]:
                    if cur in S.ptrinfo: k = 'p'
            self.lazy_cell(st, S, cur, w, k)
            out.append((Ptr(d.r, d.i, d.o + cur - s.o), w, k, self.rd(st, Ptr(s.r, s.i, cur), w, k))); cur += w
        for key, c in list(S.cells.items()):
            if isinstance(key, tuple) and key[0] == 'L' and s.o <= key[1] < end:
                out.append((Ptr(d.r, d.i, d.o + key[1] - s.o), 0, 'g', self.gget(st, Ptr(s.r, s.i, key[1]))))
        return out
    def memset(self, st, d, byte, n):
        n = self.resolve(st, self.norm(st, n, 64))
        if isinstance(n, int) and n == 0: return
        if not isinstance(n, int) and self.valid(st, Eq(n, 0)): return
        byte = self.norm(st, byte, 8)
        nz = True if isinstance(n, int) else Gt(n, 0)
        if d.n is not False: self.oblig(st, 'no-null-dereference', Implies(nz, Not(d.n)), 'memset destination')
        if d.r is None: return
        R = st.wreg(d.r)
        if not R.alive: self.oblig(st, 'no-use-after-free', False, f'{R.name} used after it was released')
        if R.ro: self.oblig(st, 'frame', Not(nz), f'{R.name} must not be modified')
        if R.scalar:
            if not isinstance(n, int) or not isinstance(byte, int): raise Unsupported("variable memset of scalar object")
            if d.o + n > R.stride: self.oblig(st, 'in-bounds', False, f'memset outside {R.name}'); raise Abort()
            self.split(st, R, Ptr(d.r, 0, d.o), n)
            R.cells.pop(d.o, None)
            R.zero.append((d.o, d.o + n, byte))
            return
        if not isinstance(byte, int):
            if R.stride != 1: raise Unsupported("variable memset byte")
        cnt = self.exdiv(n, R.stride)
        if cnt is None:
            cnt = fresh_int('cnt', 0, None); rest = fresh_int('rest', 0, R.stride - 1)
            st.assume(cnt * R.stride + rest == zi(n))
            if not self.valid(st, Eq(rest, 0)): raise Unsupported(f"memset of part of an element")
        if d.o: raise Unsupported("memset at element offset")
        self.oblig(st, 'in-bounds', Or(Eq(cnt, 0), And(Le(0, d.i), Le(simp(zi(d.i) + cnt), R.count))), f'memset inside {R.name}')
        lo, hi = d.i, simp(zi(d.i) + cnt)
        for key, c in list(R.cells.items()):
            if isinstance(key, tuple): continue
            v = int.from_bytes(bytes([byte]) * c.w, 'little') if isinstance(byte, int) else byte
            if c.k == 'p': v = NULL
            if c.k in 'fd': v = self.fp.const(0.0)
            R.cells[key] = Cell(c.w, c.k, Gen(c.v, (lambda v: lambda k: (And(Le(lo, k), Lt(k, hi)), v))(v)))
        R.zero.append((lo, hi, byte))

    # ---------------------------------------------------------------- constants
    def cval(self, st, c):
        t = c[0]
        if t == 'ci': return bool(c[2]) if c[1] == 1 else c[2]
        if t == 'null': return NULL
        if t == 'fn': return FnPtr(c[1])
        if t == 'undef':
            return Agg([UNDEF] * c[1][1]) if c[1][0] in ('vec', 'arr') else Agg([self.cval(st, ('undef', x)) for x in c[1][1]]) if c[1][0] == 'struct' else UNDEF
        if t == 'cf': return self.fp.const(c[2])
        if t == 'zero': return self.zero(c[1])
        if t == 'agg': return Agg(self.cval(st, x) for x in c[2])
        if t == 'global': return self.gptr(st, c[1])
        if t == 'cexpr':
            op = c[1]
            if op == 'gep':
                b = self.cval(st, c[3][0]); ix = [self.cval(st, x) for x in c[3][1:]]
                return self.gep(st, b, c[4], ix, c[5][1:])
            if op in ('bitcast', 'addrspacecast', 'inttoptr'): return self.cval(st, c[3][0])
            if op == 'ptrtoint': return self.cval(st, c[3][0])
            if op in ('sub', 'add', 'mul'):
                return self.binop(st, op, self.cval(st, c[3][0]), self.cval(st, c[3][1]), c[2][1])
            raise Unsupported(f"constant expression {op}")
        raise Unsupported(f"constant {c}")
    def zero(self, t):
        if t[0] == 'int': return False if t[1] == 1 else 0
        if t[0] == 'ptr': return NULL
        if t[0] in ('vec', 'arr'): return Agg(self.zero(t[2]) for _ in range(t[1]))
        if t[0] == 'struct': return Agg(self.zero(x) for x in t[1])
        return self.fp.const(0.0)
    def gptr(self, st, name):
        rid = self.globals.get(name)
        if rid is None or rid not in st.mem:
            g = self.m.globals.get(name)
            if rid is None:
                self.rid += 1; rid = self.rid; self.globals[name] = rid
            sz = sizeof(g.ty)
            chararr = g.const and g.ty[0] == 'arr' and g.ty[2] == ('int', 8)
            r = Region(rid, 'global ' + name[:40], 1 if chararr else sz, sz if chararr else 1, not chararr); r.owner = st.tok
            st.mem[rid] = r
            init = self.m.ginit(g) if g.const or getattr(self, 'init_globals', False) else ('none',)
            if chararr:
                if init[0] == 'zero': data = [0] * sz
                else: data = [x[2] for x in init[2]]
                st.ghost.setdefault('bytes', {})[rid] = data
                r.cells[0] = Cell(1, 'i', ConstBytes(data))
                r.ro = True
            elif init[0] not in ('none', 'undef'):
                if init[0] == 'zero': r.zero.append((0, sz, 0))
                else: self.init_const(st, Ptr(rid, 0, 0), init, g.ty)
                if g.const: st.reg(rid).ro = True
            else: r.lazy = 'global'
        return Ptr(rid, 0, 0)
    def init_const(self, st, p, c, ty):
        if c[0] == 'zero': st.wreg(p.r).zero.append((p.o, p.o + sizeof(ty), 0)); return
        if c[0] == 'undef': return
        if c[0] == 'agg':
            if ty[0] == 'struct':
                for x, t, o in zip(c[2], ty[1], ty[2]): self.init_const(st, Ptr(p.r, 0, p.o + o), x, t)
            else:
                es = sizeof(ty[2])
                for i, x in enumerate(c[2]): self.init_const(st, Ptr(p.r, 0, p.o + i * es), x, ty[2])
            return
        self.wr(st, p, sizeof(ty), self.tk(ty), self.cval(st, c))

    # ---------------------------------------------------------------- running
    def val(self, st, o):
        f = st.frames[-1]
        k = o[0]
        if k == 'i':
            return f.env[o[1]]
        if k == 'a': return f.args[o[1]]
        return self.cval(st, o)
    def enter(self, st, fname, args, retid):
        fn = self.m.func(fname)
        if len(st.frames) > 80: raise Unsupported(f"call depth exceeded at {fname}")
        fr = Frame(); fr.fn = fn; fr.b = 0; fr.ip = 0; fr.env = {}; fr.prev = None; fr.retid = retid; fr.unroll = {}
        fr.allocas = []; fr.args = args; fr.loc = None; fr.sel = {}
        st.frames.append(fr)
        self.functions.add(fname)
        if fname not in self.doomed: self.doomed[fname] = self.find_doomed(fn)
    EXIT = re.compile(r'^(_ZN3rpp4Libc4exitE|exit$|abort$|_ZN3rpp3dieI|__assert_fail|_ZSt9terminatev)')
    def find_doomed(self, fn):
        d = {}
        for b in fn.blocks:
            for i in b.insts:
                if i.op == 'call' and i.x[0] == 'fn' and self.EXIT.match(i.x[1]): d[b.idx] = i
        ch = True
        while ch:
            ch = False
            for b in fn.blocks:
                if b.idx in d or not b.succs: continue
                if all(s in d for s in b.succs):
                    # only plain branches and reporting calls count as inevitably failing
                    if all(i.op in ('br', 'phi', 'alloca', 'gep', 'load', 'store', 'call', 'zext', 'insertvalue', 'extractvalue') for i in b.insts) and b.idx != 0 and self.reporting(b):
                        d[b.idx] = d[b.succs[0]]; ch = True
        return d
    def reporting(self, b):
        for i in b.insts:
            if i.op == 'call':
                n = i.x[1] if i.x[0] == 'fn' else ''
                if not ('rpp3Log' in n or n.startswith('llvm.') or 'String_View' in n or 'Literal' in n or 'Location' in n or 'Region_Allocator' in n): return False
        return True

    def run_function(self, st, fname, args):
        """run fname to completion; returns list of (kind, state, value)"""
        self.enter(st, fname, args, None)
        return self.run(st, None)
    def run(self, st, stop):
        outs = []
        work = [st]
        while work:
            s = work.pop()
            self.npaths += 1
            if self.npaths > self.max_paths: raise Unsupported("too many paths")
            r = self.run_path(s, stop)
            for x in r:
                if x[0] == 'fork': work.append(x[1])
                else: outs.append(x)
        return outs
    def run_path(self, st, stop):
        """execute until a fork or an outcome"""
        while True:
            if self.deadline and time.time() > self.deadline: raise Unsupported("time budget exhausted")
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.b].insts[fr.ip]
            try:
                r = self.step(st, fr, ins, stop)
            except Abort:
                return [('dead', st, None)]
            except NeedConst as e:
                r = self.fork_const(st, fr, ins, e)
                if r is None: raise Unsupported(f"cannot resolve {e} at {self.loc(st)}")
                return r
            if r is None: continue
            return r
    def fork_const(self, st, fr, ins, e):
        """split on the possible constant values of the variable part of an offset"""
        l, c = self.lin(e.term)
        if len(l) != 1: return None
        t = list(l.values())[0][0]
        outs = []
        # enumerate feasible values
        s2 = st.copy(); n = 0
        while n < 40:
            r, m = self.p.check(s2.pc, s2.q, timeout=3000)
            if r == 'unsat': return outs
            if r != 'sat': return None
            v = m.eval(t, model_completion=True)
            if not z3.is_int_value(v): return None
            o = st.copy(); o.assume(t == v)
            self.subst_state(o, t, v)
            outs.append(('fork', o, None))
            s2.assume(t != v); n += 1
        return None
    def subst_state(self, st, t, v):
        f = st.frames[-1]
        def sb(x):
            if isinstance(x, Ptr): return Ptr(x.r, subst(x.i, [(t, v)]), x.o, subst(x.n, [(t, v)]) if z3.is_expr(x.n) else x.n)
            if isinstance(x, Agg): return Agg(sb(y) for y in x)
            if z3.is_expr(x): return subst(x, [(t, v)])
            return x
        for f in st.frames:
            f.env = {k: sb(x) for k, x in f.env.items()}
            f.args = [sb(x) for x in f.args]

    def jump(self, st, tgt, stop):
        fr = st.frames[-1]
        cur = fr.b
        if stop is not None and len(st.frames) == stop[0]:
            if tgt == stop[1]:
                fr.prev = cur; return [('back', st, tgt)]
            if tgt not in stop[2]:
                fr.prev = cur; return [('exit', st, tgt)]
        d = self.doomed[fr.fn.name].get(tgt)
        if d is not None:
            fr.prev = cur
            return [('abort', st, f"{d.file.split('/repo/')[-1]}:{d.line}")]
        loops = fr.fn.loops
        if tgt in loops:
            if cur in loops[tgt]:
                n = fr.unroll.get(tgt)
                if n is None: raise Unsupported(f"unexpected back edge in {fr.fn.name}")
                if n > self.max_unroll: raise Unsupported(f"loop unrolled more than {self.max_unroll} times at {self.loc(st)}")
                fr.unroll[tgt] = n + 1
            else:
                fr.prev = cur
                return self.handle_loop(st, tgt, stop)
        self.goto(st, tgt)
        return None
    def goto(self, st, tgt):
        fr = st.frames[-1]
        cur = fr.b
        self.phis(st, fr, tgt, cur)
        fr.prev = cur; fr.b = tgt
        n = 0
        for i in fr.fn.blocks[tgt].insts:
            if i.op != 'phi': break
            n += 1
        fr.ip = n
    def phis(self, st, fr, tgt, cur):
        new = {}
        for i in fr.fn.blocks[tgt].insts:
            if i.op != 'phi': break
            for (b, o) in i.ops:
                if b == cur: new[i.id] = self.val(st, o); break
            else: raise Unsupported("phi without incoming edge")
        fr.env.update(new)

    def branch(self, st, cond, t, f, stop):
        fr = st.frames[-1]
        cond = self.tobool(cond)
        if z3.is_expr(cond): cond = simp(cond)
        if self.probes:
            pr = self.probes[-1]
            if len(st.frames) == pr['depth'] and fr.b in pr['body'] and ((t in pr['body']) != (f in pr['body'])):
                pr['exits'].append(isinstance(cond, bool))
        if isinstance(cond, bool): return self.jump(st, t if cond else f, stop)
        outs = []
        tf, ff = self.feasible(st, cond), self.feasible(st, Not(cond))
        if tf and ff:
            s2 = st.copy()
            st.assume(cond); s2.assume(Not(cond))
            for s, tg in ((st, t), (s2, f)):
                r = self.jump(s, tg, stop)
                if r is None: outs.append(('fork', s, None))
                else: outs += r
            return outs
        if not tf and not ff: return [('dead', st, None)]
        st.assume(cond if tf else Not(cond))
        return self.jump(st, t if tf else f, stop)

    def step(self, st, fr, ins, stop):
        op = ins.op; V = self.val
        if op == 'br':
            if not ins.ops: return self.jump(st, ins.x[0], stop)
            # successors are stored as in the IR: [true, false]
            return self.branch(st, V(st, ins.ops[0]), ins.x[0], ins.x[1], stop)
        if op == 'switch':
            v = V(st, ins.ops[0]); w = ins.tys[0][1]
            v = self.norm(st, self.toint(v), w)
            if isinstance(v, int):
                for c, b in ins.x[1]:
                    if c == v: return self.jump(st, b, stop)
                return self.jump(st, ins.x[0], stop)
            outs = []; rest = []
            for c, b in ins.x[1]:
                cond = Eq(v, c)
                if self.feasible(st, cond):
                    s2 = st.copy(); s2.assume(cond)
                    r = self.jump(s2, b, stop)
                    outs += [('fork', s2, None)] if r is None else r
                rest.append(Not(cond))
            if self.feasible(st, And(*rest)):
                st.assume(And(*rest))
                r = self.jump(st, ins.x[0], stop)
                outs += [('fork', st, None)] if r is None else r
            return outs
        if op == 'ret':
            v = V(st, ins.ops[0]) if ins.ops else None
            for a in fr.allocas: st.mem.pop(a, None)
            st.frames.pop()
            if not st.frames or fr.retid is None:
                st.val = v
                return [('ret', st, v)]
            c = st.frames[-1]
            if fr.retid != -1: c.env[fr.retid] = v
            c.ip += 1
            return None
        if op == 'unreachable':
            self.oblig(st, 'no-undefined-behaviour', False, 'unreachable code reached')
            return [('dead', st, None)]
        if op == 'call':
            return self.call(st, fr, ins, stop)
        e = fr.env
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = V(st, ins.ops[0]), V(st, ins.ops[1])
            if ins.ty[0] == 'vec': e[ins.id] = Agg(self.binop(st, op, x, y, ins.ty[2][1]) for x, y in zip(a, b))
            else:
                r = self.binop(st, op, a, b, ins.ty[1])
                if op in ('add', 'sub', 'mul', 'shl') and ins.x and ins.x[1] and ins.ty[1] >= 32 and not isinstance(r, bool): self.overflow(st, op, a, b, r, ins.ty[1])
                e[ins.id] = r
        elif op == 'icmp': e[ins.id] = self.icmp(st, ins.x, V(st, ins.ops[0]), V(st, ins.ops[1]), ins.tys[0])
        elif op == 'load':
            v = self.load(st, V(st, ins.ops[0]), ins.ty); e[ins.id] = v
        elif op == 'store': self.store(st, V(st, ins.ops[1]), V(st, ins.ops[0]), ins.tys[0])
        elif op == 'gep':
            e[ins.id] = self.gep(st, V(st, ins.ops[0]), ins.x, [V(st, o) for o in ins.ops[1:]], ins.tys[1:])
        elif op == 'alloca':
            n = V(st, ins.ops[0]) if ins.ops else 1
            if not isinstance(n, int): raise Unsupported("variable alloca")
            rid = self.new_region(st, f"local#{ins.id}", sizeof(ins.x) * n, 1, True)
            fr.allocas.append(rid); e[ins.id] = Ptr(rid, 0, 0)
        elif op == 'select':
            c, a, b = (V(st, o) for o in ins.ops)
            if ins.tys[0][0] == 'vec': e[ins.id] = Agg(vite(self.tobool(x), y, z) for x, y, z in zip(c, a, b))
            else:
                c = self.tobool(c)
                if not isinstance(c, bool) and (isinstance(a, Ptr) or isinstance(b, Ptr)):
                    try: e[ins.id] = vite(c, a, b)
                    except Unsupported: return self.fork_select(st, fr, ins, c, a, b)
                else:
                    if not isinstance(c, bool) and ins.ty[0] == 'int' and 1 < ins.ty[1] <= 8 and isinstance(a, int) and isinstance(b, int) and a != b: return self.fork_select(st, fr, ins, c, a, b)
                    if ins.ty == ('int', 1): e[ins.id] = Ite(c, self.tobool(a), self.tobool(b))
                    else: e[ins.id] = vite(c, a, b)
        elif op in ('zext', 'sext', 'trunc'):
            e[ins.id] = self.cast(st, op, V(st, ins.ops[0]), ins.tys[0], ins.ty)
        elif op == 'ptrtoint':
            v = V(st, ins.ops[0]); e[ins.id] = v if isinstance(v, Ptr) and v.r is None else self.p2i(st, v)
            if isinstance(e[ins.id], Ptr): e[ins.id] = 0
        elif op == 'inttoptr': e[ins.id] = self.i2p(st, V(st, ins.ops[0]))
        elif op == 'bitcast': e[ins.id] = self.bitcast(st, V(st, ins.ops[0]), ins.tys[0], ins.ty)
        elif op == 'freeze': e[ins.id] = V(st, ins.ops[0])
        elif op == 'extractvalue':
            v = V(st, ins.ops[0])
            for i in ins.x: v = v[i]
            e[ins.id] = v
        elif op == 'insertvalue':
            v = V(st, ins.ops[0]); x = V(st, ins.ops[1])
            e[ins.id] = self.insv(v, ins.x, x, ins.ty)
        elif op == 'extractelement':
            v = V(st, ins.ops[0]); i = V(st, ins.ops[1])
            if not isinstance(i, int): raise Unsupported("variable extractelement")
            e[ins.id] = v[i]
        elif op == 'insertelement':
            v = V(st, ins.ops[0]); x = V(st, ins.ops[1]); i = V(st, ins.ops[2])
            if not isinstance(i, int): raise Unsupported("variable insertelement")
            v = Agg(v); v[i] = x; e[ins.id] = v
        elif op == 'shufflevector':
            a, b = V(st, ins.ops[0]), V(st, ins.ops[1]); l = list(a) + list(b)
            e[ins.id] = Agg(l[i] if i >= 0 else UNDEF for i in ins.x)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = V(st, ins.ops[0]), V(st, ins.ops[1])
            if ins.ty[0] == 'vec': e[ins.id] = Agg(self.fp.bin(op, x, y) for x, y in zip(a, b))
            else: e[ins.id] = self.fp.bin(op, a, b)
        elif op == 'fneg':
            a = V(st, ins.ops[0])
            e[ins.id] = Agg(self.fp.neg(x) for x in a) if ins.ty[0] == 'vec' else self.fp.neg(a)
        elif op == 'fcmp':
            a, b = V(st, ins.ops[0]), V(st, ins.ops[1])
            e[ins.id] = Agg(self.fp.cmp(ins.x, x, y) for x, y in zip(a, b)) if ins.tys[0][0] == 'vec' else self.fp.cmp(ins.x, a, b)
        elif op in ('fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext'):
            a = V(st, ins.ops[0])
            if ins.ty[0] == 'vec': e[ins.id] = Agg(self.fp.conv(self, st, op, x, ins.tys[0][2], ins.ty[2]) for x in a)
            else: e[ins.id] = self.fp.conv(self, st, op, a, ins.tys[0], ins.ty)
        elif op == 'atomicrmw':
            p = V(st, ins.ops[0]); v = V(st, ins.ops[1]); old = self.load(st, p, ins.tys[1])
            ops = {0: None, 1: 'add', 2: 'sub', 3: 'and', 5: 'or', 6: 'xor'}
            w = ins.tys[1][1]
            nv = v if ins.x == 0 else self.binop(st, ops[ins.x], old, v, w)
            self.store(st, p, nv, ins.tys[1]); e[ins.id] = old
        elif op == 'cmpxchg':
            p = V(st, ins.ops[0]); c = V(st, ins.ops[1]); n = V(st, ins.ops[2])
            old = self.load(st, p, ins.tys[1])
            eq = self.icmp(st, 'eq', old, c, ins.tys[1])
            self.store(st, p, vite(eq, n, old), ins.tys[1]); e[ins.id] = Agg([old, eq])
        elif op == 'fence': pass
        else: raise Unsupported(f"instruction {op}")
        fr.ip += 1
        return None
    def overflow(self, st, op, a, b, r, w): pass
    def fork_select(self, st, fr, ins, c, a, b):
        outs = []
        for cc, v in ((c, a), (Not(c), b)):
            if self.feasible(st, cc):
                s = st.copy(); s.assume(cc); f = s.frames[-1]; f.env[ins.id] = v; f.ip += 1
                outs.append(('fork', s, None))
        return outs
    def insv(self, v, path, x, ty):
        v = Agg(v) if v is not UNDEF else Agg([UNDEF] * len(ty[1]))
        if len(path) == 1: v[path[0]] = x
        else: v[path[0]] = self.insv(v[path[0]], path[1:], x, ty[1][path[0]] if ty[0] == 'struct' else ty[2])
        return v
    def cast(self, st, op, v, t0, t1):
        if t1[0] == 'vec': return Agg(self.cast(st, op, x, t0[2], t1[2]) for x in v)
        w0, w1 = t0[1], t1[1]
        if v is UNDEF: return UNDEF
        if op == 'trunc':
            if w1 == 1:
                return self.tobool(self.norm(st, v, w0))
            return v if not isinstance(v, int) else v & ((1 << w1) - 1)
        if w0 == 1:
            b = self.tobool(v)
            if op == 'zext': return self.toint(b)
            return Ite(b, (1 << w1) - 1, 0)
        if isinstance(v, Ptr): v = self.p2i(st, v)
        if op == 'zext': return self.norm(st, v, w0)
        s = self.snorm(st, v, w0)
        return s % (1 << w1) if isinstance(s, int) else s
    def bitcast(self, st, v, t0, t1):
        if t0 == t1 or (t0[0] == 'ptr' and t1[0] == 'ptr'): return v
        if t0[0] == 'vec' and t1[0] == 'vec' and t0[1] == t1[1]:
            k0, k1 = self.tk(t0[2]), self.tk(t1[2])
            return Agg(self.convert(st, x, k0, k1, sizeof(t0[2])) if k0 != k1 else x for x in v)
        if t0[0] not in ('vec',) and t1[0] not in ('vec',):
            return self.convert(st, v, self.tk(t0), self.tk(t1), sizeof(t0))
        if t0[0] == 'vec' and t1[0] != 'vec' or t0[0] != 'vec' and t1[0] == 'vec' or t0[1] != t1[1]:
            return self.rebits(st, v, t0, t1)
        raise Unsupported(f"bitcast {t0}->{t1}")
    def rebits(self, st, v, t0, t1):
        # through a scratch object
        rid = self.new_region(st, 'bits', sizeof(t0), 1, True)
        self.store(st, Ptr(rid, 0, 0), v, t0)
        r = self.load(st, Ptr(rid, 0, 0), t1)
        st.mem.pop(rid)
        return r

    # ---------------------------------------------------------------- calls
    def add_contract(self, pat, fn):
        self.contracts.append((re.compile(pat), fn))
    def call(self, st, fr, ins, stop):
        t = ins.x
        if t[0] == 'fn': name = t[1]
        else:
            f = self.val(st, t)
            if not isinstance(f, FnPtr): 
                raise Unsupported(f"indirect call through {f}")
            name = f.name
        if name.startswith('llvm.'):
            return self.intrinsic(st, fr, ins, name)
        args = [self.val(st, o) for o in ins.ops]
        for pat, h in self.contracts:
            if pat.match(name):
                self.used_contracts.add(h.__name__ if hasattr(h, '__name__') else name)
                r = h(self, st, ins, args, name)
                return self.finish(st, fr, ins, r)
        h = BUILTIN.get(name)
        if h is None:
            for pat, hh in BUILTIN_RE:
                if pat.match(name): h = hh; break
        if h is not None:
            self.used_contracts.add(name)
            r = h(self, st, ins, args, name)
            return self.finish(st, fr, ins, r)
        name = self.resolve_fn(name)
        if name not in self.m.fns: raise Unsupported(f"call of undeclared external function {name}")
        self.enter(st, name, args, ins.id if ins.ty[0] != 'void' else -1)
        return None
    def resolve_fn(self, name):
        a = self.m.aliases.get(name)
        if a is not None:
            c = self.m.const(a)
            if c[0] == 'fn': return c[1]
        return name
    def finish(self, st, fr, ins, r):
        """r: None -> void ; ('val', v) ; ('abort', loc) ; list of (state, value)"""
        if r is None:
            fr.ip += 1; return None
        if isinstance(r, tuple) and r[0] == 'val':
            fr.env[ins.id] = r[1]; fr.ip += 1; return None
        if isinstance(r, tuple) and r[0] == 'abort': return [('abort', st, r[1] or self.loc(st))]
        if isinstance(r, tuple) and r[0] == 'dead': return [('dead', st, None)]
        if isinstance(r, tuple) and r[0] == 'inline':   # run another function instead
            self.enter(st, r[1], r[2], ins.id if ins.ty[0] != 'void' else -1); return None
        outs = []
        for s, v in r:
            f = s.frames[-1]
            if v is not None: f.env[ins.id] = v
            f.ip += 1
            outs.append(('fork', s, None))
        return outs
    def intrinsic(self, st, fr, ins, name):
        n = name.split('.')
        k = n[1]
        A = lambda i: self.val(st, ins.ops[i])
        e = fr.env
        if k in ('lifetime', 'dbg', 'invariant', 'experimental', 'var', 'donothing', 'prefetch', 'stacksave', 'stackrestore', 'annotation', 'va_start', 'va_end'): 
            if ins.ty[0] != 'void': e[ins.id] = UNDEF
        elif k == 'assume': st.assume(self.tobool(A(0)))
        elif k == 'expect': e[ins.id] = A(0)
        elif k in ('launder', 'strip'): e[ins.id] = A(0)
        elif k in ('memcpy', 'memmove'): self.memcpy(st, A(0), A(1), A(2), k == 'memmove')
        elif k == 'memset': self.memset(st, A(0), A(1), A(2))
        elif k in ('trap', 'debugtrap', 'ubsantrap'): return [('abort', st, self.loc(st))]
        elif k in ('umax', 'umin', 'smax', 'smin'):
            w = ins.ty[1]; a, b = A(0), A(1)
            nf = self.norm if k[0] == 'u' else self.snorm
            x, y = nf(st, a, w), nf(st, b, w)
            c = Lt(y, x) if k.endswith('max') else Lt(x, y)
            e[ins.id] = vite(c, a, b)
        elif k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and n[2] == 'with':
            w = ins.ty[1][0][1]; a, b = A(0), A(1)
            s = k[0] == 's'
            x, y = (self.snorm if s else self.norm)(st, a, w), (self.snorm if s else self.norm)(st, b, w)
            r = simp(zi(x) + zi(y)) if 'add' in k else simp(zi(x) - zi(y)) if 'sub' in k else simp(zi(x) * zi(y))
            lo, hi = (-(1 << (w-1)), (1 << (w-1)) - 1) if s else (0, (1 << w) - 1)
            e[ins.id] = Agg([r % (1 << w) if isinstance(r, int) else r, Or(Lt(r, lo), Gt(r, hi))])
        elif k == 'abs' :
            w = ins.ty[1]; x = self.snorm(st, A(0), w)
            e[ins.id] = abs(x) if isinstance(x, int) else z3.If(x < 0, -x, x)
        elif k == 'ctlz' or k == 'ctpop' or k == 'cttz' or k == 'bswap' or k == 'fshl' or k == 'fshr':
            w = ins.ty[1]; x = self.norm(st, A(0), w)
            if isinstance(x, int):
                if k in ('fshl', 'fshr'): raise Unsupported(name)
                v = w - x.bit_length() if k == 'ctlz' else int.from_bytes(x.to_bytes(w // 8, 'little'), 'big') if k == 'bswap' else bin(x).count('1') if k == 'ctpop' else ((x & -x).bit_length() - 1 if x else w)
                e[ins.id] = v
            elif k == 'ctlz': e[ins.id] = self.ctlz(st, x, w)
            elif k in ('fshl', 'fshr'): raise Unsupported(name)
            elif k == 'bswap': e[ins.id] = simp(sum((zi(x) / (1 << 8 * i)) % 256 * (1 << (w - 8 - 8 * i)) for i in range(w // 8)))
            else: e[ins.id] = self.uf(k, w, x)
        elif k in ('fabs', 'sqrt', 'floor', 'ceil', 'round', 'trunc', 'rint', 'minnum', 'maxnum', 'fma', 'fmuladd', 'sin', 'cos', 'copysign', 'pow', 'exp', 'log', 'nearbyint', 'roundeven', 'minimum', 'maximum'):
            args = [self.val(st, o) for o in ins.ops]
            if ins.ty[0] == 'vec': e[ins.id] = Agg(self.fp.fn(k, *x) for x in zip(*args))
            else: e[ins.id] = self.fp.fn(k, *args)
        elif k == 'x86': e[ins.id] = self.fp.x86(self, st, name, [self.val(st, o) for o in ins.ops], ins)
        elif k == 'threadlocal': e[ins.id] = A(0)
        elif k == 'is': e[ins.id] = False
        elif k == 'objectsize': e[ins.id] = (1 << 64) - 1
        elif k == 'vector' and n[2] == 'reduce':
            v = A(len(ins.ops) - 1)
            acc = None
            o = n[3]
            if o in ('fadd', 'fmul'):
                acc = A(0)
                for x in v: acc = self.fp.bin(o, acc, x)
            else:
                for x in v: acc = x if acc is None else self.binop(st, o, acc, x, ins.ty[1])
            e[ins.id] = acc
        else: raise Unsupported(f"intrinsic {name}")
        fr.ip += 1
        return None
    def ctlz(self, st, x, w):
        """characterised by its defining inequality: 2^(w-1-c) <= x < 2^(w-c)"""
        c = self.uf('ctlz', w, x)
        st.assume(And(c >= 0, c <= w))
        return c

    # ---------------------------------------------------------------- loops
    def handle_loop(self, st, h, stop):
        import loops
        return loops.handle(self, st, h, stop)

class NeedConst(Exception):
    def __init__(self, t): self.term = t

class ConstBytes:
    """contents of a constant byte array"""
    __slots__ = ('d',)
    def __init__(self, d): self.d = d
    def get(self, ex, k):
        if isinstance(k, int): return self.d[k] if 0 <= k < len(self.d) else 0
        e = z3.IntVal(self.d[-1] if self.d else 0)
        for i in range(len(self.d) - 2, -1, -1): e = z3.If(zi(k) == i, z3.IntVal(self.d[i]), e)
        return e

# -------------------------------------------------------------------- contracts of external functions
def b_memcpy(ex, st, ins, a, n):
    ex.memcpy(st, a[0], a[1], a[2], 'memmove' in n)
    return ('val', a[0])
def b_memset(ex, st, ins, a, n):
    ex.memset(st, a[0], a[1], a[2]); return ('val', a[0])
def b_exit(ex, st, ins, a, n): return ('abort', None)
def b_nop(ex, st, ins, a, n): return ('val', UNDEF) if ins.ty[0] != 'void' else None
def cstring(ex, st, p):
    """constant C string behind p, or None"""
    if not isinstance(p, Ptr) or p.r is None or p.r == 'opaque': return None
    r = st.reg(p.r); c = r.cells.get(0)
    if c is not None and isinstance(c.v, ConstBytes) and isinstance(p.i, int):
        d = c.v.d[p.i:]
        if 0 in d: return bytes(d[:d.index(0)])
    return None
def b_strlen(ex, st, ins, a, n):
    s = cstring(ex, st, a[0])
    if s is None: raise Unsupported("strlen of a non-constant string")
    return ('val', len(s))
def bytes_read(ex, st, p, n, what):
    """obligation: n bytes readable at p; returns accessor k -> byte"""
    nz = Gt(n, 0)
    if p.n is not False: ex.oblig(st, 'no-null-dereference', Implies(nz, Not(p.n)), what)
    if p.r is None: return lambda k: z3.IntVal(0)
    r = st.reg(p.r)
    if not r.alive: ex.oblig(st, 'no-use-after-free', False, what)
    if r.scalar:
        return lambda k: ex.rd(st, Ptr(p.r, 0, p.o + k), 1, 'i')
    if r.stride != 1: raise Unsupported(f"{what}: byte comparison of elements of size {r.stride}")
    ex.oblig(st, 'in-bounds', Or(Eq(n, 0), And(Le(0, p.i), Le(simp(zi(p.i) + zi(n)), r.count))), f'{what} inside {r.name}')
    if 0 not in r.cells: ex.lazy_cell(st, st.wreg(p.r), 0, 1, 'i')
    c = st.reg(p.r).cells[0]
    return lambda k: c.v.get(ex, simp(zi(p.i) + zi(k)))
def trig_of(e, k):
    """trigger descriptions for variable k found in e"""
    out = []
    for a in apps(zb(e) if isinstance(e, bool) else e).values():
        for pos in range(a.num_args()):
            if not z3.is_int(a.arg(pos)): continue
            for t in leaves(a.arg(pos)):
                if k.get_id() not in consts(t): continue
                d = simp(t - k)
                if z3.is_expr(d) and k.get_id() in consts(d):
                    d2 = simp(t + k)
                    if z3.is_expr(d2) and k.get_id() in consts(d2): continue
                    out.append((a.decl().name(), pos, -1, zi(d2)))
                else: out.append((a.decl().name(), pos, 1, zi(d)))
    return out
def b_cmp(stop_at_nul):
    def cmp(ex, st, ins, a, n):
        """memcmp / strncmp: zero result iff all compared bytes agree; sign = first difference"""
        cnt = ex.norm(st, a[2], 64)
        if isinstance(cnt, int) and cnt == 0: return ('val', 0)
        small = any(isinstance(p, Ptr) and p.r is not None and p.r != 'opaque' and st.reg(p.r).scalar for p in a[:2])
        if small: cnt = ex.unique(st, ex.resolve(st, cnt))
        fa = bytes_read(ex, st, a[0], cnt, 'memcmp'); fb = bytes_read(ex, st, a[1], cnt, 'memcmp')
        outs = []
        if small:
            if not isinstance(cnt, int) or cnt > 256 or stop_at_nul: raise Unsupported(f'comparison of {cnt} bytes of an object')
            A = [zi(ex.norm(st, fa(i), 8)) for i in range(cnt)]; B_ = [zi(ex.norm(st, fb(i), 8)) for i in range(cnt)]
            s = st.copy(); s.assume(And(*[Eq(x, y) for x, y in zip(A, B_)]))
            if ex.feasible(s): outs.append((s, 0))
            s = st.copy(); res = fresh_int('cmp', -255, 255); sign = z3.BoolVal(False); diff = z3.BoolVal(False)
            for x, y in reversed(list(zip(A, B_))): sign = z3.If(x == y, sign, x < y); diff = z3.Or(x != y, diff)
            s.assume(And(diff, res != 0, (res < 0) == sign))
            if ex.feasible(s): outs.append((s, res))
            return outs
        # equal
        s = st.copy()
        k = z3.Int(fresh_name('q'))
        if stop_at_nul:
            e = fresh_int('end', 0)
            # bytes agree up to the first NUL or cnt
            m = fresh_int('m', 0); 
            s.assume(And(m <= zi(cnt), Or(m == zi(cnt), And(Eq(fa(m), 0), Eq(fb(m), 0)))))
            body = Implies(And(Le(0, k), Lt(k, m)), And(Eq(fa(k), fb(k)), Ne(fa(k), 0)))
        else: body = Implies(And(Le(0, k), Lt(k, cnt)), Eq(fa(k), fb(k)))
        s.q.append(QFact([k], body, [trig_of(zb(body), k)], 'cmp-equal'))
        outs.append((s, 0))
        # different at first index d
        s = st.copy()
        d = fresh_int('d', 0)
        s.assume(And(d < zi(cnt), Ne(fa(d), fb(d))))
        k2 = z3.Int(fresh_name('q'))
        body = Implies(And(Le(0, k2), Lt(k2, d)), And(Eq(fa(k2), fb(k2)), Ne(fa(k2), 0) if stop_at_nul else True))
        s.q.append(QFact([k2], body, [trig_of(zb(body), k2)], 'cmp-differ'))
        res = fresh_int('cmp', -255, 255)
        s.assume(And(res != 0, (res < 0) == (zi(fa(d)) < zi(fb(d)))))
        if ex.feasible(s): outs.append((s, res))
        return outs
    return cmp
def b_malloc(ex, st, ins, a, n):
    """fresh storage of the requested size (allocation failure is excluded: the code asserts on it)"""
    sz = ex.norm(st, a[0], 64)
    return [(st, heap_alloc(ex, st, sz, n))]
def heap_alloc(ex, st, sz, name):
    ex.alloc_count += 1
    hint = ex.stride_hint(sz) if callable(ex.stride_hint) else ex.stride_hint
    if isinstance(sz, int) and (hint is None or hint == sz or getattr(ex, 'const_alloc_scalar', False)):
        rid = ex.new_region(st, f'alloc#{ex.alloc_count}', sz, 1, True, True)
    else:
        if hint is None: raise Unsupported("allocation of unknown element size")
        cnt = ex.exdiv(sz, hint)
        if cnt is None:
            if isinstance(sz, int): 
                rid = ex.new_region(st, f'alloc#{ex.alloc_count}', sz, 1, True, True)
                st.ghost.setdefault('heap', []).append(rid)
                return Ptr(rid, 0, 0)
            raise Unsupported(f"allocation size {sz} is not a multiple of {hint}")
        rid = ex.new_region(st, f'alloc#{ex.alloc_count}', hint, cnt, False, True)
    st.ghost.setdefault('heap', []).append(rid)
    return Ptr(rid, 0, 0)
def tz2(e):
    """a k such that 2^k divides e, by its shape"""
    if isinstance(e, int): return (e & -e).bit_length() - 1 if e else 64
    if not z3.is_app(e): return 0
    k = e.decl().kind()
    if k == z3.Z3_OP_ANUM: return tz2(e.as_long())
    if k == z3.Z3_OP_MUL: return min(64, sum(tz2(c) for c in e.children()))
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS): return min(tz2(c) for c in e.children())
    if k == z3.Z3_OP_ITE: return min(tz2(e.arg(1)), tz2(e.arg(2)))
    if k == z3.Z3_OP_MOD: return min(tz2(e.arg(0)), tz2(e.arg(1)))
    return 0
def va_alloc(ex, st, ins, a, n):
    sz = ex.resolve(st, ex.norm(st, a[-1], 64))
    if isinstance(sz, int): return [(st, NULL if sz == 0 else heap_alloc(ex, st, sz, n))]
    outs = []
    if ex.feasible(st, Eq(sz, 0)):
        s = st.copy(); s.assume(Eq(sz, 0)); outs.append((s, NULL))
    if ex.feasible(st, Gt(sz, 0)):
        s = st.copy(); s.assume(Gt(sz, 0)); p = heap_alloc(ex, s, sz, n)
        outs.append((s, p))
    return outs
def va_free(ex, st, ins, a, n):
    p = a[-1]
    if isinstance(p, int): p = ex.i2p(st, p)
    if p.r is None: return None
    if p.n is not False and p.n is not True:
        outs = []
        if ex.feasible(st, p.n): s = st.copy(); s.assume(p.n); outs.append((s, None))
        if ex.feasible(st, Not(p.n)):
            s = st.copy(); s.assume(Not(p.n)); do_free(ex, s, Ptr(p.r, p.i, p.o)); outs.append((s, None))
        return outs
    do_free(ex, st, p)
    return None
def do_free(ex, st, p):
    r = st.reg(p.r)
    ex.oblig(st, 'free-valid', And(r.heap, r.alive, Eq(p.i, 0), p.o == 0), f'released pointer is a live allocation start ({r.name})')
    r = st.wreg(p.r)
    # no element may still hold a value
    for key, c in r.cells.items():
        if isinstance(key, tuple) and key[0] == 'L':
            if r.scalar: ex.oblig(st, 'no-leaked-element', Ne(c.v, LIVE), 'storage released while an element in it is alive')
            else:
                k = fresh_int('leak')
                ex.oblig(st, 'no-leaked-element', Implies(And(k >= 0, k < zi(r.count)), Ne(c.v.get(ex, k), LIVE)), 'storage released while an element in it is alive', assume=False)
    r.alive = False
    st.events.append(('free', p.r))

# elements of the observable type "Tracked"
def trk_construct(ex, st, p):
    p = ex.check_access(st, p, 8, True)
    ex.oblig(st, 'no-overwrite-of-live-element', Ne(ex.gget(st, p), LIVE), 'element constructed over a live element')
    return p
def t_move_ctor(ex, st, ins, a, n):
    d = trk_construct(ex, st, a[0]); s = ex.check_access(st, a[1], 8, True)
    ex.oblig(st, 'move-from-live', Eq(ex.gget(st, s), LIVE), 'element moved from while alive')
    v = ex.rd(st, s, 8, 'i')
    ex.wr(st, d, 8, 'i', v); ex.gset(st, d, LIVE)
    ex.gset(st, s, MOVED)
    st.events.append(('move', d, s))
def t_copy_ctor(ex, st, ins, a, n):
    d = trk_construct(ex, st, a[0]); s = ex.check_access(st, a[1], 8, False)
    ex.oblig(st, 'copy-from-live', Eq(ex.gget(st, s), LIVE), 'element copied while alive')
    v = ex.rd(st, s, 8, 'i'); ex.wr(st, d, 8, 'i', v); ex.gset(st, d, LIVE)
def t_default_ctor(ex, st, ins, a, n):
    d = trk_construct(ex, st, a[0]); ex.wr(st, d, 8, 'i', 0); ex.gset(st, d, LIVE)
def t_value_ctor(ex, st, ins, a, n):
    d = trk_construct(ex, st, a[0]); ex.wr(st, d, 8, 'i', ex.norm(st, a[1], 64)); ex.gset(st, d, LIVE)
def t_dtor(ex, st, ins, a, n):
    p = ex.check_access(st, a[0], 8, True)
    s = ex.gget(st, p)
    ex.oblig(st, 'destroy-once', Ne(s, RAW), 'destroyed element was constructed and not yet destroyed')
    ex.gset(st, p, RAW)
    st.events.append(('dtor', p))
def t_move_assign(ex, st, ins, a, n):
    d = ex.check_access(st, a[0], 8, True); s = ex.check_access(st, a[1], 8, True)
    ex.oblig(st, 'assign-to-constructed', Ne(ex.gget(st, d), RAW), 'assignment to a constructed element')
    ex.oblig(st, 'move-from-live', Eq(ex.gget(st, s), LIVE), 'element moved from while alive')
    v = ex.rd(st, s, 8, 'i'); ex.wr(st, d, 8, 'i', v); ex.gset(st, d, LIVE); 
    if not (d.r == s.r and veq(d, s) is True): ex.gset(st, s, MOVED)
    return ('val', a[0])
def t_copy_assign(ex, st, ins, a, n):
    d = ex.check_access(st, a[0], 8, True); s = ex.check_access(st, a[1], 8, False)
    ex.oblig(st, 'assign-to-constructed', Ne(ex.gget(st, d), RAW), 'assignment to a constructed element')
    ex.oblig(st, 'copy-from-live', Eq(ex.gget(st, s), LIVE), 'element copied while alive')
    v = ex.rd(st, s, 8, 'i'); ex.wr(st, d, 8, 'i', v); ex.gset(st, d, LIVE)
    return ('val', a[0])
def t_get(ex, st, ins, a, n):
    p = ex.check_access(st, a[0], 8, False)
    ex.oblig(st, 'use-live', Eq(ex.gget(st, p), LIVE), 'element read while alive')
    return ('val', ex.rd(st, p, 8, 'i'))
def t_eq(ex, st, ins, a, n):
    vs = []
    for x in a[:2]:
        p = ex.check_access(st, x, 8, False)
        ex.oblig(st, 'use-live', Eq(ex.gget(st, p), LIVE), 'element compared while alive')
        vs.append(ex.rd(st, p, 8, 'i'))
    return ('val', Eq(vs[0], vs[1]))
def t_lt(ex, st, ins, a, n):
    vs = []
    for x in a[:2]:
        p = ex.check_access(st, x, 8, False)
        ex.oblig(st, 'use-live', Eq(ex.gget(st, p), LIVE), 'element compared while alive')
        vs.append(ex.rd(st, p, 8, 'i'))
    return ('val', Lt(vs[0], vs[1]))
HASHF = z3.Function('keyhash', I, I); FBOUNDS['keyhash'] = (0, (1 << 64) - 1)
def t_hash(ex, st, ins, a, n):
    p = ex.check_access(st, a[0], 8, False)
    ex.oblig(st, 'use-live', Eq(ex.gget(st, p), LIVE), 'element hashed while alive')
    return ('val', HASHF(zi(ex.rd(st, p, 8, 'i'))))
def key_hash(ex, st, ins, a, n): return ('val', HASHF(zi(ex.norm(st, a[0], 64))))

BUILTIN = {
    '_ZN3rpp4Libc6memcpyEPvPKvm': b_memcpy, 'memcpy': b_memcpy, 'memmove': b_memcpy,
    '_ZN3rpp4Libc6memsetEPvim': b_memset, 'memset': b_memset,
    '_ZN3rpp4Libc4exitEi': b_exit, 'exit': b_exit, 'abort': b_exit,
    '_ZN3rpp4Libc6strlenEPKc': b_strlen, 'strlen': b_strlen,
    '_ZN3rpp4Libc6memcmpEPKvS2_m': b_cmp(False), 'memcmp': b_cmp(False), 'bcmp': b_cmp(False),
    '_ZN3rpp4Libc7strncmpEPKcS2_m': b_cmp(True), 'strncmp': b_cmp(True),
    'malloc': b_malloc, 'free': va_free,
    'va_alloc': va_alloc, 'va_free': va_free,
    'trk_move_ctor': t_move_ctor, 'trk_copy_ctor': t_copy_ctor, 'trk_default_ctor': t_default_ctor, 'trk_value_ctor': t_value_ctor,
    'trk_dtor': t_dtor, 'trk_move_assign': t_move_assign, 'trk_copy_assign': t_copy_assign, 'trk_get': t_get, 'trk_eq': t_eq, 'trk_lt': t_lt, 'trk_hash': t_hash,
    'key_hash': key_hash,
    'vc_nop': b_nop,
}
BUILTIN_RE = [
    (re.compile(r'_ZN3rpp3dieI'), b_exit),
    (re.compile(r'_ZN3rpp3Log(3log|11debug_break|5debug|10debug)'), b_nop),
    (re.compile(r'_ZN3rpp3Log'), b_nop),
]
