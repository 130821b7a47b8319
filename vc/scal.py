"""Second executor: straight-line / fixed-trip code over exact bit vectors and either exact reals or IEEE floats.
Integers are bit vectors of their exact width.  Floats are rational functions of real atoms (mode 'real', see
real.py) or z3 floating-point terms (mode 'fp').  Memory is a set of byte-addressed objects with typed cells;
symbolic addresses are enumerated.  Paths fork at symbolic branches; loops whose trip count is not decided by the
path need a contract-supplied invariant."""
import time, re, struct
from fractions import Fraction as Fr
import z3
import llvmir
from llvmir import sizeof
from terms import Unsupported
from real import R, Dom
import vexec
from vexec import Obligation

class Und:
    def __repr__(self): return 'undef'
UNDEF = Und()
class P:
    __slots__ = ('r', 'o')
    def __init__(self, r, o=0): self.r = r; self.o = o
    def __repr__(self): return f'P({self.r},{self.o})'
NULL = P(None, 0)
class Fn:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
class Agg(list): pass
class Fork(Exception):
    def __init__(self, alts): self.alts = alts       # [(cond, fn(state))]

def isc(v): return isinstance(v, (int, bool))
def bv(v, w): return z3.BitVecVal(v, w) if isinstance(v, int) else v
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v
def simp(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e
def And(*xs):
    l = []
    for x in xs:
        if x is False: return False
        if x is not True: l.append(x)
    return True if not l else l[0] if len(l) == 1 else z3.And(*l)
def Or(*xs):
    l = []
    for x in xs:
        if x is True: return True
        if x is not False: l.append(x)
    return False if not l else l[0] if len(l) == 1 else z3.Or(*l)
def Not(x): return (not x) if isinstance(x, bool) else z3.Not(x)
def Implies(a, b): return Or(Not(a), b)

class St:
    __slots__ = ('frames', 'mem', 'pc', 'ghost', 'val', 'steps')
    def __init__(self): self.frames = []; self.mem = {}; self.pc = []; self.ghost = {}; self.val = None; self.steps = 0
    def copy(self):
        s = St.__new__(St)
        s.frames = [(f[0], f[1], f[2], dict(f[3]), f[4], f[5], list(f[6])) if False else Fr_copy(f) for f in self.frames]
        s.mem = {k: (v[0], dict(v[1]), v[2]) for k, v in self.mem.items()}
        s.pc = list(self.pc); s.ghost = dict(self.ghost); s.val = self.val; s.steps = self.steps
        return s
    def assume(self, c):
        if c is not True: self.pc.append(c if not isinstance(c, bool) else z3.BoolVal(c))
class Frame: __slots__ = ('fn', 'b', 'ip', 'env', 'prev', 'retid', 'allocas', 'visits')
def Fr_copy(f):
    g = Frame(); g.fn = f.fn; g.b = f.b; g.ip = f.ip; g.env = dict(f.env); g.prev = f.prev; g.retid = f.retid; g.allocas = list(f.allocas); g.visits = dict(f.visits); return g

F32, F64 = z3.Float32(), z3.Float64()
RNE = z3.RNE()

class Stats:
    def __init__(self): self.time = 0; self.by = {'simplifier': 0, 'z3': 0, 'polynomial identity': 0}; self.nq = 0

class Pk:
    """bytes of floats travelling through an integer or wider float register (reinterpreted, never computed with)"""
    def __init__(self, cells, size, bad=()): self.cells = cells; self.size = size; self.bad = bad
    def sub(self, a, b):
        r = {k - a: c for k, c in self.cells.items() if a <= k and k + c[0] <= b}
        return Pk(r, b - a, [c for k, c in self.cells.items() if k < b and k + c[0] > a and not (a <= k and k + c[0] <= b)])
class SExec:
    def __init__(self, mod, name, mode='real', timeout=10000):
        self.m = mod; self.name = name; self.mode = mode; self.p = Stats(); self.obls = []; self.timeout = timeout
        self.functions = set(); self.used_contracts = set(); self.contracts = []; self.doomed = {}; self.dom = Dom(); self.rid = 0
        self.globals = {}; self.max_paths = 4000; self.npaths = 0; self.max_visits = 600; self.deadline = None; self.inv = {}; self.nsw = False; self.purify = False; self.purify_abs = False; self.nbad = 0; self.raw = False; self.on_enter = []
        self.nfresh = 0; self.inv_done = {}; self.gl_written = set()
    # ------------------------------------------------------------ solver
    def abstract(self, fs):
        """products and quotients of symbolic operands replaced by uninterpreted functions (plus the division law)"""
        cache = {}; facts = []; hit = [False]
        def go(e):
            k = e.get_id()
            if k in cache: return cache[k][1]
            ch = [go(c) for c in e.children()]
            r = e.decl()(*ch) if ch and z3.is_app(e) and not z3.is_quantifier(e) and e.decl().arity() == len(ch) else (e if not ch else z3.substitute(e, *[(a, b) for a, b in zip(e.children(), ch) if not a.eq(b)]) if any(not a.eq(b) for a, b in zip(e.children(), ch)) else e)
            n = {z3.Z3_OP_BMUL: 'mul', z3.Z3_OP_BUDIV: 'udiv', z3.Z3_OP_BUREM: 'urem', z3.Z3_OP_BUDIV_I: 'udiv', z3.Z3_OP_BUREM_I: 'urem'}.get(e.decl().kind()) if z3.is_app(e) else None
            if n and all(not z3.is_bv_value(c) for c in ch):
                hit[0] = True; w = e.size(); S = z3.BitVecSort(w); U = lambda m, a: z3.Function(f'{m}{len(a)}.{w}', *([S] * (len(a) + 1)))(*a)
                if n == 'mul': r = U('mul', sorted(ch, key=lambda c: c.get_id()))
                else:
                    q, m = U('udiv', ch), U('urem', ch)
                    facts.append(z3.Implies(z3.ULT(ch[0], ch[1]), z3.And(m == ch[0], q == 0))); facts.append(z3.Implies(ch[1] != 0, z3.And(z3.ULT(m, ch[1]), z3.ULE(m, ch[0]), z3.ULE(q, ch[0]), U('mul', sorted([q, ch[1]], key=lambda c: c.get_id())) + m == ch[0])))
                    r = q if n == 'udiv' else m
            cache[k] = (e, r); return r
        out = [go(f) for f in fs]
        return (out + facts) if hit[0] else None
    def check(self, fs, timeout=None):
        if self.mode != 'real':
            a = self.abstract([z3.simplify(f) if not isinstance(f, bool) else z3.BoolVal(f) for f in fs])
            if a is not None:
                s = z3.Solver(); s.set('timeout', min(timeout or self.timeout, 4000)); s.add(*a)
                t = time.time(); r = s.check(); self.p.time += time.time() - t; self.p.nq += 1
                if r == z3.unsat: return 'unsat', None
        s = z3.Solver(); s.set('timeout', timeout or self.timeout)
        s.add(*[f if not isinstance(f, bool) else z3.BoolVal(f) for f in fs])
        if self.mode == 'real': s.add(*self.dom.side)
        t = time.time(); r = s.check(); self.p.time += time.time() - t; self.p.nq += 1
        return str(r), (s.model() if r == z3.sat else None)
    def feasible(self, st, c=True):
        if c is False: return False
        return self.check(st.pc + [c], 1500)[0] != 'unsat'
    def loc(self, st):
        for f in reversed(st.frames):
            ins = f.fn.blocks[f.b].insts[min(f.ip, len(f.fn.blocks[f.b].insts) - 1)]
            if ins.line and 'rpp/' in ins.file: return f'{ins.file.split("/repo/")[-1]}:{ins.line}'
        return 'post'
    def oblig(self, st, kind, goal, name=None, loc=None):
        o = Obligation(); o.kind = kind; o.name = name or kind; o.loc = loc or (self.loc(st) if st.frames else 'post'); o.contract = self.name; o.model = None; o.detail = ''
        t0 = time.time()
        if goal is True: o.status = 'discharged'; self.p.by['simplifier'] += 1
        else:
            g = simp(goal) if z3.is_expr(goal) and self.mode != 'real' else goal
            if g is True: o.status = 'discharged'; self.p.by['simplifier'] += 1
            else:
                r, m = self.decide(st.pc, g)
                if r == 'unsat': o.status = 'discharged'; self.p.by['z3'] += 1
                else:
                    o.status = 'refuted' if r == 'sat' else 'unknown'; o.model = m; self.nbad += 1
                    o.detail = 'goal: ' + str(goal)[:800] + ('\nmodel: ' + ', '.join(sorted(f'{d.name()}={m[d]}' for d in m.decls() if d.arity() == 0))[:1200] if m is not None else '')
        o.time = time.time() - t0; self.obls.append(o)
        return o.status == 'discharged'
    def decide(self, pc, g, depth=0):
        if isinstance(g, bool): g = z3.BoolVal(g)
        c = find_if(g) if self.mode != 'real' and depth < 4 else None
        if c is not None and find_mul(g):
            for cc, v in ((c, True), (z3.Not(c), False)):
                h = simp(z3.substitute(g, (c, z3.BoolVal(v))))
                if h is True: continue
                r, m = self.decide(pc + [cc], h if z3.is_expr(h) else z3.BoolVal(h), depth + 1)
                if r != 'unsat': return r, m
            return 'unsat', None
        # after a failure the contract fails anyway: the others get less time
        return self.check(pc + [Not(g)], 1500 if self.nbad else None)
    def fresh(self, p): self.nfresh += 1; return f'{p}!{self.nfresh}'
    # ------------------------------------------------------------ memory
    def region(self, st, name, size, const=False):
        self.rid += 1; k = (self.rid, name); st.mem[k] = (size, {}, const); return k
    def access(self, st, p, w, write):
        if not isinstance(p, P): raise Unsupported(f'access through {p}')
        if p.r is None or p.r not in st.mem:
            self.oblig(st, 'memory-safety', False, 'access through a null or dangling pointer'); raise Dead()
        size, cells, const = st.mem[p.r]
        o = p.o
        if not isinstance(o, int):
            o64 = o
            self.oblig(st, 'memory-safety', z3.ULE(o64, bv(size - w, 64)) if size >= w else False, f'{p.r[1]}: access within the object')
            alts = []
            fs = list(st.pc) + [z3.ULE(o64, bv(size - w, 64))]
            for _ in range(65):
                r, m = self.check(fs)
                if r != 'sat': break
                v = m.eval(o64, model_completion=True).as_long(); alts.append(v); fs.append(o64 != v)
            else: raise Unsupported('symbolic address with too many values')
            raise Fork([(o64 == v, (o64, v)) for v in alts])
        if o < 0 or o + w > size:
            self.oblig(st, 'memory-safety', False, f'{p.r[1]}: access within the object (offset {o}, width {w}, size {size})'); raise Dead()
        if write and const:
            self.oblig(st, 'memory-safety', False, f'write to constant {p.r[1]}'); raise Dead()
        return o, cells
    def leafs(self, ty, o=0):
        k = ty[0]
        if k in ('int', 'ptr', 'float', 'double'): return [(o, ty)]
        if k == 'struct':
            r = []
            for t, f in zip(ty[1], ty[2]): r += self.leafs(t, o + f)
            return r
        if k in ('arr', 'vec'):
            r = []; s = sizeof(ty[2])
            for i in range(ty[1]): r += self.leafs(ty[2], o + i * s)
            return r
        raise Unsupported(f'type {ty}')
    def build(self, ty, it):
        k = ty[0]
        if k in ('int', 'ptr', 'float', 'double'): return next(it)
        if k == 'struct': return Agg(self.build(t, it) for t in ty[1])
        return Agg(self.build(ty[2], it) for _ in range(ty[1]))
    def flat(self, ty, v):
        k = ty[0]
        if k in ('int', 'ptr', 'float', 'double'): return [v]
        if v is UNDEF: return [UNDEF] * len(self.leafs(ty))
        r = []
        if k == 'struct':
            for t, x in zip(ty[1], v): r += self.flat(t, x)
        else:
            for x in v: r += self.flat(ty[2], x)
        return r
    def load(self, st, p, ty):
        ls = self.leafs(ty)
        o, cells = self.access(st, p, sizeof(ty), False)
        return self.build(ty, iter([self.ld1(st, cells, o + lo, lt) for lo, lt in ls]))
    def ld1(self, st, cells, o, ty):
        try: return self.ld1_(st, cells, o, ty)
        except Unsupported:
            if self.mode != 'real': raise
        return self.unpack(Pk({co - o: c for co, c in cells.items() if o <= co and co + c[0] <= o + sizeof(ty)}, sizeof(ty), [c for co, c in cells.items() if co < o + sizeof(ty) and co + c[0] > o and not (o <= co and co + c[0] <= o + sizeof(ty))]), ty)
    def unpack(self, pk, ty):
        if pk.bad: raise Unsupported('partial reinterpretation of a float')
        if set(pk.cells) == {0} and pk.cells[0][0] == sizeof(ty) and (pk.cells[0][1] == ty or pk.cells[0][2] is UNDEF): return pk.cells[0][2]
        return pk
    def ld1_(self, st, cells, o, ty):
        w = sizeof(ty)
        c = cells.get(o)
        if c is not None and c[0] == w: return self.conv_cell(c, ty)
        if ty[0] in ('int', 'float', 'double', 'ptr'):
            # assemble from overlapping integer cells
            bits = self.bytes_at(cells, o, w)
            if bits is UNDEF: return UNDEF
            if ty[0] == 'int': return self.trunc(bits, 8 * w, ty[1])
            return self.conv_cell((w, ('int', 8 * w), bits), ty)
        raise Unsupported('mixed load')
    def bytes_at(self, cells, o, w):
        """value of w bytes at o as an integer, from cells"""
        parts = []; x = o
        while x < o + w:
            hit = None
            for co, c in cells.items():
                if co <= x < co + c[0]: hit = (co, c); break
            if hit is None or hit[1][2] is UNDEF: return UNDEF
            co, c = hit
            n = min(co + c[0], o + w) - x
            v = self.as_bits(c)
            sh = 8 * (x - co); W = 8 * c[0]
            if isinstance(v, int): pv = (v >> sh) & ((1 << 8 * n) - 1)
            else: pv = v if (sh == 0 and n == c[0]) else z3.Extract(sh + 8 * n - 1, sh, v)
            parts.append((pv, 8 * n)); x += n
        if all(isinstance(v, int) for v, _ in parts):
            r = 0; s = 0
            for v, n in parts: r |= v << s; s += n
            return r
        if len(parts) == 1: return parts[0][0]
        return simp(z3.Concat(*[bv(v, n) for v, n in reversed(parts)]))
    def as_bits(self, c):
        w, ty, v = c
        if ty[0] == 'int':
            if isinstance(v, bool): return int(v)
            if z3.is_expr(v) and z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, 8 * w), z3.BitVecVal(0, 8 * w))
            if not isinstance(v, int) and ty[1] < 8 * w: return z3.ZeroExt(8 * w - ty[1], v)
            return v
        if ty[0] == 'float' and self.mode == 'fp': return simp(z3.fpToIEEEBV(v))
        if ty[0] == 'double' and self.mode == 'fp': return simp(z3.fpToIEEEBV(v))
        if ty[0] in ('float', 'double') and isinstance(v, R) and v.is_const():
            return int.from_bytes(struct.pack('<f' if ty[0] == 'float' else '<d', float(v.cval())), 'little')
        raise Unsupported(f'bits of {ty} cell')
    def conv_cell(self, c, ty):
        w, t0, v = c
        if t0 == ty or v is UNDEF: return v
        if t0[0] == 'int' and ty[0] == 'int': return self.trunc(self.as_bits(c), 8 * w, ty[1])
        if ty[0] == 'int': return self.trunc(self.as_bits(c), 8 * w, ty[1])
        if ty[0] in ('float', 'double'):
            b = self.as_bits(c)
            return self.from_bits(b, ty)
        if ty[0] == 'ptr' and v == 0: return NULL
        raise Unsupported(f'load of {t0} as {ty}')
    def from_bits(self, b, ty):
        if isinstance(b, int):
            f = struct.unpack('<f' if ty[0] == 'float' else '<d', b.to_bytes(sizeof(ty), 'little'))[0]
            return self.fconst(f, ty)
        if self.mode == 'fp': return simp_fp(z3.fpBVToFP(b, F32 if ty[0] == 'float' else F64))
        raise Unsupported('float from symbolic bits')
    def trunc(self, v, w0, w):
        if v is UNDEF: return v
        if w == 1:
            if isinstance(v, int): return bool(v & 1)
            return simp(z3.Extract(0, 0, v) == 1)
        if isinstance(v, int): return v & ((1 << w) - 1)
        return v if w == w0 else simp(z3.Extract(w - 1, 0, v))
    def store(self, st, p, v, ty):
        o, cells = self.access(st, p, sizeof(ty), True)
        for (lo, lt), x in zip(self.leafs(ty), self.flat(ty, v)): self.st1(cells, o + lo, lt, x)
    def st1(self, cells, o, ty, v):
        w = sizeof(ty)
        self.clear(cells, o, w)
        if isinstance(v, Pk):
            for k, c in v.cells.items(): cells[o + k] = c
            return
        cells[o] = (w, ty, v)
    def clear(self, cells, o, w):
        for co in [c for c in cells if c < o + w and c + cells[c][0] > o]:
            c = cells.pop(co)
            for a, b in ((co, o), (o + w, co + c[0])):
                if b > a:
                    x = self.bytes_at({co: c}, a, b - a)
                    cells[a] = (b - a, ('int', 8 * (b - a)), x)
    def copy_bytes(self, st, d, s, n):
        if n == 0: return
        so, sc = self.access(st, s, n, False); do, dc = self.access(st, d, n, True)
        got = {}
        for co, c in sc.items():
            if co + c[0] <= so or co >= so + n: continue
            if co >= so and co + c[0] <= so + n: got[co - so] = c
            else:
                a, b = max(co, so), min(co + c[0], so + n)
                got[a - so] = (b - a, ('int', 8 * (b - a)), self.bytes_at({co: c}, a, b - a))
        self.clear(dc, do, n)
        for k, c in got.items(): dc[do + k] = c
    # ------------------------------------------------------------ values
    def fconst(self, f, ty):
        if self.mode == 'real':
            if f != f or f in (float('inf'), float('-inf')): return self.dom.var('inf' if f == float('inf') else 'ninf' if f == float('-inf') else 'nan')
            return self.dom.const(Fr(f))
        return z3.FPVal(f, F32 if ty[0] == 'float' else F64)
    def gptr(self, st, name):
        if name not in self.globals:
            g = self.m.globals[name]; sz = sizeof(g.ty)
            self.rid += 1; k = (self.rid, '@' + name); self.globals[name] = k
        k = self.globals[name]
        if k not in st.mem:
            g = self.m.globals[name]; st.mem[k] = (sizeof(g.ty), {}, False)
            c = self.m.ginit(g)
            if c[0] != 'none':
                v = self.cval(st, c, g.ty)
                self.store(st, P(k, 0), v, g.ty)
            s, cl, _ = st.mem[k]; st.mem[k] = (s, cl, g.const)
        return P(k, 0)
    def zero(self, ty):
        k = ty[0]
        if k == 'int': return False if ty[1] == 1 else 0
        if k == 'ptr': return NULL
        if k in ('float', 'double'): return self.fconst(0.0, ty)
        if k == 'struct': return Agg(self.zero(t) for t in ty[1])
        return Agg(self.zero(ty[2]) for _ in range(ty[1]))
    def undef(self, ty):
        k = ty[0]
        if k == 'struct': return Agg(self.undef(t) for t in ty[1])
        if k in ('arr', 'vec'): return Agg(self.undef(ty[2]) for _ in range(ty[1]))
        return UNDEF
    def cval(self, st, c, ty=None):
        k = c[0]
        if k == 'ci': return bool(c[2]) if c[1] == 1 else c[2]
        if k == 'cf': return self.fconst(c[2], c[1])
        if k == 'null': return NULL
        if k == 'undef': return self.undef(c[1])
        if k == 'zero': return self.zero(c[1])
        if k == 'agg':
            t = c[1]
            ts = t[1] if t[0] == 'struct' else [t[2]] * t[1]
            return Agg(self.cval(st, x, y) for x, y in zip(c[2], ts))
        if k == 'global': return self.gptr(st, c[1])
        if k == 'fn': return Fn(c[1])
        if k == 'cexpr':
            if c[1] == 'gep':
                b = self.cval(st, c[3][0])
                return self.gep(b, c[4], [self.cval(st, x) for x in c[3][1:]], c[5][1:])
        raise Unsupported(f'constant {c[:2]}')
    def val(self, st, o):
        k = o[0]
        if k == 'i': return st.frames[-1].env[o[1]]
        if k == 'a': return st.frames[-1].env[('a', o[1])]
        return self.cval(st, o)
    def gep(self, p, ty, idx, tys):
        if not isinstance(p, P): raise Unsupported('gep on non-pointer')
        off = p.o
        def add(a, b):
            if isinstance(a, int) and isinstance(b, int): return a + b
            return simp(bv(a, 64) + bv(b, 64))
        first = True
        for i, t in zip(idx, tys):
            w = t[1]
            if isinstance(i, int): i = sgn(i, w)
            elif w < 64: i = z3.SignExt(64 - w, i)
            if first: s = sizeof(ty); first = False
            elif ty[0] == 'struct': off = add(off, ty[2][i]); ty = ty[1][i]; continue
            else: ty = ty[2]; s = sizeof(ty)
            off = add(off, i * s)
            if isinstance(off, int) and off >= 1 << 63: off -= 1 << 64
        return P(p.r, off)
    # ------------------------------------------------------------ arithmetic
    def ibin(self, st, op, a, b, w):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, Pk) or isinstance(b, Pk):
            if op == 'lshr' and isinstance(b, int) and b % 8 == 0: return self.unpack(a.sub(b // 8, w // 8), ('int', w))
            raise Unsupported(f'{op} of reinterpreted floats')
        M = (1 << w) - 1
        if w == 1:
            a, b = (bool(x) if isinstance(x, int) else x for x in (a, b))
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, bool): return Not(b) if a else b
                if isinstance(b, bool): return Not(a) if b else a
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op in ('shl', 'lshr', 'ashr') and b < w:
                return (a << b) & M if op == 'shl' else a >> b if op == 'lshr' else (sgn(a, w) >> b) & M
            if op in ('udiv', 'urem') and b: return a // b if op == 'udiv' else a % b
        if op in ('shl', 'lshr', 'ashr'):
            g = z3.ULT(bv(b, w), w) if not isinstance(b, int) else b < w
            if g is not True: self.oblig(st, 'no-undefined-behaviour', g, 'shift amount below the width'); st.assume(g)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            g = (bv(b, w) != 0) if not isinstance(b, int) else b != 0
            if g is not True: self.oblig(st, 'no-undefined-behaviour', g, 'divisor is not zero'); st.assume(g)
        x, y = bv(a, w), bv(b, w)
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
             'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
             'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
        return r if self.raw else simp(r)
    def icmp(self, pred, a, b, ty):
        if ty[0] == 'ptr':
            if isinstance(a, P) and isinstance(b, P):
                if a.r is None or b.r is None or a.r != b.r:
                    same = a.r == b.r
                    if pred in ('eq', 'ne'): return same == (pred == 'eq')
                a, b = a.o, b.o; ty = ('int', 64)
                if isinstance(a, int): a &= (1 << 64) - 1
                if isinstance(b, int): b &= (1 << 64) - 1
            else: raise Unsupported('pointer comparison')
        if a is UNDEF or b is UNDEF: raise Unsupported('comparison of an undefined value')
        w = ty[1]
        if w == 1:
            e = a == b if isinstance(a, bool) and isinstance(b, bool) else (z3.BoolVal(a) if isinstance(a, bool) else a) == (z3.BoolVal(b) if isinstance(b, bool) else b)
            if pred == 'eq': return e if isinstance(e, bool) else simp(e)
            if pred == 'ne': return Not(e)
            raise Unsupported('i1 order')
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's': a, b = sgn(a, w), sgn(b, w)
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred if pred in ('eq', 'ne') else pred[1:]]
        x, y = bv(a, w), bv(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        return simp(r)
    def fbin(self, st, op, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if self.mode == 'real':
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv':
                if not b.is_const(): st.ghost.setdefault('dens', []); st.ghost['dens'] = st.ghost['dens'] + [(b, self.loc(st))]
                elif not b.num: self.oblig(st, 'division', False, 'division by zero')
                return a / b
            raise Unsupported(op)
        if op == 'fadd': return z3.fpAdd(RNE, a, b)
        if op == 'fsub': return z3.fpSub(RNE, a, b)
        if op == 'fmul': return z3.fpMul(RNE, a, b)
        if op == 'fdiv': return z3.fpDiv(RNE, a, b)
        raise Unsupported(op)
    def fneg(self, a): return a if a is UNDEF else (-a if self.mode == 'real' else z3.fpNeg(a))
    def fcmp(self, pred, a, b):
        if pred == 'true' or pred == 'false': return pred == 'true'
        if a is UNDEF or b is UNDEF: raise Unsupported('comparison of an undefined value')
        if self.mode == 'real':
            if pred in ('ord', 'uno'): return pred == 'ord'
            p = pred[1:]
            a, b = a.reduce(), b.reduce(); d = (a - b).reduce()
            if d.is_const():
                c = d.cval(); return {'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[p]
            x, y = a.z3(), b.z3()
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
        p = pred[1:]
        un = Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pred == 'uno': return un
        if pred == 'ord': return Not(un)
        e = {'eq': z3.fpEQ(a, b), 'ne': z3.Not(z3.fpEQ(a, b)), 'lt': z3.fpLT(a, b), 'le': z3.fpLEQ(a, b), 'gt': z3.fpGT(a, b), 'ge': z3.fpGEQ(a, b)}[p]
        if pred[0] == 'u': return simp(z3.Or(un, e))
        return simp(z3.And(z3.Not(un), e)) if p == 'ne' else simp(e)
    def ite(self, c, a, b):
        if isinstance(c, bool): return a if c else b
        if a is b: return a
        if isinstance(a, Agg): return Agg(self.ite(c, x, y) for x, y in zip(a, b))
        if a is UNDEF: return b
        if b is UNDEF: return a
        if self.purify and isinstance(a, R) and isinstance(b, R):
            x = self.dom.var(self.fresh('sel')); self.dom.side.append(z3.If(c, x.z3() == a.z3(), x.z3() == b.z3())); return x
        if isinstance(a, (R, P, Fn)) or isinstance(b, (R, P, Fn)): raise NeedFork()
        if isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)):
            return simp(z3.If(c, z3.BoolVal(a) if isinstance(a, bool) else a, z3.BoolVal(b) if isinstance(b, bool) else b))
        if isinstance(a, int) and isinstance(b, int): 
            if a == b: return a
            raise NeedFork()
        if isinstance(a, int): a = z3.BitVecVal(a, b.size())
        if isinstance(b, int): b = z3.BitVecVal(b, a.size())
        return simp(z3.If(c, a, b)) if z3.is_bv(a) else z3.If(c, a, b)
    def cast(self, st, op, v, t0, t1):
        if v is UNDEF: return v
        if isinstance(v, Pk):
            if op == 'trunc' and t1[1] % 8 == 0: return self.unpack(v.sub(0, t1[1] // 8), t1)
            if op == 'zext': return Pk({**v.cells, v.size: (t1[1] // 8 - v.size, ('int', t1[1] - 8 * v.size), 0)}, t1[1] // 8, v.bad)
            if op != 'bitcast': raise Unsupported(f'{op} of reinterpreted floats')
        if op in ('zext', 'sext', 'trunc'):
            w0, w = t0[1], t1[1]
            if w0 == 1:
                if isinstance(v, bool): return (0 if not v else (1 if op == 'zext' else (1 << w) - 1))
                return simp(z3.If(v, z3.BitVecVal(1 if op == 'zext' else (1 << w) - 1, w), z3.BitVecVal(0, w)))
            if op == 'trunc': return self.trunc(v, w0, w)
            if isinstance(v, int): return v if op == 'zext' else sgn(v, w0) & ((1 << w) - 1)
            return simp((z3.ZeroExt if op == 'zext' else z3.SignExt)(w - w0, v))
        if op in ('uitofp', 'sitofp'):
            if isinstance(v, bool): v = int(v)
            if isinstance(v, int): return self.fconst(float(v if op == 'uitofp' else sgn(v, t0[1])), t1)
            if self.mode == 'fp': return (z3.fpUnsignedToFP if op == 'uitofp' else z3.fpSignedToFP)(RNE, v, F32 if t1[0] == 'float' else F64)
            return self.dom.fn(op, self.opaque(v))
        if op in ('fptoui', 'fptosi'):
            if self.mode == 'fp': return (z3.fpToUBV if op == 'fptoui' else z3.fpToSBV)(z3.RTZ(), v, z3.BitVecSort(t1[1]))
            if v.is_const():
                c = v.cval(); q = abs(c).numerator // abs(c).denominator; q = q if c >= 0 else -q
                return q & ((1 << t1[1]) - 1)
            k = self.dom.fn('trunc', v); nm = [a[0] for a in self.dom.atoms][list(k.num)[0][0][0]]
            return z3.BitVec(f'{op}{t1[1]}:{nm}', t1[1])
        if op in ('fptrunc', 'fpext'):
            if self.mode == 'real': return v
            return z3.fpFPToFP(RNE, v, F32 if t1[0] == 'float' else F64)
        if op == 'bitcast':
            if t0 == t1: return v
            f = self.flat(t0, v); a = self.leafs(t0); cells = {}
            for (o, t), x in zip(a, f): self.st1(cells, o, t, x)
            return self.build(t1, iter([self.ld1(st, cells, o, t) for o, t in self.leafs(t1)]))
        if op == 'ptrtoint' and isinstance(v, P) and t1 == ('int', 64):
            if v.r is None: return v.o
            return simp(z3.BitVec(f'addr.{v.r}', 64) + v.o)
        if op == 'ptrtoint' or op == 'inttoptr': raise Unsupported(op)
        raise Unsupported(op)
    def opaque(self, v): return self.dom.var(f'bits:{v.hash() if False else v.sexpr()}')
    # ------------------------------------------------------------ run
    def add_contract(self, pat, fn): self.contracts.append((re.compile(pat), fn))
    def enter(self, st, fname, args, retid):
        fn = self.m.func(fname)
        self.functions.add(fname)
        for rx, g in self.on_enter:
            if rx.match(fname): g(self, st, args)
        f = Frame(); f.fn = fn; f.b = 0; f.ip = 0; f.env = {}; f.prev = None; f.retid = retid; f.allocas = []; f.visits = {}
        for i, a in enumerate(args): f.env[('a', i)] = a
        st.frames.append(f)
        if len(st.frames) > 60: raise Unsupported('call depth')
    def run_function(self, st, fname, args):
        """-> [(kind, state, value)], kind in ret / abort"""
        st.frames = []
        self.enter(st, fname, args, None)
        return self.run(st)
    def run(self, st):
        work = [st]; outs = []
        while work:
            s = work.pop()
            self.npaths += 1
            if self.npaths > self.max_paths: raise Unsupported('too many paths')
            if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exhausted')
            while True:
                f = s.frames[-1]
                if f.b in self.doom(f.fn): outs.append(('abort', s, self.loc(s))); break
                ins = f.fn.blocks[f.b].insts[f.ip]
                try: r = self.step(s, f, ins)
                except Fork as e:
                    for c, (t, v) in e.alts:
                        s2 = s.copy(); s2.assume(c); self.subst(s2, t, v); work.append(s2)
                    break
                except Dead: break
                except NeedFork:
                    c = self.val(s, ins.ops[0])
                    for cc, k in ((c, 1), (Not(c), 2)):
                        if self.feasible(s, cc):
                            s2 = s.copy(); s2.assume(cc); f2 = s2.frames[-1]; f2.env[ins.id] = self.val(s2, ins.ops[k]); f2.ip += 1; work.append(s2)
                    break
                if r is None: continue
                for x in r:
                    if x[0] == 'go': work.append(x[1])
                    else: outs.append(x)
                break
        return outs
    EXIT = vexec.Exec.EXIT
    reporting = vexec.Exec.reporting
    find_doomed = vexec.Exec.find_doomed
    def doom(self, fn):
        d = self.doomed.get(id(fn))
        if d is None: d = self.doomed[id(fn)] = self.find_doomed(fn)
        return d
    def subst(self, st, t, v):
        if t is None: return
        def sv(x):
            if isinstance(x, P) and not isinstance(x.o, int):
                if x.o.eq(t): return P(x.r, v)
                y = simp(z3.substitute(x.o, (t, z3.BitVecVal(v, 64)))); return P(x.r, y)
            return x
        for f in st.frames: f.env = {k: sv(x) for k, x in f.env.items()}
    def goto(self, st, f, tgt):
        b = f.fn.blocks[tgt]; cur = f.b
        if tgt in f.fn.loops and cur in f.fn.loops[tgt]:
            f.visits[tgt] = f.visits.get(tgt, 0) + 1
            if f.visits[tgt] > self.max_visits: raise Unsupported(f'loop at {self.loc(st)} needs an invariant')
        elif tgt in f.fn.loops: f.visits[tgt] = 0
        new = {}
        for ins in b.insts:
            if ins.op != 'phi': break
            for pb, o in ins.ops:
                if pb == cur: new[ins.id] = self.val(st, o); break
        f.env.update(new); f.prev = cur; f.b = tgt; f.ip = 0
        while b.insts[f.ip].op == 'phi': f.ip += 1
        h = next((v for k, v in self.inv.items() if re.search(k, f.fn.name)), None)
        if h is not None and tgt in f.fn.loops: return self.cut(st, f, tgt, cur, h)
        return True
    def cut(self, st, f, tgt, cur, inv):
        """invariant cut point: register-only loops.  inv(ex, st, {phi id: value}) -> [(name, fact)]"""
        b = f.fn.blocks[tgt]; ids = [(i.id, i.ty) for i in b.insts if i.op == 'phi']
        vals = {i: f.env[i] for i, _ in ids}
        first = cur not in f.fn.loops[tgt]
        for n, g in inv(self, st, [vals[i] for i, _ in ids], first): self.oblig(st, 'loop-invariant', g, f'loop invariant {n} ' + ('holds on entry' if first else 'is preserved'))
        if not first: raise Dead()
        for i in f.fn.loops[tgt]:
            for ins in f.fn.blocks[i].insts:
                if ins.op == 'store': raise Unsupported('invariant loop writes memory')
        for i, t in ids:
            f.env[i] = z3.BitVec(self.fresh('h'), t[1]) if t[0] == 'int' else UNDEF
            if t[0] != 'int': raise Unsupported('invariant loop over non-integers')
        for n, g in inv(self, st, [f.env[i] for i, _ in ids], False): st.assume(g)
        return True
    def branch(self, st, f, c, t, e):
        if isinstance(c, bool): self.goto(st, f, t if c else e); return None
        if c is UNDEF: raise Unsupported('branch on undefined value')
        ft, fe = self.feasible(st, c), self.feasible(st, Not(c))
        if ft and not fe: self.goto(st, f, t); return None
        if fe and not ft: self.goto(st, f, e); return None
        if not ft and not fe: raise Dead()
        s2 = st.copy(); s2.assume(c); st.assume(Not(c))
        r = []
        for s, g in ((s2, t), (st, e)):
            try: self.goto(s, s.frames[-1], g); r.append(('go', s))
            except Dead: pass
        return r
    def step(self, st, f, ins):
        st.steps += 1
        if st.steps > 400000: raise Unsupported('path too long')
        op = ins.op; V = lambda o: self.val(st, o); e = f.env
        if op == 'br':
            if not ins.ops: self.goto(st, f, ins.x[0]); return None
            return self.branch(st, f, V(ins.ops[0]), ins.x[0], ins.x[1])
        if op == 'switch':
            v = V(ins.ops[0])
            if isinstance(v, int):
                for c, b in ins.x[1]:
                    if c == v: self.goto(st, f, b); return None
                self.goto(st, f, ins.x[0]); return None
            r = []; rest = []
            for c, b in ins.x[1] + [(None, ins.x[0])]:
                cond = And(*rest) if c is None else v == c
                if c is not None: rest.append(v != c)
                if self.feasible(st, cond):
                    s = st.copy(); s.assume(cond)
                    try: self.goto(s, s.frames[-1], b); r.append(('go', s))
                    except Dead: pass
            return r
        if op == 'ret':
            v = V(ins.ops[0]) if ins.ops else None
            for a in f.allocas: st.mem.pop(a, None)
            st.frames.pop()
            if not st.frames or f.retid is None: st.val = v; return [('ret', st, v)]
            c = st.frames[-1]
            if f.retid != -1: c.env[f.retid] = v
            c.ip += 1
            return None
        if op == 'unreachable':
            self.oblig(st, 'no-undefined-behaviour', False, 'unreachable code reached'); raise Dead()
        if op == 'call': return self.call(st, f, ins)
        ty = ins.ty
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = V(ins.ops[0]), V(ins.ops[1])
            if self.nsw and op == 'mul' and ins.x and ins.x[1] and ty[0] == 'int' and a is not UNDEF and b is not UNDEF:
                x, y = bv(a, ty[1]), bv(b, ty[1])
                self.oblig(st, 'no-overflow', mulfits(x, y), 'signed product is representable')
            e[ins.id] = Agg(self.ibin(st, op, x, y, ty[2][1]) for x, y in zip(a, b)) if ty[0] == 'vec' else self.ibin(st, op, a, b, ty[1])
        elif op == 'icmp':
            a, b = V(ins.ops[0]), V(ins.ops[1]); t = ins.tys[0]
            e[ins.id] = Agg(self.icmp(ins.x, x, y, t[2]) for x, y in zip(a, b)) if t[0] == 'vec' else self.icmp(ins.x, a, b, t)
        elif op == 'load': e[ins.id] = self.load(st, V(ins.ops[0]), ty)
        elif op == 'store': self.store(st, V(ins.ops[1]), V(ins.ops[0]), ins.tys[0])
        elif op == 'gep': e[ins.id] = self.gep(V(ins.ops[0]), ins.x, [V(o) for o in ins.ops[1:]], ins.tys[1:])
        elif op == 'alloca':
            n = V(ins.ops[0]) if ins.ops else 1
            k = self.region(st, f'local{ins.id}', sizeof(ins.x) * n); f.allocas.append(k); e[ins.id] = P(k, 0)
        elif op == 'select':
            c, a, b = (V(o) for o in ins.ops)
            if ins.tys[0][0] == 'vec':
                if self.mode == 'real' and any(not isinstance(x, bool) for x in c): raise Unsupported('vector select on reals')
                e[ins.id] = Agg(self.ite(x, y, z) for x, y, z in zip(c, a, b))
            else: e[ins.id] = self.ite(c, a, b)
        elif op in ('zext', 'sext', 'trunc', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fptrunc', 'fpext'):
            v = V(ins.ops[0]); t0 = ins.tys[0]
            e[ins.id] = Agg(self.cast(st, op, x, t0[2], ty[2]) for x in v) if ty[0] == 'vec' else self.cast(st, op, v, t0, ty)
        elif op in ('bitcast', 'ptrtoint', 'inttoptr'): e[ins.id] = self.cast(st, op, V(ins.ops[0]), ins.tys[0], ty)
        elif op == 'freeze': e[ins.id] = V(ins.ops[0])
        elif op == 'extractvalue':
            v = V(ins.ops[0])
            for i in ins.x: v = v[i]
            e[ins.id] = v
        elif op == 'insertvalue':
            def ins_(v, path, x):
                v = Agg(v); v[path[0]] = x if len(path) == 1 else ins_(v[path[0]], path[1:], x); return v
            e[ins.id] = ins_(V(ins.ops[0]), ins.x, V(ins.ops[1]))
        elif op == 'extractelement':
            v, i = V(ins.ops[0]), V(ins.ops[1])
            if not isinstance(i, int): raise Unsupported('variable extractelement')
            e[ins.id] = v[i]
        elif op == 'insertelement':
            v, x, i = (V(o) for o in ins.ops)
            if not isinstance(i, int): raise Unsupported('variable insertelement')
            v = Agg(v); v[i] = x; e[ins.id] = v
        elif op == 'shufflevector':
            l = list(V(ins.ops[0])) + list(V(ins.ops[1])); e[ins.id] = Agg(l[i] if i >= 0 else UNDEF for i in ins.x)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = V(ins.ops[0]), V(ins.ops[1])
            e[ins.id] = Agg(self.fbin(st, op, x, y) for x, y in zip(a, b)) if ty[0] == 'vec' else self.fbin(st, op, a, b)
        elif op == 'fneg':
            a = V(ins.ops[0]); e[ins.id] = Agg(self.fneg(x) for x in a) if ty[0] == 'vec' else self.fneg(a)
        elif op == 'fcmp':
            a, b = V(ins.ops[0]), V(ins.ops[1])
            e[ins.id] = Agg(self.fcmp(ins.x, x, y) for x, y in zip(a, b)) if ins.tys[0][0] == 'vec' else self.fcmp(ins.x, a, b)
        else: raise Unsupported(f'instruction {op}')
        f.ip += 1
        return None
    def call(self, st, f, ins):
        args = [self.val(st, o) for o in ins.ops]
        x = ins.x
        if x[0] == 'fn': name = x[1]
        else:
            c = self.val(st, x)
            if not isinstance(c, Fn): raise Unsupported('indirect call')
            name = c.name
        def done(v):
            if ins.ty[0] != 'void': f.env[ins.id] = v
            f.ip += 1; return None
        if name.startswith('llvm.'): return done(self.intrinsic(st, ins, name, args))
        for rx, h in self.contracts:
            if rx.match(name):
                self.used_contracts.add(name)
                r = h(self, st, ins, args, name)
                if isinstance(r, str) and r == 'abort': return [('abort', st, self.loc(st))]
                return done(r)
        if name in self.m.fns:
            self.enter(st, name, args, ins.id if ins.ty[0] != 'void' else -1); return None
        r = self.extern(st, ins, name, args)
        if r is not None:
            self.used_contracts.add(name)
            if isinstance(r, str) and r == 'abort': return [('abort', st, self.loc(st))]
            return done(r[0])
        if name in self.m.noreturn: return [('abort', st, self.loc(st))]
        raise Unsupported(f'call to external {name}')
    def fmath(self, st, n, a):
        """a float function by name, per lane"""
        D = self.dom
        if self.mode == 'fp':
            S = a[0].sort()
            if n == 'sqrt': return z3.fpSqrt(RNE, a[0])
            if n == 'fabs': return z3.fpAbs(a[0])
            if n == 'floor': return z3.fpRoundToIntegral(z3.RTN(), a[0])
            if n == 'ceil': return z3.fpRoundToIntegral(z3.RTP(), a[0])
            if n == 'trunc': return z3.fpRoundToIntegral(z3.RTZ(), a[0])
            if n == 'round': return z3.fpRoundToIntegral(z3.RNA(), a[0])
            if n in ('minnum', 'fmin'): return z3.If(z3.fpIsNaN(a[0]), a[1], z3.If(z3.fpIsNaN(a[1]), a[0], z3.If(z3.fpLT(a[1], a[0]), a[1], a[0])))
            if n in ('maxnum', 'fmax'): return z3.If(z3.fpIsNaN(a[0]), a[1], z3.If(z3.fpIsNaN(a[1]), a[0], z3.If(z3.fpGT(a[1], a[0]), a[1], a[0])))
            if n in ('fma', 'fmuladd'): return z3.fpAdd(RNE, z3.fpMul(RNE, a[0], a[1]), a[2])
            f = z3.Function('math.' + n + str(S), *([S] * (len(a) + 1))); return f(*a)
        a = [x if x is UNDEF else x.reduce() for x in a]
        if UNDEF in a: return UNDEF
        if n == 'sqrt':
            st.ghost['roots'] = st.ghost.get('roots', []) + [(a[0], self.loc(st))]
            return D.sqrt(a[0])
        if n == 'hypot': return D.sqrt((a[0] * a[0] + a[1] * a[1]).reduce())
        if n == 'atan2': return D.atan2(a[0], a[1])
        if n == 'sin': return D.sincos(a[0])[0]
        if n == 'cos': return D.sincos(a[0])[1]
        if n == 'tan': s, c = D.sincos(a[0]); return s / c
        if n in ('fmuladd', 'fma'): return a[0] * a[1] + a[2]
        if n in ('fabs', 'minnum', 'maxnum', 'fmin', 'fmax'):
            d = a[0] if n == 'fabs' else (a[0] - a[1]).reduce()
            if d.is_const(): lt = d.cval() < 0
            elif self.purify_abs and n == 'fabs':
                v = D.var(f'abs!{len(D.atoms)}'); z = d.z3(); st.assume(z3.If(z < 0, v.z3() == -z, v.z3() == z)); return v
            else:
                c = d.z3() < 0
                if not self.feasible(st, c): lt = False
                elif not self.feasible(st, z3.Not(c)): lt = True
                else: raise Fork([(c, (None, 0)), (z3.Not(c), (None, 0))])
            if n == 'fabs': return -a[0] if lt else a[0]
            return a[0] if lt == (n in ('minnum', 'fmin')) else a[1]
        return D.fn(n, *a)
    FN = re.compile(r'^(sqrt|sin|cos|tan|acos|asin|atan|atan2|hypot|pow|exp|floor|ceil|round|fabs|fmin|fmax|trunc|log|log2)f?$')
    def extern(self, st, ins, name, args):
        m = self.FN.match(name)
        if m: return (self.fmath(st, m.group(1), args),)
        if name in ('abs', 'labs', 'llabs'):
            w = ins.ty[1]; v = args[0]
            g = bv(v, w) != (1 << (w - 1)); self.oblig(st, 'no-undefined-behaviour', g, 'abs of the least value'); st.assume(g)
            return (simp(z3.If(bv(v, w) < 0, -bv(v, w), bv(v, w))),)
        return None
    def intrinsic(self, st, ins, name, args):
        n = name.split('.')[1]
        if n in ('lifetime', 'dbg', 'assume', 'experimental', 'donothing', 'prefetch', 'invariant'): return None
        if n in ('memcpy', 'memmove'):
            if not isinstance(args[2], int): raise Unsupported('symbolic memcpy')
            self.copy_bytes(st, args[0], args[1], args[2]); return None
        if n == 'memset':
            if not isinstance(args[2], int) or not isinstance(args[1], int): raise Unsupported('symbolic memset')
            if args[2]:
                o, cells = self.access(st, args[0], args[2], True)
                self.clear(cells, o, args[2])
                for i in range(args[2]): cells[o + i] = (1, ('int', 8), args[1])
            return None
        if n == 'trap': return None
        if n in ('sqrt', 'fabs', 'floor', 'ceil', 'minnum', 'maxnum', 'fmuladd', 'fma', 'round', 'trunc', 'sin', 'cos', 'pow', 'exp'):
            if ins.ty[0] == 'vec':
                r = Agg()
                for i in range(ins.ty[1]): r.append(self.fmath(st, n, [a[i] for a in args]))
                return r
            return self.fmath(st, n, args)
        if n in ('ctlz', 'cttz', 'ctpop'):
            w = ins.ty[1]; v = args[0]
            if n != 'ctpop' and args[1] is True and isinstance(v, int) and v == 0: return UNDEF
            if isinstance(v, int):
                if n == 'ctpop': return bin(v).count('1')
                return w - v.bit_length() if n == 'ctlz' else (w if v == 0 else (v & -v).bit_length() - 1)
            if n == 'ctpop':
                r = z3.BitVecVal(0, w)
                for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
                return r
            r = z3.BitVecVal(w, w) if args[1] is not True else z3.BitVec(self.fresh('poison'), w)      # zero is not allowed: any value
            for i in (range(w) if n == 'ctlz' else range(w - 1, -1, -1)):
                r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(w - 1 - i if n == 'ctlz' else i, w), r)
            return r
        if n == 'abs':
            w = ins.ty[1]; v = args[0]
            if args[1] is True:
                g = bv(v, w) != (1 << (w - 1)); self.oblig(st, 'no-undefined-behaviour', g, 'abs of the least value'); st.assume(g)
            return simp(z3.If(bv(v, w) < 0, -bv(v, w), bv(v, w)))
        if n in ('umin', 'umax', 'smin', 'smax'):
            w = ins.ty[1]; a, b = bv(args[0], w), bv(args[1], w)
            c = {'umin': z3.ULT(a, b), 'umax': z3.UGT(a, b), 'smin': a < b, 'smax': a > b}[n]
            return simp(z3.If(c, a, b))
        if n in ('fshl', 'fshr'):
            w = ins.ty[1]; a, b, c = (bv(x, w) for x in args)
            c = z3.URem(c, w) if w & (w - 1) else c & (w - 1)
            x = z3.Concat(a, b); c2 = z3.ZeroExt(w, c)
            return simp(z3.Extract(2 * w - 1, w, x << c2) if n == 'fshl' else z3.Extract(w - 1, 0, z3.LShR(x, c2)))
        if n == 'vector' and name.startswith('llvm.vector.reduce.'):
            op = name.split('.')[3]; r = args[0][0]; t = ins.tys[0][2]
            for x in args[0][1:]: r = self.ibin(st, op, r, x, t[1])
            return r
        if n == 'is' : return False
        raise Unsupported(f'intrinsic {name}')
def find_if(e, seen=None):
    seen = set() if seen is None else seen
    if e.get_id() in seen or not z3.is_app(e): return None
    seen.add(e.get_id())
    if e.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(e): return e.arg(0)
    for c in e.children():
        r = find_if(c, seen)
        if r is not None: return r
    return None
def find_mul(e, seen=None):
    seen = set() if seen is None else seen
    if e.get_id() in seen or not z3.is_app(e): return False
    seen.add(e.get_id())
    return e.decl().kind() == z3.Z3_OP_BMUL or any(find_mul(c, seen) for c in e.children())
class Dead(Exception): pass
class NeedFork(Exception): pass
def simp_fp(e): return z3.simplify(e)

def mulfits(x, y):
    w = x.size(); p = z3.SignExt(w, x) * z3.SignExt(w, y)
    return p == z3.SignExt(w, z3.Extract(w - 1, 0, p))
class HS:
    """contract helper over SExec (same shape as contract.H)"""
    def __init__(self, mod, name, timeout=10000, mode='real'):
        self.m = mod; self.name = name; self.ex = SExec(mod, name, mode, timeout); self.post = 0; self.notes = []; self.tier = 'quick'
        self.D = self.ex.dom
    def mode(self, m): self.ex.mode = m
    def const(self, n): return self.m.ginit(self.m.globals[n])[2]
    def state(self): return St()
    def r(self, *names):
        v = [self.D.var(n) for n in ' '.join(names).split()]
        return v if len(v) > 1 else v[0]
    def bv(self, n, w): return z3.BitVec(n, w)
    def obj(self, st, name, size): return P(self.ex.region(st, name, size), 0)
    def put(self, st, p, off, v, ty=('float',)): self.ex.store(st, P(p.r, p.o + off), v, ty)
    def get(self, st, p, off, ty=('float',)): return self.ex.load(st, P(p.r, p.o + off), ty)
    def putv(self, st, name, vals, ty=('float',)):
        w = sizeof(ty); p = self.obj(st, name, w * len(vals))
        for i, v in enumerate(vals): self.put(st, p, i * w, v, ty)
        return p
    def getv(self, st, p, n, ty=('float',)): return [self.get(st, p, i * sizeof(ty), ty) for i in range(n)]
    def run(self, st, fn, args):
        assert fn in self.m.fns, fn
        if self.ex.check(st.pc, 20000)[0] == 'unsat': raise Unsupported('vacuous precondition')
        return self.ex.run_function(st, fn, args)
    def must_return(self, outs):
        rs = []
        for k, s, v in outs:
            if k == 'abort': s.frames = []; self.ex.oblig(s, 'no-abort', False, 'operation must not abort under its precondition', loc=str(v))
            else: rs.append((s, v))
        if not rs: self.fail('reachable', 'no normal return')
        return rs
    def never_returns(self, outs):
        n = 0
        for k, s, v in outs:
            s.frames = []
            self.ex.oblig(s, 'never-returns', k == 'abort', 'operation stops when its precondition is violated', loc='post'); n += 1
        if not n: self.fail('reachable', 'nothing reached')
    def fail(self, kind, d):
        o = Obligation(); o.kind = o.name = kind; o.loc = 'post'; o.status = 'refuted'; o.detail = d; o.contract = self.name; o.model = None; o.time = 0; self.ex.obls.append(o)
    def prove(self, st, name, goal):
        self.post += 1; return self.ex.oblig(st, 'postcondition', goal, name, loc='post')
    def eq(self, st, name, a, b):
        """real-valued equality: by polynomial identity if possible"""
        self.post += 1
        if a is UNDEF: return self.ex.oblig(st, 'postcondition', False, name + ' (undefined value)', loc='post')
        a = a if isinstance(a, R) else self.D.const(a); b = b if isinstance(b, R) else self.D.const(b)
        t0 = time.time(); d = (a - b)
        if self.ex.deadline and t0 > self.ex.deadline: raise Unsupported('time budget exhausted')
        if d.num and self.D.nonzero_somewhere(d): return self.ex.oblig(st, 'postcondition', pz0(d), name, loc='post')
        if not d.iszero() and self.D.defs: d = self.D.expand(d)
        if d.iszero():
            o = Obligation(); o.kind = 'postcondition'; o.name = name; o.loc = 'post'; o.status = 'discharged'; o.detail = ''; o.contract = self.name; o.model = None; o.time = time.time() - t0
            self.ex.p.by['polynomial identity'] += 1; self.ex.p.time += o.time; self.ex.obls.append(o); return True
        d = d.reduce()
        return self.ex.oblig(st, 'postcondition', pz0(d), name, loc='post')
    def nonzero(self, st):
        """every division and root on this path is defined under the precondition"""
        seen = []
        for d, loc in st.ghost.get('dens', []):
            d = d.reduce()
            if any(d.same(x) for x in seen): continue
            seen.append(d)
            self.ex.oblig(st, 'division', Not(pz0(d)) if d.num else False, 'divisor is not zero', loc=loc)
        seen = []
        for d, loc in st.ghost.get('roots', []):
            d = d.reduce()
            if any(d.same(x) for x in seen): continue
            seen.append(d)
            self.ex.oblig(st, 'division', d.z3() >= 0, 'radicand is not negative', loc=loc)
def pz0(d):
    """z3: d == 0 (numerator)"""
    from real import pz
    return pz(d.d, d.num) == 0
