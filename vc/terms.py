"""Terms, values, quantified facts and the prover used by the verification-condition generator."""
import z3, time, os
z3.set_param('model.completion', True)

I = z3.IntSort(); B = z3.BoolSort()
TRUE = z3.BoolVal(True); FALSE = z3.BoolVal(False)

class Unsupported(Exception): pass

def is_c(v): return isinstance(v, (int, bool)) and not isinstance(v, z3.ExprRef)
def zb(b):
    if b is True: return TRUE
    if b is False: return FALSE
    return b
def zi(v):
    return z3.IntVal(v) if isinstance(v, int) else v

def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)): x = And(*x)
        if x is True or (z3.is_expr(x) and z3.is_true(x)): continue
        if x is False or (z3.is_expr(x) and z3.is_false(x)): return False
        out.append(x)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(out)
def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)): x = Or(*x)
        if x is False or (z3.is_expr(x) and z3.is_false(x)): continue
        if x is True or (z3.is_expr(x) and z3.is_true(x)): return True
        out.append(x)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(out)
def Not(x):
    if x is True: return False
    if x is False: return True
    return z3.Not(x)
def Implies(a, b): return Or(Not(a), b)
def Ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)):
        return z3.If(c, zb(a), zb(b))
    if is_c(a) and is_c(b) and a == b: return a
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b): return a
    if isinstance(a, int) and isinstance(b, int): return z3.If(c, z3.IntVal(a), z3.IntVal(b))
    return z3.If(c, a, b)

_simp = {}
def simp(e):
    if not z3.is_expr(e): return e
    k = e.get_id()
    r = _simp.get(k)
    if r is not None and r[0].eq(e): return r[1]
    s = z3.simplify(e, som=True)
    if z3.is_int_value(s): v = s.as_long()
    elif z3.is_true(s): v = True
    elif z3.is_false(s): v = False
    elif z3.is_bv_value(s): v = s.as_long()
    else: v = s
    _simp[k] = (e, v)
    return v

def Eq(a, b):
    """equality of two scalar terms (ints, bools)"""
    if is_c(a) and is_c(b): return a == b
    if isinstance(a, bool) or isinstance(b, bool) or (z3.is_expr(a) and z3.is_bool(a)):
        if a is True: return b
        if b is True: return a
        if a is False: return Not(b)
        if b is False: return Not(a)
        if a.eq(b): return True
        return a == b
    if z3.is_expr(a) and z3.is_expr(b) and a.eq(b): return True
    if (z3.is_expr(a) and z3.is_int(a)) or (z3.is_expr(b) and z3.is_int(b)):
        d = simp(zi(a) - zi(b))
        if is_c(d): return d == 0
        lo, hi = rng(d)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
    return zi(a) == zi(b) if not (z3.is_expr(a) and z3.is_bv(a)) else a == b
def _lift(op, a, b, depth):
    """push a comparison through a top-level if-then-else when that decides a branch"""
    if depth > 3: return None
    for x, left in ((a, True), (b, False)):
        if z3.is_expr(x) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            c, u, v = x.children()
            p = op(u, b, depth + 1) if left else op(a, u, depth + 1)
            q = op(v, b, depth + 1) if left else op(a, v, depth + 1)
            if is_c(p) or is_c(q):
                if is_c(p) and is_c(q): return p if p == q else (c if p else Not(c))
                if is_c(p): return Or(c, q) if p else And(Not(c), q)
                return Or(Not(c), p) if q else And(c, p)
    return None
def Lt(a, b, depth=0):
    if is_c(a) and is_c(b): return a < b
    d = simp(zi(a) - zi(b))
    if is_c(d): return d < 0
    lo, hi = rng(d)
    if hi is not None and hi < 0: return True
    if lo is not None and lo >= 0: return False
    r = _lift(Lt, a, b, depth)
    return zi(a) < zi(b) if r is None else r
def Le(a, b, depth=0):
    if is_c(a) and is_c(b): return a <= b
    d = simp(zi(a) - zi(b))
    if is_c(d): return d <= 0
    lo, hi = rng(d)
    if hi is not None and hi <= 0: return True
    if lo is not None and lo > 0: return False
    r = _lift(Le, a, b, depth)
    return zi(a) <= zi(b) if r is None else r
def Ge(a, b): return Le(b, a)
def Gt(a, b): return Lt(b, a)
def Ne(a, b): return Not(Eq(a, b))

class Ptr:
    """region id (None for a pure null), element index, constant byte offset inside the element, null condition"""
    __slots__ = ('r', 'i', 'o', 'n')
    def __init__(self, r, i=0, o=0, n=False): self.r = r; self.i = i; self.o = o; self.n = n
    def __repr__(self): return f"Ptr({self.r},{self.i},{self.o},null={self.n})"
NULL = Ptr(None, 0, 0, True)
class FnPtr:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __repr__(self): return f"&{self.name}"
class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()
class Agg(list): pass       # struct / array / vector value

_ctr = [0]
def fresh_name(p):
    _ctr[0] += 1
    return f"{p}!{_ctr[0]}"
BOUNDS = {}      # const name -> (lo,hi)
FBOUNDS = {}     # function name -> (lo,hi)
def fresh_int(p, lo=None, hi=None):
    n = fresh_name(p); BOUNDS[n] = (lo, hi); return z3.Int(n)
def fresh_bool(p): return z3.Bool(fresh_name(p))
def fresh_fn(p, sort=I, lo=None, hi=None):
    n = fresh_name(p); FBOUNDS[n] = (lo, hi)
    return z3.Function(n, I, sort)

def rng(e, depth=0):
    """cheap interval of an integer term: (lo,hi), None = unbounded"""
    if isinstance(e, int): return (e, e)
    if z3.is_int_value(e): v = e.as_long(); return (v, v)
    if depth > 12: return (None, None)
    k = e.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED:
        n = e.decl().name()
        return (BOUNDS.get(n) if e.num_args() == 0 else FBOUNDS.get(n)) or (None, None)
    ch = e.children()
    if k == z3.Z3_OP_ADD:
        lo = hi = 0
        for c in ch:
            l, h = rng(c, depth + 1)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
        return (lo, hi)
    if k == z3.Z3_OP_SUB:
        l, h = rng(ch[0], depth + 1)
        for c in ch[1:]:
            l2, h2 = rng(c, depth + 1)
            l = None if l is None or h2 is None else l - h2
            h = None if h is None or l2 is None else h - l2
        return (l, h)
    if k == z3.Z3_OP_MUL and len(ch) == 2:
        a, b = rng(ch[0], depth + 1), rng(ch[1], depth + 1)
        if None in a or None in b: return (None, None)
        ps = [x * y for x in a for y in b]; return (min(ps), max(ps))
    if k == z3.Z3_OP_ITE:
        a, b = rng(ch[1], depth + 1), rng(ch[2], depth + 1)
        return (None if None in (a[0], b[0]) else min(a[0], b[0]), None if None in (a[1], b[1]) else max(a[1], b[1]))
    if k == z3.Z3_OP_MOD and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
        return (0, ch[1].as_long() - 1)
    if k == z3.Z3_OP_IDIV and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
        l, h = rng(ch[0], depth + 1); d = ch[1].as_long()
        return (None if l is None else l // d, None if h is None else h // d)
    if k == z3.Z3_OP_UMINUS:
        l, h = rng(ch[0], depth + 1)
        return (None if h is None else -h, None if l is None else -l)
    return (None, None)

# ---- term inspection (memoised) ----
_apps = {}
def apps(e):
    """set of uninterpreted applications (with >=1 argument) inside e, as a frozenset of ExprRef keyed by id"""
    if not z3.is_expr(e): return {}
    k = e.get_id()
    r = _apps.get(k)
    if r is not None and r[0].eq(e): return r[1]
    out = {}
    st = [e]; seen = set()
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): continue
        c = _apps.get(i)
        if c is not None and c[0].eq(x): out.update(c[1]); continue
        if z3.is_app(x):
            if x.num_args():
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[i] = x
                st.extend(x.children())
    _apps[k] = (e, out)
    return out
_consts = {}
def consts(e):
    if not z3.is_expr(e): return {}
    k = e.get_id(); r = _consts.get(k)
    if r is not None and r[0].eq(e): return r[1]
    out = {}; st = [e]; seen = set()
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[i] = x
            else: st.extend(x.children())
    _consts[k] = (e, out); return out

def subst(e, pairs):
    if not z3.is_expr(e): return e
    ps = [(a, zi(b) if z3.is_int(a) else zb(b) if z3.is_bool(a) else b) for a, b in pairs]
    return simp(z3.substitute(e, *ps))

def leaves(t, lim=6):
    """the integer terms an if-then-else term can stand for"""
    out = {}; todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: todo += [x.arg(1), x.arg(2)]
        else:
            out[x.get_id()] = x
            if len(out) > lim: return [t]
    return list(out.values())

class QFact:
    """forall vars. body, instantiated by matching: each variable has triggers (decl name, arg position, coef, base):
       an application f(u) in the query instantiates var := coef*(u-base)."""
    __slots__ = ('vars', 'body', 'trig', 'name', 'seeds')
    def __init__(self, vars, body, trig, name='', seeds=None):
        self.vars = vars; self.body = zb(body); self.trig = trig; self.name = name
        self.seeds = seeds or [[] for _ in vars]    # always-instantiated terms per variable
    def __repr__(self): return f"QFact({self.name})"

def forall(mk, *decls, name='', seeds=None):
    """one-variable quantified fact; decls: unary uninterpreted functions used as triggers f(k)"""
    k = z3.Int(fresh_name('q'))
    return QFact([k], mk(k), [[(d.name(), 0, 1, z3.IntVal(0)) for d in decls]], name, seeds)
def forall2(mk, decls1, decls2, name='', seeds=None):
    a, b = z3.Int(fresh_name('q')), z3.Int(fresh_name('q'))
    return QFact([a, b], mk(a, b), [[(d.name(), 0, 1, z3.IntVal(0)) for d in decls1], [(d.name(), 0, 1, z3.IntVal(0)) for d in decls2]], name, seeds)

class Prover:
    def __init__(self, timeout=10000):
        self.timeout = timeout
        self.nq = 0; self.time = 0.0
        self.by = {'z3': 0, 'cvc5': 0, 'simplifier': 0}
        self.rounds = 3; self.maxinst = 4000
        self.cache = {}

    def instantiate(self, asserts, qfacts, rounds=None):
        """ground instances of the quantified facts relevant for the given assertions"""
        out = []
        if not qfacts: return out
        done = set(); idx = {}     # decl name -> {argid: arg}
        seenapp = set()
        def absorb(e):
            for i, a in apps(e).items():
                if i in seenapp: continue
                seenapp.add(i)
                for p in range(a.num_args()):
                    t = a.arg(p)
                    if z3.is_int(t):
                        for l in leaves(t): idx.setdefault((a.decl().name(), p), {})[l.get_id()] = l
        for e in asserts: absorb(e)
        for r in range(rounds or self.rounds):
            new = []
            for qi, q in enumerate(qfacts):
                cands = []
                for vi, var in enumerate(q.vars):
                    c = {}
                    for s in q.seeds[vi]:
                        s = zi(s); c[s.get_id()] = s
                    for (dn, p, coef, base) in q.trig[vi]:
                        for t in list(idx.get((dn, p), {}).values()):
                            u = simp(coef * (t - base)); u = zi(u)
                            c[u.get_id()] = u
                    cands.append(list(c.values()))
                combos = [()]
                for c in cands: combos = [x + (y,) for x in combos for y in c]
                for cb in combos:
                    key = (qi,) + tuple(t.get_id() for t in cb)
                    if key in done: continue
                    done.add(key)
                    inst = z3.substitute(q.body, *[(v, t) for v, t in zip(q.vars, cb)])
                    new.append(inst)
                    if len(done) > self.maxinst: break
            if not new: break
            for e in new: absorb(e)
            out += new
            if len(out) > self.maxinst: break
        return out

    def side(self, asserts):
        """range facts for every bounded symbol and application in the query"""
        out = []; seen = set()
        for e in asserts:
            for i, a in apps(e).items():
                if i in seen: continue
                seen.add(i)
                b = FBOUNDS.get(a.decl().name())
                if b:
                    if b[0] is not None: out.append(a >= b[0])
                    if b[1] is not None: out.append(a <= b[1])
            for i, c in consts(e).items():
                if i in seen: continue
                seen.add(i)
                b = BOUNDS.get(c.decl().name())
                if b:
                    if b[0] is not None: out.append(c >= b[0])
                    if b[1] is not None: out.append(c <= b[1])
        return out

    def check(self, asserts, qfacts=(), timeout=None, rounds=None):
        """returns ('unsat'|'sat'|'unknown', model)"""
        t0 = time.time()
        asserts = [zb(a) for a in asserts]
        if any(z3.is_false(a) for a in asserts): self.by['simplifier'] += 1; return 'unsat', None
        asserts = [a for a in asserts if not z3.is_true(a)]
        inst = self.instantiate(asserts, list(qfacts), rounds)
        allf = asserts + inst
        key = None
        allf = allf + self.side(allf)
        s = z3.Solver(); s.set('timeout', timeout or self.timeout)
        s.add(allf)
        self.nq += 1
        r = s.check()
        self.time += time.time() - t0
        if r == z3.unsat: self.by['z3'] += 1; return 'unsat', None
        if r == z3.sat: return 'sat', s.model()
        r2 = self.cvc5(s)
        if r2 == 'unsat': self.by['cvc5'] += 1; return 'unsat', None
        return 'unknown', None

    def cvc5(self, s):
        """second back end for queries z3 gives up on"""
        import subprocess
        t0 = time.time()
        try:
            txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
            p = subprocess.run(["cvc5", "--tlimit=8000", "--lang=smt2"], input=txt, capture_output=True, text=True, timeout=12)
            o = p.stdout.strip().split('\n')[0] if p.stdout else ''
        except Exception: o = ''
        self.time += time.time() - t0
        return o if o in ('sat', 'unsat') else 'unknown'
