"""Exact rational functions over named real atoms: the meaning given to float arithmetic in 'real' mode.
An atom is a variable, a square root (with its radicand), or a sine/cosine of an angle."""
from fractions import Fraction as Fr
import z3

class Dom:
    """atom table of one contract run"""
    def __init__(self):
        self.atoms = []          # name, kind, arg
        self.byname = {}
        self.z = []              # z3 constants
        self.side = []           # z3 facts about atoms
        self.dens = []           # denominators met (R polys), for the nonzero obligations
        self.trig = []           # (arg R, sin R, cos R)
    def atom(self, name, kind='var', arg=None):
        if name in self.byname: return self.byname[name]
        i = len(self.atoms); self.atoms.append((name, kind, arg)); self.byname[name] = i; self.z.append(z3.Real(name))
        return i
    def var(self, name): return R(self, {((self.atom(name), 1),): Fr(1)})
    def const(self, c): return R(self, {(): Fr(c)} if c else {})
    def sqrt(self, a):
        a = a.reduce()
        if not a.num: return self.const(0)
        if a.is_const():
            c = a.cval()
            if c >= 0:
                import math
                n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator: return self.const(Fr(n, d))
        for i, (nm, k, g) in enumerate(self.atoms):
            if k == 'sqrt' and g.same(a): return R(self, {((i, 1),): Fr(1)})
        i = self.atom(f's{len(self.atoms)}', 'sqrt', a)
        az = a.z3()
        self.side.append(z3.Implies(az >= 0, z3.And(self.z[i] >= 0, self.z[i] * self.z[i] == az)))
        return R(self, {((i, 1),): Fr(1)})
    def sincos(self, a):
        a = a.reduce()
        if not a.num: return self.const(0), self.const(1)
        for (b, s, c) in self.trig:
            if b.same(a): return s, c
            if b.same(-a): return -s, c
        for (b, s, c) in self.trig:
            if (b + b).same(a): return (s * c * 2).reduce(), (c * c * 2 - 1).reduce()
            if (b + b).same(-a): return -(s * c * 2).reduce(), (c * c * 2 - 1).reduce()
        n = len(self.trig)
        i = self.atom(f'cos{n}', 'cos', n); j = self.atom(f'sin{n}', 'sin', (n, i))
        c = R(self, {((i, 1),): Fr(1)}); s = R(self, {((j, 1),): Fr(1)})
        self.side.append(self.z[i] * self.z[i] + self.z[j] * self.z[j] == 1)
        self.trig.append((a, s, c))
        return s, c
    def atan2(self, y, x):
        """the angle of the point (x, y): its sine is y/h and its cosine x/h for h = sqrt(x^2 + y^2), when h is not zero"""
        y, x = y.reduce(), x.reduce()
        for i, (nm, k, g) in enumerate(self.atoms):
            if k == 'fn:atan2' and g[0].same(y) and g[1].same(x): return R(self, {((i, 1),): Fr(1)})
        h = self.sqrt((x * x + y * y).reduce())
        a = self.fn('atan2', y, x)
        if not (h.is_const() and not h.num): self.trig.append((a, (y / h).reduce(), (x / h).reduce()))
        return a
    def nonzero_somewhere(self, r):
        """r evaluated at a fixed pseudo-random point is not zero: r is not the zero function of its atoms"""
        import mpmath, random
        mpmath.mp.dps = 60
        rnd = random.Random(12345); vals = {}
        def at(v):
            if v not in vals:
                nm, k, g = self.atoms[v]
                if k == 'sqrt': vals[v] = mpmath.sqrt(ev(g))
                elif k == 'def': vals[v] = ev(g)
                elif k == 'cos': vals[v] = mpmath.cos(arg(g))
                elif k == 'sin': vals[v] = mpmath.sin(arg(g[0]))
                else: vals[v] = mpmath.mpf(random.Random(nm + 'x').randint(10**6, 9 * 10**6)) / 10**6
            return vals[v]
        def arg(n): return ev(self.trig[n][0])
        def poly(p):
            t = mpmath.mpf(0); sc = mpmath.mpf(0)
            for m, c in p.items():
                x = mpmath.mpf(c.numerator) / c.denominator
                for v, e in m: x = x * at(v) ** e
                t += x; sc += abs(x)
            return t, sc
        def ev(r):
            n, _ = poly(r.num)
            return n if r.den is ONE else n / poly(r.den)[0]
        try:
            n, sc = poly(r.num)
            return sc != 0 and abs(n) > sc * mpmath.mpf(10) ** -30
        except ZeroDivisionError: return False
    def define(self, name, r):
        """an opaque atom that stands for the value r: path conditions see the atom, identities see the value"""
        i = self.atom(name, 'def', r); self.defs = True
        return R(self, {((i, 1),): Fr(1)})
    defs = False
    def expand(self, r):
        """r with every defined atom replaced by its value, inside roots and angles too"""
        memo = {}
        def at(v):
            if v not in memo:
                nm, k, g = self.atoms[v]; x = R(self, {((v, 1),): Fr(1)})
                if k == 'def': x = self.expand(g)
                elif k == 'sqrt':
                    e = self.expand(g)
                    if not e.same(g): x = self.sqrt(e)
                memo[v] = x
            return memo[v]
        def poly(p):
            t = self.const(0)
            for m, c in p.items():
                x = self.const(c)
                for v, e in m:
                    for _ in range(e): x = x * at(v)
                t = t + x
                if t.den is not ONE: t = t.reduce()
            return t
        n = poly(r.num)
        return n.reduce() if r.den is ONE else (n / poly(r.den)).reduce()
    def fn(self, name, *args):
        """an uninterpreted function of its (canonical) arguments"""
        args = [a.reduce() for a in args]
        for i, (nm, k, g) in enumerate(self.atoms):
            if k == 'fn:' + name and all(x.same(y) for x, y in zip(g, args)): return R(self, {((i, 1),): Fr(1)})
        i = self.atom(f'{name}{len(self.atoms)}', 'fn:' + name, tuple(args))
        return R(self, {((i, 1),): Fr(1)})

def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for v, e in n: d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))
def pmul(a, b):
    if len(a) > len(b): a, b = b, a
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n); v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r
ONE = {(): Fr(1)}

class R:
    __slots__ = ('d', 'num', 'den')
    def __init__(self, d, num, den=None):
        self.d = d; self.num = num; self.den = den or ONE
        if self.den is not ONE and len(self.den) == 1 and () in self.den:
            c = self.den[()]; self.num = {m: v / c for m, v in num.items()}; self.den = ONE
    def _l(self, o): return o if isinstance(o, R) else self.d.const(o)
    def __neg__(self): return R(self.d, {m: -c for m, c in self.num.items()}, self.den)
    def __add__(self, o, s=1):
        o = self._l(o)
        if not self.num and s == 1: return o
        if not o.num: return self
        if self.den == o.den: return R(self.d, padd(self.num, o.num, s), self.den)
        if o.den == ONE: return R(self.d, padd(self.num, pmul(o.num, self.den), s), self.den)
        if self.den == ONE: return R(self.d, padd(pmul(self.num, o.den), o.num, s), o.den)
        return R(self.d, padd(pmul(self.num, o.den), pmul(o.num, self.den), s), pmul(self.den, o.den))
    __radd__ = __add__
    def __sub__(self, o): return self.__add__(o, -1)
    def __rsub__(self, o): return self._l(o) - self
    def __mul__(self, o):
        o = self._l(o)
        if not self.num or not o.num: return self.d.const(0)
        if self.den is ONE and o.den is ONE: return R(self.d, pmul(self.num, o.num))
        n1, d1, n2, d2 = self.num, self.den, o.num, o.den
        if n1 == d2: return R(self.d, n2, d1)
        if n2 == d1: return R(self.d, n1, d2)
        return R(self.d, pmul(n1, n2), pmul(d1, d2))
    __rmul__ = __mul__
    def __truediv__(self, o):
        o = self._l(o)
        self.d.dens.append(o)
        if not o.num: return R(self.d, {((self.d.atom(f'undef{len(self.d.atoms)}'), 1),): Fr(1)})
        if not self.num: return self
        inv = R(self.d, o.den, o.num) if o.den is not ONE or True else None
        return self * inv
    def __rtruediv__(self, o): return self._l(o) / self
    def is_const(self): return self.den is ONE and all(m == () for m in self.num)
    def cval(self): return self.num.get((), Fr(0))
    def same(self, o):
        return (self - self._l(o)).iszero()
    def iszero(self):
        n = self.num
        if not n: return True
        return not reduce_poly(self.d, n)
    def reduce(self):
        n = reduce_num(self.d, self.num); m = reduce_num(self.d, self.den) if self.den is not ONE else None
        r = n
        if m is not None:
            if not m.num: return self
            if m.is_const(): r = R(self.d, {k: v / m.cval() for k, v in n.num.items()}, n.den)
            elif n.den is ONE and m.den is ONE:
                q = propor(n.num, m.num)
                r = self.d.const(q) if q is not None else R(self.d, n.num, m.num)
            else:
                nn, dd = pmul(n.num, m.den), pmul(n.den, m.num)
                q = propor(nn, dd)
                r = self.d.const(q) if q is not None else R(self.d, nn, dd)
        elif n.den is not ONE:
            q = propor(n.num, n.den)
            if q is not None: r = self.d.const(q)
        return r
    def z3(self):
        n = pz(self.d, self.num)
        return n if self.den is ONE else n / pz(self.d, self.den)
    def __repr__(self): return f'{pstr(self.d, self.num)}' + ('' if self.den is ONE else f' / ({pstr(self.d, self.den)})')

def propor(a, b):
    """c with a = c*b, or None"""
    if not a: return Fr(0)
    if set(a) != set(b): return None
    c = None
    for m in a:
        q = a[m] / b[m]
        if c is None: c = q
        elif c != q: return None
    return c
def pstr(d, p):
    if not p: return '0'
    out = []
    for m, c in sorted(p.items())[:12]:
        out.append(('%s' % c if c != 1 or not m else '') + ''.join(d.atoms[v][0] + ('^%d' % e if e > 1 else '') + ' ' for v, e in m))
    return ' + '.join(out) + (' + ...' if len(p) > 12 else '')
def pz(d, p):
    t = []
    for m, c in p.items():
        f = [z3.RealVal(c)] if c != 1 or not m else []
        for v, e in m: f += [d.z[v]] * e
        x = f[0]
        for y in f[1:]: x = x * y
        t.append(x)
    if not t: return z3.RealVal(0)
    return z3.Sum(t) if len(t) > 1 else t[0]
def reduce_num(d, p):
    """p with even powers of roots and sines eliminated, as a rational function"""
    pick = None
    for m in p:
        for v, e in m:
            if e >= 2 and d.atoms[v][1] in ('sqrt', 'sin') and (pick is None or v > pick): pick = v
    if pick is None: return R(d, p)
    nm, k, g = d.atoms[pick]
    if k == 'sqrt': sq = g
    else: sq = 1 - R(d, {((g[1], 2),): Fr(1)})
    groups = {}
    for m, c in p.items():
        e = dict(m).get(pick, 0); rest = tuple((v, x) for v, x in m if v != pick)
        h, o = divmod(e, 2)
        key = (rest + ((pick, 1),)) if o else rest
        key = tuple(sorted(key))
        groups.setdefault(h, {}); groups[h][key] = groups[h].get(key, 0) + c
    tot = d.const(0)
    pw = {0: d.const(1)}
    for h in range(1, max(groups) + 1): pw[h] = pw[h - 1] * sq
    for h, q in groups.items(): tot = tot + R(d, q) * pw[h]
    r = reduce_num(d, tot.num)
    if tot.den is ONE: return r
    return R(d, r.num, pmul(r.den, tot.den))
def reduce_poly(d, p): return reduce_num(d, p).num
