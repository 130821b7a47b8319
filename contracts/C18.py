"""C18: path helpers. The last separator (or dot) is given by its position; the two cases (there is one, there is none) are exhaustive."""
from strc import *
from C17 import qf
SRC = 'str.cpp'
SEP = (ord('/'), ord('\\')); DOT = SEP + (ord('.'),)
def isin(c, cs): return Or(*[Eq(c, x) for x in cs])
def given(h, cs, found):
    setup(h); st = h.state(); v = View(h, st, 's'); r = newview(h, st); d = None
    if found: d = h.int('d'); st.assume(And(d < v.len, isin(v.val(d), cs)))
    qf(st, lambda k: Implies(And(Lt(d, k) if found else Le(0, k), Lt(k, v.len)), Not(isin(v.val(k), cs))), None, 'no-separator')
    return st, v, r, d
def c_path(h, fn, cs, found):
    st, v, r, d = given(h, cs, found)
    for s, _ in h.must_return(h.run(st, fn, [Ptr(r), v.p()])):
        if fn == 'path_dir': isview(h, s, r, v.first, 0, simp(d + 1) if found else 0, 'directory part'); l = viewof(h, s, r)[1]
        else: isview(h, s, r, v.first, simp(d + 1) if found else 0, simp(v.len - d - 1) if found else v.len, 'what follows the last separator')
        same(h, s, v, 'path')
def c_join(h):
    """directory part and file part are adjacent and cover the path"""
    setup(h); st = h.state(); v = View(h, st, 's'); r1 = newview(h, st, 'dir'); r2 = newview(h, st, 'file')
    for s, _ in h.must_return(h.run(st, 'path_dir', [Ptr(r1), v.p()])):
        for t, _ in h.must_return(h.run(s, 'path_file', [Ptr(r2), v.p()])):
            (d1, l1), (d2, l2) = viewof(h, t, r1), viewof(h, t, r2)
            h.prove(t, 'the parts are as long as the path', Eq(l1 + l2, v.len))
            h.prove(t, 'the directory part starts the path', Or(Eq(l1, 0), d1.r == v.data and Eq(d1.i, v.first.i)))
            h.prove(t, 'the file part follows it', Or(Eq(l2, 0), d2.r == v.data and Eq(d2.i, simp(zi(v.first.i) + l1))))
CONTRACTS = [('path', c_path, f, cs, found) for f, cs in (('path_file', SEP), ('path_dir', SEP), ('path_ext', DOT)) for found in (True, False)] + [('join', c_join)]
CONTRACTS = [(n + ('.found' if len(a) > 2 and a[2] else ''), f, *a) for n, f, *a in CONTRACTS]
ASSUMPTIONS = ['paths are shorter than 2^40 bytes']
