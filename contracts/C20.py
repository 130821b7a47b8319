"""C20: the text parsers. Positions: w = end of the leading whitespace, e = end of the word; they exist and are unique for every text."""
from strc import *
from C17 import qf
SRC = 'str.cpp'
WS = tuple(b' \t\n\r\v')
def ws(c): return Or(*[Eq(c, x) for x in WS])
def is_ws(ex, st, ins, a, n):
    """callee contract of is_whitespace (proved by c_space)"""
    return ('val', zb(ws(ex.norm(st, a[0], 8))))
def text(h):
    setup(h); h.ex.add_contract(r'_ZN3rpp5ascii13is_whitespaceEh$', is_ws); st = h.state(); v = View(h, st, 's'); w = h.int('w', hi=MAXCAP); e = h.int('e', hi=MAXCAP)
    st.assume(And(w <= v.len, w <= e, e <= v.len, Or(Eq(w, v.len), Not(ws(v.val(w)))), Or(Eq(e, v.len), ws(v.val(e)))))
    qf(st, lambda k: Implies(And(Le(0, k), Lt(k, w)), ws(v.val(k))), None, 'leading-whitespace')
    qf(st, lambda k: Implies(And(Le(w, k), Lt(k, e)), Not(ws(v.val(k)))), None, 'word')
    return st, v, w, e
def c_space(h):
    """the whitespace characters, and the case mapping, of every byte"""
    setup(h); st = h.state(); c = h.int('c', w=8)
    for s, r in h.must_return(h.run(st, 'ascii_space', [c])): h.prove(s, 'whitespace', truth(h, s, r) == zb(ws(c)))
    for fn, lo, hi, d in (('ascii_upper', 97, 122, -32), ('ascii_lower', 65, 90, 32)):
        st = h.state(); c = h.int('c', w=8)
        for s, r in h.must_return(h.run(st, fn, [c])): h.prove(s, 'case mapping', Eq(h.ex.norm(s, r, 8), Ite(And(Le(lo, c), Le(c, hi)), simp(c + d), c)))
def c_skip(h):
    st, v, w, e = text(h); r = newview(h, st)
    for s, _ in h.must_return(h.run(st, 'parse_skip', [Ptr(r), v.p()])): isview(h, s, r, v.first, w, simp(v.len - w), 'text without its leading whitespace'); same(h, s, v, 'skip')
def flag(h, s, obj, p): return Ne(h.ex.norm(s, h.get(s, obj, h.off(p + '_ok'), w=1), 8), 0)
def c_word(h, some):
    st, v, w, e = text(h); r = h.sreg(st, 'r', h.size('ov')); st.assume(w < v.len if some else Eq(w, v.len))
    for s, _ in h.must_return(h.run(st, 'parse_word', [Ptr(r), v.p()])):
        h.prove(s, 'a word is returned exactly when there is one', zb(flag(h, s, r, 'ov')) == zb(some))
        if some and h.ex.valid(s, flag(h, s, r, 'ov')):
            b = h.off('ov_value')
            isview(h, s, r, v.first, w, simp(e - w), 'the word', o=b + h.off('pv_first'))
            isview(h, s, r, v.first, Ite(Lt(e, v.len), simp(e + 1), e), Ite(Lt(e, v.len), simp(v.len - e - 1), 0), 'the text after the word and its delimiter', o=b + h.off('pv_second'))
        same(h, s, v, 'word')
def c_number(h, fn, p, pp, w):
    setup(h); st = h.state(); v = View(h, st, 's'); r = h.sreg(st, 'r', h.size(p)); used = h.int('used', hi=MAXCAP); st.assume(used <= v.len)
    if w == 8: val = h.int('value')
    else: val = h.ex.fresh_fp(st, 'value') if hasattr(h.ex, 'fresh_fp') else z3.Real('value')
    st.ghost['number'] = (v.val, v.len, val, used)
    for s, _ in h.must_return(h.run(st, fn, [Ptr(r), v.p()])):
        some = simp_gt(used)
        h.prove(s, 'a number is returned exactly when one was read', zb(flag(h, s, r, p)) == zb(some))
        t = s.copy(); t.assume(some)
        if h.ex.feasible(t):
            b = h.off(p + '_value')
            got = h.get(t, r, b + h.off(pp + '_first'), w=w, k='i' if w == 8 else 'f')
            h.prove(t, 'the number read', Eq(h.ex.norm(t, got, 64), val) if w == 8 else got == val)
            isview(h, t, r, v.first, used, simp(v.len - used), 'the unread text', o=b + h.off(pp + '_second'))
        h.prove(s, 'the scratch region is closed', not s.ghost.get('regions'))
        h.heap_owned(s, [])
        same(h, s, v, 'number')
WORDS = {'alpha': 3, 'alphabet': 1, 'b': 200}
def c_enum(h, name):
    st, v, w, e = text(h); r = h.sreg(st, 'r', h.size('oe')); h.ex.init_globals = True
    is_ = lambda n: And(Eq(simp(e - w), len(n)), *[Eq(v.val(zi(simp(w + i))), ord(c)) for i, c in enumerate(n)])
    if name: st.assume(And(w < v.len, is_(name)))
    else: st.assume(Or(Eq(w, v.len), And(w < v.len, *[Not(is_(n)) for n in WORDS])))
    for s, _ in h.must_return(h.run(st, 'parse_word_enum', [Ptr(r), v.p()])):
        h.prove(s, 'an enumerator is returned exactly when the word is its name', zb(flag(h, s, r, 'oe')) == zb(bool(name)))
        if name and h.ex.valid(s, flag(h, s, r, 'oe')):
            b = h.off('oe_value')
            h.prove(s, 'the enumerator of that name', Eq(h.ex.norm(s, h.get(s, r, b + h.off('pe_first'), w=1), 8), WORDS[name]))
            isview(h, s, r, v.first, Ite(Lt(e, v.len), simp(e + 1), e), Ite(Lt(e, v.len), simp(v.len - e - 1), 0), 'the text after the name and its delimiter', o=b + h.off('pe_second'))
        same(h, s, v, 'enum')
def simp_gt(u): return Gt(u, 0)
CONTRACTS = [('classes', c_space), ('skip', c_skip), ('word', c_word, True), ('word.none', c_word, False), ('number', c_number, 'parse_int', 'oi', 'pi', 8), ('number', c_number, 'parse_float', 'of', 'pf', 4)]
CONTRACTS += [('enum', c_enum, n) for n in list(WORDS) + ['']]
ASSUMPTIONS = ['texts are shorter than 2^40 bytes', 'strtoll/strtof read no further than the first zero byte and report where the number ends; the value is theirs', 'Region_Allocator: returns storage that lives until the region ends (C14)']
