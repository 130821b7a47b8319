"""C16: String and String_View operations. View: a byte sequence; results and effects are given byte by byte."""
from strc import *
SRC = 'str.cpp'
def run(h, fn, args, st): setup(h); return h.must_return(h.run(st, fn, args))
def c_default(h):
    st = h.state(); r = newstr(h, st)
    for s, _ in run(h, 'str_default', [Ptr(r)], st): check(h, s, r, 0, lambda k: 0, 'empty string', cap=0)
def c_ctor(h):
    st = h.state(); r = newstr(h, st); n = h.int('n', hi=MAXCAP)
    for s, _ in run(h, 'str_ctor', [Ptr(r), n], st): check(h, s, r, 0, lambda k: 0, 'string with room', cap=n)
def c_dtor(h):
    st = h.state(); v = Str(h, st)
    for s, _ in run(h, 'str_dtor', [v.p()], st): h.heap_owned(s, [])
def c_move(h):
    st = h.state(); v = Str(h, st); r = newstr(h, st)
    for s, _ in run(h, 'str_move', [Ptr(r), v.p()], st):
        check(h, s, r, v.len, v.val, 'move target', cap=v.cap); check(h, s, v.obj, 0, None, 'move source', cap=0, leak=False)
        h.prove(s, 'move source refers to nothing', strof(h, s, v.obj)[0].r is None or strof(h, s, v.obj)[0].n)
def c_assign(h):
    st = h.state(); v = Str(h, st); t = Str(h, st, 't')
    for s, _ in run(h, 'str_assign', [t.p(), v.p()], st):
        check(h, s, t.obj, v.len, v.val, 'assignment target', cap=v.cap); check(h, s, v.obj, 0, None, 'assignment source', cap=0, leak=False)
def c_clone(h, fn):
    st = h.state(); v = Str(h, st, ro=True); r = newstr(h, st)
    for s, _ in run(h, fn, [Ptr(r), v.p()], st):
        d = check(h, s, r, v.len, v.val, 'clone', cap=v.cap, owned=[v.data]); h.prove(s, 'clone has storage of its own', d is None or d.r != v.data); same(h, s, v, 'clone')
def c_set_length(h):
    st = h.state(); v = Str(h, st); n = h.int('n'); st.assume(n <= v.cap); h.ro(st, v.data)
    for s, _ in run(h, 'str_set_length', [v.p(), n], st):
        h.prove(s, 'length', Eq(h.get(s, v.obj, v.ol), n)); h.prove(s, 'capacity kept', Eq(h.get(s, v.obj, v.oc), v.cap)); h.prove(s, 'storage kept', veq(h.get(s, v.obj, v.od, k='p'), v.first))
def c_set_length_bad(h):
    st = h.state(); v = Str(h, st); n = h.int('n'); st.assume(n > v.cap); setup(h)
    h.never_returns(h.run(st, 'str_set_length', [v.p(), n]))
def c_at(h, fn):
    st = h.state(); v = mk(h, st, 'S' if fn[0] == 's' else 'V', 's', ro=True); i = h.int('i'); st.assume(i < v.len)
    for s, r in run(h, fn, [v.p(), i], st): h.prove(s, 'refers to byte i', r.r == v.data and Eq(r.i, simp(zi(v.first.i) + i)) and r.o == 0)
def c_at_bad(h, fn):
    st = h.state(); v = mk(h, st, 'S' if fn[0] == 's' else 'V', 's', ro=True); i = h.int('i'); st.assume(i >= v.len); setup(h)
    h.never_returns(h.run(st, fn, [v.p(), i]))
def c_view(h):
    st = h.state(); v = Str(h, st, ro=True); r = newview(h, st)
    for s, _ in run(h, 'str_view', [Ptr(r), v.p()], st): isview(h, s, r, v.first, 0, v.len, 'view')
def c_sub(h, fn):
    st = h.state(); v = mk(h, st, 'S' if fn[0] == 's' else 'V', 's', ro=True); a, b = h.int('a'), h.int('b'); st.assume(And(a <= b, b <= v.len)); r = newview(h, st)
    for s, _ in run(h, fn, [Ptr(r), v.p(), a, b], st): isview(h, s, r, v.first, a, simp(b - a), 'slice')
def c_sub_bad(h, fn):
    st = h.state(); v = mk(h, st, 'S' if fn[0] == 's' else 'V', 's', ro=True); a, b = h.int('a'), h.int('b'); st.assume(Or(a > b, b > v.len)); r = newview(h, st); setup(h)
    h.never_returns(h.run(st, fn, [Ptr(r), v.p(), a, b]))
def c_write_char(h):
    st = h.state(); v = Str(h, st); i = h.int('i'); c = h.int('c', w=8); st.assume(i < v.len)
    for s, r in run(h, 'str_write_char', [v.p(), i, c], st):
        h.prove(s, 'returns the next position', Eq(r, i + 1)); check(h, s, v.obj, v.len, lambda k: Ite(Eq(k, i), c, v.val(zi(k))), 'written', cap=v.cap)
def c_write_char_bad(h):
    st = h.state(); v = Str(h, st); i = h.int('i'); st.assume(i >= v.len); setup(h)
    h.never_returns(h.run(st, 'str_write_char', [v.p(), i, h.int('c', w=8)]))
def c_write(h, kind):
    st = h.state(); v = Str(h, st); t = mk(h, st, kind, 't', ro=True); i = h.int('i'); st.assume(i + t.len <= v.len)
    for s, r in run(h, 'str_write_' + ('str' if kind == 'S' else 'view'), [v.p(), i, t.p()], st):
        h.prove(s, 'returns the position behind the text', Eq(r, i + t.len))
        check(h, s, v.obj, v.len, lambda k: Ite(And(Le(i, k), Lt(k, i + t.len)), t.val(zi(simp(zi(k) - i))), v.val(zi(k))), 'written', cap=v.cap, owned=[t.data]); same(h, s, t, 'write')
def c_write_bad(h, kind):
    st = h.state(); v = Str(h, st); t = mk(h, st, kind, 't', ro=True); i = h.int('i'); st.assume(i + t.len > v.len); setup(h)
    h.never_returns(h.run(st, 'str_write_' + ('str' if kind == 'S' else 'view'), [v.p(), i, t.p()]))
def c_acc(h, fn):
    st = h.state(); v = mk(h, st, 'S' if fn[0] == 's' else 'V', 's', ro=True)
    for s, r in run(h, fn, [v.p()], st):
        if '_end' in fn: h.prove(s, 'one past the last byte', Or(And(v.null, Eq(v.len, 0)), r.r == v.data and Eq(r.i, simp(zi(v.first.i) + v.len))))
        elif '_begin' in fn or '_data' in fn: h.prove(s, 'first byte', veq(r, v.first))
        elif 'length' in fn: h.prove(s, 'length', Eq(r, v.len))
        elif 'cap' in fn: h.prove(s, 'capacity', Eq(r, v.cap))
        else: h.prove(s, 'empty exactly when the length is 0', truth(h, s, r) == zb(Eq(v.len, 0)))
def c_terminate(h, fn):
    st = h.state(); v = mk(h, st, 'S' if fn[0] == 's' else 'V', 's', ro=True); r = newstr(h, st)
    for s, _ in run(h, fn, [Ptr(r), v.p()], st):
        check(h, s, r, simp(v.len + 1), lambda k: Ite(Lt(k, v.len), v.val(zi(k)), 0), 'terminated', owned=[v.data]); same(h, s, v, 'terminate')
def c_append(h, fn):
    k_ = 'S' if fn[0] == 's' else 'V'
    st = h.state(); v = mk(h, st, k_, 's', ro=True); t = mk(h, st, k_, 't', ro=True); r = newstr(h, st)
    for s, _ in run(h, fn, [Ptr(r), v.p(), t.p()], st):
        check(h, s, r, simp(v.len + t.len), lambda k: Ite(Lt(k, v.len), v.val(zi(k)), t.val(zi(simp(zi(k) - v.len)))), 'joined', owned=[v.data, t.data]); same(h, s, v, 'append'); same(h, s, t, 'append')
def c_append_self(h, fn):
    st = h.state(); v = mk(h, st, 'S' if fn[0] == 's' else 'V', 's', ro=True); r = newstr(h, st)
    for s, _ in run(h, fn, [Ptr(r), v.p(), v.p()], st):
        check(h, s, r, simp(2 * v.len), lambda k: Ite(Lt(k, v.len), v.val(zi(k)), v.val(zi(simp(zi(k) - v.len)))), 'joined with itself', owned=[v.data])
def c_string(h):
    st = h.state(); v = View(h, st); r = newstr(h, st)
    for s, _ in run(h, 'view_string', [Ptr(r), v.p()], st): check(h, s, r, v.len, v.val, 'copy of the bytes', owned=[v.data]); same(h, s, v, 'copy')
def c_vdefault(h):
    st = h.state(); r = newview(h, st)
    for s, _ in run(h, 'view_default', [Ptr(r)], st): h.prove(s, 'empty view', Eq(viewof(h, s, r)[1], 0))
def c_vctor(h, fn):
    st = h.state(); v = View(h, st); r = newview(h, st)
    for s, _ in run(h, fn, [Ptr(r), v.first, v.len], st): isview(h, s, r, v.first, 0, v.len, 'view of given bytes')
def c_cstr(h):
    st = h.state(); n = h.int('n', hi=MAXCAP); b = h.areg(st, 'text', 1, simp(n + 1), ro=True); f = h.elems(st, b, w=1, name='c'); r = newview(h, st); st.ghost['cstr'] = {b: n}
    for s, _ in run(h, 'view_cstr', [Ptr(r), Ptr(b, 0)], st): isview(h, s, r, Ptr(b, 0, 0), 0, n, 'view of a terminated string')
def c_literal(h):
    """the bytes of a literal before its first zero byte (all of them when there is none)"""
    st = h.state(); N = h.size('literal'); b = h.areg(st, 'literal', 1, N, ro=True); f = h.elems(st, b, w=1, name='c'); r = newview(h, st)
    for s, _ in run(h, 'view_literal', [Ptr(r), Ptr(b, 0)], st):
        d, l = viewof(h, s, r)
        h.prove(s, 'literal: starts at its first byte', d.r == b and Eq(d.i, 0)); h.prove(s, 'literal: within', Le(l, N))
        h.forall(s, 'literal: no zero byte inside', lambda k: Implies(And(Le(0, k), Lt(k, l)), Ne(f(zi(k)), 0)))
        h.prove(s, 'literal: ends at a zero byte or at its end', Or(Eq(l, N), Eq(f(zi(l)), 0)))
def c_vcopy(h, fn):
    st = h.state(); v = View(h, st); r = View(h, st, 'r', ro=False).obj if fn == 'view_assign' else newview(h, st)
    for s, _ in run(h, fn, [Ptr(r), v.p()], st): isview(h, s, r, v.first, 0, v.len, 'copied view')
def c_concat(h, kinds):
    st = h.state(); sep = View(h, st, 'sep'); vs = [mk(h, st, k, f'a{i}', ro=True) for i, k in enumerate(kinds)]; r = newstr(h, st)
    parts = []
    for i, v in enumerate(vs):
        if i: parts.append(sep)
        parts.append(v)
    tot = 0
    starts = []
    for p in parts: starts.append(tot); tot = simp(zi(tot) + p.len)
    def at(k):
        e = z3.IntVal(0)
        for p, o in reversed(list(zip(parts, starts))): e = Ite(And(Le(o, k), Lt(k, simp(zi(o) + p.len))), p.val(zi(simp(zi(k) - zi(o)))), e)
        return e
    for s, _ in run(h, f'concat{len(kinds)}', [Ptr(r), sep.p()] + [v.p() for v in vs], st):
        check(h, s, r, tot, at, 'joined with separators', owned=[v.data for v in vs if v.kind == 'S'])
        for v in vs + [sep]: same(h, s, v, 'concat')
ACC = ['str_begin', 'str_end', 'str_begin_mut', 'str_end_mut', 'str_data', 'str_data_mut', 'str_length', 'str_cap', 'str_empty', 'view_begin', 'view_end', 'view_data', 'view_length', 'view_empty']
CONTRACTS = [('default', c_default), ('ctor', c_ctor), ('dtor', c_dtor), ('move', c_move), ('assign', c_assign), ('clone', c_clone, 'str_clone'), ('clone', c_clone, 'str_clone_other'),
    ('set_length', c_set_length), ('set_length_bad', c_set_length_bad), ('write_char', c_write_char), ('write_char_bad', c_write_char_bad), ('view', c_view), ('string', c_string), ('view_default', c_vdefault),
    ('view_cstr', c_cstr), ('view_literal', c_literal)]
CONTRACTS += [('at', c_at, f) for f in ('str_at', 'str_at_const', 'view_at')] + [('at_bad', c_at_bad, f) for f in ('str_at', 'str_at_const', 'view_at')]
CONTRACTS += [(n, f, p + '_sub') for n, f in (('sub', c_sub), ('sub_bad', c_sub_bad)) for p in ('str', 'view')]
CONTRACTS += [(n, f, k) for n, f in (('write', c_write), ('write_bad', c_write_bad)) for k in 'SV']
CONTRACTS += [('accessor', c_acc, f) for f in ACC] + [(n, f, p + '_' + n) for n, f in (('terminate', c_terminate), ('append', c_append)) for p in ('str', 'view')] + [('append_self', c_append_self, p + '_append') for p in ('str', 'view')]
CONTRACTS += [('view_ctor', c_vctor, f) for f in ('view_ctor', 'view_operator_v')] + [('view_copy', c_vcopy, f) for f in ('view_copy', 'view_assign', 'view_clone')]
CONTRACTS += [('concat', c_concat, k) for k in ('', 'V', 'SV', 'VSS')]
ASSUMPTIONS = ['strings are shorter than 2^40 bytes (sizes of results are not wrapped around)', 'the text written into a string does not overlap the place it is written to (memcpy)', 'a C string given to String_View is terminated', 'allocation returns fresh storage of the requested size']
