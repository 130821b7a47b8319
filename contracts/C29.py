"""C29: files. The kernel is a contract per system call over ghost state: one file (contents F, length), the position and the state
of the one descriptor a call may hold."""
from strc import *
import strc
SRC = 'files.cpp'
BIG = 1 << 62
class Kernel:
    POS, LEN, FD, OPEN, OPENED, CLOSED, BAD = 0, 8, 16, 24, 32, 40, 48
    def __init__(s, h, st):
        s.h = h; s.path = None
        s.k = h.sreg(st, 'kernel', 56); s.f = h.areg(st, 'file', 1, BIG); s.size = h.int('file.size', hi=(1 << 62)); s.val = h.elems(st, s.f, w=1, name='F')
        for o, v in ((s.POS, 0), (s.LEN, s.size), (s.FD, 0), (s.OPEN, 0), (s.OPENED, 0), (s.CLOSED, 0), (s.BAD, 0)): h.put(st, s.k, o, 8, v)
        for pat, f in ((r'^open(64)?$', s.open), (r'^lseek(64)?$', s.lseek), (r'^read$', s.read), (r'^write$', s.write), (r'^close$', s.close), (r'^fstat(64)?$', s.fstat), (r'^stat(64)?$', s.stat), (r'^ftruncate(64)?$', s.ftruncate),
                       (r'_ZN3rpp10MallocatorI.*5allocEm$', s.alloc), (r'_ZN3rpp10MallocatorI.*4freeEPv$', lambda ex, st, ins, a, n: vexec.va_free(ex, st, ins, a, n)),
                       (r'_ZN3rpp3Log9sys_errorEv$', s.sys_error), (r'_ZN3rpp3Log8Location4make', lambda ex, st, ins, a, n: None)): h.ex.add_contract(pat, f)
    def alloc(s, ex, st, ins, a, n):
        ex.oblig(st, 'precondition', Le(ex.norm(st, a[-1], 64), 1 << 32), 'storage is asked for a size a file can have'); return vexec.va_alloc(ex, st, ins, a, n)
    def g(s, st, o): return s.h.get(st, s.k, o)
    def set(s, st, o, v): s.h.put(st, s.k, o, 8, v)
    def sys_error(s, ex, st, ins, a, n):
        if ins.ty[0] == 'void': return None
        return ('val', Agg([Ptr(None, 0, 0), 0]) if ins.ty[0] == 'struct' else UNDEF)
    def fdok(s, ex, st, a, what): ex.oblig(st, 'precondition', And(Eq(s.g(st, s.OPEN), 1), Eq(ex.norm(st, a, 32), s.g(st, s.FD))), what + ' the open descriptor')
    def checkpath(s, ex, st, p, what):
        v = s.path; rd = vexec.bytes_read(ex, st, p, simp(zi(v.len) + 1), 'path text'); k = fresh_int('k')
        ex.oblig(st, 'precondition', Implies(And(Le(0, k), Lt(k, v.len)), Eq(rd(k), v.val(k))), what + ': the given path'); ex.oblig(st, 'precondition', Eq(rd(v.len), 0), what + ': terminated')
    def err(s, st, w):
        st.ghost['failed'] = True; s.set(st, s.BAD, 1); r = fresh_int('err'); st.assume(r == (1 << w) - 1); return r
    def transferred(s, st, c, cnt):
        """a transfer of c of cnt bytes: none at all counts as a failure"""
        more = Lt(simp(zi(s.g(st, s.POS)) + c), s.g(st, s.LEN)) if st.ghost['mode'] == 0 else True
        st.ghost['short'] = And(Lt(c, cnt), more); s.set(st, s.BAD, Ite(And(Eq(c, 0), Lt(c, cnt), more), 1, s.g(st, s.BAD)))
    def open(s, ex, st, ins, a, n):
        s.checkpath(ex, st, a[0], 'open'); fl = ex.norm(st, a[1], 32); h = s.h
        ex.oblig(st, 'precondition', isinstance(fl, int), 'open flags are constant')
        if not isinstance(fl, int): fl = 0
        ex.oblig(st, 'precondition', Eq(s.g(st, s.OPEN), 0), 'no descriptor is still open')
        if fl & h.size('o_creat'):
            ex.oblig(st, 'precondition', len(a) > 2, 'creating a file gives its permissions')
            if len(a) > 2: m = ex.norm(st, a[2], 32); ex.oblig(st, 'precondition', isinstance(m, int) and m & 0o600 == 0o600, 'the owner may read and write the new file')
        ex.oblig(st, 'precondition', not fl & (h.size('o_append') | h.size('o_excl')), 'an existing file can be opened, at its start')
        bad = st.copy(); ok = st.copy(); fd = fresh_int('fd', 0, (1 << 31) - 1)
        s.set(ok, s.FD, fd); s.set(ok, s.OPEN, 1); s.set(ok, s.POS, 0); s.set(ok, s.OPENED, simp(zi(s.g(ok, s.OPENED)) + 1)); ok.ghost['mode'] = fl & 3
        if fl & h.size('o_trunc'):
            ex.oblig(ok, 'precondition', fl & 3 in (1, 2), 'truncation needs write access'); s.set(ok, s.LEN, 0)
        return [(bad, s.err(bad, 32)), (ok, fd)]
    def lseek(s, ex, st, ins, a, n):
        s.fdok(ex, st, a[0], 'lseek on'); wh = ex.norm(st, a[2], 32); off = ex.snorm(st, a[1], 64) if hasattr(ex, 'snorm') else ex.norm(st, a[1], 64)
        base = {0: 0, 1: s.g(st, s.POS), 2: s.g(st, s.LEN)}.get(wh)
        if base is None: raise Unsupported('lseek of unknown origin')
        bad = st.copy(); ok = st.copy(); np = simp(zi(base) + zi(off)); ok.assume(np >= 0); s.set(ok, s.POS, np)
        return [(bad, s.err(bad, 64)), (ok, np)]
    def ftruncate(s, ex, st, ins, a, n):
        s.fdok(ex, st, a[0], 'ftruncate of'); bad = st.copy(); ok = st.copy(); s.set(ok, s.LEN, ex.norm(st, a[1], 64)); return [(bad, s.err(bad, 32)), (ok, 0)]
    def read(s, ex, st, ins, a, n):
        """reads 0..count bytes from the position on (never past the end), or fails"""
        s.fdok(ex, st, a[0], 'read from'); ex.oblig(st, 'precondition', st.ghost.get('mode') in (0, 2), 'the descriptor is readable')
        cnt = ex.norm(st, a[2], 64); p = a[1]; pos = s.g(st, s.POS)
        nz = Gt(cnt, 0)
        if p.r is None: ex.oblig(st, 'in-bounds', Not(nz), 'read buffer')
        else:
            r = st.reg(p.r); ex.oblig(st, 'no-null-dereference', Implies(nz, Not(p.n)), 'read buffer')
            ex.oblig(st, 'in-bounds', Or(Eq(cnt, 0), And(Le(0, p.i), Le(simp(zi(p.i) + zi(cnt)), r.count))), 'read stays inside the buffer')
        bad = st.copy(); ok = st.copy(); c = fresh_int('got', 0)
        ok.assume(And(c <= zi(cnt), Or(Eq(c, 0), zi(pos) + c <= zi(s.g(st, s.LEN)))))
        s.transferred(ok, c, cnt)
        if p.r is not None: ex.memcpy(ok, p, Ptr(s.f, pos, 0), c)
        s.set(ok, s.POS, simp(zi(pos) + c))
        return [(bad, s.err(bad, 64)), (ok, c)]
    def write(s, ex, st, ins, a, n):
        s.fdok(ex, st, a[0], 'write to'); ex.oblig(st, 'precondition', st.ghost.get('mode') in (1, 2), 'the descriptor is writable')
        cnt = ex.norm(st, a[2], 64); p = a[1]; pos = s.g(st, s.POS)
        bad = st.copy(); ok = st.copy(); c = fresh_int('put', 0); ok.assume(c <= zi(cnt)); s.transferred(ok, c, cnt)
        vexec.bytes_read(ex, st, p, cnt, 'write buffer')
        if p.r is not None: ex.memcpy(ok, Ptr(s.f, pos, 0), p, c)
        np = simp(zi(pos) + c); s.set(ok, s.POS, np); s.set(ok, s.LEN, Ite(Gt(np, s.g(ok, s.LEN)), np, s.g(ok, s.LEN)))
        return [(bad, s.err(bad, 64)), (ok, c)]
    def close(s, ex, st, ins, a, n):
        s.fdok(ex, st, a[0], 'close of'); s.set(st, s.OPEN, 0); s.set(st, s.CLOSED, simp(zi(s.g(st, s.CLOSED)) + 1)); r = fresh_int('closed'); st.assume(Or(r == 0, r == (1 << 32) - 1)); return ('val', r)
    def statbuf(s, ex, st, p):
        t = fresh_int('mtime', 0, (1 << 63) - 1); st.ghost['mtime'] = t
        ex.wr(st, ex.check_access(st, Ptr(p.r, p.i, p.o + s.h.off('stat_mtime'), p.n), 8, True), 8, 'i', t)
        ex.wr(st, ex.check_access(st, Ptr(p.r, p.i, p.o + s.h.off('stat_size'), p.n), 8, True), 8, 'i', s.g(st, s.LEN))
    def fstat(s, ex, st, ins, a, n):
        s.fdok(ex, st, a[0], 'fstat of'); bad = st.copy(); ok = st.copy(); s.statbuf(ex, ok, a[1]); return [(bad, s.err(bad, 32)), (ok, 0)]
    def stat(s, ex, st, ins, a, n):
        s.checkpath(ex, st, a[0], 'stat'); bad = st.copy(); ok = st.copy(); s.statbuf(ex, ok, a[1]); ok.ghost['stat'] = True; return [(bad, s.err(bad, 32)), (ok, 0)]
    def done(s, st, what):
        h = s.h
        h.prove(st, what + ': every descriptor opened is closed', Eq(s.g(st, s.OPEN), 0)); h.prove(st, what + ': closed once each', Eq(s.g(st, s.OPENED), s.g(st, s.CLOSED)))
        h.prove(st, what + ': the scratch region is closed', not st.ghost.get('regions'))
    # ---- loops over read/write: progress is the file position
    def loops(s, h, pre, write, n, src=None):
        K = s
        class Inv:
            optional = False
            def __init__(i, L, mods, bufs): i.L = L; i.mods = mods; i.bufs = bufs; i.pos0 = None
            # the ghost is the position one iteration ago: it has to grow until a call fails, so the loop ends
            def ghost0(i, v): return -1, -1
            def ghostn(i, v): return fresh_int('before'), fresh_int('bad.before')
            def ghoststep(i, hv, v): return K.g(hv.st, K.POS), K.g(hv.st, K.BAD)
            def facts(i, v):
                pos = zi(K.g(v.st, K.POS)); bad = zi(K.g(v.st, K.BAD)); flags = []; fs = [('the position stays within the data', 0, lambda: And(0 <= pos, pos <= zi(n))), ('every iteration makes progress', 0, lambda: Or(Lt(v.ghost[0], pos), Lt(v.ghost[1], bad))), ('the descriptor stays open', 0, lambda: Eq(K.g(v.st, K.OPEN), 1))]
                for loc in i.mods:
                    if loc[0] != 'phi': continue
                    x0 = i.L.init[loc[1]]; x = v.vals[loc[1]]
                    if isinstance(x, Ptr):
                        if isinstance(x0, Ptr) and x0.r is not None: fs.append(('the pointer follows the position', 0, lambda x=x, x0=x0: Eq(x.i, simp(zi(x0.i) + pos))))
                    elif i.L.width(v.st, loc) in (1, 8): w = i.L.width(v.st, loc); y = v.ex.norm(v.st, x, w); fs.append(('a flag is 0 or 1', 0, lambda y=y: Or(Eq(y, 0), Eq(y, 1)))); flags.append(Ne(y, v.ex.norm(i.L.enter, x0, w)))
                    elif not isinstance(x0, bool) and i.L.width(v.st, loc) in (32, 64):
                        w = i.L.width(v.st, loc)
                        y0 = v.ex.norm(i.L.enter, x0, w); y = v.ex.norm(v.st, x, w)
                        if isinstance(y0, int) and y0 == 0: fs.append(('the counter is the position', 0, lambda y=y: Eq(y, pos)))
                        elif v.ex.valid(i.L.enter, Eq(y0, n)): fs.append(('the counter is what remains', 0, lambda y=y: Eq(y, simp(zi(n) - pos))))
                for f in flags: fs.append(('the flag changes when a call fails', 0, lambda f=f: zb(f) == zb(Eq(bad, 1))))
                fs.append(('a failure ends the loop', 0, lambda: And(0 <= bad, bad <= (1 if flags else 0))))
                if write:
                    fs.append(('the file is as long as what was written', 0, lambda: Eq(K.g(v.st, K.LEN), pos)))
                    fs.append(('the file holds what was written', 1, lambda k: Implies(And(Le(0, k), Lt(k, pos)), Eq(byte(h, v.st, K.f, k), src(k)))))
                else:
                    for rid in i.bufs: fs.append(('the buffer holds what was read', 1, lambda k, rid=rid: Implies(And(Le(0, k), Lt(k, pos)), Eq(byte(h, v.st, rid, k), K.val(k)))))
                return fs
            def __repr__(i): return 'file loop'
        def cands(ex, L, st, mods):
            if ('cell', K.k, K.POS) not in mods: return []
            return [Inv(L, sorted(mods, key=str), [m[1] for m in mods if m[0] == 'arr' and m[1] != K.f])]
        h.ex.loop_inv = cands
def start(h):
    h.ex.force_summary = lambda fn, hd: any(x in fn for x in ('Files', 'file', 'read', 'write'))
    setup(h); st = h.state(); K = Kernel(h, st); v = strc.View(h, st, 'path'); K.path = v
    return st, K, v
def failed(h, s, K, what):
    h.prove(s, what + ': failure is reported only when a system call failed or was short', Or(Eq(K.g(s, K.BAD), 1), s.ghost.get('short', False)))
def flag(h, s, obj, p): return Ne(h.ex.norm(s, h.get(s, obj, h.off(p + '_ok'), w=1), 8), 0)
def check_read(h, st, K, v, fn, arg):
    r = h.sreg(st, 'r', h.size('ob')); st.assume(K.size < (1 << 32)); K.loops(h, st, False, K.size)
    n = 0
    for s, _ in h.must_return(h.run(st, fn, [Ptr(r), arg])):
        K.done(s, 'read'); h.prove(s, 'reading does not change the file', Eq(K.g(s, K.LEN), K.size)); same(h, s, v, 'read')
        ok = flag(h, s, r, 'ob')
        t = s.copy(); t.assume(zb(ok))
        if h.ex.feasible(t):
            n += 1; b = h.off('ob_value'); d, l, c = h.get(t, r, b + h.off('bytes_data'), k='p'), h.get(t, r, b + h.off('bytes_length')), h.get(t, r, b + h.off('bytes_capacity'))
            h.prove(t, 'success: the file was opened', Eq(K.g(t, K.OPENED), 1)); h.prove(t, 'success: all of the file', Eq(l, K.size)); h.prove(t, 'success: room for it', Le(l, c))
            if d.r is None: h.prove(t, 'success: no storage only for an empty file', Eq(K.size, 0)); h.heap_owned(t, [])
            else:
                h.prove(t, 'success: storage', Or(Eq(K.size, 0), And(t.reg(d.r).alive, Eq(d.i, 0), Not(d.n))))
                h.forall(t, 'success: every byte', lambda k: Implies(And(Le(0, k), Lt(k, K.size)), Eq(byte(h, t, d.r, k), K.val(k)))); h.heap_owned(t, [d])
        t = s.copy(); t.assume(Not(zb(ok)))
        if h.ex.feasible(t): h.heap_owned(t, []); failed(h, t, K, 'read')
    if not n: h.fail('reachable', 'reading can never succeed')
def c_read(h):
    st, K, v = start(h); check_read(h, st, K, v, 'file_read', v.p())
def c_write(h):
    st, K, v = start(h); d = strc.View(h, st, 'data'); sl = h.sreg(st, 'slice', h.size('slice'), ro=True)
    h.put(st, sl, h.off('slice_data'), 8, d.first); h.put(st, sl, h.off('slice_length'), 8, d.len)
    K.loops(h, st, True, d.len, d.val); n = 0
    for s, r in h.must_return(h.run(st, 'file_write', [v.p(), Ptr(sl)])):
        K.done(s, 'write'); same(h, s, v, 'write'); same(h, s, d, 'write'); h.heap_owned(s, [])
        t = s.copy(); t.assume(truth(h, s, r))
        if h.ex.feasible(t):
            n += 1
            h.prove(t, 'success: the file was opened', Eq(K.g(t, K.OPENED), 1)); h.prove(t, 'success: the file is as long as the data', Eq(K.g(t, K.LEN), d.len))
            h.forall(t, 'success: the file holds exactly the data', lambda k: Implies(And(Le(0, k), Lt(k, d.len)), Eq(byte(h, t, K.f, k), d.val(k))))
        t = s.copy(); t.assume(Not(truth(h, s, r)))
        if h.ex.feasible(t): failed(h, t, K, 'write')
    if not n: h.fail('reachable', 'writing can never succeed')
def watcher(h, st, v, init=True):
    w = h.sreg(st, 'watcher', h.size('w')); t = None
    if init:
        h.put(st, w, h.off('w_path') + h.off('view_data'), 8, v.first); h.put(st, w, h.off('w_path') + h.off('view_length'), 8, v.len)
        t = h.int('time0', hi=(1 << 64) - 1); h.put(st, w, h.off('w_time'), 8, t)
    return w, t
def c_wctor(h):
    st, K, v = start(h); w, _ = watcher(h, st, v, False)
    src = v.p(); sl = h.get(st, src.r, h.off('view_length')); data = h.get(st, src.r, h.off('view_data'), k='p')
    for s, _ in h.must_return(h.run(st, 'watch_ctor', [Ptr(w), v.p()])):
        K.done(s, 'watcher'); h.prove(s, 'the watcher keeps the path', Eq(h.get(s, w, h.off('w_path') + h.off('view_length')), sl))
        d = h.get(s, w, h.off('w_path') + h.off('view_data'), k='p'); h.prove(s, 'the watcher keeps the path text', d.r == data.r and Eq(d.i, data.i))
        h.prove(s, 'the time of the last write, if there is one', Eq(h.get(s, w, h.off('w_time')), s.ghost['mtime'] if s.ghost.get('stat') else 0))
        h.prove(s, 'a path is looked up unless it is empty', True if s.ghost.get('stat') or s.ghost.get('failed') else Eq(v.len, 0))
def c_wpoll(h):
    st, K, v = start(h); w, t0 = watcher(h, st, v)
    for s, r in h.must_return(h.run(st, 'watch_poll', [Ptr(w)])):
        K.done(s, 'poll'); now = h.get(s, w, h.off('w_time'))
        if s.ghost.get('stat'):
            m = s.ghost['mtime']; h.prove(s, 'poll reports a write after the one seen last', zb(truth(h, s, r)) == zb(Lt(t0, m))); h.prove(s, 'poll remembers the time', Eq(now, m))
        else:
            h.prove(s, 'nothing is reported without a time', Not(truth(h, s, r))); h.prove(s, 'the time is kept', Eq(now, t0))
            h.prove(s, 'a path is looked up unless it is empty', True if s.ghost.get('failed') else Eq(v.len, 0))
def c_wread(h):
    st, K, v = start(h); w, t0 = watcher(h, st, v); check_read(h, st, K, v, 'watch_read', Ptr(w))
def c_time(h):
    st, K, v = start(h); r = h.sreg(st, 'r', h.size('ot'))
    for s, _ in h.must_return(h.run(st, 'file_time', [Ptr(r), v.p()])):
        ok = flag(h, s, r, 'ot'); h.prove(s, 'a time is reported exactly when the system gave one', zb(ok) == zb(bool(s.ghost.get('stat'))))
        if s.ghost.get('stat'): h.prove(s, 'the time of the last write', Eq(h.get(s, r, h.off('ot_value')), s.ghost['mtime']))
        K.done(s, 'time'); same(h, s, v, 'time')
CONTRACTS = [('read', c_read), ('write', c_write), ('time', c_time), ('watcher-ctor', c_wctor), ('watcher-poll', c_wpoll), ('watcher-read', c_wread)]
ASSUMPTIONS = ['system calls behave as their contracts: open, lseek, read, write, close, stat (any of them may fail; read and write may be short)', 'no other process changes the file during the call', 'files of 2^32 bytes and more stop the program (assert in the code)', 'Mallocator and Region_Allocator return fresh storage (C28, C14)', 'the coroutines Async::read/write forward to these functions; coroutine frames are outside the verifier']
