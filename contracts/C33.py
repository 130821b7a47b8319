"""C33: datagram sockets. The kernel is a contract per system call; descriptors are tracked in a ghost list of (descriptor, open) pairs."""
from strc import *
import strc
SRC = 'net.cpp'
class Net:
    def __init__(s, h, st):
        s.h = h; s.path = None; st.ghost['fds'] = []; st.ghost['log'] = []
        s.errno = h.sreg(st, 'errno', 4); s.sender = [h.int(f'sender.{i}', hi=255) for i in range(h.size('sin'))]
        s.dgram = h.areg(st, 'datagram', 1, 1 << 20); s.dlen = h.int('datagram.length', hi=1 << 20); s.dval = h.elems(st, s.dgram, w=1, name='D')
        for pat, f in ((r'^socket$', s.socket), (r'^close$', s.close), (r'^bind$', s.bind), (r'^sendto$', s.sendto), (r'^recvfrom$', s.recvfrom), (r'^inet_pton$', s.pton), (r'^(htons|ntohs)$', s.htons), (r'^__errno_location$', lambda ex, st, ins, a, n: ('val', Ptr(s.errno))),
                       (r'_ZN3rpp3Log9sys_errorEv$', s.sys_error), (r'_ZN3rpp3Log8Location4make', lambda ex, st, ins, a, n: None)): h.ex.add_contract(pat, f)
    def sys_error(s, ex, st, ins, a, n):
        if ins.ty[0] == 'void': return None
        return ('val', Agg([Ptr(None, 0, 0), 0]) if ins.ty[0] == 'struct' else UNDEF)
    def htons(s, ex, st, ins, a, n): x = ex.norm(st, a[0], 16); b = bytes_of(x, 2); return ('val', simp(b[0] * 256 + b[1]))
    # ---- descriptors
    def fresh(s, st, live=True, name='fd'):
        f = fresh_int(name, 0, (1 << 31) - 1)
        for g, o in st.ghost['fds']: st.assume(Implies(o, Ne(f, g)))
        st.ghost['fds'] = st.ghost['fds'] + [(f, live)]; return f
    def isopen(s, st, x): return Or(*[And(o, Eq(x, f)) for f, o in st.ghost['fds']])
    def use(s, ex, st, a, what): x = ex.norm(st, a, 32); ex.oblig(st, 'precondition', s.isopen(st, x), what + ' an open socket'); return x
    def note(s, st, *what): st.ghost['log'] = st.ghost['log'] + [what]
    def fail(s, st, w, errno=None):
        e = fresh_int('errno', 1, 4095)
        s.h.put(st, s.errno, 0, 4, e); st.ghost['fail'] = True; st.ghost['errno'] = e
        r = fresh_int('err'); st.assume(r == (1 << w) - 1); return r
    def socket(s, ex, st, ins, a, n):
        t = [ex.norm(st, x, 32) for x in a]
        ex.oblig(st, 'precondition', And(Eq(t[0], 2), Or(Eq(t[2], 0), Eq(t[2], 17))), 'an internet datagram socket'); ex.oblig(st, 'precondition', isinstance(t[1], int) and t[1] & 15 == 2, 'a datagram socket')
        bad = st.copy(); f = s.fresh(st); s.note(st, 'socket', f); return [(bad, s.fail(bad, 32)), (st, f)]
    def close(s, ex, st, ins, a, n):
        x = s.use(ex, st, a[0], 'close of'); st.ghost['fds'] = [(f, And(o, Ne(x, f))) for f, o in st.ghost['fds']]; s.note(st, 'close', x); r = fresh_int('closed'); st.assume(Or(r == 0, r == (1 << 32) - 1)); return ('val', r)
    def bytes(s, ex, st, p, n, what):
        rd = vexec.bytes_read(ex, st, p, n, what); return [rd(i) for i in range(n)]
    def bind(s, ex, st, ins, a, n):
        x = s.use(ex, st, a[0], 'bind of'); ex.oblig(st, 'precondition', Eq(ex.norm(st, a[2], 32), s.h.size('sin')), 'address length')
        s.note(st, 'bind', x, s.bytes(ex, st, a[1], s.h.size('sin'), 'address')); bad = st.copy(); return [(bad, s.fail(bad, 32)), (st, 0)]
    def sendto(s, ex, st, ins, a, n):
        x = s.use(ex, st, a[0], 'send on'); ln = ex.norm(st, a[2], 64); fl = ex.norm(st, a[3], 32)
        ex.oblig(st, 'precondition', Or(Eq(fl, 0), Eq(fl, s.h.size('msg_nosignal'))), 'flags'); ex.oblig(st, 'precondition', Eq(ex.norm(st, a[5], 32), s.h.size('sin')), 'address length')
        rd = vexec.bytes_read(ex, st, a[1], ln, 'sent bytes')
        bad = st.copy(); r = fresh_int('sent', 0); st.assume(r <= zi(ln)); s.note(st, 'send', x, ln, rd, s.bytes(ex, st, a[4], s.h.size('sin'), 'address'), r)
        return [(bad, s.fail(bad, 64)), (st, r)]
    def recvfrom(s, ex, st, ins, a, n):
        """stores the first cnt bytes of the datagram and the sender's address; the result is the number stored, or with MSG_TRUNC the length of the datagram"""
        h = s.h; x = s.use(ex, st, a[0], 'receive on'); cnt = ex.norm(st, a[2], 64); fl = ex.norm(st, a[3], 32); p = a[1]
        ex.oblig(st, 'precondition', isinstance(fl, int) and fl & h.size('msg_dontwait') == h.size('msg_dontwait') and not fl & ~(h.size('msg_dontwait') | h.size('msg_trunc')), 'receiving takes one datagram and does not wait')
        ex.oblig(st, 'no-null-dereference', Not(p.n), 'receive buffer'); ex.oblig(st, 'in-bounds', And(Le(0, p.i), Le(simp(zi(p.i) + zi(cnt)), st.reg(p.r).count)), 'receiving stays inside the buffer')
        ln = ex.rd(st, ex.check_access(st, a[5], 4, False), 4, 'i'); ln = ex.norm(st, ln, 32); ex.oblig(st, 'precondition', Eq(ln, h.size('sin')), 'room for the address')
        bad = st.copy(); stored = Ite(Lt(cnt, s.dlen), cnt, s.dlen); ex.memcpy(st, p, Ptr(s.dgram, 0, 0), stored)
        for i, b in enumerate(s.sender): ex.wr(st, ex.check_access(st, Ptr(a[4].r, a[4].i, a[4].o + i, a[4].n), 1, True), 1, 'i', b)
        ex.wr(st, ex.check_access(st, a[5], 4, True), 4, 'i', h.size('sin'))
        s.note(st, 'recv', x, stored); return [(bad, s.fail(bad, 64)), (st, s.dlen if isinstance(fl, int) and fl & h.size('msg_trunc') else stored)]
    def pton(s, ex, st, ins, a, n):
        v = s.path; ex.oblig(st, 'precondition', Eq(ex.norm(st, a[0], 32), 2), 'an internet address')
        rd = vexec.bytes_read(ex, st, a[1], simp(zi(v.len) + 1), 'address text'); k = fresh_int('k')
        ex.oblig(st, 'precondition', Implies(And(Le(0, k), Lt(k, v.len)), Eq(rd(k), v.val(k))), 'the given address text'); ex.oblig(st, 'precondition', Eq(rd(v.len), 0), 'the address text is terminated')
        bad = st.copy(); bad2 = st.copy(); bad.ghost['fail'] = bad2.ghost['fail'] = True; t = fresh_int('in_addr', 0, (1 << 32) - 1)
        ex.wr(st, ex.check_access(st, a[2], 4, True), 4, 'i', t); st.ghost['in_addr'] = t; s.fail(bad2, 32)
        return [(bad, 0), (bad2, (1 << 32) - 1), (st, 1)]
    # ---- objects
    def udp(s, st, name, may_be_empty=True):
        """a socket object: its descriptor is open and its own, or -1"""
        h = s.h; r = h.sreg(st, name, h.size('udp')); o = fresh_bool(name + '.open') if may_be_empty else True
        f = s.fresh(st, o, name); v = Ite(o, f, (1 << 32) - 1); h.put(st, r, h.off('udp_fd'), 4, v); return r, f, o
    def fd(s, st, r): return s.h.ex.norm(st, s.h.get(st, r, s.h.off('udp_fd'), w=4), 32)
    def owned(s, st, rs, what):
        """every open descriptor belongs to exactly one of the objects; an object holds -1 or an open descriptor"""
        h = s.h; vs = [s.fd(st, r) for r in rs]
        for i, (f, o) in enumerate(st.ghost['fds']):
            h.prove(st, f'{what}: no socket is left open without an owner', Implies(o, Or(*[Eq(v, f) for v in vs])))
        for v in vs: h.prove(st, f'{what}: a socket object holds an open socket or none', Or(Eq(v, (1 << 32) - 1), s.isopen(st, v)))
        for i in range(len(vs)):
            for j in range(i): h.prove(st, f'{what}: no two objects own one socket', Or(Eq(vs[i], (1 << 32) - 1), Ne(vs[i], vs[j])))
    def closes(s, st): return [e for e in st.ghost['log'] if e[0] == 'close']
    def ends(s, outs, abort=lambda s: True):
        """normal returns; a path may stop the program only after a failed system call"""
        h = s.h
        for k, t, v in outs:
            if k == 'abort': h.ex.oblig(t, 'no-abort', And(bool(t.ghost.get('fail')), abort(t)), 'the program stops only when a system call failed', loc=str(v), assume=False)
        rs = h.returns(outs)
        if not any(h.ex.feasible(t) for t, _ in rs): h.fail('reachable', 'no normal return is reachable')
        return rs
def fresh_bool(name): return z3.FreshConst(z3.BoolSort(), name)
def start(h): setup(h); st = h.state(); return st, Net(h, st)
def address(h, st, name):
    r = h.sreg(st, name, h.size('addr'), ro=True); b = []
    for i in range(h.size('sin') // 8): x = h.int(f'{name}.{i}', w=64); h.put(st, r, h.off('addr_sa') + 8 * i, 8, x); b += bytes_of(x, 8)
    return r, b
def raw(h, st, r, o, n): return [h.ex.norm(st, h.get(st, r, o + i, w=1), 8) for i in range(n)]
def bytes_of(v, n): return [simp((zi(v) / (1 << 8 * i)) % 256) for i in range(n)]
def c_addr(h, text):
    st, N = start(h); r = h.sreg(st, 'address', h.size('addr')); port = h.int('port', w=16); v = None; args = [Ptr(r), port]
    if text: v = strc.View(h, st, 'text'); N.path = v; args = [Ptr(r), v.p(), port]
    for s, _ in N.ends(h.run(st, 'net_addr' if text else 'net_addr_port', args)):
        h.prove(s, 'no address is made from a failed conversion', not s.ghost.get('fail'))
        o = h.off('addr_sa'); got = lambda f, n: raw(h, s, r, o + h.off('sin_' + f), n)
        for a, b in zip(got('family', 2), (2, 0)): h.prove(s, 'an internet address', Eq(a, b))
        for a, b in zip(got('port', 2), reversed(bytes_of(port, 2))): h.prove(s, 'the port in network order', Eq(a, b))
        for a, b in zip(got('addr', 4), bytes_of(s.ghost.get('in_addr', 0), 4)): h.prove(s, 'the converted address' if text else 'any address', Eq(a, b))
        h.heap_owned(s, []); h.prove(s, 'the scratch region is closed', not s.ghost.get('regions'))
        if v: same(h, s, v, 'address')
def c_ctor(h):
    st, N = start(h); r = h.sreg(st, 'udp', h.size('udp'))
    for s, _ in N.ends(h.run(st, 'net_ctor', [Ptr(r)])):
        h.prove(s, 'no socket object is made when opening fails', not s.ghost.get('fail')); N.owned(s, [r], 'constructor'); h.prove(s, 'the socket is open', N.isopen(s, N.fd(s, r)))
def c_dtor(h):
    st, N = start(h); r, f, o = N.udp(st, 'udp'); other, g, p = N.udp(st, 'other')
    for s, _ in N.ends(h.run(st, 'net_dtor', [Ptr(r)])):
        h.prove(s, 'the socket is closed', Not(s.ghost['fds'][0][1])); h.prove(s, 'other sockets stay open', zb(s.ghost['fds'][1][1]) == zb(p))
def c_move(h):
    st, N = start(h); a, f, o = N.udp(st, 'source'); r = h.sreg(st, 'udp', h.size('udp'))
    for s, _ in N.ends(h.run(st, 'net_move', [Ptr(r), Ptr(a)])):
        N.owned(s, [r, a], 'move'); h.prove(s, 'the socket moves', Eq(N.fd(s, r), Ite(o, f, (1 << 32) - 1))); h.prove(s, 'the socket stays open', zb(s.ghost['fds'][0][1]) == zb(o)); h.prove(s, 'the source is empty', Eq(N.fd(s, a), (1 << 32) - 1))
def c_assign(h, self):
    st, N = start(h); a, f, o = N.udp(st, 'source'); b, g, p = (a, f, o) if self else N.udp(st, 'target')
    for s, _ in N.ends(h.run(st, 'net_assign', [Ptr(b), Ptr(a)])):
        N.owned(s, [a] if self else [a, b], 'move assignment')
        if not self: h.prove(s, 'the socket moves', Eq(N.fd(s, b), Ite(o, f, (1 << 32) - 1))); h.prove(s, 'the moved socket stays open', zb(s.ghost['fds'][0][1]) == zb(o)); h.prove(s, 'the replaced socket is closed', Not(s.ghost['fds'][1][1])); h.prove(s, 'the source is empty', Eq(N.fd(s, a), (1 << 32) - 1))
def kept(h, N, s, r, f, what): h.prove(s, what + ': the socket stays open and owned', And(Eq(N.fd(s, r), f), N.isopen(s, f)))
def c_bind(h):
    st, N = start(h); r, f, _ = N.udp(st, 'udp', False); a, b = address(h, st, 'address')
    for s, _ in N.ends(h.run(st, 'net_bind', [Ptr(r), Ptr(a)])):
        l = s.ghost['log']; h.prove(s, 'bind reports failure', not s.ghost.get('fail')); h.prove(s, 'one call to the system', len(l) == 1 and l[0][0] == 'bind'); kept(h, N, s, r, f, 'bind')
        for x, y in zip(l[0][2], b): h.prove(s, 'bound to the given address', Eq(x, y))
        h.prove(s, 'this socket is bound', Eq(l[0][1], f))
def packet(h, st):
    n = h.size('packet'); p = h.areg(st, 'packet', 1, n); return p, h.elems(st, p, w=1, name='P'), n
def c_send(h, over):
    st, N = start(h); r, f, _ = N.udp(st, 'udp', False); a, b = address(h, st, 'address'); p, val, cap = packet(h, st); n = h.int('length'); st.assume(Gt(n, cap) if over else Le(n, cap))
    outs = h.run(st, 'net_send', [Ptr(r), Ptr(a), Ptr(p, 0, 0), n])
    if over: return h.never_returns(outs)
    for s, v in N.ends(outs):
        l = s.ghost['log']; h.prove(s, 'send reports failure', not s.ghost.get('fail')); h.prove(s, 'one datagram is sent', len(l) == 1 and l[0][0] == 'send'); kept(h, N, s, r, f, 'send')
        _, x, ln, rd, to, res = l[0]; h.prove(s, 'sent on this socket', Eq(x, f)); h.prove(s, 'all bytes are sent', Eq(ln, n)); h.prove(s, 'the number sent is reported', Eq(v, res))
        h.forall(s, 'exactly the given bytes', lambda k: Implies(And(Le(0, k), Lt(k, n)), Eq(rd(k), val(k))))
        for x, y in zip(to, b): h.prove(s, 'sent to the given address', Eq(x, y))
def c_recv(h):
    st, N = start(h); r, f, _ = N.udp(st, 'udp', False); p, val, cap = packet(h, st); o = h.sreg(st, 'result', h.size('od')); again = h.size('eagain'); n = 0
    for s, _ in N.ends(h.run(st, 'net_recv', [Ptr(o), Ptr(r), Ptr(p, 0, 0)]), lambda t: Ne(t.ghost.get('errno', again), again)):
        l = s.ghost['log']; ok = Ne(h.ex.norm(s, h.get(s, o, h.off('od_ok'), w=1), 8), 0); kept(h, N, s, r, f, 'recv')
        if s.ghost.get('fail'):
            h.prove(s, 'nothing received: nothing reported', Not(ok)); h.prove(s, 'only an empty queue is reported as nothing', Eq(s.ghost['errno'], again)); h.forall(s, 'nothing received: the packet is unchanged', lambda k: Implies(And(Le(0, k), Lt(k, cap)), Eq(byte(h, s, p, k), val(k))))
            continue
        n += 1; d = h.off('od_value'); h.prove(s, 'a datagram is taken', len(l) == 1 and l[0][0] == 'recv'); h.prove(s, 'a received datagram is reported', ok); h.prove(s, 'received on this socket', Eq(l[0][1], f))
        h.prove(s, "the datagram's length is reported", Eq(h.get(s, o, d + h.off('data_length')), N.dlen))
        for x, y in zip(raw(h, s, o, d + h.off('data_from') + h.off('addr_sa'), h.size('sin')), N.sender): h.prove(s, 'the sender is reported', Eq(x, y))
        h.forall(s, 'the packet holds the datagram, as far as it fits', lambda k: Implies(And(Le(0, k), Lt(k, N.dlen), Lt(k, cap)), Eq(byte(h, s, p, k), N.dval(k))))
    if not n: h.fail('reachable', 'receiving can never succeed')
CONTRACTS = [('address-port', c_addr, False), ('address', c_addr, True), ('ctor', c_ctor), ('dtor', c_dtor), ('move', c_move), ('assign', c_assign, False), ('assign-self', c_assign, True), ('bind', c_bind), ('send', c_send, False), ('send-over', c_send, True), ('recv', c_recv)]
ASSUMPTIONS = ['system calls behave as their contracts: socket, bind, sendto, recvfrom (any may fail), close, inet_pton', 'htons is a byte swap (inlined by the compiler)', 'Region_Allocator returns fresh storage (C14)', 'a socket object is used for sending and receiving only while it holds a socket']
