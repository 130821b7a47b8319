// C33: datagram sockets over contracts of the system calls
#include "vc.h"
#include <new>
#include <errno.h>
#define private public
#include <rpp/net.h>
#undef private
#include <rpp/pos/net_pos.cpp>
using namespace rpp::Net;
using V = String_View; using OD = Opt<Udp::Data>;
OFF(view_data, V, data_) OFF(view_length, V, length_) SIZE(view, V)
OFF(od_ok, OD, ok_) OFF(od_value, OD, value_) SIZE(od, OD)
OFF(data_length, Udp::Data, length) OFF(data_from, Udp::Data, from) SIZE(data, Udp::Data)
OFF(addr_sa, Address, sockaddr_) SIZE(addr, Address)
OFF(udp_fd, Udp, fd) SIZE(udp, Udp)
SIZE(packet, Packet)
OFF(sin_family, sockaddr_in, sin_family) OFF(sin_port, sockaddr_in, sin_port) OFF(sin_addr, sockaddr_in, sin_addr) SIZE(sin, sockaddr_in)
extern "C" const u64 size_msg_dontwait = MSG_DONTWAIT;
extern "C" const u64 size_msg_trunc = MSG_TRUNC;
extern "C" const u64 size_msg_nosignal = MSG_NOSIGNAL;
extern "C" const u64 size_eagain = EAGAIN;
extern "C" {
void net_addr_port(Address* r, u16 port) { new(r) Address(port); }
void net_addr(Address* r, const V* text, u16 port) { new(r) Address(*text, port); }
void net_ctor(Udp* r) { new(r) Udp(); }
void net_dtor(Udp* r) { r->~Udp(); }
void net_move(Udp* r, Udp* s) { new(r) Udp(rpp::move(*s)); }
void net_assign(Udp* r, Udp* s) { *r = rpp::move(*s); }
void net_bind(Udp* r, const Address* a) { r->bind(*a); }
u64 net_send(Udp* r, const Address* a, const Packet* p, u64 n) { return r->send(*a, *p, n); }
void net_recv(OD* o, Udp* r, Packet* p) { new(o) OD(r->recv(*p)); }
}
