// the socket calls are stand-ins: a table of descriptors, a pending datagram and a record of what was sent
#include "strs.h"
#include <rpp/net.h>
#include <arpa/inet.h>
#include <errno.h>
#include <new>
static Rnd* R = null; static std::set<int> fds; static int next_fd = 500; static std::string bad; static bool failing = false, failed = false;
static std::string sent, pending, from, to, bound; static int sends = 0, recvs = 0, used = -1; static bool have = false; static ssize_t sres = 0;
static bool inject() { if(failing && R->chance(30)) { failed = true; errno = EIO; return true; } return false; }
static void use(int fd) { used = fd; if(!fds.count(fd)) bad = "a system call used a descriptor that is not open"; }
extern "C" {
int socket(int d, int t, int p) noexcept { if(d != AF_INET || (t & 15) != SOCK_DGRAM) bad = "not an internet datagram socket"; if(inject()) return -1; int f = !fds.count(0) && R->chance(20) ? 0 : ++next_fd; fds.insert(f); return f; }
int close(int fd) { if(fd < 500 && fd) return 0; if(!fds.erase(fd)) bad = "a descriptor was closed that is not open"; return 0; }
int bind(int fd, const struct sockaddr* a, socklen_t n) noexcept { use(fd); bound.assign((const char*)a, n); return inject() ? -1 : 0; }
ssize_t sendto(int fd, const void* b, size_t n, int, const struct sockaddr* a, socklen_t l) { use(fd); sends++; sent.assign((const char*)b, n); to.assign((const char*)a, l); if(inject()) return -1; return sres = (ssize_t)(n ? n - (R->chance(20) ? R->below(n) : 0) : 0); }
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) {
    use(fd); recvs++; if(!(fl & MSG_DONTWAIT)) bad = "receiving may wait"; if(inject()) return -1; if(!have) { errno = EAGAIN; return -1; }
    have = (fl & MSG_PEEK) != 0; memcpy(b, pending.data(), std::min(n, pending.size())); memcpy(a, from.data(), std::min<size_t>(*l, from.size())); *l = (socklen_t)from.size();
    return (ssize_t)((fl & MSG_TRUNC) ? pending.size() : std::min(n, pending.size()));
}
}
using namespace rpp::Net;
static bool child(std::function<void()> f) { pid_t p = fork(); if(!p) { fclose(stdout); alarm(10); f(); _exit(0); } int s; waitpid(p, &s, 0); return WIFEXITED(s) && WEXITSTATUS(s) == 0; }
static void ok() { if(!bad.empty()) fail(bad.c_str()); }
static std::string raw(const void* p, u64 n) { return std::string((const char*)p, n); }
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1); R = &r;
    for(int i = 0; i < 4000; i++) {
        g_trace.clear(); u16 port = (u16)r.next(); std::string t = std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256)) + "." + std::to_string(r.below(256));
        Buf T(t); Address a{T.view(), port}, any{port}; sockaddr_in w; memset(&w, 0, sizeof w); w.sin_family = AF_INET; w.sin_port = htons(port); tr("address %s port %u", t.c_str(), port);
        CHECK(raw(&any, 8) == raw(&w, 8)); inet_pton(AF_INET, t.c_str(), &w.sin_addr); CHECK(raw(&a, 8) == raw(&w, 8));
        {
            alignas(Udp) u8 store[3][sizeof(Udp)]; Udp* s = new(store[0]) Udp; ok(); CHECK(fds.size() == 1); int f0 = *fds.begin();
            s->bind(any); ok(); CHECK(used == f0 && bound == raw(&any, sizeof any));
            Packet p; u64 n = r.chance(20) ? p.capacity : r.below(p.capacity + 1); for(u64 k = 0; k < p.capacity; k++) p[k] = (u8)r.next();
            sends = 0; used = -1; tr("send %llu", (unsigned long long)n); R->s ^= 7; u64 got = s->send(a, p, n); ok(); CHECK(sends == 1 && used == f0 && sent == raw(p.data(), n) && to == raw(&a, sizeof a) && got == (u64)sres);
            u8* heap = (u8*)malloc(sizeof(Packet)); Packet* in = new(heap) Packet; have = r.chance(70); pending.clear(); u64 pn = r.chance(25) ? 1472 + r.below(600) : r.below(1473); while(pending.size() < pn) pending += (char)r.next(); from = raw(&a, sizeof a); bool had = have;
            tr("receive %llu, %s", (unsigned long long)pn, had ? "pending" : "nothing"); auto d = s->recv(*in); ok(); CHECK(d.ok() == had && used == f0);
            if(had) { CHECK(d->length == pn && raw(&d->from, sizeof(Address)) == from && !have); CHECK(raw(in->data(), std::min<u64>(pn, 1472)) == pending.substr(0, 1472)); }
            in->~Packet(); free(heap);
            Udp* q = new(store[1]) Udp(rpp::move(*s)); ok(); CHECK(fds.size() == 1 && fds.count(f0)); Udp* o = new(store[2]) Udp; CHECK(fds.size() == 2); tr("moves");
            switch(r.below(4)) { case 0: *o = rpp::move(*q); break; case 1: *s = rpp::move(*q); break; case 2: *q = rpp::move(*s); break; case 3: *q = rpp::move(*o); break; }
            ok(); Address z{(u16)1}; s->~Udp(); ok(); q->~Udp(); ok(); o->~Udp(); ok(); CHECK(fds.empty());
        }
        if(i % 40 == 0) {
            Packet p; Buf P(t);
            tr("system call failures"); failed = false;
            bool done = child([&] { failing = true; alarm(5); Udp s; if(failed) _exit(0); s.bind(any); if(failed) _exit(0); (void)s.send(a, p, 5); if(failed) _exit(0); have = true; pending = "abc"; from = raw(&a, sizeof a); (void)s.recv(p); if(failed) _exit(0); _exit(1); });
            CHECK(!done);
            CHECK(!child([&] { Udp s; (void)s.send(a, p, p.capacity + 1); }));
            CHECK(!child([&] { Buf b("not an address"); Address x{b.view(), 1}; })); CHECK(child([&] { Address x{P.view(), 1}; }));
        }
    }
    return 0;
}
