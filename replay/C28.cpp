// random histories of allocations, also nested in frames, compared with counters kept beside them
#define private public
#include "common.h"
#undef private
using A0 = Mallocator<"verif.first">; using A1 = Mallocator<"verif.second">; using Q = Mallocator<"verif.quiet", false>;
struct M { u64 allocates = 0, frees = 0, in = 0, out = 0, high = 0, cur = 0; std::map<u64, u64> live; };
struct Ev { std::string n; u64 a, s; };
static void same(String_View name, M& m, const std::map<u64, u64>& ever) {
    auto v = Profile::allocs.try_get(name); if(!v.ok()) { CHECK(m.allocates == 0 && m.frees == 0); return; }
    Profile::Alloc_Profile& p = **v; CHECK(p.allocates == m.allocates); CHECK(p.frees == m.frees); CHECK(p.allocate_size == m.in); CHECK(p.free_size == m.out); CHECK(p.high_water == m.high); CHECK(p.current_set_size == m.cur); CHECK(p.current_set.length() == m.live.size());
    for(auto& [a, n] : m.live) { auto s = p.current_set.try_get(reinterpret_cast<void*>(a)); CHECK(s.ok()); CHECK(**s == n); }
    for(auto& [a, n] : ever) if(!m.live.count(a)) CHECK(!p.current_set.contains(reinterpret_cast<void*>(a)));
}
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1); M m[4]; String_View names[4] = {"verif.first"_v, "verif.second"_v, "verif.third"_v, "verif.fourth"_v}; std::map<u64, u64> ever; struct B { void* p; u64 n; int k; }; std::vector<B> live; i64 net = 0; std::vector<Ev> ev; bool frame = false;
    auto on = [&](int k, u64 a, u64 n) { M& x = m[k]; x.allocates++; x.in += n; x.cur += n; x.high = std::max(x.high, x.cur); x.live[a] = n; ever[a] = n; if(frame) ev.push_back({std::string((const char*)names[k].data(), names[k].length()), a, n}); };
    auto off = [&](int k, u64 a) { M& x = m[k]; auto i = x.live.find(a); if(i != x.live.end()) { x.frees++; x.out += i->second; x.cur -= i->second; x.live.erase(i); } if(frame) ev.push_back({std::string((const char*)names[k].data(), names[k].length()), a, 0}); };
    u64 fake = 0x1000; std::vector<std::pair<int, u64>> fl;
    for(int i = 0; i < 20000; i++) {
        if(i % 4000 == 0) g_trace.clear();
        int c = (int)r.below(100), k = (int)r.below(3); i64 before = sys_net_allocs();
        if(c < 28) { u64 n = r.chance(10) ? 0 : r.chance(20) ? r.below(5000) + 1 : r.below(64) + 1; tr("a%d=alloc(%llu)", k, (unsigned long long)n); void* p = k == 0 ? A0::alloc(n) : k == 1 ? A1::alloc(n) : Q::alloc(n); CHECK((p == nullptr) == (n == 0)); if(n) { memset(p, 1, n); if(k < 2) on(k, (u64)p, n); live.push_back({p, n, k}); CHECK(sys_net_allocs() >= before + 1); net++; } else CHECK(sys_net_allocs() == before); }
        else if(c < 54) { if(live.empty() || r.chance(5)) { tr("free(null)"); k == 0 ? A0::free(nullptr) : k == 1 ? A1::free(nullptr) : Q::free(nullptr); if(!frame) CHECK(sys_net_allocs() == before); } else { u64 j = r.below(live.size()); B b = live[j]; live.erase(live.begin() + j); tr("a%d.free", b.k); b.k == 0 ? A0::free(b.p) : b.k == 1 ? A1::free(b.p) : Q::free(b.p); if(b.k < 2) off(b.k, (u64)b.p); net--; } }
        else if(c < 72) { int q = 2 + (int)r.below(2); u64 n = r.below(100) + 1; tr("record %d +%llu", q, (unsigned long long)n); fake += 64; Profile::alloc({names[q], reinterpret_cast<void*>(fake), n}); on(q, fake, n); fl.push_back({q, fake}); }
        else if(c < 88) { if(fl.empty()) continue; u64 j = r.below(fl.size()); auto x = fl[j]; int q = r.chance(10) ? 5 - x.first : x.first; tr("record %d -", q); if(q == x.first) fl.erase(fl.begin() + j); Profile::alloc({names[q], reinterpret_cast<void*>(x.second), 0}); off(q, x.second); }
        else if(c < 92) { if(frame) { tr("end"); Profile::end_frame(); frame = false; auto& f = Profile::this_thread.frames.back(); u64 j = 0; for(auto& e : f.allocations) { if(std::string((const char*)e.name.data(), e.name.length()).substr(0, 6) != "verif.") continue; CHECK(j < ev.size()); CHECK(std::string((const char*)e.name.data(), e.name.length()) == ev[j].n && (u64)e.address == ev[j].a && e.size == ev[j].s); j++; } CHECK(j == ev.size()); } else { tr("begin"); ev.clear(); Profile::begin_frame(); frame = true; } }
        else { i64 b0 = sys_net_allocs(); void* p = sys_alloc(r.below(40) + 1); CHECK(sys_net_allocs() == b0 + 1); sys_free(nullptr); CHECK(sys_net_allocs() == b0 + 1); sys_free(p); CHECK(sys_net_allocs() == b0); }
        if(i % 16 == 0) for(int q = 0; q < 4; q++) same(names[q], m[q], ever);
    }
    CHECK(!Profile::allocs.contains("verif.quiet"_v)); (void)net;
    return 0;
}
