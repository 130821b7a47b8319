// random make/destroy/clear/move histories of pools against a model of the backing allocator
#include "common.h"
#include <set>
#include <atomic>
#include <map>
static std::set<void*> g_out; static u64 g_bad = 0, g_minsz = ~0ull; static bool g_off = false;
struct Backing { constexpr static Literal name = "Backing"; static void* alloc(u64 n) noexcept { void* p = malloc(n); if(n < g_minsz) g_minsz = n; g_out.insert(p); return p; }
    static void free(void* p) noexcept { if(!p) return; if(!g_out.erase(p)) { g_bad++; tr("a block is returned twice"); return; } ::free(p); } };
static std::map<void*, u64> g_live;
template<u64 N> struct PObj { u64 x[N]; explicit PObj(u64 v) noexcept { if(g_live.count(this)) { tr("constructed over a live object"); g_bad++; } g_live[this] = v; for(auto& e : x) e = v; }
    ~PObj() noexcept { if(!g_live.erase(this)) { tr("destroyed an object that is not alive"); g_bad++; } for(auto& e : x) e = 0xdeadull; } };
struct Small { u32 a; explicit Small(u64 v) noexcept : a((u32)v) {} };
template<typename O> static void same(std::vector<O*>& v, std::vector<u64>& x) { CHECK(v.size() == g_live.size()); for(u64 i = 0; i < v.size(); i++) { CHECK(g_live.count(v[i]) && g_live[v[i]] == x[i]); for(auto e : v[i]->x) CHECK(e == x[i]); } CHECK(!g_bad); }
template<u64 N> static void lists(Rnd& r) {
    using O = PObj<N>; using F = Free_List<O, Backing>; g_trace.clear(); g_live.clear();
    { F a, b; std::vector<O*> v; std::vector<u64> x; std::set<void*> idle[2];
      for(int i = 0, n = 5 + (int)r.below(60); i < n; i++) {
        u64 k = r.below(20); int w = (int)r.below(2); F& l = w ? b : a; auto& id = idle[w];
        if(k < 9) { u64 c = r.below(~0ull); tr("make %d", w); bool had = !id.empty(); u64 out = g_out.size(); O* p = l.make(static_cast<u64&&>(c)); CHECK(g_out.count(p)); for(auto q : v) CHECK(q != p);
            if(had) { CHECK(id.erase(p)); CHECK(g_out.size() == out); } else { CHECK(g_out.size() == out + 1); CHECK(!idle[0].count(p) && !idle[1].count(p)); } CHECK(!idle[1 - w].count(p)); v.push_back(p); x.push_back(c); }
        else if(k < 16 && !v.empty()) { u64 j = r.below(v.size()); tr("destroy %d", w); O* p = v[j]; l.destroy(p); id.insert(p); v.erase(v.begin() + (long)j); x.erase(x.begin() + (long)j); CHECK(!g_live.count(p)); }
        else if(k == 16) { tr("clear %d", w); l.clear(); for(auto p : id) CHECK(!g_out.count(p)); id.clear(); }
        else if(k == 17) { tr("assign %d", w); auto& o = idle[1 - w]; l = rpp::move(w ? a : b); for(auto p : id) CHECK(!g_out.count(p)); id = o; o.clear(); }
        else if(k == 18) { tr("move %d", w); F c(rpp::move(l)); std::set<void*> m = id; id.clear(); if(r.chance(50)) { u64 c0 = 7; O* p = l.make(static_cast<u64&&>(c0)); CHECK(!m.count(p)); v.push_back(p); x.push_back(7); } (void)c; for(auto p : m) CHECK(g_out.count(p)); tr("end move");
            if(r.chance(50)) { c.clear(); for(auto p : m) CHECK(!g_out.count(p)); l.clear(); id.clear(); } else { F d; d = rpp::move(c); } for(auto p : m) { (void)p; } id.clear(); l.clear(); }
        same(v, x); CHECK(g_out.size() == v.size() + idle[0].size() + idle[1].size());
      }
      for(auto p : v) a.destroy(p); CHECK(g_live.empty()); }
    CHECK(g_out.empty()); CHECK(!g_bad); CHECK(g_minsz >= sizeof(void*) && (N > 1 ? g_minsz >= sizeof(O) : true)); g_minsz = ~0ull;
}
static void small(Rnd& r) {
    g_trace.clear(); { Free_List<Small, Backing> l; std::vector<Small*> v; std::vector<u32> x; u64 idle = 0;
      for(int i = 0, n = 5 + (int)r.below(60); i < n; i++) {
        u64 k = r.below(10); if(k < 5) { u64 c = r.below(~0ull) & 0xffffffff; tr("make small"); u64 o = g_out.size(); Small* p = l.make(static_cast<u64&&>(c)); CHECK(g_out.size() == o + (idle ? 0 : 1)); if(idle) idle--; for(auto q : v) CHECK(q != p); v.push_back(p); x.push_back((u32)c); }
        else if(k < 9 && !v.empty()) { tr("destroy small"); u64 j = r.below(v.size()); l.destroy(v[j]); idle++; v.erase(v.begin() + (long)j); x.erase(x.begin() + (long)j); } else if(k == 9) { tr("clear"); l.clear(); idle = 0; CHECK(g_out.size() == v.size()); }
        for(u64 j = 0; j < v.size(); j++) CHECK(v[j]->a == x[j]); CHECK(!g_bad); CHECK(g_out.size() == v.size() + idle); }
      for(auto p : v) l.destroy(p); }
    CHECK(g_out.empty()); CHECK(g_minsz >= sizeof(void*)); g_minsz = ~0ull;
}
template<u64 N> static void mpool(Rnd& r) {
    using O = PObj<N>; g_trace.clear(); g_live.clear(); std::vector<O*> v; std::vector<u64> x;
    for(int i = 0, n = 5 + (int)r.below(80); i < n; i++) {
        if(r.chance(55)) { u64 c = r.below(~0ull); tr("Mpool make"); O* p = Mpool::make<O>(static_cast<u64&&>(c)); for(auto q : v) CHECK(q != p); v.push_back(p); x.push_back(c); } else if(!v.empty()) { tr("Mpool destroy"); u64 j = r.below(v.size()); Mpool::destroy(v[j]); v.erase(v.begin() + (long)j); x.erase(x.begin() + (long)j); }
        same(v, x); }
    for(auto p : v) Mpool::destroy(p); CHECK(g_live.empty() && !g_bad);
}
#include <thread>
struct PVal { u64 a, b; explicit PVal(u64 v) noexcept : a(v), b(~v) {} };
static void threads() {
    std::vector<std::thread> t; static std::atomic<int> bad; bad = 0;
    for(int k = 0; k < 4; k++) t.emplace_back([k] { for(int i = 0; i < 4000; i++) { PVal* p[3]; for(int j = 0; j < 3; j++) p[j] = Mpool::make<PVal>((u64)(k * 1000000 + i * 3 + j)); for(int j = 0; j < 3; j++) { if(p[j]->a != (u64)(k * 1000000 + i * 3 + j) || p[j]->b != ~p[j]->a) bad++; Mpool::destroy(p[j]); } } });
    for(auto& x : t) x.join(); g_trace.clear(); tr("four threads make and destroy"); CHECK(!bad);
}
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    for(int round = 0; round < 3000; round++) { lists<1>(r); lists<2>(r); lists<5>(r); small(r); mpool<1>(r); mpool<3>(r); }
    for(int i = 0; i < 5; i++) threads();
    Profile::finalize();
    return 0;
}
