// random histories on maps whose hash clusters keys (collisions, wrap-around) against std::map, with lifetimes checked
#include "common.h"
static u64 mode = 0;
static u64 hashed(u64 v) {
    switch(mode) {
    case 0: return 0;                                                   // one home
    case 1: return ~0ull;                                               // the last home: every probe wraps around
    case 2: return (v * 0x9E3779B97F4A7C15ull) & 0xC000000000000000ull; // few homes
    case 3: return 0xE000000000000000ull + ((v % 7) << 58);             // the last homes
    case 4: return v << 61;
    case 5: return v << 59;
    default: return v * 0x9E3779B97F4A7C15ull;
    }
}
struct PK { u64 v; PK(u64 x) : v(x) {} bool operator==(const PK&) const noexcept = default; };
inline u64 val(const PK& x) { return x.v; }
namespace rpp::Hash {
template<> struct Hash<PK> { static u64 hash(const PK& k) noexcept { return hashed(k.v); } };
template<> struct Hash<Obj> { static u64 hash(const Obj& k) noexcept { return hashed(k.get()); } };
template<> struct Hash<ObjC> { static u64 hash(const ObjC& k) noexcept { return hashed(k.get()); } };
}
#define FM(T) namespace rpp::Reflect { template<> struct Refl<T> { constexpr static Literal name = #T; constexpr static Kind kind = Kind::record_; }; } \
    namespace rpp::Format { template<> struct Measure<T> { static u64 measure(const T&) noexcept { return 0; } }; template<Allocator O> struct Write<O, T> { static u64 write(String<O>&, u64 i, const T&) noexcept { return i; } }; }
FM(PK) FM(Obj) FM(ObjC)
template<typename K, typename V> struct Drive {
    using M = Map<K, V, RA>; using R = std::map<u64, u64>;
    static void same(M& m, const R& r, u64 range) {
        CHECK(m.length() == r.size()); CHECK(m.empty() == r.empty());
        R s; size_t n = 0; for(auto& p : m) { s[val(p.first)] = val(p.second); n++; }
        CHECK(n == r.size()); CHECK(s == r);
        const M& c = m; n = 0; for(const auto& p : c) { auto i = r.find(val(p.first)); CHECK(i != r.end() && i->second == val(p.second)); n++; }
        CHECK(n == r.size());
        for(u64 x = 0; x < range; x++) {
            K k(x); auto i = r.find(x); bool in = i != r.end();
            CHECK(m.contains(k) == in); auto g = m.try_get(k); CHECK(g.ok() == in); if(in) CHECK(val(**g) == i->second);
            auto h = c.try_get(k); CHECK(h.ok() == in); if(in) { CHECK(val(**h) == i->second); CHECK(val(m.get(k)) == i->second); CHECK(val(c.get(k)) == i->second); }
        }
    }
    static void run(Rnd& r) {
        size_t alive0 = Obj::alive(), blocks0 = RA::blocks().size();
        {
            mode = r.below(8); tr("hash mode %d", (int)mode); alarm(20);
            M m; R o; u64 range = r.chance(10) ? 90 : r.chance(50) ? 12 : 30; int n = r.in(1, range > 40 ? 250 : 70);
            if(r.chance(30)) { u64 c = r.below(20); tr("Map(%d)", (int)c); m = M(c); }
            else if(r.chance(10)) { u64 a = r.below(3), b = r.below(3); tr("Map{%d:1,%d:2}", (int)a, (int)b); m = M(Pair<K, V>(K(a), V(1)), Pair<K, V>(K(b), V(2))); o[a] = 1; o[b] = 2; }
            int bias = r.in(1, 6);
            for(int i = 0; i < n; i++) {
                u64 x = r.below(range), v = r.below(1000);
                switch(r.below(14)) {
                case 0: case 1: case 2: { tr("insert %d:%d", (int)x, (int)v); K k(x); V w(v); CHECK(val(m.insert(rpp::move(k), rpp::move(w))) == v); o[x] = v; } break;
                case 3: { tr("emplace %d:%d", (int)x, (int)v); K k(x); CHECK(val(m.emplace(rpp::move(k), v)) == v); o[x] = v; } break;
                case 4: { tr("get_or_insert %d", (int)x); V* g; if constexpr(Copy_Constructable<K>) { K k(x); g = r.chance(50) ? &m.get_or_insert(k) : &m.get_or_insert(rpp::move(k)); } else { K k(x); g = &m.get_or_insert(rpp::move(k)); } auto q = o.insert({x, 0}); CHECK(val(*g) == q.first->second); } break;
                case 5: if constexpr(Copy_Constructable<K> && Copy_Constructable<V>) { tr("insert copies %d:%d", (int)x, (int)v); K k(x), k2(x); V w(v), w2(v); m.insert(k, w); if(r.chance(50)) m.insert(rpp::move(k), w); if(r.chance(50)) m.insert(k2, rpp::move(w2)); o[x] = v; } break;
                case 6: case 7: case 8: case 9: if((int)r.below(7) < bias) { tr("erase %d", (int)x); K k(x); CHECK(m.try_erase(k) == (o.erase(x) == 1)); } else if(o.count(x)) { tr("erase! %d", (int)x); K k(x); m.erase(k); o.erase(x); } break;
                case 10: { tr("clone"); M c = m.clone(); same(c, o, range); same(m, o, range); if(r.chance(50)) m = rpp::move(c); } break;
                case 11: { tr("move"); M c = rpp::move(m); same(c, o, range); CHECK(m.empty() && m.length() == 0); M z; z.insert(K(1), V(2)); z = rpp::move(c); CHECK(c.empty()); m = rpp::move(z); } break;
                case 12: if(r.chance(15)) { tr("clear"); m.clear(); o.clear(); } else if(r.chance(40)) { u64 c = r.below(70); tr("reserve %d", (int)c); m.reserve(c); } break;
                case 13: if(r.chance(20)) { tr("grow"); m.grow(); } break;
                }
                same(m, o, range);
            }
            static int once = 0;
            if(once++ < 2) { K k(range + 5); CHECK(aborts([&] { M e; (void)e.get(k); })); CHECK(aborts([&] { m.erase(k); })); CHECK(aborts([&] { (void)m.get(k); })); CHECK(aborts([&] { M e; e.erase(k); })); }
        }
        CHECK(Obj::alive() == alive0); CHECK(RA::blocks().size() == blocks0);
        g_trace.clear();
    }
};
static void hang(int) { fail("an operation does not end"); }
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1); signal(SIGALRM, hang);
    for(int i = 0; i < 600; i++) { Drive<PK, u64>::run(r); Drive<Obj, Obj>::run(r); Drive<ObjC, ObjC>::run(r); }
    return 0;
}
