#include "common.h"
#include <rpp/variant.h>
// alternatives: type A<k> checks that it is only ever used as itself
template<u64 K> struct A : Obj {
    u64 tag = 1000 + K;
    A(u64 x) noexcept : Obj(x) {}
    void me() const { if(tag != 1000 + K) fail("code for one alternative ran on another"); }
    A(A&& o) noexcept : Obj(rpp::move(o)) { o.me(); }
    A(const A& o) noexcept requires(K % 2 == 0) : Obj(o) { o.me(); }
    A clone() const noexcept requires(K % 2 == 1) { me(); return A(get()); }
    ~A() { me(); }
};
struct P16 { u64 a, b; };
template<typename T> u64 value(const T& t) { if constexpr(std::is_base_of_v<Obj, T>) { t.me(); return t.get(); } else if constexpr(std::is_same_v<T, P16>) return t.a * 3 + t.b; else return t; }
template<typename... Ts> struct Drive {
    using V = Variant<Ts...>;
    template<typename T> static T make(u64 x) { if constexpr(std::is_same_v<T, P16>) return P16{x, x + 1}; else return T(x); }
    static V mk(u64 k, u64 x) {
        alignas(V) u8 buf[sizeof(V)]; u64 i = 0; V* p = (V*)buf;
        ((i++ == k ? (void)new(p) V(make<Ts>(x)) : void()), ...);
        V r(rpp::move(*p)); p->~V(); return r;
    }
    static u64 expect(u64 k, u64 x) { u64 i = 0, r = 0; ((i++ == k ? (void)(r = value(make<Ts>(x))) : void()), ...); return r; }
    static void same(V& v, u64 k, u64 x) {
        const V& c = v; u64 n = 0;
        CHECK(v.index() == k);
        CHECK(v.match(Overload{[&](Ts& t) { n++; CHECK((Index_Of<Ts, Ts...>) == k); return value(t); }...}) == expect(k, x));
        CHECK(c.match(Overload{[&](const Ts& t) { n++; CHECK((Index_Of<Ts, Ts...>) == k); return value(t); }...}) == expect(k, x));
        CHECK(rpp::move(v).match(Overload{[&](Ts&& t) { n++; CHECK((Index_Of<Ts, Ts...>) == k); return value(t); }...}) == expect(k, x));
        CHECK(n == 3);
    }
    static void run(Rnd& r) {
        size_t alive0 = Obj::alive();
        {
            u64 N = sizeof...(Ts), k = r.below(N), x = r.below(200); tr("make %d", (int)k);
            V v = mk(k, x); same(v, k, x);
            for(int n = r.below(8); n > 0; n--) switch(r.below(3)) {
            case 0: { u64 k2 = r.below(N), x2 = r.below(200); tr("assign %d", (int)k2); V w = mk(k2, x2); v = rpp::move(w); k = k2; x = x2; same(v, k, x); } break;
            case 1: { tr("clone"); V w = v.clone(); same(w, k, x); same(v, k, x); if(r.chance(50)) v = rpp::move(w); } break;
            case 2: { tr("move"); V w = rpp::move(v); same(w, k, x); v = rpp::move(w); same(v, k, x); } break;
            }
        }
        CHECK(Obj::alive() == alive0); g_trace.clear();
    }
};
template<u64 K> struct TT { u64 v; };
struct Visit { u64 operator()(auto& t) const { return id(t); } template<u64 K> static u64 id(const TT<K>& t) { return K * 1000 + t.v; } };
template<u64... Is> void big(Index_Sequence<Is...>) {
    using V = Variant<TT<Is>...>;
    auto one = [&](u64 k, V v) { const V& c = v; tr("alternative %d of %d", (int)k, (int)sizeof...(Is)); CHECK(v.index() == k); CHECK(v.match(Visit{}) == k * 1000 + k % 7); CHECK(c.match(Visit{}) == k * 1000 + k % 7); V w = rpp::move(v); CHECK(w.index() == k && w.match(Visit{}) == k * 1000 + k % 7); };
    (one(Is, V(TT<Is>{Is % 7})), ...);
}
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    big(Make_Index_Sequence<40>{}); big(Make_Index_Sequence<255>{}); g_trace.clear();
    for(int i = 0; i < 800; i++) {
        Drive<A<0>>::run(r); Drive<u64, A<1>, A<2>>::run(r); Drive<u8, P16, u64, u32>::run(r);
        Drive<A<0>, A<1>, A<2>, A<3>, A<4>, A<5>, A<6>, A<7>>::run(r);
        Drive<A<0>, A<1>, A<2>, A<3>, A<4>, A<5>, A<6>, A<7>, A<8>>::run(r);
        Drive<A<0>, A<1>, A<2>, A<3>, A<4>, A<5>, A<6>, A<7>, A<8>, A<9>, A<10>, A<11>>::run(r);
    }
    return 0;
}
