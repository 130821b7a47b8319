#include "common.h"
#include <rpp/tuple.h>
template<typename T> u64 V(const T& t) { if constexpr(std::is_base_of_v<Obj, T>) return t.get(); else return t; }
template<typename S, typename... Ts> struct Drive {
    template<u64... I> static void same(S& t, const u64* e, Index_Sequence<I...>) {
        const S& c = t; (void)c;
        ([&] { CHECK(V(t.template get<I>()) == (Ts)e[I]); CHECK(V(c.template get<I>()) == (Ts)e[I]); CHECK((const void*)&t.template get<I>() == (const void*)&c.template get<I>()); }(), ...);
        const void* a[] = {&t.template get<I>()...};
        for(u64 i = 0; i < sizeof...(I); i++) for(u64 j = 0; j < i; j++) CHECK(a[i] != a[j]);
        if constexpr(requires { t.length(); }) {
            CHECK(t.length() == sizeof...(I)); u64 n = 0;
            u64 r = t.invoke([&](auto&&... xs) { n++; u64 i = 0; ([&] { CHECK(&xs == a[i]); i++; }(), ...); return i * 5; });
            CHECK(n == 1 && r == sizeof...(I) * 5);
        } else { CHECK(&t.first == a[0]); CHECK(&t.second == a[1]); }
    }
    static void run(Rnd& r) {
        size_t al = Obj::alive();
        {
            constexpr u64 N = sizeof...(Ts); u64 x[N], y[N]; for(u64 i = 0; i < N; i++) x[i] = r.below(200), y[i] = r.below(200);
            auto seq = Make_Index_Sequence<N>{};
            auto mk = [&]<u64... I>(u64* v, Index_Sequence<I...>) { return S(Ts(v[I])...); };
            tr("%d components", (int)N);
            S a = mk(x, seq), b = mk(y, seq); same(a, x, seq); same(b, y, seq);
            { S c = a.clone(); same(c, x, seq); same(a, x, seq); S d = rpp::move(c); same(d, x, seq); b = rpp::move(d); same(b, x, seq); same(a, x, seq); }
            if constexpr(std::is_copy_constructible_v<S> && (std::is_trivially_copyable_v<Ts> && ...)) { S e = mk(y, seq); S c = e; same(c, y, seq); c = a; same(c, x, seq); same(e, y, seq); }
            [&]<u64... I>(Index_Sequence<I...>) {
                auto tp = [&](auto... vs) { if constexpr((std::is_copy_constructible_v<Ts> && ...)) { S c(vs...); same(c, x, seq); } };
                tp(Ts(x[I])...);
            }(seq);
        }
        CHECK(Obj::alive() == al); g_trace.clear();
    }
};
template<typename... Ts> void tup(Rnd& r) { Drive<Tuple<Ts...>, Ts...>::run(r); }
template<typename A, typename B> void par(Rnd& r) {
    using P = Pair<A, B>; Drive<P, A, B>::run(r);
    if constexpr(std::is_copy_constructible_v<A> && std::is_copy_constructible_v<B>) {
        u64 x = r.below(99), y = r.below(99); A a(x); B b(y);
        P p(a, b), q(a, B(y)), s(A(x), b); CHECK(V(p.first) == x && V(p.second) == y && V(q.first) == x && V(q.second) == y && V(s.first) == x && V(s.second) == y);
        P t = p; CHECK(V(t.first) == x && V(t.second) == y); A a2(x + 1); B b2(y + 2); P u(a2, b2); u = p; CHECK(V(u.first) == x && V(u.second) == y);
    }
    { u64 x = r.below(9), y = r.below(9); P p(static_cast<A>(x), static_cast<B>(y)); auto& [f, s] = p; CHECK(V(f) == x && V(s) == y); }
}
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    for(int i = 0; i < 2000; i++) {
        tup<Obj>(r); tup<ObjC, u64>(r); tup<u64, Obj, ObjC>(r); tup<u8, Obj, u64, u16, ObjC>(r); tup<u64, u32, u64, u64>(r); tup<Obj, Obj, Obj, Obj, Obj, Obj, Obj>(r);
        par<u64, Obj>(r); par<ObjC, u64>(r); par<Obj, ObjC>(r); par<u64, u32>(r); par<Obj, Obj>(r); par<ObjC, ObjC>(r); par<u64, ObjC>(r);
        Obj::live().clear();
        { u64 x = r.below(99), y = r.below(99), z = r.below(99); Tuple<u64, Obj, ObjC> t(u64{x}, Tuple<Obj, ObjC>{Obj{y}, ObjC{z}}); CHECK(t.get<0>() == x && t.get<1>().get() == y && t.get<2>().get() == z);
          auto& [a, b, c] = t; CHECK(a == x && b.get() == y && c.get() == z); }
        { Tuple<> e; int n = 0; CHECK(e.length() == 0); CHECK(e.clone().invoke([&] { n++; return 4; }) == 4); CHECK(n == 1); }
    }
}
