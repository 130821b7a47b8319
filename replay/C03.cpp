#include "common.h"
template<typename T, u64 N> static void arr(Rnd& r) {
    size_t alive0 = Obj::alive();
    {
        using A = Array<T, N>;
        A a; std::vector<u64> m(N, 0);
        for(u64 i = 0; i < N; i++) CHECK(val(a[i]) == 0);
        for(int i = 0; i < 10; i++) { u64 k = r.below(N); m[k] = r.next(); a[k] = T(m[k]); }
        auto same = [&](const A& x) {
            CHECK(x.length() == N); CHECK((u64)(x.end() - x.begin()) == N); CHECK(x.data() == x.begin()); CHECK(x.slice().length() == N && x.slice().data() == x.data());
            for(u64 i = 0; i < N; i++) { CHECK(val(x[i]) == m[i]); CHECK(val(x.begin()[i]) == m[i]); CHECK(&x[i] == x.data() + i); }
        };
        same(a);
        tr("clone"); A b = a.clone(); same(a); same(b);
        tr("move"); A c = rpp::move(b); same(c); A d; d = rpp::move(c); same(d);
        if constexpr(Copy_Constructable<T>) { tr("copy"); A e = a; same(e); same(a); A f; f = a; same(f); same(a); }
        CHECK(aborts([&] { (void)val(a[N]); })); CHECK(aborts([&] { (void)val(((const A&)a)[N]); })); CHECK(aborts([&] { (void)val(a[~0ull]); }));
    }
    CHECK(Obj::alive() == alive0);
    g_trace.clear();
}
static void slices(Rnd& r, bool ab) {
    u64 n = r.below(12); std::vector<u64> m(n + 1); for(auto& x : m) x = r.next();
    Slice<u64> s(m.data(), n);
    CHECK(s.length() == n && s.empty() == (n == 0) && s.bytes() == n * 8 && s.data() == m.data() && s.begin() == m.data() && s.end() == m.data() + n);
    const Slice<u64> cs = s; Slice<const u64> k = s;
    CHECK(k.length() == n && k.data() == m.data()); CHECK(cs.begin() == m.data() && cs.end() == m.data() + n && cs.data() == m.data());
    for(u64 i = 0; i < n; i++) { CHECK(&s[i] == &m[i]); CHECK(&cs[i] == &m[i]); CHECK(&k[i] == &m[i]); }
    if(n) { CHECK(&s.front() == &m[0] && &s.back() == &m[n - 1]); }
    u64 a = r.below(n + 1), l = r.below(n - a + 1);
    tr("sub(%d,%d) of %d", (int)a, (int)l, (int)n);
    Slice<u64> t = s.sub(a, l); CHECK(t.length() == l && t.data() == m.data() + a);
    CHECK(s.to_bytes().length() == n * 8 && (void*)s.to_bytes().data() == m.data()); CHECK(cs.to_bytes().length() == n * 8);
    Slice<u64> u = s.clone(); CHECK(u.length() == n && u.data() == s.data());
    Slice<u64> w; CHECK(w.empty() && w.length() == 0); w = s; CHECK(w.length() == n && w.data() == s.data());
    if(ab) {
        CHECK(aborts([&] { (void)s[n]; })); CHECK(aborts([&] { (void)cs[n]; })); CHECK(aborts([&] { (void)s[~0ull]; }));
        CHECK(aborts([&] { (void)s.sub(a, n - a + 1); })); CHECK(aborts([&] { (void)s.sub(n + 1, 0); })); CHECK(aborts([&] { (void)s.sub(2, ~0ull); })); CHECK(aborts([&] { (void)s.sub(~0ull, 1); }));
        Slice<u64> e(m.data(), 0); CHECK(aborts([&] { (void)e.front(); })); CHECK(aborts([&] { (void)e.back(); }));
    }
    g_trace.clear();
}
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    for(int i = 0; i < 3; i++) { arr<u64, 1>(r); arr<u64, 7>(r); arr<Obj, 1>(r); arr<Obj, 5>(r); arr<ObjC, 2>(r); arr<ObjC, 5>(r); arr<u64, 100>(r); }
    for(int i = 0; i < 3000; i++) slices(r, i < 4);
    return 0;
}
