#include "common.h"
#include <rpp/rng.h>
template<typename T> static void ints(Rnd& r, const char* nm) {
    T a = (T)r.next(), b = (T)r.next();
    switch(r.below(4)) { case 0: a = std::numeric_limits<T>::min(); b = std::numeric_limits<T>::max(); break; case 1: b = (T)(a + (T)(1 + r.below(6))); break; default: break; }
    if(a == b) return; if(b < a) std::swap(a, b);
    u64 s = r.next(); tr("%s seed %llu range [%lld, %lld)", nm, (unsigned long long)s, (long long)a, (long long)b);
    RNG::Stream g(s); std::set<T> seen; u64 span = (u64)b - (u64)a;
    for(int i = 0; i < 200; i++) { T v = g.template range<T>(a, b); if(!(v >= a && v < b)) { tr("sample %lld", (long long)v); CHECK(v >= a && v < b); } seen.insert(v); }
    if(span <= 6) CHECK(seen.size() == span); else CHECK(seen.size() > 3);
    bool lo = false, hi = false; for(int i = 0; i < 400 && !(lo && hi); i++) { T v = g.template range<T>(a, b); ((u64)v - (u64)a < span / 2 + span % 2 ? lo : hi) = true; } CHECK(lo && (hi || span == 1));
    u64 bits0 = 0, bits1 = 0; for(int i = 0; i < 200; i++) { u64 v = (u64)(std::make_unsigned_t<T>)g.template integer<T>(); bits1 |= v; bits0 |= ~v; } u64 m = sizeof(T) == 8 ? ~0ull : (1ull << (8 * sizeof(T))) - 1; CHECK((bits1 & m) == m && (bits0 & m) == m);
}
template<typename F> static void units(Rnd& r) {
    u64 s = r.next(); tr("unit seed %llu", (unsigned long long)s); RNG::Stream g(s); int bin[8] = {};
    for(int i = 0; i < 400; i++) { F u = g.template unit<F>(); tr("u=%.20g", (double)u); CHECK(u >= 0 && u < 1); bin[(int)(u * 8)]++; g_trace.resize(g_trace.find("u=")); CHECK(!g.template coin_flip<F>(0)); CHECK(g.template coin_flip<F>(1)); CHECK(!g.template coin_flip<F>(-1)); }
    for(int b : bin) CHECK(b > 0);
}
static u64 unhash(u64 t) {   // the state whose successor is t, when the step is the library's hash
    auto inv = [](u64 a) { u64 x = a; for(int i = 0; i < 6; i++) x *= 2 - a * x; return x; }; auto ux = [](u64 y, int k) { u64 x = y; for(int i = 0; i < 8; i++) x = y ^ (x >> k); return x; };
    t = ux(t, 17); t *= inv(0xD8081C73F0FAA127ul); t = ux(t, 15); t -= 0xDB8BDB77D7DF9811ul; t = ux(t, 13); t *= inv(0xEC705118C5FBDA13ul); t = ux(t, 11); t -= 0x9D9FDC30FD876B1Dul; t = ux(t, 9); t *= inv(0xA278032FB08BA40Dul); return t;
}
static void edges(Rnd& r) {   // words at the ends of their range
    const u64 W[] = {0, 1, ~0ull, ~0ull - 1, 1ull << 63, (1ull << 63) - 1, ~0ull << 40, ~0ull << 11, (~0ull << 40) - 1, r.next()};
    for(u64 w : W) { u64 s = unhash(w); { RNG::Stream g(s); if(g() != w) continue; } tr("state %llu", (unsigned long long)s);
        { RNG::Stream g(s); f32 u = g.unit<f32>(); CHECK(u >= 0 && u < 1); } { RNG::Stream g(s); f64 u = g.unit<f64>(); CHECK(u >= 0 && u < 1); } { RNG::Stream g(s); CHECK(!g.coin_flip<f32>(0)); } { RNG::Stream g(s); CHECK(g.coin_flip<f32>(1)); } { RNG::Stream g(s); CHECK(g.coin_flip<f64>(1)); }
        { i32 a = (i32)r.next(), b = (i32)r.next(); if(a < b) { RNG::Stream g(s); i32 v = g.range<i32>(a, b); CHECK(v >= a && v < b); } } { i64 a = (i64)r.next(), b = (i64)r.next(); if(a < b) { RNG::Stream g(s); i64 v = g.range<i64>(a, b); CHECK(v >= a && v < b); } { RNG::Stream g(s); u64 v = g.range<u64>(0, ~0ull); CHECK(v < ~0ull); } }
        { RNG::Stream g(s); i8 v = g.range<i8>(-128, 127); CHECK(v < 127); } }
}
static void round_(Rnd& r) {
    switch(r.below(11)) { case 0: ints<u8>(r, "u8"); break; case 1: ints<u16>(r, "u16"); break; case 2: ints<u32>(r, "u32"); break; case 3: ints<u64>(r, "u64"); break; case 4: ints<i8>(r, "i8"); break; case 5: ints<i16>(r, "i16"); break; case 6: ints<i32>(r, "i32"); break; case 7: ints<i64>(r, "i64"); break; case 8: units<f32>(r); break; case 9: units<f64>(r); break; default: edges(r); }
    u64 s = r.below(3) ? r.next() : r.below(3); RNG::Stream a(s), b; b.seed(s); for(int i = 0; i < 20; i++) CHECK(a() == b()); CHECK(a.unit<f32>() == b.unit<f32>()); CHECK(a.range<i32>(-5, 77) == b.range<i32>(-5, 77)); CHECK(a() == b());
    u64 n = r.below(12); tr("shuffle %llu", (unsigned long long)n); Vec<u64> v(n), w(n); Vec<Vec<u64>> x(n); std::multiset<u64> m; for(u64 i = 0; i < n; i++) { u64 e = r.below(8); v.push(e); w.push(e); m.insert(e); Vec<u64> y; y.push(e); x.push(rpp::move(y)); }
    bool ab = aborts([&] { a.shuffle(v); a.shuffle(x); _exit(99); }); CHECK(!ab); a.shuffle(v); b.shuffle(w); CHECK(v.length() == n); std::multiset<u64> q; for(u64 i = 0; i < n; i++) { q.insert(v[i]); CHECK(v[i] == w[i]); } CHECK(q == m);
    a.shuffle(x); std::multiset<u64> z; for(auto& e : x) { CHECK(e.length() == 1); z.insert(e[0]); } CHECK(z == m);
}
int main(int c, char** v) { u64 seed = c > 1 ? strtoull(v[1], 0, 10) : 1; for(int i = 0; i < 3000; i++) { g_trace.clear(); Rnd r(seed * 7919 + i); round_(r); } puts("ok"); }
