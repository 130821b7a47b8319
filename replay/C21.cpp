#include "common.h"
#include <limits.h>
static u64 pick(Rnd& r, int w) {
    u64 m = w == 64 ? ~0ull : (1ull << w) - 1;
    switch(r.below(6)) {
    case 0: return r.below(40) & m;
    case 1: return (m - r.below(40)) & m;
    case 2: return ((1ull << r.below(w)) + r.below(3) - 1) & m;
    case 3: return (m >> r.below(w)) & m;
    default: return (r.next() >> r.below(w)) & m;
    }
}
template<typename T> void order(Rnd& r) {
    T v[7]; for(auto& x : v) x = (T)pick(r, 8 * sizeof(T));
    T lo = v[0], hi = v[0];
    if(v[1] < lo) lo = v[1]; if(v[1] > hi) hi = v[1];
    tr("%lld %lld", (long long)v[0], (long long)v[1]);
    CHECK(Math::min(v[0], v[1]) == lo); CHECK(Math::max(v[0], v[1]) == hi);
    T x = v[2]; CHECK(Math::clamp(x, lo, hi) == (x < lo ? lo : x > hi ? hi : x));
    T a = v[0], b = v[0];
    auto acc = [&](T y) { if(y < a) a = y; if(y > b) b = y; };
    CHECK(Math::min({v[0]}) == v[0]); CHECK(Math::max({v[0]}) == v[0]);
    acc(v[1]); CHECK(Math::min({v[0], v[1]}) == a); CHECK(Math::max({v[0], v[1]}) == b);
    acc(v[2]); CHECK(Math::min({v[0], v[1], v[2]}) == a); CHECK(Math::max({v[0], v[1], v[2]}) == b);
    acc(v[3]); acc(v[4]); CHECK(Math::min({v[0], v[1], v[2], v[3], v[4]}) == a); CHECK(Math::max({v[0], v[1], v[2], v[3], v[4]}) == b);
    acc(v[5]); acc(v[6]); CHECK(Math::min({v[0], v[1], v[2], v[3], v[4], v[5], v[6]}) == a); CHECK(Math::max({v[0], v[1], v[2], v[3], v[4], v[5], v[6]}) == b);
}
template<typename T> void power(Rnd& r) {
    using U = If<sizeof(T) == 8, u64, u32>;
    T b = (T)pick(r, 8 * sizeof(T)), e = (T)r.below(sizeof(T) == 1 ? 100 : 300); if(std::is_signed_v<T>) { b = (T)r.below(7) - 3; e = r.below(b * b > 4 ? 12 : 20); }
    U w = 1; for(T i = 0; i < e; i++) w *= (U)b;
    tr("pow(%lld, %lld)", (long long)b, (long long)e);
    CHECK(Math::pow(b, e) == (T)w);
}
template<typename T> void bits(Rnd& r) {
    int w = 8 * sizeof(T); T x = (T)pick(r, w); tr("x = %llu", (unsigned long long)x);
    int pc = 0, top = -1; for(int i = 0; i < w; i++) if(x >> i & 1) pc++, top = i;
    CHECK(Math::popcount(x) == (T)pc); CHECK(Math::ctlz(x) == (T)(w - 1 - top));
    if(x) CHECK(Math::log2(x) == (T)top);
    CHECK(Math::prev_pow2(x) == (x ? (T)1 << top : 0));
    if(x && x <= (T)1 << (w - 1)) CHECK(Math::next_pow2(x) == ((x & (x - 1)) ? (T)2 << top : x));
    T a = (T)1 << r.below(w); 
    CHECK(Math::align_down_pow2(x, a) == x - x % a);
    T up = x % a ? x - x % a + a : x; if(!(x % a) || x - x % a <= (T)-1 - a) CHECK(Math::align_pow2(x, a) == up || x > (T)0 - a);
    a = (T)pick(r, w); if(!a) a = 3;
    CHECK(Math::align_down(x, a) == x - x % a);
    if(x % a == 0 || x - x % a <= (T)-1 - a) CHECK(Math::align(x, a) == (x % a ? x - x % a + a : x));
}
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    for(int i = 0; i < 200000; i++) {
        g_trace.clear();
        order<u8>(r); order<u16>(r); order<u32>(r); order<u64>(r); order<i8>(r); order<i16>(r); order<i32>(r); order<i64>(r);
        power<u8>(r); power<u32>(r); power<u64>(r); power<i32>(r); power<i64>(r);
        bits<u32>(r); bits<u64>(r);
        i32 a = (i32)pick(r, 32); if(a != INT_MIN) CHECK(Math::abs(a) == (a < 0 ? -a : a));
        i64 b = (i64)pick(r, 64); if(b != LLONG_MIN) CHECK(Math::abs(b) == (b < 0 ? -b : b));
        u64 k = r.below(1u << 20); CHECK(Math::KB(k) == k << 10 && Math::MB(k) == k << 20 && Math::GB(k) == k << 30);
        f32 x = (f32)((i32)pick(r, 32)) / 7, y = (f32)((i32)pick(r, 32)) / 3, z = (f32)r.below(1000);
        CHECK(Math::min(x, y) == (x < y ? x : y) && Math::max(x, y) == (x > y ? x : y)); CHECK(Math::max({x, y, z}) == Math::max(Math::max(x, y), z) && Math::min({x, y, z}) == Math::min(Math::min(x, y), z));
        CHECK(Math::abs(x) == (x < 0 ? -x : x)); CHECK(Math::sign(x) == (x > 0) - (x < 0)); f32 nx = -Math::abs(x) - 1; CHECK(Math::max({nx, nx - 1}) == nx);
    }
}
