// FLAGS: -fno-sanitize=float-divide-by-zero
#include "common.h"
#include <rpp/vmath.h>
// small exactly representable values: every product, sum and quotient compared here is computed exactly or identically
template<typename T> static T pick(Rnd& r) { i64 v = (i64)r.below(41) - 20; if(std::is_unsigned_v<T>) v = r.below(4) ? r.below(50) : (i64)(u32)r.next(); return (T)v; }
static double dif(double a, double b) { return std::fabs(a - b) / (1 + std::fabs(a) + std::fabs(b)); }
#define EQ(a, b) CHECK(dif((double)(a), (double)(b)) < 1e-5)
template<typename T, u64 N> void go(Rnd& r, const char* nm) {
    using V = Math::Vect<T, N>; V a, b, lo, hi; T s = pick<T>(r); if(s == 0) s = 3;
    for(u64 i = 0; i < N; i++) { a[i] = pick<T>(r); b[i] = r.below(3) ? pick<T>(r) : a[i]; lo[i] = pick<T>(r); hi[i] = lo[i] + (T)r.below(9); }
    tr("%s s=%g", nm, (double)s); for(u64 i = 0; i < N; i++) tr("a%d=%g b%d=%g", (int)i, (double)a[i], (int)i, (double)b[i]);
    V d = b; for(u64 i = 0; i < N; i++) if(d[i] == 0) d[i] = 5;
    const V a0 = a, b0 = b, d0 = d;
    auto same = [](V x, V y) { for(u64 i = 0; i < N; i++) if(x[i] != y[i]) return false; return true; };
#define ALL(e, w) do { V g_ = (e); for(u64 i = 0; i < N; i++) EQ(g_[i], (T)(w)); CHECK(same(a, a0) && same(b, b0) && same(d, d0)); } while(0)
    ALL(a + b, a[i] + b[i]); ALL(a - b, a[i] - b[i]); ALL(a * b, a[i] * b[i]); ALL(a / d, a[i] / d[i]);
    ALL(a + s, a[i] + s); ALL(a - s, a[i] - s); ALL(a * s, a[i] * s); ALL(a / s, a[i] / s);
    ALL(s + a, s + a[i]); ALL(s - a, s - a[i]); ALL(s * a, s * a[i]); ALL(s / d, s / d[i]);
#define CMP(op, e, w) do { V g_ = a; V r_ = (g_ op e); for(u64 i = 0; i < N; i++) { EQ(g_[i], (T)(w)); EQ(r_[i], g_[i]); } } while(0)
    CMP(+=, b, a[i] + b[i]); CMP(-=, b, a[i] - b[i]); CMP(*=, b, a[i] * b[i]); CMP(/=, d, a[i] / d[i]); CMP(+=, s, a[i] + s); CMP(-=, s, a[i] - s); CMP(*=, s, a[i] * s); CMP(/=, s, a[i] / s);
    { V g = a; g += g; for(u64 i = 0; i < N; i++) EQ(g[i], (T)(a[i] + a[i])); } { V g = a; g -= g; for(u64 i = 0; i < N; i++) EQ(g[i], T{}); } { V g = a; g *= g; for(u64 i = 0; i < N; i++) EQ(g[i], (T)(a[i] * a[i])); }
    CHECK((a == b) == same(a, b)); CHECK((a != b) == !same(a, b)); CHECK(a == a); CHECK(!(a != a));
    V near = a; u64 k = r.below(N); near[k] = near[k] + 1; CHECK(!(a == near)); CHECK(a != near); CHECK(same(near, near)); for(u64 i = 0; i < N; i++) CHECK(i == k || near[i] == a[i]);
    T dp = 0, n2 = 0, mn = a[0], mx = a[0]; for(u64 i = 0; i < N; i++) { dp += a[i] * b[i]; n2 += a[i] * a[i]; if(a[i] < mn) mn = a[i]; if(a[i] > mx) mx = a[i]; }
    EQ(Math::dot(a, b), dp); EQ(a.norm2(), n2); EQ(a.min(), mn); EQ(a.max(), mx);
    ALL(Math::min(a, b), a[i] < b[i] ? a[i] : b[i]); ALL(Math::max(a, b), a[i] > b[i] ? a[i] : b[i]); ALL(Math::clamp(a, lo, hi), a[i] < lo[i] ? lo[i] : a[i] > hi[i] ? hi[i] : a[i]);
    ALL(V{}, 0); ALL(V{s}, s); u64 c = 0; for(T x : a) { CHECK(x == a[c]); c++; } CHECK(c == N); const V ca = a; CHECK(ca[N - 1] == a[N - 1] && *ca.begin() == a[0]);
    if constexpr(!std::is_unsigned_v<T>) { ALL(-a, -a[i]); ALL(a.abs(), a[i] < 0 ? -a[i] : a[i]); ALL(Math::abs(a), a[i] < 0 ? -a[i] : a[i]); }
    if constexpr(N == 2) { V m{a[0], a[1]}; CHECK(same(m, a)); CHECK(a.x == a[0] && a.y == a[1]); }
    if constexpr(N == 3) { V m{a[0], a[1], a[2]}; CHECK(same(m, a)); CHECK(a.xy()[0] == a[0] && a.xy()[1] == a[1] && a.yz()[0] == a[1] && a.yz()[1] == a[2]); Math::Vect<T, 2> h{a[0], a[1]}; CHECK(same(V(h, a[2]), a)); CHECK(a.z == a[2]); }
    if constexpr(N == 4) { V m{a[0], a[1], a[2], a[3]}; CHECK(same(m, a)); CHECK(a.xy()[1] == a[1] && a.yz()[0] == a[1] && a.yz()[1] == a[2] && a.zw()[0] == a[2] && a.zw()[1] == a[3]); auto q = a.xyz(); auto p = ca.yzw(); for(u64 i = 0; i < 3; i++) CHECK(q[i] == a[i] && p[i] == a[i + 1]); CHECK(same(V(q, a[3]), a)); CHECK(a.w == a[3]); }
    if constexpr(std::is_floating_point_v<T>) {
        T n = (T)std::sqrt((double)n2); EQ(a.norm(), n);
        if(n2 != 0) { ALL(a.unit(), a[i] / n); ALL(Math::normalize(a), a[i] / n); V g = a; V h = g.normalize(); for(u64 i = 0; i < N; i++) { EQ(g[i], a[i] / n); EQ(h[i], a[i] / n); } }
        V f = a * (T)0.3; const V f0 = f; V fl = f.floor(), ce = f.ceil(); for(u64 i = 0; i < N; i++) { CHECK(fl[i] == std::floor(f[i]) && ce[i] == std::ceil(f[i]) && f[i] == f0[i]); }
        T t = (T)r.below(5) / 4; ALL(Math::lerp(a, b, t), a[i] * (1 - t) + b[i] * t);
        if constexpr(N > 2) { auto p = d.proj(); for(u64 i = 0; i < N - 1; i++) EQ(p[i], d[i] / d[N - 1]); }
    }
}
static Vec3 p3(Rnd& r) { return Vec3{pick<f32>(r), pick<f32>(r), pick<f32>(r)}; }
void boxes(Rnd& r) {
    BBox b; CHECK(b.empty()); CHECK(b.surface_area() == 0);
    int n = 1 + r.below(5); Vec3 lo, hi;
    for(int i = 0; i < n; i++) { Vec3 p = p3(r); tr("p %g %g %g", p.x, p.y, p.z); if(i == 0) lo = hi = p; for(u64 k = 0; k < 3; k++) { if(p[k] < lo[k]) lo[k] = p[k]; if(p[k] > hi[k]) hi[k] = p[k]; } b.enclose(p); CHECK(b.min == lo && b.max == hi); CHECK(!b.empty()); }
    BBox c; Vec3 q = p3(r), w = p3(r); c.enclose(q); c.enclose(w); BBox u = b; u.enclose(c); for(u64 k = 0; k < 3; k++) { EQ(u.min[k], c.min[k] < b.min[k] ? c.min[k] : b.min[k]); EQ(u.max[k], c.max[k] > b.max[k] ? c.max[k] : b.max[k]); }
    for(u64 k = 0; k < 3; k++) EQ(b.center()[k] * 2, lo[k] + hi[k]);
    Vec3 e = hi - lo; EQ(b.surface_area(), 2 * (e.x * e.y + e.y * e.z + e.x * e.z));
    BBox bad{Vec3{0.0f, 0.0f, 0.0f}, Vec3{1.0f, 1.0f, 1.0f}}; u64 k = r.below(3); bad.max[k] = -1; CHECK(bad.empty()); CHECK(bad.surface_area() == 0);
    Mat4 m; for(u64 i = 0; i < 4; i++) for(u64 j = 0; j < 4; j++) m[i][j] = r.below(3) ? pick<f32>(r) : 0;
    BBox t = b; t.transform(m); Vec3 tl, th; Vec2 pl, ph; int behind = 0;
    for(int i = 0; i < 8; i++) { f32 c3[3] = {i & 1 ? hi.x : lo.x, i & 2 ? hi.y : lo.y, i & 4 ? hi.z : lo.z}; f32 g[3]; for(u64 j = 0; j < 3; j++) { g[j] = m[0][j] * c3[0] + m[1][j] * c3[1] + m[2][j] * c3[2] + m[3][j]; if(i == 0 || g[j] < tl[j]) tl[j] = g[j]; if(i == 0 || g[j] > th[j]) th[j] = g[j]; } behind += g[2] < 0; }
    for(u64 j = 0; j < 3; j++) { EQ(t.min[j], tl[j]); EQ(t.max[j], th[j]); }
    b.project(m, pl, ph); if(behind == 8) { CHECK(pl == Vec2{} && ph == Vec2{}); } else if(behind) { CHECK((pl == Vec2{-1.0f, -1.0f} && ph == Vec2{1.0f, 1.0f})); } else for(u64 j = 0; j < 2; j++) { EQ(pl[j], tl[j]); EQ(ph[j], th[j]); }
    b.reset(); CHECK(b.empty()); b.enclose(q); CHECK(b.min == q && b.max == q);
}
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    for(int k = 0; k < 20000; k++) {
        g_trace.clear(); go<f32, 2>(r, "f2"); g_trace.clear(); go<f32, 3>(r, "f3"); g_trace.clear(); go<f32, 4>(r, "f4"); g_trace.clear(); go<f64, 2>(r, "d2"); g_trace.clear(); go<f64, 3>(r, "d3"); g_trace.clear(); go<f64, 4>(r, "d4");
        g_trace.clear(); go<i32, 2>(r, "i2"); g_trace.clear(); go<i32, 3>(r, "i3"); g_trace.clear(); go<i32, 4>(r, "i4"); g_trace.clear(); go<u32, 2>(r, "u2"); g_trace.clear(); go<u32, 3>(r, "u3"); g_trace.clear(); go<u32, 4>(r, "u4");
        Vec3 x = p3(r), y = p3(r); g_trace.clear(); tr("cross %g %g %g  %g %g %g", x.x, x.y, x.z, y.x, y.y, y.z); Vec3 c = Math::cross(x, y); EQ(c.x, x.y * y.z - x.z * y.y); EQ(c.y, x.z * y.x - x.x * y.z); EQ(c.z, x.x * y.y - x.y * y.x);
        g_trace.clear(); boxes(r);
    }
}
