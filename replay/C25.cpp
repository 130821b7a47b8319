// FLAGS: -fno-sanitize=float-divide-by-zero
#include "common.h"
#include <rpp/simd.h>
#include <rpp/vmath.h>
using M = double[16];
static double dif(double a, double b) { return std::fabs(a - b) / (1 + std::fabs(a) + std::fabs(b)); }
#define EQ(a, b) CHECK(dif((double)(a), (double)(b)) < 2e-4)
static f32 num(Rnd& r) { return (f32)((i64)r.below(41) - 20) * 0.25f; }
static Mat4 rm(Rnd& r, const char* n) { Mat4 m; for(int i = 0; i < 16; i++) m.data[i] = num(r); tr("%s={", n); for(int i = 0; i < 16; i++) tr("%g", m.data[i]); tr("}"); return m; }
static Vec3 rv(Rnd& r, const char* n) { Vec3 v{num(r), num(r), num(r)}; if(v.norm2() < 0.1) v.x = 1; tr("%s=(%g,%g,%g)", n, v.x, v.y, v.z); return v; }
static double det3(const double m[16], int a, int b, int c, int x, int y, int z) {
    auto e = [&](int r, int k) { return m[4 * k + r]; };
    return e(a, x) * (e(b, y) * e(c, z) - e(b, z) * e(c, y)) - e(a, y) * (e(b, x) * e(c, z) - e(b, z) * e(c, x)) + e(a, z) * (e(b, x) * e(c, y) - e(b, y) * e(c, x));
}
static void ortho3(const Mat4& m) {
    for(int i = 0; i < 3; i++) for(int j = 0; j < 3; j++) { double d = 0; for(int k = 0; k < 3; k++) d += (double)m.data[4 * i + k] * m.data[4 * j + k]; EQ(d, i == j); }
    double a[16]; for(int i = 0; i < 16; i++) a[i] = m.data[i]; EQ(det3(a, 0, 1, 2, 0, 1, 2), 1);
    EQ(m.data[3], 0); EQ(m.data[7], 0); EQ(m.data[11], 0); EQ(m.data[15], 1);
}
static void round_(Rnd& r) {
    Mat4 a = rm(r, "a"), b = rm(r, "b"); f32 s = num(r); if(s == 0) s = 3; Vec4 v{num(r), num(r), num(r), num(r)}; tr("s=%g v=(%g,%g,%g,%g)", s, v.x, v.y, v.z, v.w); const Mat4 a0 = a, b0 = b;
    auto same = [](const Mat4& x, const Mat4& y) { for(int i = 0; i < 16; i++) if(x.data[i] != y.data[i]) return false; return true; };
    if(r.below(20) == 0) {
        for(int i = 0; i < 16; i++) { f32 id = i % 5 == 0; EQ(Mat4{}.data[i], id); EQ(Mat4::I.data[i], id); EQ(Mat4::zero.data[i], 0); EQ(Mat4::swap_x_z.data[i], i == 2 || i == 5 || i == 8 || i == 15); }
        u64 k = 4 + r.below(3); CHECK(aborts([&] { Mat4 z = a; printf("%g", z[k].x); })); CHECK(aborts([&] { const Mat4 z = a; printf("%g", z[k].x); }));
    }
    Mat4 c{a.data[0], a.data[1], a.data[2], a.data[3], a.data[4], a.data[5], a.data[6], a.data[7], a.data[8], a.data[9], a.data[10], a.data[11], a.data[12], a.data[13], a.data[14], a.data[15]}; CHECK(same(c, a)); CHECK(same(Mat4(a[0], a[1], a[2], a[3]), a));
    const Mat4 ca = a; for(u64 i = 0; i < 4; i++) for(u64 j = 0; j < 4; j++) CHECK(a[i][j] == a.data[4 * i + j] && ca[i][j] == a.data[4 * i + j]);
    { Mat4 z = a; u64 k = r.below(4); z[k] = v; for(int i = 0; i < 16; i++) EQ(z.data[i], (u64)i / 4 == k ? v[i % 4] : a.data[i]); } CHECK(a.end() - a.begin() == 4 && ca.end() - ca.begin() == 4);
#define ALL(e, w) do { Mat4 g_ = (e); for(int i = 0; i < 16; i++) EQ(g_.data[i], w); CHECK(same(a, a0) && same(b, b0)); } while(0)
    ALL(a + b, a.data[i] + b.data[i]); ALL(a - b, a.data[i] - b.data[i]); ALL(a + s, a.data[i] + s); ALL(a - s, a.data[i] - s); ALL(a * s, a.data[i] * s); ALL(a / s, a.data[i] / s);
    ALL(a * b, ([&] { double t = 0; for(int k = 0; k < 4; k++) t += (double)a.data[4 * k + i % 4] * b.data[4 * (i / 4) + k]; return t; }()));
    ALL(a.T(), a.data[4 * (i % 4) + i / 4]); ALL(Mat4::transpose(a), a.data[4 * (i % 4) + i / 4]);
    Vec4 w = a * v; Vec3 p{v.x, v.y, v.z}, wp = a * p, wr = a.rotate(p);
    for(int i = 0; i < 4; i++) { double t = 0; for(int k = 0; k < 4; k++) t += (double)a.data[4 * k + i] * v[k]; EQ(w[i], t); if(i < 3) { EQ(wp[i], t - a.data[12 + i] * v.w + a.data[12 + i]); EQ(wr[i], t - a.data[12 + i] * v.w); } }
    CHECK((a == b) == same(a, b)); CHECK((a != b) == !same(a, b)); { Mat4 z = a; CHECK(z == a && !(z != a)); z.data[r.below(16)] += 1; CHECK(!(z == a)); CHECK(z != a); }
    double m[16], de = 0; for(int i = 0; i < 16; i++) m[i] = a.data[i];
    for(int k = 0; k < 4; k++) { int x[3], q = 0; for(int j = 0; j < 4; j++) if(j != k) x[q++] = j; de += (k % 2 ? -1 : 1) * m[4 * k] * det3(m, 1, 2, 3, x[0], x[1], x[2]); }
    if(std::fabs(de) > 1) for(int f = 0; f < 2; f++) { Mat4 inv = f ? Mat4::inverse(a) : a.inverse(); for(int i = 0; i < 16; i++) { double t = 0, u = 0, mag = 1; for(int k = 0; k < 4; k++) { t += m[4 * k + i % 4] * inv.data[4 * (i / 4) + k]; u += (double)inv.data[4 * k + i % 4] * m[4 * (i / 4) + k]; mag += std::fabs(m[4 * k + i % 4] * inv.data[4 * (i / 4) + k]) + std::fabs(inv.data[4 * k + i % 4] * m[4 * (i / 4) + k]); } CHECK(std::fabs(t - (i % 5 == 0)) < 3e-3 * mag && std::fabs(u - (i % 5 == 0)) < 3e-3 * mag); } }
    Vec3 d = rv(r, "d"), e = rv(r, "e"); Vec4 sc = Mat4::scale(d) * v, tl = Mat4::translate(d) * v; for(int i = 0; i < 4; i++) { EQ(sc[i], i < 3 ? d[i] * v[i] : v[3]); EQ(tl[i], i < 3 ? v[i] + d[i] * v[3] : v[3]); }
    double an = (double)r.below(1440) - 720; an += 0.5 * (double)r.below(2); tr("angle %g", an); double th = an * M_PI / 180, C = std::cos(th), S = std::sin(th), l = std::sqrt((double)d.x * d.x + d.y * d.y + d.z * d.z), k[3] = {d.x / l, d.y / l, d.z / l}, x[3] = {e.x, e.y, e.z};
    Mat4 ro = Mat4::rotate((f32)an, d); Vec3 y = ro.rotate(e); double kd = k[0] * x[0] + k[1] * x[1] + k[2] * x[2]; for(int i = 0; i < 3; i++) { int j = (i + 1) % 3, n = (i + 2) % 3; EQ(y[i], x[i] * C + (k[j] * x[n] - k[n] * x[j]) * S + k[i] * kd * (1 - C)); EQ(ro.data[12 + i], 0); } ortho3(ro);
    double cr[3] = {d.y * (double)e.z - d.z * (double)e.y, d.z * (double)e.x - d.x * (double)e.z, d.x * (double)e.y - d.y * (double)e.x}, cn = std::sqrt(cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2]);
    if(cn > 0.5) { Mat4 lk = Mat4::look_at(p, p + d, e); ortho3(lk); Vec3 z0 = lk * p, z1 = lk * (p + d), zu = lk.rotate(e); for(int i = 0; i < 3; i++) { EQ(z0[i], 0); EQ(z1[i], i == 2 ? -l : 0); } EQ(zu.x, 0); EQ(zu.y * l, cn); }
    f32 L = num(r), B = num(r), N = num(r), R = L + 1 + r.below(9), T = B + 1 + r.below(9), F = N + 1 + r.below(9); tr("ortho %g %g %g %g %g %g", L, R, B, T, N, F); Mat4 o = Mat4::ortho(L, R, B, T, N, F); Vec4 c0 = o * Vec4{L, B, -N, 1.0f}, c1 = o * Vec4{R, T, -F, 1.0f}, c2 = o * Vec4{R, B, -N, 1.0f};
    EQ(c0.x, -1); EQ(c0.y, -1); EQ(c0.z, 0); EQ(c0.w, 1); EQ(c1.x, 1); EQ(c1.y, 1); EQ(c1.z, 1); EQ(c1.w, 1); EQ(c2.x, 1); EQ(c2.y, -1); EQ(c2.z, 0);
    double fov = 20 + (double)r.below(140), ar = 0.5 + 0.25 * (double)r.below(8), nr = 0.1 * (1 + (double)r.below(20)); tr("proj %g %g %g", fov, ar, nr); Mat4 pj = Mat4::proj((f32)fov, (f32)ar, (f32)nr); double f = 1 / std::tan(fov * M_PI / 360);
    for(int i = 0; i < 16; i++) EQ(pj.data[i], i == 0 ? f / ar : i == 5 ? -f : i == 11 ? -1 : i == 14 ? nr : 0);
    if(r.below(6) == 0) d = Vec3{0.0f, r.below(2) ? 2.0f : -2.0f, 0.0f}; tr("dir %g %g %g", d.x, d.y, d.z); l = std::sqrt((double)d.x * d.x + d.y * d.y + d.z * d.z);
    Mat4 ty = Mat4::rotate_y_to(d), tz = Mat4::rotate_z_to(d); ortho3(ty); ortho3(tz); for(int i = 0; i < 3; i++) { EQ(ty.data[4 + i], d[i] / l); EQ(tz.data[8 + i], -d[i] / l); EQ(ty.data[12 + i], 0); EQ(tz.data[12 + i], 0); }
}
int main(int c, char** v) { u64 seed = c > 1 ? strtoull(v[1], 0, 10) : 1; for(int i = 0; i < 20000; i++) { g_trace.clear(); Rnd r(seed * 7919 + i); round_(r); } puts("ok"); }
