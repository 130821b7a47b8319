// FLAGS: -fno-sanitize=float-divide-by-zero
#include "common.h"
#include <rpp/simd.h>
#include <rpp/vmath.h>
static double dif(double a, double b) { return std::fabs(a - b) / (1 + std::fabs(a) + std::fabs(b)); }
#define EQ(a, b) CHECK(dif((double)(a), (double)(b)) < 3e-4)
static f32 num(Rnd& r) { return (f32)((i64)r.below(41) - 20) * 0.25f; }
static Vec3 rv(Rnd& r, const char* n) { Vec3 v{num(r), num(r), num(r)}; if(v.norm2() < 0.1) v.x = 1; tr("%s=(%g,%g,%g)", n, v.x, v.y, v.z); return v; }
struct D4 { double x, y, z, w; };
static D4 mul(D4 a, D4 b) { return {a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z}; }
static D4 dq(Quat q) { return {q.x, q.y, q.z, q.w}; }
static D4 cj(D4 q) { return {-q.x, -q.y, -q.z, q.w}; }
static D4 rot(D4 q, Vec3 v) { return mul(mul(q, {v.x, v.y, v.z, 0}), cj(q)); }
static Quat rq(Rnd& r, const char* n) { Quat q{num(r), num(r), num(r), num(r)}; if(q.norm2() < 0.1) q.w = 1; tr("%s=(%g,%g,%g,%g)", n, q.x, q.y, q.z, q.w); return q; }
#define SAME4(q, d) do { Quat q_ = (q); D4 d_ = (d); EQ(q_.x, d_.x); EQ(q_.y, d_.y); EQ(q_.z, d_.z); EQ(q_.w, d_.w); CHECK(a == a0 && b == b0); } while(0)
static D4 half(int ax, double deg) { double t = deg * M_PI / 360; D4 q{0, 0, 0, std::cos(t)}; (ax == 0 ? q.x : ax == 1 ? q.y : q.z) = std::sin(t); return q; }
static D4 eul(Vec3 e) { return mul(mul(half(2, e.z), half(1, e.y)), half(0, e.x)); }
static bool samerot(D4 a, D4 b, double tol) { double d = a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; return std::fabs(std::fabs(d) - 1) < tol; }
static void round_(Rnd& r) {
    Quat a = rq(r, "a"), b = rq(r, "b"); const Quat a0 = a, b0 = b; D4 A = dq(a), B = dq(b); f32 s = num(r); Vec3 v = rv(r, "v"); tr("s=%g", s);
    SAME4(Quat{}, (D4{0, 0, 0, 1})); SAME4(Quat(a.x, a.y, a.z, a.w), A); SAME4(Quat(Vec3{a.x, a.y, a.z}, a.w), A); SAME4(Quat(Vec4{a.x, a.y, a.z, a.w}), A);
    SAME4(a * b, mul(A, B)); SAME4(a * s, (D4{A.x * s, A.y * s, A.z * s, A.w * s})); SAME4(a + b, (D4{A.x + B.x, A.y + B.y, A.z + B.z, A.w + B.w})); SAME4(a - b, (D4{A.x - B.x, A.y - B.y, A.z - B.z, A.w - B.w})); SAME4(-a, (D4{-A.x, -A.y, -A.z, -A.w})); SAME4(a.conjugate(), cj(A));
    double n2 = A.x * A.x + A.y * A.y + A.z * A.z + A.w * A.w; EQ(a.norm2(), n2); EQ(a.norm(), std::sqrt(n2)); EQ(a.real(), A.w); Vec3 c = a.complex(); EQ(c.x, A.x); EQ(c.y, A.y); EQ(c.z, A.z);
    const Quat ca = a; for(int i = 0; i < 4; i++) { CHECK(ca[i] == a.data[i] && a[i] == a.data[i]); Quat z = a; z[i] = s; for(int j = 0; j < 4; j++) CHECK(z.data[j] == (j == i ? s : a.data[j])); } CHECK(ca.end() - ca.begin() == 4 && *ca.begin() == a.x);
    CHECK(a == ca); CHECK(!(a != ca)); { Quat z = a; z.data[r.below(4)] += 1; CHECK(z != a); CHECK(!(z == a)); }
    SAME4(a * a.inverse(), (D4{0, 0, 0, 1})); SAME4(a.inverse() * a, (D4{0, 0, 0, 1})); Quat u = a.unit(); double l = std::sqrt(n2); SAME4(u, (D4{A.x / l, A.y / l, A.z / l, A.w / l}));
    Vec3 w = a.rotate(v); D4 W = rot(A, v); EQ(w.x, W.x); EQ(w.y, W.y); EQ(w.z, W.z);
    Mat4 m = u.to_mat(); Vec3 y = m.rotate(v); D4 Y = rot(dq(u), v); EQ(y.x, Y.x); EQ(y.y, Y.y); EQ(y.z, Y.z); for(int i : {3, 7, 11, 12, 13, 14}) EQ(m.data[i], 0); EQ(m.data[15], 1);
    f32 an = (f32)((double)r.below(1440) - 720 + 0.5 * (double)r.below(2)); if(r.below(6) == 0) an = 90.0f * (f32)r.below(5); Vec3 ax = rv(r, "axis"); tr("angle=%g", an);
    Quat q = Quat::axis_angle(ax, an); double th = an * M_PI / 360, al = std::sqrt((double)ax.x * ax.x + ax.y * ax.y + ax.z * ax.z); SAME4(q, (D4{std::sin(th) * ax.x / al, std::sin(th) * ax.y / al, std::sin(th) * ax.z / al, std::cos(th)}));
    auto ang = [&]() -> f32 { switch(r.below(4)) { case 0: return 90.0f * ((f32)r.below(9) - 4); case 1: return 0.0f; default: return (f32)r.below(721) - 360.0f; } };
    Vec3 e{ang(), ang(), ang()}; tr("euler=(%g,%g,%g)", e.x, e.y, e.z); Quat eq = Quat::euler(e); D4 EE = eul(e); CHECK(samerot(dq(eq), EE, 1e-4));
    Vec3 t = eq.to_euler(); tr("to_euler=(%g,%g,%g)", t.x, t.y, t.z); CHECK(samerot(eul(t), EE, 1e-3)); Vec3 t2 = u.to_euler(); CHECK(samerot(eul(t2), dq(u), 1e-3)); Vec3 t3 = a.to_euler(); CHECK(samerot(eul(t3), dq(u), 1e-3)); Vec3 t4 = m.to_euler(); CHECK(samerot(eul(t4), dq(u), 1e-3));
}
int main(int c, char** v) { u64 seed = c > 1 ? strtoull(v[1], 0, 10) : 1; for(int i = 0; i < 20000; i++) { g_trace.clear(); Rnd r(seed * 7919 + i); round_(r); } puts("ok"); }
