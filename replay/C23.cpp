#include "common.h"
#include <rpp/simd.h>
#include <string.h>
using F = SIMD::F32x4;
static f32 pick(Rnd& r) {
    switch(r.below(8)) {
    case 0: return 0.0f; case 1: return -0.0f; case 2: return (f32)r.below(5) - 2; case 3: return ((f32)r.below(2000) - 1000) / 7;
    case 4: return (f32)((i64)r.next() >> r.below(60)); case 5: return r.below(20) ? 1.5f : INFINITY; case 6: return ((f32)r.below(200) - 100) / 2; default: return (r.below(2) ? 1e-30f : -1e30f) * (f32)r.below(9);
    }
}
static bool same(f32 a, f32 b) { return a == b || (a != a && b != b); }
#define L(o, e) for(int i = 0; i < 4; i++) { f32 w = (e); CHECK(same((o).data[i], w)); }
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    for(int k = 0; k < 300000; k++) {
        g_trace.clear();
        f32 a[4], b[4]; for(int i = 0; i < 4; i++) { a[i] = pick(r); b[i] = r.below(3) ? pick(r) : a[i]; }
        tr("a = %g %g %g %g  b = %g %g %g %g", a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]);
        F A = F::set(a[0], a[1], a[2], a[3]), B = F::set(b[0], b[1], b[2], b[3]);
        L(A, a[i]); L(F::add(A, B), a[i] + b[i]); L(F::sub(A, B), a[i] - b[i]); L(F::mul(A, B), a[i] * b[i]); L(F::div(A, B), a[i] / b[i]);
        L(F::min(A, B), a[i] < b[i] ? a[i] : b[i]); L(F::max(A, B), a[i] > b[i] ? a[i] : b[i]);
        L(F::floor(A), floorf(a[i])); L(F::ceil(A), ceilf(a[i])); L(F::abs(A), fabsf(a[i])); L(F::set1(a[0]), a[0]); L(F::zero(), 0.0f); L(F::one(), 1.0f);
        bool eq = true; for(int i = 0; i < 4; i++) eq = eq && a[i] == b[i]; CHECK(F::cmpeq_all(A, B) == eq);
        F D = A; D = F::add(D, D); L(D, a[i] + a[i]);
        f32 c[4], d[4]; for(int i = 0; i < 4; i++) { c[i] = (f32)r.below(100) - 50; d[i] = (f32)r.below(100) - 50; }
        CHECK(F::dp(F::set(c[0], c[1], c[2], c[3]), F::set(d[0], d[1], d[2], d[3])) == c[0] * d[0] + c[1] * d[1] + c[2] * d[2] + c[3] * d[3]);
    }
}
