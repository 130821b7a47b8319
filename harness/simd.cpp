// Packed operations: one wrapper per public operation.
#include "vc.h"
#include <rpp/base.h>
#include <rpp/impl/simd.cpp>
#define E extern "C"
using namespace rpp;
using F = SIMD::F32x4;
#define B2(n) E void s_##n(F* o, const F* a, const F* b) { *o = F::n(*a, *b); }
#define B1(n) E void s_##n(F* o, const F* a) { *o = F::n(*a); }
B2(add) B2(sub) B2(mul) B2(div) B2(min) B2(max) B1(floor) B1(ceil) B1(abs)
E void s_set1(F* o, f32 v) { *o = F::set1(v); }
E void s_set(F* o, f32 x, f32 y, f32 z, f32 w) { *o = F::set(x, y, z, w); }
E void s_zero(F* o) { *o = F::zero(); }
E void s_one(F* o) { *o = F::one(); }
E f32 s_dp(const F* a, const F* b) { return F::dp(*a, *b); }
E bool s_eq(const F* a, const F* b) { return F::cmpeq_all(*a, *b); }
