#include "vc.h"
#define E extern "C"
using S = RNG::Stream;
SIZE(stream, S) OFF(stream_state, S, state)

E void rng_seeded(S* r, u64 s) { new(r) S(s); }
E void rng_seed(S* r, u64 s) { r->seed(s); }
E u64 rng_next(S* r) { return (*r)(); }
E f32 rng_unit_f32(S* r) { return r->unit<f32>(); }
E f64 rng_unit_f64(S* r) { return r->unit<f64>(); }
E bool rng_flip_f32(S* r, f32 p) { return r->coin_flip<f32>(p); }
E bool rng_flip_f64(S* r, f64 p) { return r->coin_flip<f64>(p); }
#define INT(T) E T rng_integer_##T(S* r) { return r->integer<T>(); } E T rng_range_##T(S* r, T a, T b) { return r->range<T>(a, b); }
INT(u8) INT(u16) INT(u32) INT(u64) INT(i8) INT(i16) INT(i32) INT(i64)
#define VEC(N, T) using V_##N = Vec<T, VA>; SIZE(vec_##N, V_##N) OFF(vec_data_##N, V_##N, data_) OFF(vec_length_##N, V_##N, length_) OFF(vec_capacity_##N, V_##N, capacity_) \
    E void rng_shuffle_##N(S* r, V_##N* v) { r->shuffle(*v); }
VEC(u64, u64) VEC(TK, TK)
