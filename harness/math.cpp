// Integer math helpers: one wrapper per public operation and width.
#include "vc.h"
#include <rpp/impl/math.cpp>
#define E extern "C"
using namespace rpp;
#define OPS(T) \
  E T T##_min(T a, T b) { return Math::min(a, b); } E T T##_max(T a, T b) { return Math::max(a, b); } \
  E T T##_clamp(T x, T a, T b) { return Math::clamp(x, a, b); } \
  E T T##_pow(T a, T b) { return Math::pow(a, b); } \
  E T T##_min1(T a) { return Math::min({a}); } E T T##_max1(T a) { return Math::max({a}); } \
  E T T##_min2(T a, T b) { return Math::min({a, b}); } E T T##_max2(T a, T b) { return Math::max({a, b}); } \
  E T T##_min3(T a, T b, T c) { return Math::min({a, b, c}); } E T T##_max3(T a, T b, T c) { return Math::max({a, b, c}); } \
  E T T##_min5(T a, T b, T c, T d, T e) { return Math::min({a, b, c, d, e}); } E T T##_max5(T a, T b, T c, T d, T e) { return Math::max({a, b, c, d, e}); }
#define FOPS(T) \
  E T T##_min(T a, T b) { return Math::min(a, b); } E T T##_max(T a, T b) { return Math::max(a, b); } \
  E T T##_clamp(T x, T a, T b) { return Math::clamp(x, a, b); } \
  E T T##_min3(T a, T b, T c) { return Math::min({a, b, c}); } E T T##_max3(T a, T b, T c) { return Math::max({a, b, c}); } \
  E T T##_abs(T a) { return Math::abs(a); } E T T##_sign(T a) { return Math::sign(a); }
OPS(u8) OPS(u16) OPS(u32) OPS(u64) OPS(i8) OPS(i16) OPS(i32) OPS(i64) FOPS(f32) FOPS(f64)
#define BITS(T) \
  E T T##_popcount(T a) { return Math::popcount(a); } E T T##_ctlz(T a) { return Math::ctlz(a); } E T T##_log2(T a) { return Math::log2(a); } \
  E T T##_prev(T a) { return Math::prev_pow2(a); } E T T##_next(T a) { return Math::next_pow2(a); } \
  E T T##_down2(T a, T b) { return Math::align_down_pow2(a, b); } E T T##_up2(T a, T b) { return Math::align_pow2(a, b); } \
  E T T##_down(T a, T b) { return Math::align_down(a, b); } E T T##_up(T a, T b) { return Math::align(a, b); }
BITS(u32) BITS(u64)
E i32 i32_abs(i32 a) { return Math::abs(a); } E i64 i64_abs(i64 a) { return Math::abs(a); }
E u64 u64_KB(u64 n) { return Math::KB(n); } E u64 u64_MB(u64 n) { return Math::MB(n); } E u64 u64_GB(u64 n) { return Math::GB(n); }
