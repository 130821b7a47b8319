// Vectors and boxes: one wrapper per public operation, instantiated per component type and dimension.
#include "vc.h"
#include <rpp/base.h>
#include <rpp/impl/simd.cpp>
#include <rpp/impl/math.cpp>
#include <rpp/impl/vmath.cpp>
#define E extern "C"
using namespace rpp;
template<typename T, u64 N> using V = Math::Vect<T, N>;
#define OP2(P, T, N, n, op) \
  E void P##_##n(V<T, N>* o, V<T, N>* a, V<T, N>* b) { *o = *a op *b; } \
  E void P##_##n##_s(V<T, N>* o, V<T, N>* a, T s) { *o = *a op s; } \
  E void P##_s_##n(V<T, N>* o, T s, V<T, N>* a) { *o = s op *a; } \
  E void P##_##n##_eq(V<T, N>* o, V<T, N>* a, V<T, N>* b) { *o = (*a op##= *b); } \
  E void P##_##n##_eq_s(V<T, N>* o, V<T, N>* a, T s) { *o = (*a op##= s); }
#define COMMON(P, T, N) \
  OP2(P, T, N, add, +) OP2(P, T, N, sub, -) OP2(P, T, N, mul, *) OP2(P, T, N, div, /) \
  E bool P##_same(V<T, N>* a, V<T, N>* b) { return *a == *b; } E bool P##_differ(V<T, N>* a, V<T, N>* b) { return *a != *b; } \
  E T P##_dot(V<T, N>* a, V<T, N>* b) { return Math::dot(*a, *b); } E T P##_norm2(V<T, N>* a) { return a->norm2(); } \
  E T P##_hmin(V<T, N>* a) { return a->min(); } E T P##_hmax(V<T, N>* a) { return a->max(); } \
  E void P##_min(V<T, N>* o, V<T, N>* a, V<T, N>* b) { *o = Math::min(*a, *b); } E void P##_max(V<T, N>* o, V<T, N>* a, V<T, N>* b) { *o = Math::max(*a, *b); } \
  E void P##_clamp(V<T, N>* o, V<T, N>* a, V<T, N>* b, V<T, N>* c) { *o = Math::clamp(*a, *b, *c); } \
  E void P##_default(V<T, N>* o) { *o = V<T, N>{}; } E void P##_splat(V<T, N>* o, T s) { *o = V<T, N>{s}; } \
  E T P##_at(V<T, N>* a, u64 i) { return (*a)[i]; } E void P##_put(V<T, N>* a, u64 i, T s) { (*a)[i] = s; } \
  E u64 P##_iter(V<T, N>* a) { return a->end() - a->begin(); } E T P##_first(const V<T, N>* a) { return *a->begin(); }
#define SIGNED(P, T, N) \
  E void P##_neg(V<T, N>* o, V<T, N>* a) { *o = -*a; } E void P##_abs(V<T, N>* o, V<T, N>* a) { *o = a->abs(); } E void P##_fabs(V<T, N>* o, V<T, N>* a) { *o = Math::abs(*a); }
#define FLOAT(P, T, N) \
  E void P##_unit(V<T, N>* o, V<T, N>* a) { *o = a->unit(); } E void P##_normalize(V<T, N>* o, V<T, N>* a) { *o = a->normalize(); } E void P##_nrm(V<T, N>* o, V<T, N>* a) { *o = Math::normalize(*a); } \
  E T P##_norm(V<T, N>* a) { return a->norm(); } E void P##_floor(V<T, N>* o, V<T, N>* a) { *o = a->floor(); } E void P##_ceil(V<T, N>* o, V<T, N>* a) { *o = a->ceil(); } \
  E void P##_lerp(V<T, N>* o, V<T, N>* a, V<T, N>* b, T t) { *o = Math::lerp(*a, *b, t); }
#define EXTEND(P, T, N) E void P##_extend(V<T, N>* o, V<T, N - 1>* a, T s) { *o = V<T, N>{*a, s}; }
#define PROJ(P, T, N) E void P##_proj(V<T, N - 1>* o, V<T, N>* a) { *o = a->proj(); }
#define MK2(P, T) E void P##_make(V<T, 2>* o, T a, T b) { *o = V<T, 2>{a, b}; }
#define MK3(P, T) E void P##_make(V<T, 3>* o, T a, T b, T c) { *o = V<T, 3>{a, b, c}; } \
  E void P##_sub_0(V<T, 2>* o, V<T, 3>* a) { *o = a->xy(); } E void P##_sub_1(V<T, 2>* o, const V<T, 3>* a) { *o = a->yz(); }
#define MK4(P, T) E void P##_make(V<T, 4>* o, T a, T b, T c, T d) { *o = V<T, 4>{a, b, c, d}; } \
  E void P##_sub_0(V<T, 2>* o, V<T, 4>* a) { *o = a->xy(); } E void P##_sub_1(V<T, 2>* o, const V<T, 4>* a) { *o = a->yz(); } E void P##_sub_2(V<T, 2>* o, V<T, 4>* a) { *o = a->zw(); } \
  E void P##_sub3_0(V<T, 3>* o, V<T, 4>* a) { *o = a->xyz(); } E void P##_sub3_1(V<T, 3>* o, const V<T, 4>* a) { *o = a->yzw(); }
#define FL(P, T, N) COMMON(P, T, N) SIGNED(P, T, N) FLOAT(P, T, N)
FL(f2, f32, 2) MK2(f2, f32) FL(f3, f32, 3) MK3(f3, f32) EXTEND(f3, f32, 3) PROJ(f3, f32, 3) FL(f4, f32, 4) MK4(f4, f32) EXTEND(f4, f32, 4) PROJ(f4, f32, 4)
FL(d2, f64, 2) MK2(d2, f64) FL(d3, f64, 3) MK3(d3, f64) EXTEND(d3, f64, 3) PROJ(d3, f64, 3) FL(d4, f64, 4) MK4(d4, f64) EXTEND(d4, f64, 4) PROJ(d4, f64, 4)
#define IN(P, T, N) COMMON(P, T, N) SIGNED(P, T, N)
IN(i2, i32, 2) MK2(i2, i32) IN(i3, i32, 3) MK3(i3, i32) EXTEND(i3, i32, 3) IN(i4, i32, 4) MK4(i4, i32) EXTEND(i4, i32, 4)
COMMON(u2, u32, 2) MK2(u2, u32) COMMON(u3, u32, 3) MK3(u3, u32) EXTEND(u3, u32, 3) COMMON(u4, u32, 4) MK4(u4, u32) EXTEND(u4, u32, 4)
E void f3_cross(Vec3* o, Vec3* a, Vec3* b) { *o = Math::cross(*a, *b); }
E void f3_as_d(V<f64, 3>* o, Vec3* a) { *o = a->as<f64>(); } E void i4_as_u(Vec4u* o, Vec4i* a) { *o = a->as<u32>(); }
E void b_init(BBox* b) { new(b) BBox{}; } E void b_reset(BBox* b) { b->reset(); } E void b_make(BBox* o, Vec3* a, Vec3* b) { *o = BBox{*a, *b}; }
E void b_point(BBox* b, Vec3* p) { b->enclose(*p); } E void b_box(BBox* b, BBox* c) { b->enclose(*c); } E void b_center(Vec3* o, BBox* b) { *o = b->center(); }
E bool b_empty(BBox* b) { return b->empty(); } E f32 b_area(BBox* b) { return b->surface_area(); } E void b_transform(BBox* b, Mat4* m) { b->transform(*m); }
E void b_project(BBox* b, Mat4* m, Vec2* lo, Vec2* hi) { b->project(*m, *lo, *hi); }
