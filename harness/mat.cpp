// Matrices and quaternions: one wrapper per public operation.
#include "vc.h"
#include <rpp/base.h>
#include <rpp/impl/simd.cpp>
#include <rpp/impl/math.cpp>
#include <rpp/impl/vmath.cpp>
#define E extern "C"
using namespace rpp;
E void m_default(Mat4* o) { *o = Mat4{}; } E void m_I(Mat4* o) { *o = Mat4::I; } E void m_zero(Mat4* o) { *o = Mat4::zero; } E void m_swap(Mat4* o) { *o = Mat4::swap_x_z; }
E void m_cols(Mat4* o, Vec4* a, Vec4* b, Vec4* c, Vec4* d) { *o = Mat4{*a, *b, *c, *d}; }
E void m_make(Mat4* o, f32* p) { *o = Mat4{p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15]}; }
E void m_add(Mat4* o, Mat4* a, Mat4* b) { *o = *a + *b; } E void m_sub(Mat4* o, Mat4* a, Mat4* b) { *o = *a - *b; } E void m_mul(Mat4* o, Mat4* a, Mat4* b) { *o = *a * *b; }
E void m_add_s(Mat4* o, Mat4* a, f32 s) { *o = *a + s; } E void m_sub_s(Mat4* o, Mat4* a, f32 s) { *o = *a - s; } E void m_mul_s(Mat4* o, Mat4* a, f32 s) { *o = *a * s; } E void m_div_s(Mat4* o, Mat4* a, f32 s) { *o = *a / s; }
E bool m_same(Mat4* a, Mat4* b) { return *a == *b; } E bool m_differ(Mat4* a, Mat4* b) { return *a != *b; }
E void m_at(Vec4* o, const Mat4* a, u64 i) { *o = (*a)[i]; } E void m_ref(Vec4* o, Mat4* a, u64 i) { *o = (*a)[i]; } E void m_put(Mat4* a, u64 i, Vec4* v) { (*a)[i] = *v; }
E u64 m_iter(Mat4* a) { return a->end() - a->begin(); } E void m_first(Vec4* o, const Mat4* a) { *o = *a->begin(); }
E void m_vec4(Vec4* o, Mat4* a, Vec4* v) { *o = *a * *v; } E void m_vec3(Vec3* o, Mat4* a, Vec3* v) { *o = *a * *v; } E void m_rot(Vec3* o, Mat4* a, Vec3* v) { *o = a->rotate(*v); }
E void m_T(Mat4* o, Mat4* a) { *o = a->T(); } E void m_transpose(Mat4* o, Mat4* a) { *o = Mat4::transpose(*a); } E void m_inv(Mat4* o, Mat4* a) { *o = a->inverse(); } E void m_inverse(Mat4* o, Mat4* a) { *o = Mat4::inverse(*a); }
E void m_look_at(Mat4* o, Vec3* p, Vec3* a, Vec3* u) { *o = Mat4::look_at(*p, *a, *u); } E void m_scale(Mat4* o, Vec3* s) { *o = Mat4::scale(*s); } E void m_translate(Mat4* o, Vec3* s) { *o = Mat4::translate(*s); }
E void m_rotate(Mat4* o, f32 a, Vec3* v) { *o = Mat4::rotate(a, *v); } E void m_ortho(Mat4* o, f32 l, f32 r, f32 b, f32 t, f32 n, f32 f) { *o = Mat4::ortho(l, r, b, t, n, f); } E void m_proj(Mat4* o, f32 fov, f32 ar, f32 n) { *o = Mat4::proj(fov, ar, n); }
E void m_rotate_y_to(Mat4* o, Vec3* d) { *o = Mat4::rotate_y_to(*d); } E void m_rotate_z_to(Mat4* o, Vec3* d) { *o = Mat4::rotate_z_to(*d); } E void m_euler(Vec3* o, Mat4* a) { *o = a->to_euler(); }
E void q_default(Quat* o) { *o = Quat{}; } E void q_make(Quat* o, f32 x, f32 y, f32 z, f32 w) { *o = Quat{x, y, z, w}; } E void q_vec(Quat* o, Vec3* v, f32 w) { *o = Quat{*v, w}; } E void q_vec4(Quat* o, Vec4* v) { *o = Quat{*v}; }
E void q_axis(Quat* o, Vec3* a, f32 t) { *o = Quat::axis_angle(*a, t); } E void q_euler(Quat* o, Vec3* a) { *o = Quat::euler(*a); }
E f32 q_at(const Quat* q, int i) { return (*q)[i]; } E void q_put(Quat* q, int i, f32 s) { (*q)[i] = s; } E void q_conj(Quat* o, Quat* q) { *o = q->conjugate(); } E void q_inv(Quat* o, Quat* q) { *o = q->inverse(); } E void q_complex(Vec3* o, Quat* q) { *o = q->complex(); } E f32 q_real(Quat* q) { return q->real(); }
E f32 q_norm2(Quat* q) { return q->norm2(); } E f32 q_norm(Quat* q) { return q->norm(); } E void q_unit(Quat* o, Quat* q) { *o = q->unit(); }
E void q_mul(Quat* o, Quat* a, Quat* b) { *o = *a * *b; } E void q_mul_s(Quat* o, Quat* a, f32 s) { *o = *a * s; } E void q_add(Quat* o, Quat* a, Quat* b) { *o = *a + *b; } E void q_sub(Quat* o, Quat* a, Quat* b) { *o = *a - *b; } E void q_neg(Quat* o, Quat* a) { *o = -*a; }
E void q_mat(Mat4* o, Quat* q) { *o = q->to_mat(); } E void q_rotate(Vec3* o, Quat* q, Vec3* v) { *o = q->rotate(*v); } E void q_to_euler(Vec3* o, Quat* q) { *o = q->to_euler(); }
E bool q_same(Quat* a, Quat* b) { return *a == *b; } E bool q_differ(Quat* a, Quat* b) { return *a != *b; } E u64 q_iter(Quat* a) { return a->end() - a->begin(); } E f32 q_first(const Quat* a) { return *a->begin(); }
