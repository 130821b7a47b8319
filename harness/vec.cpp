#include "vc.h"
#define SUITE(S, T)                                                                                 \
    using V_##S = Vec<T, VA>;                                                                       \
    SIZE(vec_##S, V_##S) OFF(vec_data_##S, V_##S, data_) OFF(vec_length_##S, V_##S, length_) OFF(vec_capacity_##S, V_##S, capacity_) \
    extern "C" {                                                                                    \
    void vec_ctor_##S(V_##S* r) { new(r) V_##S(); }                                                 \
    void vec_ctor_cap_##S(V_##S* r, u64 n) { new(r) V_##S(n); }                                     \
    void vec_make_##S(V_##S* r, u64 n) { new(r) V_##S(V_##S::make(n)); }                            \
    void vec_init3_##S(V_##S* r, T* a, T* b, T* c) { new(r) V_##S(rpp::move(*a), rpp::move(*b), rpp::move(*c)); } \
    T* vec_push_##S(V_##S* v, T* x) { return &v->push(rpp::move(*x)); }                             \
    T* vec_emplace_##S(V_##S* v, u64 x) { return &v->emplace(x); }                                  \
    void vec_pop_##S(V_##S* v) { v->pop(); }                                                        \
    void vec_move_##S(V_##S* r, V_##S* s) { new(r) V_##S(rpp::move(*s)); }                          \
    void vec_assign_##S(V_##S* r, V_##S* s) { *r = rpp::move(*s); }                                 \
    void vec_dtor_##S(V_##S* v) { v->~V_##S(); }                                                    \
    void vec_clone_##S(V_##S* r, const V_##S* s) { new(r) V_##S(s->clone()); }                      \
    void vec_grow_##S(V_##S* v) { v->grow(); }                                                      \
    void vec_clear_##S(V_##S* v) { v->clear(); }                                                    \
    void vec_reserve_##S(V_##S* v, u64 n) { v->reserve(n); }                                        \
    void vec_resize_##S(V_##S* v, u64 n) { v->resize(n); }                                          \
    void vec_extend_##S(V_##S* v, u64 n) { v->extend(n); }                                          \
    bool vec_empty_##S(const V_##S* v) { return v->empty(); }                                       \
    bool vec_full_##S(const V_##S* v) { return v->full(); }                                         \
    u64 vec_length_##S(const V_##S* v) { return v->length(); }                                      \
    u64 vec_capacity_##S(const V_##S* v) { return v->capacity(); }                                  \
    u64 vec_bytes_##S(const V_##S* v) { return v->bytes(); }                                        \
    T* vec_at_##S(V_##S* v, u64 i) { return &(*v)[i]; }                                             \
    const T* vec_cat_##S(const V_##S* v, u64 i) { return &(*v)[i]; }                                \
    T* vec_front_##S(V_##S* v) { return &v->front(); }                                              \
    const T* vec_cfront_##S(const V_##S* v) { return &v->front(); }                                 \
    T* vec_back_##S(V_##S* v) { return &v->back(); }                                                \
    const T* vec_cback_##S(const V_##S* v) { return &v->back(); }                                   \
    T* vec_begin_##S(V_##S* v) { return v->begin(); }                                               \
    T* vec_end_##S(V_##S* v) { return v->end(); }                                                   \
    const T* vec_cbegin_##S(const V_##S* v) { return v->begin(); }                                  \
    const T* vec_cend_##S(const V_##S* v) { return v->end(); }                                      \
    T* vec_dataptr_##S(V_##S* v) { return v->data(); }                                              \
    const T* vec_cdataptr_##S(const V_##S* v) { return v->data(); }                                 \
    void vec_slice_##S(Slice<T>* r, V_##S* v) { new(r) Slice<T>(v->slice()); }                      \
    void vec_cslice_##S(Slice<const T>* r, const V_##S* v) { new(r) Slice<const T>(v->slice()); }   \
    }
SUITE(u64, u64)
SUITE(TC, TC)
SUITE(TK, TK)
extern "C" {
u64* vec_pushc_u64(V_u64* v, const u64* x) { return &v->push(*x); }
TC* vec_pushc_TC(V_TC* v, const TC* x) { return &v->push(*x); }
}
