#include "vc.h"
#define SUITE(S, T)                                                                                 \
    using V_##S = Queue<T, VA>;                                                                     \
    SIZE(queue_##S, V_##S) OFF(queue_data_##S, V_##S, data_) OFF(queue_length_##S, V_##S, length_) OFF(queue_last_##S, V_##S, last_) OFF(queue_capacity_##S, V_##S, capacity_) \
    extern "C" {                                                                                    \
    void queue_ctor_##S(V_##S* r) { new(r) V_##S(); }                                               \
    void queue_ctor_cap_##S(V_##S* r, u64 n) { new(r) V_##S(n); }                                   \
    void queue_init3_##S(V_##S* r, T* a, T* b, T* c) { new(r) V_##S(rpp::move(*a), rpp::move(*b), rpp::move(*c)); } \
    T* queue_push_##S(V_##S* v, T* x) { return &v->push(rpp::move(*x)); }                           \
    T* queue_emplace_##S(V_##S* v, u64 x) { return &v->emplace(x); }                                \
    void queue_pop_##S(V_##S* v) { v->pop(); }                                                      \
    void queue_move_##S(V_##S* r, V_##S* s) { new(r) V_##S(rpp::move(*s)); }                        \
    void queue_assign_##S(V_##S* r, V_##S* s) { *r = rpp::move(*s); }                               \
    void queue_dtor_##S(V_##S* v) { v->~V_##S(); }                                                  \
    void queue_clone_##S(V_##S* r, const V_##S* s) { new(r) V_##S(s->clone()); }                    \
    void queue_grow_##S(V_##S* v) { v->grow(); }                                                    \
    void queue_clear_##S(V_##S* v) { v->clear(); }                                                  \
    void queue_reserve_##S(V_##S* v, u64 n) { v->reserve(n); }                                      \
    bool queue_erase_##S(V_##S* v, const T* x) { return v->erase_first(*x); }                       \
    bool queue_empty_##S(const V_##S* v) { return v->empty(); }                                     \
    bool queue_full_##S(const V_##S* v) { return v->full(); }                                       \
    u64 queue_length_##S(const V_##S* v) { return v->length(); }                                    \
    T* queue_at_##S(V_##S* v, u64 i) { return &(*v)[i]; }                                           \
    const T* queue_cat_##S(const V_##S* v, u64 i) { return &(*v)[i]; }                              \
    T* queue_front_##S(V_##S* v) { return &v->front(); }                                            \
    const T* queue_cfront_##S(const V_##S* v) { return &v->front(); }                               \
    T* queue_back_##S(V_##S* v) { return &v->back(); }                                              \
    const T* queue_cback_##S(const V_##S* v) { return &v->back(); }                                 \
    T* queue_pen_##S(V_##S* v) { return &v->penultimate(); }                                        \
    const T* queue_cpen_##S(const V_##S* v) { return &v->penultimate(); }                           \
    void queue_iterate_##S(V_##S* v, u64* out, u64* n) { u64 i = 0; for(T& x : *v) { out[i] = (u64)(&x - v->data_); i++; } *n = i; } \
    void queue_citerate_##S(const V_##S* v, u64* out, u64* n) { u64 i = 0; for(const T& x : *v) { out[i] = (u64)(&x - v->data_); i++; } *n = i; } \
    T* queue_arrow_##S(V_##S* v) { auto it = v->begin(); return it.operator->(); }                  \
    const T* queue_carrow_##S(const V_##S* v) { auto it = v->begin(); return it.operator->(); }     \
    T* queue_inc_##S(V_##S* v) { auto it = v->begin(); ++it; return &*it; }                         \
    T* queue_postinc_##S(V_##S* v, bool after) { auto it = v->begin(); auto o = it++; return after ? &*it : &*o; } \
    bool queue_sameit_##S(V_##S* v) { return v->begin() == v->end(); }                              \
    }
SUITE(u64, u64)
SUITE(TC, TC)
SUITE(TK, TK)
extern "C" {
u64* queue_pushc_u64(V_u64* v, const u64* x) { return &v->push(*x); }
TC* queue_pushc_TC(V_TC* v, const TC* x) { return &v->push(*x); }
}
