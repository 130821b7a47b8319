#include "vc.h"
#define SUITE(S, T)                                                                                 \
    using V_##S = Heap<T, VA>;                                                                      \
    SIZE(heap_##S, V_##S) OFF(heap_data_##S, V_##S, data_) OFF(heap_length_##S, V_##S, length_) OFF(heap_capacity_##S, V_##S, capacity_) \
    extern "C" {                                                                                    \
    void heap_ctor_##S(V_##S* r) { new(r) V_##S(); }                                                \
    void heap_ctor_cap_##S(V_##S* r, u64 n) { new(r) V_##S(n); }                                    \
    void heap_init3_##S(V_##S* r, T* a, T* b, T* c) { new(r) V_##S(rpp::move(*a), rpp::move(*b), rpp::move(*c)); } \
    void heap_push_##S(V_##S* v, T* x) { v->push(rpp::move(*x)); }                                  \
    void heap_emplace_##S(V_##S* v, u64 x) { v->emplace(x); }                                       \
    void heap_pop_##S(V_##S* v) { v->pop(); }                                                       \
    void heap_move_##S(V_##S* r, V_##S* s) { new(r) V_##S(rpp::move(*s)); }                         \
    void heap_assign_##S(V_##S* r, V_##S* s) { *r = rpp::move(*s); }                                \
    void heap_dtor_##S(V_##S* v) { v->~V_##S(); }                                                   \
    void heap_clone_##S(V_##S* r, const V_##S* s) { new(r) V_##S(s->clone()); }                     \
    void heap_grow_##S(V_##S* v) { v->grow(); }                                                     \
    void heap_clear_##S(V_##S* v) { v->clear(); }                                                   \
    void heap_reserve_##S(V_##S* v, u64 n) { v->reserve(n); }                                       \
    bool heap_empty_##S(const V_##S* v) { return v->empty(); }                                      \
    bool heap_full_##S(const V_##S* v) { return v->full(); }                                        \
    u64 heap_length_##S(const V_##S* v) { return v->length(); }                                     \
    T* heap_top_##S(V_##S* v) { return &v->top(); }                                                 \
    const T* heap_ctop_##S(const V_##S* v) { return &v->top(); }                                    \
    T* heap_begin_##S(V_##S* v) { return v->begin(); }                                              \
    T* heap_end_##S(V_##S* v) { return v->end(); }                                                  \
    const T* heap_cbegin_##S(const V_##S* v) { return v->begin(); }                                 \
    const T* heap_cend_##S(const V_##S* v) { return v->end(); }                                     \
    }
SUITE(u64, u64)
SUITE(TC, TC)
SUITE(TK, TK)
