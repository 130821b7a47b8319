#include "vc.h"
#define SUITE(S, T)                                                                                 \
    using V_##S = Stack<T, VA>;                                                                     \
    SIZE(stack_##S, V_##S) OFF(stack_data_##S, V_##S, data_.data_) OFF(stack_length_##S, V_##S, data_.length_) OFF(stack_capacity_##S, V_##S, data_.capacity_) \
    extern "C" {                                                                                    \
    void stack_ctor_##S(V_##S* r) { new(r) V_##S(); }                                               \
    void stack_ctor_cap_##S(V_##S* r, u64 n) { new(r) V_##S(n); }                                   \
    void stack_init3_##S(V_##S* r, T* a, T* b, T* c) { new(r) V_##S(rpp::move(*a), rpp::move(*b), rpp::move(*c)); } \
    T* stack_push_##S(V_##S* v, T* x) { return &v->push(rpp::move(*x)); }                           \
    T* stack_emplace_##S(V_##S* v, u64 x) { return &v->emplace(x); }                                \
    void stack_pop_##S(V_##S* v) { v->pop(); }                                                      \
    void stack_move_##S(V_##S* r, V_##S* s) { new(r) V_##S(rpp::move(*s)); }                        \
    void stack_assign_##S(V_##S* r, V_##S* s) { *r = rpp::move(*s); }                               \
    void stack_dtor_##S(V_##S* v) { v->~V_##S(); }                                                  \
    void stack_clone_##S(V_##S* r, const V_##S* s) { new(r) V_##S(s->clone()); }                    \
    void stack_clear_##S(V_##S* v) { v->clear(); }                                                  \
    bool stack_empty_##S(const V_##S* v) { return v->empty(); }                                     \
    bool stack_full_##S(const V_##S* v) { return v->full(); }                                       \
    u64 stack_length_##S(const V_##S* v) { return v->length(); }                                    \
    T* stack_top_##S(V_##S* v) { return &v->top(); }                                                \
    const T* stack_ctop_##S(const V_##S* v) { return &v->top(); }                                   \
    T* stack_begin_##S(V_##S* v) { return v->begin(); }                                             \
    T* stack_end_##S(V_##S* v) { return v->end(); }                                                 \
    const T* stack_cbegin_##S(const V_##S* v) { return v->begin(); }                                \
    const T* stack_cend_##S(const V_##S* v) { return v->end(); }                                    \
    }
SUITE(u64, u64)
SUITE(TC, TC)
SUITE(TK, TK)
extern "C" {
u64* stack_pushc_u64(V_u64* v, const u64* x) { return &v->push(*x); }
TC* stack_pushc_TC(V_TC* v, const TC* x) { return &v->push(*x); }
}
