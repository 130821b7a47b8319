#include "vc.h"
struct TD : TC { explicit TD(u64 x) noexcept : TC(x) {} };
#define BOX(S, T)                                                                                   \
    using B_##S = Box<T, VA>;                                                                       \
    SIZE(box_##S, B_##S) OFF(box_data_##S, B_##S, data_)                                            \
    extern "C" {                                                                                    \
    void box_ctor_##S(B_##S* r) { new(r) B_##S(); }                                                 \
    void box_value_ctor_##S(B_##S* r, T* x) { new(r) B_##S(rpp::move(*x)); }                        \
    void box_args_ctor_##S(B_##S* r, u64 x) { new(r) B_##S(x); }                                    \
    void box_make_##S(B_##S* r, u64 x) { new(r) B_##S(B_##S::make(x)); }                            \
    void box_dtor_##S(B_##S* v) { v->~B_##S(); }                                                    \
    void box_move_##S(B_##S* r, B_##S* s) { new(r) B_##S(rpp::move(*s)); }                          \
    void box_assign_##S(B_##S* r, B_##S* s) { *r = rpp::move(*s); }                                 \
    void box_emplace_##S(B_##S* v, u64 x) { v->emplace(x); }                                        \
    void box_clone_##S(B_##S* r, const B_##S* s) { new(r) B_##S(s->clone()); }                      \
    T* box_deref_##S(B_##S* v) { return &**v; }                                                     \
    const T* box_cderef_##S(const B_##S* v) { return &**v; }                                        \
    T* box_arrow_##S(B_##S* v) { return v->operator->(); }                                          \
    const T* box_carrow_##S(const B_##S* v) { return v->operator->(); }                             \
    bool box_ok_##S(const B_##S* v) { return v->ok(); }                                             \
    }
#define SHARED(P, R, S, T)                                                                          \
    using P##_##S = R<T, VA>;                                                                       \
    using P##D_##S = P##_##S::Data;                                                                 \
    SIZE(P##_##S, P##_##S) OFF(P##_data_##S, P##_##S, data_) SIZE(P##d_##S, P##D_##S)               \
    OFF(P##d_refs_##S, P##D_##S, references) OFF(P##d_value_##S, P##D_##S, value)                   \
    extern "C" {                                                                                    \
    void P##_ctor_##S(P##_##S* r) { new(r) P##_##S(); }                                             \
    void P##_value_ctor_##S(P##_##S* r, T* x) { new(r) P##_##S(rpp::move(*x)); }                    \
    void P##_args_ctor_##S(P##_##S* r, u64 x) { new(r) P##_##S(x); }                                \
    void P##_make_##S(P##_##S* r, u64 x) { new(r) P##_##S(P##_##S::make(x)); }                      \
    void P##_from_this_##S(P##_##S* r, T* x) { new(r) P##_##S(P##_##S::from_this(x)); }             \
    void P##_dtor_##S(P##_##S* v) { v->~P##_##S(); }                                                \
    void P##_clear_##S(P##_##S* v) { v->clear(); }                                                  \
    void P##_dup_##S(P##_##S* r, const P##_##S* s) { new(r) P##_##S(s->dup()); }                    \
    void P##_move_##S(P##_##S* r, P##_##S* s) { new(r) P##_##S(rpp::move(*s)); }                    \
    void P##_assign_##S(P##_##S* r, P##_##S* s) { *r = rpp::move(*s); }                             \
    void P##_assign_dup_##S(P##_##S* r, P##_##S* s) { *r = s->dup(); }                              \
    T* P##_deref_##S(P##_##S* v) { return &**v; }                                                   \
    const T* P##_cderef_##S(const P##_##S* v) { return &**v; }                                      \
    T* P##_arrow_##S(P##_##S* v) { return v->operator->(); }                                        \
    const T* P##_carrow_##S(const P##_##S* v) { return v->operator->(); }                           \
    u64 P##_references_##S(const P##_##S* v) { return v->references(); }                            \
    bool P##_ok_##S(const P##_##S* v) { return v->ok(); }                                           \
    }
BOX(u64, u64) BOX(TC, TC) BOX(TK, TK)
SHARED(rc, Rc, u64, u64) SHARED(rc, Rc, TC, TC) SHARED(rc, Rc, TK, TK)
SHARED(arc, Arc, u64, u64) SHARED(arc, Arc, TC, TC) SHARED(arc, Arc, TK, TK)
extern "C" void box_derived_TC(B_TC* r, Box<TD, VA>* s) { new(r) B_TC(rpp::move(*s)); }
extern "C" u64 atomic_load(const Thread::Atomic* a) { return a->load(); }
extern "C" u64 atomic_incr(Thread::Atomic* a) { return a->incr(); }
extern "C" u64 atomic_decr(Thread::Atomic* a) { return a->decr(); }
extern "C" u64 atomic_exchange(Thread::Atomic* a, u64 x) { return a->exchange(x); }
extern "C" u64 atomic_cas(Thread::Atomic* a, u64 c, u64 x) { return a->compare_and_swap(c, x); }
#include <rpp/pos/thread_pos.cpp>
