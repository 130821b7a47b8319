#include "vc.h"
#define SUITE(S, T)                                                                                 \
    using V_##S = Opt<T>;                                                                           \
    SIZE(opt_##S, V_##S) OFF(opt_ok_##S, V_##S, ok_) OFF(opt_value_##S, V_##S, value_)              \
    extern "C" {                                                                                    \
    void opt_ctor_##S(V_##S* r) { new(r) V_##S(); }                                                 \
    void opt_value_ctor_##S(V_##S* r, T* x) { new(r) V_##S(rpp::move(*x)); }                        \
    void opt_emplace_ctor_##S(V_##S* r, u64 x) { new(r) V_##S(x); }                                 \
    void opt_dtor_##S(V_##S* v) { v->~V_##S(); }                                                    \
    void opt_move_##S(V_##S* r, V_##S* s) { new(r) V_##S(rpp::move(*s)); }                          \
    void opt_assign_##S(V_##S* r, V_##S* s) { *r = rpp::move(*s); }                                 \
    void opt_assign_value_##S(V_##S* r, T* x) { *r = rpp::move(*x); }                               \
    void opt_emplace_##S(V_##S* v, u64 x) { v->emplace(x); }                                        \
    void opt_clear_##S(V_##S* v) { v->clear(); }                                                    \
    void opt_clone_##S(V_##S* r, const V_##S* s) { new(r) V_##S(s->clone()); }                      \
    T* opt_value_or_##S(V_##S* v, T* x) { return &v->value_or(*x); }                                \
    T* opt_deref_##S(V_##S* v) { return &**v; }                                                     \
    const T* opt_cderef_##S(const V_##S* v) { return &**v; }                                        \
    T* opt_arrow_##S(V_##S* v) { return v->operator->(); }                                          \
    const T* opt_carrow_##S(const V_##S* v) { return v->operator->(); }                             \
    bool opt_ok_##S(const V_##S* v) { return v->ok(); }                                             \
    }
SUITE(u64, u64)
SUITE(TC, TC)
SUITE(TK, TK)
extern "C" {
void opt_copy_u64(V_u64* r, const V_u64* s) { new(r) V_u64(*s); }
void opt_copy_assign_u64(V_u64* r, const V_u64* s) { *r = *s; }
// an optional that owns something: the element type is itself an owner
using V_vec = Opt<Vec<u64, VA>>;
SIZE(opt_vec, V_vec) OFF(opt_ok_vec, V_vec, ok_) OFF(opt_value_vec, V_vec, value_)
void opt_copy_ctor_TC(V_TC* r, const TC* x) { new(r) V_TC(*x); }
// raw storage
using ST_TC = Storage<TC>;
void sto_ctor_TC(ST_TC* r, u64 x) { new(r) ST_TC(x); }
void sto_construct_TC(ST_TC* r, u64 x) { r->construct(x); }
void sto_destruct_TC(ST_TC* r) { r->destruct(); }
TC* sto_deref_TC(ST_TC* r) { return &**r; }
const TC* sto_cderef_TC(const ST_TC* r) { return &**r; }
TC* sto_arrow_TC(ST_TC* r) { return r->operator->(); }
const TC* sto_carrow_TC(const ST_TC* r) { return r->operator->(); }
const u8* sto_data_TC(const ST_TC* r) { return r->data(); }
u8* sto_mdata_TC(ST_TC* r) { return r->data(); }
}
