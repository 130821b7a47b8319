#include "vc.h"
// fixed arrays of N elements
#define ARR(S, T, N)                                                                                \
    using A_##S = Array<T, N>;                                                                      \
    SIZE(arr_##S, A_##S)                                                                            \
    extern "C" const u64 len_arr_##S = N;                                                           \
    extern "C" {                                                                                    \
    void arr_ctor_##S(A_##S* r) { new(r) A_##S(); }                                                 \
    void arr_move_##S(A_##S* r, A_##S* s) { new(r) A_##S(rpp::move(*s)); }                          \
    void arr_assign_##S(A_##S* r, A_##S* s) { *r = rpp::move(*s); }                                 \
    void arr_dtor_##S(A_##S* v) { v->~A_##S(); }                                                    \
    void arr_clone_##S(A_##S* r, const A_##S* s) { new(r) A_##S(s->clone()); }                      \
    u64 arr_length_##S(const A_##S* v) { return v->length(); }                                      \
    T* arr_at_##S(A_##S* v, u64 i) { return &(*v)[i]; }                                             \
    const T* arr_cat_##S(const A_##S* v, u64 i) { return &(*v)[i]; }                                \
    T* arr_data_##S(A_##S* v) { return v->data(); }                                                 \
    const T* arr_cdata_##S(const A_##S* v) { return v->data(); }                                    \
    T* arr_begin_##S(A_##S* v) { return v->begin(); }                                               \
    T* arr_end_##S(A_##S* v) { return v->end(); }                                                   \
    const T* arr_cbegin_##S(const A_##S* v) { return v->begin(); }                                  \
    const T* arr_cend_##S(const A_##S* v) { return v->end(); }                                      \
    void arr_slice_##S(Slice<T>* r, A_##S* v) { new(r) Slice<T>(v->slice()); }                      \
    void arr_cslice_##S(Slice<const T>* r, const A_##S* v) { new(r) Slice<const T>(v->slice()); }   \
    }
#define COPYABLE(S, T)                                                                              \
    extern "C" {                                                                                    \
    void arr_copy_##S(A_##S* r, const A_##S* s) { new(r) A_##S(*s); }                               \
    void arr_cassign_##S(A_##S* r, const A_##S* s) { *r = *s; }                                     \
    }
ARR(u64_1, u64, 1) ARR(u64_7, u64, 7) ARR(TC_5, TC, 5) ARR(TK_5, TK, 5) ARR(TC_1, TC, 1) ARR(TK_2, TK, 2) ARR(u64_100, u64, 100)
COPYABLE(u64_1, u64) COPYABLE(u64_7, u64) COPYABLE(TC_5, TC) COPYABLE(TC_1, TC) COPYABLE(u64_100, u64)
extern "C" {
void arr_init_u64_7(A_u64_7* r, u64* a, u64* b, u64* c, u64* d, u64* e, u64* f, u64* g) { new(r) A_u64_7(rpp::move(*a), rpp::move(*b), rpp::move(*c), rpp::move(*d), rpp::move(*e), rpp::move(*f), rpp::move(*g)); }
void arr_initc_u64_7(A_u64_7* r, const u64* a, const u64* b, const u64* c, const u64* d, const u64* e, const u64* f, const u64* g) { new(r) A_u64_7(*a, *b, *c, *d, *e, *f, *g); }
void arr_init_TC_5(A_TC_5* r, TC* a, TC* b, TC* c, TC* d, TC* e) { new(r) A_TC_5(rpp::move(*a), rpp::move(*b), rpp::move(*c), rpp::move(*d), rpp::move(*e)); }
void arr_initc_TC_5(A_TC_5* r, const TC* a, const TC* b, const TC* c, const TC* d, const TC* e) { new(r) A_TC_5(*a, *b, *c, *d, *e); }
void arr_init_TK_5(A_TK_5* r, TK* a, TK* b, TK* c, TK* d, TK* e) { new(r) A_TK_5(rpp::move(*a), rpp::move(*b), rpp::move(*c), rpp::move(*d), rpp::move(*e)); }
}
// slices
#define SL(S, T)                                                                                    \
    using S_##S = Slice<T>;                                                                         \
    SIZE(slice_##S, S_##S) OFF(slice_data_##S, S_##S, data_) OFF(slice_length_##S, S_##S, length_)  \
    extern "C" {                                                                                    \
    void slice_ctor_##S(S_##S* r) { new(r) S_##S(); }                                               \
    void slice_init_##S(S_##S* r, T* p, u64 n) { new(r) S_##S(p, n); }                              \
    void slice_copy_##S(S_##S* r, const S_##S* s) { new(r) S_##S(*s); }                             \
    void slice_cassign_##S(S_##S* r, const S_##S* s) { *r = *s; }                                   \
    void slice_move_##S(S_##S* r, S_##S* s) { new(r) S_##S(rpp::move(*s)); }                        \
    void slice_massign_##S(S_##S* r, S_##S* s) { *r = rpp::move(*s); }                              \
    void slice_clone_##S(S_##S* r, const S_##S* s) { new(r) S_##S(s->clone()); }                    \
    void slice_sub_##S(S_##S* r, const S_##S* s, u64 a, u64 n) { new(r) S_##S(s->sub(a, n)); }      \
    bool slice_empty_##S(const S_##S* s) { return s->empty(); }                                     \
    u64 slice_length_##S(const S_##S* s) { return s->length(); }                                    \
    u64 slice_bytes_##S(const S_##S* s) { return s->bytes(); }                                      \
    const T* slice_front_##S(const S_##S* s) { return &s->front(); }                                \
    const T* slice_back_##S(const S_##S* s) { return &s->back(); }                                  \
    T* slice_at_##S(S_##S* s, u64 i) { return &(*s)[i]; }                                           \
    const T* slice_cat_##S(const S_##S* s, u64 i) { return &(*s)[i]; }                              \
    T* slice_data_##S(S_##S* s) { return s->data(); }                                               \
    const T* slice_cdata_##S(const S_##S* s) { return s->data(); }                                  \
    T* slice_begin_##S(S_##S* s) { return s->begin(); }                                             \
    T* slice_end_##S(S_##S* s) { return s->end(); }                                                 \
    const T* slice_cbegin_##S(const S_##S* s) { return s->begin(); }                                \
    const T* slice_cend_##S(const S_##S* s) { return s->end(); }                                    \
    void slice_cbytes_##S(Slice<const u8>* r, const S_##S* s) { new(r) Slice<const u8>(s->to_bytes()); } \
    }
SL(u64, u64) SL(cu64, const u64) SL(TC, TC) SL(u8, u8) SL(cu8, const u8)
extern "C" {
void slice_toconst_u64(Slice<const u64>* r, const Slice<u64>* s) { new(r) Slice<const u64>(*s); }
void slice_mbytes_u64(Slice<u8>* r, Slice<u64>* s) { new(r) Slice<u8>(s->to_bytes()); }
u64 slice_list(u64 i, u64 a, u64 b, u64 c) { std::initializer_list<u64> l = {a, b, c}; Slice<const u64> s(l); return s[i] + (s.length() - 3); }
}
