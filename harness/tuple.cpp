#include "vc.h"
#include <rpp/tuple.h>
extern "C" {
void inv_arg(u64 i, const void*) noexcept;
u64 inv_result() noexcept;
}
template<typename T, u64... Is> static u64 invoke(T& t, Index_Sequence<Is...>) {
    return t.invoke([](auto&&... xs) { u64 i = 0; (inv_arg(i++, &xs), ...); return inv_result(); });
}
#define GET(S, K)                                                                                   \
    extern "C" const void* S##_get_##K(S* t) { return &t->get<K>(); }                               \
    extern "C" const void* S##_cget_##K(const S* t) { return &t->get<K>(); }
#define OPS(S, ...)                                                                                 \
    using S = __VA_ARGS__;                                                                          \
    SIZE(S, S)                                                                                      \
    extern "C" {                                                                                    \
    void S##_default(S* r) { new(r) S(); }                                                          \
    void S##_dtor(S* v) { v->~S(); }                                                                \
    void S##_move(S* r, S* s) { new(r) S(rpp::move(*s)); }                                          \
    void S##_assign(S* r, S* s) { *r = rpp::move(*s); }                                             \
    void S##_clone(S* r, const S* s) { new(r) S(s->clone()); }                                      \
    }
#define COPY(S)                                                                                     \
    extern "C" void S##_copy(S* r, const S* s) { new(r) S(*s); }                                    \
    extern "C" void S##_copy_assign(S* r, const S* s) { *r = *s; }
#define INVOKE(S, N)                                                                                \
    extern "C" u64 S##_invoke(S* t) { return invoke(*t, Make_Index_Sequence<N>{}); }                \
    extern "C" u64 S##_length(const S* t) { return t->length(); }
OPS(T1, Tuple<TC>) GET(T1, 0) INVOKE(T1, 1)
OPS(T2, Tuple<TK, u64>) GET(T2, 0) GET(T2, 1) INVOKE(T2, 2)
OPS(T3, Tuple<u64, TC, TK>) GET(T3, 0) GET(T3, 1) GET(T3, 2) INVOKE(T3, 3)
OPS(T5, Tuple<u8, TC, u64, u16, TK>) GET(T5, 0) GET(T5, 1) GET(T5, 2) GET(T5, 3) GET(T5, 4) INVOKE(T5, 5)
OPS(T4, Tuple<u64, u32, u64, u64>) GET(T4, 0) GET(T4, 1) GET(T4, 2) GET(T4, 3) INVOKE(T4, 4) COPY(T4)
OPS(T7, Tuple<TC, TC, TC, TC, TC, TC, TC>) GET(T7, 0) GET(T7, 1) GET(T7, 2) GET(T7, 3) GET(T7, 4) GET(T7, 5) GET(T7, 6) INVOKE(T7, 7)
OPS(P1, Pair<u64, TC>) GET(P1, 0) GET(P1, 1)  COPY(P1)
OPS(P2, Pair<TK, u64>) GET(P2, 0) GET(P2, 1)
OPS(P3, Pair<TC, TK>) GET(P3, 0) GET(P3, 1)
OPS(P4, Pair<u64, u32>) GET(P4, 0) GET(P4, 1) COPY(P4)
OPS(P5, Pair<TC, TC>) GET(P5, 0) GET(P5, 1) COPY(P5)
OPS(P6, Pair<TK, TK>) GET(P6, 0) GET(P6, 1)
#define M(x) rpp::move(*x)
extern "C" {
// every form of construction from components: moved, copied, component plus tuple of the rest
void T1_ctor_m(T1* r, TC* a) { new(r) T1(M(a)); }
void T1_ctor_c(T1* r, const TC* a) { new(r) T1(*a); }
void T2_ctor_mm(T2* r, TK* a, u64* b) { new(r) T2(M(a), M(b)); }
void T2_ctor_mc(T2* r, TK* a, const u64* b) { new(r) T2(M(a), *b); }
void T3_ctor_mmm(T3* r, u64* a, TC* b, TK* c) { new(r) T3(M(a), M(b), M(c)); }
void T3_ctor_cmm(T3* r, const u64* a, TC* b, TK* c) { new(r) T3(*a, M(b), M(c)); }
void T3_ctor_ccm(T3* r, const u64* a, const TC* b, TK* c) { new(r) T3(*a, *b, M(c)); }
void T3_ctor_mcm(T3* r, u64* a, const TC* b, TK* c) { new(r) T3(M(a), *b, M(c)); }
void T3_ctor_rest_mmm(T3* r, u64* a, TC* b, TK* c) { new(r) T3(M(a), Tuple<TC, TK>(M(b), M(c))); }
void T3_ctor_rest_cmm(T3* r, const u64* a, TC* b, TK* c) { new(r) T3(*a, Tuple<TC, TK>(M(b), M(c))); }
void T5_ctor_mmmmm(T5* r, u8* a, TC* b, u64* c, u16* d, TK* e) { new(r) T5(M(a), M(b), M(c), M(d), M(e)); }
void T5_ctor_cccmm(T5* r, const u8* a, const TC* b, const u64* c, u16* d, TK* e) { new(r) T5(*a, *b, *c, M(d), M(e)); }
void T5_ctor_rest_mmmmm(T5* r, u8* a, TC* b, u64* c, u16* d, TK* e) { new(r) T5(M(a), Tuple<TC, u64, u16, TK>(M(b), Tuple<u64, u16, TK>(M(c), M(d), M(e)))); }
void T4_ctor_cccc(T4* r, const u64* a, const u32* b, const u64* c, const u64* d) { new(r) T4(*a, *b, *c, *d); }
void T4_ctor_mmmm(T4* r, u64* a, u32* b, u64* c, u64* d) { new(r) T4(M(a), M(b), M(c), M(d)); }
void T7_ctor_mmmmmmm(T7* r, TC* a, TC* b, TC* c, TC* d, TC* e, TC* f, TC* g) { new(r) T7(M(a), M(b), M(c), M(d), M(e), M(f), M(g)); }
void T7_ctor_ccccccc(T7* r, const TC* a, const TC* b, const TC* c, const TC* d, const TC* e, const TC* f, const TC* g) { new(r) T7(*a, *b, *c, *d, *e, *f, *g); }
void T7_ctor_mcmcmcm(T7* r, TC* a, const TC* b, TC* c, const TC* d, TC* e, const TC* f, TC* g) { new(r) T7(M(a), *b, M(c), *d, M(e), *f, M(g)); }
void P1_ctor_mm(P1* r, u64* a, TC* b) { new(r) P1(M(a), M(b)); }
void P1_ctor_cc(P1* r, const u64* a, const TC* b) { new(r) P1(*a, *b); }
void P1_ctor_cm(P1* r, const u64* a, TC* b) { new(r) P1(*a, M(b)); }
void P1_ctor_mc(P1* r, u64* a, const TC* b) { new(r) P1(M(a), *b); }
void P5_ctor_mm(P5* r, TC* a, TC* b) { new(r) P5(M(a), M(b)); }
void P5_ctor_cc(P5* r, const TC* a, const TC* b) { new(r) P5(*a, *b); }
void P5_ctor_cm(P5* r, const TC* a, TC* b) { new(r) P5(*a, M(b)); }
void P5_ctor_mc(P5* r, TC* a, const TC* b) { new(r) P5(M(a), *b); }
void P2_ctor_mm(P2* r, TK* a, u64* b) { new(r) P2(M(a), M(b)); }
void P2_ctor_mc(P2* r, TK* a, const u64* b) { new(r) P2(M(a), *b); }
void P3_ctor_mm(P3* r, TC* a, TK* b) { new(r) P3(M(a), M(b)); }
void P3_ctor_cm(P3* r, const TC* a, TK* b) { new(r) P3(*a, M(b)); }
void P4_ctor_cc(P4* r, const u64* a, const u32* b) { new(r) P4(*a, *b); }
void P6_ctor_mm(P6* r, TK* a, TK* b) { new(r) P6(M(a), M(b)); }
// structured bindings
void T3_bind(T3* t, const void** a) { auto& [x, y, z] = *t; a[0] = &x; a[1] = &y; a[2] = &z; }
void T5_bind(T5* t, const void** a) { auto& [x, y, z, w, v] = *t; a[0] = &x; a[1] = &y; a[2] = &z; a[3] = &w; a[4] = &v; }
void P3_bind(P3* t, const void** a) { auto& [x, y] = *t; a[0] = &x; a[1] = &y; }
void T0_ops(u64* n) { Tuple<> a; Tuple<> b = a.clone(); *n = b.length(); *n += a.invoke([] { return inv_result(); }); }
}
#define FIRST(S) extern "C" const void* S##_first(S* t) { return &t->first; } extern "C" const void* S##_second(S* t) { return &t->second; }
FIRST(P1) FIRST(P2) FIRST(P3) FIRST(P4) FIRST(P5) FIRST(P6)
