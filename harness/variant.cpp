#include "vc.h"
extern "C" {
void alt_born(u64 k, const void*) noexcept;
void alt_use(u64 k, const void*) noexcept;
u64 alt_visit(u64 k, const void*) noexcept;
u64 alt_cvisit(u64 k, const void*) noexcept;
u64 alt_rvisit(u64 k, const void*) noexcept;
}
// alternative k: lifetime observed, and the verifier checks that code for alternative k only ever touches alternative k
template<u64 K> struct TA {
    u64 v;
    explicit TA(u64 x) noexcept { trk_value_ctor(this, x); alt_born(K, this); }
    TA(TA&& o) noexcept { alt_use(K, &o); trk_move_ctor(this, &o); alt_born(K, this); }
    TA& operator=(TA&& o) noexcept { alt_use(K, &o); alt_use(K, this); trk_move_assign(this, &o); return *this; }
    TA(const TA& o) noexcept requires(K % 2 == 0) { alt_use(K, &o); trk_copy_ctor(this, &o); alt_born(K, this); }
    struct Tag {};
    TA(const TA& o, Tag) noexcept { alt_use(K, &o); trk_copy_ctor(this, &o); alt_born(K, this); }
    [[nodiscard]] TA clone() const noexcept requires(K % 2 == 1) { return TA(*this, Tag{}); }
    ~TA() noexcept { alt_use(K, this); trk_dtor(this); }
};
struct P16 { u64 a, b; };
template<typename... Ts> struct Ops {
    using V = Variant<Ts...>;
    template<u64 K> using A = Choose<K, Ts...>;
    template<typename> struct Idx;
    template<typename T> static constexpr u64 ix = Index_Of<T, Ts...>;
    static u64 match(V* v) { return v->match(Overload{[](Ts& x) { return alt_visit(ix<Ts>, &x); }...}); }
    static u64 cmatch(const V* v) { return v->match(Overload{[](const Ts& x) { return alt_cvisit(ix<Ts>, &x); }...}); }
    static u64 rmatch(V* v) { return rpp::move(*v).match(Overload{[](Ts&& x) { return alt_rvisit(ix<Ts>, &x); }...}); }
};
#define COMMON(S, ...)                                                                              \
    using O_##S = Ops<__VA_ARGS__>;                                                                 \
    using V_##S = O_##S::V;                                                                         \
    SIZE(var_##S, V_##S) OFF(var_data_##S, V_##S, data_) OFF(var_index_##S, V_##S, index_)          \
    extern "C" {                                                                                    \
    void var_dtor_##S(V_##S* v) { v->~V_##S(); }                                                    \
    void var_move_##S(V_##S* r, V_##S* s) { new(r) V_##S(rpp::move(*s)); }                          \
    void var_assign_##S(V_##S* r, V_##S* s) { *r = rpp::move(*s); }                                 \
    void var_clone_##S(V_##S* r, const V_##S* s) { new(r) V_##S(s->clone()); }                      \
    u64 var_match_##S(V_##S* v) { return O_##S::match(v); }                                         \
    u64 var_cmatch_##S(const V_##S* v) { return O_##S::cmatch(v); }                                 \
    u64 var_rmatch_##S(V_##S* v) { return O_##S::rmatch(v); }                                       \
    u64 var_index_##S(const V_##S* v) { return v->index(); }                                        \
    }
#define ALT(S, K)                                                                                   \
    extern "C" void var_ctor_##S##_##K(V_##S* r, O_##S::A<K>* x) { new(r) V_##S(rpp::move(*x)); }   \
    extern "C" const u64 size_alt_##S##_##K = sizeof(O_##S::A<K>);
COMMON(V1, TA<0>)
COMMON(V3, u64, TA<1>, TA<2>)
COMMON(V8, TA<0>, TA<1>, TA<2>, TA<3>, TA<4>, TA<5>, TA<6>, TA<7>)
COMMON(V9, TA<0>, TA<1>, TA<2>, TA<3>, TA<4>, TA<5>, TA<6>, TA<7>, TA<8>)
COMMON(V12, TA<0>, TA<1>, TA<2>, TA<3>, TA<4>, TA<5>, TA<6>, TA<7>, TA<8>, TA<9>, TA<10>, TA<11>)
COMMON(VT, u8, P16, u64, u32)
ALT(V1, 0)
ALT(V3, 0) ALT(V3, 1) ALT(V3, 2)
ALT(V8, 0) ALT(V8, 1) ALT(V8, 2) ALT(V8, 3) ALT(V8, 4) ALT(V8, 5) ALT(V8, 6) ALT(V8, 7)
ALT(V9, 0) ALT(V9, 1) ALT(V9, 2) ALT(V9, 3) ALT(V9, 4) ALT(V9, 5) ALT(V9, 6) ALT(V9, 7) ALT(V9, 8)
ALT(V12, 0) ALT(V12, 1) ALT(V12, 2) ALT(V12, 3) ALT(V12, 4) ALT(V12, 5) ALT(V12, 6) ALT(V12, 7) ALT(V12, 8) ALT(V12, 9) ALT(V12, 10) ALT(V12, 11)
ALT(VT, 0) ALT(VT, 1) ALT(VT, 2) ALT(VT, 3)
template<u64 K> struct TT { u64 v; };   // trivial alternatives, for very many of them
struct Visit { template<u64 K> u64 operator()(const TT<K>& x) const { return alt_cvisit(K, &x); } };
template<template<u64> typename T, typename> struct MK;
template<template<u64> typename T, u64... Is> struct MK<T, Index_Sequence<Is...>> { using O = Ops<T<Is>...>; };
using O_V40 = MK<TA, Make_Index_Sequence<40>>::O;
using O_V255 = MK<TT, Make_Index_Sequence<255>>::O;
using V_V40 = O_V40::V;
using V_V255 = O_V255::V;
SIZE(var_V40, V_V40) OFF(var_data_V40, V_V40, data_) OFF(var_index_V40, V_V40, index_)
SIZE(var_V255, V_V255) OFF(var_data_V255, V_V255, data_) OFF(var_index_V255, V_V255, index_)
extern "C" {
void var_dtor_V40(V_V40* v) { v->~V_V40(); }
u64 var_cmatch_V40(const V_V40* v) { return O_V40::cmatch(v); }
u64 var_match_V40(V_V40* v) { return O_V40::match(v); }
u64 var_rmatch_V40(V_V40* v) { return O_V40::rmatch(v); }
u64 var_index_V40(const V_V40* v) { return v->index(); }
void var_move_V40(V_V40* r, V_V40* s) { new(r) V_V40(rpp::move(*s)); }
void var_clone_V40(V_V40* r, const V_V40* s) { new(r) V_V40(s->clone()); }
u64 var_cmatch_V255(const V_V255* v) { return v->match(Visit{}); }
u64 var_index_V255(const V_V255* v) { return v->index(); }
void var_move_V255(V_V255* r, V_V255* s) { new(r) V_V255(rpp::move(*s)); }
}
ALT(V40, 0) ALT(V40, 8) ALT(V40, 16) ALT(V40, 31) ALT(V40, 32) ALT(V40, 39)
ALT(V255, 0) ALT(V255, 16) ALT(V255, 31) ALT(V255, 127) ALT(V255, 128) ALT(V255, 254)
