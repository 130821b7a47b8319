#include "vc.h"
extern "C" {
u64 fn_call(u64 k, const void* self, u64 x, u64 y) noexcept;
u64 fn_call2(u64 k, const void* self, const void* byval, const void* ref, const void* rref) noexcept;
}
// callables: without state, with trivial state, with one or several owned captures
struct F0 { u64 operator()(u64 x, u64 y) noexcept { return fn_call(0, this, x, y); } };
struct F1 { u64 a, b, c, d; u64 operator()(u64 x, u64 y) noexcept { return fn_call(1, this, x, y); } };
struct F2 { u64 a; TC t; u64 operator()(u64 x, u64 y) noexcept { return fn_call(2, this, x, y); } };
struct F3 { TC t; u64 b; TK s; u64 operator()(u64 x, u64 y) noexcept { return fn_call(3, this, x, y); } };
struct F4 { u32 a; u16 b; u64 operator()(u64 x, u64 y) const noexcept { return fn_call(4, this, x, y); } };
struct F5 { u64 a[6]; u64 operator()(u64 x, u64 y) noexcept { return fn_call(5, this, x, y); } };
#define OPS(S, ...)                                                                                 \
    using S = __VA_ARGS__;                                                                          \
    SIZE(S, S) OFF(S##_storage, S, storage) OFF(S##_vtable, S, vtable)                              \
    extern "C" {                                                                                    \
    void S##_dtor(S* v) { v->~S(); }                                                                \
    void S##_move(S* r, S* s) { new(r) S(rpp::move(*s)); }                                          \
    void S##_assign(S* r, S* s) { *r = rpp::move(*s); }                                             \
    }
#define MAKE(S, K) extern "C" void S##_ctor_##K(S* r, F##K* f) { new(r) S(rpp::move(*f)); } SIZE(F##K, F##K)
OPS(Fn, Function<u64(u64, u64)>)
MAKE(Fn, 0) MAKE(Fn, 1) MAKE(Fn, 2) MAKE(Fn, 3) MAKE(Fn, 4)
OPS(FnB, FunctionN<6, u64(u64, u64)>)
extern "C" void FnB_ctor_5(FnB* r, F5* f) { new(r) FnB(rpp::move(*f)); } SIZE(F5, F5)
extern "C" void FnB_ctor_3(FnB* r, F3* f) { new(r) FnB(rpp::move(*f)); }
extern "C" u64 Fn_call(Fn* f, u64 x, u64 y) { return (*f)(x, y); }
extern "C" u64 FnB_call(FnB* f, u64 x, u64 y) { return (*f)(x, y); }
// arguments by value, by reference, by rvalue reference
struct F6 { u64 a; TC t; u64 operator()(TC v, u64& r, TC&& m) noexcept { return fn_call2(6, this, &v, &r, &m); } };
OPS(FnA, Function<u64(TC, u64&, TC&&)>)
MAKE(FnA, 6)
extern "C" u64 FnA_call(FnA* f, TC* v, u64* r, TC* m) { return (*f)(rpp::move(*v), *r, rpp::move(*m)); }
// nothing in, nothing out
extern "C" u64 fn_void(const void* self) noexcept;
struct F7 { TC t; void operator()() noexcept { fn_void(this); } };
OPS(FnV, Function<void()>)
MAKE(FnV, 7)
extern "C" void FnV_call(FnV* f) { (*f)(); }
