// Common part of the verification harnesses: an allocator and element types whose operations are contracts of the
// verifier (externs). Everything else that is executed symbolically is the code under /repo.
#pragma once
#define private public
#define protected public
#include <rpp/base.h>
#include <rpp/stack.h>
#include <rpp/heap.h>
#include <rpp/rc.h>
#include <rpp/pool.h>
#include <rpp/variant.h>
#include <rpp/tuple.h>
#include <rpp/range_allocator.h>
#include <rpp/rng.h>
#undef private
#undef protected

namespace vc {
using namespace rpp;
extern "C" {
void* va_alloc(u64) noexcept;
void va_free(void*) noexcept;
void trk_default_ctor(void*) noexcept;
void trk_value_ctor(void*, u64) noexcept;
void trk_copy_ctor(void*, const void*) noexcept;
void trk_move_ctor(void*, void*) noexcept;
void trk_move_assign(void*, void*) noexcept;
void trk_copy_assign(void*, const void*) noexcept;
void trk_dtor(void*) noexcept;
bool trk_eq(const void*, const void*) noexcept;
bool trk_lt(const void*, const void*) noexcept;
u64 trk_get(const void*) noexcept;
u64 trk_hash(const void*) noexcept;
u64 key_hash(u64) noexcept;
}
struct VA {
    constexpr static Literal name = "VA";
    static void* alloc(u64 n) noexcept { return va_alloc(n); }
    static void free(void* p) noexcept { va_free(p); }
};
// element with observable lifetime; Copyable or only clonable
template<bool Copyable>
struct Trk {
    u64 v;
    Trk() noexcept { trk_default_ctor(this); }
    explicit Trk(u64 x) noexcept { trk_value_ctor(this, x); }
    Trk(Trk&& o) noexcept { trk_move_ctor(this, &o); }
    Trk(const Trk& o) noexcept requires Copyable { trk_copy_ctor(this, &o); }
    Trk& operator=(Trk&& o) noexcept { trk_move_assign(this, &o); return *this; }
    Trk& operator=(const Trk& o) noexcept requires Copyable { trk_copy_assign(this, &o); return *this; }
    ~Trk() noexcept { trk_dtor(this); }
    struct Tag {};
    Trk(const Trk& o, Tag) noexcept { trk_copy_ctor(this, &o); }
    [[nodiscard]] Trk clone() const noexcept requires(!Copyable) { return Trk(*this, Tag{}); }
    [[nodiscard]] bool operator==(const Trk& o) const noexcept { return trk_eq(this, &o); }
    [[nodiscard]] bool operator<(const Trk& o) const noexcept { return trk_lt(this, &o); }
    [[nodiscard]] u64 get() const noexcept { return trk_get(this); }
};
using TC = Trk<true>;
using TK = Trk<false>;
}
using namespace vc;
#define OFF(name, T, field) extern "C" const u64 off_##name = __builtin_offsetof(T, field);
#define SIZE(name, T) extern "C" const u64 size_##name = sizeof(T);
