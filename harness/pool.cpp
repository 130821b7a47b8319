// C15: object pools: Free_List over an arbitrary allocator, and Mpool over it
#include "vc.h"
#include <new>
#define private public
#include <rpp/base.h>
#undef private
struct Backing { constexpr static Literal name = "Backing"; static void* alloc(u64 size) noexcept; static void free(void* mem) noexcept; };
struct Obj { u64 a, b; explicit Obj(u64 x) noexcept; ~Obj() noexcept; };
struct Small { u32 a; explicit Small(u64 x) noexcept; };
using FO = Free_List<Obj, Backing>; using FS = Free_List<Small, Backing>; using PO = detail::Pool<sizeof(Obj)>;
OFF(fl_list, FO, list_) SIZE(fl, FO) OFF(fs_list, FS, list_) SIZE(fs, FS)
extern "C" const u64 size_node_o = sizeof(FO::Free_Node);
extern "C" const u64 size_node_s = sizeof(FS::Free_Node);
extern "C" const u64 size_obj = sizeof(Obj);
extern "C" const u64 size_small = sizeof(Small);
extern "C" {
Obj* fo_make(FO* l, u64 x) { return l->make(x); }
void fo_destroy(FO* l, Obj* p) { l->destroy(p); }
void fo_clear(FO* l) { l->clear(); }
void fo_dtor(FO* l) { l->~FO(); }
void fo_ctor(FO* l) { new(l) FO(); }
void fo_move(FO* l, FO* s) { new(l) FO(rpp::move(*s)); }
void fo_assign(FO* l, FO* s) { *l = rpp::move(*s); }
Small* fs_make(FS* l, u64 x) { return l->make(x); }
void fs_destroy(FS* l, Small* p) { l->destroy(p); }
void fs_clear(FS* l) { l->clear(); }
Obj* po_make(u64 x) { return Mpool::make<Obj>(static_cast<u64&&>(x)); }
void po_destroy(Obj* p) { Mpool::destroy(p); }
}
