// C14: scoped regions: the chunk list and the region stack in impl/alloc.cpp
#include "vc.h"
#define private public
#include <rpp/base.h>
#undef private
#include <rpp/impl/alloc.cpp>
using C = Chunk;
OFF(chunk_up, C, up) OFF(chunk_size, C, size) OFF(chunk_used, C, used) SIZE(chunk, C)
extern "C" const u64 size_max_depth = MAX_REGION_DEPTH;
extern "C" {
void* rg_alloc(u64 brand, u64 n) { return Region_Allocator::alloc(brand, n); }
void rg_free(u64 brand, void* p) { Region_Allocator::free(brand, p); }
void rg_begin(u64 brand) { Region_Allocator::begin(brand); }
void rg_end(u64 brand) { Region_Allocator::end(brand); }
u64 rg_depth() { return Region_Allocator::depth(); }
u64 rg_size() { return Region_Allocator::size(); }
}
