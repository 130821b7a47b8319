// C28: allocation accounting: Profile::alloc, the net counter in impl/alloc.cpp, and Mallocator on top of both
#include "vc.h"
#define private public
#include <rpp/base.h>
#undef private
#include <rpp/impl/profile.cpp>
#include <rpp/impl/alloc.cpp>
using PA = Profile::Alloc; using AP = Profile::Alloc_Profile; using FP = Profile::Frame_Profile; using TP = Profile::Thread_Profile; using QF = Queue<FP, Mhidden>; using OR = Opt<Ref<u64>>;
SIZE(pa, PA) OFF(pa_name, PA, name) OFF(pa_address, PA, address) OFF(pa_size, PA, size) OFF(sv_data, String_View, data_) OFF(sv_length, String_View, length_)
SIZE(ap, AP) OFF(ap_allocates, AP, allocates) OFF(ap_frees, AP, frees) OFF(ap_allocate_size, AP, allocate_size) OFF(ap_free_size, AP, free_size) OFF(ap_high_water, AP, high_water) OFF(ap_current_set_size, AP, current_set_size) OFF(ap_set, AP, current_set)
OFF(opt_ok, OR, ok_) OFF(opt_value, OR, value_)
SIZE(fp, FP) OFF(fp_allocations, FP, allocations) SIZE(tp, TP) OFF(tp_registered, TP, registered) OFF(tp_during, TP, during_frame) OFF(tp_lock, TP, frames_lock) OFF(tp_frames, TP, frames)
OFF(qf_data, QF, data_) OFF(qf_length, QF, length_) OFF(qf_last, QF, last_) OFF(qf_capacity, QF, capacity_)
using MT = Mallocator<"Test">; using MQ = Mallocator<"Quiet", false>;
extern "C" {
void pa_alloc(const PA* a) { Profile::alloc(PA{a->name, a->address, a->size}); }
void ap_ctor(AP* a) { new(a) AP(); }
void* sa_alloc(u64 n) { return sys_alloc(n); }
void sa_free(void* p) { sys_free(p); }
i64 sa_net() { return sys_net_allocs(); }
void* mt_alloc(u64 n) { return MT::alloc(n); }
void mt_free(void* p) { MT::free(p); }
void* mq_alloc(u64 n) { return MQ::alloc(n); }
void mq_free(void* p) { MQ::free(p); }
}
