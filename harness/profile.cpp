// C27: the scope tree of the profiler in impl/profile.cpp
#include "vc.h"
#define private public
#include <rpp/base.h>
#undef private
#include <rpp/impl/profile.cpp>
using FP = Profile::Frame_Profile; using TN = Profile::Timing_Node; using TP = Profile::Thread_Profile; using QF = Queue<FP, Mhidden>; using VN = Vec<TN, Mhidden>; using VU = Vec<u64, Mhidden>;
SIZE(fp, FP) OFF(fp_current, FP, current_node) OFF(fp_nodes, FP, nodes) OFF(fp_allocations, FP, allocations)
SIZE(tn, TN) OFF(tn_loc, TN, loc) OFF(tn_begin, TN, begin) OFF(tn_end, TN, end) OFF(tn_self, TN, self_time) OFF(tn_heir, TN, heir_time) OFF(tn_calls, TN, calls) OFF(tn_parent, TN, parent) OFF(tn_children, TN, children)
OFF(vn_data, VN, data_) OFF(vn_length, VN, length_) OFF(vn_capacity, VN, capacity_) OFF(vu_data, VU, data_) OFF(vu_length, VU, length_) OFF(vu_capacity, VU, capacity_)
using LL = Log::Location; SIZE(loc, LL) OFF(loc_function, LL, function) OFF(loc_file, LL, file) OFF(loc_line, LL, line) OFF(sv_data, String_View, data_) OFF(sv_length, String_View, length_)
SIZE(tp, TP) OFF(tp_registered, TP, registered) OFF(tp_during, TP, during_frame) OFF(tp_lock, TP, frames_lock) OFF(tp_frames, TP, frames)
OFF(qf_data, QF, data_) OFF(qf_length, QF, length_) OFF(qf_last, QF, last_) OFF(qf_capacity, QF, capacity_)
extern "C" {
void pf_enter(const LL* l) { Profile::enter(*l); }
void pf_exit() { Profile::exit(); }
float pf_begin_frame() { return Profile::begin_frame(); }
void pf_end_frame() { Profile::end_frame(); }
void fp_enter(FP* f, const LL* l) { f->enter(*l); }
u64 fp_begin(FP* f) { return f->begin(); }
void fp_end(FP* f) { f->end(); }
void fp_self(FP* f, u64 i) { f->compute_self_times(i); }
bool loc_eq(const LL* a, const LL* b) { return *a == *b; }
}
