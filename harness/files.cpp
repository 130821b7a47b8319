// C29: file reads and writes over contracts of the system calls
#include "vc.h"
#include <new>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#define private public
#include <rpp/files.h>
#undef private
#include <rpp/pos/files_pos.cpp>
#include <stddef.h>
using V = String_View; using Bytes = Vec<u8, Files::Alloc>; using OB = Opt<Bytes>; using OT = Opt<Files::File_Time>;
OFF(view_data, V, data_) OFF(view_length, V, length_) SIZE(view, V)
OFF(ob_ok, OB, ok_) OFF(ob_value, OB, value_) SIZE(ob, OB)
OFF(bytes_data, Bytes, data_) OFF(bytes_length, Bytes, length_) OFF(bytes_capacity, Bytes, capacity_)
OFF(ot_ok, OT, ok_) OFF(ot_value, OT, value_) SIZE(ot, OT)
using SL = Slice<const u8>;
OFF(slice_data, SL, data_) OFF(slice_length, SL, length_) SIZE(slice, SL)
using W = Files::Write_Watcher;
OFF(w_path, W, path_) OFF(w_time, W, last_write_time_) SIZE(w, W)
extern "C" const u64 off_stat_mtime = offsetof(struct stat, st_mtim.tv_sec);
extern "C" const u64 off_stat_size = offsetof(struct stat, st_size);
extern "C" const u64 size_stat = sizeof(struct stat);
extern "C" const u64 size_o_creat = O_CREAT;
extern "C" const u64 size_o_trunc = O_TRUNC;
extern "C" const u64 size_o_append = O_APPEND;
extern "C" const u64 size_o_excl = O_EXCL;
extern "C" {
void file_read(OB* r, const V* p) { new(r) OB(Files::read(*p)); }
bool file_write(const V* p, const SL* d) { return Files::write(*p, *d); }
void file_time(OT* r, const V* p) { new(r) OT(Files::last_write_time(*p)); }
bool file_before(const u64* a, const u64* b) { return Files::before(*a, *b); }
void watch_ctor(W* r, const V* p) { new(r) W(*p); }
bool watch_poll(W* w) { return w->poll(); }
void watch_read(OB* r, const W* w) { new(r) OB(w->read()); }
}
