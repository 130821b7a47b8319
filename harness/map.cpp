// C06: Map with a trivial key (PK), with copyable and with clonable-only keys and values
#include "vc.h"
struct PK { u64 v; bool operator==(const PK&) const noexcept = default; };
template<> struct rpp::Hash::Hash<PK> { static u64 hash(const PK& k) noexcept { return key_hash(k.v); } };
template<bool C> struct rpp::Hash::Hash<vc::Trk<C>> { static u64 hash(const vc::Trk<C>& k) noexcept { return trk_hash(&k); } };
namespace rpp::Reflect {
template<> struct Refl<PK> { constexpr static Literal name = "PK"; constexpr static Kind kind = Kind::record_; };
template<bool C> struct Refl<vc::Trk<C>> { constexpr static Literal name = "Trk"; constexpr static Kind kind = Kind::record_; };
}
namespace rpp::Format {
template<> struct Measure<PK> { static u64 measure(const PK&) noexcept { return 0; } };
template<bool C> struct Measure<vc::Trk<C>> { static u64 measure(const vc::Trk<C>&) noexcept { return 0; } };
template<Allocator O> struct Write<O, PK> { static u64 write(String<O>&, u64 i, const PK&) noexcept { return i; } };
template<Allocator O, bool C> struct Write<O, vc::Trk<C>> { static u64 write(String<O>&, u64 i, const vc::Trk<C>&) noexcept { return i; } };
}
#define CT(S, K, V) \
    using M_##S = Map<K, V, VA>; \
    SIZE(map_##S, M_##S) OFF(map_data_##S, M_##S, data_) OFF(map_cap_##S, M_##S, capacity_) OFF(map_len_##S, M_##S, length_) OFF(map_use_##S, M_##S, usable_) OFF(map_shift_##S, M_##S, shift_) \
    SIZE(slot_##S, M_##S::Slot) OFF(slot_hash_##S, M_##S::Slot, hash) OFF(slot_data_##S, M_##S::Slot, data) \
    using P_##S = Pair<K, V>; OFF(pair_first_##S, P_##S, first) OFF(pair_second_##S, P_##S, second) SIZE(it_##S, M_##S::iterator) OFF(it_count_##S, M_##S::iterator, count_) \
    extern "C" { \
    u64 map_hash_##S(const K* k) { return hash_nonzero(*k); } \
    void map_ctor_##S(M_##S* m) { new(m) M_##S(); } \
    void map_ctor_cap_##S(M_##S* m, u64 n) { new(m) M_##S(n); } \
    void map_move_##S(M_##S* m, M_##S* s) { new(m) M_##S(rpp::move(*s)); } \
    void map_assign_##S(M_##S* m, M_##S* s) { *m = rpp::move(*s); } \
    void map_dtor_##S(M_##S* m) { m->~M_##S(); } \
    void map_clone_##S(M_##S* m, const M_##S* s) { new(m) M_##S(s->clone()); } \
    void map_clear_##S(M_##S* m) { m->clear(); } \
    void map_reserve_##S(M_##S* m, u64 n) { m->reserve(n); } \
    void map_grow_##S(M_##S* m) { m->grow(); } \
    bool map_empty_##S(const M_##S* m) { return m->empty(); } \
    bool map_full_##S(const M_##S* m) { return m->full(); } \
    u64 map_length_##S(const M_##S* m) { return m->length(); } \
    M_##S::Slot* map_insert_slot_##S(M_##S* m, M_##S::Slot* s) { return &m->insert_slot(rpp::move(*s)); } \
    V* map_insert_##S(M_##S* m, K* k, V* v) { return &m->insert(rpp::move(*k), rpp::move(*v)); } \
    V* map_emplace_##S(M_##S* m, K* k, u64 v) { return &m->emplace(rpp::move(*k), v); } \
    V* map_try_get_##S(M_##S* m, const K* k) { auto r = m->try_get(*k); return r.ok() ? &**r : null; } \
    const V* map_ctry_get_##S(const M_##S* m, const K* k) { auto r = m->try_get(*k); return r.ok() ? &**r : null; } \
    V* map_get_##S(M_##S* m, const K* k) { return &m->get(*k); } \
    const V* map_cget_##S(const M_##S* m, const K* k) { return &m->get(*k); } \
    bool map_contains_##S(const M_##S* m, const K* k) { return m->contains(*k); } \
    bool map_try_erase_##S(M_##S* m, const K* k) { return m->try_erase(*k); } \
    void map_erase_##S(M_##S* m, const K* k) { m->erase(*k); } \
    V* map_goi_##S(M_##S* m, K* k) { return &m->get_or_insert(rpp::move(*k)); } \
    void map_begin_##S(M_##S::iterator* r, M_##S* m) { new(r) M_##S::iterator(m->begin()); } \
    void map_end_##S(M_##S::iterator* r, M_##S* m) { new(r) M_##S::iterator(m->end()); } \
    void map_cbegin_##S(M_##S::const_iterator* r, const M_##S* m) { new(r) M_##S::const_iterator(m->begin()); } \
    void map_cend_##S(M_##S::const_iterator* r, const M_##S* m) { new(r) M_##S::const_iterator(m->end()); } \
    void map_next_##S(M_##S::iterator* i) { static_cast<void>(++*i); } \
    void map_cnext_##S(M_##S::const_iterator* i) { static_cast<void>((*i)++); } \
    bool map_iteq_##S(const M_##S::iterator* a, const M_##S::iterator* b) { return *a == *b; } \
    const K* map_itkey_##S(const M_##S::const_iterator* i) { return &(**i).first; } \
    const V* map_itval_##S(const M_##S::const_iterator* i) { return &(*i)->second; } }
#define CP(S, K, V) extern "C" { \
    V* map_insert_cc_##S(M_##S* m, const K* k, const V* v) { return &m->insert(*k, *v); } \
    V* map_insert_mc_##S(M_##S* m, K* k, const V* v) { return &m->insert(rpp::move(*k), *v); } \
    V* map_insert_cm_##S(M_##S* m, const K* k, V* v) { return &m->insert(*k, rpp::move(*v)); } \
    V* map_goi_c_##S(M_##S* m, const K* k) { return &m->get_or_insert(*k); } \
    void map_init2_##S(M_##S* m, Pair<K, V>* a, Pair<K, V>* b) { new(m) M_##S(rpp::move(*a), rpp::move(*b)); } }
using OR = Opt<Ref<u64>>; OFF(opt_ok, OR, ok_) OFF(opt_value, OR, value_)
CT(P, PK, u64) CP(P, PK, u64)
CT(C, TC, TC) CP(C, TC, TC)
CT(K, TK, TK)
