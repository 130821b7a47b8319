// C16/C17/C18/C20: every public operation of String, String_View, the path helpers, concat and the text parsers
#include "vc.h"
#include <new>
using S = String<VA>;
using V = String_View;
OFF(str_data, S, data_) OFF(str_length, S, length_) OFF(str_capacity, S, capacity_) SIZE(str, S)
OFF(view_data, V, data_) OFF(view_length, V, length_) SIZE(view, V)
using PV = Pair<V, V>; using OV = Opt<PV>;
enum class Word : u8 { alpha = 3, alphabet = 1, b = 200 };
namespace rpp { RPP_NAMED_ENUM(Word, "Word", alpha, RPP_CASE(alpha), RPP_CASE(alphabet), RPP_CASE(b)); }
using PE = Pair<Word, V>; using OE = Opt<PE>;
OFF(oe_ok, OE, ok_) OFF(oe_value, OE, value_) OFF(pe_first, PE, first) OFF(pe_second, PE, second) SIZE(oe, OE)
using PI = Pair<i64, V>; using OI = Opt<PI>;
using PF = Pair<f32, V>; using OF_ = Opt<PF>;
OFF(ov_ok, OV, ok_) OFF(ov_value, OV, value_) OFF(pv_first, PV, first) OFF(pv_second, PV, second) SIZE(ov, OV)
OFF(oi_ok, OI, ok_) OFF(oi_value, OI, value_) OFF(pi_first, PI, first) OFF(pi_second, PI, second) SIZE(oi, OI)
OFF(of_ok, OF_, ok_) OFF(of_value, OF_, value_) OFF(pf_first, PF, first) OFF(pf_second, PF, second) SIZE(of, OF_)
SIZE(literal, Literal)
extern "C" {
void str_default(S* r) { new(r) S(); }
void str_ctor(S* r, u64 n) { new(r) S(n); }
void str_dtor(S* s) { s->~S(); }
void str_move(S* r, S* s) { new(r) S(rpp::move(*s)); }
void str_assign(S* r, S* s) { *r = rpp::move(*s); }
void str_clone(S* r, const S* s) { new(r) S(s->clone()); }
void str_clone_other(String<VA>* r, const S* s) { new(r) S(s->template clone<VA>()); }
void str_set_length(S* s, u64 n) { s->set_length(n); }
u8* str_at(S* s, u64 i) { return &(*s)[i]; }
const u8* str_at_const(const S* s, u64 i) { return &(*s)[i]; }
void str_view(V* r, const S* s) { new(r) V(s->view()); }
void str_sub(V* r, const S* s, u64 a, u64 b) { new(r) V(s->sub(a, b)); }
u64 str_write_char(S* s, u64 i, char c) { return s->write(i, c); }
u64 str_write_str(S* s, u64 i, const S* t) { return s->write(i, *t); }
u64 str_write_view(S* s, u64 i, const V* t) { return s->write(i, *t); }
const u8* str_begin(const S* s) { return s->begin(); }
const u8* str_end(const S* s) { return s->end(); }
u8* str_begin_mut(S* s) { return s->begin(); }
u8* str_end_mut(S* s) { return s->end(); }
const u8* str_data(const S* s) { return s->data(); }
u8* str_data_mut(S* s) { return s->data(); }
u64 str_length(const S* s) { return s->length(); }
u64 str_cap(const S* s) { return s->capacity(); }
bool str_empty(const S* s) { return s->empty(); }
void str_terminate(S* r, const S* s) { new(r) S(s->template terminate<VA>()); }
void str_append(S* r, const S* s, const S* t) { new(r) S(s->template append<VA, VA>(*t)); }

void view_default(V* r) { new(r) V(); }
void view_ctor(V* r, const u8* d, u64 n) { new(r) V(d, n); }
void view_cstr(V* r, const char* s) { new(r) V(s); }
void view_literal(V* r, const Literal* l) { new(r) V(*l); }
void view_operator_v(V* r, const char* s, u64 n) { new(r) V(operator""_v(s, n)); }
void view_copy(V* r, const V* s) { new(r) V(*s); }
void view_assign(V* r, const V* s) { *r = *s; }
void view_clone(V* r, const V* s) { new(r) V(s->clone()); }
const u8* view_at(const V* s, u64 i) { return &(*s)[i]; }
const u8* view_begin(const V* s) { return s->begin(); }
const u8* view_end(const V* s) { return s->end(); }
const u8* view_data(const V* s) { return s->data(); }
u64 view_length(const V* s) { return s->length(); }
bool view_empty(const V* s) { return s->empty(); }
void view_sub(V* r, const V* s, u64 a, u64 b) { new(r) V(s->sub(a, b)); }
void view_string(S* r, const V* s) { new(r) S(s->template string<VA>()); }
void view_terminate(S* r, const V* s) { new(r) S(s->template terminate<VA>()); }
void view_append(S* r, const V* s, const V* t) { new(r) S(s->template append<VA>(*t)); }

void concat0(S* r, const V* sep) { new(r) S(concat<VA>(*sep)); }
void concat1(S* r, const V* sep, const V* a) { new(r) S(concat<VA>(*sep, V(*a))); }
void concat2(S* r, const V* sep, S* a, const V* b) { new(r) S(concat<VA>(*sep, rpp::move(*a), V(*b))); }
void concat3(S* r, const V* sep, const V* a, S* b, S* c) { new(r) S(concat<VA>(*sep, V(*a), rpp::move(*b), rpp::move(*c))); }

bool eq_vv(const V* a, const V* b) { return *a == *b; }
bool eq_sv(const S* a, const V* b) { return *a == *b; }
bool eq_vs(const V* a, const S* b) { return *a == *b; }
bool eq_ss(const S* a, const S* b) { return *a == *b; }
bool ne_vv(const V* a, const V* b) { return *a != *b; }
bool ne_ss(const S* a, const S* b) { return *a != *b; }
bool lt_vv(const V* a, const V* b) { return *a < *b; }
bool lt_ss(const S* a, const S* b) { return *a < *b; }
u64 hash_s(const S* a) { return rpp::hash(*a); }
u64 hash_v(const V* a) { return rpp::hash(*a); }
u64 hash_nz_s(const S* a) { return rpp::hash_nonzero(*a); }
u64 hash_nz_v(const V* a) { return rpp::hash_nonzero(*a); }

void path_file(V* r, const V* s) { new(r) V(s->file_suffix()); }
void path_ext(V* r, const V* s) { new(r) V(s->file_extension()); }
void path_dir(V* r, const V* s) { new(r) V(s->remove_file_suffix()); }

u8 ascii_upper(u8 c) { return ascii::to_uppercase(c); }
u8 ascii_lower(u8 c) { return ascii::to_lowercase(c); }
bool ascii_space(u8 c) { return ascii::is_whitespace(c); }

void parse_skip(V* r, const V* s) { new(r) V(Format::skip_whitespace(*s)); }
void parse_word(OV* r, const V* s) { new(r) OV(Format::parse_string(*s)); }
void parse_word_enum(OE* r, const V* s) { new(r) OE(Format::parse_enum<Word>(*s)); }
void parse_int(OI* r, const V* s) { new(r) OI(Format::parse_i64(*s)); }
void parse_float(OF_* r, const V* s) { new(r) OF_(Format::parse_f32(*s)); }
}
