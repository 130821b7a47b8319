#include "strs.h"
enum class Word : u8 { alpha = 3, alphabet = 1, b = 200 };
namespace rpp { RPP_NAMED_ENUM(Word, "Word", alpha, RPP_CASE(alpha), RPP_CASE(alphabet), RPP_CASE(b)); }
static bool ws(u8 c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v'; }
static void one(const std::string& a) {
    tr("text='%s'", show(a).c_str());
    Buf A(a); String_View v = A.view();
    u64 w = 0; while(w < a.size() && ws(a[w])) w++;
    u64 e = w; while(e < a.size() && !ws(a[e])) e++;
    u64 rest = e < a.size() ? e + 1 : e;
    CHECK(val(Format::skip_whitespace(v)) == a.substr(w));
    auto word = Format::parse_string(v); CHECK(word.ok() == (w < a.size()));
    if(word.ok()) { CHECK(val(word->first) == a.substr(w, e - w)); CHECK(word->first.data() == A.p + w); CHECK(val(word->second) == a.substr(rest)); }
    auto en = Format::parse_enum<Word>(v); std::string n = a.substr(w, e - w);
    CHECK(en.ok() == (n == "alpha" || n == "alphabet" || n == "b"));
    if(en.ok()) { CHECK((int)en->first == (n == "alpha" ? 3 : n == "b" ? 200 : 1)); CHECK(val(en->second) == a.substr(rest)); }
    u64 depth = Region_Allocator::depth(), size = Region_Allocator::size();
    char* end; long long x = strtoll(a.c_str(), &end, 10); u64 used = end - a.c_str();
    auto i = Format::parse_i64(v); CHECK(i.ok() == (used > 0)); if(i.ok()) { CHECK(i->first == x); CHECK(val(i->second) == a.substr(used)); CHECK(i->second.empty() || i->second.data() == A.p + used); }
    float y = strtof(a.c_str(), &end); used = end - a.c_str();
    auto f = Format::parse_f32(v); CHECK(f.ok() == (used > 0)); if(f.ok()) { CHECK(memcmp(&f->first, &y, 4) == 0 || (y != y && f->first != f->first)); CHECK(val(f->second) == a.substr(used)); }
    CHECK(Region_Allocator::depth() == depth && Region_Allocator::size() == size);
    g_trace.clear();
}
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    for(int c = 0; c < 256; c++) {
        CHECK(ascii::is_whitespace(c) == ws(c)); CHECK(ascii::to_uppercase(c) == (c >= 'a' && c <= 'z' ? c - 32 : c)); CHECK(ascii::to_lowercase(c) == (c >= 'A' && c <= 'Z' ? c + 32 : c));
        one(std::string(1, (char)c)); one("ab" + std::string(1, (char)c) + "cd"); one(std::string(1, (char)c) + "cd"); one("cd" + std::string(1, (char)c));
    }
    for(const char* s : {"alpha", "alphabet", "b", " alpha beta", "alph", "alphax", "b ", "  b\t\n", "alphabet  alpha", "-12x", "+5", " 7 8", "1e5z", "0x1f", "nan", "inf", "-", "99999999999999999999", "."}) one(s);
    for(int i = 0; i < 30000; i++) one(text(r, i % 7 ? 10 : 60, i % 3 == 0 ? "a b\t\n\r\v" : i % 3 == 1 ? "0123456789+-.e x" : "alphbet "));
    for(u64 n : {255, 256, 1023, 1024, 4096, 65536, 140000}) for(char c : {' ', '7', 'x'}) { one(std::string(n, c)); one(std::string(n, c) + " " + std::string(n, 'y')); one(std::string(n, ' ') + std::string(n, c)); }
    return 0;
}
