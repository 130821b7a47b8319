#include "strs.h"
static bool less(const std::string& a, const std::string& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](char x, char y) { return (u8)x < (u8)y; }); }
static void one(const std::string& a, const std::string& b) {
    tr("a='%s' b='%s'", show(a).c_str(), show(b).c_str());
    Buf A(a), B(b); String_View va = A.view(), vb = B.view();
    Str sa = make(a, 3), sb = make(b, 1); if(a.size() + 3 == sa.capacity()) memset(sa.data() + a.size(), 0x11, 3);
    CHECK((va == vb) == (a == b)); CHECK((sa == vb) == (a == b)); CHECK((va == sb) == (a == b)); CHECK((sa == sb) == (a == b));
    CHECK((va != vb) == (a != b)); CHECK((sa != sb) == (a != b));
    CHECK((va < vb) == less(a, b)); CHECK((sa < sb) == less(a, b)); CHECK((vb < va) == less(b, a)); CHECK((sb < sa) == less(b, a));
    CHECK(va == va); CHECK(sa == sa); CHECK(!(va < va)); CHECK(!(sa < sa));
    CHECK(rpp::hash(sa) == rpp::hash(va)); CHECK(rpp::hash_nonzero(sa) == rpp::hash_nonzero(va));
    if(a == b) { CHECK(rpp::hash(va) == rpp::hash(vb)); CHECK(rpp::hash(sa) == rpp::hash(sb)); CHECK(rpp::hash(sa) == rpp::hash(vb)); CHECK(rpp::hash_nonzero(sa) == rpp::hash_nonzero(sb)); }
    g_trace.clear();
}
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    for(int i = 0; i < 20000; i++) {
        std::string a = text(r, i % 5 ? 12 : 70, std::string("ab\0\xff\x7f\x80", 6)), b = a;
        if(b.size() && r.chance(60)) b[r.below(b.size())] = (char)r.below(256);
        if(r.chance(30)) b += text(r, 3, std::string("a\0", 2)); if(r.chance(20)) b.resize(r.below(b.size() + 1)); if(r.chance(10)) b = text(r, 12, "ab");
        one(a, b);
    }
    for(u64 n : {64, 255, 256, 257, 4096, 65535, 65536, 65537, 140000}) for(int k = 0; k < 4; k++) { std::string a(n, 'x'), b(n, 'x'); b[k == 0 ? n - 1 : k == 1 ? 0 : r.below(n)] = k == 3 ? 'x' : 0; one(a, b); one(b, a); one(a, a + "x"); one(a, a.substr(0, n - 1)); }
    return 0;
}
