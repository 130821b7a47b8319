#include "strs.h"
static void one(Rnd& r, bool ab, u64 big = 0) {
    std::string a = text(r, 20, std::string("ab\0\xff", 4)), b = text(r, 12, std::string("xy\0", 3)), sep = text(r, 3, ",");
    if(big) { a += std::string(big, 'p') + "end"; if(big & 1) b += std::string(big - 1, 'q') + "fin"; }
    tr("a='%s' b='%s' sep='%s'", show(a).c_str(), show(b).c_str(), show(sep).c_str());
    Buf A(a), B(b), P(sep); String_View va = A.view(), vb = B.view();
    {
        Str s = make(a, r.below(4)), t = make(b); u64 cap = s.capacity();
        CHECK(val(s) == a && s.length() == a.size() && s.empty() == a.empty() && s.end() == s.begin() + a.size() && s.data() == s.begin());
        { const Str& k = s; CHECK(k.begin() == s.data() && k.end() == s.data() + a.size() && k.data() == s.data()); }
        CHECK(va.begin() == A.p && va.end() == A.p + A.n && va.data() == A.p && va.length() == a.size() && va.empty() == a.empty());
        Str c = s.clone(); CHECK(val(c) == a && c.capacity() >= c.length() && (c.data() != s.data() || !a.size())); { Str d = s.clone<RA>(); CHECK(val(d) == a); }
        c.set_length(0); CHECK(val(s) == a);
        c = s.clone(); if(c.capacity() > c.length()) { c.set_length(c.capacity()); for(u64 i = 0; i < c.length(); i++) c[i] = 7; }
        CHECK(val(va.string<RA>()) == a); CHECK(val(s.view()) == a && s.view().data() == s.data()); CHECK(val(va.clone()) == a);
        std::string z = a + std::string(1, '\0');
        CHECK(val(s.terminate<RA>()) == z); CHECK(val(va.terminate<RA>()) == z);
        CHECK(val(s.append<RA, RA>(t)) == a + b); CHECK(val(va.append<RA>(vb)) == a + b); CHECK(val(s.append<RA, RA>(s)) == a + a); CHECK(val(va.append<RA>(va)) == a + a);
        u64 i = r.below(a.size() + 1), j = r.in(i, a.size());
        CHECK(val(s.sub(i, j)) == a.substr(i, j - i)); CHECK(val(va.sub(i, j)) == a.substr(i, j - i)); CHECK(s.sub(i, j).data() == s.data() + i);
        for(u64 k = 0; k < a.size(); k++) { CHECK(&s[k] == s.data() + k); CHECK(&((const Str&)s)[k] == s.data() + k); CHECK(&va[k] == A.p + k); }
        if(i + b.size() <= a.size()) {
            std::string e = a; e.replace(i, b.size(), b);
            Str w = make(a); CHECK(w.write(i, t) == i + b.size()); CHECK(val(w) == e);
            Str x = make(a); CHECK(x.write(i, vb) == i + b.size()); CHECK(val(x) == e);
        } else if(ab) { Str w = make(a); CHECK(aborts([&] { (void)w.write(i, t); })); CHECK(aborts([&] { (void)w.write(i, vb); })); }
        if(i < a.size()) { Str w = make(a); CHECK(w.write(i, 'Q') == i + 1); std::string e = a; e[i] = 'Q'; CHECK(val(w) == e); }
        Str m = rpp::move(s); CHECK(val(m) == a && m.capacity() == cap && s.length() == 0 && s.data() == null);
        s = rpp::move(m); CHECK(val(s) == a && m.length() == 0 && m.capacity() == 0 && m.data() == null);
        CHECK(val(t) == b);
        CHECK(val(concat<RA>(P.view(), String_View(va), make(b), make(a))) == a + sep + b + sep + a);
        CHECK(val(concat<RA>(P.view(), make(b), String_View(va))) == b + sep + a);
        CHECK(val(concat<RA>(P.view(), String_View(vb))) == b); CHECK(concat<RA>(P.view()).length() == 0);
        if(ab) {
            Str w = make(a, 2);
            CHECK(aborts([&] { (void)w[a.size()]; })); CHECK(aborts([&] { (void)va[a.size()]; })); CHECK(aborts([&] { (void)((const Str&)w)[~0ull]; }));
            CHECK(aborts([&] { (void)w.sub(0, a.size() + 1); })); CHECK(aborts([&] { (void)va.sub(0, a.size() + 1); })); CHECK(aborts([&] { (void)va.sub(1, 0); })); CHECK(aborts([&] { (void)w.sub(~0ull, 0); }));
            CHECK(aborts([&] { w.set_length(w.capacity() + 1); })); CHECK(aborts([&] { (void)w.write(a.size(), 'x'); })); CHECK(aborts([&] { (void)w.write(~0ull, String_View{B.p, b.size() ? b.size() : 1}); })); CHECK(aborts([&] { Str q = make("zz"); (void)w.write(~0ull, q); }));
        }
    }
    CHECK(val(va) == a && val(vb) == b);
    CHECK(RA::blocks().empty());
    g_trace.clear();
}
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    { char b[40]; for(int n = 0; n < 35; n++) { memset(b, 'a' + n % 3, n); b[n] = 0; char* h = strdup(b); CHECK(val(String_View(h)) == std::string(b)); CHECK(String_View(h).data() == (u8*)h); free(h); } }
    { Literal l{"hello"}; CHECK(val(String_View{l}) == "hello"); Literal e{""}; CHECK(String_View{e}.length() == 0); Literal f{"0123456789012345678901234567890"}; CHECK(String_View{f}.length() == 31); Literal* g = new Literal; memset(g->c_string, 'x', 32); CHECK(String_View{*g}.length() == 32); delete g; }
    CHECK(val("abc"_v) == "abc"); CHECK(val("a\0c"_v) == std::string("a\0c", 3)); CHECK(String_View{}.empty());
    { Str s; CHECK(s.length() == 0 && s.capacity() == 0 && s.empty()); Str c = s.clone(); CHECK(c.length() == 0); Str t{5}; CHECK(t.length() == 0 && t.capacity() == 5); }
    CHECK(RA::blocks().empty());
    for(int i = 0; i < 6000; i++) one(r, i < 6);
    for(int i = 0; i < 4; i++) one(r, false, 70000 + i);
    return 0;
}
