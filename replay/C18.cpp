#include "strs.h"
static void one(const std::string& a) {
    tr("path='%s'", show(a).c_str());
    Buf A(a); String_View v = A.view();
    auto last = [&](const char* cs) { auto p = a.find_last_of(cs); return p == std::string::npos ? 0 : p + 1; };
    CHECK(val(v.file_suffix()) == a.substr(last("/\\"))); CHECK(val(v.remove_file_suffix()) == a.substr(0, last("/\\"))); CHECK(val(v.file_extension()) == a.substr(last("/\\.")));
    CHECK(val(v.remove_file_suffix()) + val(v.file_suffix()) == a);
    g_trace.clear();
}
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    CHECK(String_View{}.file_suffix().empty()); CHECK(String_View{}.remove_file_suffix().empty()); CHECK(String_View{}.file_extension().empty());
    for(int c = 0; c < 256; c++) { one(std::string(1, (char)c)); one("ab" + std::string(1, (char)c) + "cd"); one(std::string(1, (char)c) + "cd"); one("cd" + std::string(1, (char)c)); }
    for(int i = 0; i < 40000; i++) one(text(r, i % 9 ? 10 : 300, i % 3 ? "ab/\\." : "abcdefghijklmnop"));
    for(u64 n : {255, 256, 257, 4096, 65535, 65536, 140000}) { one(std::string(n, 'x')); one("ab/" + std::string(n, 'x')); one("/" + std::string(n, 'x')); one("." + std::string(n, 'x')); one(std::string(n, '/')); one(std::string(n, 'x') + "/a"); }
    return 0;
}
