#pragma once
#include "common.h"
// exact-size heap copy of bytes, so the sanitizer sees any access outside
struct Buf {
    u8* p; u64 n;
    explicit Buf(const std::string& s) : p((u8*)malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); if(!n) p = (u8*)realloc(p, 1); }
    ~Buf() { free(p); }
    Buf(const Buf&) = delete;
    String_View view() const { return String_View{p, n}; }
};
using Str = String<RA>;
inline std::string text(Rnd& r, u64 max, const std::string& alpha) {
    std::string s; u64 n = r.below(max + 1);
    for(u64 i = 0; i < n; i++) s += r.chance(85) && alpha.size() ? alpha[r.below(alpha.size())] : (char)r.below(256);
    return s;
}
inline std::string show(const std::string& s) { std::string o; char b[8]; for(u8 c : s) { if(c >= 32 && c < 127) o += c; else { snprintf(b, 8, "\\x%02x", c); o += b; } } return o; }
inline Str make(const std::string& s, u64 extra = 0) { Str r{s.size() + extra}; r.set_length(s.size()); memcpy(r.data(), s.data(), s.size()); return r; }
inline std::string val(String_View v) { return std::string((const char*)v.data(), v.length()); }
inline std::string val(const Str& v) { return std::string((const char*)v.data(), v.length()); }
