// Shared parts of the replay drivers: they run the real code on concrete inputs against an oracle and print the
// failing input. They never decide a property; they turn a failed proof obligation into a concrete counterexample.
#pragma once
#include <cstdarg>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <functional>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <rpp/base.h>
using namespace rpp;

static std::string g_trace;
[[noreturn]] inline void fail(const char* what) {
    printf("FAIL: %s\nhistory: %s\n", what, g_trace.c_str());
    fflush(stdout);
    _exit(3);
}
#define CHECK(c) do { if(!(c)) { char b_[512]; snprintf(b_, sizeof b_, "%s (line %d)", #c, __LINE__); fail(b_); } } while(0)
inline void tr(const char* f, ...) {
    char b[256]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    if(g_trace.size() > 6000) g_trace = "..." + g_trace.substr(3000);
    g_trace += b; g_trace += "; ";
}
struct Rnd {
    uint64_t s;
    explicit Rnd(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 88172645463325252ull) { for(int i = 0; i < 8; i++) next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
    uint64_t in(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool chance(int pct) { return below(100) < (uint64_t)pct; }
};
// runs f in a child; true if the operation stopped the program itself (assert, die) instead of returning or running
// into undefined behaviour
template<typename F> inline bool aborts(F f) {
    fflush(stdout);
    FILE* err = tmpfile();
    pid_t p = fork();
    if(p == 0) { alarm(10); dup2(fileno(err), 2); if(!freopen("/dev/null", "w", stdout)) {} f(); _exit(99); }
    int st = 0; waitpid(p, &st, 0);
    std::string e; char b[4096]; rewind(err); for(size_t n; (n = fread(b, 1, sizeof b, err)) > 0;) e.append(b, n);
    fclose(err);
    if(e.find("runtime error:") != std::string::npos || e.find("AddressSanitizer") != std::string::npos) return false;
    if(WIFSIGNALED(st)) return WTERMSIG(st) != SIGALRM && WTERMSIG(st) != SIGSEGV;
    return WEXITSTATUS(st) != 99;
}
// allocator that knows its blocks
struct RA {
    constexpr static Literal name = "RA";
    static std::map<char*, size_t>& blocks() { static std::map<char*, size_t> b; return b; }
    static void* alloc(u64 n) noexcept {
        char* p = (char*)malloc(n ? n : 1);
        memset(p, 0xA5, n);
        blocks()[p] = n; return p;
    }
    static void free(void* p) noexcept;
};
// element with checked lifetime
struct Obj {
    u64 v;
    static std::map<const Obj*, int>& live() { static std::map<const Obj*, int> l; return l; }   // 1 alive, 2 moved-from
    static int state(const Obj* o) { auto i = live().find(o); return i == live().end() ? 0 : i->second; }
    void born() { if(state(this) == 1) fail("element constructed over a live element"); live()[this] = 1; }
    static void use(const Obj* o) { if(state(o) != 1) fail("use of an element that is not alive"); }
    Obj() noexcept { born(); v = 0; }
    Obj(u64 x) noexcept { born(); v = x; }
    Obj(const Obj& o) noexcept { use(&o); born(); v = o.v; }
    Obj(Obj&& o) noexcept { use(&o); born(); v = o.v; live()[&o] = 2; }
    Obj& operator=(const Obj& o) noexcept { use(&o); if(!state(this)) fail("assignment to unconstructed element"); v = o.v; live()[this] = 1; return *this; }
    Obj& operator=(Obj&& o) noexcept { use(&o); if(!state(this)) fail("assignment to unconstructed element"); u64 x = o.v; if(&o != this) live()[&o] = 2; v = x; live()[this] = 1; return *this; }
    ~Obj() noexcept { if(!state(this)) fail("element destroyed twice or never constructed"); live().erase(this); }
    bool operator==(const Obj& o) const noexcept { use(this); use(&o); return v == o.v; }
    bool operator<(const Obj& o) const noexcept { use(this); use(&o); return v < o.v; }
    u64 get() const noexcept { use(this); return v; }
    static size_t alive() { size_t n = 0; for(auto& x : live()) n += x.second == 1; return n; }
};
struct ObjC : Obj {       // clonable only
    ObjC() noexcept = default;
    ObjC(u64 x) noexcept : Obj(x) {}
    ObjC(ObjC&&) noexcept = default;
    ObjC& operator=(ObjC&&) noexcept = default;
    ObjC clone() const noexcept { use(this); return ObjC(v); }
};
inline void RA::free(void* q) noexcept {
    if(!q) return;
    char* p = (char*)q; auto i = blocks().find(p);
    if(i == blocks().end()) fail("released pointer is not a live allocation");
    auto& l = Obj::live();
    for(auto j = l.lower_bound((const Obj*)p); j != l.end() && (const char*)j->first < p + i->second;) {
        if(j->second == 1) fail("storage released while an element in it is alive");
        j = l.erase(j);
    }
    blocks().erase(i); ::free(p);
}
inline u64 val(const u64& x) { return x; }
inline u64 val(const Obj& x) { return x.get(); }
