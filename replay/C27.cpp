// random nests of traced scopes in frames, compared with a model tree; times are bracketed by clock readings around each call
#define private public
#include "common.h"
#undef private
#include <memory>
struct Sc { u64 key; u64 calls = 0; u64 lo = 0, hi = 0; u64 b0 = 0, b1 = 0; Sc* up = nullptr; std::vector<std::unique_ptr<Sc>> kids; };
static const char* names[] = {"alpha", "beta", "gamma", "alpha2", ""};
static void same(Profile::Frame_Profile& f, u64 idx, Sc& s, u64 parent, bool root) {
    auto& n = f.nodes[idx]; CHECK(n.parent == parent); CHECK(n.children.length() == s.kids.size());
    if(!root) { CHECK(n.calls == s.calls); if(!(n.heir_time >= s.lo && n.heir_time <= s.hi)) { tr("scope time %llu outside [%llu,%llu]", (unsigned long long)n.heir_time, (unsigned long long)s.lo, (unsigned long long)s.hi); CHECK(false); } CHECK(n.loc.function == String_View{names[s.key % 5]} && n.loc.line == s.key / 5); }
    u64 sum = 0; for(u64 i = 0; i < s.kids.size(); i++) { u64 c = n.children[i]; CHECK(c < f.nodes.length()); sum += f.nodes[c].heir_time; same(f, c, *s.kids[i], idx, false); }
    CHECK(n.self_time == n.heir_time - sum);
}
static u64 count(Sc& s) { u64 n = 1; for(auto& k : s.kids) n += count(*k); return n; }
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    for(int round = 0; round < 4000; round++) {
        g_trace.clear(); Sc root; root.key = ~0ull; Sc* cur = &root; int depth = 0; bool early = r.chance(10);
        if(early) { Profile::enter("outside"_v); Profile::exit(); }
        u64 t0 = Profile::timestamp(); Profile::begin_frame(); u64 t1 = Profile::timestamp();
        for(int i = 0, n = (int)r.below(60); i < n; i++) {
            if(depth && r.chance(45)) { tr("exit"); u64 a = Profile::timestamp(); Profile::exit(); u64 b = Profile::timestamp(); cur->lo += a - cur->b1; cur->hi += b - cur->b0; cur = cur->up; depth--; }
            else if(depth < 12) {
                u64 k = r.below(5) + 5 * (r.chance(70) ? 0 : r.below(3)); Sc* c = nullptr; for(auto& x : cur->kids) if(x->key == k) c = x.get();
                if(!c) { cur->kids.emplace_back(new Sc); c = cur->kids.back().get(); c->key = k; c->up = cur; }
                tr("enter %s:%llu", names[k % 5], (unsigned long long)(k / 5)); c->b0 = Profile::timestamp(); if(k < 5) Profile::enter(String_View{names[k]}); else Profile::enter(Log::Location{String_View{names[k % 5]}, ""_v, k / 5}); c->b1 = Profile::timestamp(); c->calls++; cur = c; depth++; }
        }
        while(depth) { tr("exit"); u64 a = Profile::timestamp(); Profile::exit(); u64 b = Profile::timestamp(); cur->lo += a - cur->b1; cur->hi += b - cur->b0; cur = cur->up; depth--; }
        u64 t2 = Profile::timestamp(); Profile::end_frame(); u64 t3 = Profile::timestamp();
        auto& f = Profile::this_thread.frames.back(); CHECK(f.nodes.length() == count(root)); same(f, 0, root, 0, true); CHECK(f.nodes[0].heir_time >= t2 - t1 && f.nodes[0].heir_time <= t3 - t0);
        u64 seen = 0; Profile::iterate_timings([&](Thread::Id, const Profile::Timing_Node&) { seen++; }); CHECK(seen == f.nodes.length());
        CHECK(!Profile::this_thread.during_frame);
    }
    return 0;
}
