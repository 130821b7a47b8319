// random nests of regions; every byte handed out carries a pattern that is checked until its region ends
#define private public
#include "common.h"
#undef private
struct Blk { u8* p; u64 n; u8 pat; };
struct Reg { u64 brand; u64 before; i64 net; std::vector<Blk> b; };
static bool child(std::function<void()> f) { pid_t p = fork(); if(!p) { fclose(stdout); alarm(10); f(); _exit(0); } int s; waitpid(p, &s, 0); return WIFEXITED(s) && WEXITSTATUS(s) == 0; }
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1); u8 next = 1;
    CHECK(Region_Allocator::depth() == 0 && Region_Allocator::size() == 0);
    for(int round = 0; round < 120; round++) {
        g_trace.clear(); std::vector<Reg> rs; i64 net0 = sys_net_allocs(); u64 total = 0;
        auto check = [&] { CHECK(Region_Allocator::depth() == rs.size()); CHECK(Region_Allocator::size() == total); for(auto& g : rs) for(auto& b : g.b) for(u64 k = 0; k < b.n; k++) if(b.p[k] != b.pat) { tr("block of %llu bytes changed at %llu", (unsigned long long)b.n, (unsigned long long)k); CHECK(b.p[k] == b.pat); } };
        int steps = 5 + (int)r.below(60);
        for(int i = 0; i < steps; i++) {
            u64 k = r.below(10);
            if(rs.empty() || (k < 2 && rs.size() < (round % 8 ? 12 : 127))) { u64 b = 1 + r.below(1000); tr("begin %llu", (unsigned long long)b); i64 net = sys_net_allocs(); Region_Allocator::begin(b); rs.push_back({b, total, net, {}}); if(round % 8 == 0) i--; }
            else if(k < 7) {
                u64 n = r.chance(15) ? 0 : r.chance(60) ? r.below(120) : r.chance(80) ? r.below(3000) : r.below(60000); tr("alloc %llu", (unsigned long long)n);
                u8* p = (u8*)Region_Allocator::alloc(rs.back().brand, n); CHECK(p); total += n;
                for(auto& g : rs) for(auto& b : g.b) CHECK(!n || !b.n || p + n <= b.p || b.p + b.n <= p);
                next = (u8)(next * 5 + 3); memset(p, next, n); rs.back().b.push_back({p, n, next});
            } else if(k < 8 && !rs.back().b.empty()) { Region_Allocator::free(rs.back().brand, rs.back().b[r.below(rs.back().b.size())].p); tr("free"); }
            else { tr("end"); i64 net = rs.back().net; total = rs.back().before; u64 b = rs.back().brand; bool any = total != 0; Region_Allocator::end(b); rs.pop_back(); CHECK(sys_net_allocs() <= net); (void)any; }
            check();
        }
        while(!rs.empty()) { tr("end"); total = rs.back().before; Region_Allocator::end(rs.back().brand); rs.pop_back(); check(); }
        CHECK(sys_net_allocs() == net0);
        if(round % 10 == 0) {
            CHECK(!child([] { Region_Allocator::end(0); })); CHECK(!child([] { Region_Allocator::begin(5); (void)Region_Allocator::alloc(6, 4); })); CHECK(!child([] { Region_Allocator::begin(5); Region_Allocator::begin(6); (void)Region_Allocator::alloc(5, 4); }));
            CHECK(!child([] { Region_Allocator::begin(5); Region_Allocator::begin(6); Region_Allocator::end(5); })); CHECK(!child([] { Region_Allocator::begin(5); Region_Allocator::begin(6); Region_Allocator::free(5, null); }));
            CHECK(!child([] { for(int i = 0; i < 128; i++) Region_Allocator::begin(7); })); CHECK(child([] { for(int i = 0; i < 127; i++) Region_Allocator::begin(7); }));
        }
    }
    return 0;
}
