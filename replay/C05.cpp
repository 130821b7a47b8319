#include "common.h"
#include <rpp/heap.h>
template<typename T> struct Drive {
    using V = Heap<T, RA>;
    static void same(const V& v, const std::multiset<u64>& m) {
        CHECK(v.length() == m.size()); CHECK(v.empty() == m.empty()); CHECK((size_t)(v.end() - v.begin()) == m.size());
        std::multiset<u64> s; for(const T& x : v) s.insert(val(x));
        CHECK(s == m);
        if(m.size()) CHECK(val(v.top()) == *m.begin());
    }
    static void run(Rnd& r) {
        size_t alive0 = Obj::alive(), blocks0 = RA::blocks().size();
        {
            V v; std::multiset<u64> m;
            int n = r.chance(2) ? 600 : r.in(1, 60); u64 range = r.chance(50) ? 6 : r.chance(50) ? 40 : ~0ull;
            if(r.chance(20)) { u64 c = r.below(20); tr("Heap(%d)", (int)c); v = V(c); }
            else if(r.chance(10)) { tr("Heap{3,1,2}"); v = V(T(3), T(1), T(2)); m = {1, 2, 3}; }
            int bias = r.in(2, 5);
            for(int i = 0; i < n; i++) {
                u64 x = r.below(range);
                switch(r.below(12)) {
                case 0: case 1: case 2: { tr("push %llu", (unsigned long long)x); T t(x); v.push(rpp::move(t)); m.insert(x); } break;
                case 3: case 4: { tr("emplace %llu", (unsigned long long)x); v.emplace(x); m.insert(x); } break;
                case 5: case 6: case 7: case 8: if(m.size() && (int)r.below(6) < bias) { tr("pop"); v.pop(); m.erase(m.begin()); } break;
                case 9: { tr("clone"); V w = v.clone(); same(w, m); same(v, m); if(r.chance(50)) v = rpp::move(w); } break;
                case 10: { tr("move"); V w = rpp::move(v); same(w, m); CHECK(v.empty()); V z; z.push(T(5)); z = rpp::move(w); CHECK(w.length() == 0); v = rpp::move(z); } break;
                case 11: if(r.chance(n > 100 ? 1 : 20)) { tr("clear"); v.clear(); m.clear(); } else if(r.chance(30)) { u64 c = r.below(40); tr("reserve %d", (int)c); v.reserve(c); } else if(r.chance(10)) { tr("grow"); v.grow(); } break;
                }
                same(v, m);
            }
            if(r.chance(50)) { tr("drain"); while(m.size()) { CHECK(val(v.top()) == *m.begin()); v.pop(); m.erase(m.begin()); same(v, m); } }
            static int once = 0;
            if(once++ < 2) { CHECK(aborts([&] { V e; e.pop(); })); CHECK(aborts([&] { V e(8); e.pop(); })); }
        }
        CHECK(Obj::alive() == alive0); CHECK(RA::blocks().size() == blocks0);
        g_trace.clear();
    }
};
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    for(int i = 0; i < 1500; i++) { Drive<u64>::run(r); Drive<Obj>::run(r); Drive<ObjC>::run(r); }
    return 0;
}
