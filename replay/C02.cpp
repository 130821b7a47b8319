#include "common.h"
#include <rpp/stack.h>
template<typename T> struct Drive {
    using V = Stack<T, RA>;
    static void same(const V& v, const std::vector<u64>& m) {
        CHECK(v.length() == m.size()); CHECK(v.empty() == m.empty());
        CHECK((size_t)(v.end() - v.begin()) == m.size());
        size_t k = 0; for(const T& x : v) CHECK(val(x) == m[k++]);
        if(m.size()) CHECK(val(v.top()) == m.back());
    }
    static void run(Rnd& r) {
        size_t alive0 = Obj::alive(), blocks0 = RA::blocks().size();
        {
            V v; std::vector<u64> m;
            int n = r.chance(2) ? 900 : r.in(1, 60);
            if(r.chance(20)) { u64 c = r.below(20); tr("Stack(%d)", (int)c); v = V(c); }
            else if(r.chance(10)) { tr("Stack{1,2,3}"); v = V(T(1), T(2), T(3)); m = {1, 2, 3}; }
            for(int i = 0; i < n; i++) {
                u64 x = r.next();
                switch(r.below(9)) {
                case 0: case 1: case 2: { tr("push"); T t(x); T& q = v.push(rpp::move(t)); m.push_back(x); CHECK(val(q) == x); CHECK(&q == &v.top()); } break;
                case 3: { tr("emplace"); T& q = v.emplace(x); m.push_back(x); CHECK(val(q) == x); } break;
                case 4: case 5: if(m.size()) { tr("pop"); v.pop(); m.pop_back(); } break;
                case 6: { tr("clone"); V w = v.clone(); same(w, m); same(v, m); if(r.chance(50)) v = rpp::move(w); } break;
                case 7: { tr("move"); V w = rpp::move(v); same(w, m); CHECK(v.empty()); V z; z.push(T(5)); z = rpp::move(w); CHECK(w.length() == 0); v = rpp::move(z); } break;
                case 8: if(r.chance(n > 100 ? 1 : 30)) { tr("clear"); v.clear(); m.clear(); } break;
                }
                same(v, m);
            }
            static int once = 0;
            if(once++ < 3) {
                CHECK(aborts([&] { V e; e.pop(); })); CHECK(aborts([&] { V e(8); e.pop(); })); CHECK(aborts([&] { V e(8); (void)e.top(); }));
                CHECK(aborts([&] { const V e(8); (void)e.top(); })); CHECK(aborts([&] { V e; (void)e.top(); }));
            }
        }
        CHECK(Obj::alive() == alive0); CHECK(RA::blocks().size() == blocks0);
        g_trace.clear();
    }
};
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    for(int i = 0; i < 3000; i++) { Drive<u64>::run(r); Drive<Obj>::run(r); Drive<ObjC>::run(r); }
    return 0;
}
