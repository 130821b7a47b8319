#include "common.h"
template<typename T> struct Drive {
    using V = Queue<T, RA>;
    static void same(V& v, const std::deque<u64>& m) {
        const V& c = v;
        CHECK(v.length() == m.size()); CHECK(v.empty() == m.empty());
        for(size_t i = 0; i < m.size(); i++) { CHECK(val(v[i]) == m[i]); CHECK(val(c[i]) == m[i]); }
        size_t k = 0; for(T& x : v) { CHECK(k < m.size()); CHECK(val(x) == m[k++]); } CHECK(k == m.size());
        k = 0; for(const T& x : c) { CHECK(k < m.size()); CHECK(val(x) == m[k++]); } CHECK(k == m.size());
        if(m.size()) { CHECK(val(v.front()) == m.front()); CHECK(val(v.back()) == m.back()); CHECK(val(c.front()) == m.front()); CHECK(val(c.back()) == m.back()); }
        if(m.size() > 1) { CHECK(val(v.penultimate()) == m[m.size() - 2]); CHECK(val(c.penultimate()) == m[m.size() - 2]); }
    }
    static void run(Rnd& r) {
        size_t alive0 = Obj::alive(), blocks0 = RA::blocks().size();
        {
            V v; std::deque<u64> m;
            int n = r.chance(2) ? 900 : r.in(1, 70); int big = r.chance(20);
            if(r.chance(40)) { u64 c = r.below(10); tr("Queue(%d)", (int)c); v = V(c); }
            else if(r.chance(10)) { tr("Queue{1,2,3}"); v = V(T(1), T(2), T(3)); m = {1, 2, 3}; }
            for(int i = 0; i < n; i++) {
                u64 x = r.below(5);
                switch(r.below(13)) {
                case 0: case 1: case 2: { tr("push %d", (int)x); T t(x); T& q = v.push(rpp::move(t)); m.push_back(x); CHECK(val(q) == x); CHECK(&q == &v.back()); } break;
                case 3: { tr("emplace %d", (int)x); T& q = v.emplace(x); m.push_back(x); CHECK(&q == &v.back()); } break;
                case 4: case 5: case 6: if(m.size()) { tr("pop"); v.pop(); m.pop_front(); } break;
                case 7: if(r.chance(30)) { u64 c = r.below(big ? 100 : 16); tr("reserve(%d)", (int)c); v.reserve(c); } break;
                case 8: { tr("clone"); V w = v.clone(); same(w, m); same(v, m); if(r.chance(50)) v = rpp::move(w); } break;
                case 9: { tr("move"); V w = rpp::move(v); same(w, m); CHECK(v.empty()); V z; z.push(T(5)); z = rpp::move(w); CHECK(w.length() == 0); v = rpp::move(z); } break;
                case 10: if(r.chance(n > 100 ? 1 : 20)) { tr("clear"); v.clear(); m.clear(); } break;
                case 11: case 12: { tr("erase_first %d", (int)x); T t(x); bool f = v.erase_first(t); auto it = std::find(m.begin(), m.end(), x); CHECK(f == (it != m.end())); if(f) m.erase(it); } break;
                }
                same(v, m);
            }
            static int once = 0;
            if(once++ < 3) {
                CHECK(aborts([&] { (void)val(v[m.size()]); })); CHECK(aborts([&] { (void)val(v[~0ull]); }));
                CHECK(aborts([&] { V e(8); e.pop(); })); CHECK(aborts([&] { V e(8); (void)e.front(); })); CHECK(aborts([&] { V e(8); (void)e.back(); }));
                CHECK(aborts([&] { const V e(8); (void)e.front(); })); CHECK(aborts([&] { const V e(8); (void)e.back(); })); CHECK(aborts([&] { const V e(8); (void)e[0]; }));
                CHECK(aborts([&] { V e(8); e.push(T(1)); (void)e.penultimate(); })); CHECK(aborts([&] { V e(8); e.push(T(1)); const V& c = e; (void)c.penultimate(); }));
            }
        }
        CHECK(Obj::alive() == alive0); CHECK(RA::blocks().size() == blocks0);
        g_trace.clear();
    }
};
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    for(int i = 0; i < 3000; i++) { Drive<u64>::run(r); Drive<Obj>::run(r); Drive<ObjC>::run(r); }
    return 0;
}
