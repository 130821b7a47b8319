#include "common.h"
template<typename T> struct Drive {
    using O = Opt<T>;
    static void same(O& o, bool ok, u64 x) {
        const O& c = o;
        CHECK(o.ok() == ok); T alt(77);
        if(ok) { CHECK(val(*o) == x); CHECK(val(*c) == x); CHECK(val(*o.operator->()) == x); CHECK(val(*c.operator->()) == x); CHECK(&*o == &o.value_or(alt)); }
        else CHECK(&o.value_or(alt) == &alt);
    }
    static void run(Rnd& r) {
        size_t alive0 = Obj::alive();
        {
            O s[3]; bool ok[3] = {}; u64 v[3] = {};
            for(int n = r.in(1, 14); n > 0; n--) {
                int i = r.below(3), j = r.below(3); u64 x = r.below(9);
                switch(r.below(9)) {
                case 0: tr("emplace %d", i); s[i].emplace(x); ok[i] = true; v[i] = x; break;
                case 1: tr("clear %d", i); s[i].clear(); ok[i] = false; break;
                case 2: if(i != j) { tr("move-assign %d<-%d", i, j); s[i] = rpp::move(s[j]); ok[i] = ok[j]; v[i] = v[j]; s[j].~O(); new(&s[j]) O(); ok[j] = false; } break;
                case 3: { tr("assign value %d", i); T t(x); s[i] = rpp::move(t); ok[i] = true; v[i] = x; } break;
                case 4: { tr("move %d", i); O t(rpp::move(s[i])); same(t, ok[i], v[i]); s[i].~O(); new(&s[i]) O(rpp::move(t)); } break;
                case 5: { tr("clone %d", i); O t = s[i].clone(); same(t, ok[i], v[i]); same(s[i], ok[i], v[i]); if(r.chance(50) && i != j) { s[j] = rpp::move(t); ok[j] = ok[i]; v[j] = v[i]; } } break;
                case 6: { tr("value ctor %d", i); T q(x); s[i].~O(); new(&s[i]) O(rpp::move(q)); ok[i] = true; v[i] = x; } break;
                case 7: { tr("in-place ctor %d", i); s[i].~O(); new(&s[i]) O(x); ok[i] = true; v[i] = x; } break;
                case 8: tr("reset %d", i); s[i].~O(); new(&s[i]) O(); ok[i] = false; break;
                }
                for(int k = 0; k < 3; k++) same(s[k], ok[k], v[k]);
                size_t al = 0; for(int k = 0; k < 3; k++) al += ok[k];
                if(!std::is_same_v<T, u64>) CHECK(Obj::alive() == alive0 + al);
            }
            static int once = 0;
            if(once++ < 2) { O e; const O& ce = e; CHECK(aborts([&] { val(*e); })); CHECK(aborts([&] { val(*ce); })); CHECK(aborts([&] { val(*e.operator->()); })); CHECK(aborts([&] { val(*ce.operator->()); }));
                e.emplace(3u); e.clear(); CHECK(aborts([&] { val(*e); })); }
        }
        CHECK(Obj::alive() == alive0); g_trace.clear();
    }
};
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    for(int i = 0; i < 3000; i++) {
        Drive<u64>::run(r); Drive<Obj>::run(r); Drive<ObjC>::run(r);
        { Opt<Vec<u64, RA>> a(Vec<u64, RA>(u64(1), u64(2), u64(3))); Opt<Vec<u64, RA>> b = a.clone(); Opt<Vec<u64, RA>> c; c = rpp::move(a); CHECK(c->length() == 3 && b->length() == 3); c.emplace(); CHECK(c->empty()); c = rpp::move(b); CHECK((*c)[2] == 3); c.clear(); }
        CHECK(RA::blocks().empty());
        { Opt<u64> a(r.below(5)); if(r.chance(30)) a.clear(); Opt<u64> b(a); Drive<u64>::same(b, a.ok(), a.ok() ? *a : 0); Opt<u64> c(9u); c = a; Drive<u64>::same(c, a.ok(), a.ok() ? *a : 0); }
        { Storage<Obj> st; u64 x = r.below(100); st.construct(x); CHECK(st->get() == x); CHECK((*st).get() == x); CHECK((void*)st.data() == (void*)&*st); st.destruct(); CHECK(Obj::alive() == 0); Storage<Obj> s2(x); CHECK(s2->get() == x); s2.destruct(); }
    }
    return 0;
}
