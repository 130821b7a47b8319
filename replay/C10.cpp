#include "common.h"
#include <rpp/rc.h>
template<typename T> struct BoxD {
    using B = Box<T, RA>;
    static void run(Rnd& r) {
        size_t alive0 = Obj::alive(), bl0 = RA::blocks().size();
        {
            B b[3]; bool ok[3] = {}; u64 v[3] = {};
            for(int n = r.in(1, 16); n > 0; n--) {
                int i = r.below(3), j = r.below(3); u64 x = r.below(9);
                switch(r.below(6)) {
                case 0: tr("emplace %d", i); b[i].emplace(x); ok[i] = true; v[i] = x; break;
                case 1: if(i != j) { tr("assign %d<-%d", i, j); b[i] = rpp::move(b[j]); ok[i] = ok[j]; v[i] = v[j]; ok[j] = false; } break;
                case 2: tr("assign new %d", i); b[i] = B(T(x)); ok[i] = true; v[i] = x; break;
                case 3: { tr("clone %d", i); B c = b[i].clone(); CHECK(c.ok() == ok[i]); if(c.ok()) { CHECK(val(*c) == v[i]); CHECK(&*c != &*b[i]); } if(i != j && r.chance(50)) { b[j] = rpp::move(c); ok[j] = ok[i]; v[j] = v[i]; } } break;
                case 4: { tr("move %d", i); B c(rpp::move(b[i])); CHECK(!b[i].ok()); CHECK(c.ok() == ok[i]); b[i] = rpp::move(c); } break;
                case 5: tr("make %d", i); b[i] = B::make(x); ok[i] = true; v[i] = x; break;
                }
                size_t k = 0;
                for(int q = 0; q < 3; q++) { k += ok[q]; const B& c = b[q]; CHECK(c.ok() == ok[q]); if(ok[q]) { CHECK(val(*b[q]) == v[q]); CHECK(val(*c) == v[q]); CHECK(val(*c.operator->()) == v[q]); CHECK(val(*b[q].operator->()) == v[q]); } }
                CHECK(RA::blocks().size() == bl0 + k); if(!std::is_same_v<T, u64>) CHECK(Obj::alive() == alive0 + k);
            }
            static int once = 0;
            if(once++ < 2) { B e; const B& c = e; CHECK(aborts([&] { val(*e); })); CHECK(aborts([&] { val(*c); })); CHECK(aborts([&] { val(*e.operator->()); })); CHECK(aborts([&] { val(*c.operator->()); })); }
        }
        CHECK(Obj::alive() == alive0); CHECK(RA::blocks().size() == bl0); g_trace.clear();
    }
};
template<template<typename, typename> typename R, typename T> struct RcD {
    using B = R<T, RA>;
    static void run(Rnd& r) {
        size_t alive0 = Obj::alive(), bl0 = RA::blocks().size();
        {
            const int N = 5; B b[N]; int o[N]; u64 v[N] = {}; int next = 0; for(int i = 0; i < N; i++) o[i] = -1;
            int lim = r.chance(3) ? 600 : 24; std::vector<B> extra; std::vector<int> eo;
            for(int n = r.in(1, lim); n > 0; n--) {
                int i = r.below(N), j = r.below(N); u64 x = r.below(9);
                switch(r.below(lim > 100 ? 14 : 8)) {
                case 0: tr("new %d", i); b[i] = B(T(x)); o[i] = next++; v[i] = x; break;
                case 1: if(i != j) { tr("assign %d<-%d", i, j); b[i] = rpp::move(b[j]); o[i] = o[j]; v[i] = v[j]; o[j] = -1; } break;
                case 2: tr("%d = dup %d", i, j); b[i] = b[j].dup(); if(i != j) { o[i] = o[j]; v[i] = v[j]; } break;
                case 3: tr("clear %d", i); b[i].clear(); o[i] = -1; break;
                case 4: { tr("move %d", i); B c(rpp::move(b[i])); CHECK(!b[i].ok()); b[i] = rpp::move(c); } break;
                case 5: tr("make %d", i); b[i] = B::make(x); o[i] = next++; v[i] = x; break;
                case 6: if(o[i] >= 0) { tr("%d = from_this %d", j, i); B c = B::from_this(&*b[i]); b[j] = rpp::move(c); o[j] = o[i]; v[j] = v[i]; } break;
                case 7: { tr("args %d", i); B c(x); b[i] = rpp::move(c); o[i] = next++; v[i] = x; } break;
                default: if(o[i] >= 0) { tr("keep dup %d", i); extra.push_back(b[i].dup()); eo.push_back(o[i]); } break;
                }
                std::map<int, u64> cnt; for(int q = 0; q < N; q++) if(o[q] >= 0) cnt[o[q]]++; for(int e : eo) cnt[e]++;
                for(int q = 0; q < N; q++) { const B& c = b[q]; CHECK(c.ok() == (o[q] >= 0)); CHECK(c.references() == (o[q] >= 0 ? cnt[o[q]] : 0)); if(o[q] >= 0) { CHECK(val(*b[q]) == v[q]); CHECK(val(*c) == v[q]); CHECK(val(*c.operator->()) == v[q]); CHECK(val(*b[q].operator->()) == v[q]); } }
                CHECK(RA::blocks().size() == bl0 + cnt.size()); if(!std::is_same_v<T, u64>) CHECK(Obj::alive() == alive0 + cnt.size());
            }
            static int once = 0;
            if(once++ < 2) { B e; const B& c = e; CHECK(aborts([&] { val(*e); })); CHECK(aborts([&] { val(*c); })); CHECK(aborts([&] { val(*e.operator->()); })); CHECK(aborts([&] { val(*c.operator->()); })); }
        }
        CHECK(Obj::alive() == alive0); CHECK(RA::blocks().size() == bl0); g_trace.clear();
    }
};
struct D : Obj { D(u64 x) noexcept : Obj(x) {} };
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    for(int i = 0; i < 600; i++) {
        BoxD<u64>::run(r); BoxD<Obj>::run(r); BoxD<ObjC>::run(r);
        RcD<Rc, u64>::run(r); RcD<Rc, Obj>::run(r); RcD<Arc, u64>::run(r); RcD<Arc, ObjC>::run(r);
        { Box<D, RA> d(7u); Box<Obj, RA> b(rpp::move(d)); CHECK(!d.ok() && b->get() == 7); Box<D, RA> z; Box<Obj, RA> y(rpp::move(z)); CHECK(!y.ok()); }
        { i64 x = r.below(100), y = r.below(3); Thread::Atomic a{x}; CHECK(a.incr() == x + 1); CHECK(a.load() == x + 1); CHECK(a.decr() == x); CHECK(a.exchange(y) == x); CHECK(a.load() == y);
          i64 c = r.below(3), s = r.below(9); CHECK(a.compare_and_swap(c, s) == y); CHECK(a.load() == (c == y ? s : y)); }
        CHECK(RA::blocks().empty());
    }
    return 0;
}
