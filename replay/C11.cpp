#include "common.h"
struct Fobj { int kind; u64 a; Obj t; u64 b; Obj s;
    Fobj(int k, u64 x, u64 y) : kind(k), a(x), t(y), b(x + y), s(x * 3) {}
    u64 operator()(u64 x, u64 y) noexcept { return a + 10 * t.get() + 100 * b + 1000 * s.get() + x * 7 + y * 13 + kind; } };
template<u64 W> struct Drive {
    using F = FunctionN<W, u64(u64, u64)>;
    struct M { int kind = -1; u64 x = 0, y = 0; };
    static u64 expect(const M& m, u64 p, u64 q) {
        switch(m.kind) { case 0: return p * 3 + q; case 1: return m.x + 2 * m.y + 5 * (m.x ^ m.y) + 9 * (m.x + 1) + p - q; case 2: return m.x + 10 * m.y + 100 * (m.x + m.y) + 1000 * (m.x * 3) + p * 7 + q * 13 + 2; case 4: return m.x * p + m.y * q + 3 * (m.x + 2) + 5 * (m.y + 9) + 7 * (m.x ^ 77) + 11 * (m.y ^ 55); case 3: return (u32)m.x * p + (u16)m.y * q; } return 0;
    }
    static F mk(const M& m) {
        u64 x = m.x, y = m.y, c = m.x ^ m.y, d = m.x + 1; u32 i = (u32)x; u16 j = (u16)y;
        switch(m.kind) {
        case 0: return F([](u64 p, u64 q) { return p * 3 + q; });
        case 1: return F([x, y, c, d](u64 p, u64 q) { return x + 2 * y + 5 * c + 9 * d + p - q; });
        case 2: if constexpr(W >= sizeof(Fobj) / 8) return F(Fobj(2, x, y)); else { Obj o(y); return F([x, o = rpp::move(o), s = Obj(x * 3)](u64 p, u64 q) { return x + 10 * o.get() + 100 * (x + o.get()) + 1000 * s.get() + p * 7 + q * 13 + 2; }); }
        case 4: if constexpr(W >= 6) { u64 e = m.x + 2, g = m.y + 9, h = m.x ^ 77, k = m.y ^ 55; return F([=](u64 p, u64 q) { return x * p + y * q + 3 * e + 5 * g + 7 * h + 11 * k; }); }
            else { return F([=](u64 p, u64 q) { return x * p + y * q + 3 * (x + 2) + 5 * (y + 9) + 7 * (x ^ 77) + 11 * (y ^ 55); }); }
        default: return F([i, j](u64 p, u64 q) { return i * p + j * q; });
        }
    }
    static void same(F& f, const M& m, Rnd& r) { if(m.kind < 0) return; for(int i = 0; i < 2; i++) { u64 p = r.below(1000), q = r.next(); CHECK(f(p, q) == expect(m, p, q)); } }
    static void run(Rnd& r) {
        size_t alive0 = Obj::alive();
        {
            M ma{(int)r.below(5), r.below(99), r.below(99)}, mb{(int)r.below(5), r.below(99), r.below(99)}; tr("a = kind %d, b = kind %d", ma.kind, mb.kind);
            F a = mk(ma), b = mk(mb); F* f[2] = {&a, &b}; M* m[2] = {&ma, &mb};
            for(int n = r.below(12); n > 0; n--) {
                int i = r.below(2), j = 1 - i;
                switch(r.below(4)) {
                case 0: tr("assign %d<-%d", i, j); *f[i] = rpp::move(*f[j]); *m[i] = *m[j]; m[j]->kind = -1; break;
                case 1: { tr("move %d out and back", i); bool had = m[i]->kind >= 0; F t(rpp::move(*f[i])); same(t, *m[i], r); static int k = 0; if(had && k++ < 4) { F& g = *f[i]; CHECK(aborts([&] { volatile u64 z = g(1, 2); (void)z; })); } *f[i] = rpp::move(t); } break;
                case 2: { M x{(int)r.below(5), r.below(99), r.below(99)}; tr("assign new kind %d to %d", x.kind, i); *f[i] = mk(x); *m[i] = x; } break;
                case 3: same(*f[i], *m[i], r); break;
                }
                same(a, ma, r); same(b, mb, r);
                static int k = 0;
                for(int q = 0; q < 2; q++) if(m[q]->kind < 0 && k++ < 3) { F& g = *f[q]; CHECK(aborts([&] { volatile u64 z = g(1, 2); (void)z; })); }
                if(ma.kind >= 0 && mb.kind >= 0) CHECK(Obj::alive() == alive0 + 2 * ((ma.kind == 2) + (mb.kind == 2)));
            }
        }
        CHECK(Obj::alive() == alive0); g_trace.clear();
    }
};
int main(int argc, char** argv) {
    Rnd r(argc > 1 ? strtoull(argv[1], 0, 10) : 1);
    for(int i = 0; i < 3000; i++) {
        Drive<4>::run(r); Drive<6>::run(r); Drive<8>::run(r);
        { u64 n = 0; u64* pn = &n; Function<u64(Obj, u64&, Obj&&)> f([pn](Obj v, u64& x, Obj&& m) { (*pn)++; x += 5; return v.get() * 100 + m.get(); });
          u64 x = 3; Obj a(7u), b(9u); CHECK(f(rpp::move(a), x, rpp::move(b)) == 709); CHECK(x == 8); CHECK(n == 1);
        }
        CHECK(Obj::alive() == 0);
    }
}
