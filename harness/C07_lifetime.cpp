// configs: A B D
// configs-thorough: A B C D N
// bound: every sequence of 2 operations from every start state for tracked and owning payloads (3 in the thorough tier for tracked payloads); exact construction/assignment/destruction counts for every single operation and every operand state
#include "ops.hpp"
template<class T> void sequence(unsigned n) {
    {
        bool has; u64 k;
        opt::option<T> o = sym_option<T>("o", has, k);
        for (unsigned i = 0; i < n; ++i) step<T>(o, has, k);
    }
    balanced();
}
#ifdef VP_DEEP
constexpr unsigned N1 = 3;
#else
constexpr unsigned N1 = 2;
#endif
#define X2(N, T) VP_HARNESS(C07, seq_##N) { sequence<T>(N1); }
#define X1(N, T) VP_HARNESS(C07, seq_##N) { sequence<T>(2); }
X2(TrkA, TrkA) X2(PairTB, PairTB) X1(UPtr, UPtr) X1(OTrk, OTrk) X1(OTrkN, OTrkN) X1(Vec, Vec)
struct TrkAN : TrkA { using TrkA::TrkA; };      // niche and trivial assignment
template<> struct opt::option_traits<TrkAN> {
    static constexpr std::uintmax_t max_level = 2;
    static std::uintmax_t get_level(const TrkAN* v) noexcept { u32 m; std::memcpy(&m, static_cast<const void*>(v), 4); return m == 0x70u ? 0 : m == 0x71u ? 1 : std::uintmax_t(-1); }
    static void set_level(TrkAN* v, std::uintmax_t l) noexcept { u32 m = u32(0x70u + l); std::memcpy(static_cast<void*>(v), &m, 4); }
};
VP_GEN_TRK(TrkAN)
X2(TrkAN, TrkAN)
using ArrT = std::array<Trk, 2>;
VP_GEN(ArrT, return Gen<Trk>::fresh(n);, return (ArrT{{Trk(u32(k)), Trk(u32(k))}});, VP_CHECK(keyof(v[0]) == keyof(v[1])); return keyof(v[0]);)
using TupT = std::tuple<Trk, TrkN>;
VP_GEN(TupT, return Gen<Trk>::fresh(n);, return TupT(Trk(u32(k)), TrkN(u32(k)));, VP_CHECK(keyof(std::get<0>(v)) == keyof(std::get<1>(v))); return keyof(std::get<0>(v));)
X1(ArrT, ArrT) X1(TupT, TupT)
VP_HARNESS(C07, seq_AggTb) { sequence<AggTb>(1); }
VP_HARNESS(C07, seq_AggT) { sequence<AggT>(1); }

// exact event counts
constexpr bool eq(const Log& d, long ctor, long cctor, long mctor, long cassign, long massign, long dtor) {
    return bool((d.ctor == ctor) & (d.cctor == cctor) & (d.mctor == mctor) & (d.cassign == cassign) & (d.massign == massign) & (d.dtor == dtor));
}
#define EV(...) VP_CHECK(eq(since(l0), __VA_ARGS__))
template<class T> void counts_construct() {
    using O = opt::option<T>;
    {
        u32 k = u32(fresh<T>("k")), a = vp_u32("a"); vp_assume(k < 0x40000000u); vp_assume(a < 0x40000000u);
        const T v(k); T w(k);
        Log l0 = g_log;
        switch (vp_choice(11, "how")) {
        case 0: { O o(v); EV(0, 1, 0, 0, 0, 0); expect<T>(o, true, k); break; }
        case 1: { O o(std::move(w)); EV(0, 0, 1, 0, 0, 0); expect<T>(o, true, k); break; }
        case 2: { O o(std::in_place, k); EV(1, 0, 0, 0, 0, 0); expect<T>(o, true, k); break; }
        case 3: { O o(std::in_place, v); EV(0, 1, 0, 0, 0, 0); expect<T>(o, true, k); break; }
        case 4: { O o = opt::make_option<T>(k); EV(1, 0, 0, 0, 0, 0); expect<T>(o, true, k); break; }
        case 5: { O o; EV(0, 0, 0, 0, 0, 0); o.emplace(k); EV(1, 0, 0, 0, 0, 0); o.try_emplace(k); EV(1, 0, 0, 0, 0, 0); o.emplace(k); EV(2, 0, 0, 0, 0, 1); expect<T>(o, true, k);
                  o.reset(); EV(2, 0, 0, 0, 0, 2); o.reset(); EV(2, 0, 0, 0, 0, 2); o = opt::none; EV(2, 0, 0, 0, 0, 2); break; }
        case 6: { O o; o = v; EV(0, 1, 0, 0, 0, 0); o = opt::none; EV(0, 1, 0, 0, 0, 1); o = std::move(w); EV(0, 1, 1, 0, 0, 1); expect<T>(o, true, k); break; }
        case 7: { O o; { O e; o = e; o = std::move(e); O x(e); O y(std::move(e)); o.swap(e); } EV(0, 0, 0, 0, 0, 0); break; }
        case 8: { O o(std::in_place, k, a); EV(1, 0, 0, 0, 0, 0); VP_CHECK(keyof<T>(*o) == k + a); O p(k, a); EV(2, 0, 0, 0, 0, 0); VP_CHECK(keyof<T>(*p) == k + a); break; }
        case 9: { O o(std::in_place, {k}, a); EV(1, 0, 0, 0, 0, 0); VP_CHECK(keyof<T>(*o) == k + a + 1); O p = opt::make_option<T>({k}, a); EV(2, 0, 0, 0, 0, 0); VP_CHECK(keyof<T>(*p) == k + a + 1); break; }
        default: { O o = opt::option<u32>(k).map([](u32 x) { return T(x); }); EV(1, 0, 0, 0, 0, 0); expect<T>(o, true, k); break; }
        }
    }
    balanced();
}
template<class T> void counts_assign() {
    using O = opt::option<T>;
    {
        bool h, ph; u64 k, pk;
        O o = sym_option<T>("o", h, k), p = sym_option<T>("p", ph, pk);
        u32 vk = u32(fresh<T>("v"));
        T v(vk);
        const int H = h, P = ph;
        Log l0 = g_log;
        switch (vp_choice(18, "op")) {
        case 0: o = static_cast<const O&>(p); EV(0, P & !H, 0, P & H, 0, !P & H); expect<T>(o, ph, pk); expect<T>(p, ph, pk); break;
        case 1: o = std::move(p); EV(0, 0, P & !H, 0, P & H, !P & H); expect<T>(o, ph, pk); VP_CHECK(p.has_value() == ph); break;
        case 2: o = static_cast<const T&>(v); EV(0, !H, 0, H, 0, 0); expect<T>(o, true, vk); VP_CHECK(keyof<T>(v) == vk); break;
        case 3: o = std::move(v); EV(0, 0, !H, 0, H, 0); expect<T>(o, true, vk); break;
        case 4: o.emplace(vk); EV(1, 0, 0, 0, 0, H); expect<T>(o, true, vk); break;
        case 5: o.try_emplace(vk); EV(!H, 0, 0, 0, 0, 0); expect<T>(o, true, h ? k : vk); break;
        case 6: o.reset(); EV(0, 0, 0, 0, 0, H); break;
        case 7: o = opt::none; EV(0, 0, 0, 0, 0, H); break;
        case 8: { O q(o); EV(0, H, 0, 0, 0, 0); expect<T>(q, h, k); break; }
        case 9: { O q(std::move(o)); EV(0, 0, H, 0, 0, 0); expect<T>(q, h, k); break; }
        case 10: { { O q = o.take(); EV(0, 0, H, 0, 0, H); expect<T>(q, h, k); VP_CHECK(!o.has_value()); } EV(0, 0, H, 0, 0, 2 * H); break; }
        case 11: { O& s = o; o = s; EV(0, 0, 0, H, 0, 0); expect<T>(o, h, k); break; }
        case 12: { O& s = o; o = std::move(s); EV(0, 0, 0, 0, H, 0); expect<T>(o, h, k); break; }
        case 13: { o.swap(p); Log d = since(l0); expect<T>(o, ph, pk); expect<T>(p, h, k); VP_CHECK(d.live == 0 && d.ctor == 0 && d.cctor == 0 && d.cassign == 0 && d.mctor == d.dtor && d.mctor == ((H | P) ? 1 : 0) && d.massign == ((H & P) ? 2 : 0)); break; }
        case 14: { o |= std::move(p); EV(0, 0, P & !H, 0, 0, 0); expect<T>(o, h | ph, h ? k : pk); break; }
        case 15: { O q = std::move(o) | std::move(p); EV(0, 0, H | P, 0, 0, 0); expect<T>(q, h | ph, h ? k : pk); break; }
        case 16: { T t = std::move(o).value_or(std::move(v)); EV(0, 0, 1, 0, 0, 0); VP_CHECK(keyof<T>(t) == (h ? k : vk)); break; }
        default: { auto f = o.map([](T& x) -> T& { return x; }); EV(0, 0, 0, 0, 0, 0); VP_CHECK(f.has_value() == h); if (h) VP_CHECK(&f.get() == &o.get()); break; }
        }
        expect<T>(p, p.has_value(), p.has_value() ? keyof<T>(*p) : 0);
    }
    balanced();
}
VP_HARNESS(C07, count_ctor_Trk) { counts_construct<Trk>(); }
VP_HARNESS(C07, count_ctor_TrkN) { counts_construct<TrkN>(); }
VP_HARNESS(C07, count_assign_Trk) { counts_assign<Trk>(); }
VP_HARNESS(C07, count_assign_TrkN) { counts_assign<TrkN>(); }

// owning types: several options of a shared owner, all combinations of which die first
VP_HARNESS(C07, owners) {
    {
        std::shared_ptr<Trk> sp = std::make_shared<Trk>(7u);
        using S = opt::option<std::shared_ptr<Trk>>;
        S a(sp), b; S c = a;
        VP_CHECK(sp.use_count() == 3);
        switch (vp_choice(5, "op")) {
        case 0: b = a; VP_CHECK(sp.use_count() == 4); break;
        case 1: b = std::move(a); VP_CHECK(sp.use_count() == 3 && a.has_value()); break;
        case 2: a.reset(); VP_CHECK(sp.use_count() == 2); break;
        case 3: a.swap(b); VP_CHECK(sp.use_count() == 3 && b.has_value() && !a.has_value()); break;
        default: { auto t = a.take(); VP_CHECK(sp.use_count() == 3 && !a.has_value()); } VP_CHECK(sp.use_count() == 2); break;
        }
        VP_CHECK(sp->k == 7 && (*c)->k == 7);
    }
    balanced();
}
// options inside containers: growth, erasure and sorting keep lifetimes balanced
template<class T> void in_vector() {
    {
        bool h1, h2, h3; u64 k1, k2, k3;
        std::vector<opt::option<T>> v;
        v.push_back(sym_option<T>("a", h1, k1)); v.push_back(sym_option<T>("b", h2, k2)); v.push_back(sym_option<T>("c", h3, k3));
        expect<T>(v[0], h1, k1); expect<T>(v[1], h2, k2); expect<T>(v[2], h3, k3);
        v.erase(v.begin());
        expect<T>(v[0], h2, k2); expect<T>(v[1], h3, k3);
        std::swap(v[0], v[1]);
        expect<T>(v[1], h2, k2); expect<T>(v[0], h3, k3);
        auto w = std::move(v);
        w.emplace_back();
        VP_CHECK(!w[2].has_value());
        expect<T>(w[1], h2, k2); expect<T>(w[0], h3, k3);
    }
    balanced();
}
VP_HARNESS(C07, vector_Trk) { in_vector<Trk>(); }
VP_HARNESS(C07, vector_TrkN) { in_vector<TrkN>(); }
VP_HARNESS(C07, vector_TrkM) { in_vector<TrkM>(); }
VP_HARNESS(C07, vector_string) { in_vector<std::string>(); }
VP_HARNESS(C07, vector_OTrk) { in_vector<OTrk>(); }
