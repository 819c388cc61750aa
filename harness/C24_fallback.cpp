// configs: A B D N
// configs-thorough: C
// bound: both states, all values and fallbacks, every overload (value category of the option, and of the fallback), for every payload type
#include "ops.hpp"
#include <string>
using std::move;
#define LOGGED(EXPR) [&] { const Log l_ = g_log; EXPR; return since(l_); }()

template<class T, class F> auto in_cat(opt::option<T>& o, unsigned c, F f) {
    const opt::option<T>& k = o;
    switch (c) { case 0: return f(o); case 1: return f(k); case 2: return f(move(o)); default: return f(move(k)); }
}
template<class T> constexpr bool tracked = std::is_base_of_v<Trk, T>;
template<class T> void unmoved(const T& v, u64 k) { VP_CHECK(keyof<T>(v) == k); }

template<class T> void all() {
    {
        using O = opt::option<T>;
        bool has; u64 k; O o = sym_option<T>("o", has, k); const O& c = o;
        const u64 f = fresh<T>("f"); const u64 want = has ? k : f;
        static_assert(std::is_same_v<decltype(move(o).value_or(mk<T>(f))), T>);
        static_assert(std::is_same_v<decltype(move(o).value_or_construct(mk<T>(f))), T>);
        T d = mk<T>(f); const T& cd = d;
        switch (vp_choice(18, "how")) {
        case 0: if constexpr (copyable<T>) { T r = o.value_or(cd); unmoved<T>(r, want); unmoved<T>(d, f); } expect<T>(o, has, k); break;
        case 1: if constexpr (copyable<T>) { T r = c.value_or(d); unmoved<T>(r, want); unmoved<T>(d, f); } expect<T>(o, has, k); break;
        case 2: if constexpr (copyable<T>) { T r = c.value_or(move(d)); unmoved<T>(r, want); if (has) unmoved<T>(d, f); } expect<T>(o, has, k); break;
        case 3: if constexpr (copyable<T>) { T r = move(o).value_or(cd); unmoved<T>(r, want); unmoved<T>(d, f); } VP_CHECK(o.has_value() == has); break;
        case 4: { T r = move(o).value_or(move(d)); unmoved<T>(r, want); if (has) unmoved<T>(d, f); VP_CHECK(o.has_value() == has); break; }
        case 5: { T r = move(o).value_or_construct(move(d)); unmoved<T>(r, want); if (has) unmoved<T>(d, f); VP_CHECK(o.has_value() == has); break; }
        case 6: if constexpr (copyable<T>) { T r = c.value_or_construct(d); unmoved<T>(r, want); unmoved<T>(d, f); expect<T>(o, has, k); } break;
        case 7: if constexpr (copyable<T>) { T r = o.value_or_construct(cd); unmoved<T>(r, want); unmoved<T>(d, f); expect<T>(o, has, k); } break;
        case 8: if constexpr (copyable<T>) { T r = o.value_or_construct(move(d)); unmoved<T>(r, want); if (has) unmoved<T>(d, f); expect<T>(o, has, k); } break;
        case 9: if constexpr (copyable<T>) { T r = move(c).value_or(cd); unmoved<T>(r, want); expect<T>(o, has, k); T q = move(c).value_or_construct(cd); unmoved<T>(q, want); expect<T>(o, has, k); unmoved<T>(d, f); } break;
        case 10: { unsigned n = 0; const T* at = o.ptr_or_null();          // the mapping is used exactly when there is a value
                  const u64 r = in_cat<T>(o, vp_choice(4, "cat"), [&](auto&& x) { return static_cast<decltype(x)>(x).map_or(u64(f + 1), [&](const T& v) -> u64 { ++n; VP_CHECK(&v == at); return keyof<T>(v); }); });
                  VP_CHECK(r == (has ? k : f + 1) && n == (has ? 1u : 0u)); expect<T>(o, has, k); break; }
        case 11: { unsigned n = 0, m = 0;
                  const u64 r = in_cat<T>(o, vp_choice(4, "cat"), [&](auto&& x) { return static_cast<decltype(x)>(x).map_or_else([&]() -> u64 { ++m; return f + 1; }, [&](const T& v) -> u64 { ++n; return keyof<T>(v); }); });
                  VP_CHECK(r == (has ? k : f + 1) && n == (has ? 1u : 0u) && m == (has ? 0u : 1u)); expect<T>(o, has, k); break; }
        case 12: { T r = move(o).map_or(move(d), [&](T&& v) { return move(v); }); unmoved<T>(r, want); if (has) unmoved<T>(d, f); VP_CHECK(o.has_value() == has); break; }
        case 13: if constexpr (copyable<T>) { T r = c.map_or(d, [](const T& v) { return v; }); unmoved<T>(r, want); unmoved<T>(d, f); expect<T>(o, has, k);
                 T q = o.map_or(cd, [](T& v) { return v; }); unmoved<T>(q, want); unmoved<T>(d, f); expect<T>(o, has, k); } break;
        case 14: { T r = move(o).map_or_else([&] { return move(d); }, [&](T&& v) { return move(v); }); unmoved<T>(r, want); if (has) unmoved<T>(d, f); VP_CHECK(o.has_value() == has); break; }
        case 15: if constexpr (copyable<T>) { T r = c | d; unmoved<T>(r, want); unmoved<T>(d, f); expect<T>(o, has, k); } break;
        case 16: { T r = move(o) | move(d); unmoved<T>(r, want); if (has) unmoved<T>(d, f); VP_CHECK(o.has_value() == has); break; }
        case 17: { T r = O().value_or(move(d)); unmoved<T>(r, f); T q = O(move(r)).value_or_construct(mk<T>(0)); unmoved<T>(q, f); break; }
        }
    }
    balanced();
}
#define ONE(NAME, ...) VP_HARNESS(C24, all_##NAME) { all<__VA_ARGS__>(); }
#define VALS(X) X(int, int) X(u8, u8) X(u64, u64) X(bool, bool) X(ptr, int*) X(float, float) X(double, double) X(Trk, Trk) X(TrkN, TrkN) X(TrkA, TrkA) \
    X(Agg, Agg) X(AggNo, AggNo) X(sview, std::string_view) X(Vec, Vec) X(string, std::string) X(PairTB, PairTB) X(PairIB, PairIB) X(TupIBF, TupIBF) X(ArrB, ArrB) X(CplxF, CplxF) X(TrkM, TrkM)
VALS(ONE) VP_HARNESS(C24, all_Sp0000) { all<Sp0000>(); } VP_HARNESS(C24, all_Sp1111) { all<Sp1111>(); }
VP_HARNESS(C24, all_UPtr) {
    // mk<UPtr>(0) is the null pointer
    all<UPtr>();
}
// options as values: the fallback is an option
template<class T> void opt_values() {
    {
        using I = opt::option<T>; using O = opt::option<I>;
        bool has; u64 k; O o = sym_option<I>("o", has, k); const O& c = o;
        const u64 f = fresh<I>("f"); const I d = mk<I>(f); const u64 want = has ? k : f;
        { I r = c.value_or(d); VP_CHECK(keyof<I>(r) == want); }
        { I r = c.value_or(opt::none); VP_CHECK(keyof<I>(r) == (has ? k : 0)); }
        { I r = c.value_or_construct(); VP_CHECK(keyof<I>(r) == (has ? k : 0)); }
        { I r = c.value_or_construct(d); VP_CHECK(keyof<I>(r) == want); }
        { I r = c.map_or(d, [](const I& v) { return v; }); VP_CHECK(keyof<I>(r) == want); }
        expect<I>(o, has, k); VP_CHECK(keyof<I>(d) == f);
        { I r = move(o).value_or(d); VP_CHECK(keyof<I>(r) == want); VP_CHECK(o.has_value() == has); }
    }
    balanced();
}
VP_HARNESS(C24, options_bool) { opt_values<bool>(); }
VP_HARNESS(C24, options_int) { opt_values<int>(); }
VP_HARNESS(C24, options_u64) { opt_values<u64>(); }
VP_HARNESS(C24, options_Trk) { opt_values<Trk>(); }
VP_HARNESS(C24, options_TrkN) { opt_values<TrkN>(); }
VP_HARNESS(C24, options_string) { opt_values<std::string>(); }

// the counts: nothing is constructed, moved or evaluated for a fallback that is not needed
VP_HARNESS(C24, counts) {
    {
        bool has; u64 k; OTrk o = sym_option<Trk>("o", has, k);
        const u32 f = vp_u32("f"); vp_assume(f < 0x40000000u); const u32 g = vp_u32("g"); vp_assume(g < 0x40000000u);
        Trk d(f); const OTrk& c = o;
        Log e{};
        const unsigned how = vp_choice(9, "how");
        switch (how) {
        case 0: e = LOGGED(Trk r = c.value_or(d); VP_CHECK(r.k == (has ? k : f))); VP_CHECK(e.cctor == 1 && e.mctor == 0); break;
        case 1: e = LOGGED(Trk r = move(o).value_or(d); VP_CHECK(r.k == (has ? k : f))); VP_CHECK(e.cctor == (has ? 0 : 1) && e.mctor == (has ? 1 : 0)); break;
        case 2: e = LOGGED(Trk r = c.value_or(move(d)); VP_CHECK(r.k == (has ? k : f))); VP_CHECK(e.cctor == (has ? 1 : 0) && e.mctor == (has ? 0 : 1)); break;
        case 3: e = LOGGED(Trk r = move(o).value_or(move(d)); VP_CHECK(r.k == (has ? k : f))); VP_CHECK(e.cctor == 0 && e.mctor == 1); break;
        case 4: e = LOGGED(Trk r = c.value_or(f); VP_CHECK(r.k == (has ? k : f))); VP_CHECK(e.ctor == (has ? 0 : 1) && e.cctor == (has ? 1 : 0) && e.mctor == 0); break;
        case 5: e = LOGGED(Trk r = c.value_or_construct(f, g); VP_CHECK(r.k == (has ? k : f + g))); VP_CHECK(e.ctor == (has ? 0 : 1) && e.cctor == (has ? 1 : 0) && e.mctor == 0); break;
        case 6: e = LOGGED(Trk r = move(o).value_or_construct(f, g); VP_CHECK(r.k == (has ? k : f + g))); VP_CHECK(e.ctor == (has ? 0 : 1) && e.cctor == 0 && e.mctor == (has ? 1 : 0)); break;
        case 7: e = LOGGED(Trk r = c.value_or_construct({f, g}, g); VP_CHECK(r.k == (has ? k : f + g + 2))); VP_CHECK(e.ctor == (has ? 0 : 1) && e.cctor == (has ? 1 : 0) && e.mctor == 0); break;
        default: e = LOGGED(Trk r = move(o).value_or_construct({f, g, g}, g); VP_CHECK(r.k == (has ? k : f + g + 3))); VP_CHECK(e.ctor == (has ? 0 : 1) && e.cctor == 0 && e.mctor == (has ? 1 : 0)); break;
        }
        VP_CHECK(e.cassign == 0 && e.massign == 0 && e.live == 1);
        VP_CHECK(o.has_value() == has && d.k == (!has && (how == 2 || how == 3) ? MOVED : f));
        const bool moved = has && (how == 1 || how == 3 || how == 6 || how == 8);
        if (has) VP_CHECK(o->k == (moved ? MOVED : u32(k)));
    }
    balanced();
}
// the fallback is only converted when it is used
struct Conv { u32 k; mutable u32 used = 0; operator u32() const { ++used; return k; } };
struct ConvT { u32 k; mutable u32 lv = 0, rv = 0; operator Trk() const& { ++lv; return Trk(k); } operator Trk() && { ++rv; return Trk(k + 1); } };
VP_HARNESS(C24, conversion) {
    {
        const u32 f = vp_u32("f"); vp_assume(f < 0x40000000u);
        { bool has; u64 k; opt::option<u32> o = sym_option<u32>("o", has, k); Conv v{f}; const u32 r = o.value_or(v); VP_CHECK(r == (has ? u32(k) : f) && v.used == (has ? 0u : 1u));
          const u32 s = move(o).value_or(v); VP_CHECK(s == r && v.used == (has ? 0u : 2u)); }
        { bool has; u64 k; OTrk o = sym_option<Trk>("p", has, k); ConvT v{f};
          const Trk r = o.value_or(v); VP_CHECK(r.k == (has ? k : f) && v.lv == (has ? 0u : 1u) && v.rv == 0);
          const Trk s = o.value_or(move(v)); VP_CHECK(s.k == (has ? k : f + 1) && v.lv == (has ? 0u : 1u) && v.rv == (has ? 0u : 1u)); }
    }
    balanced();
}
// aggregates are initialized member by member
struct Deep { u32 a; struct { u8 x; bool y; } b; std::array<u16, 2> c; };
VP_HARNESS(C24, aggregates) {
    {
        const u32 a = vp_u32("a"); const u16 b = vp_u16("b"); const u8 x = vp_u8("x"); const bool y = vp_bool("y");
        { bool has; u64 k; opt::option<AggNo> o = sym_option<AggNo>("o", has, k); const auto& c = o;
          AggNo r = c.value_or_construct(a, b); VP_CHECK(keyof<AggNo>(r) == (has ? k : (a | u64(b) << 32)));
          AggNo s = c.value_or_construct(a); VP_CHECK(keyof<AggNo>(s) == (has ? k : a));
          AggNo t = move(o).value_or_construct(); VP_CHECK(keyof<AggNo>(t) == (has ? k : 0));
          AggNo u = c.value_or({a, b}); VP_CHECK(keyof<AggNo>(u) == (has ? k : (a | u64(b) << 32))); }
        { bool has; u64 k; opt::option<Agg> o = sym_option<Agg>("p", has, k); const auto& c = o;
          Agg r = c.value_or_construct(a, y); VP_CHECK(keyof<Agg>(r) == (has ? k : (a | u64(y) << 32)));
          Agg s = move(o).value_or_construct(a, y); VP_CHECK(keyof<Agg>(s) == (has ? k : (a | u64(y) << 32))); }
        { opt::option<Deep> e; Deep r = e.value_or_construct(a); VP_CHECK(r.a == a && r.b.x == 0 && !r.b.y && r.c[0] == 0 && r.c[1] == 0);
          Deep s = e.value_or(Deep{a, {x, y}, {{b, 7}}}); VP_CHECK(s.a == a && s.b.x == x && s.b.y == y && s.c[0] == b && s.c[1] == 7);
          e = s; Deep t = e.value_or_construct(1u); VP_CHECK(t.a == a && t.b.x == x && t.b.y == y && t.c[0] == b && t.c[1] == 7); }
        { opt::option<ArrB> e; ArrB r = e.value_or_construct(y, !y); VP_CHECK(r[0] == y && r[1] == !y && !r[2]); }
    }
    balanced();
}
VP_HARNESS(C24, containers) {
    const u32 a = vp_u32("a"), b = vp_u32("b");
    bool has; u64 k; opt::option<Vec> o = sym_option<Vec>("o", has, k); const auto& c = o;
    const Vec r = c.value_or_construct({a, b, a});
    if (has) VP_CHECK(keyof<Vec>(r) == k); else VP_CHECK(r.size() == 3 && r[0] == a && r[1] == b && r[2] == a);
    const Vec s = c.value_or_construct(std::size_t(2), b);
    if (has) VP_CHECK(keyof<Vec>(s) == k); else VP_CHECK(s.size() == 2 && s[0] == b && s[1] == b);
    Vec spare{a, b}; const u32* const data = spare.data();
    const Vec t = c.value_or(move(spare));
    if (has) VP_CHECK(keyof<Vec>(t) == k && spare.size() == 2 && spare.data() == data); else VP_CHECK(t.size() == 2 && t.data() == data && spare.empty());
    const u32* const inner = has ? o->data() : nullptr; const std::size_t n = has ? o->size() : 0;
    const Vec u = move(o).value_or_construct(std::size_t(1), a);
    if (has) VP_CHECK(u.data() == inner && u.size() == n && o->empty()); else VP_CHECK(u.size() == 1 && u[0] == a);
}
// references: the fallback itself is what the result refers to
VP_HARNESS(C24, references) {
    u32 x = vp_u32("x"), y = vp_u32("y"); const u32 kx = x, ky = y;
    const bool has = vp_fork_(vp_bool("has"));
    opt::option<u32&> o; if (has) o = x;
    const auto& c = o;
    u32* const want = has ? &x : &y;
    u32& a = o.value_or(y); u32& b = c.value_or(y); u32& d = move(o).value_or(y);
    VP_CHECK(&a == want && &b == want && &d == want);
    u32& e = c.value_or_construct(y); u32& f = move(o).value_or_construct(y); VP_CHECK(&e == want && &f == want);
    opt::option<const u32&> p(c); const u32& g = p.value_or(y); VP_CHECK(&g == want);
    unsigned n = 0;
    const u32 m = c.map_or(y, [&](u32& v) { ++n; VP_CHECK(&v == &x); return v; }); VP_CHECK(m == (has ? kx : ky) && n == has);
    u32* const q = c.map_or_else([&] { return &y; }, [&](u32& v) { return &v; }); VP_CHECK(q == want);
    VP_CHECK(x == kx && y == ky && o.ptr_or_null() == (has ? &x : nullptr));
}
// the type of map_or is the decayed type of the fallback
VP_HARNESS(C24, map_or_types) {
    bool has; u64 k; opt::option<u8> o = sym_option<u8>("o", has, k); const u64 f = vp_u64("f");
    auto r0 = o.map_or(u64(f), [](u8 v) { return v; }); static_assert(std::is_same_v<decltype(r0), u64>);
    const u64 r = o.map_or(u64(f), [](u8 v) { return v; }); VP_CHECK(r == (has ? k : f));
    const u64 r2 = o.map_or(f, [](u8& v) -> u8& { return v; }); VP_CHECK(r2 == (has ? k : f));
    struct M { std::unique_ptr<u64> p; };
    M m = o.map_or(M{std::make_unique<u64>(f)}, [](u8 v) { return M{std::make_unique<u64>(v)}; }); VP_CHECK(*m.p == (has ? k : f));
    u32 once = 0;
    struct Fn { u32* n; u64 operator()() && { return ++*n; } u64 operator()(u8 v) && { return v; } };
    const u64 r3 = o.map_or_else(Fn{&once}, Fn{&once}); VP_CHECK(r3 == (has ? k : 1) && once == (has ? 0u : 1u));
    expect<u8>(o, has, k);
}
