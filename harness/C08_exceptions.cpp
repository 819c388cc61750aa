// configs: A B D
// configs-thorough: A B C D N
// bound: one option operation out of 34 with the exception raised at the n-th element operation, n in 1..4 (or no exception), all operand states and values symbolic; then one further assignment, reset or emplace
#include "ops.hpp"
using PairBT = std::pair<bool, Trk>;
VP_GEN(PairBT, u64 k = Gen<Trk>::fresh(n); return k | (vp_bool(n) ? u64(1) << 32 : 0);, return PairBT((k >> 32) != 0, Trk(u32(k)));, return keyof(v.second) | keyof(v.first) << 32;)
struct AggBT { bool b; Trk t; };
VP_GEN(AggBT, u64 k = Gen<Trk>::fresh(n); return k | (vp_bool(n) ? u64(1) << 32 : 0);, return (AggBT{(k >> 32) != 0, Trk(u32(k))});, return keyof(v.t) | keyof(v.b) << 32;)
using TupFT = std::tuple<float, Trk>;      // libstdc++ constructs the last element first
VP_GEN(TupFT, u64 k = Gen<Trk>::fresh(n); return k | Gen<float>::fresh(n) << 32;, return TupFT(mk<float>(k >> 32), Trk(u32(k)));, return keyof(std::get<1>(v)) | keyof(std::get<0>(v)) << 32;)
using ArrTN = std::array<TrkN, 2>;
VP_GEN(ArrTN, return Gen<Trk>::fresh(n);, return (ArrTN{{TrkN(u32(k)), TrkN(u32(k))}});, v[0].alive(); v[1].alive(); return v[0].k;)
template<class T> inline constexpr bool whole = true;           // one tracked element per value: exact values known after a failed assignment
template<> inline constexpr bool whole<ArrTN> = false; template<> inline constexpr bool whole<PairBT> = false; template<> inline constexpr bool whole<AggBT> = false; template<> inline constexpr bool whole<TupFT> = false;

template<class F> bool run(unsigned n, F&& f) {
    bool threw = false;
    g_throw_at = n;
    try { f(); } catch (const Boom&) { threw = true; }
    g_throw_at = 0;
    return threw;
}
#define RUN(...) run(n, [&] { __VA_ARGS__; })

// consistent: engaged options hold a live object (checked by keyof and at destruction)
template<class T> void consistent(const opt::option<T>& o) { if (o.has_value()) (void)keyof<T>(o.get()); }
template<class T> void engaged(const opt::option<T>& o, bool exact, u64 k) { VP_CHECK(o.has_value()); if (exact) VP_CHECK(keyof<T>(o.get()) == k); else consistent<T>(o); }

template<class T> void later(opt::option<T>& o) {
    u64 w = fresh<T>("w");
#ifdef VP_DEEP
    switch (vp_choice(4, "later")) {
#else
    switch (vp_choice(2, "later") * 2) {
#endif
    case 0: o.reset(); VP_CHECK(!o.has_value()); break;
    case 1: o.emplace(mk<T>(w)); expect<T>(o, true, w); break;
    case 2: o = mk<T>(w); expect<T>(o, true, w); break;
    default: { bool has = o.has_value(); opt::option<T> q = std::move(o); VP_CHECK(q.has_value() == has && o.has_value() == has); break; }
    }
}
template<class T> void fault_move(unsigned lo, unsigned hi) {
    using O = opt::option<T>;
    {
        bool h, ph; u64 k, pk;
        O o = sym_option<T>("o", h, k), p = sym_option<T>("p", ph, pk);
        u64 vk = fresh<T>("v");
        T v = mk<T>(vk);
        constexpr bool ex = whole<T>;
        const unsigned n = vp_choice(5, "n");
        const unsigned op = lo + vp_choice(hi - lo, "op");
        bool t = false;
        // keep(): after a failure the state of o is what it was
        auto keep = [&] { if (h) engaged<T>(o, ex, k); else VP_CHECK(!o.has_value()); };
        auto keep_p = [&] { if (ph) engaged<T>(p, ex, pk); else VP_CHECK(!p.has_value()); };
        switch (op) {
        case 0: t = RUN(o.emplace(std::move(v))); if (t) VP_CHECK(!o.has_value()); else expect<T>(o, true, vk); keep_p(); break;
        case 1: t = RUN(o.try_emplace(std::move(v))); if (t) { VP_CHECK(!h); VP_CHECK(!o.has_value()); } else expect<T>(o, true, h ? k : vk); keep_p(); break;
        case 2: t = RUN(o = std::move(v)); if (t) keep(); else expect<T>(o, true, vk); keep_p(); break;
        case 3: t = RUN(o = std::move(p)); if (t) { keep(); keep_p(); } else { expect<T>(o, ph, pk); VP_CHECK(p.has_value() == ph); } break;
        case 4: t = RUN(O q(std::move(o)); expect<T>(q, h, k)); if (t) { VP_CHECK(h); keep(); } keep_p(); break;
        case 5: t = RUN(O q(o.take()); expect<T>(q, h, k)); if (t) { VP_CHECK(h); keep(); } else VP_CHECK(!o.has_value()); keep_p(); break;
        case 6: t = RUN(o.swap(p)); if (t) { VP_CHECK(o.has_value() == h); VP_CHECK(p.has_value() == ph); consistent<T>(o); consistent<T>(p); if (h != ph) { keep(); keep_p(); } } else { expect<T>(o, ph, pk); expect<T>(p, h, k); } break;
        case 7: { unsigned c = 0; t = RUN(O q = o.take_if([&](T&) { ++c; tick(); return true; }); expect<T>(q, h, k)); if (t) keep(); else VP_CHECK(!o.has_value()); VP_CHECK(c == (h ? 1u : 0u)); keep_p(); break; }
        case 8: t = RUN(o |= std::move(v)); if (t) { VP_CHECK(!h); VP_CHECK(!o.has_value()); } else expect<T>(o, true, h ? k : vk); keep_p(); break;
        case 9: t = RUN(o |= std::move(p)); if (t) { VP_CHECK(!h); VP_CHECK(!o.has_value()); keep_p(); } else expect<T>(o, h | ph, h ? k : pk); break;
        case 10: t = RUN(O q = std::move(o) | std::move(p); expect<T>(q, h | ph, h ? k : pk)); if (t) { keep(); keep_p(); } break;
        case 11: t = RUN(O q = std::move(o).filter([&](const T&) { tick(); return true; }); expect<T>(q, h, k)); if (t) { VP_CHECK(h); keep(); } keep_p(); break;
        case 12: t = RUN(O q = std::move(o).or_else([&] { tick(); return std::move(p); }); expect<T>(q, h | ph, h ? k : pk)); if (t) { keep(); keep_p(); } break;
        case 13: t = RUN(T q = std::move(o).value_or(std::move(v)); VP_CHECK(keyof<T>(q) == (h ? k : vk))); if (t) keep(); keep_p(); break;
        case 14: t = RUN(O q(std::in_place, std::move(v)); expect<T>(q, true, vk)); keep(); keep_p(); break;
        case 15: { unsigned c = 0; t = RUN(auto q = std::move(o).map([&](T&& x) { ++c; tick(); return std::move(x); }); expect<T>(q, h, k)); VP_CHECK(c == (h ? 1u : 0u)); if (t) { VP_CHECK(h); VP_CHECK(o.has_value()); } keep_p(); break; }
        case 16: { unsigned c = 0; t = RUN(auto q = std::move(o).and_then([&](T&& x) { ++c; tick(); return O(std::move(x)); }); expect<T>(q, h, k)); VP_CHECK(c == (h ? 1u : 0u)); if (t) { VP_CHECK(h); VP_CHECK(o.has_value()); } keep_p(); break; }
        case 17: { unsigned c = 0; t = RUN(o.inspect([&](T&) { ++c; tick(); })); VP_CHECK(c == (h ? 1u : 0u)); VP_CHECK(t == (h & (n == 1))); keep(); keep_p(); break; }
        case 18: { unsigned c = 0; bool r = false; t = RUN(r = o.has_value_and([&](T&) { ++c; tick(); return true; })); VP_CHECK(c == (h ? 1u : 0u)); VP_CHECK(t == (h & (n == 1))); VP_CHECK(r == (h & !t)); keep(); keep_p(); break; }
        case 19: { unsigned c = 0, d = 0; u32 r = 0; t = RUN(r = o.map_or_else([&] { ++d; tick(); return 1u; }, [&](T&) { ++c; tick(); return 2u; })); VP_CHECK(c == (h ? 1u : 0u) && d == (h ? 0u : 1u)); VP_CHECK(t == (n == 1)); keep(); keep_p(); break; }
        case 20: { unsigned c = 0; u32 r = 0; t = RUN(r = o.map_or(9u, [&](T&) { ++c; tick(); return 2u; })); VP_CHECK(c == (h ? 1u : 0u)); VP_CHECK(t == (h & (n == 1))); if (!t) VP_CHECK(r == (h ? 2u : 9u)); keep(); keep_p(); break; }
        default: { unsigned c = 0; t = RUN((void)opt::zip_with([&](T&, T&) { ++c; tick(); return 1; }, o, p)); VP_CHECK(c == ((h & ph) ? 1u : 0u)); VP_CHECK(t == (h & ph & (n == 1))); keep(); keep_p(); break; }
        }
        VP_CHECK(t == (n != 0 && g_threw == 1));
        consistent<T>(o); consistent<T>(p);
        later<T>(o);
    }
    balanced();
}
template<class T> void fault_copy() {
    using O = opt::option<T>;
    {
        bool h, ph; u64 k, pk;
        O o = sym_option<T>("o", h, k), p = sym_option<T>("p", ph, pk);
        u64 vk = fresh<T>("v");
        const T v = mk<T>(vk);
        constexpr bool ex = whole<T>;
        const unsigned n = vp_choice(5, "n");
        bool t = false;
        auto keep = [&] { if (h) engaged<T>(o, ex, k); else VP_CHECK(!o.has_value()); };
        const O& co = o; const O& cp = p;
        switch (vp_choice(13, "op")) {
        case 0: t = RUN(o.emplace(v)); if (t) VP_CHECK(!o.has_value()); else expect<T>(o, true, vk); break;
        case 1: t = RUN(o.try_emplace(v)); if (t) { VP_CHECK(!h); VP_CHECK(!o.has_value()); } else expect<T>(o, true, h ? k : vk); break;
        case 2: t = RUN(o = v); if (t) keep(); else expect<T>(o, true, vk); break;
        case 3: t = RUN(o = cp); if (t) keep(); else expect<T>(o, ph, pk); break;
        case 4: t = RUN(O q(co); expect<T>(q, h, k)); if (t) VP_CHECK(h); keep(); break;
        case 5: t = RUN(O q(v); expect<T>(q, true, vk)); keep(); break;
        case 6: t = RUN(o |= cp); if (t) { VP_CHECK(!h); VP_CHECK(!o.has_value()); } else expect<T>(o, h | ph, h ? k : pk); break;
        case 7: t = RUN(O q = co | cp; expect<T>(q, h | ph, h ? k : pk)); keep(); break;
        case 8: t = RUN(O q = co ^ cp; expect<T>(q, h != ph, h ? k : pk)); keep(); break;
        case 9: t = RUN(O q = co & cp; expect<T>(q, h & ph, pk)); keep(); break;
        case 10: t = RUN(O q = co.filter([&](const T&) { tick(); return true; }); expect<T>(q, h, k)); keep(); break;
        case 11: t = RUN(T q = co.value_or(v); VP_CHECK(keyof<T>(q) == (h ? k : vk))); keep(); break;
        default: t = RUN(O& s = o; o = s); keep(); break;
        }
        VP_CHECK(t == (n != 0 && g_threw == 1));
        expect<T>(cp, ph, pk);
        VP_CHECK(keyof<T>(v) == vk);
        consistent<T>(o);
        later<T>(o);
    }
    balanced();
}
#define X(N, T) VP_HARNESS(C08, move_##N) { fault_move<T>(0, 11); } VP_HARNESS(C08, call_##N) { fault_move<T>(11, 22); } VP_HARNESS(C08, copy_##N) { fault_copy<T>(); }
X(Trk, Trk) X(TrkN, TrkN) X(TrkA, TrkA) X(PairTB, PairTB) X(PairBT, PairBT) X(AggBT, AggBT) X(TupFT, TupFT) X(ArrTN, ArrTN) X(OTrk, OTrk) X(OTrkN, OTrkN)
VP_HARNESS(C08, move_TrkM) { fault_move<TrkM>(0, 11); }
VP_HARNESS(C08, call_TrkM) { fault_move<TrkM>(11, 22); }

// conversions from another option type and in-place construction
template<class T> void fault_convert() {
    using O = opt::option<T>; using I = opt::option<u32>;
    {
        bool h, ih; u64 k, ik;
        O o = sym_option<T>("o", h, k);
        I i = sym_option<u32>("i", ih, ik); vp_assume(ik < 0x40000000u);
        const unsigned n = vp_choice(4, "n");
        u32 a = u32(ik), b = vp_u32("b"); vp_assume(b < 0x40000000u);
        bool t = false;
        auto keep = [&] { expect<T>(o, h, k); };
        switch (vp_choice(11, "op")) {
        case 0: t = RUN(o = i); if (t) { VP_CHECK(ih); keep(); } else expect<T>(o, ih, ik); break;
        case 1: t = RUN(o = std::move(i)); if (t) { VP_CHECK(ih); keep(); } else expect<T>(o, ih, ik); break;
        case 2: t = RUN(O q(i); expect<T>(q, ih, ik)); VP_CHECK(t == (ih & (n == 1))); keep(); break;
        case 3: t = RUN(O q(std::move(i)); expect<T>(q, ih, ik)); VP_CHECK(t == (ih & (n == 1))); keep(); break;
        case 4: t = RUN(o.emplace(a, b)); VP_CHECK(t == (n == 1)); if (t) VP_CHECK(!o.has_value()); else expect<T>(o, true, a + b); break;
        case 5: t = RUN(o.try_emplace(a, b)); VP_CHECK(t == (!h & (n == 1))); if (t | h) keep(); else expect<T>(o, true, a + b); break;
        case 6: t = RUN(O q(std::in_place, a, b); expect<T>(q, true, a + b)); VP_CHECK(t == (n == 1)); keep(); break;
        case 7: t = RUN(O q = opt::make_option<T>(a, b); expect<T>(q, true, a + b)); VP_CHECK(t == (n == 1)); keep(); break;
        case 8: t = RUN(o = a); VP_CHECK(t == (n == 1)); if (t) keep(); else expect<T>(o, true, a); break;
        case 9: t = RUN(T q = o.value_or_construct(a, b); VP_CHECK(keyof<T>(q) == (h ? k : u64(a) + b))); VP_CHECK(t == (n == 1)); keep(); break;
        default: t = RUN(O q = opt::option_cast<T>(i); expect<T>(q, ih, ik)); VP_CHECK(t == (ih & (n == 1))); keep(); break;
        }
        expect<u32>(i, ih, ik);
        consistent<T>(o);
        later<T>(o);
    }
    balanced();
}
VP_HARNESS(C08, conv_Trk) { fault_convert<Trk>(); }
VP_HARNESS(C08, conv_TrkN) { fault_convert<TrkN>(); }

// a comparison, a mapped result or an element of a zip that throws
VP_HARNESS(C08, zips) {
    {
        bool h, ph; u64 k, pk;
        OTrk o = sym_option<Trk>("o", h, k); OTrkN p = sym_option<TrkN>("p", ph, pk);
        const unsigned n = vp_choice(6, "n");
        switch (vp_choice(3, "op")) {
        case 0: RUN(auto z = opt::zip(o, p); VP_CHECK(z.has_value() == (h & ph))); break;
        case 1: RUN(auto z = opt::zip_with([](Trk& a, TrkN&) { return a; }, o, p); VP_CHECK(z.has_value() == (h & ph))); break;
        default: RUN(auto z = o.map([](Trk& a) { return std::pair<bool, Trk>(true, a); }); VP_CHECK(z.has_value() == h)); break;
        }
        expect<Trk>(o, h, k); expect<TrkN>(p, ph, pk);
    }
    balanced();
}
