// configs: A B D N
// configs-thorough: C
// bound: both options' states and values symbolic; member, opt::swap, unqualified swap and std::swap; one swap, two swaps, self-swap, and a three-option rotation
#include "ops.hpp"
#include <string>
template<class T> void rot() {                           // three swaps of three options, in a symbolic order
    {
        using O = opt::option<T>;
        bool h[3]; u64 k[3];
        O a = sym_option<T>("a", h[0], k[0]); O b = sym_option<T>("b", h[1], k[1]); O c = sym_option<T>("c", h[2], k[2]);
        O* o[3] = {&a, &b, &c};
        for (int s = 0; s < 3; ++s) {
            const unsigned w = vp_choice(3, "pair");
            const unsigned i = w == 2 ? 1 : 0, j = w == 0 ? 1 : 2;
            if (s == 1) opt::swap(*o[i], *o[j]); else o[i]->swap(*o[j]);
            std::swap(h[i], h[j]); std::swap(k[i], k[j]);
            for (int q = 0; q < 3; ++q) expect<T>(*o[q], h[q], k[q]);
        }
    }
    balanced();
}
template<class T, class O = opt::option<T>> void swap_by(unsigned how, O& a, O& b) {
    switch (how) {
    case 0: a.swap(b); break;
    case 1: opt::swap(a, b); break;
    case 2: { using std::swap; swap(a, b); break; }
    case 3: swap(a, b); break;
    default: if constexpr (std::is_move_assignable_v<O>) std::swap(a, b); break;
    }
}
template<class T> void two() {
    {
        using O = opt::option<T>;
        bool ha, hb; u64 ka, kb;
        struct { u64 before; O a; u64 mid; O b; u64 after; } s{0x1122334455667788u, sym_option<T>("a", ha, ka), 0x99aabbccddeeff00u, sym_option<T>("b", hb, kb), 0x0ff1ce0ff1ce0ff1u};
        const unsigned how = vp_choice(5, "how");
        const long live = g_log.live;
        static_assert(std::is_same_v<decltype(s.a.swap(s.b)), void>);
        swap_by<T>(how, s.a, s.b);
        expect<T>(s.a, hb, kb); expect<T>(s.b, ha, ka);
        VP_CHECK(g_log.live == live || (!ha && !hb) || how == 4);
        const bool other = vp_fork_(vp_bool("reverse"));
        if (other) swap_by<T>(how, s.b, s.a); else swap_by<T>(how, s.a, s.b);
        expect<T>(s.a, ha, ka); expect<T>(s.b, hb, kb);
        swap_by<T>(how, s.a, s.a);
        expect<T>(s.a, ha, ka); expect<T>(s.b, hb, kb);
        VP_CHECK(s.before == 0x1122334455667788u && s.mid == 0x99aabbccddeeff00u && s.after == 0x0ff1ce0ff1ce0ff1u);
    }
    balanced();
}
#define ONE(NAME, ...) VP_HARNESS(C20, two_##NAME) { two<__VA_ARGS__>(); }
VP_ALL_TYPES(ONE) VP_MOVE_TYPES(ONE) VP_OPT_TYPES(ONE) VP_SP_TYPES(ONE) ONE(AggTb, AggTb) ONE(AggT, AggT) VP_AMP_TYPES(ONE)
VP_HARNESS(C20, rot_int) { rot<int>(); }
VP_HARNESS(C20, rot_Trk) { rot<Trk>(); }
#if VP_DEEP
VP_HARNESS(C20, rot_TrkN) { rot<TrkN>(); }
VP_HARNESS(C20, rot_bool) { rot<bool>(); }
VP_HARNESS(C20, rot_Agg) { rot<Agg>(); }
VP_HARNESS(C20, rot_OBool) { rot<OBool>(); }
VP_HARNESS(C20, rot_UPtr) { rot<UPtr>(); }
VP_HARNESS(C20, rot_string) { rot<std::string>(); }
VP_HARNESS(C20, rot_PairTB) { rot<PairTB>(); }
#endif

// how many operations on the objects a swap performs: exactly one move construction and one destruction when one side is engaged
VP_HARNESS(C20, cost) {
    {
        bool ha, hb; u64 ka, kb;
        OTrk a = sym_option<Trk>("a", ha, ka), b = sym_option<Trk>("b", hb, kb);
        const Log l = g_log;
        if (vp_fork_(vp_bool("free"))) opt::swap(a, b); else a.swap(b);
        const Log d = since(l);
        expect<Trk>(a, hb, kb); expect<Trk>(b, ha, ka);
        VP_CHECK(d.cctor == 0 && d.cassign == 0 && d.ctor == 0);
        if (ha != hb) VP_CHECK(d.mctor == 1 && d.dtor == 1 && d.massign == 0);
        if (!ha && !hb) VP_CHECK(d.mctor == 0 && d.dtor == 0 && d.massign == 0);
        if (ha && hb) VP_CHECK(d.mctor == 1 && d.dtor == 1 && d.massign == 2);        // std::swap
    }
    balanced();
}
// a type with its own swap: it is the one that is used, on the contained objects themselves
struct Own { u32 k; const Own* self; static inline int calls = 0; Own(u32 v) : k(v), self(this) {} Own(Own&& o) : k(o.k), self(this) { o.k = MOVED; }
    Own& operator=(Own&&) = delete;
    friend void swap(Own& a, Own& b) { ++calls; VP_CHECK(a.self == &a && b.self == &b); const u32 t = a.k; a.k = b.k; b.k = t; } };
VP_GEN(Own, return vp_u32(n);, return Own(u32(k));, VP_CHECK(v.self == &v); return v.k;)
VP_HARNESS(C20, own) {
    bool ha, hb; u64 ka, kb;
    opt::option<Own> a = sym_option<Own>("a", ha, ka), b = sym_option<Own>("b", hb, kb);
    const unsigned how = vp_choice(4, "how");
    swap_by<Own>(how, a, b);
    VP_CHECK(Own::calls == (ha && hb ? 1 : 0));
    expect<Own>(a, hb, kb); expect<Own>(b, ha, ka);
    swap_by<Own>(how, a, a);
    expect<Own>(a, hb, kb); expect<Own>(b, ha, ka);
}

// mutually convertible types with their own swap
struct B2;
struct A2 { Trk t; explicit A2(u32 k) : t(k) {} A2(A2&&) = default; inline A2(B2&& b); };
struct B2 { bool tag; Trk t; explicit B2(u32 k) : tag(true), t(k) {} B2(B2&&) = default; B2(A2&& a) : tag(false), t(std::move(a.t)) {} };
inline A2::A2(B2&& b) : t(std::move(b.t)) {}
inline void swap(A2& a, B2& b) { using std::swap; swap(a.t, b.t); }
inline void swap(B2& b, A2& a) { using std::swap; swap(a.t, b.t); }
VP_GEN(A2, return Gen<Trk>::fresh(n);, return A2(u32(k));, return keyof(v.t);)
VP_GEN(B2, return Gen<Trk>::fresh(n);, return B2(u32(k));, return keyof(v.t);)
// two trivial types, the first with a niche of its own and the second without any
struct D2;
struct C2 { bool flag; u32 k; explicit C2(u32 v) : flag(false), k(v) {} inline C2(const D2& d); };
struct D2 { u32 k; explicit D2(u32 v) : k(v) {} D2(const C2& c) : k(c.k) {} };
inline C2::C2(const D2& d) : flag(true), k(d.k) {}
inline void swap(C2& a, D2& b) { const u32 t = a.k; a.k = b.k; b.k = t; }
inline void swap(D2& b, C2& a) { swap(a, b); }
VP_GEN(C2, return vp_u32(n);, return C2(u32(k));, return v.k;)
VP_GEN(D2, return vp_u32(n);, return D2(u32(k));, return v.k;)
template<class X, class Y> void cross() {
    {
        bool ha, hb; u64 ka, kb;
        opt::option<X> a = sym_option<X>("a", ha, ka);
        opt::option<Y> b = sym_option<Y>("b", hb, kb);
        const unsigned how = vp_choice(4, "how");
        auto go = [&] { switch (how) { case 0: a.swap(b); break; case 1: b.swap(a); break; case 2: opt::swap(a, b); break; default: { using std::swap; swap(b, a); } } };
        go();
        VP_CHECK(a.has_value() == hb && b.has_value() == ha);
        if (hb) VP_CHECK(keyof<X>(*a) == kb);
        if (ha) VP_CHECK(keyof<Y>(*b) == ka);
        go();
        expect<X>(a, ha, ka); expect<Y>(b, hb, kb);
    }
    balanced();
}
VP_HARNESS(C20, cross_AB) { cross<A2, B2>(); }
VP_HARNESS(C20, cross_BA) { cross<B2, A2>(); }
VP_HARNESS(C20, cross_CD) { cross<C2, D2>(); }
VP_HARNESS(C20, cross_DC) { cross<D2, C2>(); }

// references: what they refer to is exchanged, and nothing else
VP_HARNESS(C20, refs) {
    u32 v[3]; u64 kv[3];
    for (int i = 0; i < 3; ++i) { v[i] = vp_u32("v"); kv[i] = v[i]; }
    auto pick = [&](const char* n, int& i) { i = int(vp_choice(4, n)) - 1; return i < 0 ? opt::option<u32&>() : opt::option<u32&>(v[i]); };
    int i, j;
    opt::option<u32&> a = pick("a", i);
    opt::option<u32&> b = pick("b", j);
    auto is = [&](const opt::option<u32&>& o, int w) { VP_CHECK(o.has_value() == (w >= 0)); if (w >= 0) VP_CHECK(&*o == &v[w]); };
    auto same = [&] { for (int q = 0; q < 3; ++q) VP_CHECK(v[q] == kv[q]); };
    const unsigned how = vp_choice(5, "how");
    swap_by<u32&>(how, a, b); is(a, j); is(b, i); same();
    swap_by<u32&>(how, b, a); is(a, i); is(b, j); same();
    swap_by<u32&>(how, a, a); is(a, i); is(b, j); same();
    swap_by<u32&>(how, a, b);
    if (a.has_value()) { const u32 w = vp_u32("w"); *a = w; kv[j] = w; }      // the new binding is live
    is(a, j); is(b, i); same();
}
VP_HARNESS(C20, refs_tracked) {
    {
        Trk x(1), y(2);
        const u32 n = vp_u32("n"); vp_assume(n < 0x80000000u); x.k = n;
        const Log l = g_log;
        const bool hb = vp_fork_(vp_bool("hb"));
        opt::option<Trk&> a(x), b;
        if (hb) b = opt::option<Trk&>(y);
        if (vp_fork_(vp_bool("free"))) opt::swap(a, b); else a.swap(b);
        VP_CHECK(&*b == &x && a.has_value() == hb && a.ptr_or_null() == (hb ? &y : nullptr));
        opt::option<const Trk&> c, d(y);
        c.swap(d); VP_CHECK(&*c == &y && !d.has_value());
        std::swap(c, d); VP_CHECK(&*d == &y && !c.has_value());
        const Log e = since(l);
        VP_CHECK(e.ctor + e.cctor + e.mctor + e.cassign + e.massign + e.dtor == 0 && x.k == n && y.k == 2);
    }
    balanced();
}
// options inside other objects are swapped through the swap of those objects
VP_HARNESS(C20, inside) {
    {
        bool h[4]; u64 k[4];
        std::pair<OTrkN, OTrk> p{sym_option<TrkN>("a", h[0], k[0]), sym_option<Trk>("b", h[1], k[1])};
        std::pair<OTrkN, OTrk> q{sym_option<TrkN>("c", h[2], k[2]), sym_option<Trk>("d", h[3], k[3])};
        std::swap(p, q);
        expect<TrkN>(p.first, h[2], k[2]); expect<Trk>(p.second, h[3], k[3]); expect<TrkN>(q.first, h[0], k[0]); expect<Trk>(q.second, h[1], k[1]);
        p.swap(q);
        expect<TrkN>(q.first, h[2], k[2]); expect<Trk>(q.second, h[3], k[3]); expect<TrkN>(p.first, h[0], k[0]); expect<Trk>(p.second, h[1], k[1]);
    }
    balanced();
}
// distinct levels of the same nest
VP_HARNESS(C20, nested_inner) {
    bool ho, hi; u64 ki = 0;
    opt::option<OBool> o; ho = vp_fork_(vp_bool("ho")); hi = ho && vp_fork_(vp_bool("hi"));
    if (ho) o.emplace();
    if (hi) { ki = fresh<bool>("ki"); o->emplace(mk<bool>(ki)); }
    bool hs; u64 ks; OBool s = sym_option<bool>("s", hs, ks);
    if (ho) { o->swap(s); VP_CHECK(o.has_value()); expect<bool>(*o, hs, ks); expect<bool>(s, hi, ki); }
    else { VP_CHECK(!o.has_value()); expect<bool>(s, hs, ks); }
}
