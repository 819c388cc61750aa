// configs: A B D
// configs-thorough: A B C D N
// bound: both states, all values and all callback outcomes, each operation in each of its four value-category overloads, for the listed payload types and callable kinds (lambda, move-only, ref-qualified, function pointer, member pointers, reference_wrapper)
#include "ops.hpp"
using std::move;

// like: O is option<T>&, const option<T>&, option<T>&& or const option<T>&&; A the matching reference to the payload
template<class O> struct cat;
template<class T> struct cat<opt::option<T>&> { using arg = T&; using view = T&; };
template<class T> struct cat<const opt::option<T>&> { using arg = const T&; using view = const T&; };
template<class T> struct cat<opt::option<T>&&> { using arg = T&&; using view = T&; };
template<class T> struct cat<const opt::option<T>&&> { using arg = const T&&; using view = const T&; };
#define FWD static_cast<O>(o)

struct MoveOnlyFn { std::unique_ptr<u32> p; template<class X> u32 operator()(X&&) { return (*p)++; } };
struct RefQual { unsigned* l; unsigned* r; template<class X> bool operator()(X&&) & { ++*l; return true; } template<class X> bool operator()(X&&) && { ++*r; return true; } };

template<class O> void ops(std::remove_reference_t<O>& o, bool h, u64 k, unsigned op) {
    using V = std::remove_const_t<std::remove_reference_t<O>>;
    using T = typename V::value_type;
    using Arg = typename cat<O>::arg; using View = typename cat<O>::view;
    const T* const addr = o.ptr_or_null();
    unsigned calls = 0, other = 0;
    const unsigned want = h ? 1u : 0u;
    const u64 res = vp_u64("res"); const bool yes = vp_fork_(vp_bool("yes"));
    const u64 alt = vp_u64("alt");
    auto seen = [&](const T& x) { ++calls; VP_CHECK(&x == addr); VP_CHECK(keyof<T>(x) == k); };
    switch (op) {
    case 0: { auto r = FWD.map([&](Arg x) { seen(x); return res; }); static_assert(std::is_same_v<decltype(r), opt::option<u64>>); VP_CHECK(r.has_value() == h); if (h) VP_CHECK(*r == res); break; }
    case 1: { auto r = FWD.map([&](Arg x) -> View { seen(x); return x; }); static_assert(std::is_same_v<decltype(r), opt::option<View>>); VP_CHECK(r.has_value() == h); if (h) VP_CHECK(&r.get() == addr); break; }
    case 2: { auto r = FWD.map([&](auto&& x) { static_assert(std::is_same_v<decltype(x), Arg>); seen(x); return opt::option<u64>(yes ? opt::option<u64>(res) : opt::none); });
              static_assert(std::is_same_v<decltype(r), opt::option<opt::option<u64>>>); VP_CHECK(r.has_value() == h); if (h) { VP_CHECK(r->has_value() == yes); if (yes) VP_CHECK(**r == res); } break; }
    case 3: { auto r = FWD.and_then([&](auto&& x) { static_assert(std::is_same_v<decltype(x), Arg>); seen(x); return yes ? opt::option<u64>(res) : opt::none; });
              static_assert(std::is_same_v<decltype(r), opt::option<u64>>); VP_CHECK(r.has_value() == (h & yes)); if (h & yes) VP_CHECK(*r == res); break; }
    case 4: { auto r = FWD.map_or(alt, [&](auto&& x) { static_assert(std::is_same_v<decltype(x), Arg>); seen(x); return res; }); VP_CHECK(r == (h ? res : alt)); break; }
    case 5: { auto r = FWD.map_or_else([&] { ++other; return alt; }, [&](auto&& x) { static_assert(std::is_same_v<decltype(x), Arg>); seen(x); return res; }); VP_CHECK(r == (h ? res : alt)); VP_CHECK(other == 1 - want); break; }
    case 6: { bool r = FWD.has_value_and([&](auto&& x) { static_assert(std::is_same_v<decltype(x), Arg>); seen(x); return yes; }); VP_CHECK(r == (h & yes)); break; }
    case 7: { auto& r = FWD.inspect([&](auto&& x) { static_assert(std::is_same_v<decltype(x), Arg>); seen(x); }); VP_CHECK(&r == &o); break; }
    case 8: { FWD.inspect([&](const T& x) { seen(x); return 5; }); break; }
    case 9: if constexpr (copyable<T> || std::is_same_v<O, V&&>) { V r = FWD.filter([&](const auto& x) { seen(x); return yes; }); expect<T>(r, h & yes, k); if (!std::is_same_v<O, V&&> || !yes) expect<T>(o, h, k); VP_CHECK(calls == want); return; } else calls = want; break;
    case 10: { u32 n0 = u32(res); MoveOnlyFn f{std::make_unique<u32>(n0)}; auto r = FWD.map(move(f)); VP_CHECK(r.has_value() == h); if (h) VP_CHECK(*r == n0); VP_CHECK(f.p && *f.p == n0 + want); calls = want; break; }
    case 11: { unsigned l = 0, rv = 0; bool r = FWD.has_value_and(RefQual{&l, &rv}); VP_CHECK(r == h); VP_CHECK(l == 0 && rv == want); RefQual q{&l, &rv}; r = FWD.has_value_and(q); VP_CHECK(r == h); VP_CHECK(l == want && rv == want); calls = want; break; }
    case 12: { auto f = [&](Arg x) { seen(x); return res; }; auto r = FWD.map(std::ref(f)); VP_CHECK(r.has_value() == h); if (h) VP_CHECK(*r == res); break; }
    case 13: { auto z = opt::zip_with([&](auto&& x, auto&& y) { static_assert(std::is_same_v<decltype(x), Arg>); seen(x); VP_CHECK(y == u32(alt)); return res; }, FWD, opt::option<u32>(u32(alt))); VP_CHECK(z.has_value() == h); if (h) VP_CHECK(*z == res); break; }
    case 14: { auto z = opt::zip_with([&](auto&&, auto&&) { ++calls; return res; }, FWD, opt::option<u32>()); VP_CHECK(!z.has_value()); VP_CHECK(calls == 0); calls = want; break; }
    case 15: { opt::zip_with([&](auto&& x) { static_assert(std::is_same_v<decltype(x), Arg>); seen(x); }, FWD); break; }
    case 16: { auto r = FWD.map_or_else([&] { ++other; return V(); }, [&](Arg x) { seen(x); return V(); }); VP_CHECK(!r.has_value()); VP_CHECK(other == 1 - want); break; }
    }
    VP_CHECK(calls == want);
    expect<T>(o, h, k);
}
template<class T> void all() {
    {
        bool h; u64 k;
        opt::option<T> o = sym_option<T>("o", h, k);
        const unsigned op = vp_choice(17, "op");
        switch (vp_choice(4, "cat")) {
        case 0: ops<opt::option<T>&>(o, h, k, op); break;
        case 1: ops<const opt::option<T>&>(o, h, k, op); break;
        case 2: ops<opt::option<T>&&>(o, h, k, op); break;
        default: if constexpr (true) ops<const opt::option<T>&&>(o, h, k, op); break;
        }
    }
    balanced();
}
#define X(N, T) VP_HARNESS(C09, cb_##N) { all<T>(); }
VP_ALL_TYPES(X) VP_MOVE_TYPES(X) VP_OPT_TYPES(X) X(Sp0000, Sp0000) X(Sp1111, Sp1111)

// or_else, take_if and filter with every outcome
template<class T> void alternatives() {
    using O = opt::option<T>;
    {
        bool h, ph; u64 k, pk;
        O o = sym_option<T>("o", h, k), p = sym_option<T>("p", ph, pk);
        unsigned calls = 0;
        switch (vp_choice(5, "op")) {
        case 0: { O r = move(o).or_else([&] { ++calls; return move(p); }); VP_CHECK(calls == (h ? 0u : 1u)); expect<T>(r, h | ph, h ? k : pk); if (h) { expect<T>(p, ph, pk); } VP_CHECK(o.has_value() == h); break; }
        case 1: { const bool yes = vp_fork_(vp_bool("yes")); const T* a = o.ptr_or_null();
                  O r = o.take_if([&](T& x) { ++calls; VP_CHECK(&x == a); VP_CHECK(keyof<T>(x) == k); return yes; });
                  VP_CHECK(calls == (h ? 1u : 0u)); expect<T>(r, h & yes, k); expect<T>(o, h & !yes, k); expect<T>(p, ph, pk); break; }
        case 2: { const u64 vk = fresh<T>("v"); O r = o.take_if([&](T& x) { ++calls; x = mk<T>(vk); return false; }); VP_CHECK(!r.has_value()); VP_CHECK(calls == (h ? 1u : 0u)); expect<T>(o, h, vk); break; }
        case 3: { const u64 vk = fresh<T>("v"); O r = o.take_if([&](T& x) { ++calls; x = mk<T>(vk); return true; }); expect<T>(r, h, vk); VP_CHECK(calls == (h ? 1u : 0u)); VP_CHECK(!o.has_value()); break; }
        default: { const u64 vk = fresh<T>("v"); o.inspect([&](T& x) { ++calls; x = mk<T>(vk); }); VP_CHECK(calls == (h ? 1u : 0u)); expect<T>(o, h, vk); break; }
        }
    }
    balanced();
}
template<class T> void alternatives_copy() {
    using O = opt::option<T>;
    {
        bool h, ph; u64 k, pk;
        const O o = sym_option<T>("o", h, k); const O p = sym_option<T>("p", ph, pk);
        O m = o;
        unsigned calls = 0;
        switch (vp_choice(4, "op")) {
        case 0: { O r = o.or_else([&]() -> const O& { ++calls; return p; }); VP_CHECK(calls == (h ? 0u : 1u)); expect<T>(r, h | ph, h ? k : pk); break; }
        case 1: { O r = m.or_else([&] { ++calls; return p; }); VP_CHECK(calls == (h ? 0u : 1u)); expect<T>(r, h | ph, h ? k : pk); break; }
        case 2: { O r = move(o).or_else([&] { ++calls; return p; }); VP_CHECK(calls == (h ? 0u : 1u)); expect<T>(r, h | ph, h ? k : pk); break; }
        default: { auto r = o.and_then([&](const T& x) { ++calls; return O(x); }).filter([&](const T& x) { ++calls; return keyof<T>(x) == pk; }).or_else([&] { ++calls; return O(o); });
                   VP_CHECK(calls == ((h ? 2u : 0u) + ((h && k == pk) ? 0u : 1u))); expect<T>(r, h, k); break; }
        }
        expect<T>(o, h, k); expect<T>(p, ph, pk); expect<T>(m, h, k);
    }
    balanced();
}
#define Y(N, T) VP_HARNESS(C09, alt_##N) { alternatives<T>(); }
#define Z(N, T) VP_HARNESS(C09, altc_##N) { alternatives_copy<T>(); }
VP_ALL_TYPES(Y) VP_MOVE_TYPES(Y) VP_ALL_TYPES(Z) VP_OPT_TYPES(Y) VP_OPT_TYPES(Z)

// member pointers and function pointers
struct S { u32 a; bool b; u32 twice() const { return a * 2; } u32 bump(u32 = 0) { return ++a; } u32 rv() && { return a + 7; } bool isb() const { return b; } opt::option<u32> maybe() const { return b ? opt::option<u32>(a) : opt::none; } void touch() { a += 3; } };
static unsigned g_fp_calls; static u32 fp(const S& s) { ++g_fp_calls; return s.a; } static bool fpb(const S& s) { ++g_fp_calls; return s.b; }
VP_HARNESS(C09, member_pointers) {
    const u32 a = vp_u32("a"), d = vp_u32("d"); const bool b = vp_fork_(vp_bool("b")), h = vp_fork_(vp_bool("h"));
    opt::option<S> o; if (h) o = S{a, b};
    const opt::option<S>& c = o;
    { auto r = o.map(&S::a); static_assert(std::is_same_v<decltype(r), opt::option<u32&>>); VP_CHECK(r.has_value() == h); if (h) { VP_CHECK(&r.get() == &o->a); } }
    { auto r = c.map(&S::a); VP_CHECK(r.has_value() == h); if (h) { VP_CHECK(&r.get() == &o->a); } }
    { auto r = c.map(&S::twice); VP_CHECK(r == (h ? opt::option<u32>(a * 2) : opt::none)); }
    { VP_CHECK(c.map_or(d, &S::a) == (h ? a : d)); VP_CHECK(move(c).map_or(d, &S::twice) == (h ? a * 2 : d)); }
    { VP_CHECK(c.has_value_and(&S::b) == (h & b)); VP_CHECK(o.has_value_and(&S::isb) == (h & b)); }
    { auto r = c.filter(&S::b); VP_CHECK(r.has_value() == (h & b)); if (h & b) VP_CHECK(r->a == a); }
    { auto r = c.filter(&S::isb); VP_CHECK(r.has_value() == (h & b)); }
    { auto r = c.and_then(&S::maybe); VP_CHECK(r == ((h & b) ? opt::option<u32>(a) : opt::none)); }
    { auto r = move(o).map(&S::rv); VP_CHECK(r == (h ? opt::option<u32>(a + 7) : opt::none)); }
    { g_fp_calls = 0; auto r = c.map(fp); VP_CHECK(r == (h ? opt::option<u32>(a) : opt::none)); VP_CHECK(g_fp_calls == (h ? 1u : 0u)); }
    { g_fp_calls = 0; VP_CHECK(c.has_value_and(&fpb) == (h & b)); VP_CHECK(g_fp_calls == (h ? 1u : 0u)); }
    { VP_CHECK(c.map_or_else([&] { return d; }, fp) == (h ? a : d)); }
    { auto r = opt::zip_with(fp, c); VP_CHECK(r == (h ? opt::option<u32>(a) : opt::none)); }
    o.inspect(&S::touch);
    VP_CHECK(o.has_value() == h); if (h) VP_CHECK(o->a == a + 3 && o->b == b);
    { opt::option<S> t = o.take_if(&S::isb); VP_CHECK(t.has_value() == (h & b)); VP_CHECK(o.has_value() == (h & !b)); if (t.has_value()) VP_CHECK(t->a == a + 3); }
    S s{a, b}; opt::option<S*> po; if (h) po = &s;
    { auto r = po.map(&S::twice); VP_CHECK(r == (h ? opt::option<u32>(a * 2) : opt::none)); }
    { auto r = po.map(&S::a); VP_CHECK(r.has_value() == h); if (h) VP_CHECK(&r.get() == &s.a); }
    opt::option<std::reference_wrapper<S>> ro; if (h) ro = std::ref(s);
    { auto r = ro.map(&S::twice); VP_CHECK(r == (h ? opt::option<u32>(a * 2) : opt::none)); }
    { auto r = ro.map(&S::a); VP_CHECK(r.has_value() == h); if (h) VP_CHECK(&r.get() == &s.a); }
    opt::option<S&> rf; if (h) rf = s;
    { auto r = rf.map(&S::a); VP_CHECK(r.has_value() == h); if (h) VP_CHECK(&r.get() == &s.a); }
    { auto r = rf.map(&S::twice); VP_CHECK(r == (h ? opt::option<u32>(a * 2) : opt::none)); }
}
// zip_with over up to four options: called exactly once iff all are engaged, arguments in order
VP_HARNESS(C09, zip_with_many) {
    {
        bool h0, h1, h2, h3; u64 k0, k1, k2, k3;
        OTrk a = sym_option<Trk>("a", h0, k0); const OInt b = sym_option<int>("b", h1, k1); OTrkN c = sym_option<TrkN>("c", h2, k2); OBool d = sym_option<bool>("d", h3, k3);
        const u32 res = vp_u32("res"); unsigned calls = 0;
        auto f = [&](Trk& x, const int& y, TrkN&& z, bool& w) { ++calls; VP_CHECK(keyof<Trk>(x) == k0 && keyof<int>(y) == k1 && keyof<TrkN>(z) == k2 && keyof<bool>(w) == k3); return res; };
        auto r = opt::zip_with(f, a, b, move(c), d);
        const bool all = bool(h0 & h1 & h2 & h3);
        VP_CHECK(calls == (all ? 1u : 0u)); VP_CHECK(r == (all ? opt::option<u32>(res) : opt::none));
        auto v = [&](const Trk& x, int y) { ++calls; VP_CHECK(keyof<Trk>(x) == k0 && u32(y) == u32(k1)); };
        opt::zip_with(v, a, b);
        VP_CHECK(calls == (all ? 1u : 0u) + ((h0 & h1) ? 1u : 0u));
        expect<Trk>(a, h0, k0); expect<int>(b, h1, k1); expect<TrkN>(c, h2, k2); expect<bool>(d, h3, k3);
    }
    balanced();
}

// a predicate is given an lvalue, so one that takes its parameter by value leaves the contained value alone
template<class T> void predicate_by_value() {
    using O = opt::option<T>;
    {
        bool h; u64 k; O o = sym_option<T>("o", h, k);
        const bool yes = vp_fork_(vp_bool("yes")); unsigned calls = 0;
        auto pred = [&](T x) { ++calls; VP_CHECK(keyof<T>(x) == k); return yes; };
        auto strict = [&](auto&& x) { static_assert(std::is_lvalue_reference_v<decltype(x)>); ++calls; VP_CHECK(keyof<T>(x) == k); return yes; };
        switch (vp_choice(9, "op")) {
        case 0: { O r = move(o).filter(pred); expect<T>(r, h & yes, k); VP_CHECK(o.has_value() == h); if (!yes) expect<T>(o, h, k); break; }
        case 1: { O r = o.filter(pred); expect<T>(r, h & yes, k); expect<T>(o, h, k); break; }
        case 2: { O r = static_cast<const O&>(o).filter(pred); expect<T>(r, h & yes, k); expect<T>(o, h, k); break; }
        case 3: { O r = static_cast<const O&&>(o).filter(pred); expect<T>(r, h & yes, k); expect<T>(o, h, k); break; }
        case 4: { O r = o.take_if(pred); expect<T>(r, h & yes, k); expect<T>(o, h & !yes, k); break; }
        case 5: { O r = move(o).filter(strict); expect<T>(r, h & yes, k); break; }
        case 6: { O r = static_cast<const O&&>(o).filter(strict); expect<T>(r, h & yes, k); break; }
        case 7: { O r = o.take_if(strict); expect<T>(r, h & yes, k); break; }
        default: { o.inspect(pred); expect<T>(o, h, k); break; }
        }
        VP_CHECK(calls == (h ? 1u : 0u));
    }
    balanced();
}
#define W(N, T) VP_HARNESS(C09, byvalue_##N) { predicate_by_value<T>(); }
W(int, int) W(Trk, Trk) W(TrkN, TrkN) W(PairTB, PairTB) W(string, std::string) W(Sp0000, Sp0000) W(OTrk, OTrk)
