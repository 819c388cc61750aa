// configs: A B D
// configs-thorough: A B C D N
// bound: every engagement pattern and all values of 1 to 4 operands, each operand as lvalue, const lvalue, rvalue or const rvalue (all 256 combinations for the pairs, a rotating selection for three and four operands); get/unzip on tuples, pairs and arrays of up to 4 elements by index and by type; variants of 1 to 4 alternatives including the valueless state
#include "ops.hpp"
using std::move;
// forwards o in value category Q (0 lvalue, 1 const lvalue, 2 rvalue, 3 const rvalue)
template<int Q, class O> decltype(auto) as(O& o) { if constexpr (Q == 0) return static_cast<O&>(o); else if constexpr (Q == 1) return static_cast<const O&>(o); else if constexpr (Q == 2) return static_cast<O&&>(o); else return static_cast<const O&&>(o); }
template<class F> void qual(F f) { switch (vp_choice(4, "q")) { case 0: f(std::integral_constant<int, 0>()); break; case 1: f(std::integral_constant<int, 1>()); break; case 2: f(std::integral_constant<int, 2>()); break; default: f(std::integral_constant<int, 3>()); } }
template<class T> struct In { bool h; u64 k; opt::option<T> o; In(const char* n) : o(sym_option<T>(n, h, k)) {} };
// after an operation: engagement never changes; the value is taken only from a non-const rvalue that took part
template<int Q, class T> void source(const In<T>& i, bool used) { VP_CHECK(i.o.has_value() == i.h); if (i.h && (Q != 2 || !used)) VP_CHECK(keyof<T>(*i.o) == i.k); if constexpr (std::is_same_v<T, Trk>) { if (i.h && Q == 2 && used) VP_CHECK(i.o->k == MOVED); } }
template<class A, class B> void zip2() {
    {
        In<A> a("a"); In<B> b("b");
        qual([&](auto q) { qual([&](auto r) { constexpr int QA = decltype(q)::value, QB = decltype(r)::value; const Log l0 = g_log;
            auto z = opt::zip(as<QA>(a.o), as<QB>(b.o)); static_assert(std::is_same_v<decltype(z), opt::option<std::tuple<A, B>>>);
            const bool all = a.h && b.h; VP_CHECK(z.has_value() == all); if (all) { VP_CHECK(keyof<A>(std::get<0>(*z)) == a.k && keyof<B>(std::get<1>(*z)) == b.k); }
            const Log d = since(l0); VP_CHECK(d.cctor == (all ? long(QA != 2 && std::is_same_v<A, Trk>) + long(QB != 2 && std::is_same_v<B, Trk>) : 0));
            source<QA>(a, all); source<QB>(b, all); }); });
    }
    balanced();
}
VP_HARNESS(C15, zip_trk_u32) { zip2<Trk, u32>(); }
VP_HARNESS(C15, zip_bool_trk) { zip2<bool, Trk>(); }
VP_HARNESS(C15, zip_trk_trk) { zip2<Trk, Trk>(); }
VP_HARNESS(C15, zip_amp) { zip2<Amp, AmpN>(); }
VP_HARNESS(C15, zip_oint_float) { zip2<OInt, float>(); }
VP_HARNESS(C15, zip_str_sview) { zip2<std::string, std::string_view>(); }
template<int Q> void zip134() {
    {
        constexpr int R = (Q + 1) % 4, S = (Q + 2) % 4, T = (Q + 3) % 4;
        In<u32> a("a"); In<Trk> b("b"); In<bool> c("c"); In<u8> d("d");
        switch (vp_choice(4, "n")) {
        case 0: { auto z = opt::zip(as<Q>(b.o)); VP_CHECK(z.has_value() == b.h); if (b.h) VP_CHECK(keyof<Trk>(std::get<0>(*z)) == b.k); source<Q>(b, b.h); break; }
        case 1: { auto z = opt::zip(as<Q>(a.o), as<R>(b.o), as<S>(c.o)); const bool all = a.h && b.h && c.h; VP_CHECK(z.has_value() == all); if (all) VP_CHECK(std::get<0>(*z) == a.k && std::get<1>(*z).k == b.k && std::get<2>(*z) == (c.k != 0)); source<Q>(a, all); source<R>(b, all); source<S>(c, all); break; }
        case 2: { auto z = opt::zip(as<Q>(c.o), as<R>(a.o), as<S>(d.o), as<T>(b.o)); const bool all = a.h && b.h && c.h && d.h; VP_CHECK(z.has_value() == all); if (all) VP_CHECK(std::get<0>(*z) == (c.k != 0) && std::get<1>(*z) == a.k && std::get<2>(*z) == d.k && std::get<3>(*z).k == b.k); source<T>(b, all); source<Q>(c, all); source<R>(a, all); source<S>(d, all); break; }
        default: { opt::option<u32&> r; u32 x = vp_u32("x"); if (a.h) r = x; auto z = opt::zip(r, as<Q>(b.o)); VP_CHECK(z.has_value() == (a.h && b.h)); if (a.h && b.h) VP_CHECK(std::addressof(std::get<0>(*z)) == std::addressof(x) && std::get<1>(*z).k == b.k); VP_CHECK(r.ptr_or_null() == (a.h ? std::addressof(x) : nullptr)); break; }
        }
    }
    balanced();
}
VP_HARNESS(C15, zip_n) { zip134<0>(); zip134<1>(); }
VP_HARNESS(C15, zip_m) { zip134<2>(); zip134<3>(); }
// zip_with: called once with the values in their value category, exactly when all are engaged
template<int Q, class T> constexpr bool cat = true;
template<class A, class B> void zw2() {
    {
        In<A> a("a"); In<B> b("b"); const u32 res = vp_u32("res"); unsigned calls = 0; const bool all = a.h && b.h;
        qual([&](auto q) { qual([&](auto r) { constexpr int QA = decltype(q)::value, QB = decltype(r)::value; calls = 0; const Log l0 = g_log;
            auto fn = [&](auto&& x, auto&& y) { ++calls;
                static_assert(std::is_same_v<decltype(x), decltype(as<QA>(std::declval<A&>()))&&>); static_assert(std::is_same_v<decltype(y), decltype(as<QB>(std::declval<B&>()))&&>);
                VP_CHECK(std::addressof(x) == a.o.ptr_or_null() && std::addressof(y) == b.o.ptr_or_null()); VP_CHECK(keyof<A>(x) == a.k && keyof<B>(y) == b.k); return res; };
            auto z = opt::zip_with(fn, as<QA>(a.o), as<QB>(b.o)); static_assert(std::is_same_v<decltype(z), opt::option<u32>>);
            VP_CHECK(z.has_value() == all); VP_CHECK(calls == (all ? 1u : 0u)); if (all) VP_CHECK(*z == res);
            auto v = [&](auto&& x, auto&& y) { ++calls; VP_CHECK(keyof<A>(x) == a.k && keyof<B>(y) == b.k); }; opt::zip_with(v, as<QA>(a.o), as<QB>(b.o)); VP_CHECK(calls == (all ? 2u : 0u));
            const Log d = since(l0); VP_CHECK(d.cctor == 0 && d.mctor == 0 && d.ctor == 0 && d.massign == 0 && d.cassign == 0);
            source<0>(a, all); source<0>(b, all); }); });
        u32 x = 0; auto ref = opt::zip_with([&](A&, B&) -> u32& { return x; }, a.o, b.o); static_assert(std::is_same_v<decltype(ref), opt::option<u32&>>); VP_CHECK(ref.ptr_or_null() == (all ? std::addressof(x) : nullptr));
        auto mo = opt::zip_with([&](A&& p, const B&) { return A(move(p)); }, move(a.o), b.o); expect<A>(mo, all, a.k); source<2>(a, all); source<0>(b, all);
    }
    balanced();
}
VP_HARNESS(C15, zw_trk_u32) { zw2<Trk, u32>(); }
VP_HARNESS(C15, zw_amp) { zw2<Amp, AmpN>(); }
VP_HARNESS(C15, zw_trkm_bool) { zw2<TrkM, bool>(); }
VP_HARNESS(C15, zw_oint_ptr) { zw2<OInt, int*>(); }
VP_HARNESS(C15, zw_n) {
    In<u32> a("a"); In<bool> b("b"); In<u8> c("c"); In<u64> d("d"); unsigned calls = 0;
    auto z1 = opt::zip_with([&](u32 x) { ++calls; return x + 1; }, a.o); VP_CHECK(z1.has_value() == a.h && calls == (a.h ? 1u : 0u)); if (a.h) VP_CHECK(*z1 == u32(a.k) + 1);
    calls = 0; auto z3 = opt::zip_with([&](u32 x, bool y, u8 z) { ++calls; return x ^ (y ? z : 0u); }, a.o, b.o, move(c.o)); const bool abc = a.h && b.h && c.h; VP_CHECK(z3.has_value() == abc && calls == (abc ? 1u : 0u)); if (abc) VP_CHECK(*z3 == (u32(a.k) ^ (b.k ? u32(c.k) : 0u)));
    calls = 0; auto z4 = opt::zip_with([&](u8 p, u32 x, bool y, u64 z) { ++calls; return std::tuple<u8, u32, bool, u64>(p, x, y, z); }, c.o, a.o, b.o, d.o); const bool all = abc && d.h; VP_CHECK(z4.has_value() == all && calls == (all ? 1u : 0u)); if (all) VP_CHECK(*z4 == std::tuple<u8, u32, bool, u64>(u8(c.k), u32(a.k), b.k != 0, d.k));
    struct P { u32 v; u32 add(u32 o) const { return v + o; } }; opt::option<P> p; if (a.h) p = P{u32(a.k)}; opt::option<u32> o; if (d.h) o = u32(d.k);
    auto zm = opt::zip_with(&P::add, p, o); VP_CHECK(zm.has_value() == (a.h && d.h)); if (a.h && d.h) VP_CHECK(*zm == u32(a.k) + u32(d.k));
}
// unzip
template<class Tup, std::size_t I> using El = std::tuple_element_t<I, Tup>;
template<class A, class B, class Tup> void unz2() {
    {
        const bool h = vp_fork_(vp_bool("h")); const u64 ka = fresh<A>("a"), kb = fresh<B>("b"); opt::option<Tup> o; if (h) o.emplace(mk<A>(ka), mk<B>(kb));
        qual([&](auto q) { constexpr int Q = decltype(q)::value; const Log l0 = g_log;
            auto u = opt::unzip(as<Q>(o)); static_assert(std::is_same_v<decltype(std::get<0>(u)), opt::option<A>&>); static_assert(std::is_same_v<decltype(std::get<1>(u)), opt::option<B>&>);
            expect<A>(std::get<0>(u), h, ka); expect<B>(std::get<1>(u), h, kb); VP_CHECK(o.has_value() == h);
            if (Q == 2) VP_CHECK(since(l0).cctor == 0); else if (h) VP_CHECK(keyof<A>(std::get<0>(*o)) == ka && keyof<B>(std::get<1>(*o)) == kb); });
    }
    balanced();
}
VP_HARNESS(C15, unzip_pair_trk) { unz2<Trk, u32, std::pair<Trk, u32>>(); }
VP_HARNESS(C15, unzip_tuple_trk) { unz2<bool, Trk, std::tuple<bool, Trk>>(); }
VP_HARNESS(C15, unzip_pair_amp) { unz2<Amp, AmpN, std::pair<Amp, AmpN>>(); }
VP_HARNESS(C15, unzip_pair_bool) { unz2<bool, bool, std::pair<bool, bool>>(); }
VP_HARNESS(C15, unzip_tuple_opt) { unz2<OInt, OBool, std::tuple<OInt, OBool>>(); }
VP_HARNESS(C15, unzip_str) { unz2<std::string, Vec, std::pair<std::string, Vec>>(); }
VP_HARNESS(C15, unzip_moveonly) {
    { const bool h = vp_fork_(vp_bool("h")); const u64 a = fresh<TrkM>("a"), b = fresh<UPtr>("b"); opt::option<std::pair<TrkM, UPtr>> o; if (h) o.emplace(mk<TrkM>(a), mk<UPtr>(b)); auto u = opt::unzip(move(o)); expect<TrkM>(u.first, h, a); expect<UPtr>(u.second, h, b); VP_CHECK(o.has_value() == h); if (h) VP_CHECK(o->first.k == MOVED && !o->second); }
    balanced();
}
VP_HARNESS(C15, unzip_array) {
    const bool h = vp_fork_(vp_bool("h")); u32 v[4]; for (u32& x : v) x = vp_u32("v"); opt::option<std::array<u32, 4>> o; if (h) o = std::array<u32, 4>{{v[0], v[1], v[2], v[3]}};
    const auto& c = o; auto u = opt::unzip(c); static_assert(std::is_same_v<decltype(u), std::array<opt::option<u32>, 4>>); for (int i = 0; i < 4; ++i) expect<u32>(u[i], h, v[i]);
    auto w = opt::unzip(move(o)); for (int i = 0; i < 4; ++i) expect<u32>(w[i], h, v[i]);
    opt::option<std::array<bool, 3>> b; bool x[3]; for (bool& y : x) y = vp_bool("b"); if (h) b = std::array<bool, 3>{{x[0], x[1], x[2]}}; auto r = opt::unzip(b); for (int i = 0; i < 3; ++i) expect<bool>(r[i], h, x[i]);
    u32 s = vp_u32("s"); opt::option<std::tuple<u32&, float, u8, bool>> t; const u64 f = fresh<float>("f"); if (h) t.emplace(s, mk<float>(f), u8(v[0]), x[0]); auto q = opt::unzip(t); static_assert(std::is_same_v<decltype(q), std::tuple<opt::option<u32&>, opt::option<float>, opt::option<u8>, opt::option<bool>>>);
    VP_CHECK(std::get<0>(q).ptr_or_null() == (h ? std::addressof(s) : nullptr)); expect<float>(std::get<1>(q), h, f); expect<u8>(std::get<2>(q), h, u8(v[0])); expect<bool>(std::get<3>(q), h, x[0]);
    // zip and unzip are inverse
    In<u32> a("a"); In<bool> e("e"); auto z = opt::unzip(opt::zip(a.o, e.o)); const bool all = a.h && e.h; expect<u32>(std::get<0>(z), all, a.k); expect<bool>(std::get<1>(z), all, e.k);
}
// get on tuple-likes
template<int Q, class E> using Ref = decltype(as<Q>(std::declval<E&>()));
template<int Q, std::size_t I, class Tup, class E> void get1(opt::option<Tup>& o, bool h, u64 k) {
    auto r = opt::get<I>(as<Q>(o)); static_assert(std::is_same_v<decltype(r), opt::option<Ref<Q, E>>>); VP_CHECK(r.has_value() == h); VP_CHECK(o.has_value() == h);
    if (h) { VP_CHECK(r.ptr_or_null() == std::addressof(std::get<I>(*o))); VP_CHECK(keyof<E>(*r) == k); }
}
template<int Q, class E, class Tup> void getT(opt::option<Tup>& o, bool h, u64 k) {
    auto r = opt::get<E>(as<Q>(o)); static_assert(std::is_same_v<decltype(r), opt::option<Ref<Q, E>>>); VP_CHECK(r.has_value() == h); VP_CHECK(o.has_value() == h);
    if (h) { VP_CHECK(r.ptr_or_null() == std::addressof(std::get<E>(*o))); VP_CHECK(keyof<E>(*r) == k); }
}
template<class Tup, class A, class B> void get2() {
    {
        const bool h = vp_fork_(vp_bool("h")); const u64 ka = fresh<A>("a"), kb = fresh<B>("b"); opt::option<Tup> o; if (h) o.emplace(mk<A>(ka), mk<B>(kb)); const Log l0 = g_log;
        get1<0, 0, Tup, A>(o, h, ka); get1<1, 0, Tup, A>(o, h, ka); get1<2, 0, Tup, A>(o, h, ka); get1<3, 0, Tup, A>(o, h, ka);
        get1<0, 1, Tup, B>(o, h, kb); get1<1, 1, Tup, B>(o, h, kb); get1<2, 1, Tup, B>(o, h, kb); get1<3, 1, Tup, B>(o, h, kb);
        if constexpr (!std::is_same_v<A, B>) {
            getT<0, A>(o, h, ka); getT<1, A>(o, h, ka); getT<2, A>(o, h, ka); getT<3, A>(o, h, ka); getT<0, B>(o, h, kb); getT<1, B>(o, h, kb); getT<2, B>(o, h, kb); getT<3, B>(o, h, kb);
        }
        const Log d = since(l0); VP_CHECK(d.cctor == 0 && d.mctor == 0);
        if (h) { const u64 w = fresh<A>("w"); *opt::get<0>(o) = mk<A>(w); VP_CHECK(keyof<A>(std::get<0>(*o)) == w && keyof<B>(std::get<1>(*o)) == kb); VP_CHECK(o.has_value()); A t = *opt::get<0>(move(o)); VP_CHECK(keyof<A>(t) == w); }
    }
    balanced();
}
VP_HARNESS(C15, get_pair_trk) { get2<std::pair<Trk, u32>, Trk, u32>(); }
VP_HARNESS(C15, get_tuple_bool) { get2<std::tuple<bool, u64>, bool, u64>(); }
VP_HARNESS(C15, get_pair_amp) { get2<std::pair<Amp, AmpN>, Amp, AmpN>(); }
VP_HARNESS(C15, get_pair_same) { get2<std::pair<bool, bool>, bool, bool>(); }
VP_HARNESS(C15, get_tuple_m) { get2<std::tuple<TrkM, float>, TrkM, float>(); }
VP_HARNESS(C15, get_tuple_str) { get2<std::tuple<std::string, int*>, std::string, int*>(); }
VP_HARNESS(C15, get_array) {
    const bool h = vp_fork_(vp_bool("h")); u64 k[3]; for (u64& x : k) x = fresh<float>("x"); opt::option<std::array<float, 3>> o; if (h) o = std::array<float, 3>{{mk<float>(k[0]), mk<float>(k[1]), mk<float>(k[2])}}; using A = std::array<float, 3>;
    get1<0, 0, A, float>(o, h, k[0]); get1<1, 1, A, float>(o, h, k[1]); get1<2, 2, A, float>(o, h, k[2]); get1<3, 2, A, float>(o, h, k[2]); get1<2, 1, A, float>(o, h, k[1]); get1<3, 0, A, float>(o, h, k[0]);
    u32 x = vp_u32("x"); opt::option<std::tuple<u32&, u8>> t; if (h) t.emplace(x, u8(1)); auto r = opt::get<0>(t); static_assert(std::is_same_v<decltype(r), opt::option<u32&>>); VP_CHECK(r.ptr_or_null() == (h ? std::addressof(x) : nullptr)); auto c = opt::get<0>(std::as_const(t)); VP_CHECK(c.ptr_or_null() == (h ? std::addressof(x) : nullptr)); auto b = opt::get<u8>(t); VP_CHECK(b.has_value() == h);
}
// get on variants
template<int Q, std::size_t I, class V> void var1(V& v, std::size_t active) {
    using E = std::variant_alternative_t<I, V>; E* const p = std::get_if<I>(std::addressof(v)); VP_CHECK((p != nullptr) == (active == I));
    auto r = opt::get<I>(as<Q>(v)); static_assert(std::is_same_v<decltype(r), opt::option<Ref<Q, E>>>); VP_CHECK(r.ptr_or_null() == p); VP_CHECK(r.has_value() == (active == I)); VP_CHECK(v.index() == active);
}
template<int Q, class E, class V> void varT(V& v, std::size_t active, std::size_t i) {
    auto r = opt::get<E>(as<Q>(v)); static_assert(std::is_same_v<decltype(r), opt::option<Ref<Q, E>>>); VP_CHECK(r.ptr_or_null() == std::get_if<E>(std::addressof(v))); VP_CHECK(r.has_value() == (active == i)); VP_CHECK(v.index() == active);
}
template<int Q> void var4() {
    {
        using V = std::variant<u32, Trk, bool, std::string>; V v; const std::size_t a = vp_choice(4, "active"); u64 k = 0;
        switch (a) { case 0: k = fresh<u32>("k"); v.emplace<0>(u32(k)); break; case 1: k = fresh<Trk>("k"); v.emplace<1>(u32(k)); break; case 2: k = fresh<bool>("k"); v.emplace<2>(k != 0); break; default: k = fresh<std::string>("k"); v.emplace<3>(mk<std::string>(k)); }
        const Log l0 = g_log;
        var1<Q, 0>(v, a); var1<Q, 1>(v, a); var1<Q, 2>(v, a); var1<Q, 3>(v, a); varT<Q, u32>(v, a, 0); varT<Q, Trk>(v, a, 1); varT<Q, bool>(v, a, 2); varT<Q, std::string>(v, a, 3);
        const Log d = since(l0); VP_CHECK(d.cctor == 0 && d.mctor == 0 && d.dtor == 0);
        switch (a) { case 0: VP_CHECK(std::get<0>(v) == k); break; case 1: { VP_CHECK(std::get<1>(v).k == k); auto t = opt::get<1>(v); const u64 w = fresh<Trk>("w"); t->k = u32(w); VP_CHECK(std::get<1>(v).k == w); break; } case 2: VP_CHECK(std::get<2>(v) == (k != 0)); break; default: VP_CHECK(keyof<std::string>(std::get<3>(v)) == k); }
    }
    balanced();
}
VP_HARNESS(C15, variant_l) { var4<0>(); }
VP_HARNESS(C15, variant_cl) { var4<1>(); }
VP_HARNESS(C15, variant_r) { var4<2>(); }
VP_HARNESS(C15, variant_cr) { var4<3>(); }
struct Thrower { u32 x; Thrower(int) { throw Boom{3}; } Thrower(const Thrower&) { throw Boom{3}; } };
VP_HARNESS(C15, variant_other) {
    std::variant<u8> one(vp_u8("x")); var1<0, 0>(one, 0); var1<3, 0>(one, 0); varT<2, u8>(one, 0, 0); var1<1, 0>(one, 0);
    std::variant<u32, u32, int*> dup; const unsigned a = vp_choice(3, "a"); if (a == 0) dup.emplace<0>(1u); else if (a == 1) dup.emplace<1>(2u); else dup.emplace<2>(nullptr); var1<0, 0>(dup, a); var1<1, 1>(dup, a); var1<2, 1>(dup, a); var1<0, 2>(dup, a); varT<3, int*>(dup, a, 2); varT<0, int*>(dup, a, 2);
    std::variant<u32, Thrower> t; bool threw = false; if (vp_fork_(vp_bool("throw"))) { try { t.emplace<1>(1); } catch (const Boom&) { threw = true; } VP_CHECK(threw && t.valueless_by_exception()); }
    const std::size_t act = threw ? std::variant_npos : 0; var1<0, 0>(t, act); var1<1, 1>(t, act); var1<2, 0>(t, act); var1<3, 1>(t, act); varT<0, u32>(t, act, 0); varT<1, Thrower>(t, act, 1); varT<2, Thrower>(t, act, 1);
}
// flatten
VP_HARNESS(C15, flatten) {
    {
        const unsigned s = vp_choice(4, "s"); const u64 k = fresh<Trk>("k"); using O3 = opt::option<opt::option<opt::option<Trk>>>; O3 o; if (s > 0) { o.emplace(); if (s > 1) { o->emplace(); if (s > 2) (*o)->emplace(mk<Trk>(k)); } }
        Trk* p = s == 3 ? &***o : nullptr;
        auto l = opt::flatten(o); static_assert(std::is_same_v<decltype(l), opt::option<Trk&>>); VP_CHECK(l.ptr_or_null() == p); auto c = opt::flatten(std::as_const(o)); static_assert(std::is_same_v<decltype(c), opt::option<const Trk&>>); VP_CHECK(c.ptr_or_null() == p);
        const Log l0 = g_log; auto r = opt::flatten(move(o)); static_assert(std::is_same_v<decltype(r), opt::option<Trk>>); expect<Trk>(r, s == 3, k); VP_CHECK(since(l0).cctor == 0);
        VP_CHECK(o.has_value() == (s > 0)); if (s > 0) { VP_CHECK(o->has_value() == (s > 1)); if (s > 1) VP_CHECK((*o)->has_value() == (s > 2)); if (s > 2) VP_CHECK((**o)->k == MOVED); }
        u32 x = 1; opt::option<opt::option<u32&>> rr; if (s > 0) { rr.emplace(); if (s > 1) *rr = x; } auto f = opt::flatten(rr); static_assert(std::is_same_v<decltype(f), opt::option<u32&>>); VP_CHECK(f.ptr_or_null() == (s > 1 ? std::addressof(x) : nullptr)); auto g = opt::flatten(move(rr)); static_assert(std::is_same_v<decltype(g), opt::option<u32&>>); VP_CHECK(g.ptr_or_null() == (s > 1 ? std::addressof(x) : nullptr));
    }
    balanced();
}
