// Every operation of the interface in every value category.
#pragma once
#include "ops.hpp"
#include <string>
using std::move;
template<class T> struct Wrap { T t; bool moved; Wrap(const T& x) : t(x), moved(false) {} Wrap(T&& x) : t(move(x)), moved(true) {} };
template<class T> struct WrapM { T t; bool moved; WrapM(T&& x) : t(move(x)), moved(true) {} };
template<class T> using WrapFor = std::conditional_t<copyable<T>, Wrap<T>, WrapM<T>>;
struct NullStream { unsigned n = 0; template<class T, std::size_t = sizeof(Gen<T>)> NullStream& operator<<(const T&) { ++n; return *this; } };
#define FWD static_cast<O>(o)
#define FX static_cast<decltype(x)>(x)
enum Effect { keeps, yields };                       // the contained object is only looked at / is handed on

// operations that look at the value
template<class O> void observe(std::remove_reference_t<O>& o, bool has, u64 k, unsigned op) {
    using V = std::remove_const_t<std::remove_reference_t<O>>; using T = typename V::value_type;
    const u64 alt = ~k;
    const T* const at = o.ptr_or_null();
    auto see = [&](const T& v) { VP_CHECK(std::addressof(v) == at); return keyof<T>(v); };
    switch (op) {
    case 0: { auto r = FWD.map([&](auto&& x) { return see(x); }); VP_CHECK(r.has_value() == has); if (has) VP_CHECK(*r == k); break; }
    case 1: { auto r = FWD.and_then([&](auto&& x) { return opt::option<u64>(see(x)); }); VP_CHECK(r.has_value() == has); if (has) VP_CHECK(*r == k); break; }
    case 2: { VP_CHECK(FWD.map_or(alt, [&](auto&& x) { return see(x); }) == (has ? k : alt)); break; }
    case 3: { VP_CHECK(FWD.map_or_else([&] { return alt; }, [&](auto&& x) { return see(x); }) == (has ? k : alt)); break; }
    case 4: { VP_CHECK(FWD.has_value_and([&](auto&& x) { return see(x) == k; }) == has); break; }
    case 5: { auto&& r = FWD.inspect([&](auto&& x) { see(x); }); VP_CHECK(std::addressof(r) == std::addressof(o)); break; }
    case 6: { auto r = opt::zip_with([&](auto&& x, auto&&) { return see(x); }, FWD, opt::option<u32>(1)); VP_CHECK(r.has_value() == has); break; }
    case 7: { auto r = opt::zip(opt::option<u32>(), opt::option<u8>(u8(1))); VP_CHECK(!r.has_value()); opt::zip_with([&](auto&& x) { see(x); }, FWD); break; }
    case 8: { if (!has) break; auto&& a = FWD.get(); auto&& b = *FWD; auto&& c = FWD.value(); auto&& d = FWD.value_or_throw(); auto&& e = FWD.get_unchecked();
              static_assert(std::is_same_v<decltype(a), decltype(b)> && std::is_same_v<decltype(a), decltype(c)> && std::is_same_v<decltype(a), decltype(e)> && std::is_same_v<decltype(a), decltype(d)>);
              static_assert(std::is_rvalue_reference_v<decltype(a)> == !std::is_lvalue_reference_v<O>);
              VP_CHECK(std::addressof(a) == at && std::addressof(b) == at && std::addressof(c) == at && std::addressof(d) == at && std::addressof(e) == at); break; }
    case 9: { VP_CHECK((o == opt::none) == !has && (opt::none != o) == has && (o.begin() == o.end()) == !has && bool(o) == has); NullStream s; s << opt::io(o); VP_CHECK(s.n == unsigned(has)); s << opt::io(o, alt); VP_CHECK(s.n == unsigned(has) + 1); break; }
    case 10: { if constexpr (copyable<T> || std::is_same_v<O, V&&>) { V r = FWD.filter([&](auto& x) { see(x); return false; }); VP_CHECK(!r.has_value()); } break; }     // not handed on: not moved
    default: { unsigned n = 0; for (auto& x : o) n += see(x) == k; VP_CHECK(n == unsigned(has)); VP_CHECK(has ? std::addressof(*o.begin()) == at && o.operator->() == at : true); break; }
    }
}
constexpr unsigned n_observe = 12;
// operations that hand the value on: copied from an lvalue, moved from an rvalue
template<class O> void hand_on(std::remove_reference_t<O>& o, bool has, u64 k, unsigned op) {
    using V = std::remove_const_t<std::remove_reference_t<O>>; using T = typename V::value_type;
    const u64 f = fresh<T>("f");
    auto want = [&](const V& r, bool h) { expect<T>(r, h, k); };
    switch (op) {
    case 0: { T r = FWD.value_or(mk<T>(f)); VP_CHECK(keyof<T>(r) == (has ? k : f)); break; }
    case 1: { T r = FWD.value_or_construct(mk<T>(f)); VP_CHECK(keyof<T>(r) == (has ? k : f)); break; }
    case 2: { auto r = FWD.map([](auto&& x) { return T(FX); }); static_assert(std::is_same_v<decltype(r), V>); want(r, has); break; }
    case 3: { auto r = FWD.and_then([](auto&& x) { return V(FX); }); want(r, has); break; }
    case 4: { V r = FWD.filter([](auto&) { return true; }); want(r, has); break; }
    case 5: { T r = FWD.map_or(mk<T>(f), [](auto&& x) { return T(FX); }); VP_CHECK(keyof<T>(r) == (has ? k : f)); break; }
    case 6: { T r = FWD.map_or_else([&] { return mk<T>(f); }, [](auto&& x) { return T(FX); }); VP_CHECK(keyof<T>(r) == (has ? k : f)); break; }
    case 7: { V r = FWD.or_else([&] { return V(mk<T>(f)); }); expect<T>(r, true, has ? k : f); break; }
    case 8: { auto r = opt::zip(FWD, opt::option<u32>(7)); VP_CHECK(r.has_value() == has); if (has) VP_CHECK(keyof<T>(std::get<0>(*r)) == k && std::get<1>(*r) == 7); break; }
    case 9: { auto r = opt::zip_with([](auto&& x, u32 y) { return std::pair<T, u32>(FX, y); }, FWD, opt::option<u32>(7)); VP_CHECK(r.has_value() == has); if (has) VP_CHECK(keyof<T>(r->first) == k && r->second == 7); break; }
    case 10: { V r(FWD); want(r, has); break; }
    case 11: { V r; r = FWD; want(r, has); break; }
    case 12: { V r(mk<T>(f)); r = FWD; want(r, has); break; }
    case 13: { opt::option<WrapFor<T>> r(FWD); VP_CHECK(r.has_value() == has); if (has) VP_CHECK(keyof<T>(r->t) == k && r->moved == std::is_same_v<O, V&&>); break; }
    case 14: { auto r = opt::option_cast<WrapFor<T>>(FWD); VP_CHECK(r.has_value() == has); if (has) VP_CHECK(keyof<T>(r->t) == k && r->moved == std::is_same_v<O, V&&>); break; }
    case 15: { auto r = opt::make_option(FWD); static_assert(std::is_same_v<decltype(r), opt::option<V>>); VP_CHECK(r.has_value()); want(*r, has); break; }
    case 16: { T r = FWD | mk<T>(f); VP_CHECK(keyof<T>(r) == (has ? k : f)); break; }
    case 17: { V r = FWD | V(mk<T>(f)); expect<T>(r, true, has ? k : f); break; }
    case 18: { if constexpr (copyable<T> || std::is_same_v<O, V&&>) { V r = opt::option<u32>(1) & FWD; want(r, has); } break; }
    case 19: { V r = FWD ^ V(); want(r, has); break; }
    case 20: { V r = V() ^ FWD; want(r, has); break; }
    case 21: { V r = V() | FWD; want(r, has); break; }
    case 22: { V r; r |= FWD; want(r, has); break; }
    case 23: { if (!has) break; T r = FWD.get(); VP_CHECK(keyof<T>(r) == k); break; }
    case 24: { if (!has) break; T r = *FWD; VP_CHECK(keyof<T>(r) == k); break; }
    case 25: { if (!has) break; T r = FWD.value(); VP_CHECK(keyof<T>(r) == k); break; }
    case 26: { if (!has) break; T r = FWD.value_or_throw(); VP_CHECK(keyof<T>(r) == k); break; }
    default: { if (!has) break; T r = FWD.get_unchecked(); VP_CHECK(keyof<T>(r) == k); break; }
    }
}
constexpr unsigned n_hand = 28;
template<class T> constexpr bool counted = std::is_base_of_v<Trk, T>;
template<class T> constexpr bool no_padding = std::is_same_v<T, TrkN> || std::is_same_v<T, double> || std::is_same_v<T, bool> || std::is_same_v<T, int*> || std::is_same_v<T, UPtr> || std::is_same_v<T, OBool> || std::is_same_v<T, Color>;
template<class O> void run(std::remove_const_t<std::remove_reference_t<O>>& o, bool has, u64 k) {
    using V = std::remove_const_t<std::remove_reference_t<O>>; using T = typename V::value_type;
    constexpr bool rvalue = std::is_same_v<O, V&&>;
    const bool look = vp_fork_(vp_bool("look"));
    const unsigned op = vp_choice(look ? n_observe : n_hand, "op");
    unsigned char before[sizeof(V)], after[sizeof(V)];
    if constexpr (no_padding<T>) if (has) std::memcpy(before, static_cast<const void*>(&o), sizeof(V));
    const u32* data = nullptr;
    if constexpr (std::is_same_v<T, Vec>) if (has) data = o->data();
    const Log l = g_log;
    if (look) observe<O>(o, has, k, op);
    else if constexpr (copyable<T> || rvalue) hand_on<O>(o, has, k, op);
    const Log d = since(l);
    VP_CHECK(o.has_value() == has);
    const bool handed = rvalue && !look && has;
    if (!handed) {                                                   // bit for bit as before
        expect<T>(o, has, k);
        if constexpr (no_padding<T>) if (has) { std::memcpy(after, static_cast<const void*>(std::addressof(o)), sizeof(V)); for (std::size_t i = 0; i < sizeof(V); ++i) VP_CHECK(before[i] == after[i]); }
        if constexpr (std::is_same_v<T, Vec>) if (has) VP_CHECK(o->data() == data);
    }
    if (look) VP_CHECK(d.ctor + d.cctor + d.mctor + d.cassign + d.massign == 0);
    if constexpr (counted<T>) {
        if (handed) { VP_CHECK(o->k == MOVED && d.cctor == 0 && d.cassign == 0); }
        if (rvalue) VP_CHECK(d.cctor == 0 && d.cassign == 0);
        if (!rvalue && !look && has && copyable<T>) VP_CHECK(d.cctor + d.cassign == 1);      // copied exactly once
    }
    if constexpr (std::is_same_v<T, UPtr>) if (handed) VP_CHECK(*o == nullptr);
    if constexpr (std::is_same_v<T, Vec>) if (handed) VP_CHECK(o->empty());
}
template<class T> void all() {
    {
        using O = opt::option<T>;
        bool has; u64 k; O o = sym_option<T>("o", has, k);
        switch (vp_choice(4, "cat")) {
        case 0: run<O&>(o, has, k); break;
        case 1: run<const O&>(o, has, k); break;
        case 2: run<O&&>(o, has, k); break;
        default: run<const O&&>(o, has, k); break;
        }
    }
    balanced();
}
// operations that take the value out of an option they are given as an lvalue, or give it a new one: moved, never copied
template<class T> void drain() {
    {
        using O = opt::option<T>;
        bool has; u64 k; O o = sym_option<T>("o", has, k);
        const u64 w = fresh<T>("w"); T v = mk<T>(w); const bool yes = vp_fork_(vp_bool("yes"));
        const Log l = g_log;
        auto no_copy = [&] { const Log d = since(l); if constexpr (counted<T>) VP_CHECK(d.cctor == 0 && d.cassign == 0); };
        switch (vp_choice(15, "op")) {
        case 0: { O r = o.take(); no_copy(); expect<T>(r, has, k); expect<T>(o, false, 0); break; }
        case 1: { O r = o.take_if([&](T&) { return yes; }); no_copy(); expect<T>(r, has && yes, k); expect<T>(o, has && !yes, k); break; }
        case 2: { O r; r = o.take(); no_copy(); expect<T>(r, has, k); expect<T>(o, false, 0); break; }
        case 3: { O r(mk<T>(w)); r = o.take_if([&](T&) { return yes; }); no_copy(); expect<T>(r, has && yes, k); expect<T>(o, has && !yes, k); break; }
        case 4: { O r(mk<T>(w)); r.swap(o); no_copy(); expect<T>(r, has, k); expect<T>(o, true, w); break; }
        case 5: { O r(mk<T>(w)); opt::swap(o, r); no_copy(); expect<T>(r, has, k); expect<T>(o, true, w); break; }
        case 6: { O r; std::swap(o, r); no_copy(); expect<T>(r, has, k); expect<T>(o, false, 0); break; }
        case 7: { o.emplace(move(v)); no_copy(); expect<T>(o, true, w); break; }
        case 8: { o.try_emplace(move(v)); no_copy(); expect<T>(o, true, has ? k : w); break; }
        case 9: { if constexpr (std::is_constructible_v<O, T&&>) { o = move(v); no_copy(); expect<T>(o, true, w); } break; }
        case 10: { T x = o.take().value_or(move(v)); no_copy(); VP_CHECK(keyof<T>(x) == (has ? k : w)); break; }
        case 11: { o |= move(v); no_copy(); expect<T>(o, true, has ? k : w); break; }
        case 12: { O q(move(v)); no_copy(); expect<T>(q, true, w); break; }
        case 13: { T x = o.take().map_or_else([&]() -> T { return move(v); }, [](T&& y) -> T { return move(y); }); no_copy(); VP_CHECK(keyof<T>(x) == (has ? k : w)); break; }
        default: { O n = o.take().or_else([&] { return O(move(v)); }); no_copy(); expect<T>(n, true, has ? k : w); break; }
        }
    }
    balanced();
}
#define X(N, T) VP_HARNESS(C22, cat_##N) { all<T>(); } VP_HARNESS(C22, drain_##N) { drain<T>(); }
