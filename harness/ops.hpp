// Every way to build, read and change an option, driven by symbolic choices, next to a reference model (has, k).
#pragma once
#include "types.hpp"

template<class T> inline constexpr bool copyable = std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>;
template<class T> inline constexpr bool movable = std::is_move_constructible_v<T> && std::is_move_assignable_v<T>;

template<class T> constexpr unsigned n_routes = copyable<T> ? 22 : 13;
// an engaged option holding key k, built by route r
template<class T> opt::option<T> build(unsigned r, u64 k, u64 other) {
    using O = opt::option<T>;
    switch (r) {
    case 0: return O(mk<T>(k));
    case 1: return O(std::in_place, mk<T>(k));
    case 2: { O o; o.emplace(mk<T>(k)); return o; }
    case 3: { O o; o = mk<T>(k); return o; }
    case 4: { O o = opt::none; O p(mk<T>(k)); o = std::move(p); return o; }
    case 5: { O p(mk<T>(k)); O o(std::move(p)); return o; }
    case 6: { O o(mk<T>(other)); o = mk<T>(k); return o; }
    case 7: { O o(mk<T>(other)); O p(mk<T>(k)); o = std::move(p); return o; }
    case 8: { O o; O p(mk<T>(k)); o.swap(p); VP_CHECK(!p.has_value()); return o; }
    case 9: { O p(mk<T>(k)); O o = p.take(); VP_CHECK(!p.has_value()); return o; }
    case 10: { O o; T& ref = o.try_emplace(mk<T>(k)); VP_CHECK(std::addressof(ref) == std::addressof(o.get())); return o; }
    case 11: { O o(mk<T>(other)); T& ref = o.emplace(mk<T>(k)); VP_CHECK(std::addressof(ref) == std::addressof(o.get())); return o; }
    case 12: { return opt::make_option<T>(mk<T>(k)); }
    default: break;
    }
    if constexpr (copyable<T>) {
        switch (r) {
        case 13: { const T v = mk<T>(k); O o(v); VP_CHECK(keyof<T>(v) == k); return o; }
        case 14: { const T v = mk<T>(k); O o; o = v; VP_CHECK(keyof<T>(v) == k); return o; }
        case 15: { const O p(mk<T>(k)); O o(p); expect<T>(p, true, k); return o; }
        case 16: { const O p(mk<T>(k)); O o; o = p; expect<T>(p, true, k); return o; }
        case 17: { const O p(mk<T>(k)); O o(mk<T>(other)); o = p; expect<T>(p, true, k); return o; }
        case 18: { const T v = mk<T>(k); O o(mk<T>(other)); o = v; VP_CHECK(keyof<T>(v) == k); return o; }
        case 19: { T v = mk<T>(k); O o(std::in_place, v); VP_CHECK(keyof<T>(v) == k); return o; }
        case 20: { O p(mk<T>(k)); O o = p; p.reset(); return o; }
        default: { O p(mk<T>(k)); O o(p); p = mk<T>(other); expect<T>(p, true, other); return o; }
        }
    }
    return O(mk<T>(k));
}
constexpr unsigned n_empty_routes = 8;
template<class T> opt::option<T> build_empty(unsigned r, u64 other) {
    using O = opt::option<T>;
    switch (r) {
    case 0: return O();
    case 1: return opt::none;
    case 2: { O o(mk<T>(other)); o.reset(); return o; }
    case 3: { O o(mk<T>(other)); o = opt::none; return o; }
    case 4: { O o(mk<T>(other)); O p; o = std::move(p); return o; }
    case 5: { O o(mk<T>(other)); (void)o.take(); return o; }
    case 6: { O o(mk<T>(other)); O p; o.swap(p); expect<T>(p, true, other); return o; }
    default: { O p; O o(std::move(p)); return o; }
    }
}

// all read accessors agree with the model
template<class T> void read_all(opt::option<T>& o, bool has, u64 k) {
    using O = opt::option<T>;
    const O& c = o;
    VP_CHECK(o.has_value() == has);
    VP_CHECK(c.has_value() == has);
    VP_CHECK(static_cast<bool>(o) == has);
    VP_CHECK((o == opt::none) == !has);
    VP_CHECK((opt::none != c) == has);
    VP_CHECK((o.ptr_or_null() != nullptr) == has);
    VP_CHECK((c.ptr_or_null() != nullptr) == has);
    VP_CHECK((o.begin() != o.end()) == has);
    if (!has) { bool threw = false; try { (void)o.value(); } catch (const opt::bad_access&) { threw = true; } VP_CHECK(threw); return; }
    T* p = o.ptr_or_null();
    VP_CHECK(keyof<T>(*p) == k);
    VP_CHECK(c.ptr_or_null() == p);
    VP_CHECK(std::addressof(o.get()) == p && std::addressof(c.get()) == p);
    VP_CHECK(std::addressof(*o) == p && std::addressof(*c) == p);
    VP_CHECK(o.operator->() == p && c.operator->() == p);
    VP_CHECK(std::addressof(o.value()) == p && std::addressof(c.value()) == p);
    VP_CHECK(std::addressof(o.value_or_throw()) == p && std::addressof(c.value_or_throw()) == p);
    VP_CHECK(std::addressof(o.get_unchecked()) == p && std::addressof(c.get_unchecked()) == p);
    T&& r1 = std::move(o).get(); VP_CHECK(std::addressof(r1) == p);
    T&& r2 = *std::move(o); VP_CHECK(std::addressof(r2) == p);
    T&& r3 = std::move(o).value(); VP_CHECK(std::addressof(r3) == p);
    T&& r4 = std::move(o).get_unchecked(); VP_CHECK(std::addressof(r4) == p);
    T&& r5 = std::move(o).value_or_throw(); VP_CHECK(std::addressof(r5) == p);
    const T&& r6 = std::move(c).get(); VP_CHECK(std::addressof(r6) == p);
    const T&& r7 = *std::move(c); VP_CHECK(std::addressof(r7) == p);
    const T&& r8 = std::move(c).value(); VP_CHECK(std::addressof(r8) == p);
    const T&& r9 = std::move(c).get_unchecked(); VP_CHECK(std::addressof(r9) == p);
    const T&& r10 = std::move(c).value_or_throw(); VP_CHECK(std::addressof(r10) == p);
    VP_CHECK(std::addressof(*o.begin()) == p && o.end() - o.begin() == 1 && std::addressof(*c.begin()) == p);
    VP_CHECK(keyof<T>(*p) == k);
}

// one operation, chosen symbolically; updates the model
constexpr unsigned n_ops_move = 20, n_ops_copy = 31;
template<class T> constexpr unsigned n_ops = copyable<T> ? n_ops_copy : n_ops_move;
template<class T> void step_op(unsigned op, opt::option<T>& o, bool& has, u64& k) {
    using O = opt::option<T>;
    const bool h0 = has; const u64 k0 = k;
    auto nv = [](const char* n) { return fresh<T>(n); };
    switch (op) {
    case 0: o.reset(); has = false; return;
    case 1: o = opt::none; has = false; return;
    case 2: { k = nv("v"); has = true; T& r = o.emplace(mk<T>(k)); VP_CHECK(std::addressof(r) == std::addressof(o.get())); return; }
    case 3: { u64 v = nv("v"); T& r = o.try_emplace(mk<T>(v)); VP_CHECK(std::addressof(r) == std::addressof(o.get())); if (!h0) { has = true; k = v; } return; }
    case 4: { k = nv("v"); has = true; O& r = (o = mk<T>(k)); VP_CHECK(std::addressof(r) == std::addressof(o)); return; }
    case 5: { bool ph; u64 pk; O p = sym_option<T>("p", ph, pk); O& r = (o = std::move(p)); VP_CHECK(std::addressof(r) == std::addressof(o)); has = ph; k = pk; VP_CHECK(p.has_value() == ph); return; }
    case 6: { O t = o.take(); expect<T>(t, h0, k0); has = false; return; }
    case 7: { bool ph; u64 pk; O p = sym_option<T>("p", ph, pk); o.swap(p); expect<T>(p, h0, k0); has = ph; k = pk; return; }
    case 8: { bool ph; u64 pk; O p = sym_option<T>("p", ph, pk); opt::swap(o, p); expect<T>(p, h0, k0); has = ph; k = pk; return; }
    case 9: { O t(std::move(o)); expect<T>(t, h0, k0); VP_CHECK(o.has_value() == h0); o.reset(); has = false; return; }     // moved from: still engaged, unspecified value
    case 10: { O t(std::move(o)); o = std::move(t); expect<T>(o, h0, k0); return; }
    case 11: { bool yes = vp_fork_(vp_bool("yes")); unsigned calls = 0; O t = o.take_if([&](T& v) { ++calls; VP_CHECK(keyof<T>(v) == k0); return yes; });
               VP_CHECK(calls == (h0 ? 1u : 0u)); expect<T>(t, h0 && yes, k0); if (h0 && yes) has = false; return; }
    case 12: { if (h0) { k = nv("v"); o.get() = mk<T>(k); } return; }
    case 13: { if (h0) { k = nv("v"); *o = mk<T>(k); } return; }
    case 14: { u64 v = nv("v"); o |= mk<T>(v); if (!h0) { has = true; k = v; } return; }
    case 15: { bool ph; u64 pk; O p = sym_option<T>("p", ph, pk); o |= std::move(p); if (!h0) { has = ph; k = pk; } return; }
    case 16: { O t = std::move(o).filter([&](const T& v) { return keyof<T>(v) == k0; }); expect<T>(t, h0, k0); o = std::move(t); return; }
    case 17: { u64 v = nv("v"); O t = std::move(o).or_else([&] { return O(mk<T>(v)); }); o = std::move(t); if (!h0) { has = true; k = v; } return; }
    case 18: { o.emplace(mk<T>(nv("v"))); o.reset(); has = false; return; }
    case 19: { u64 v = nv("v"); T t = std::move(o).value_or(mk<T>(v)); VP_CHECK(keyof<T>(t) == (h0 ? k0 : v)); VP_CHECK(o.has_value() == h0); o = std::move(t); has = true; k = h0 ? k0 : v; return; }
    default: break;
    }
    if constexpr (copyable<T>) {
        switch (op) {
        case 20: { bool ph; u64 pk; const O p = sym_option<T>("p", ph, pk); O& r = (o = p); VP_CHECK(std::addressof(r) == std::addressof(o)); expect<T>(p, ph, pk); has = ph; k = pk; return; }
        case 21: { O& same = o; o = same; return; }
        case 22: { k = nv("v"); has = true; const T v = mk<T>(k); o = v; VP_CHECK(keyof<T>(v) == k); return; }
        case 23: { O t(o); expect<T>(t, h0, k0); t.reset(); expect<T>(o, h0, k0); return; }
        case 24: { O t(o); o.reset(); expect<T>(t, h0, k0); has = false; return; }
        case 25: { if (h0) { T& v = o.get(); o = v; } return; }
        case 26: { O t = o | O(); expect<T>(t, h0, k0); return; }
        case 27: { u64 v = nv("v"); T t = o.value_or(mk<T>(v)); VP_CHECK(keyof<T>(t) == (h0 ? k0 : v)); return; }
        case 28: { bool yes = vp_fork_(vp_bool("yes")); O t = o.filter([&](const T&) { return yes; }); expect<T>(t, h0 && yes, k0); return; }
        case 29: { bool ph; u64 pk; const O p = sym_option<T>("p", ph, pk); O t = o ^ p; expect<T>(t, h0 != ph, h0 ? k0 : pk); return; }
        case 30: { bool ph; u64 pk; const O p = sym_option<T>("p", ph, pk); O t = o & p; expect<T>(t, h0 && ph, pk); expect<T>(p, ph, pk); return; }
        }
    }
}
template<class T> void step(opt::option<T>& o, bool& has, u64& k) {
    step_op<T>(vp_choice(n_ops<T>, "op"), o, has, k);
    expect<T>(o, has, k);
}

#define VP_ALL_TYPES(X) \
    X(int, int) X(u8, u8) X(u64, u64) X(bool, bool) X(ptr, int*) X(float, float) X(double, double) X(Trk, Trk) X(TrkN, TrkN) X(TrkA, TrkA) X(Color, Color) X(Wide, Wide) \
    X(Agg, Agg) X(AggNo, AggNo) X(Pad, Pad) X(Poly, Poly) X(PolyD, PolyD) X(sview, std::string_view) X(Vec, Vec) X(string, std::string) X(RefW, RefW) \
    X(PairTB, PairTB) X(PairIB, PairIB) X(TupIBF, TupIBF) X(ArrB, ArrB) X(CplxF, CplxF) X(MemP, MemP) X(MemF, MemF)
#define VP_MOVE_TYPES(X) X(TrkM, TrkM) X(UPtr, UPtr)
#define VP_AMP_TYPES(X) X(Amp, Amp) X(AmpN, AmpN) X(PairAmp, PairAmp) X(TupAmp, TupAmp) X(ArrAmp, ArrAmp) X(AggAmp, AggAmp)
#define VP_SP_TYPES(X) \
    X(Sp1111, Sp1111) X(Sp0111, Sp0111) X(Sp1011, Sp1011) X(Sp0011, Sp0011) X(Sp1101, Sp1101) X(Sp0101, Sp0101) X(Sp1001, Sp1001) X(Sp0001, Sp0001) \
    X(Sp1110, Sp1110) X(Sp0110, Sp0110) X(Sp1010, Sp1010) X(Sp0010, Sp0010) X(Sp1100, Sp1100) X(Sp0100, Sp0100) X(Sp1000, Sp1000) X(Sp0000, Sp0000)
using OInt = opt::option<int>; using OBool = opt::option<bool>; using OTrk = opt::option<Trk>; using OTrkN = opt::option<TrkN>; using OStr = opt::option<std::string>;
using OOBool = opt::option<OBool>; using OOInt = opt::option<OInt>; using OPairIB = opt::option<PairIB>;
#define VP_OPT_TYPES(X) X(OInt, OInt) X(OBool, OBool) X(OTrk, OTrk) X(OTrkN, OTrkN) X(OOBool, OOBool) X(OOInt, OOInt)
