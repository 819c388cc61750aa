// configs: A B D N
// configs-thorough: C
// bound: a converting construction or assignment between options of different types, both states and all values of source and target; the engagement of both afterwards, and again after a second use of the source
#include "ops.hpp"
struct From { u32 k; explicit From(u32 k_) : k(k_) {} };
struct To {
    Trk t; u32 pad = 7;
    explicit To(u32 k) : t(k) {}
    To(const From& s) : t(s.k) {}
    To(From&& s) : t(s.k) { s.k = MOVED; }
    To& operator=(const From& s) { t = s.k; return *this; }
    To& operator=(From&& s) { t = s.k; s.k = MOVED; return *this; }
    To(const To&) = default; To(To&&) = default; To& operator=(const To&) = default; To& operator=(To&&) = default;
};
struct FromO { UPtr p; explicit FromO(UPtr q) : p(std::move(q)) {} };
struct ToO { UPtr p; explicit ToO(UPtr q) : p(std::move(q)) {} ToO(FromO&& f) : p(std::move(f.p)) {} ToO& operator=(FromO&& f) { p = std::move(f.p); return *this; } };
VP_GEN(From, u64 k = vp_u32(n); vp_assume(k < 0x80000000u); return k;, return From(u32(k));, return v.k;)
VP_GEN(To, u64 k = vp_u32(n); vp_assume(k < 0x80000000u); return k;, return To(u32(k));, return keyof(v.t);)
VP_GEN(FromO, return Gen<UPtr>::fresh(n);, return FromO(mk<UPtr>(k));, return keyof(v.p);)
VP_GEN(ToO, return Gen<UPtr>::fresh(n);, return ToO(mk<UPtr>(k));, return keyof(v.p);)
VP_GEN(long, return vp_u64(n);, return long(k);, return u64(v);)
VP_GEN(u16, return vp_u16(n);, return u16(k);, return v;)
VP_GEN(const int*, u64 p = vp_u64(n); vp_assume(canonical(p)); return p;, return reinterpret_cast<const int*>(k);, return reinterpret_cast<u64>(v);)
template<class T, class U> u64 ck(u64 k) {
    if constexpr (std::is_arithmetic_v<T> && std::is_arithmetic_v<U>) { U u = mk<U>(k); T t = T(u); return keyof<T>(t); }
    else return k;
}
template<class T, class U> void states() {
    {
        using OT = opt::option<T>; using OU = opt::option<U>;
        bool sh, th; u64 sk, tk;
        OU s = sym_option<U>("s", sh, sk); OT t = sym_option<T>("t", th, tk);
        constexpr bool cp = std::is_constructible_v<T, const U&> && copyable<U>;
        const u64 want = sh ? ck<T, U>(sk) : 0;
        switch (vp_choice(6, "route")) {
        case 0: { t = std::move(s); expect<T>(t, sh, want); VP_CHECK(s.has_value() == sh); break; }
        case 1: { OT q(std::move(s)); expect<T>(q, sh, want); VP_CHECK(s.has_value() == sh); expect<T>(t, th, tk); break; }
        case 2: if constexpr (cp) { t = s; expect<T>(t, sh, want); expect<U>(s, sh, sk); } break;
        case 3: if constexpr (cp) { const OU& c = s; t = c; expect<T>(t, sh, want); t = std::move(c); expect<T>(t, sh, want); expect<U>(s, sh, sk); } break;
        case 4: if constexpr (cp) { OT q(s); expect<T>(q, sh, want); expect<U>(s, sh, sk); q = s; expect<T>(q, sh, want); OT w(std::move(static_cast<const OU&>(s))); expect<T>(w, sh, want); expect<U>(s, sh, sk); } break;
        default: { t = std::move(s); VP_CHECK(s.has_value() == sh); OT q(std::move(s)); VP_CHECK(s.has_value() == sh); VP_CHECK(q.has_value() == sh); t.reset(); VP_CHECK(s.has_value() == sh); t = std::move(s); VP_CHECK(t.has_value() == sh && s.has_value() == sh); break; }
        }
        s.reset(); VP_CHECK(!s.has_value());
        u64 n = fresh<U>("n"); s.emplace(mk<U>(n)); expect<U>(s, true, n);
    }
    balanced();
}
#define X(N, T, U) VP_HARNESS(C06, conv_##N) { states<T, U>(); }
X(To_From, To, From) X(ToO_FromO, ToO, FromO) X(long_int, long, int) X(u8_u16, u8, u16) X(int_bool, int, bool) X(u32_u8, u32, u8) X(double_float, double, u8) X(cptr_ptr, const int*, int*)
X(Trk_u32, Trk, u32) X(TrkN_u32, TrkN, u32) X(Poly_u32, Poly, u32) X(Sp0000_u32, Sp0000, u32) X(Sp1111_u32, Sp1111, u32)
