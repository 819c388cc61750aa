// Payload types shared by the harnesses, and a uniform way to make symbolic values of them.
#pragma once
#include <opt/option.hpp>
#include <array>
#include <complex>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
#include "vp.hpp"

using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t;

struct Log { long live, ctor, cctor, mctor, cassign, massign, dtor; };
inline Log g_log{};
struct Boom { int n; };
inline u32 g_throw_at = 0;      // the n-th tracked operation from now throws (0: never)
inline u32 g_threw = 0;
#ifdef __cpp_exceptions
inline void tick() { if (g_throw_at != 0 && --g_throw_at == 0) { g_threw = 1; throw Boom{1}; } }
#else
inline void tick() {}
#endif

constexpr u32 LIVE = 0x4c495645u, DEAD = 0xdeadbeefu;
constexpr u32 MOVED = 0x80000001u;

// A non-trivial payload that knows where it lives and whether it is alive.
struct Trk {
    u32 magic; u32 k; const Trk* self;
    void alive() const { VP_CHECK(magic == LIVE); VP_CHECK(self == this); }
    explicit Trk(u32 key) : magic(0), k(key), self(this) { tick(); magic = LIVE; ++g_log.live; ++g_log.ctor; }
    Trk(u32 a, u32 b) : Trk(a + b) {}
    Trk(std::initializer_list<u32> l, u32 b) : Trk(u32(l.size()) + *l.begin() + b) {}
    Trk(const Trk& o) : magic(0), k(o.k), self(this) { o.alive(); tick(); magic = LIVE; ++g_log.live; ++g_log.cctor; }
    Trk(Trk&& o) : magic(0), k(o.k), self(this) { o.alive(); tick(); magic = LIVE; o.k = MOVED; ++g_log.live; ++g_log.mctor; }
    Trk& operator=(const Trk& o) { alive(); o.alive(); tick(); k = o.k; ++g_log.cassign; return *this; }
    Trk& operator=(Trk&& o) { alive(); o.alive(); tick(); if (this != &o) { k = o.k; o.k = MOVED; } ++g_log.massign; return *this; }
    Trk& operator=(u32 key) { alive(); tick(); k = key; return *this; }
    ~Trk() { alive(); magic = DEAD; self = nullptr; --g_log.live; ++g_log.dtor; }
    friend bool operator==(const Trk& a, const Trk& b) { a.alive(); b.alive(); return a.k == b.k; }
    friend bool operator!=(const Trk& a, const Trk& b) { a.alive(); b.alive(); return a.k != b.k; }
    friend bool operator<(const Trk& a, const Trk& b) { a.alive(); b.alive(); return a.k < b.k; }
};
// The same with a user-provided niche (documented option_traits interface).
struct TrkN : Trk {
    using Trk::Trk;
    TrkN(const TrkN&) = default;
    TrkN(TrkN&&) = default;
    TrkN& operator=(const TrkN&) = default;
    TrkN& operator=(TrkN&&) = default;
    TrkN& operator=(u32 key) { Trk::operator=(key); return *this; }
};
template<> struct opt::option_traits<TrkN> {
    static constexpr std::uintmax_t max_level = 3;
    static std::uintmax_t get_level(const TrkN* v) noexcept { u32 m; std::memcpy(&m, static_cast<const void*>(v), 4); return m >= 0x70u && m < 0x73u ? m - 0x70u : std::uintmax_t(-1); }
    static void set_level(TrkN* v, std::uintmax_t l) noexcept { u32 m = u32(0x70u + l); std::memcpy(static_cast<void*>(v), &m, 4); }
};
// Move-only
struct TrkM : Trk {
    using Trk::Trk;
    TrkM(TrkM&&) = default;
    TrkM& operator=(TrkM&&) = default;
};

// A class that overloads the operators a generic library must not call on its payload: unary &, the comma, and placement new
struct Amp {
    u32 k; bool moved = false;
    explicit Amp(u32 key) : k(key) {}
    Amp(const Amp& o) : k(o.k), moved(o.moved) {}
    Amp(Amp&& o) noexcept : k(o.k), moved(o.moved) { o.moved = true; }
    Amp& operator=(const Amp& o) { k = o.k; moved = o.moved; return *this; }
    Amp& operator=(Amp&& o) noexcept { const u32 q = o.k; const bool m = o.moved; o.moved = true; k = q; moved = m; return *this; }
    ~Amp() {}
    Amp* operator&() { VP_CHECK(false); return nullptr; }
    const Amp* operator&() const { VP_CHECK(false); return nullptr; }
    template<class U> void operator,(const U&) const { VP_CHECK(false); }
    template<class U> friend void operator,(const U&, const Amp&) { VP_CHECK(false); }
    static void* operator new(std::size_t, void* p) { VP_CHECK(false); return p; }
    friend bool operator==(const Amp& a, const Amp& b) { return a.k == b.k; }
};
struct AmpN : Amp { using Amp::Amp; };
template<> struct opt::option_traits<AmpN> {
    static constexpr std::uintmax_t max_level = 3;
    static std::uintmax_t get_level(const AmpN* v) noexcept { u8 m; std::memcpy(std::addressof(m), reinterpret_cast<const char*>(v) + 4, 1); return m >= 0x70u && m < 0x73u ? m - 0x70u : std::uintmax_t(-1); }
    static void set_level(AmpN* v, std::uintmax_t l) noexcept { u8 m = u8(0x70u + l); std::memcpy(reinterpret_cast<char*>(v) + 4, std::addressof(m), 1); }
};

// Trivially assignable but with counted construction and destruction
struct TrkA {
    u32 magic; u32 k;
    void alive() const { VP_CHECK(magic == LIVE); }
    explicit TrkA(u32 key) : magic(0), k(key) { tick(); magic = LIVE; ++g_log.live; ++g_log.ctor; }
    TrkA(const TrkA& o) : magic(0), k(o.k) { o.alive(); tick(); magic = LIVE; ++g_log.live; ++g_log.cctor; }
    TrkA(TrkA&& o) : magic(0), k(o.k) { o.alive(); tick(); magic = LIVE; o.k = MOVED; ++g_log.live; ++g_log.mctor; }
    TrkA& operator=(const TrkA&) = default;
    TrkA& operator=(TrkA&&) = default;
    ~TrkA() { alive(); magic = DEAD; --g_log.live; ++g_log.dtor; }
    friend bool operator==(const TrkA& a, const TrkA& b) { a.alive(); b.alive(); return a.k == b.k; }
};

// Same data, every combination of trivial / non-trivial special members selects a different implementation.
template<bool TCC, bool TCA, bool TMC, bool TMA, bool TD> struct Sp;
#define VP_CC_1(X) X(const X&) = default;
#define VP_CC_0(X) X(const X& o) : k(o.k), ops(o.ops + 1) {}
#define VP_CA_1(X) X& operator=(const X&) = default;
#define VP_CA_0(X) X& operator=(const X& o) { k = o.k; ops = o.ops + 1; return *this; }
#define VP_MC_1(X) X(X&&) = default;
#define VP_MC_0(X) X(X&& o) noexcept : k(o.k), ops(o.ops + 1) { o.k = MOVED; }
#define VP_MA_1(X) X& operator=(X&&) = default;
#define VP_MA_0(X) X& operator=(X&& o) noexcept { if (this != &o) { k = o.k; ops = o.ops + 1; o.k = MOVED; } return *this; }
#define VP_SP(NAME, CC, CA, MC, MA) \
struct NAME { u32 k; u32 ops = 0; NAME(u32 k_) : k(k_) {} VP_CC_##CC(NAME) VP_CA_##CA(NAME) VP_MC_##MC(NAME) VP_MA_##MA(NAME) };
VP_SP(Sp1111, 1, 1, 1, 1) VP_SP(Sp0111, 0, 1, 1, 1) VP_SP(Sp1011, 1, 0, 1, 1) VP_SP(Sp0011, 0, 0, 1, 1)
VP_SP(Sp1101, 1, 1, 0, 1) VP_SP(Sp0101, 0, 1, 0, 1) VP_SP(Sp1001, 1, 0, 0, 1) VP_SP(Sp0001, 0, 0, 0, 1)
VP_SP(Sp1110, 1, 1, 1, 0) VP_SP(Sp0110, 0, 1, 1, 0) VP_SP(Sp1010, 1, 0, 1, 0) VP_SP(Sp0010, 0, 0, 1, 0)
VP_SP(Sp1100, 1, 1, 0, 0) VP_SP(Sp0100, 0, 1, 0, 0) VP_SP(Sp1000, 1, 0, 0, 0) VP_SP(Sp0000, 0, 0, 0, 0)

enum class Color : u8 { red, green, blue };
enum class Wide : u32 { a = 3, b = 17, c = 40, d = 0x12345678, e = 0x80000001 };
struct Agg { u32 a; bool b; };                  // niche inside a member (reflection)
struct AggNo { u32 a; u16 b; };                 // no niche
struct AggTb { Trk t; bool b; };                 // owning aggregate with a niche inside a member
struct AggT { Trk t; u32 n; };                  // owning aggregate without a niche
struct Pad { u16 a; u8 b; u8 PADDING{}; };      // documented PADDING member
struct Poly { u32 v; Poly(u32 x) : v(x) {} virtual u32 id() const { return v; } };
struct PolyD : Poly { using Poly::Poly; u32 id() const override { return v + 1; } virtual ~PolyD() {} };
struct Obj { int m; int n; int f(int x) { return x + m; } };

inline bool canonical(u64 p) { return u64(std::int64_t(p << 7) >> 7) == p; }    // 57-bit linear addresses
inline bool user_space(u64 p) { return p < (u64(1) << 56); }

// Gen<T>: symbolic values as 64-bit keys
template<class T> struct Gen;
template<class T> u64 keyof(const T& v) { return Gen<T>::key(v); }
template<class T> T mk(u64 k) { return Gen<T>::make(k); }
template<class T> u64 fresh(const char* n) { return Gen<T>::fresh(n); }

#define VP_GEN(T, FRESH, MAKE, KEY) template<> struct Gen<T> { \
    using V_ = T; static u64 fresh(const char* n) { FRESH } static V_ make(u64 k) { MAKE } static u64 key(const V_& v) { KEY } };
VP_GEN(int, return vp_u32(n);, return int(u32(k));, return u32(v);)
VP_GEN(u8, return vp_u8(n);, return u8(k);, return v;)
VP_GEN(u32, return vp_u32(n);, return u32(k);, return v;)
VP_GEN(u64, return vp_u64(n);, return k;, return v;)
VP_GEN(bool, return vp_bool(n) ? 1 : 0;, return k != 0;, u8 b; std::memcpy(&b, &v, 1); return b;)
VP_GEN(int*, u64 p = vp_u64(n); vp_assume(canonical(p)); return p;, return reinterpret_cast<int*>(k);, return reinterpret_cast<u64>(v);)
// floats: every bit pattern outside the documented reserved NaN payloads (docs/builtin_traits.md)
#if OPTION_USE_QUIET_NAN
constexpr u32 nan32_first = 0xFFC3EFB5u; constexpr u64 nan64_first = 0xFFFBF26430BB3557u;
#else
constexpr u32 nan32_first = 0xFFBF69AFu; constexpr u64 nan64_first = 0xFFF6C79F55B0898Fu;
#endif
VP_GEN(float, u32 b = vp_u32(n); vp_assume(u32(b - nan32_first) >= 256); return b;,
       float f; u32 b = u32(k); std::memcpy(&f, &b, 4); return f;, u32 b; std::memcpy(&b, &v, 4); return b;)
VP_GEN(double, u64 b = vp_u64(n); vp_assume(b - nan64_first >= 256); return b;,
       double f; std::memcpy(&f, &k, 8); return f;, u64 b; std::memcpy(&b, &v, 8); return b;)
#define VP_GEN_TRK(T) VP_GEN(T, u64 k = vp_u32(n); vp_assume(k < 0x80000000u); return k;, return T(u32(k));, v.alive(); return v.k;)
VP_GEN_TRK(Trk) VP_GEN_TRK(TrkN) VP_GEN_TRK(TrkM) VP_GEN_TRK(TrkA)
#define VP_GEN_AMP(T) VP_GEN(T, u64 k = vp_u32(n); return k;, return T(u32(k));, VP_CHECK(!v.moved); return v.k;)
VP_GEN_AMP(Amp) VP_GEN_AMP(AmpN)
#define VP_GEN_SP(T) VP_GEN(T, u64 k = vp_u32(n); vp_assume(k < 0x80000000u); return k;, return T(u32(k));, return v.k;)
VP_GEN_SP(Sp1111) VP_GEN_SP(Sp0111) VP_GEN_SP(Sp1011) VP_GEN_SP(Sp0011) VP_GEN_SP(Sp1101) VP_GEN_SP(Sp0101) VP_GEN_SP(Sp1001) VP_GEN_SP(Sp0001)
VP_GEN_SP(Sp1110) VP_GEN_SP(Sp0110) VP_GEN_SP(Sp1010) VP_GEN_SP(Sp0010) VP_GEN_SP(Sp1100) VP_GEN_SP(Sp0100) VP_GEN_SP(Sp1000) VP_GEN_SP(Sp0000)
VP_GEN(Color, u64 k = vp_u8(n); vp_assume(k < 3); return k;, return Color(u8(k));, return u64(u8(v));)
VP_GEN(Wide, u64 k = vp_u32(n); vp_assume(k < 64 || k == 0x12345678u || k == 0x80000001u); return k;, return Wide(u32(k));, return u64(u32(v));)
VP_GEN(Agg, u64 k = vp_u32(n); return k | (vp_bool(n) ? u64(1) << 32 : 0);, return (Agg{u32(k), (k >> 32) != 0});, return u64(v.a) | (Gen<bool>::key(v.b) << 32);)
VP_GEN(AggNo, u64 k = vp_u32(n); return k | u64(vp_u16(n)) << 32;, return (AggNo{u32(k), u16(k >> 32)});, return u64(v.a) | u64(v.b) << 32;)
VP_GEN(AggTb, u64 k = Gen<Trk>::fresh(n); return k | (vp_bool(n) ? u64(1) << 32 : 0);, return (AggTb{Trk(u32(k)), (k >> 32) != 0});, return keyof(v.t) | (Gen<bool>::key(v.b) << 32);)
VP_GEN(AggT, u64 k = Gen<Trk>::fresh(n); return k | u64(vp_u32(n)) << 32;, return (AggT{Trk(u32(k)), u32(k >> 32)});, return keyof(v.t) | u64(v.n) << 32;)
VP_GEN(Pad, u64 k = vp_u16(n); return k | u64(vp_u8(n)) << 16;, return (Pad{u16(k), u8(k >> 16), 0});, return u64(v.a) | u64(v.b) << 16 | u64(v.PADDING) << 32;)
VP_GEN(Poly, return vp_u32(n);, return Poly(u32(k));, return v.id();)
VP_GEN(PolyD, return u32(vp_u32(n) + 1);, return PolyD(u32(k - 1));, return v.id();)
VP_GEN(std::string_view, u64 k = vp_u32(n); vp_assume(k >= 4096); return k | u64(vp_u16(n)) << 32;,
       return std::string_view(reinterpret_cast<const char*>(k & 0xffffffffu), std::size_t(k >> 32));, return reinterpret_cast<u64>(v.data()) | u64(v.size()) << 32;)
using UPtr = std::unique_ptr<u32>;
VP_GEN(UPtr, return vp_fork_(vp_bool(n)) ? u64(vp_u32(n)) + 1 : 0;, return k == 0 ? UPtr() : UPtr(new u32(u32(k - 1)));, return v ? u64(*v) + 1 : 0;)
using UPtrA = std::unique_ptr<u32[]>;
VP_GEN(UPtrA, return vp_fork_(vp_bool(n)) ? u64(vp_u32(n)) + 1 : 0;, if (k == 0) return UPtrA(); UPtrA p(new u32[2]); p[0] = u32(k - 1); p[1] = ~p[0]; return p;, return v ? (v[1] == ~v[0] ? u64(v[0]) + 1 : u64(-1)) : 0;)
union Uni { u32 a; u8 b; };
VP_GEN(Uni, return vp_u32(n);, Uni u; u.a = u32(k); return u;, return v.a;)
using Vec = std::vector<u32>;
VP_GEN(Vec, return vp_fork_(vp_bool(n)) ? u64(vp_u32(n)) + 1 : 0;, return k == 0 ? Vec() : Vec(1, u32(k - 1));, return v.empty() ? 0 : u64(v[0]) + 1;)
// strings: empty, 1 small character, or 20 characters (heap allocated)
VP_GEN(std::string, u64 l = vp_choice(3, n); u64 c = vp_u8(n); return l == 0 ? 0 : (c << 2 | l);,
       return (k & 3) == 0 ? std::string() : std::string((k & 3) == 1 ? 1 : 20, char(u8(k >> 2)));,
       return v.empty() ? 0 : (u64(u8(v[0])) << 2 | (v.size() == 1 ? 1 : v.size() == 20 && v[19] == v[0] && v[10] == v[0] ? 2 : 3));)
using RefW = std::reference_wrapper<int>;
inline int g_ints[4];
VP_GEN(RefW, return vp_choice(4, n);, return RefW(g_ints[k]);, return u64(&v.get() - g_ints);)
using PairTB = std::pair<Trk, bool>;
VP_GEN(PairTB, u64 k = Gen<Trk>::fresh(n); return k | (vp_bool(n) ? u64(1) << 32 : 0);, return PairTB(Trk(u32(k)), (k >> 32) != 0);, return keyof(v.first) | keyof(v.second) << 32;)
using PairAmp = std::pair<u32, AmpN>; using TupAmp = std::tuple<AmpN, u8>; using ArrAmp = std::array<AmpN, 1>;
VP_GEN(PairAmp, u64 k = vp_u32(n); return k | u64(vp_u32(n)) << 32;, return PairAmp(u32(k), AmpN(u32(k >> 32)));, return u64(v.first) | keyof(v.second) << 32;)
VP_GEN(TupAmp, u64 k = vp_u32(n); return k | u64(vp_u8(n)) << 32;, return TupAmp(AmpN(u32(k)), u8(k >> 32));, return keyof(std::get<0>(v)) | u64(std::get<1>(v)) << 32;)
VP_GEN(ArrAmp, return vp_u32(n);, return (ArrAmp{{AmpN(u32(k))}});, return keyof(v[0]);)
struct AggAmp { u32 a; AmpN m; };
VP_GEN(AggAmp, u64 k = vp_u32(n); return k | u64(vp_u32(n)) << 32;, return (AggAmp{u32(k), AmpN(u32(k >> 32))});, return u64(v.a) | keyof(v.m) << 32;)
using PairIB = std::pair<u32, bool>;
VP_GEN(PairIB, u64 k = vp_u32(n); return k | (vp_bool(n) ? u64(1) << 32 : 0);, return PairIB(u32(k), (k >> 32) != 0);, return keyof(v.first) | keyof(v.second) << 32;)
using TupIBF = std::tuple<u8, bool, float>;
VP_GEN(TupIBF, u64 a = vp_u8(n); u64 b = vp_bool(n) ? 1 : 0; u64 c = Gen<float>::fresh(n); return a | b << 8 | c << 32;,
       return TupIBF(u8(k), ((k >> 8) & 1) != 0, mk<float>(k >> 32));, return keyof(std::get<0>(v)) | keyof(std::get<1>(v)) << 8 | keyof(std::get<2>(v)) << 32;)
using ArrB = std::array<bool, 3>;
VP_GEN(ArrB, u64 a = vp_bool(n) ? 1 : 0; u64 b = vp_bool(n) ? 1 : 0; u64 c = vp_bool(n) ? 1 : 0; return a | b << 8 | c << 16;,
       return (ArrB{{(k & 1) != 0, ((k >> 8) & 1) != 0, ((k >> 16) & 1) != 0}});, return keyof(v[0]) | keyof(v[1]) << 8 | keyof(v[2]) << 16;)
using CplxF = std::complex<float>;
VP_GEN(CplxF, u64 re = Gen<float>::fresh(n); u64 im = vp_u32(n); return re | im << 32;,  return CplxF(mk<float>(k & 0xffffffffu), mk<float>(k >> 32));,
       float p[2]; std::memcpy(p, &v, 8); return keyof(p[0]) | keyof(p[1]) << 32;)
using MemP = int Obj::*;
VP_GEN(MemP, return vp_choice(3, n);, return k == 0 ? nullptr : k == 1 ? &Obj::m : &Obj::n;, return v == nullptr ? 0 : v == &Obj::m ? 1 : 2;)
using MemF = int (Obj::*)(int);
VP_GEN(MemF, return vp_choice(2, n);, return k == 0 ? nullptr : &Obj::f;, return v == nullptr ? 0 : 1;)
// options as payload: key 0 is the empty option, otherwise 1 + payload key (payload keys stay below 2^63)
template<class T> struct Gen<opt::option<T>> {
    static u64 fresh(const char* n) { if (!vp_fork_(vp_bool(n))) return 0; u64 k = Gen<T>::fresh(n); vp_assume(k < (u64(1) << 62)); return k + 1; }
    static opt::option<T> make(u64 k) { return k == 0 ? opt::option<T>() : opt::option<T>(std::in_place, Gen<T>::make(k - 1)); }
    static u64 key(const opt::option<T>& v) { return v.has_value() ? Gen<T>::key(v.get()) + 1 : 0; }
};

// difference of the event log since a snapshot
inline Log since(const Log& a) { return Log{g_log.live - a.live, g_log.ctor - a.ctor, g_log.cctor - a.cctor, g_log.mctor - a.mctor, g_log.cassign - a.cassign, g_log.massign - a.massign, g_log.dtor - a.dtor}; }

// symbolic option
template<class T> struct Sym { bool has; u64 k; };
template<class T> opt::option<T> sym_option(const char* n, bool& has, u64& k) {
    has = vp_fork_(vp_bool(n));
    k = 0;
    if (!has) return opt::option<T>();
    k = fresh<T>(n);
    return opt::option<T>(std::in_place, mk<T>(k));
}
template<class T> void expect(const opt::option<T>& o, bool has, u64 k) {
    VP_CHECK(o.has_value() == has);
    if (has) VP_CHECK(keyof(o.get()) == k);
}
inline void balanced() { VP_CHECK(g_log.live == 0); VP_CHECK(g_log.ctor + g_log.cctor + g_log.mctor == g_log.dtor); }
