// configs: A B D N
// configs-thorough: C
// bound: 1 to 9 sentinels; nesting 1 to 10; every underlying value symbolic; one operation (2 in the thorough tier) on any state
// note: constructing or assigning a value equal to the level-0 sentinel is a documented precondition violation (debug trap), so sentinels are stored through references to the contained object
#include "ops.hpp"
template<class T, unsigned D> struct nest { using type = opt::option<typename nest<T, D - 1>::type>; };
template<class T> struct nest<T, 0> { using type = T; };
template<class T, unsigned D> using nest_t = typename nest<T, D>::type;
#if !defined(OPTION_USE_BUILTIN_TRAITS) || OPTION_USE_BUILTIN_TRAITS
constexpr bool BUILTIN = true;
#else
constexpr bool BUILTIN = false;
#endif
template<class T> constexpr u64 levels = opt::option_traits<T>::max_level;

// Niche<T>: what the harness declares about T, independently of the implementation
//   n: number of declared sentinels, raw(v): underlying object, is_level(v, i): does v equal sentinel i, store(v, i): write sentinel i into v
template<class T> struct Niche;

using S1 = opt::sentinel<int, -1>;
using S2 = opt::sentinel<u32, 1u, 2u>;
using S3 = opt::sentinel<int, 7, -2147483647 - 1, 0>;
using S4 = opt::sentinel<u8, u8(255), u8(254), u8(0), u8(1)>;
using S9 = opt::sentinel<u8, u8(200), u8(3), u8(7), u8(0), u8(255), u8(9), u8(1), u8(128), u8(77)>;
using SL = opt::sentinel<u64, ~0ull>;
using SP = opt::sentinel<int*, nullptr>;
using SC = opt::sentinel<Color, Color::blue, Color::red>;
using SB = opt::sentinel<char, 'x', 'y', 'z'>;
using SM = opt::sentinel<int, 5L>;                                 // sentinel of another type than the value
#define VP_SENT(T, U, N, LIT) template<> struct Niche<T> { static constexpr u64 n = N; using U_ = U; static U lit(u64 i) { U s[] = LIT; return s[i]; } }; \
    VP_GEN(T, u64 k = Gen<U>::fresh(n); for (u64 i = 0; i < Niche<T>::n; ++i) vp_assume(k != keyof<U>(Niche<T>::lit(i))); return k;, return T(mk<U>(k));, return keyof<U>(v.m);)
#define L(...) {__VA_ARGS__}
VP_GEN(char, return vp_u8(n);, return char(u8(k));, return u8(v);)
VP_SENT(S1, int, 1, L(-1)) VP_SENT(S2, u32, 2, L(1u, 2u)) VP_SENT(S3, int, 3, L(7, -2147483647 - 1, 0)) VP_SENT(S4, u8, 4, L(255, 254, 0, 1)) VP_SENT(S9, u8, 9, L(200, 3, 7, 0, 255, 9, 1, 128, 77)) VP_SENT(SL, u64, 1, L(~0ull))
VP_SENT(SP, int*, 1, L(nullptr)) VP_SENT(SC, Color, 2, L(Color::blue, Color::red)) VP_SENT(SB, char, 3, L('x', 'y', 'z')) VP_SENT(SM, int, 1, L(5))

// sentinel_f: comparator and setter of the user; the set value is what the comparator recognises
struct CmpHi { bool operator()(const u32& v, u32 s) const { return (v >> 16) == s; } };
struct SetHi { void operator()(u32& v, u32 s) const { v = (s << 16) | 0x1234u; } };
struct CmpOff { bool operator()(int v, int s) const { return u32(v) + 1u == u32(s) - 1u; } };
struct SetOff { void operator()(int& v, int s) const { v = s - 2; } };
struct Rec { u32 id; u16 kind; u16 rest; };
struct CmpRec { bool operator()(const Rec& r, int s) const { return r.kind == s; } };
struct SetRec { void operator()(Rec& r, int s) const { r.kind = u16(s); } };
using F1 = opt::sentinel_f<int, CmpOff, SetOff, -1>;
using F2 = opt::sentinel_f<u32, CmpHi, SetHi, 0xffffu, 0xfffeu>;
using F4 = opt::sentinel_f<u32, CmpHi, SetHi, 3u, 1u, 2u, 0u>;
using F7 = opt::sentinel_f<u32, CmpHi, SetHi, 3u, 1u, 2u, 0u, 0x8000u, 0xfffeu, 9u>;
using FR = opt::sentinel_f<Rec, CmpRec, SetRec, 11, 12, 13>;
VP_GEN(Rec, u64 k = vp_u32(n); u64 b = vp_u16(n); return k | b << 32;, return (Rec{u32(k), u16(k >> 32), u16(~k)});, VP_CHECK(v.rest == u16(~v.id)); return u64(v.id) | u64(v.kind) << 32;)
#define VP_SENTF(T, U, CMP, SET, N, LITT, LIT) template<> struct Niche<T> { static constexpr u64 n = N; using U_ = U; \
        static LITT val(u64 i) { const LITT s[] = LIT; return s[i]; } static U lit(u64 i) { U u = mk<U>(0); SET{}(u, val(i)); return u; } }; \
    VP_GEN(T, u64 k = Gen<U>::fresh(n); bool bad = false; for (u64 i = 0; i < Niche<T>::n; ++i) bad |= CMP{}(mk<U>(k), Niche<T>::val(i)); vp_assume(!bad); return k;, return T(mk<U>(k));, return keyof<U>(v.m);)
VP_SENTF(F1, int, CmpOff, SetOff, 1, int, L(-1)) VP_SENTF(F2, u32, CmpHi, SetHi, 2, u32, L(0xffffu, 0xfffeu)) VP_SENTF(F4, u32, CmpHi, SetHi, 4, u32, L(3u, 1u, 2u, 0u)) VP_SENTF(F7, u32, CmpHi, SetHi, 7, u32, L(3u, 1u, 2u, 0u, 0x8000u, 0xfffeu, 9u)) VP_SENTF(FR, Rec, CmpRec, SetRec, 3, int, L(11, 12, 13))

// sentinel_option_traits
struct Id { u32 x; Id() = default; constexpr explicit Id(u32 x_) : x(x_) {} friend bool operator==(const Id& a, const Id& b) { return a.x == b.x; } };
template<> struct opt::sentinel_option_traits<Id> { static constexpr Id sentinel_value{77u}; };
struct Id2 { u16 a; u16 b; bool operator==(const Id2& o) const { return a == o.a && b == o.b; } };      // only a pair of members is the sentinel
template<> struct opt::sentinel_option_traits<Id2> { static constexpr Id2 sentinel_value{3, 4}; };
#define VP_SOT(T, FRESH, MAKE, KEY, LIT) template<> struct Niche<T> { static constexpr u64 n = 1; using U_ = T; static T lit(u64) { return LIT; } }; \
    VP_GEN(T, u64 k = [&]() -> u64 { FRESH }(); vp_assume(k != Gen<T>::key(LIT)); return k;, MAKE, KEY)
VP_SOT(Id, return vp_u32(n);, return Id(u32(k));, return v.x;, Id(77))
VP_SOT(Id2, return vp_u32(n);, return (Id2{u16(k), u16(k >> 16)});, return u64(v.a) | u64(v.b) << 16;, (Id2{3, 4}))

// the integers a level is written as, for types with an integer member that carries it
template<class O> void read_level(const O& o, u64 depth, u64 lvl) {      // option nested depth times, lvl-th empty level (lvl >= depth: engaged)
    if constexpr (opt::is_option_v<O>) {
        const bool empty_here = lvl == depth - 1;
        VP_CHECK(o.has_value() == !empty_here);
        if (!empty_here) read_level(o.get(), depth - 1, lvl);
    }
}
template<class O> auto& leaf(O& o) { if constexpr (opt::is_option_v<std::remove_const_t<O>>) return leaf(o.get_unchecked()); else return o; }

// every non-sentinel value through every route and history
template<class T> void values() {
    {
        VP_CHECK((sizeof(opt::option<T>) == sizeof(T)) == (levels<T> != 0));
        bool has = vp_fork_(vp_bool("has"));
        u64 k = fresh<T>("k"), other = fresh<T>("other");
        opt::option<T> o = has ? build<T>(vp_choice(n_routes<T>, "route"), k, other) : build_empty<T>(vp_choice(n_empty_routes, "route"), other);
        read_all<T>(o, has, k);
    }
    balanced();
}
template<class T> void history() {
    {
        bool has; u64 k;
        opt::option<T> o = sym_option<T>("o", has, k);
        step<T>(o, has, k);
#ifdef VP_DEEP
        step<T>(o, has, k);
#endif
    }
    balanced();
}
// nesting to exactly the declared depth costs nothing; every level is reachable, distinct, and is the declared sentinel in memory
template<class T, unsigned D> void depth() {
    using O = nest_t<T, D>;
    constexpr u64 n = Niche<T>::n;
    VP_CHECK(opt::option_traits<T>::max_level == n);
    constexpr bool free_ = D <= n && (BUILTIN || D == 1);      // nesting relies on the built-in traits of opt::option itself
    VP_CHECK((sizeof(O) == sizeof(T)) == free_);
    O o;
    VP_CHECK(!o.has_value());
    u64 a = fresh<O>("a"), b = fresh<O>("b");
    o = mk<O>(a); VP_CHECK(keyof<O>(o) == a);
    o = mk<O>(b); VP_CHECK(keyof<O>(o) == b);
    if constexpr (copyable<T>) { const O p(o); VP_CHECK(keyof<O>(p) == b); VP_CHECK(keyof<O>(o) == b); }
    if constexpr (free_) {
        // engage every level, then write each sentinel (or a plain value) in place
        u64 v = fresh<T>("v");
        vp_assume(v < (u64(1) << 62));
        O q = mk<O>(v + D);
        T& l = leaf(q);
        VP_CHECK(keyof<T>(l) == v);
        read_level(q, D, D);
        u64 i = vp_choice(D, "level");
        l.m = Niche<T>::lit(i);
        read_level(q, D, i);
        u64 w = fresh<T>("w");
        leaf(q) = mk<T>(w);
        read_level(q, D, D);
        VP_CHECK(keyof<T>(leaf(q)) == w);
    }
}
template<class T> void depth_sot() {       // types carrying the sentinel themselves
    using O = opt::option<T>; using OO = opt::option<O>;
    VP_CHECK(opt::option_traits<T>::max_level == 1);
    VP_CHECK(sizeof(O) == sizeof(T) && sizeof(OO) > sizeof(O));
    u64 v = fresh<T>("v"), w = fresh<T>("w");
    O o(mk<T>(v));
    o.get() = Niche<T>::lit(0);
    VP_CHECK(!o.has_value());
    o.get_unchecked() = mk<T>(w);
    VP_CHECK(o.has_value() && keyof<T>(*o) == w);
    o.reset();
    VP_CHECK(!o.has_value() && keyof<T>(o.get_unchecked()) == keyof<T>(Niche<T>::lit(0)));
    u64 a = fresh<OO>("a"), b = fresh<OO>("b");
    OO oo = mk<OO>(a); VP_CHECK(keyof<OO>(oo) == a);
    oo = mk<OO>(b); VP_CHECK(keyof<OO>(oo) == b);
}
#define XV(N) VP_HARNESS(C17, values_##N) { values<N>(); } VP_HARNESS(C17, history_##N) { history<N>(); } VP_HARNESS(C17, nested_values_##N) { values<opt::option<N>>(); }
XV(S1) XV(S2) XV(S3) XV(S4) XV(S9) XV(SL) XV(SP) XV(SC) XV(SB) XV(SM) XV(F1) XV(F2) XV(F4) XV(F7) XV(FR) XV(Id) XV(Id2)
#define XD(N) VP_HARNESS(C17, depth1_##N) { depth<N, 1>(); } VP_HARNESS(C17, depth2_##N) { depth<N, 2>(); } VP_HARNESS(C17, depth3_##N) { depth<N, 3>(); }
#define XD5(N) XD(N) VP_HARNESS(C17, depth4_##N) { depth<N, 4>(); } VP_HARNESS(C17, depth5_##N) { depth<N, 5>(); }
XD(S1) XD(S2) XD5(S3) XD5(S4) XD(SL) XD(SP) XD(SC) XD5(SB) XD(SM) XD(F1) XD(F2) XD5(F4) XD5(FR)
VP_HARNESS(C17, depth6_S9) { depth<S9, 6>(); }
VP_HARNESS(C17, depth9_S9) { depth<S9, 9>(); }
VP_HARNESS(C17, depth10_S9) { depth<S9, 10>(); }
VP_HARNESS(C17, depth7_F7) { depth<F7, 7>(); }
VP_HARNESS(C17, depth8_F7) { depth<F7, 8>(); }
VP_HARNESS(C17, depth_Id) { depth_sot<Id>(); }
VP_HARNESS(C17, depth_Id2) { depth_sot<Id2>(); }

// the trait functions on every object: get_level is i exactly for sentinel i and out of range otherwise
template<class T> void trait_of_value() {
    using U = typename Niche<T>::U_;
    T t(mk<U>(Gen<U>::fresh("u")));
    u64 before = keyof<T>(t);
    u64 l = opt::option_traits<T>::get_level(&t);
    VP_CHECK(keyof<T>(t) == before);
    u64 want = Niche<T>::n;
    for (u64 i = Niche<T>::n; i-- > 0;) if (keyof<U>(Niche<T>::lit(i)) == before) want = i;
    if (want < Niche<T>::n) VP_CHECK(l == want); else VP_CHECK(l >= Niche<T>::n);
    u64 i = vp_choice(u32(Niche<T>::n), "set");
    opt::option_traits<T>::set_level(&t, i);
    VP_CHECK(opt::option_traits<T>::get_level(&t) == i);
    VP_CHECK(keyof<T>(t) == keyof<U>(Niche<T>::lit(i)));
}
#define XT(N) VP_HARNESS(C17, trait_##N) { trait_of_value<N>(); }
XT(S1) XT(S2) XT(S3) XT(S4) XT(S9) XT(SL) XT(SP) XT(SC) XT(SB) XT(SM)
VP_HARNESS(C17, trait_F4) { F4 t(vp_u32("v")); u64 h = t.m >> 16; u64 l = opt::option_traits<F4>::get_level(&t);
    const u64 want[] = {3, 1, 2, 0}; for (u64 i = 0; i < 4; ++i) VP_CHECK((l == i) == (h == want[i])); if (h > 3) VP_CHECK(l >= 4);
    u64 i = vp_choice(4, "set"); opt::option_traits<F4>::set_level(&t, i); VP_CHECK(t.m == (u32(want[i]) << 16 | 0x1234u)); VP_CHECK(opt::option_traits<F4>::get_level(&t) == i); }
VP_HARNESS(C17, trait_FR) { Rec r{vp_u32("id"), vp_u16("kind"), vp_u16("rest")}; const Rec r0 = r; FR t(r); u64 l = opt::option_traits<FR>::get_level(&t);
    for (u64 i = 0; i < 3; ++i) VP_CHECK((l == i) == (r.kind == 11 + i));
    u64 i = vp_choice(3, "set"); opt::option_traits<FR>::set_level(&t, i); VP_CHECK(t.m.kind == 11 + i && t.m.id == r0.id && t.m.rest == r0.rest); }
VP_HARNESS(C17, trait_Id2) { Id2 v{vp_u16("a"), vp_u16("b")}; VP_CHECK((opt::option_traits<Id2>::get_level(&v) == 0) == ((v.a == 3) & (v.b == 4))); }
