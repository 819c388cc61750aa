// configs: A B D
// configs-thorough: C
// bound: every wrapped value symbolic, one operation (2 in the thorough tier) on any state after any construction route; PADDING levels symbolic over the whole member type, nesting up to 5
#include "ops.hpp"
template<class T, unsigned D> struct nest { using type = opt::option<typename nest<T, D - 1>::type>; };
template<class T> struct nest<T, 0> { using type = T; };
template<class T, unsigned D> using nest_t = typename nest<T, D>::type;

// member: the niche of the designated member, whatever the others are
struct FI { float x; u32 y; FI(float x_, u32 y_) : x(x_), y(y_) {} };
struct MB { u32 a; bool b; bool c; MB(u32 a_, bool b_, bool c_) : a(a_), b(b_), c(c_) {} };
struct MT { Trk t; bool b; MT(u32 k, bool b_) : t(k), b(b_) {} };
struct MP { int* p; bool b; MP(int* p_, bool b_) : p(p_), b(b_) {} };
using M1 = opt::member<FI, &FI::x>;
using M2 = opt::member<MB, &MB::b>;
using M3 = opt::member<MB, &MB::c>;
using M4 = opt::member<MT, &MT::b>;
using M5 = opt::member<MP, &MP::p>;      // the other member has more levels: the designated one is used all the same
using E1 = opt::enforce<float>;
using E2 = opt::enforce<PairIB>;
using E3 = opt::enforce<std::string>;
using E4 = opt::enforce<bool>;
using E5 = opt::enforce<Color>;
VP_GEN(M1, u64 k = Gen<float>::fresh(n); return k | u64(vp_u32(n)) << 32;, return M1(mk<float>(k & 0xffffffffu), u32(k >> 32));, return keyof(v.m.x) | u64(v.m.y) << 32;)
#define VP_GEN_MB(T) VP_GEN(T, u64 k = vp_u32(n); u64 b = vp_bool(n) ? 1 : 0; u64 c = vp_bool(n) ? 1 : 0; return k | b << 32 | c << 40;, return T(MB(u32(k), ((k >> 32) & 1) != 0, (k >> 40) != 0));, return u64(v.m.a) | keyof(v.m.b) << 32 | keyof(v.m.c) << 40;)
VP_GEN_MB(M2) VP_GEN_MB(M3)
VP_GEN(M4, u64 k = Gen<Trk>::fresh(n); return k | (vp_bool(n) ? u64(1) << 32 : 0);, return M4(u32(k), (k >> 32) != 0);, return keyof(v.m.t) | keyof(v.m.b) << 32;)
VP_GEN(M5, u64 k = vp_u32(n); return k | (vp_bool(n) ? u64(1) << 32 : 0);, return M5(reinterpret_cast<int*>(k & 0xffffffffu), (k >> 32) != 0);, return reinterpret_cast<u64>(v.m.p) | keyof(v.m.b) << 32;)
#define VP_GEN_E(T, U) VP_GEN(T, return Gen<U>::fresh(n);, return T(mk<U>(k));, return keyof<U>(v.m);)
VP_GEN_E(E1, float) VP_GEN_E(E2, PairIB) VP_GEN_E(E3, std::string) VP_GEN_E(E4, bool) VP_GEN_E(E5, Color)

// PADDING members of every width and position
struct P8 { u32 a; u8 b; u8 PADDING{}; };
struct P16 { u16 PADDING{}; u16 a; };
struct P32 { u64 a; u32 PADDING{}; u32 b; };
struct P64 { u64 PADDING{}; u64 a; };
struct PT { u8 PADDING; Trk t; explicit PT(u32 k) : PADDING(0), t(k) {} };
VP_GEN(P8, u64 k = vp_u32(n); return k | u64(vp_u8(n)) << 32;, return (P8{u32(k), u8(k >> 32)});, VP_CHECK(v.PADDING == 0); return u64(v.a) | u64(v.b) << 32;)
VP_GEN(P16, return vp_u16(n);, return (P16{0, u16(k)});, VP_CHECK(v.PADDING == 0); return u64(v.a);)
VP_GEN(P32, u64 k = vp_u32(n); return k | u64(vp_u32(n)) << 32;, return (P32{u64(u32(k)) * 0x100000001u, 0, u32(k >> 32)});, VP_CHECK(v.PADDING == 0); VP_CHECK(u32(v.a) == v.a >> 32); return u64(u32(v.a)) | u64(v.b) << 32;)
VP_GEN(P64, return vp_u64(n) >> 1;, return (P64{0, k});, VP_CHECK(v.PADDING == 0); return v.a;)
VP_GEN(PT, return Gen<Trk>::fresh(n);, return PT(u32(k));, VP_CHECK(v.PADDING == 0); return keyof(v.t);)

// user-provided traits: full specialization, partial specialization over a family, sentinel base with a member
struct Cust { u32 v; };
template<> struct opt::option_traits<Cust> {
    static constexpr std::uintmax_t max_level = 5;
    static std::uintmax_t get_level(const Cust* c) noexcept { return std::uintmax_t(c->v) - 0xfffffff0u; }
    static void set_level(Cust* c, std::uintmax_t l) noexcept { c->v = u32(0xfffffff0u + l); }
};
template<class T> struct Tagged { T v; u8 tag; };
template<class T> struct opt::option_traits<Tagged<T>> {
    static constexpr std::uintmax_t max_level = 200;
    static std::uintmax_t get_level(const Tagged<T>* c) noexcept { return c->tag < 200 ? c->tag : std::uintmax_t(-1); }
    static void set_level(Tagged<T>* c, std::uintmax_t l) noexcept { c->tag = u8(l); }
};
struct Base0 { u16 code; };
struct Deriv0 : Base0 { Deriv0() = default; explicit Deriv0(u16 c) : Base0{c} {} };
template<class T> struct opt::option_traits<T, std::enable_if_t<std::is_base_of_v<Base0, T>>> {
    static constexpr std::uintmax_t max_level = 2;
    static std::uintmax_t get_level(const T* c) noexcept { return c->code == 9 ? 0 : c->code == 8 ? 1 : 2; }
    static void set_level(T* c, std::uintmax_t l) noexcept { c->code = l == 0 ? 9 : 8; }
};
using TagI = Tagged<u32>;
VP_GEN(Cust, u64 k = vp_u32(n); vp_assume((k < 0xfffffff0u) | (k >= 0xfffffff5u)); return k;, return Cust{u32(k)};, return v.v;)
VP_GEN(TagI, u64 k = vp_u32(n); u64 t = vp_u8(n); vp_assume(t >= 200); return k | t << 32;, return (TagI{u32(k), u8(k >> 32)});, return u64(v.v) | u64(v.tag) << 32;)
VP_GEN(Deriv0, u64 k = vp_u16(n); vp_assume((k != 8) & (k != 9)); return k;, return Deriv0(u16(k));, return v.code;)

// tuple-like types: member get, free get
struct TLm { u32 a; bool b; template<std::size_t I> auto& get() { if constexpr (I == 0) return a; else return b; } template<std::size_t I> const auto& get() const { if constexpr (I == 0) return a; else return b; }
    TLm(u32 a_, bool b_) : a(a_), b(b_) {} };
struct TLf { bool a; float f; u16 c; TLf(bool a_, float f_, u16 c_) : a(a_), f(f_), c(c_) {} };
template<std::size_t I> auto& get(TLf& t) { if constexpr (I == 0) return t.a; else if constexpr (I == 1) return t.f; else return t.c; }
template<std::size_t I> const auto& get(const TLf& t) { if constexpr (I == 0) return t.a; else if constexpr (I == 1) return t.f; else return t.c; }
template<> struct std::tuple_size<TLm> : std::integral_constant<std::size_t, 2> {};
template<> struct std::tuple_element<0, TLm> { using type = u32; };
template<> struct std::tuple_element<1, TLm> { using type = bool; };
template<> struct std::tuple_size<TLf> : std::integral_constant<std::size_t, 3> {};
template<> struct std::tuple_element<0, TLf> { using type = bool; };
template<> struct std::tuple_element<1, TLf> { using type = float; };
template<> struct std::tuple_element<2, TLf> { using type = u16; };
VP_GEN(TLm, u64 k = vp_u32(n); return k | (vp_bool(n) ? u64(1) << 32 : 0);, return TLm(u32(k), (k >> 32) != 0);, return u64(v.a) | keyof(v.b) << 32;)
VP_GEN(TLf, u64 k = Gen<float>::fresh(n); u64 a = vp_bool(n) ? 1 : 0; u64 c = vp_u16(n); return k | a << 32 | c << 40;, return TLf(((k >> 32) & 1) != 0, mk<float>(k & 0xffffffffu), u16(k >> 40));, return keyof(v.a) << 32 | keyof(v.f) | u64(v.c) << 40;)

template<class T> void values() {
    {
        VP_CHECK(sizeof(opt::option<T>) == sizeof(T));
        VP_CHECK(alignof(opt::option<T>) == alignof(T));
        bool has = vp_fork_(vp_bool("has"));
        u64 k = fresh<T>("k"), other = fresh<T>("other");
        opt::option<T> o = has ? build<T>(vp_choice(n_routes<T>, "route"), k, other) : build_empty<T>(vp_choice(n_empty_routes, "route"), other);
        read_all<T>(o, has, k);
    }
    balanced();
}
template<class T> void history() {
    {
        bool has; u64 k;
        opt::option<T> o = sym_option<T>("o", has, k);
        step<T>(o, has, k);
#ifdef VP_DEEP
        step<T>(o, has, k);
#endif
    }
    balanced();
}
template<class T, unsigned D> void depth() {
    using O = nest_t<T, D>;
    VP_CHECK((sizeof(O) == sizeof(T)) == (D <= opt::option_traits<T>::max_level));
    {
        u64 a = fresh<O>("a"), b = fresh<O>("b");
        O o = mk<O>(a); VP_CHECK(keyof<O>(o) == a);
        o = mk<O>(b); VP_CHECK(keyof<O>(o) == b);
        O p(std::move(o)); VP_CHECK(keyof<O>(p) == b);
    }
    balanced();
}
#define X(N) VP_HARNESS(C17, w_values_##N) { values<N>(); } VP_HARNESS(C17, w_history_##N) { history<N>(); } VP_HARNESS(C17, w_depth2_##N) { depth<N, 2>(); } VP_HARNESS(C17, w_depth3_##N) { depth<N, 3>(); }
X(M1) X(M2) X(M3) X(M4) X(M5) X(E1) X(E2) X(E3) X(E4) X(E5) X(P8) X(P16) X(P32) X(P64) X(PT) X(Cust) X(TagI) X(Deriv0) X(TLm) X(TLf)
VP_HARNESS(C17, w_depth5_Cust) { depth<Cust, 5>(); }
VP_HARNESS(C17, w_depth6_Cust) { depth<Cust, 6>(); }

// the level is taken from and written to the declared place and nothing else
template<class W, class U, class P> void carries(P get) {
    using TW = opt::option_traits<W>; using TU = opt::option_traits<U>;
    VP_CHECK(TW::max_level == TU::max_level && TU::max_level > 0);
    alignas(W) unsigned char mem[sizeof(W)]; unsigned char ref[sizeof(W)];
    vp_bytes(mem, sizeof mem, "mem"); std::memcpy(ref, mem, sizeof mem);
    W* w = reinterpret_cast<W*>(mem);
    U* u = get(w);
    const unsigned off = unsigned(reinterpret_cast<unsigned char*>(u) - mem);
    const u64 l = TW::get_level(w);
    VP_CHECK(l == TU::get_level(u));
    for (unsigned i = 0; i < sizeof mem; ++i) VP_CHECK(mem[i] == ref[i]);
    u64 s = vp_u64("s"); vp_assume(s < TW::max_level);
    TW::set_level(w, s);
    VP_CHECK(TW::get_level(w) == s && TU::get_level(u) == s);
    for (unsigned i = 0; i < sizeof mem; ++i) if (i < off || i >= off + sizeof(U)) VP_CHECK(mem[i] == ref[i]);
}
VP_HARNESS(C17, at_M1) { carries<M1, float>([](M1* w) { return &w->m.x; }); }
VP_HARNESS(C17, at_M2) { carries<M2, bool>([](M2* w) { return &w->m.b; }); }
VP_HARNESS(C17, at_M3) { carries<M3, bool>([](M3* w) { return &w->m.c; }); }
VP_HARNESS(C17, at_M5) { carries<M5, int*>([](M5* w) { return &w->m.p; }); }
VP_HARNESS(C17, at_E1) { carries<E1, float>([](E1* w) { return &w->m; }); }
VP_HARNESS(C17, at_E2) { carries<E2, bool>([](E2* w) { return &w->m.second; }); }
VP_HARNESS(C17, at_TLm) { carries<TLm, bool>([](TLm* w) { return &w->b; }); }
VP_HARNESS(C17, at_TLf) { carries<TLf, float>([](TLf* w) { return &w->f; }); }
template<class P> void padding_levels() {
    using M = decltype(std::declval<P&>().PADDING); using TR = opt::option_traits<P>;
    VP_CHECK(TR::max_level == u64(M(~M(0))));
    P p = mk<P>(fresh<P>("v"));
    const P before = p;
    VP_CHECK(TR::get_level(&p) >= TR::max_level);               // PADDING == 0: a value
    u64 l = vp_u64("l"); vp_assume(l < TR::max_level);
    TR::set_level(&p, l);
    VP_CHECK(TR::get_level(&p) == l);
    VP_CHECK(p.PADDING != 0);
    p.PADDING = 0;
    VP_CHECK(keyof<P>(p) == keyof<P>(before));                   // no other member is touched
    M m = M(vp_u64("m")); vp_assume(m != 0);
    p.PADDING = m;                                               // every other content is one of the levels
    VP_CHECK(TR::get_level(&p) < TR::max_level);
    opt::option<P> o; VP_CHECK(!o.has_value()); VP_CHECK(o.get_unchecked().PADDING != 0);
    o = before; VP_CHECK(o.has_value() && keyof<P>(*o) == keyof<P>(before));
    o->PADDING = M(TR::max_level == 0 ? 0 : 1);
    bool first = !o.has_value();
    VP_CHECK(first == (TR::get_level(&o.get_unchecked()) == 0));
}
VP_HARNESS(C17, padding_P8) { padding_levels<P8>(); }
VP_HARNESS(C17, padding_P16) { padding_levels<P16>(); }
VP_HARNESS(C17, padding_P32) { padding_levels<P32>(); }
VP_HARNESS(C17, padding_P64) { padding_levels<P64>(); }

// the wrappers mimic the wrapped type
template<class W, class U> void mimic() {
    {
        u64 a = fresh<U>("a"), b = fresh<U>("b"), c = fresh<U>("c");
        W w(mk<U>(a));
        VP_CHECK(keyof<U>(w.m) == a);
        U& r = w; VP_CHECK(&r == &w.m);
        const W& cw = w; const U& cr = cw; VP_CHECK(&cr == &w.m);
        r = mk<U>(b); VP_CHECK(keyof<U>(w.m) == b);
        w = mk<U>(c); VP_CHECK(keyof<U>(w.m) == c);
        const U cu = mk<U>(a); w = cu; VP_CHECK(keyof<U>(w.m) == a); VP_CHECK(keyof<U>(cu) == a);
        W w2(w); VP_CHECK(keyof<U>(w2.m) == a && keyof<U>(w.m) == a);
        w2 = mk<U>(b); w = w2; VP_CHECK(keyof<U>(w.m) == b && keyof<U>(w2.m) == b);
        U&& rr = static_cast<W&&>(w); VP_CHECK(&rr == &w.m);
        const U&& crr = static_cast<const W&&>(w); VP_CHECK(&crr == &w.m);
        U moved = std::move(w); VP_CHECK(keyof<U>(moved) == b);
        opt::option<W> o(mk<U>(a)); VP_CHECK(o.has_value() && keyof<U>(o->m) == a);
        o = mk<U>(b); VP_CHECK(o.has_value() && keyof<U>(o->m) == b);
        U& in = *o; in = mk<U>(c); VP_CHECK(o.has_value() && keyof<U>(o->m) == c);
        U out = o.value_or(W(mk<U>(a))); VP_CHECK(keyof<U>(out) == c);
        auto mp = o.map([&](const U& v) { VP_CHECK(keyof<U>(v) == c); return keyof<U>(v); }); VP_CHECK(*mp == c);
    }
    balanced();
}
using WI = opt::sentinel<int, -1>; using WT = opt::sentinel<Trk>; using WS = opt::sentinel<std::string>;
VP_HARNESS(C17, mimic_int) { mimic<opt::sentinel<u64>, u64>(); }
VP_HARNESS(C17, mimic_float) { mimic<E1, float>(); }
VP_HARNESS(C17, mimic_string) { mimic<E3, std::string>(); }
VP_HARNESS(C17, mimic_pair) { mimic<E2, PairIB>(); }
VP_HARNESS(C17, mimic_MT) { // constructed from several arguments, non-trivial content
    {
        u64 a = Gen<Trk>::fresh("a"); bool b = vp_bool("b");
        opt::option<M4> o(std::in_place, u32(a), b);
        VP_CHECK(o.has_value() && keyof(o->m.t) == a && o->m.b == b);
        const MT& r = *o; VP_CHECK(keyof(r.t) == a);
        u64 c = Gen<Trk>::fresh("c"); o->m.t = Trk(u32(c)); o->m.b = !b;
        VP_CHECK(o.has_value() && keyof(o->m.t) == c && o->m.b == !b);
        o.emplace(u32(a), !b); VP_CHECK(o.has_value() && keyof(o->m.t) == a && o->m.b == !b);
        o.reset(); VP_CHECK(!o.has_value()); VP_CHECK(g_log.live == 0);
    }
    balanced();
}
