// configs: A B D
// configs-thorough: C N
// bound: 1 (for most types; 2 in the thorough tier) symbolic operations on an option of each composite type in every state, each operation writing one symbolic member in place, replacing, copying, moving, or emptying; every member checked after every operation, at one and two levels of nesting
#include "ops.hpp"
#include <string>
#ifndef VP_DEEP
#define VP_DEEP 0
#endif

// members of a composite as a tuple of references
template<class T> struct Tie;
template<class A, class B> struct Tie<std::pair<A, B>> { static auto tie(std::pair<A, B>& v) { return std::tie(v.first, v.second); } };
template<class... A> struct Tie<std::tuple<A...>> { static auto tie(std::tuple<A...>& v) { return std::apply([](auto&... x) { return std::tie(x...); }, v); } };
template<class A, std::size_t N> struct Tie<std::array<A, N>> { static auto tie(std::array<A, N>& v) { return std::apply([](auto&... x) { return std::tie(x...); }, v); } };
template<class A> struct Tie<std::complex<A>> { static auto tie(std::complex<A>& v) { A* p = reinterpret_cast<A*>(&v); return std::tie(p[0], p[1]); } };
#define G(N, TP, MEM, ARGS) template<TP> struct G##N { MEM }; template<TP> struct Tie<G##N<ARGS>>
#define C_ ,
template<class A> struct G1 { A a; };
template<class A> struct Tie<G1<A>> { static auto tie(G1<A>& v) { return std::tie(v.a); } };
template<class A, class B> struct G2 { A a; B b; };
template<class A, class B> struct Tie<G2<A, B>> { static auto tie(G2<A, B>& v) { return std::tie(v.a, v.b); } };
template<class A, class B, class C> struct G3 { A a; B b; C c; };
template<class A, class B, class C> struct Tie<G3<A, B, C>> { static auto tie(G3<A, B, C>& v) { return std::tie(v.a, v.b, v.c); } };
template<class A, class B, class C, class D> struct G4 { A a; B b; C c; D d; };
template<class A, class B, class C, class D> struct Tie<G4<A, B, C, D>> { static auto tie(G4<A, B, C, D>& v) { return std::tie(v.a, v.b, v.c, v.d); } };
template<class A, class B, class C, class D, class E, class F, class H> struct G7 { A a; B b; C c; D d; E e; F f; H h; };
template<class A, class B, class C, class D, class E, class F, class H> struct Tie<G7<A, B, C, D, E, F, H>> { static auto tie(G7<A, B, C, D, E, F, H>& v) { return std::tie(v.a, v.b, v.c, v.d, v.e, v.f, v.h); } };
// 16 members, the P-th of which is of type X
template<int I, int P, class X> using At = std::conditional_t<I == P, X, std::conditional_t<I % 3 == 0, u32, std::conditional_t<I % 3 == 1, u8, u16>>>;
template<int P, class X> struct G16 { At<0, P, X> a; At<1, P, X> b; At<2, P, X> c; At<3, P, X> d; At<4, P, X> e; At<5, P, X> f; At<6, P, X> g; At<7, P, X> h;
    At<8, P, X> i; At<9, P, X> j; At<10, P, X> k; At<11, P, X> l; At<12, P, X> m; At<13, P, X> n; At<14, P, X> o; At<15, P, X> p; };
template<int P, class X> struct Tie<G16<P, X>> { static auto tie(G16<P, X>& v) { return std::tie(v.a, v.b, v.c, v.d, v.e, v.f, v.g, v.h, v.i, v.j, v.k, v.l, v.m, v.n, v.o, v.p); } };
template<int P, class X> struct G12 { At<0, P, X> a; At<1, P, X> b; At<2, P, X> c; At<3, P, X> d; At<4, P, X> e; At<5, P, X> f; At<6, P, X> g; At<7, P, X> h;
    At<8, P, X> i; At<9, P, X> j; At<10, P, X> k; At<11, P, X> l; };
template<int P, class X> struct Tie<G12<P, X>> { static auto tie(G12<P, X>& v) { return std::tie(v.a, v.b, v.c, v.d, v.e, v.f, v.g, v.h, v.i, v.j, v.k, v.l); } };
VP_GEN(u16, return vp_u16(n);, return u16(k);, return v;)

template<class T> using tie_t = decltype(Tie<T>::tie(std::declval<T&>()));
template<class T> constexpr unsigned n_mem = std::tuple_size_v<tie_t<T>>;
template<class T, unsigned I> using mem_t = std::remove_reference_t<std::tuple_element_t<I, tie_t<T>>>;
// a model: the key of each member
template<class T> struct Model { u64 k[n_mem<T>]; };
// floating point members that cannot carry the niche, because another member has more spare states: every bit pattern
template<class T, std::size_t I, std::size_t... J> constexpr bool beaten(std::index_sequence<J...>) { return (std::is_pointer_v<mem_t<T, J>> || ...); }
template<class T, std::size_t I> constexpr bool raw_bits = std::is_floating_point_v<mem_t<T, I>> && beaten<T, I>(std::make_index_sequence<n_mem<T>>());
template<class A> constexpr bool raw_bits<std::complex<A>, 1> = true;
template<class T, std::size_t I> u64 fresh_member(const char* n) {
    if constexpr (raw_bits<T, I>) { if constexpr (sizeof(mem_t<T, I>) == 4) return vp_u32(n); else return vp_u64(n); }
    else return Gen<mem_t<T, I>>::fresh(n);
}
template<class T, std::size_t... I> void fresh_model(Model<T>& m, std::index_sequence<I...>) { ((m.k[I] = fresh_member<T, I>("m")), ...); }
template<class T> Model<T> fresh_model() { Model<T> m; fresh_model<T>(m, std::make_index_sequence<n_mem<T>>()); return m; }
template<class T, std::size_t... I> T make(const Model<T>& m, std::index_sequence<I...>) {
    if constexpr (std::is_aggregate_v<T>) return T{Gen<mem_t<T, I>>::make(m.k[I])...};
    else return T(Gen<mem_t<T, I>>::make(m.k[I])...);
}
template<class T> T make(const Model<T>& m) { return make<T>(m, std::make_index_sequence<n_mem<T>>()); }
template<class T, std::size_t... I> void check(T& v, const Model<T>& m, std::index_sequence<I...>) { auto t = Tie<T>::tie(v); ((VP_CHECK(Gen<mem_t<T, I>>::key(std::get<I>(t)) == m.k[I])), ...); }
template<class T> void check(T& v, const Model<T>& m) { check<T>(v, m, std::make_index_sequence<n_mem<T>>()); }
template<class T, std::size_t I> void set_one(T& v, Model<T>& m, unsigned i) {
    if (i != I) return;
    using M = mem_t<T, I>;
    m.k[I] = fresh_member<T, I>("new");
    auto t = Tie<T>::tie(v);
    std::get<I>(t) = Gen<M>::make(m.k[I]);
}
template<class T, std::size_t... I> void set(T& v, Model<T>& m, unsigned i, std::index_sequence<I...>) { (set_one<T, I>(v, m, i), ...); }
template<class T> void set(T& v, Model<T>& m, unsigned i) { set<T>(v, m, i, std::make_index_sequence<n_mem<T>>()); }
template<class T> void check_opt(opt::option<T>& o, bool has, const Model<T>& m) {
    VP_CHECK(o.has_value() == has);
    if (has) check<T>(o.get(), m);
}
template<class T> void one(opt::option<T>& o, bool& has, Model<T>& m) {
    using O = opt::option<T>;
    switch (vp_choice(7, "op")) {
    case 0: { const unsigned i = vp_choice(n_mem<T>, "i"); if (has) set<T>(*o, m, i); break; }                  // write one member in place
    case 1: { m = fresh_model<T>(); has = true; o = make<T>(m); break; }
    case 2: { m = fresh_model<T>(); has = true; T v = make<T>(m); o.emplace(std::move(v)); break; }
    case 3: { o.reset(); has = false; break; }
    case 4: { O t = o.take(); check_opt<T>(t, has, m); VP_CHECK(!o.has_value()); if (t.has_value()) { const unsigned i = vp_choice(n_mem<T>, "i"); set<T>(t.get(), m, i); } o = std::move(t); break; }
    case 5: { O t; o.swap(t); check_opt<T>(t, has, m); VP_CHECK(!o.has_value()); t.swap(o); VP_CHECK(!t.has_value()); break; }
    default: if constexpr (copyable<T>) { O t(o); check_opt<T>(t, has, m); if (has) { Model<T> w = m; set<T>(*t, w, vp_choice(n_mem<T>, "i")); check_opt<T>(t, true, w); } t.reset(); check_opt<T>(o, has, m);
                  const O c(o); o.reset(); VP_CHECK(!o.has_value()); o = c; } break;
    }
    check_opt<T>(o, has, m);
}
template<class T> void members(int steps = VP_DEEP ? 2 : 1) {
    {
        using O = opt::option<T>;
        bool has = vp_fork_(vp_bool("has")); Model<T> m = fresh_model<T>();
        O o = has ? O(make<T>(m)) : O();
        check_opt<T>(o, has, m);
        for (int s = 0; s < steps; ++s) one<T>(o, has, m);
    }
    balanced();
}
// one more level: the composite is written through two levels of option, whose own states are independent
template<class T> void nested() {
    {
        using O1 = opt::option<T>; using O2 = opt::option<O1>;
        const unsigned depth = vp_choice(3, "depth"); Model<T> m = fresh_model<T>();
        O2 o; if (depth == 1) o.emplace(); if (depth == 2) o.emplace(make<T>(m));
        VP_CHECK(o.has_value() == (depth > 0));
        if (depth == 0) return;
        bool has = depth == 2;
        one<T>(*o, has, m);
        VP_CHECK(o.has_value());
        check_opt<T>(*o, has, m);
        O2 p(std::move(o)); VP_CHECK(p.has_value()); check_opt<T>(*p, has, m);
        p.reset(); VP_CHECK(!p.has_value());
    }
}
// a pair of an option of the composite and a composite whose members are options
#define M(NAME, ...) VP_HARNESS(C25, mem_##NAME) { members<__VA_ARGS__>(); }
#define N_(NAME, ...) VP_HARNESS(C25, nest_##NAME) { nested<__VA_ARGS__>(); balanced(); }
#define MN(NAME, ...) M(NAME, __VA_ARGS__) N_(NAME, __VA_ARGS__)
using P = std::pair<u32, bool>;
using G2a = G2<u32, bool>;
template<> struct Gen<G2a> { static u64 fresh(const char* n) { const u64 k = vp_u32(n); return k | u64(vp_bool(n)) << 32; } static G2a make(u64 k) { return G2a{u32(k), (k >> 32) != 0}; } static u64 key(const G2a& v) { return v.a | keyof(v.b) << 32; } };
// pairs: niche in the first, in the second, in both, in none
MN(pair_bi, std::pair<bool, u32>) MN(pair_ib, std::pair<u32, bool>) MN(pair_bb, std::pair<bool, bool>) MN(pair_ii, std::pair<u32, u8>)
MN(pair_db, std::pair<double, bool>) MN(pair_bd, std::pair<bool, double>) MN(pair_pf, std::pair<int*, float>) MN(pair_fp, std::pair<float, int*>)
MN(pair_TN, std::pair<Trk, TrkN>) MN(pair_NT, std::pair<TrkN, Trk>) MN(pair_oo, std::pair<OBool, OBool>) MN(pair_oi, std::pair<OInt, u32>) MN(pair_io, std::pair<u8, OBool>)
MN(pair_pp, std::pair<P, u16>) MN(pair_ip, std::pair<u16, P>) MN(pair_ee, std::pair<Color, Wide>) M(pair_str, std::pair<std::string, u8>) M(pair_vec, std::pair<u8, Vec>) M(pair_uptr, std::pair<u32, UPtr>) M(pair_sv, std::pair<u32, std::string_view>)
// tuples: niche at each position
MN(tup_b, std::tuple<bool>) MN(tup_i, std::tuple<u32>) MN(tup_bii, std::tuple<bool, u32, u8>) MN(tup_ibi, std::tuple<u32, bool, u8>) MN(tup_iib, std::tuple<u32, u8, bool>) MN(tup_iii, std::tuple<u8, u16, u32>)
MN(tup_bdp, std::tuple<bool, double, int*>) MN(tup_odT, std::tuple<OBool, double, TrkN>) MN(tup_TNi, std::tuple<Trk, TrkN, u32>) MN(tup_5, std::tuple<u8, u16, u32, u64, bool>) M(tup_ooo, std::tuple<OInt, OBool, OOBool>) M(tup_uf, std::tuple<u32, UPtr, float>)
MN(tup_g, std::tuple<u8, G2a, u8>)
// arrays: the niche is in one element only
MN(arr_b1, std::array<bool, 1>) MN(arr_b4, std::array<bool, 4>) MN(arr_d2, std::array<double, 2>) MN(arr_i3, std::array<u32, 3>) MN(arr_N2, std::array<TrkN, 2>) MN(arr_T2, std::array<Trk, 2>) MN(arr_o3, std::array<OBool, 3>) MN(arr_P2, std::array<P, 2>) MN(arr_p2, std::array<int*, 2>) M(arr_u2, std::array<UPtr, 2>) M(arr_b16, std::array<bool, 16>)
MN(cplx_f, std::complex<float>) MN(cplx_d, std::complex<double>)
// aggregates through reflection
MN(g1_b, G1<bool>) MN(g1_i, G1<u32>) MN(g1_o, G1<OBool>) MN(g1_N, G1<TrkN>) MN(g2_ib, G2<u32, bool>) MN(g2_bi, G2<bool, u32>) MN(g2_Nb, G2<TrkN, bool>) MN(g2_oo, G2<OBool, OOBool>) MN(g2_nest, G2<u8, G2a>)
MN(g3_bdp, G3<bool, double, int*>) MN(g3_iii, G3<u32, u8, u16>) MN(g3_TiN, G3<Trk, u32, TrkN>) MN(g3_fbf, G3<float, bool, float>) MN(g4_e, G4<u8, Color, Wide, u32>) MN(g4_pair, G4<u32, std::pair<u32, bool>, u8, ArrB>) M(g4_heap, G4<u32, std::string, u8, UPtr>) M(g4_sv, G4<std::string_view, u8, bool, float>)
MN(g7, G7<u8, u16, u32, u64, float, bool, u8>) M(g7_opts, G7<OBool, u16, u8, u8, OInt, u32, bool>) M(g7_trk, G7<u8, Trk, u32, TrkN, float, bool, OTrk>)
MN(g12_0, G12<0, bool>) MN(g12_11, G12<11, bool>) M(g12_5N, G12<5, TrkN>) M(g12_10o, G12<10, OBool>) M(g12_no, G12<3, u32>)
MN(g16_0, G16<0, bool>) MN(g16_7, G16<7, bool>) MN(g16_8, G16<8, bool>) M(g16_14, G16<14, bool>) MN(g16_15, G16<15, bool>) M(g16_15d, G16<15, double>) M(g16_4p, G16<4, int*>) M(g16_9N, G16<9, TrkN>) M(g16_12o, G16<12, OOBool>) M(g16_2g, G16<2, G2a>) M(g16_no, G16<6, u64>)
#if VP_DEEP
M(g7_opts5, G7<OBool, OInt, OOBool, u8, OBool, u32, bool>) M(g16_1, G16<1, bool>) M(g16_2, G16<2, bool>) M(g16_3, G16<3, bool>) M(g16_4, G16<4, bool>) M(g16_5, G16<5, bool>) M(g16_6, G16<6, bool>) M(g16_9, G16<9, bool>) M(g16_10, G16<10, bool>) M(g16_11, G16<11, bool>) M(g16_12, G16<12, bool>) M(g16_13, G16<13, bool>)
#endif

// polymorphic: the niche is the virtual table pointer
struct Base { u32 a; bool b; Base(u32 a_, bool b_) : a(a_), b(b_) {} virtual ~Base() {} virtual u32 id() const { return a; } };
struct Derived : Base { OBool o; u64 c; Derived(u32 a_, bool b_, OBool o_, u64 c_) : Base(a_, b_), o(o_), c(c_) {} u32 id() const override { return ~a; } };
struct Other { u32 z; Other(u32 z_) : z(z_) {} virtual ~Other() {} virtual u32 twice() const { return z * 2; } };
struct Multi : Base, Other { u8 t; Multi(u32 a_, bool b_, u32 z_, u8 t_) : Base(a_, b_), Other(z_), t(t_) {} u32 id() const override { return a + 1; } u32 twice() const override { return z * 2 + 1; } };
struct Tracked : Base { Trk t; Tracked(u32 a_, bool b_, Trk t_) : Base(a_, b_), t(std::move(t_)) {} u32 id() const override { return a ^ 5; } };
template<> struct Tie<Base> { static auto tie(Base& v) { VP_CHECK(v.id() == v.a); return std::tie(v.a, v.b); } };
template<> struct Tie<Derived> { static auto tie(Derived& v) { const Base& b = v; VP_CHECK(b.id() == ~v.a); return std::tie(v.a, v.b, v.o, v.c); } };
template<> struct Tie<Multi> { static auto tie(Multi& v) { const Base& b = v; const Other& o = v; VP_CHECK(b.id() == v.a + 1 && o.twice() == v.z * 2 + 1); return std::tie(v.a, v.b, v.z, v.t); } };
template<> struct Tie<Tracked> { static auto tie(Tracked& v) { const Base& b = v; VP_CHECK(b.id() == (v.a ^ 5)); return std::tie(v.a, v.b, v.t); } };
MN(poly_base, Base) MN(poly_derived, Derived) MN(poly_multi, Multi) MN(poly_tracked, Tracked)
// composites of options of composites
using OP = opt::option<P>; using OG = opt::option<G2a>; using OPP = opt::option<std::pair<OP, u32>>;
MN(deep_pair, std::pair<OP, OP>) MN(deep_g, G3<OG, u32, OP>) M(deep_arr, std::array<OG, 3>) MN(deep_tuple, std::tuple<OOBool, OP, bool>)

// several options of composites beside each other in one object, each with its own state
VP_HARNESS(C25, side_by_side) {
    struct { OP a; OG b; opt::option<std::array<bool, 2>> c; OBool d; } s;
    u64 k[4] = {0, 0, 0, 0};
    auto is = [&] { VP_CHECK(keyof(s.a) == k[0] && keyof(s.b) == k[1] && s.c.has_value() == (k[2] != 0) && keyof(s.d) == k[3]); if (k[2]) VP_CHECK(keyof((*s.c)[0]) == k[2] - 1 && keyof((*s.c)[1]) == k[2] - 1); };
    is();
    for (int i = 0; i < 3; ++i) {
        switch (vp_choice(8, "op")) {
        case 0: k[0] = fresh<P>("p") + 1; s.a = mk<P>(k[0] - 1); break;
        case 1: k[1] = fresh<G2a>("g") + 1; s.b = mk<G2a>(k[1] - 1); break;
        case 2: { const bool v = vp_bool("v"); k[2] = u64(v) + 1; s.c = std::array<bool, 2>{{v, v}}; break; }
        case 3: k[3] = fresh<bool>("d") + 1; s.d = mk<bool>(k[3] - 1); break;
        case 4: k[0] = 0; s.a.reset(); break;
        case 5: k[1] = 0; s.b = opt::none; break;
        case 6: k[2] = 0; (void)s.c.take(); break;
        default: k[3] = 0; s.d.reset(); break;
        }
        is();
    }
}
