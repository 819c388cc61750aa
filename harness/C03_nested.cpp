// configs: A B D N Q
// bound: nesting depth 2 and 3 for every listed type (up to 6 for bool), all nesting states and payload values symbolic, one transition between any two states by any of 10 routes
#include "ops.hpp"
template<class T, unsigned D> struct nest { using type = opt::option<typename nest<T, D - 1>::type>; };
template<class T> struct nest<T, 0> { using type = T; };
template<class T, unsigned D> using nest_t = typename nest<T, D>::type;

template<class O> void same(const O& o, u64 k) { VP_CHECK(keyof<O>(o) == k); }

// O is an option of an option: every state it can be in is distinguishable and reachable from every other
template<class O> void states() {
    {
        using I = typename O::value_type;
        u64 a = fresh<O>("a"), b = fresh<O>("b");
        O o = mk<O>(a);
        same(o, a);
        VP_CHECK(o.has_value() == (a != 0));
        if (a != 0) VP_CHECK(o->has_value() == (a != 1));
        switch (vp_choice(9, "route")) {
        case 0: o = mk<O>(b); same(o, b); break;
        case 1: { O p = mk<O>(b); o.swap(p); same(o, b); same(p, a); break; }
        case 2: { O p(std::move(o)); same(p, a); o = mk<O>(b); same(o, b); break; }
        case 3: o.reset(); same(o, 0); o = opt::none; same(o, 0); break;
        case 4: o.emplace(); same(o, 1); VP_CHECK(o.has_value() && !o->has_value()); break;
        case 5: o.emplace(opt::none); same(o, 1); o.get() = mk<I>(b == 0 ? 0 : b - 1); same(o, b == 0 ? 1 : b); break;
        case 6: if (a != 0) { o->reset(); same(o, 1); } break;
        case 7: { O t = o.take(); same(t, a); same(o, 0); break; }
        case 8: { u64 i = b == 0 ? 0 : b - 1; o = mk<I>(i); same(o, i + 1); o.reset(); o.emplace(mk<I>(i)); same(o, i + 1); I in = std::move(o).get(); same(in, i); break; }
        default: break;
        }
    }
    balanced();
}
template<class O> bool all_engaged(const O& o) {
    if constexpr (opt::is_option_v<typename O::value_type>) return o.has_value() && all_engaged(o.get());
    else return o.has_value();
}
template<class O> auto& innermost(O& o) {
    if constexpr (opt::is_option_v<typename O::value_type>) return innermost(o.get());
    else return o.get();
}
template<class O> void copies() {
    {
        using I = typename O::value_type;
        u64 a = fresh<O>("a"), b = fresh<O>("b");
        O o = mk<O>(a);
        same(o, a);
        switch (vp_choice(5, "route")) {
        case 0: { const O p = mk<O>(b); o = p; same(o, b); same(p, b); O q(o); same(q, b); break; }
        case 1: { u64 i = b == 0 ? 0 : b - 1; const I in = mk<I>(i); O q(in); same(q, i + 1); q = opt::none; same(q, 0); q = in; same(q, i + 1); O r2(std::in_place, in); same(r2, i + 1); same(in, i); break; }
        case 2: { O f = o.filter([](const I&) { return true; }); same(f, a); O g = o.filter([](const I&) { return false; }); same(g, 0); same(o, a); break; }
        case 3: { O f = o | mk<O>(b); same(f, a != 0 ? a : b); auto m = o.map([](const I& x) { return x; }); same<O>(m, a);
                  O h = o.or_else([&] { return mk<O>(b); }); same(h, a != 0 ? a : b); same(o, a); break; }
        default: {
            const bool all = all_engaged(o);
            auto fl = opt::flatten(o);
            VP_CHECK(fl.has_value() == all);
            if (all) VP_CHECK(&fl.get() == &innermost(o));
            auto fc = opt::flatten(static_cast<const O&>(o));
            VP_CHECK(fc.has_value() == all);
            if (all) VP_CHECK(&fc.get() == &innermost(o));
            same(o, a);
            u64 leaf = all ? keyof(innermost(o)) : 0;
            auto fm = opt::flatten(std::move(o));
            VP_CHECK(fm.has_value() == all);
            if (all) VP_CHECK(keyof(fm.get()) == leaf);
            break; }
        }
    }
    balanced();
}
#define XM(N, T) VP_HARNESS(C03, two_##N) { states<nest_t<T, 2>>(); } VP_HARNESS(C03, three_##N) { states<nest_t<T, 3>>(); }
#define X(N, T) XM(N, T) VP_HARNESS(C03, twoc_##N) { copies<nest_t<T, 2>>(); } VP_HARNESS(C03, threec_##N) { copies<nest_t<T, 3>>(); }
VP_ALL_TYPES(X) VP_MOVE_TYPES(XM) X(Sp0000, Sp0000) X(Sp1111, Sp1111) X(Sp0101, Sp0101)
#define X5(N, T) VP_HARNESS(C03, four_##N) { states<nest_t<T, 4>>(); } VP_HARNESS(C03, five_##N) { states<nest_t<T, 5>>(); }
X5(bool, bool) X5(int, int) X5(TrkN, TrkN) X5(Trk, Trk)
VP_HARNESS(C03, six_bool) { states<nest_t<bool, 6>>(); }

// options inside library aggregates inside options
using PO = std::pair<u32, opt::option<bool>>;
VP_HARNESS(C03, pair_of_option) {
    using O = opt::option<PO>; using OO = opt::option<O>;
    u32 x = vp_u32("x"); u64 b = fresh<OBool>("b");
    OO o;
    VP_CHECK(!o.has_value());
    o.emplace();
    VP_CHECK(o.has_value() && !o->has_value());
    o->emplace(x, mk<OBool>(b));
    VP_CHECK(o.has_value() && o->has_value() && (**o).first == x); same((**o).second, b);
    (**o).second.reset();
    VP_CHECK(o.has_value() && o->has_value() && (**o).first == x); same((**o).second, 0);
    o->reset();
    VP_CHECK(o.has_value() && !o->has_value());
    o.reset();
    VP_CHECK(!o.has_value());
}
VP_HARNESS(C03, tuple_of_options) {
    using T = std::tuple<OInt, OBool, OOBool>;
    opt::option<T> o;
    u64 a = fresh<OInt>("a"), b = fresh<OBool>("b"), c = fresh<OOBool>("c");
    VP_CHECK(!o.has_value());
    o.emplace(mk<OInt>(a), mk<OBool>(b), mk<OOBool>(c));
    VP_CHECK(o.has_value());
    same(std::get<0>(*o), a); same(std::get<1>(*o), b); same(std::get<2>(*o), c);
    opt::option<opt::option<T>> oo(o);
    VP_CHECK(oo.has_value() && oo->has_value());
    same(std::get<0>(**oo), a); same(std::get<1>(**oo), b); same(std::get<2>(**oo), c);
    oo->reset(); VP_CHECK(oo.has_value() && !oo->has_value());
    oo.reset(); VP_CHECK(!oo.has_value());
}
VP_HARNESS(C03, array_of_options) {
    using A = std::array<OBool, 2>;
    u64 a = fresh<OBool>("a"), b = fresh<OBool>("b");
    opt::option<A> o;
    VP_CHECK(!o.has_value());
    o = A{{mk<OBool>(a), mk<OBool>(b)}};
    VP_CHECK(o.has_value()); same((*o)[0], a); same((*o)[1], b);
    (*o)[0] = mk<OBool>(b);
    VP_CHECK(o.has_value()); same((*o)[0], b);
}
VP_HARNESS(C03, option_of_ref) {
    using R = opt::option<int&>; using O = opt::option<R>; using OO = opt::option<O>;
    int x = int(vp_u32("x"));
    O o; VP_CHECK(!o.has_value());
    o.emplace(); VP_CHECK(o.has_value() && !o->has_value());
    o.emplace(x); VP_CHECK(o.has_value() && o->has_value() && &o->get() == &x);
    OO oo; VP_CHECK(!oo.has_value());
    oo.emplace(); VP_CHECK(oo.has_value() && !oo->has_value());
    oo.emplace(o); VP_CHECK(oo.has_value() && oo->has_value() && (*oo)->has_value() && &(**oo).get() == &x);
    (**oo).reset(); VP_CHECK(oo.has_value() && oo->has_value() && !(*oo)->has_value());
    oo->reset(); VP_CHECK(oo.has_value() && !oo->has_value());
    oo = opt::none; VP_CHECK(!oo.has_value());
#if !defined(OPTION_USE_BUILTIN_TRAITS) || OPTION_USE_BUILTIN_TRAITS
    VP_CHECK(sizeof(OO) == sizeof(int*));
#endif
}
// bound to an object at any address an object can have
template<class R> void ref_anywhere() {
    using C = std::remove_reference_t<R>;
    using O = opt::option<opt::option<R>>; using OO = opt::option<O>;
    const u64 a = vp_u64("address"); vp_assume((a >= 4096) & (a < (u64(1) << 47)));
    C& r = *reinterpret_cast<C*>(a);
    O o; o.emplace(r);
    VP_CHECK(o.has_value() && o->has_value() && u64(std::addressof(o->get())) == a);
    OO oo(o);
    VP_CHECK(oo.has_value() && oo->has_value() && (*oo)->has_value() && u64(std::addressof((*oo)->get())) == a);
    O p; p = opt::option<R>(r);
    VP_CHECK(p.has_value() && p->has_value() && u64(std::addressof(p->get())) == a);
    p->reset(); VP_CHECK(p.has_value() && !p->has_value());
    p = opt::none; VP_CHECK(!p.has_value());
}
VP_HARNESS(C03, ref_anywhere_char) { ref_anywhere<char&>(); }
VP_HARNESS(C03, ref_anywhere_cstr) { ref_anywhere<const std::string&>(); }
