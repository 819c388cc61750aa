// configs: A B C D
// configs-thorough: A B C D N
// bound: value and value_or_throw in all four qualifications on empty options reached by any of 8 routes and on engaged options with any value, for each listed type, in debug and release builds, followed by further use of the option
#include "ops.hpp"
using std::move;
template<class O> void thrown(O& o, unsigned a) {
    const O& c = o; bool base = false;
    try {
        switch (a) {
        case 0: (void)o.value(); break;
        case 1: (void)c.value(); break;
        case 2: (void)move(o).value(); break;
        case 3: (void)move(c).value(); break;
        case 4: (void)o.value_or_throw(); break;
        case 5: (void)c.value_or_throw(); break;
        case 6: (void)move(o).value_or_throw(); break;
        default: (void)move(c).value_or_throw(); break;
        }
        VP_FAIL("no exception");
    } catch (const opt::bad_access& e) { const std::exception& s = e; VP_CHECK(s.what() != nullptr && s.what()[0] != 0); base = true; }
    VP_CHECK(base);
}
template<class T> void throws() {
    {
        const unsigned route = vp_choice(n_empty_routes, "route"); opt::option<T> o = build_empty<T>(route, fresh<T>("other"));
        thrown(o, vp_choice(8, "a"));
        read_all<T>(o, false, 0);
        try { (void)o.value(); VP_FAIL("no exception"); } catch (const std::exception&) {}
        const u64 k = fresh<T>("k"); o = mk<T>(k); read_all<T>(o, true, k);
        T t = move(o).value(); VP_CHECK(keyof<T>(t) == k); VP_CHECK(o.has_value());
        T u = move(o = move(t)).value_or_throw(); VP_CHECK(keyof<T>(u) == k);
        o.reset(); thrown(o, 2); VP_CHECK(!o.has_value());
    }
    balanced();
}
#define X(N, T) VP_HARNESS(C16, throws_##N) { throws<T>(); }
VP_ALL_TYPES(X) VP_MOVE_TYPES(X) VP_OPT_TYPES(X) X(Sp0000, Sp0000) X(Sp1111, Sp1111)
template<class R> void ref_throws() {
    using V = std::remove_cv_t<std::remove_reference_t<R>>;
    {
        V x(mk<V>(fresh<V>("x"))); opt::option<R> o; const bool h = vp_fork_(vp_bool("h"));
        if (!h) { thrown(o, vp_choice(8, "a")); VP_CHECK(!o.has_value()); }
        o.emplace(static_cast<R>(x)); auto&& r = o.value(); auto&& s = std::as_const(o).value_or_throw(); auto&& t = move(o).value(); VP_CHECK(&r == &x && &s == &x && &t == &x); o.reset(); thrown(o, vp_choice(8, "b"));
    }
    balanced();
}
VP_HARNESS(C16, throws_ref) { ref_throws<u32&>(); }
VP_HARNESS(C16, throws_cref) { ref_throws<const Trk&>(); }
VP_HARNESS(C16, throws_rref) { ref_throws<Trk&&>(); }
// the exception leaves every object on the way intact, also when nested
VP_HARNESS(C16, nested) {
    {
        const unsigned s = vp_choice(3, "s"); opt::option<opt::option<Trk>> o; if (s > 0) o.emplace(); const u64 k = fresh<Trk>("k"); if (s > 1) o->emplace(mk<Trk>(k));
        unsigned level = 0; bool threw = false; try { opt::option<Trk>& i = o.value(); ++level; Trk& t = i.value_or_throw(); ++level; VP_CHECK(t.k == k); } catch (const opt::bad_access&) { threw = true; }
        VP_CHECK(level == s && threw == (s < 2)); VP_CHECK(o.has_value() == (s > 0)); if (s > 0) VP_CHECK(o->has_value() == (s > 1));
    }
    balanced();
}
