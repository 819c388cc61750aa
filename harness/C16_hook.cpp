// configs: A B D
// configs-thorough: C N
// bound: a user-defined OPTION_VERIFY (documented to be used in every build mode): every unchecked accessor on an empty option, every iterator movement by a symbolic distance and every store of a reserved value reports through it, nothing else does
inline void hook(const char* message) noexcept;
#define OPTION_VERIFY(expression, message) do { if (!(expression)) { ::hook(message); } } while (false)
#include "ops.hpp"
inline void hook(const char* message) noexcept { VP_CHECK(message != nullptr && *message != '\0'); vp_expect_trap(); __builtin_trap(); }
using std::move;
template<class T> std::uintptr_t at(const T& x) { return reinterpret_cast<std::uintptr_t>(std::addressof(x)); }
template<class O> void bad_access(O& o) {
    const O& c = o; std::uintptr_t s = 0;
    const std::ptrdiff_t d = std::ptrdiff_t(vp_u64("d")); vp_assume(d != 0);
    switch (vp_choice(20, "access")) {
    case 0: s = at(o.get()); break;
    case 1: s = at(c.get()); break;
    case 2: { auto&& r = move(o).get(); s = at(r); break; }
    case 3: { auto&& r = move(c).get(); s = at(r); break; }
    case 4: s = at(*o); break;
    case 5: s = at(*c); break;
    case 6: { auto&& r = *move(o); s = at(r); break; }
    case 7: { auto&& r = *move(c); s = at(r); break; }
    case 8: s = reinterpret_cast<std::uintptr_t>(o.operator->()); break;
    case 9: s = reinterpret_cast<std::uintptr_t>(c.operator->()); break;
    case 10: s = at(*o.begin()); break;
    case 11: s = at(*c.end()); break;
    case 12: s = at(o.begin()[0]); break;
    case 13: ++o.begin(); break;
    case 14: o.begin()++; break;
    case 15: { auto i = c.end(); --i; break; }
    case 16: { auto i = c.end(); i--; break; }
    case 17: { auto i = o.begin(); i += d; break; }
    case 18: { auto i = o.begin(); i -= d; break; }
    default: { auto i = o.begin(); (void)(i + d); break; }
    }
    (void)s;
    VP_FAIL("an empty option was accessed without any report");
}
template<class T> void empty() {
    using K = std::remove_cv_t<T>;
    const unsigned route = vp_choice(n_empty_routes, "route");
    const u64 other = fresh<K>("other");
    opt::option<T> o = build_empty<T>(route, other);
    VP_CHECK(!o.has_value()); vp_no_leak_check();
    bad_access(o);
}
template<class T> void engaged() {          // (a failed report would be an unexpected trap)
    {
        bool has; u64 k; opt::option<T> o = sym_option<T>("o", has, k);
        step<T>(o, has, k);
        if (has) { read_all<T>(o, has, k); auto i = o.begin(); ++i; --i; i += 1; i -= 1; VP_CHECK(i == o.begin()); }
        else { auto i = o.begin(); i += 0; VP_CHECK(i == o.end()); }
    }
    balanced();
}
#define X(N, T) VP_HARNESS(C16, hook_##N) { empty<T>(); } VP_HARNESS(C16, quiet_##N) { engaged<T>(); }
X(int, int) X(bool, bool) X(ptr, int*) X(Color, Color) X(Trk, Trk) X(TrkN, TrkN) X(string, std::string) X(OInt, OInt)
VP_HARNESS(C16, hook_ref) { opt::option<int&> o; if (vp_fork_(vp_bool("was"))) { o = g_ints[1]; o.reset(); } VP_CHECK(!o.has_value()); bad_access(o); }
// reserved values
enum class Sn : u8 { a, b, SENTINEL };
VP_HARNESS(C16, hook_store) {
    opt::option<Sn> o; const bool h = vp_fork_(vp_bool("h")); if (h) o = Sn::b;
    const Sn v = Sn(vp_u8("v"));
    const unsigned r = vp_choice(6, "r");
    switch (r) {
    case 0: o = v; break;
    case 1: o.emplace(v); break;
    case 2: { opt::option<Sn> p(v); o = p; break; }
    case 3: { opt::option<Sn> p(std::in_place, v); o = move(p); break; }
    case 4: { o.reset(); o.try_emplace(v); break; }
    default: { auto p = opt::make_option<Sn>(v); o = p; break; }
    }
#if OPTION_USE_BUILTIN_TRAITS
    VP_CHECK(v != Sn::SENTINEL);              // otherwise the hook was called and the path ended there
#endif
    VP_CHECK(o.has_value() && *o == v);
}
