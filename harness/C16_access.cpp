// configs: A B
// configs-thorough: A B N
// bound: debug builds; every unchecked accessor in every qualification on an empty option of each listed type reached by any of 8 routes; every iterator movement by any non-zero 64-bit distance; every assignment or construction that stores a reserved value; the same operations on engaged options with every value never report
#include "ops.hpp"
using std::move;
enum class Sn : u8 { a, b, c, SENTINEL }; enum class SnR : int { x = -5, y = 7, SENTINEL_START = 100, SENTINEL_END = 103 };
using SentI = opt::sentinel<int, -1, -2>;
struct Mem { u32 a; bool b; Mem(u32 a_, bool b_) : a(a_), b(b_) {} }; using MemW = opt::member<Mem, &Mem::b>; using EnfF = opt::enforce<float>;
template<class T> u64 addr(const volatile T& v) { return reinterpret_cast<u64>(&const_cast<const T&>(v)); }
inline void reached() { VP_FAIL("an empty option was accessed without any report"); }
template<class O> void access(O& o, unsigned a) {
    const O& c = o; u64 s = 0;
    switch (a) {
    case 0: s = addr(o.get()); break;
    case 1: s = addr(c.get()); break;
    case 2: { auto&& r = move(o).get(); s = addr(r); break; }
    case 3: { auto&& r = move(c).get(); s = addr(r); break; }
    case 4: s = addr(*o); break;
    case 5: s = addr(*c); break;
    case 6: { auto&& r = *move(o); s = addr(r); break; }
    case 7: { auto&& r = *move(c); s = addr(r); break; }
    case 8: s = addr(*o.operator->()); break;
    case 9: s = addr(*c.operator->()); break;
    case 10: s = addr(*o.begin()); break;
    case 11: s = addr(*c.begin()); break;
    case 12: s = addr(*o.end().operator->()); break;
    case 13: s = addr(o.begin()[0]); break;
    case 14: ++o.begin(); break;
    case 15: o.begin()++; break;
    case 16: { auto i = c.end(); --i; break; }
    case 17: { auto i = c.end(); i--; break; }
    case 18: { auto i = o.begin(); const std::ptrdiff_t d = std::ptrdiff_t(vp_u64("d")); vp_assume(d != 0); i += d; break; }
    case 19: { auto i = o.begin(); const std::ptrdiff_t d = std::ptrdiff_t(vp_u64("d")); vp_assume(d != 0); i -= d; break; }
    case 20: { auto i = o.begin(); const std::ptrdiff_t d = std::ptrdiff_t(vp_u64("d")); vp_assume(d != 0); (void)(i + d); break; }
    case 21: { auto i = c.begin(); const std::ptrdiff_t d = std::ptrdiff_t(vp_u64("d")); vp_assume(d != 0); (void)(d + i); break; }
    default: { auto i = c.end(); const std::ptrdiff_t d = std::ptrdiff_t(vp_u64("d")); vp_assume(d != 0); (void)(i - d); break; }
    }
    (void)s;
}
template<class T> void empty_access() {
    const unsigned route = vp_choice(n_empty_routes, "route"); opt::option<T> o = build_empty<T>(route, fresh<T>("other"));
    VP_CHECK(!o.has_value());
    vp_no_leak_check();
    const unsigned a = vp_choice(23, "access");
    vp_expect_trap();
    access(o, a);
    reached();
}
// engaged: the same accessors and legal iterator movements never report
template<class O> u64 touch(O& o) {
    const O& c = o; u64 s = 0;
    for (unsigned a = 0; a < 10; ++a) access(o, a);
    s += addr(*o.begin()) + addr(*c.begin()) + addr(o.begin()[0]) + addr(*o.begin().operator->()) + addr(c.end()[-1]);
    auto i = o.begin(); ++i; --i; i++; i--; i += 1; i -= 1; i += 0; VP_CHECK(i == o.begin() && i + 1 == o.end() && 1 + i == o.end() && o.end() - 1 == i && i < o.end() && o.end() > i && i <= i && i >= i);
    return s;
}
template<class T> void engaged_access() {
    { opt::option<T> o(std::in_place, mk<T>(fresh<T>("k"))); touch(o); opt::option<T> e; auto i = e.begin(); i += 0; i -= 0; VP_CHECK(i + 0 == e.end() && 0 + i == i - 0 && !(i < e.end()) && !(i > e.end()) && i <= e.end() && i >= e.end() && e.end() - e.begin() == 0); }
    balanced();
}
#define X(N, T) VP_HARNESS(C16, empty_##N) { empty_access<T>(); } VP_HARNESS(C16, engaged_##N) { engaged_access<T>(); }
VP_ALL_TYPES(X) VP_MOVE_TYPES(X) VP_OPT_TYPES(X) X(Sp0000, Sp0000) X(Sp1111, Sp1111)
template<class R> void empty_ref() { opt::option<R> o; std::remove_reference_t<R> x(mk<std::remove_cv_t<std::remove_reference_t<R>>>(fresh<std::remove_cv_t<std::remove_reference_t<R>>>("x"))); if (vp_fork_(vp_bool("was"))) { o.emplace(static_cast<R>(x)); o.reset(); } VP_CHECK(!o.has_value()); vp_no_leak_check(); const unsigned a = vp_choice(27, "access"); vp_expect_trap();
    switch (a) { case 23: (void)addr(o.get_unchecked()); break; case 24: (void)addr(std::as_const(o).get_unchecked()); break; case 25: { auto&& r = move(o).get_unchecked(); (void)addr(r); break; } case 26: { auto&& r = move(std::as_const(o)).get_unchecked(); (void)addr(r); break; } default: access(o, a); } reached(); }
VP_HARNESS(C16, empty_ref) { empty_ref<u32&>(); }
VP_HARNESS(C16, empty_cref) { empty_ref<const Trk&>(); }
VP_HARNESS(C16, empty_rref) { empty_ref<Trk&&>(); }
// members used through -> and the callbacks' own accesses
VP_HARNESS(C16, arrow) { opt::option<Agg> o; VP_CHECK(!o.has_value()); vp_no_leak_check(); const unsigned a = vp_choice(4, "a"); vp_expect_trap(); switch (a) { case 0: o->a = 1; break; case 1: (void)std::as_const(o)->b; break; case 2: (*o).a = 2; break; default: o.get().b = true; } reached(); }
// a reserved value (the bytes of an empty option) must not be stored silently
template<class T> void store_bad(const T& bad, const T& good) {
    using O = opt::option<T>; const unsigned r = vp_choice(9, "r"); O o; const bool h = vp_fork_(vp_bool("h")); if (h) o = good; VP_CHECK(o.has_value() == h);
    vp_expect_trap(); vp_no_leak_check();
    switch (r) {
    case 0: o = bad; break;
    case 1: o.emplace(bad); break;
    case 2: { O p(bad); break; }
    case 3: { O p(std::in_place, bad); break; }
    case 4: { T t(bad); o = move(t); break; }
    case 5: { (void)opt::make_option<T>(bad); break; }
    case 6: { opt::option<T> s = opt::option<u8>(u8(1)).map([&](u8) { return bad; }); break; }
    case 7: { O p; p.try_emplace(bad); break; }
    default: { O p = opt::none; T t(bad); p = t; break; }
    }
    VP_FAIL("a reserved value was stored without any report");
}
template<class T> void store(const T& good) {
    static_assert(sizeof(opt::option<T>) == sizeof(T) && std::is_trivially_copyable_v<T>);
    alignas(T) unsigned char b[sizeof(T)]; opt::option<T> e; VP_CHECK(!e.has_value()); std::memcpy(b, &good, sizeof(T)); std::memcpy(b, &e, sizeof(T));
    store_bad<T>(*reinterpret_cast<const T*>(b), good);
}
#define Y(N, T) VP_HARNESS(C16, store_##N) { store<T>(mk<T>(fresh<T>("g"))); }
Y(float, float) Y(double, double) Y(ptr, int*) Y(Wide, Wide) Y(RefW, RefW) Y(CplxF, CplxF)
VP_HARNESS(C16, store_sentinel_enum) { u8 g = vp_u8("g"); vp_assume(g < 3); store<Sn>(Sn(g)); }
VP_HARNESS(C16, store_sentinel_start) { store<SnR>(vp_fork_(vp_bool("x")) ? SnR::x : SnR::y); }
VP_HARNESS(C16, store_sentinel) { int g = int(vp_u32("g")); vp_assume((g != -1) & (g != -2)); store_bad<SentI>(SentI(-1), SentI(g)); }
VP_HARNESS(C16, store_pad) { opt::option<Pad> e; Pad bad{0, 0, 0}; bad.a = vp_u16("a"); bad.b = vp_u8("b"); u8 r[sizeof(Pad)]; std::memcpy(r, &e, sizeof(Pad)); bad.PADDING = r[offsetof(Pad, PADDING)]; store_bad<Pad>(bad, Pad{1, 2, 0}); }
VP_HARNESS(C16, store_through) {    // from another option type, and from a value that converts
    int g = int(vp_u32("g")); vp_assume((g != -1) & (g != -2)); opt::option<SentI> o; const bool h = vp_fork_(vp_bool("h")); if (h) o = g; VP_CHECK(o.has_value() == h); opt::option<int> s(-1); const opt::option<int>& cs = s; const unsigned r = vp_choice(5, "r"); vp_expect_trap(); vp_no_leak_check();
    switch (r) { case 0: o = -1; break; case 1: o = cs; break; case 2: o = move(s); break; case 3: { opt::option<SentI> n(cs); break; } default: { opt::option<SentI> n(-1); break; } }
    VP_FAIL("a reserved value was stored without any report");
}
