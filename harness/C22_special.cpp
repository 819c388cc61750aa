// configs: A B D
// configs-thorough: C N
// bound: all 16 combinations of trivial and non-trivial copy/move construction/assignment, with and without a trivial destructor and with a niche; both states and all values of source and target; construction and assignment from an option and from a value, compared with the same operation on plain objects
#include "ops.hpp"
#define VP_SPD(NAME, CC, CA, MC, MA) \
struct NAME { u32 k; u32 ops = 0; NAME(u32 k_) : k(k_) {} ~NAME() {} VP_CC_##CC(NAME) VP_CA_##CA(NAME) VP_MC_##MC(NAME) VP_MA_##MA(NAME) }; VP_GEN_SP(NAME)
VP_SPD(Sd1111, 1, 1, 1, 1) VP_SPD(Sd1110, 1, 1, 1, 0) VP_SPD(Sd1101, 1, 1, 0, 1) VP_SPD(Sd0010, 0, 0, 1, 0) VP_SPD(Sd0000, 0, 0, 0, 0) VP_SPD(Sd1011, 1, 0, 1, 1) VP_SPD(Sd0111, 0, 1, 1, 1)
#define VP_SPN(NAME, CC, CA, MC, MA) \
struct NAME { u32 k; u32 ops = 0; bool flag = true; NAME(u32 k_) : k(k_) {} VP_CC_##CC(NAME) VP_CA_##CA(NAME) VP_MC_##MC(NAME) VP_MA_##MA(NAME) }; VP_GEN_SP(NAME) \
template<> struct opt::option_traits<NAME> { \
    static constexpr std::uintmax_t max_level = 2; \
    static std::uintmax_t get_level(const NAME* v) noexcept { u32 m; std::memcpy(&m, static_cast<const void*>(v), 4); return m >= 0xfffffffeu ? 0xffffffffu - m : std::uintmax_t(-1); } \
    static void set_level(NAME* v, std::uintmax_t l) noexcept { u32 m = u32(0xffffffffu - l); std::memcpy(static_cast<void*>(v), &m, 4); } };
VP_SPN(Sn1111, 1, 1, 1, 1) VP_SPN(Sn1110, 1, 1, 1, 0) VP_SPN(Sn1101, 1, 1, 0, 1) VP_SPN(Sn0010, 0, 0, 1, 0) VP_SPN(Sn0000, 0, 0, 0, 0) VP_SPN(Sn1011, 1, 0, 1, 1) VP_SPN(Sn0111, 0, 1, 1, 1)
template<class T> bool same(const T& a, const T& b) { return (a.k == b.k) & (a.ops == b.ops); }
template<class T> opt::option<T> mkopt(const char* n, bool& has, u64& k) { opt::option<T> o = sym_option<T>(n, has, k); if (has) o->ops = 0; return o; }
template<class T> void like_plain() {
    using O = opt::option<T>;
    constexpr bool cc = std::is_trivially_copy_constructible_v<T>, mc = std::is_trivially_move_constructible_v<T>, ca = std::is_trivially_copy_assignable_v<T>, ma = std::is_trivially_move_assignable_v<T>, d = std::is_trivially_destructible_v<T>;
    VP_CHECK(std::is_trivially_destructible_v<O> == d);
    VP_CHECK(std::is_trivially_copy_constructible_v<O> == cc);
    VP_CHECK(std::is_trivially_move_constructible_v<O> == mc);
    VP_CHECK(std::is_trivially_copy_assignable_v<O> == (ca && cc && d));
    VP_CHECK(std::is_trivially_move_assignable_v<O> == (ma && mc && d));
    bool sh, th; u64 sk, tk;
    O s = mkopt<T>("s", sh, sk), t = mkopt<T>("t", th, tk);
    T ps{u32(sk)}, pt{u32(tk)};
    switch (vp_choice(8, "op")) {
    case 0: { O r(s); VP_CHECK(r.has_value() == sh); if (sh) { T pr(ps); VP_CHECK(same(*r, pr)); } break; }
    case 1: { O r(static_cast<const O&>(s)); VP_CHECK(r.has_value() == sh); if (sh) { T pr(static_cast<const T&>(ps)); VP_CHECK(same(*r, pr)); } break; }
    case 2: { O r(std::move(s)); VP_CHECK(r.has_value() == sh); if (sh) { T pr(std::move(ps)); VP_CHECK(same(*r, pr)); } break; }
    case 3: { t = s; VP_CHECK(t.has_value() == sh); if (sh) { if (th) pt = ps; else { pt.~T(); ::new (static_cast<void*>(&pt)) T(ps); } VP_CHECK(same(*t, pt)); } break; }
    case 4: { t = std::move(s); VP_CHECK(t.has_value() == sh); if (sh) { if (th) pt = std::move(ps); else { pt.~T(); ::new (static_cast<void*>(&pt)) T(std::move(ps)); } VP_CHECK(same(*t, pt)); } break; }
    case 5: { if (!sh) { vp_assume(true); break; } t = s.get(); VP_CHECK(t.has_value()); if (th) pt = ps; else { pt.~T(); ::new (static_cast<void*>(&pt)) T(ps); } VP_CHECK(same(*t, pt)); break; }
    case 6: { if (!sh) { vp_assume(true); break; } t = std::move(s.get()); VP_CHECK(t.has_value()); if (th) pt = std::move(ps); else { pt.~T(); ::new (static_cast<void*>(&pt)) T(std::move(ps)); } VP_CHECK(same(*t, pt)); break; }
    default: { t = static_cast<const O&&>(s); VP_CHECK(t.has_value() == sh); if (sh) { if (th) pt = static_cast<const T&&>(ps); else { pt.~T(); ::new (static_cast<void*>(&pt)) T(static_cast<const T&&>(ps)); } VP_CHECK(same(*t, pt)); } break; }
    }
    VP_CHECK(s.has_value() == sh);
    if (sh) VP_CHECK(same(*s, ps));                      // the source is left exactly as the plain operation leaves it
}
#define X(N, T) VP_HARNESS(C22, special_##N) { like_plain<T>(); }
VP_SP_TYPES(X) X(Sd1111, Sd1111) X(Sd1110, Sd1110) X(Sd1101, Sd1101) X(Sd0010, Sd0010) X(Sd0000, Sd0000) X(Sd1011, Sd1011) X(Sd0111, Sd0111)
X(Sn1111, Sn1111) X(Sn1110, Sn1110) X(Sn1101, Sn1101) X(Sn0010, Sn0010) X(Sn0000, Sn0000) X(Sn1011, Sn1011) X(Sn0111, Sn0111)
