// configs: A B D
// configs-thorough: C N
// gcc: yes
// bound: all 30 combinations of deleted and available (all defaulted, or all user-provided) copy/move construction/assignment; both states and all values of source and target; each operation the payload provides
// note: the option provides exactly the operations its payload provides (an rvalue falls back to the copy when only that is available), and each behaves like the plain operation
#include "ops.hpp"
#define VP_CC_X(X) X(const X&) = delete;
#define VP_CA_X(X) X& operator=(const X&) = delete;
#define VP_MC_X(X) X(X&&) = delete;
#define VP_MA_X(X) X& operator=(X&&) = delete;
#define VP_DEL(NAME, CC, CA, MC, MA) \
struct NAME { u32 k; u32 ops = 0; NAME(u32 k_) : k(k_) {} VP_CC_##CC(NAME) VP_CA_##CA(NAME) VP_MC_##MC(NAME) VP_MA_##MA(NAME) };
VP_DEL(DtXXXX, X, X, X, X) VP_DEL(DtXXX1, X, X, X, 1) VP_DEL(DtXX1X, X, X, 1, X) VP_DEL(DtXX11, X, X, 1, 1) VP_DEL(DtX1XX, X, 1, X, X) VP_DEL(DtX1X1, X, 1, X, 1) VP_DEL(DtX11X, X, 1, 1, X) VP_DEL(DtX111, X, 1, 1, 1)
VP_DEL(Dt1XXX, 1, X, X, X) VP_DEL(Dt1XX1, 1, X, X, 1) VP_DEL(Dt1X1X, 1, X, 1, X) VP_DEL(Dt1X11, 1, X, 1, 1) VP_DEL(Dt11XX, 1, 1, X, X) VP_DEL(Dt11X1, 1, 1, X, 1) VP_DEL(Dt111X, 1, 1, 1, X)
VP_DEL(DuXXX0, X, X, X, 0) VP_DEL(DuXX0X, X, X, 0, X) VP_DEL(DuXX00, X, X, 0, 0) VP_DEL(DuX0XX, X, 0, X, X) VP_DEL(DuX0X0, X, 0, X, 0) VP_DEL(DuX00X, X, 0, 0, X) VP_DEL(DuX000, X, 0, 0, 0)
VP_DEL(Du0XXX, 0, X, X, X) VP_DEL(Du0XX0, 0, X, X, 0) VP_DEL(Du0X0X, 0, X, 0, X) VP_DEL(Du0X00, 0, X, 0, 0) VP_DEL(Du00XX, 0, 0, X, X) VP_DEL(Du00X0, 0, 0, X, 0) VP_DEL(Du000X, 0, 0, 0, X)
template<class T> bool same(const T& a, const T& b) { return (a.k == b.k) & (a.ops == b.ops); }
template<class T> void mirrors() {
    using O = opt::option<T>;
    constexpr bool cc = std::is_copy_constructible_v<T>, mc = std::is_move_constructible_v<T>, ca = std::is_copy_assignable_v<T>, ma = std::is_move_assignable_v<T>;
    VP_CHECK(std::is_copy_constructible_v<O> == cc);
    VP_CHECK(std::is_move_constructible_v<O> == (mc || cc));      // like a defaulted move of a class with such a member: falls back to the copy
    VP_CHECK(std::is_copy_assignable_v<O> == (cc && ca));
    VP_CHECK(std::is_move_assignable_v<O> == ((mc && ma) || (cc && ca)));
    u8 sh = vp_bool("s"), th = vp_bool("t");
    u32 sk = vp_u32("sk");
    u32 tk = vp_u32("tk");
    O s, t;
    if (sh) s.emplace(sk);
    if (th) t.emplace(tk);
    T ps{sk}, pt{tk};
    switch (vp_choice(4, "op")) {
    case 0: if constexpr (cc) { O r(static_cast<const O&>(s)); VP_CHECK(r.has_value() == sh); if (sh) { T pr(static_cast<const T&>(ps)); VP_CHECK(same(*r, pr)); } } break;
    case 1: if constexpr (mc) { O r(std::move(s)); VP_CHECK(r.has_value() == sh); if (sh) { T pr(std::move(ps)); VP_CHECK(same(*r, pr)); } } break;
    case 2: if constexpr (cc && ca) { t = static_cast<const O&>(s); VP_CHECK(t.has_value() == sh);
                if (sh) { if (th) pt = static_cast<const T&>(ps); else { pt.~T(); ::new (static_cast<void*>(&pt)) T(static_cast<const T&>(ps)); } VP_CHECK(same(*t, pt)); } } break;
    default: if constexpr (mc && ma) { t = std::move(s); VP_CHECK(t.has_value() == sh);
                if (sh) { if (th) pt = std::move(ps); else { pt.~T(); ::new (static_cast<void*>(&pt)) T(std::move(ps)); } VP_CHECK(same(*t, pt)); } } break;
    }
    VP_CHECK(s.has_value() == sh);
    if (sh) VP_CHECK(same(*s, ps));
    t.reset();
    VP_CHECK(!t.has_value());
}
#define X(T) VP_HARNESS(C22, deleted_##T) { mirrors<T>(); }
X(DtXXXX) X(DtXXX1) X(DtXX1X) X(DtXX11) X(DtX1XX) X(DtX1X1) X(DtX11X) X(DtX111) X(Dt1XXX) X(Dt1XX1) X(Dt1X1X) X(Dt1X11) X(Dt11XX) X(Dt11X1) X(Dt111X)
X(DuXXX0) X(DuXX0X) X(DuXX00) X(DuX0XX) X(DuX0X0) X(DuX00X) X(DuX000) X(Du0XXX) X(Du0XX0) X(Du0X0X) X(Du0X00) X(Du00XX) X(Du00X0) X(Du000X)
