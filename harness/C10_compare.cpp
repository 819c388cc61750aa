// configs: A B D
// configs-thorough: A B C D N
// bound: all states and values of two (three for the order laws) operands, six relations, option/option, option/value, value/option, option/none, same and mixed value types
#include "ops.hpp"
#include <string>
// a comparison result that differs for every relation: which operator ran, with which operands in which order
struct Rel { u32 id; };
static u8 g_ans; static unsigned g_calls, g_which; static const Rel *g_l, *g_r;
static bool rel(unsigned which, const Rel& a, const Rel& b) { ++g_calls; g_which = which; g_l = &a; g_r = &b; return ((g_ans >> which) & 1) != 0; }
bool operator==(const Rel& a, const Rel& b) { return rel(0, a, b); } bool operator!=(const Rel& a, const Rel& b) { return rel(1, a, b); }
bool operator<(const Rel& a, const Rel& b) { return rel(2, a, b); } bool operator<=(const Rel& a, const Rel& b) { return rel(3, a, b); }
bool operator>(const Rel& a, const Rel& b) { return rel(4, a, b); } bool operator>=(const Rel& a, const Rel& b) { return rel(5, a, b); }
template<class A, class B> bool apply(unsigned r, const A& a, const B& b) {
    switch (r) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; }
}
// the documented order: empty equals empty and is less than every value
static bool by_presence(unsigned r, bool l, bool rr) { return apply(r, int(l), int(rr)); }
VP_HARNESS(C10, exact_operator) {
    g_ans = vp_u8("ans"); const bool lh = vp_fork_(vp_bool("l")), rh = vp_fork_(vp_bool("r"));
    const unsigned r = vp_choice(6, "rel");
    opt::option<Rel> l, q; if (lh) l = Rel{1}; if (rh) q = Rel{2};
    Rel v{3};
    bool res; const bool ans = ((g_ans >> r) & 1) != 0;
    switch (vp_choice(5, "form")) {
    case 0: res = apply(r, l, q); if (lh && rh) { VP_CHECK(g_calls == 1 && g_which == r && g_l == &*l && g_r == &*q); VP_CHECK(res == ans); } else { VP_CHECK(g_calls == 0); VP_CHECK(res == by_presence(r, lh, rh)); } break;
    case 1: res = apply(r, l, v); if (lh) { VP_CHECK(g_calls == 1 && g_which == r && g_l == &*l && g_r == &v); VP_CHECK(res == ans); } else { VP_CHECK(g_calls == 0); VP_CHECK(res == by_presence(r, false, true)); } break;
    case 2: res = apply(r, v, q); if (rh) { VP_CHECK(g_calls == 1 && g_which == r && g_l == &v && g_r == &*q); VP_CHECK(res == ans); } else { VP_CHECK(g_calls == 0); VP_CHECK(res == by_presence(r, true, false)); } break;
    case 3: res = apply(r, l, opt::none); VP_CHECK(g_calls == 0); VP_CHECK(res == by_presence(r, lh, false)); break;
    default: res = apply(r, opt::none, q); VP_CHECK(g_calls == 0); VP_CHECK(res == by_presence(r, false, rh)); break;
    }
}
// the same through references and const options
VP_HARNESS(C10, references) {
    g_ans = vp_u8("ans"); const bool lh = vp_fork_(vp_bool("l")), rh = vp_fork_(vp_bool("r"));
    const unsigned r = vp_choice(6, "rel");
    Rel a{1}, b{2}; opt::option<Rel&> l; opt::option<const Rel&> q; if (lh) l = a; if (rh) q = b;
    const bool ans = ((g_ans >> r) & 1) != 0;
    bool res = apply(r, l, q);
    if (lh && rh) { VP_CHECK(g_calls == 1 && g_which == r && g_l == &a && g_r == &b); VP_CHECK(res == ans); } else { VP_CHECK(g_calls == 0); VP_CHECK(res == by_presence(r, lh, rh)); }
    g_calls = 0;
    res = apply(r, l, b); if (lh) { VP_CHECK(g_calls == 1 && g_l == &a && g_r == &b); VP_CHECK(res == ans); } else VP_CHECK(res == by_presence(r, false, true));
    opt::option<Rel> v; if (rh) v = b;
    g_calls = 0;
    res = apply(r, l, v); if (lh && rh) { VP_CHECK(g_calls == 1 && g_l == &a && g_r == &*v); VP_CHECK(res == ans); } else VP_CHECK(res == by_presence(r, lh, rh));
}

// against the built-in comparison of the values
template<class T, class U> void values() {
    {
        bool h, ph; u64 k, pk;
        const opt::option<T> l = sym_option<T>("l", h, k); const opt::option<U> q = sym_option<U>("r", ph, pk);
        const u64 vk = fresh<U>("v"), wk = fresh<T>("w"); const U v = mk<U>(vk); const T w = mk<T>(wk);
        const unsigned r = vp_choice(6, "rel");
        VP_CHECK(apply(r, l, q) == ((h && ph) ? apply(r, *l, *q) : by_presence(r, h, ph)));
        if constexpr (!opt::is_option_v<T>) { VP_CHECK(apply(r, l, v) == (h ? apply(r, *l, v) : by_presence(r, false, true)));
        VP_CHECK(apply(r, w, q) == (ph ? apply(r, w, *q) : by_presence(r, true, false))); }
        VP_CHECK(apply(r, l, opt::none) == by_presence(r, h, false));
        VP_CHECK(apply(r, opt::none, q) == by_presence(r, false, ph));
        expect<T>(l, h, k); expect<U>(q, ph, pk);
    }
    balanced();
}
VP_GEN(short, return vp_u16(n);, return short(u16(k));, return u16(v);)
VP_GEN(long, return vp_u64(n);, return long(k);, return u64(v);)
#define V(N, T, U) VP_HARNESS(C10, val_##N) { values<T, U>(); }
V(int, int, int) V(int_short, int, short) V(u8_int, u8, int) V(int_long, int, long) V(long_short, long, short) V(bool, bool, bool) V(bool_int, bool, int) V(u64, u64, u64) V(float, float, float) V(float_double, float, double)
V(double, double, double) V(double_int, double, int) V(Color, Color, Color) V(Wide, Wide, Wide) V(string, std::string, std::string) V(string_sv, std::string, std::string) V(PairIB, PairIB, PairIB) V(ArrB, ArrB, ArrB) V(Vec, Vec, Vec)
V(OInt, OInt, OInt) V(OBool, OBool, OBool)
VP_HARNESS(C10, pointers) {
    int a[3]; const unsigned i = vp_choice(3, "i"), j = vp_choice(3, "j"); const bool h = vp_fork_(vp_bool("h")), g = vp_fork_(vp_bool("g")); const unsigned r = vp_choice(6, "rel");
    opt::option<int*> l, q; if (h) l = a + i; if (g) q = a + j;
    VP_CHECK(apply(r, l, q) == ((h && g) ? apply(r, i, j) : by_presence(r, h, g)));
    VP_CHECK(apply(r, l, a + j) == (h ? apply(r, i, j) : by_presence(r, false, true)));
    opt::option<int*> n = nullptr; VP_CHECK(n.has_value() && (n == l) == false); VP_CHECK((l == nullptr) == false); VP_CHECK(n == nullptr && !(n != nullptr)); VP_CHECK((q != nullptr) == true);
}
// equality only types, one operator each
template<class T> void equality() {
    {
        bool h, ph; u64 k, pk;
        const opt::option<T> l = sym_option<T>("l", h, k), q = sym_option<T>("r", ph, pk);
        const u64 vk = fresh<T>("v"); const T v = mk<T>(vk);
        VP_CHECK((l == q) == ((h == ph) & (!h | (k == pk))));
        if constexpr (!opt::is_option_v<T>) { VP_CHECK((l == v) == (h & (k == vk))); VP_CHECK((v == l) == (h & (k == vk))); }   // an option operand is compared as an option
        VP_CHECK((l == l) == true); VP_CHECK((l == opt::none) == !h); VP_CHECK((opt::none == l) == !h);
        opt::option<T> c = l; VP_CHECK(c == l && l == c);
        expect<T>(l, h, k); expect<T>(q, ph, pk);
    }
    balanced();
}
#define E(N, T) VP_HARNESS(C10, eq_##N) { equality<T>(); }
E(Trk, Trk) E(TrkN, TrkN) E(TrkA, TrkA) E(UPtrRaw, int*) E(OTrk, OTrk) E(OTrkN, OTrkN) E(OOBool, OOBool) E(OOInt, OOInt) E(MemP, MemP) E(int, int) E(Color, Color)

// order laws over three symbolic options
template<class T> void laws() {
    {
        bool ha, hb, hc; u64 ka, kb, kc;
        const opt::option<T> a = sym_option<T>("a", ha, ka), b = sym_option<T>("b", hb, kb), c = sym_option<T>("c", hc, kc);
        VP_CHECK((a < b) + (a == b) + (b < a) == 1);
        VP_CHECK((a <= b) == !(b < a)); VP_CHECK((a >= b) == !(a < b)); VP_CHECK((a > b) == (b < a)); VP_CHECK((a != b) == !(a == b)); VP_CHECK((a == b) == (b == a));
        if (a < b && b < c) VP_CHECK(a < c);
        if (a <= b && b <= c) VP_CHECK(a <= c);
        if (a == b && b == c) VP_CHECK(a == c);
        if (!ha && hb) VP_CHECK(a < b);
        VP_CHECK(!(a < opt::none)); VP_CHECK(opt::none <= a); VP_CHECK((opt::none < a) == ha); VP_CHECK((a > opt::none) == ha); VP_CHECK(a >= opt::none); VP_CHECK((a <= opt::none) == !ha); VP_CHECK((opt::none >= a) == !ha); VP_CHECK(!(opt::none > a)); VP_CHECK((a != opt::none) == ha);
        if constexpr (!opt::is_option_v<T>) if (hb) { VP_CHECK((a < *b) == (a < b)); VP_CHECK((a == *b) == (a == b)); VP_CHECK((*b < a) == (b < a)); VP_CHECK((a >= *b) == (a >= b)); VP_CHECK((*b <= a) == (b <= a)); }
    }
    balanced();
}
#define L(N, T) VP_HARNESS(C10, law_##N) { laws<T>(); }
L(int, int) L(u64, u64) L(bool, bool) L(Color, Color) L(u8, u8) L(PairIB, PairIB) L(OInt, OInt) L(OBool, OBool) L(OOBool, OOBool) L(OOInt, OOInt)
