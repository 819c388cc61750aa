// configs: A B D
// configs-thorough: A B C D N
// bound: both states and all values of both operands, each operator in all lvalue/const/rvalue combinations of its operands, for the listed payload types
#include "ops.hpp"
using std::move;
// how many copies and moves of tracked payloads the operation made
template<class T> void binary_copyable() {
    using O = opt::option<T>;
    {
        bool h, ph; u64 k, pk;
        O a = sym_option<T>("a", h, k), b = sym_option<T>("b", ph, pk);
        const O& ca = a; const O& cb = b;
        const bool oh = h | ph, xh = h != ph, ah = h & ph; const u64 ok = h ? k : pk;
        bool amoved = false, bmoved = false;
        const Log l0 = g_log;
        unsigned op = vp_choice(21, "op");
        switch (op) {
        case 0: { O r = ca | cb; expect<T>(r, oh, ok); VP_CHECK(since(l0).mctor == 0); break; }
        case 1: { O r = a | b; expect<T>(r, oh, ok); VP_CHECK(since(l0).mctor == 0); break; }
        case 2: { O r = move(a) | cb; expect<T>(r, oh, ok); amoved = true; if (h) VP_CHECK(since(l0).cctor == 0); break; }
        case 3: { O r = ca | move(b); expect<T>(r, oh, ok); bmoved = !h; if (!h) VP_CHECK(since(l0).cctor == 0); else VP_CHECK(since(l0).mctor == 0); break; }
        case 4: { O r = move(a) | move(b); expect<T>(r, oh, ok); amoved = h; bmoved = !h; VP_CHECK(since(l0).cctor == 0); break; }
        case 5: { O r = ca & cb; expect<T>(r, ah, pk); VP_CHECK(since(l0).mctor == 0); break; }
        case 6: { O r = a & move(b); expect<T>(r, ah, pk); bmoved = h; VP_CHECK(since(l0).cctor == 0); break; }
        case 7: { O r = move(a) & cb; expect<T>(r, ah, pk); break; }
        case 8: { O r = move(a) & move(b); expect<T>(r, ah, pk); bmoved = h; VP_CHECK(since(l0).cctor == 0); break; }
        case 9: { O r = ca ^ cb; expect<T>(r, xh, ok); VP_CHECK(since(l0).mctor == 0); break; }
        case 10: { O r = move(a) ^ cb; expect<T>(r, xh, ok); amoved = h & !ph; if (h) VP_CHECK(since(l0).cctor == 0); break; }
        case 11: { O r = ca ^ move(b); expect<T>(r, xh, ok); bmoved = ph & !h; if (ph) VP_CHECK(since(l0).cctor == 0); break; }
        case 12: { O r = move(a) ^ move(b); expect<T>(r, xh, ok); amoved = h & !ph; bmoved = ph & !h; VP_CHECK(since(l0).cctor == 0); break; }
        case 13: { O& r = (a |= cb); VP_CHECK(&r == &a); expect<T>(a, oh, ok); expect<T>(b, ph, pk); VP_CHECK(since(l0).cctor <= 1); if (h) VP_CHECK(since(l0).cctor == 0); h = oh; k = ok; break; }
        case 14: { O& r = (a |= move(b)); VP_CHECK(&r == &a); expect<T>(a, oh, ok); bmoved = !h; VP_CHECK(since(l0).cctor == 0); if (h) VP_CHECK(since(l0).mctor == 0); h = oh; k = ok; break; }
        case 15: { O& r = (a |= opt::none); VP_CHECK(&r == &a); break; }
        case 16: { O r = ca | ca; expect<T>(r, h, k); O s = ca & ca; expect<T>(s, h, k); O x = ca ^ ca; VP_CHECK(!x.has_value()); break; }
        case 17: { O& r = (a |= a); VP_CHECK(&r == &a); break; }
        case 18: { O r = (ca | cb) | O(); expect<T>(r, oh, ok); O q = O() | (cb | ca); expect<T>(q, oh, ph ? pk : k); break; }
        case 19: { opt::option<u32> t(5u), e; O r = t & cb; expect<T>(r, ph, pk); O s = e & cb; VP_CHECK(!s.has_value()); auto u = ca & t; static_assert(std::is_same_v<decltype(u), opt::option<u32>>); VP_CHECK(u.has_value() == h); if (h) VP_CHECK(*u == 5u); auto w = ca & e; VP_CHECK(!w.has_value()); break; }
        default: { opt::option<u32> t(5u), e; O r = t & move(b); expect<T>(r, ph, pk); bmoved = true; break; }
        }
        VP_CHECK(a.has_value() == h); VP_CHECK(b.has_value() == ph);
        if (!amoved) expect<T>(a, h, k);
        if (!bmoved) expect<T>(b, ph, pk);
    }
    balanced();
}
template<class T> void with_value() {
    using O = opt::option<T>;
    {
        bool h; u64 k; O a = sym_option<T>("a", h, k); const O& ca = a;
        const u64 vk = fresh<T>("v"); T v = mk<T>(vk); const T& cv = v;
        const u64 want = h ? k : vk;
        const Log l0 = g_log; bool amoved = false, vmoved = false;
        switch (vp_choice(8, "op")) {
        case 0: if constexpr (!opt::is_option_v<T>) { T r = ca | cv; VP_CHECK(keyof<T>(r) == want); VP_CHECK(since(l0).mctor == 0 && since(l0).cctor <= 2); } break;
        case 1: if constexpr (!opt::is_option_v<T>) { T r = move(a) | cv; VP_CHECK(keyof<T>(r) == want); amoved = h; if (h) VP_CHECK(since(l0).cctor == 0); } break;
        case 2: if constexpr (!opt::is_option_v<T>) { T r = ca | move(v); VP_CHECK(keyof<T>(r) == want); vmoved = !h; if (!h) VP_CHECK(since(l0).cctor == 0); } break;
        case 3: if constexpr (!opt::is_option_v<T>) { T r = move(a) | move(v); VP_CHECK(keyof<T>(r) == want); amoved = h; vmoved = !h; VP_CHECK(since(l0).cctor == 0); } break;
        case 4: { O& r = (a |= cv); VP_CHECK(&r == &a); expect<T>(a, true, want); if (h) VP_CHECK(since(l0).cctor == 0 && since(l0).cassign == 0); k = want; h = true; break; }
        case 5: { O& r = (a |= move(v)); VP_CHECK(&r == &a); expect<T>(a, true, want); vmoved = !h; VP_CHECK(since(l0).cctor == 0); k = want; h = true; break; }
        case 6: if constexpr (!opt::is_option_v<T>) { T r = ca | O(cv) | cv; VP_CHECK(keyof<T>(r) == want); } break;
        default: if constexpr (!opt::is_option_v<T>) { T r = O() | cv; VP_CHECK(keyof<T>(r) == vk); T q = (O() | ca) | cv; VP_CHECK(keyof<T>(q) == want); } break;
        }
        VP_CHECK(a.has_value() == h);
        if (!amoved) expect<T>(a, h, k);
        if (!vmoved) VP_CHECK(keyof<T>(v) == vk);
    }
    balanced();
}
template<class T> void move_only() {
    using O = opt::option<T>;
    {
        bool h, ph; u64 k, pk;
        O a = sym_option<T>("a", h, k), b = sym_option<T>("b", ph, pk);
        const bool oh = h | ph; const u64 ok = h ? k : pk; const u64 vk = fresh<T>("v");
        switch (vp_choice(6, "op")) {
        case 0: { O r = move(a) | move(b); expect<T>(r, oh, ok); if (h) expect<T>(b, ph, pk); break; }
        case 1: { O r = a & move(b); expect<T>(r, h & ph, pk); expect<T>(a, h, k); if (!h) expect<T>(b, ph, pk); break; }
        case 2: { O r = move(a) ^ move(b); expect<T>(r, h != ph, ok); if (h & ph) { expect<T>(a, h, k); expect<T>(b, ph, pk); } break; }
        case 3: { O& r = (a |= move(b)); VP_CHECK(&r == &a); expect<T>(a, oh, ok); if (h) expect<T>(b, ph, pk); break; }
        case 4: { T r = move(a) | mk<T>(vk); VP_CHECK(keyof<T>(r) == (h ? k : vk)); break; }
        default: { O& r = (a |= mk<T>(vk)); VP_CHECK(&r == &a); expect<T>(a, true, h ? k : vk); break; }
        }
    }
    balanced();
}
#define B(N, T) VP_HARNESS(C11, bin_##N) { binary_copyable<T>(); } VP_HARNESS(C11, val_##N) { with_value<T>(); }
#define M(N, T) VP_HARNESS(C11, mov_##N) { move_only<T>(); }
VP_ALL_TYPES(B) VP_OPT_TYPES(B) VP_MOVE_TYPES(M) B(Sp0000, Sp0000) B(Sp0011, Sp0011) B(Sp1100, Sp1100)

// values of other types on the right, references
VP_HARNESS(C11, converted) {
    bool h; u64 k; OInt a = sym_option<int>("a", h, k); const short s = short(vp_u16("s"));
    int r = a | s; VP_CHECK(r == (h ? int(u32(k)) : int(s)));
    int r2 = OInt(a) | s; VP_CHECK(r2 == (h ? int(u32(k)) : int(s)));
    bool sh; u64 sk; opt::option<u8> u = sym_option<u8>("u", sh, sk);
    OInt b = a; b |= u; VP_CHECK(b.has_value() == (h | sh)); if (h | sh) VP_CHECK(*b == (h ? int(u32(k)) : int(sk)));
    OInt c = a; c |= s; VP_CHECK(c.has_value() && *c == (h ? int(u32(k)) : int(s)));
    expect<int>(a, h, k); expect<u8>(u, sh, sk);
    OStr t; t |= "abc"; VP_CHECK(t.has_value() && *t == "abc"); t |= "x"; VP_CHECK(*t == "abc");
    std::string q = OStr() | "def"; VP_CHECK(q == "def");
}
VP_HARNESS(C11, references) {
    int x[3] = {int(vp_u32("x0")), int(vp_u32("x1")), int(vp_u32("x2"))}; const int y[3] = {x[0], x[1], x[2]};
    using R = opt::option<int&>;
    const bool h = vp_fork_(vp_bool("h")), g = vp_fork_(vp_bool("g"));
    R a, b; if (h) a = x[0]; if (g) b = x[1];
    auto at = [&](const R& r) { return r.ptr_or_null(); };
    int* pa = h ? &x[0] : nullptr; int* pb = g ? &x[1] : nullptr;
    VP_CHECK(at(a | b) == (h ? pa : pb)); VP_CHECK(at(R(a) | b) == (h ? pa : pb)); VP_CHECK(at(a | R(b)) == (h ? pa : pb)); VP_CHECK(at(R(a) | R(b)) == (h ? pa : pb));
    VP_CHECK(at(a & b) == (h ? pb : nullptr)); VP_CHECK(at(a & R(b)) == (h ? pb : nullptr));
    VP_CHECK(at(a ^ b) == (h && g ? nullptr : h ? pa : pb)); VP_CHECK(at(R(a) ^ R(b)) == (h && g ? nullptr : h ? pa : pb)); VP_CHECK(at(R(a) ^ b) == (h && g ? nullptr : h ? pa : pb)); VP_CHECK(at(a ^ R(b)) == (h && g ? nullptr : h ? pa : pb));
    R c = a; R& rc = (c |= b); VP_CHECK(&rc == &c && at(c) == (h ? pa : pb));
    R d = a; d |= x[2]; VP_CHECK(at(d) == (h ? pa : &x[2]));
    VP_CHECK(at(a) == pa && at(b) == pb);
    VP_CHECK(x[0] == y[0] && x[1] == y[1] && x[2] == y[2]);
}
