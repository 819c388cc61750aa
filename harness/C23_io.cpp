// configs: A B D N
// configs-thorough: C
// bound: both states, all values and fallbacks, all overloads (const and mutable option and fallback, one and two arguments), for every payload type; the stream is a recording one, also one derived from std::ios_base with arbitrary formatting state (the helpers are templates over the stream type)
#include "ops.hpp"
#include <string>
#include <ios>
// A stream that records which object was inserted or extracted, and how
struct Rec {
    const void* at[4] = {}; bool was_const[4] = {}; bool ext[4] = {}; unsigned n = 0;
    u64 sum = 0; u64 next = 0;
    Rec() = default; Rec(const Rec&) = delete; Rec& operator=(const Rec&) = delete;
    void note(const void* p, bool c, bool i) { VP_CHECK(n < 4); at[n] = p; was_const[n] = c; ext[n] = i; ++n; }
};
namespace rec_ops {
    template<class T> Rec& out(Rec& s, T& v) { s.note(std::addressof(v), std::is_const_v<T>, false); return s; }
}
template<class T> struct Box;         // payload wrapper whose stream operators are found by argument-dependent lookup
struct Val { u32 k; bool b; friend Rec& operator<<(Rec& s, const Val& v) { s.sum = s.sum * 3 + v.k; return rec_ops::out(s, v); } friend Rec& operator<<(Rec& s, Val& v) { s.sum = s.sum * 3 + v.k; return rec_ops::out(s, v); }
    friend Rec& operator>>(Rec& s, Val& v) { s.note(&v, false, true); v.k = u32(s.next); return s; } };
struct ValT { Trk t; explicit ValT(u32 k) : t(k) {} friend Rec& operator<<(Rec& s, const ValT& v) { s.sum = s.sum * 3 + v.t.k; v.t.alive(); return rec_ops::out(s, v); }
    friend Rec& operator>>(Rec& s, ValT& v) { s.note(&v, false, true); v.t.k = u32(s.next); return s; } };
struct ValM { TrkM t; explicit ValM(u32 k) : t(k) {} friend Rec& operator<<(Rec& s, const ValM& v) { s.sum = s.sum * 3 + v.t.k; return rec_ops::out(s, v); }
    friend Rec& operator>>(Rec& s, ValM& v) { s.note(&v, false, true); v.t.k = u32(s.next); return s; } };
Rec& operator<<(Rec& s, const u32& v) { s.sum = s.sum * 3 + v; return rec_ops::out(s, v); }
Rec& operator>>(Rec& s, u32& v) { s.note(&v, false, true); v = u32(s.next); return s; }
Rec& operator<<(Rec& s, const bool& v) { s.sum = s.sum * 3 + (v ? 1 : 0); return rec_ops::out(s, v); }
Rec& operator>>(Rec& s, bool& v) { s.note(&v, false, true); v = (s.next & 1) != 0; return s; }
Rec& operator<<(Rec& s, const double& v) { return rec_ops::out(s, v); }
Rec& operator>>(Rec& s, double& v) { s.note(&v, false, true); u64 b; std::memcpy(&b, &v, 8); b ^= (s.next & 1) << 63; vp_assume(b - nan64_first >= 256); std::memcpy(&v, &b, 8); return s; }
Rec& operator<<(Rec& s, const char* v) { s.note(v, true, false); return s; }
namespace opt { template<class T> Rec& operator<<(Rec& s, const opt::option<T>& v) { return rec_ops::out(s, v); } template<class T> Rec& operator>>(Rec& s, opt::option<T>& v) { s.note(&v, false, true); v.reset(); return s; } }
VP_GEN(Val, const u64 k = vp_u32(n); return k | u64(vp_bool(n)) << 32;, return (Val{u32(k), (k >> 32) != 0});, return v.k | keyof(v.b) << 32;)
VP_GEN(ValT, return Gen<Trk>::fresh(n);, return ValT(u32(k));, return keyof(v.t);)
VP_GEN(ValM, return Gen<TrkM>::fresh(n);, return ValM(u32(k));, return keyof(v.t);)

// The same stream, and one that is a standard stream as far as the type system is concerned. Its formatting state holds arbitrary bytes, which nothing may change.
struct RecStd : std::ios_base, Rec {};
template<class S> struct Held {
    alignas(S) unsigned char mem[sizeof(S)]; unsigned char was[sizeof(S)]; S& s;
    Held() : s(reinterpret_cast<S&>(mem)) { vp_bytes(mem, sizeof mem, "stream"); std::memcpy(was, mem, sizeof mem); ::new (static_cast<Rec*>(&s)) Rec(); }
    void same_state() {
        const std::size_t at = std::size_t(reinterpret_cast<unsigned char*>(static_cast<Rec*>(&s)) - mem);
        bool eq = true; for (std::size_t i = 0; i < at; ++i) eq = eq & (mem[i] == was[i]);
        VP_CHECK(eq);
    }
};
template<class T, class F, class S = Rec> void io_all() {
    {
        using O = opt::option<T>;
        bool has; u64 k; O o = sym_option<T>("o", has, k); const O& c = o;
        const u64 f = fresh<F>("f"); F d = mk<F>(f); const F& cd = d;
        const void* const at = o.ptr_or_null(); const void* const alt = std::addressof(d);
        Held<S> held; S& s = held.s; s.next = vp_u64("next");
        const Log l = g_log;
        auto wrote = [&](const void* p) { VP_CHECK(s.n == 1 && s.at[0] == p && !s.ext[0]); };
        auto nothing = [&] { VP_CHECK(s.n == 0 && s.sum == 0); };
        bool changed = false;
        switch (vp_choice(10, "how")) {
        case 0: { S& r = (s << opt::io(o)); VP_CHECK(&r == &s); if (has) wrote(at); else nothing(); break; }
        case 1: { S& r = (s << opt::io(c)); VP_CHECK(&r == &s); if (has) { wrote(at); VP_CHECK(s.was_const[0]); } else nothing(); break; }
        case 2: { S& r = (s << opt::io(o, d)); VP_CHECK(&r == &s); wrote(has ? at : alt); break; }
        case 3: { S& r = (s << opt::io(c, d)); VP_CHECK(&r == &s); wrote(has ? at : alt); break; }
        case 4: { S& r = (s << opt::io(o, cd)); VP_CHECK(&r == &s); wrote(has ? at : alt); break; }
        case 5: { S& r = (s << opt::io(c, cd)); VP_CHECK(&r == &s); wrote(has ? at : alt); break; }
        case 6: { S& r = (s >> opt::io(o, d)); VP_CHECK(&r == &s); VP_CHECK(s.n == 1 && s.at[0] == (has ? at : alt) && s.ext[0]); changed = true; break; }
        case 7: { const char* const z = "none"; S& r = (s << opt::io(o, z)); VP_CHECK(&r == &s); wrote(has ? at : z); break; }
        case 8: { S& r = (s << opt::io(o) << opt::io(c, cd) << opt::io(c)); VP_CHECK(&r == &s && s.n == (has ? 3u : 1u)); for (unsigned i = 0; i < s.n; ++i) VP_CHECK(s.at[i] == (has ? at : alt)); break; }
        default: { auto h = opt::io(c, cd); auto g = opt::io(o); s << h << g << h; VP_CHECK(s.n == (has ? 3u : 2u)); for (unsigned i = 0; i < s.n; ++i) VP_CHECK(s.at[i] == (has ? at : alt)); break; }
        }
        held.same_state();
        const Log e = since(l);
        VP_CHECK(e.ctor + e.cctor + e.mctor + e.cassign + e.massign + e.dtor == 0);
        VP_CHECK(o.has_value() == has);
        if (!changed || !has) expect<T>(o, has, k);
        if (!changed || has) VP_CHECK(keyof<F>(d) == f);
        if (changed && has) { T want = mk<T>(k); Rec q; q.next = s.next; q >> want; VP_CHECK(keyof<T>(*o) == keyof<T>(want)); }
        if (changed && !has) { F want = mk<F>(f); Rec q; q.next = s.next; q >> want; VP_CHECK(keyof<F>(d) == keyof<F>(want)); }
    }
    balanced();
}
#define X(N, ...) VP_HARNESS(C23, io_##N) { io_all<__VA_ARGS__>(); }
X(u32_u32, u32, u32) X(u32_Val, u32, Val) X(bool_bool, bool, bool) X(bool_u32, bool, u32) X(double_Val, double, Val) X(Val_Val, Val, Val) X(Val_u32, Val, u32) X(ValT_ValT, ValT, ValT)
X(ValT_u32, ValT, u32) X(ValM_ValM, ValM, ValM) X(Val_ValT, Val, ValT) X(Val_double, Val, double)
X(std_u32, u32, u32, RecStd) X(std_bool_Val, bool, Val, RecStd) X(std_ValT_u32, ValT, u32, RecStd) X(std_ValM, ValM, ValM, RecStd)
VP_HARNESS(C23, nested_option) {                              // the value, or the fallback, is itself an option
    opt::option<OBool> o; unsigned depth = vp_choice(3, "depth"); u64 k = 0;
    if (depth > 0) o.emplace();
    if (depth > 1) { k = fresh<bool>("k"); o->emplace(mk<bool>(k)); }
    OBool none; bool hn; u64 kn; none = sym_option<bool>("n", hn, kn);
    Rec s;
    const unsigned how = vp_choice(4, "how");
    switch (how) {
    case 0: s << opt::io(o); VP_CHECK(s.n == (depth > 0) && (depth == 0 || s.at[0] == &*o)); break;
    case 1: s << opt::io(o, none); VP_CHECK(s.n == 1 && s.at[0] == (depth > 0 ? &*o : &none)); break;
    case 2: s >> opt::io(o, none); VP_CHECK(s.n == 1 && s.ext[0] && s.at[0] == (depth > 0 ? &*o : &none)); break;
    default: if (depth > 0) { s << opt::io(*o, none); VP_CHECK(s.n == 1 && s.at[0] == (depth > 1 ? static_cast<const void*>(&**o) : &none)); } break;
    }
    VP_CHECK(o.has_value() == (depth > 0));
    if (depth > 0) expect<bool>(*o, depth > 1 && how != 2, k);
    expect<bool>(none, hn && !(how == 2 && depth == 0), kn);
}
VP_HARNESS(C23, references) {
    u32 x = vp_u32("x"), y = vp_u32("y"); const u32 kx = x, ky = y; const u32 w = vp_u32("w");
    const bool has = vp_fork_(vp_bool("has"));
    opt::option<u32&> o; if (has) o = x;
    const opt::option<u32&>& c = o; const opt::option<const u32&> p(o);
    Rec s; s.next = w;
    const unsigned how = vp_choice(5, "how");
    switch (how) {
    case 0: s << opt::io(o); VP_CHECK(s.n == has && (!has || s.at[0] == &x)); break;
    case 1: s << opt::io(c, y); VP_CHECK(s.n == 1 && s.at[0] == (has ? &x : &y)); break;
    case 2: s << opt::io(p, y); VP_CHECK(s.n == 1 && s.at[0] == (has ? &x : &y)); break;
    case 3: s >> opt::io(o, y); VP_CHECK(s.n == 1 && s.ext[0] && s.at[0] == (has ? &x : &y)); break;
    default: s << opt::io(p); VP_CHECK(s.n == has); break;
    }
    VP_CHECK(x == (how == 3 && has ? w : kx) && y == (how == 3 && !has ? w : ky));
    VP_CHECK(o.ptr_or_null() == (has ? &x : nullptr));
}
// results of other operations are streamed through temporaries
VP_HARNESS(C23, temporaries) {
    bool has; u64 k; OInt o = sym_option<int>("o", has, k);
    Rec s; u32 seen = vp_u32("seen");
    s << opt::io(o.map([](int v) { return u32(v) ^ 1u; }));
    VP_CHECK(s.n == has && s.sum == (has ? u32(u32(k) ^ 1u) : 0u));
    Rec t; t << opt::io(o.map([](int v) { return u32(v); }), seen);
    VP_CHECK(t.n == 1 && t.sum == (has ? u32(k) : seen));
    Rec q; q << opt::io(o.filter([](int v) { return v > 0; }).map([](int v) { return u32(v); }), "none");
    VP_CHECK(q.n == 1 && (has && int(u32(k)) > 0 ? q.sum == u32(k) : q.sum == 0 && q.was_const[0]));
    expect<int>(o, has, k);
}
// a derived stream keeps its type
struct Sub : Rec { u32 tag = 7; };
VP_HARNESS(C23, derived_stream) {
    bool has; u64 k; opt::option<u32> o = sym_option<u32>("o", has, k); u32 d = 5;
    Sub s; s.next = 9;
    Sub& a = (s << opt::io(o)); Sub& b = (s << opt::io(o, d)); Sub& c = (s >> opt::io(o, d));
    VP_CHECK(&a == &s && &b == &s && &c == &s && s.tag == 7 && s.n == (has ? 3u : 2u));
    VP_CHECK(has ? *o == 9 && d == 5 : d == 9);
}
