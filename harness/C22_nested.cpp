// configs: A B D
// configs-thorough: C N
// bound: every operation of the interface in each of the four value categories, both states, all values; copy/move counting, move-only, heap-owning and plain payloads
#include "ops.hpp"
using std::move;
#define FWD static_cast<O>(o)
#define FX static_cast<decltype(x)>(x)
// nested and composite options: flatten, unzip, get, transposition
template<class T, class O> void nested(std::remove_reference_t<O>& o, unsigned depth, u64 k) {
    using N = opt::option<T>; using V = std::remove_const_t<std::remove_reference_t<O>>;
    constexpr bool rvalue = std::is_same_v<O, V&&>;
    const Log l = g_log;
    const unsigned op = vp_choice(3, "op");
    bool handed = rvalue && depth == 2;
    switch (op) {
    case 0: { handed = false; auto r = FWD.map([](auto&& x) { return x.has_value(); }); VP_CHECK(r.has_value() == (depth > 0)); if (depth > 0) VP_CHECK(*r == (depth > 1)); break; }
    case 1: { if constexpr (copyable<T> || rvalue) { N r = FWD.and_then([](auto&& x) { return N(FX); }); expect<T>(r, depth == 2, k); } else handed = false; break; }
    default: { auto r = opt::flatten(FWD); VP_CHECK(r.has_value() == (depth == 2)); if (depth == 2) VP_CHECK(keyof<T>(*r) == k); if constexpr (std::is_lvalue_reference_v<O>) if (depth == 2) VP_CHECK(&*r == &**o); break; }
    }
    const Log d = since(l);
    VP_CHECK(o.has_value() == (depth > 0)); if (depth > 0) VP_CHECK(o->has_value() == (depth > 1));
    if (depth == 2) VP_CHECK((*o)->k == (handed ? MOVED : u32(k)));
    if (rvalue) VP_CHECK(d.cctor == 0 && d.cassign == 0);
    if (std::is_lvalue_reference_v<O> && op == 2) VP_CHECK(d.cctor + d.mctor == 0);
}
template<class T> void all_nested() {
    {
        using V = opt::option<opt::option<T>>;
        const unsigned depth = vp_choice(3, "depth"); u64 k = 0; V o;
        if (depth > 0) o.emplace();
        if (depth > 1) { k = fresh<T>("k"); o->emplace(mk<T>(k)); }
        switch (vp_choice(4, "cat")) {
        case 0: nested<T, V&>(o, depth, k); break;
        case 1: if constexpr (copyable<T>) nested<T, const V&>(o, depth, k); break;
        case 2: nested<T, V&&>(o, depth, k); break;
        default: if constexpr (copyable<T>) nested<T, const V&&>(o, depth, k); break;
        }
    }
    balanced();
}
VP_HARNESS(C22, nested_Trk) { all_nested<Trk>(); }
VP_HARNESS(C22, nested_TrkN) { all_nested<TrkN>(); }
VP_HARNESS(C22, nested_TrkM) { all_nested<TrkM>(); }

template<class T, class O> void tuples(std::remove_reference_t<O>& o, bool has, u64 a, u64 b) {
    using V = std::remove_const_t<std::remove_reference_t<O>>;
    constexpr bool rvalue = std::is_same_v<O, V&&>;
    const Log l = g_log; bool handed = false;
    switch (vp_choice(3, "op")) {
    case 0: { auto r = opt::get<0>(FWD); auto q = opt::get<1>(FWD); VP_CHECK(r.has_value() == has && q.has_value() == has); if (has) VP_CHECK(&r.get() == &o->first && &q.get() == &o->second);
              const Log d = since(l); VP_CHECK(d.cctor + d.mctor == 0); break; }
    case 1: if constexpr (copyable<T> || rvalue) { handed = rvalue; auto r = opt::unzip(FWD); expect<T>(std::get<0>(r), has, a); expect<T>(std::get<1>(r), has, b); } break;
    default: if constexpr (copyable<T> || rvalue) { handed = rvalue; auto r = FWD.map([](auto&& x) { return T(FX.second); }); expect<T>(r, has, b); } break;
    }
    const Log d = since(l);
    VP_CHECK(o.has_value() == has);
    if (has && !handed) VP_CHECK(keyof<T>(o->first) == a && keyof<T>(o->second) == b);
    if (has && handed) VP_CHECK(o->second.k == MOVED);
    if (rvalue) VP_CHECK(d.cctor == 0 && d.cassign == 0);
}
template<class T> void all_tuples() {
    {
        using V = opt::option<std::pair<T, T>>;
        const bool has = vp_fork_(vp_bool("has")); const u64 a = fresh<T>("a"), b = fresh<T>("b"); V o;
        if (has) o.emplace(mk<T>(a), mk<T>(b));
        switch (vp_choice(4, "cat")) {
        case 0: tuples<T, V&>(o, has, a, b); break;
        case 1: tuples<T, const V&>(o, has, a, b); break;
        case 2: tuples<T, V&&>(o, has, a, b); break;
        default: tuples<T, const V&&>(o, has, a, b); break;
        }
    }
    balanced();
}
VP_HARNESS(C22, tuples_Trk) { all_tuples<Trk>(); }
VP_HARNESS(C22, tuples_TrkN) { all_tuples<TrkN>(); }
VP_HARNESS(C22, tuples_TrkM) { all_tuples<TrkM>(); }

// the other operand of a binary operation is not touched either
template<class T> void operands() {
    {
        using O = opt::option<T>;
        bool ha, hb; u64 ka, kb; O a = sym_option<T>("a", ha, ka), b = sym_option<T>("b", hb, kb);
        const Log l = g_log; bool rv = false; const O& ca = a; const O& cb = b;
        switch (vp_choice(14, "op")) {
        case 0: { O r = a | b; expect<T>(r, ha || hb, ha ? ka : kb); break; }
        case 1: { O r = a & b; expect<T>(r, ha && hb, kb); break; }
        case 2: { O r = a ^ b; expect<T>(r, ha != hb, ha ? ka : kb); break; }
        case 3: { O r = ca | cb; expect<T>(r, ha || hb, ha ? ka : kb); break; }
        case 4: { O r = move(a) | b; expect<T>(r, ha || hb, ha ? ka : kb); expect<T>(b, hb, kb); rv = true; break; }
        case 5: { O r = a | move(b); expect<T>(r, ha || hb, ha ? ka : kb); expect<T>(a, ha, ka); if (ha) expect<T>(b, hb, kb); rv = true; break; }
        case 6: { O r = move(a) ^ b; expect<T>(r, ha != hb, ha ? ka : kb); expect<T>(b, hb, kb); if (ha == hb) expect<T>(a, ha, ka); rv = true; break; }
        case 7: { O r = a ^ move(b); expect<T>(r, ha != hb, ha ? ka : kb); expect<T>(a, ha, ka); if (ha) expect<T>(b, hb, kb); rv = true; break; }
        case 8: { O r = a & move(b); expect<T>(r, ha && hb, kb); expect<T>(a, ha, ka); if (!ha) expect<T>(b, hb, kb); rv = true; break; }
        case 9: { auto r = opt::zip(a, cb); VP_CHECK(r.has_value() == (ha && hb)); if (ha && hb) VP_CHECK(keyof<T>(std::get<0>(*r)) == ka && keyof<T>(std::get<1>(*r)) == kb); break; }
        case 10: { auto r = opt::zip(move(a), b); VP_CHECK(r.has_value() == (ha && hb)); expect<T>(b, hb, kb); if (!hb) expect<T>(a, ha, ka); rv = true; break; }
        case 11: { auto r = opt::zip(move(a), move(b)); VP_CHECK(r.has_value() == (ha && hb)); const Log d = since(l); VP_CHECK(d.cctor == 0); if (!(ha && hb)) { expect<T>(a, ha, ka); expect<T>(b, hb, kb); } rv = true; break; }
        case 12: { VP_CHECK((a == b) == (ha == hb && (!ha || ka == kb))); (void)(a != cb); const Log d = since(l); VP_CHECK(d.cctor + d.mctor == 0); break; }
        default: { O r = move(a) | move(b); expect<T>(r, ha || hb, ha ? ka : kb); if (ha) expect<T>(b, hb, kb); const Log d = since(l); VP_CHECK(d.cctor == 0); rv = true; break; }
        }
        if (!rv) { expect<T>(a, ha, ka); expect<T>(b, hb, kb); }
        VP_CHECK(a.has_value() == ha && b.has_value() == hb);
    }
    balanced();
}
VP_HARNESS(C22, operands_Trk) { operands<Trk>(); }
VP_HARNESS(C22, operands_TrkN) { operands<TrkN>(); }
VP_HARNESS(C22, operands_Vec) { operands<Vec>(); }
VP_HARNESS(C22, operands_bool) { operands<bool>(); }
VP_HARNESS(C22, operands_PairTB) { operands<PairTB>(); }

// arguments: an lvalue argument is copied from and kept, an rvalue one is moved exactly once and never copied; an unused one is not touched
VP_HARNESS(C22, arguments) {
    {
        bool h; u64 k; OTrk o = sym_option<Trk>("o", h, k);
        const u32 f = vp_u32("f"); vp_assume(f < 0x80000000u); Trk v(f); const Trk& cv = v;
        const Log l = g_log; bool used = true, rv = false;
        switch (vp_choice(10, "op")) {
        case 0: o = v; break;
        case 1: o = cv; break;
        case 2: o = move(v); rv = true; break;
        case 3: o.emplace(v); break;
        case 4: o.emplace(move(v)); rv = true; break;
        case 5: o.try_emplace(v); used = !h; break;
        case 6: o.try_emplace(move(v)); rv = true; used = !h; break;
        case 7: o |= v; used = !h; break;
        case 8: o |= move(v); rv = true; used = !h; break;
        default: { OTrk q(move(v)); rv = true; o = move(q); break; }
        }
        const Log d = since(l);
        VP_CHECK(v.k == (rv && used ? MOVED : f));
        expect<Trk>(o, true, used ? f : k);
        VP_CHECK(d.cctor + d.cassign == (used && !rv ? 1 : 0));
    }
    balanced();
}
