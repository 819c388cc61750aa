// configs: A B D N
// configs-thorough: C
// bound: every state and value of source and target symbolic, for 12 conversion routes over every listed pair of types
#include "ops.hpp"
#include <string>
#if !defined(OPTION_USE_BUILTIN_TRAITS) || OPTION_USE_BUILTIN_TRAITS
constexpr bool BUILTIN = true;
#else
constexpr bool BUILTIN = false;
#endif
// a source and a target that record how the conversion took place
struct Src { u32 k; u32 pad = 0; explicit Src(u32 k_) : k(k_) {} };
struct Dst {
    u32 k; u32 via;                                     // 1: copied from the source, 2: moved from it, 3/4: assigned
    explicit Dst(u32 k_) : k(k_), via(0) {}
    Dst(const Src& s) : k(s.k), via(1) { ++g_log.ctor; ++g_log.dtor; }
    Dst(Src&& s) : k(s.k), via(2) { s.k = MOVED; ++g_log.ctor; ++g_log.dtor; }
    Dst(const Dst&) = default; Dst(Dst&&) = default; Dst& operator=(const Dst&) = default; Dst& operator=(Dst&&) = default;
    Dst& operator=(const Src& s) { k = s.k; via = 3; return *this; }
    Dst& operator=(Src&& s) { k = s.k; via = 4; s.k = MOVED; return *this; }
};
struct DstE {                                           // explicit construction only, with tracked lifetime and its own niche
    Trk t; bool b;
    explicit DstE(u32 k) : t(k), b(true) {}
    explicit DstE(const Src& s) : t(s.k), b(false) {}
    explicit DstE(Src&& s) : t(s.k), b(true) { s.k = MOVED; }
    DstE& operator=(const Src& s) { t = Trk(s.k); b = false; return *this; }
    DstE& operator=(Src&& s) { t = Trk(s.k); b = true; s.k = MOVED; return *this; }
    DstE(const DstE&) = default; DstE(DstE&&) = default; DstE& operator=(const DstE&) = default; DstE& operator=(DstE&&) = default;
};
struct DMove { std::unique_ptr<u32> p; DMove(std::unique_ptr<u32>&& q) : p(std::move(q)) {} DMove(DMove&&) = default; DMove& operator=(DMove&&) = default; };
VP_GEN(Src, u64 k = vp_u32(n); vp_assume(k < 0x80000000u); return k;, return Src(u32(k));, return v.k;)
VP_GEN(Dst, u64 k = vp_u32(n); vp_assume(k < 0x80000000u); return k;, return Dst(u32(k));, return v.k;)
VP_GEN(DstE, u64 k = vp_u32(n); vp_assume(k < 0x80000000u); return k;, return DstE(u32(k));, return keyof(v.t);)
VP_GEN(DMove, return Gen<UPtr>::fresh(n);, return DMove(mk<UPtr>(k));, return keyof(v.p);)
VP_GEN(long, return vp_u64(n);, return long(k);, return u64(v);)
VP_GEN(u16, return vp_u16(n);, return u16(k);, return v;)
VP_GEN(const int*, u64 p = vp_u64(n); vp_assume(canonical(p)); return p;, return reinterpret_cast<const int*>(k);, return reinterpret_cast<u64>(v);)
VP_GEN(void*, u64 p = vp_u64(n); vp_assume(canonical(p)); return p;, return reinterpret_cast<void*>(k);, return reinterpret_cast<u64>(v);)

// conv: the key of the target converted from the source key
template<class T, class U> u64 conv_key(u64 k) {
    if constexpr (std::is_arithmetic_v<T> && std::is_arithmetic_v<U>) { U u = mk<U>(k); T t = T(u); return keyof<T>(t); }
    else if constexpr (std::is_same_v<T, PolyD>) return u32(k + 1);
    else return k;
}
template<class T> constexpr bool is_rec = std::is_same_v<T, Dst> || std::is_same_v<T, DstE>;
template<class T> void moved(const T& v, bool was) {
    if constexpr (std::is_same_v<T, Dst>) VP_CHECK((v.via == 2 || v.via == 4) == was);
    if constexpr (std::is_same_v<T, DstE>) VP_CHECK(v.b == was);
}
template<class U> void source_after(const opt::option<U>& s, bool has, u64 k, bool was_moved) {
    VP_CHECK(s.has_value() == has);
    if (!has) return;
    if constexpr (std::is_same_v<U, Src>) VP_CHECK(s->k == (was_moved ? MOVED : u32(k)));
    else if constexpr (std::is_same_v<U, UPtr>) { if (was_moved) VP_CHECK(*s == nullptr); else VP_CHECK(keyof<U>(*s) == k); }
    else if (!was_moved || std::is_trivially_copyable_v<U>) VP_CHECK(keyof<U>(*s) == k);
}
template<class T, class U> void conv() {
    {
        using OT = opt::option<T>; using OU = opt::option<U>;
        bool has; u64 k; OU s = sym_option<U>("s", has, k); const OU& c = s;
        if constexpr (std::is_same_v<U, float>) vp_assume((k & 0x7fffffffu) <= 0x7f800000u);     // the payload of a converted NaN is up to the hardware
        const u64 want = has ? conv_key<T, U>(k) : 0;
        constexpr bool cp = std::is_constructible_v<T, const U&>, im = std::is_convertible_v<U, T> && cp;
        auto target = [](const char* n) { bool h; u64 q; return sym_option<T>(n, h, q); };
        switch (vp_choice(13, "route")) {
        case 0: if constexpr (cp) { OT t(c); expect<T>(t, has, want); if (has) moved<T>(*t, false); source_after<U>(s, has, k, false); } break;
        case 1: if constexpr (cp) { OT t(s); expect<T>(t, has, want); if (has) moved<T>(*t, false); source_after<U>(s, has, k, false); } break;
        case 2: { OT t(std::move(s)); expect<T>(t, has, want); if (has) moved<T>(*t, true); source_after<U>(s, has, k, true); } break;
        case 3: if constexpr (cp) { OT t(std::move(c)); expect<T>(t, has, want); if (has) moved<T>(*t, false); source_after<U>(s, has, k, false); } break;
        case 4: if constexpr (cp && std::is_assignable_v<OT&, const OU&>) { OT t = target("t"); OT& r = (t = c); VP_CHECK(&r == &t); expect<T>(t, has, want); if (has) moved<T>(*t, false); source_after<U>(s, has, k, false); } break;
        case 5: if constexpr (cp && std::is_assignable_v<OT&, OU&>) { OT t = target("t"); t = s; expect<T>(t, has, want); if (has) moved<T>(*t, false); source_after<U>(s, has, k, false); } break;
        case 6: if constexpr (std::is_assignable_v<OT&, OU&&>) { OT t = target("t"); OT& r = (t = std::move(s)); VP_CHECK(&r == &t); expect<T>(t, has, want); if (has) moved<T>(*t, true); source_after<U>(s, has, k, true); } break;
        case 7: if constexpr (cp) { OT t = opt::option_cast<T>(c); expect<T>(t, has, want); if (has) moved<T>(*t, false); source_after<U>(s, has, k, false); } break;
        case 8: { OT t = opt::option_cast<T>(std::move(s)); expect<T>(t, has, want); if (has) moved<T>(*t, true); source_after<U>(s, has, k, true); } break;
        case 9: if constexpr (im) { OT t = c; expect<T>(t, has, want); OT q = [](OT x) { return x; }(c); expect<T>(q, has, want); source_after<U>(s, has, k, false); } break;
        case 10: if (has) { if constexpr (cp) { const U v = mk<U>(k); OT t(v); expect<T>(t, true, want); moved<T>(*t, false); VP_CHECK(keyof<U>(v) == k);
                 if constexpr (std::is_assignable_v<OT&, const U&>) { OT q = target("t"); OT& r = (q = v); VP_CHECK(&r == &q); expect<T>(q, true, want); moved<T>(*q, false); VP_CHECK(keyof<U>(v) == k); } } } break;
        case 11: if (has) { U v = mk<U>(k); OT t(std::move(v)); expect<T>(t, true, want); moved<T>(*t, true); } break;
        default: if (has) { if constexpr (std::is_assignable_v<OT&, U>) { OT t = target("t"); t = mk<U>(k); expect<T>(t, true, want); moved<T>(*t, true); OT q(std::in_place, mk<U>(k)); expect<T>(q, true, want); moved<T>(*q, true);
                 q.emplace(mk<U>(k)); expect<T>(q, true, want); } } break;
        }
        VP_OBS("has", has);
    }
    balanced();
}
#define X(N, T, U) VP_HARNESS(C19, conv_##N) { conv<T, U>(); }
X(int_u8, int, u8) X(u8_int, u8, u32) X(long_int, long, int) X(int_long, int, long) X(int_bool, int, bool) X(double_float, double, float) X(double_u8, double, u8) X(float_u8, float, u8)
X(u32_u16, u32, u16) X(cptr_ptr, const int*, int*) X(vptr_ptr, void*, int*) X(Dst_Src, Dst, Src) X(DstE_Src, DstE, Src) X(DMove_UPtr, DMove, UPtr) X(Trk_u32, Trk, u32) X(TrkN_u32, TrkN, u32) X(TrkA_u32, TrkA, u32)
X(Poly_u32, Poly, u32) X(PolyD_u32, PolyD, u32) X(Sp0000_u32, Sp0000, u32) X(Sp1111_u32, Sp1111, u32)

// to bool: the value is converted, never the engagement
template<class U> void to_bool() {
    bool has; u64 k; opt::option<U> s = sym_option<U>("s", has, k);
    bool want = has && static_cast<bool>(s.get());
    bool th; u64 tk; opt::option<bool> t = sym_option<bool>("t", th, tk);
    switch (vp_choice(5, "route")) {
    case 0: { opt::option<bool> q(s); t = q; break; }
    case 1: { opt::option<bool> q(std::move(s)); t = q; break; }
    case 2: t = s; break;
    case 3: t = static_cast<const opt::option<U>&>(s); break;
    default: t = opt::option_cast<bool>(s); break;
    }
    VP_CHECK(t.has_value() == has);
    if (has) VP_CHECK(*t == want);
    expect<U>(s, has, k);
}
VP_HARNESS(C19, bool_int) { to_bool<int>(); }
VP_HARNESS(C19, bool_u64) { to_bool<u64>(); }
VP_HARNESS(C19, bool_ptr) { to_bool<int*>(); }
// unique_ptr<Base> from unique_ptr<Derived>, strings from characters and views
struct VB { u32 v; explicit VB(u32 x) : v(x) {} virtual ~VB() {} };
struct VD : VB { using VB::VB; };
VP_HARNESS(C19, unique_base) {
    using B = std::unique_ptr<VB>; using D = std::unique_ptr<VD>;
    bool has = vp_fork_(vp_bool("has")), null = has && vp_fork_(vp_bool("null")); u32 k = vp_u32("k");
    opt::option<D> s; if (has) s.emplace(null ? nullptr : new VD(k));
    VD* raw = has ? s->get() : nullptr;
    opt::option<B> t;
    bool th = vp_fork_(vp_bool("th")); if (th) t.emplace(new VB(1));
    switch (vp_choice(3, "route")) {
    case 0: { opt::option<B> q(std::move(s)); t = std::move(q); break; }
    case 1: t = std::move(s); break;
    default: t = opt::option_cast<B>(std::move(s)); break;
    }
    VP_CHECK(t.has_value() == has);
    VP_CHECK(s.has_value() == has);
    if (has) { VP_CHECK(t->get() == raw); VP_CHECK(s->get() == nullptr); if (!null) VP_CHECK((*t)->v == k); }
}
VP_HARNESS(C19, string_view) {
    bool has; u64 k; opt::option<std::string> s = sym_option<std::string>("s", has, k);
    opt::option<std::string_view> v(s), w; w = s;
    VP_CHECK(v.has_value() == has && w.has_value() == has);
    if (has) { VP_CHECK(v->data() == s->data() && v->size() == s->size() && w->data() == s->data()); }
    opt::option<std::string> back(v); expect<std::string>(back, has, k);
    opt::option<std::string> cast = opt::option_cast<std::string>(v); expect<std::string>(cast, has, k);
    expect<std::string>(s, has, k);
    opt::option<std::string> lit("ab"); VP_CHECK(lit.has_value() && *lit == "ab");
    lit = "c"; VP_CHECK(lit.has_value() && *lit == "c"); s = "xyz"; VP_CHECK(s.has_value() && *s == "xyz");
}
// option<option<T>> from options and values of other types
VP_HARNESS(C19, nested_from_option) {
    bool has; u64 k; opt::option<u16> s = sym_option<u16>("s", has, k);
    opt::option<opt::option<u32>> t(s);
    VP_CHECK(t.has_value()); expect<u32>(*t, has, k);
    bool th = vp_fork_(vp_bool("th")); opt::option<opt::option<u32>> q; if (th) q.emplace(vp_u32("q"));
    q = s;
    VP_CHECK(q.has_value()); expect<u32>(*q, has, k);
    opt::option<opt::option<u32>> r(std::in_place, s); VP_CHECK(r.has_value()); expect<u32>(*r, has, k);
    u32 v = vp_u32("v"); opt::option<opt::option<u32>> d(v); VP_CHECK(d.has_value() && d->has_value() && **d == v);
    expect<u16>(s, has, k);
}

template<class T> void make() {
    {
        u64 k = fresh<T>("k");
        { auto o = opt::make_option(mk<T>(k)); static_assert(std::is_same_v<decltype(o), opt::option<T>>); expect<T>(o, true, k); }
        { auto o = opt::make_option<T>(mk<T>(k)); static_assert(std::is_same_v<decltype(o), opt::option<T>>); expect<T>(o, true, k); }
        { opt::option o{mk<T>(k)}; static_assert(std::is_same_v<decltype(o), opt::option<T>>); expect<T>(o, true, k); }
        { opt::option<T> o{mk<T>(k)}; expect<T>(o, true, k); }
        { T v = mk<T>(k); auto o = opt::make_option(std::move(v)); expect<T>(o, true, k); }
        if constexpr (copyable<T>) {
            T v = mk<T>(k); const T w = mk<T>(k);
            auto o = opt::make_option(v); static_assert(std::is_same_v<decltype(o), opt::option<T>>); expect<T>(o, true, k); VP_CHECK(keyof<T>(v) == k);
            auto p = opt::make_option(w); static_assert(std::is_same_v<decltype(p), opt::option<T>>); expect<T>(p, true, k); VP_CHECK(keyof<T>(w) == k);
            auto q = opt::make_option<T>(w); expect<T>(q, true, k); VP_CHECK(keyof<T>(w) == k);
            opt::option r{w}; static_assert(std::is_same_v<decltype(r), opt::option<T>>); expect<T>(r, true, k); VP_CHECK(keyof<T>(w) == k);
        }
    }
    balanced();
}
#define XK(N, T) VP_HARNESS(C19, make_##N) { make<T>(); }
VP_ALL_TYPES(XK) VP_MOVE_TYPES(XK) VP_SP_TYPES(XK) XK(AggTb, AggTb) XK(AggT, AggT)

// in-place arguments and initializer lists
VP_HARNESS(C19, in_place_args) {
    {
        u32 a = vp_u32("a") & 0xffffffu; u32 b = vp_u32("b") & 0xffffffu; u32 c = vp_u32("c") & 0xffffffu;
        bool th; u64 tk; opt::option<Trk> t = sym_option<Trk>("t", th, tk);
        { opt::option<Trk> o(std::in_place, a, b); expect<Trk>(o, true, u64(a) + b); }
        { opt::option<Trk> o(a, b); expect<Trk>(o, true, u64(a) + b); }
        { auto o = opt::make_option<Trk>(a, b); expect<Trk>(o, true, u64(a) + b); }
        { opt::option<Trk> o(std::in_place, {a, b, c}, b); expect<Trk>(o, true, 3 + u64(a) + b); }
        { auto o = opt::make_option<Trk>({a, c}, b); expect<Trk>(o, true, 2 + u64(a) + b); }
        { Trk& r = t.emplace(a, b); VP_CHECK(&r == &*t); expect<Trk>(t, true, u64(a) + b); }
        { t.emplace(std::initializer_list<u32>{a, b, c}, c); expect<Trk>(t, true, 3 + u64(a) + c); }
        { Trk& r = t.try_emplace(c, c); VP_CHECK(&r == &*t); expect<Trk>(t, true, 3 + u64(a) + c); }
        { opt::option<Trk> e; Trk& r = e.try_emplace(c, a); VP_CHECK(&r == &*e); expect<Trk>(e, true, u64(a) + c); }
        { opt::option<Agg> o(std::in_place, a, true); VP_CHECK(o.has_value() && o->a == a && o->b); opt::option<Agg> q(b, false); VP_CHECK(q.has_value() && q->a == b && !q->b); q.emplace(c, true); VP_CHECK(q.has_value() && q->a == c && q->b); auto m = opt::make_option<Agg>(a, false); VP_CHECK(m.has_value() && m->a == a && !m->b); }
        { opt::option<std::pair<u32, bool>> o(a, true); VP_CHECK(o.has_value() && o->first == a && o->second); o.emplace(b, false); VP_CHECK(o.has_value() && o->first == b && !o->second); }
        { opt::option<std::vector<u32>> o(std::in_place, {a, b, c}); VP_CHECK(o.has_value() && o->size() == 3 && (*o)[0] == a && (*o)[1] == b && (*o)[2] == c); auto m = opt::make_option<std::vector<u32>>({b, a}); VP_CHECK(m.has_value() && m->size() == 2 && (*m)[0] == b && (*m)[1] == a);
          opt::option<std::vector<u32>> s(std::in_place, 2, c); VP_CHECK(s.has_value() && s->size() == 2 && (*s)[1] == c); opt::option<std::vector<u32>> e(std::in_place); VP_CHECK(e.has_value() && e->empty()); e.reset(); e.emplace(); VP_CHECK(e.has_value() && e->empty()); }
        { opt::option<std::unique_ptr<u32>> o(std::in_place, new u32(a)); VP_CHECK(o.has_value() && **o == a); opt::option<std::unique_ptr<u32>> n(std::in_place); VP_CHECK(n.has_value() && *n == nullptr); opt::option<std::unique_ptr<u32>> z(nullptr); VP_CHECK(z.has_value() && *z == nullptr); z = std::make_unique<u32>(b); VP_CHECK(z.has_value() && **z == b); }
        { opt::option<std::tuple<u32, Trk, bool>> o(a, b, true); VP_CHECK(o.has_value() && std::get<0>(*o) == a && keyof(std::get<1>(*o)) == b && std::get<2>(*o)); }
    }
    balanced();
}
// make_option decays
VP_HARNESS(C19, make_decay) {
    u32 a = vp_u32("a"); u32 arr[3] = {1, a, 3};
    auto o = opt::make_option(arr); static_assert(std::is_same_v<decltype(o), opt::option<u32*>>); VP_CHECK(o.has_value() && *o == arr && (*o)[1] == a);
    u32& r = a; const u32& cr = a;
    auto p = opt::make_option(r); static_assert(std::is_same_v<decltype(p), opt::option<u32>>); VP_CHECK(*p == a && &*p != &a);
    auto q = opt::make_option(cr); static_assert(std::is_same_v<decltype(q), opt::option<u32>>); VP_CHECK(*q == a);
    *p = ~a; VP_CHECK(*q == a && arr[1] == a);
    auto z = opt::make_option<u32&>(a); static_assert(std::is_same_v<decltype(z), opt::option<u32&>>); VP_CHECK(z.has_value() && &*z == &a);
}
// from_nullable
template<class P> void nullable(P* objs) {
    u32 i = vp_choice(5, "i");
    P* p = i == 4 ? nullptr : objs + i;
    auto o = opt::from_nullable(p); static_assert(std::is_same_v<decltype(o), opt::option<P&>>);
    VP_CHECK(o.has_value() == (p != nullptr));
    VP_CHECK(o.ptr_or_null() == p);
    if (p) VP_CHECK(&o.get() == p);
    P* const cp = p; auto q = opt::from_nullable(cp); VP_CHECK(q.ptr_or_null() == p);
}
VP_HARNESS(C19, nullable_int) { nullable<int>(g_ints); }
VP_HARNESS(C19, nullable_cint) { nullable<const int>(g_ints); }
VP_HARNESS(C19, nullable_agg) { Agg a[4]{}; nullable<Agg>(a); }
VP_HARNESS(C19, nullable_poly) { Poly a[4]{1, 2, 3, 4}; nullable<Poly>(a); }
VP_HARNESS(C19, nullable_ptr) { int* a[4]{}; nullable<int*>(a); }
VP_HARNESS(C19, nullable_any) { // any non-null address, never dereferenced
    u64 a = vp_u64("a"); vp_assume(a >= 4096);
    u8* p = reinterpret_cast<u8*>(a); auto o = opt::from_nullable(p); VP_CHECK(o.has_value() && o.ptr_or_null() == p);
    u8* z = nullptr; VP_CHECK(!opt::from_nullable(z).has_value());
}
#if !defined(OPTION_USE_BUILTIN_TRAITS) || OPTION_USE_BUILTIN_TRAITS
// as_option: every bit pattern of the value
template<class T> void as_opt() {
    alignas(T) unsigned char mem[sizeof(T)]; vp_bytes(mem, sizeof mem, "bits");
    const T& v = *reinterpret_cast<const T*>(mem);
    unsigned char copy[sizeof(T)]; std::memcpy(copy, mem, sizeof mem);
    const u64 l = opt::option_traits<T>::get_level(&v);
    opt::option<T> o = opt::as_option(v);
    VP_CHECK(o.has_value() == (l != 0));
    if (l != 0) { unsigned char got[sizeof(T)]; std::memcpy(got, &o.get(), sizeof got); for (unsigned i = 0; i < sizeof got; ++i) VP_CHECK(got[i] == copy[i]); }
    for (unsigned i = 0; i < sizeof mem; ++i) VP_CHECK(mem[i] == copy[i]);
}
VP_HARNESS(C19, as_float) { as_opt<float>(); }
VP_HARNESS(C19, as_double) { as_opt<double>(); }
VP_HARNESS(C19, as_ptr) { as_opt<int*>(); }
VP_HARNESS(C19, as_sview) { as_opt<std::string_view>(); }
VP_HARNESS(C19, as_color) { as_opt<Color>(); }
VP_HARNESS(C19, as_wide) { as_opt<Wide>(); }
VP_HARNESS(C19, as_cplx) { as_opt<CplxF>(); }
VP_HARNESS(C19, as_farray) { as_opt<std::array<float, 2>>(); }
VP_HARNESS(C19, as_memptr) { as_opt<MemP>(); }
VP_HARNESS(C19, as_sentinel) { as_opt<opt::sentinel<u32, 5u, 6u>>(); }
VP_HARNESS(C19, as_bool) { bool b = vp_bool("b"); opt::option<bool> o = opt::as_option(b); VP_CHECK(o.has_value() && *o == b); }
VP_HARNESS(C19, as_optbool) { u64 k = fresh<OBool>("k"); OBool in = mk<OBool>(k); opt::option<OBool> o = opt::as_option(in); VP_CHECK(o.has_value()); VP_CHECK(keyof(*o) == k); VP_CHECK(keyof(in) == k); }
#endif
