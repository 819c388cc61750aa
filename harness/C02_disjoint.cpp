// configs: A B D Q
// bound: one element per listed type; every legitimate value of the type is covered symbolically (57-bit canonical pointers for T*, user-space addresses for pointers kept inside library types, floats outside the documented reserved NaN payloads, declared enumerators and flag combinations below the reserved range, strings/vectors with symbolic pointers)
#include "ops.hpp"
// a legitimate value never reads as one of the reserved states, and the option holding it is engaged with the same value
template<class T> void legit(const T& v) {
    using TR = opt::option_traits<T>;
    if constexpr (TR::max_level > 0) VP_CHECK(TR::get_level(&v) >= TR::max_level);
}
template<class T> void legit_bits(const void* raw) {        // value given as object representation only
    using TR = opt::option_traits<T>;
    if constexpr (TR::max_level > 0) VP_CHECK(TR::get_level(static_cast<const T*>(raw)) >= TR::max_level);
}
template<class T> void engaged() {
    {
        u64 k = fresh<T>("k");
        {
            T v = mk<T>(k);
            legit<T>(v);
        }
        opt::option<T> o(mk<T>(k));
        VP_CHECK(o.has_value() && keyof<T>(o.get()) == k);
        opt::option<T> e;
        VP_CHECK(!e.has_value());
        e = mk<T>(k);
        VP_CHECK(e.has_value() && keyof<T>(e.get()) == k);
        e.reset();
        VP_CHECK(!e.has_value());
        e.emplace(mk<T>(k));
        VP_CHECK(e.has_value() && keyof<T>(*e) == k);
        opt::option<opt::option<T>> oo(std::in_place, std::move(o));
        VP_CHECK(oo.has_value() && oo->has_value() && keyof<T>(oo->get()) == k);
        opt::option<opt::option<opt::option<T>>> ooo(std::in_place, std::move(oo));
        VP_CHECK(ooo.has_value() && ooo->has_value() && ooo->get().has_value() && keyof<T>(ooo->get().get()) == k);
        VP_OBS("k", k & 0xff);
    }
    balanced();
}
#define X(N, T) VP_HARNESS(C02, eng_##N) { engaged<T>(); }
VP_ALL_TYPES(X) VP_MOVE_TYPES(X) X(UPtrA, UPtrA) X(Uni, Uni) VP_OPT_TYPES(X) X(Sp0000, Sp0000) X(Sp1111, Sp1111)

// pointers of every kind: null and every canonical address
template<class P> void pointer() {
    u64 a = vp_u64("address");
    vp_assume(canonical(a));
    P p; std::memcpy(&p, &a, 8);
    legit<P>(p);
    opt::option<P> o(p);
    VP_CHECK(o.has_value() && o.get() == p);
    opt::option<opt::option<P>> oo(o);
    VP_CHECK(oo.has_value() && oo->has_value() && **oo == p);
}
VP_HARNESS(C02, ptr_void) { pointer<void*>(); }
VP_HARNESS(C02, ptr_cchar) { pointer<const char*>(); }
VP_HARNESS(C02, ptr_fn) { pointer<int (*)(int)>(); }
VP_HARNESS(C02, ptr_obj) { pointer<Obj*>(); }
VP_HARNESS(C02, ptr_ptr) { pointer<int**>(); }
VP_HARNESS(C02, ptr_opt) { pointer<opt::option<int>*>(); }
VP_HARNESS(C02, ptr_real) {        // addresses of actual objects
    int local = 0; static int global_; int* heap = new int(3);
    int* ps[4] = {&local, &global_, heap, nullptr};
    int* p = ps[vp_choice(4, "which")];
    legit<int*>(p);
    opt::option<int*> o(p);
    VP_CHECK(o.has_value() && *o == p);
    opt::option<opt::option<int*>> oo(o); VP_CHECK(oo.has_value() && oo->has_value());
    delete heap;
}
VP_HARNESS(C02, refw) {
    u64 a = vp_u64("address"); vp_assume(user_space(a) & (a >= 4096));
    unsigned char raw[8]; std::memcpy(raw, &a, 8);
    legit_bits<RefW>(raw);
}
VP_HARNESS(C02, nullptr_values) {
    opt::option<int*> a(nullptr); VP_CHECK(a.has_value() && *a == nullptr);
    opt::option<UPtr> u(UPtr{}); VP_CHECK(u.has_value() && u->get() == nullptr);
    opt::option<int Obj::*> m(static_cast<int Obj::*>(nullptr)); VP_CHECK(m.has_value() && *m == nullptr);
    opt::option<MemF> f(static_cast<MemF>(nullptr)); VP_CHECK(f.has_value() && *f == nullptr);
    opt::option<std::string_view> s(std::string_view{}); VP_CHECK(s.has_value() && s->data() == nullptr && s->size() == 0);
    opt::option<std::string> st(std::string{}); VP_CHECK(st.has_value() && st->empty());
    opt::option<Vec> v(Vec{}); VP_CHECK(v.has_value() && v->empty());
    opt::option<void (*)()> fn(nullptr); VP_CHECK(fn.has_value() && *fn == nullptr);
    opt::option<opt::option<int>> oo{opt::option<int>{}}; VP_CHECK(oo.has_value() && !oo->has_value());
    opt::option<std::pair<int*, UPtr>> pr(std::in_place, nullptr, nullptr); VP_CHECK(pr.has_value());
}
// floats: finite, infinities and quiet NaNs, bit for bit
template<class F> void floating() {
    u64 k = fresh<F>("bits");
    F f = mk<F>(k);
    legit<F>(f);
    opt::option<F> o(f);
    VP_CHECK(o.has_value() && keyof<F>(*o) == k);
    const opt::option<F> p = o;
    VP_CHECK(p.has_value() && keyof<F>(p.value_or(F(0))) == k);
}
VP_HARNESS(C02, fp32) { floating<float>(); }
VP_HARNESS(C02, fp64) { floating<double>(); }
// the reserved payloads are the documented ones: quiet NaNs under OPTION_USE_QUIET_NAN, signaling NaNs otherwise, so a NaN of the other kind is a value like any other
template<class F, class U> void nan_kind(U quiet_bit, U expo) {
    U b; vp_bytes(&b, sizeof b, "nan"); const U mant = (expo & (~expo + 1)) - 1;
    vp_assume(((b & expo) == expo) & ((b & mant) != 0));
#if OPTION_USE_QUIET_NAN
    vp_assume((b & quiet_bit) == 0);
#else
    vp_assume((b & quiet_bit) != 0);
#endif
    F f; std::memcpy(&f, &b, sizeof b);
    legit<F>(f);
    opt::option<F> o(std::in_place, f); U c; std::memcpy(&c, std::addressof(o.get()), sizeof c);
    VP_CHECK(o.has_value() && c == b);
    o.reset(); VP_CHECK(!o.has_value());
    opt::option<opt::option<F>> oo; VP_CHECK(!oo.has_value()); oo.emplace(); VP_CHECK(oo.has_value() && !oo->has_value());
    oo.emplace(f); VP_CHECK(oo.has_value() && oo->has_value()); std::memcpy(&c, std::addressof(oo->get()), sizeof c); VP_CHECK(c == b);
}
VP_HARNESS(C02, nan_kind32) { nan_kind<float, u32>(0x400000u, 0x7f800000u); }
VP_HARNESS(C02, nan_kind64) { nan_kind<double, u64>(0x8000000000000u, 0x7ff0000000000000u); }
VP_HARNESS(C02, fp_limits) {
    using L = std::numeric_limits<float>; using D = std::numeric_limits<double>;
    float fs[] = {0.f, -0.f, L::infinity(), -L::infinity(), L::quiet_NaN(), L::signaling_NaN(), L::max(), L::lowest(), L::denorm_min(), L::min()};
    double ds[] = {0., -0., D::infinity(), -D::infinity(), D::quiet_NaN(), D::signaling_NaN(), D::max(), D::lowest(), D::denorm_min(), D::min()};
    unsigned i = vp_choice(10, "i");
    legit<float>(fs[i]); legit<double>(ds[i]);
    opt::option<float> a; a.emplace(fs[i]); VP_CHECK(a.has_value());
    opt::option<double> b; b.emplace(ds[i]); VP_CHECK(b.has_value());
}
// library types that hold a pointer: every user-space pointer and every size
VP_HARNESS(C02, sv_raw) {
    u64 p = vp_u64("data"), n = vp_u64("size"); vp_assume(user_space(p));
    std::string_view v(reinterpret_cast<const char*>(p), n);
    legit<std::string_view>(v);
    opt::option<std::string_view> o(v);
    VP_CHECK(o.has_value() && u64(o->data()) == p && o->size() == n);
}
VP_HARNESS(C02, uptr_raw) {
    u64 p = vp_u64("ptr"); vp_assume(user_space(p));
    UPtr v(reinterpret_cast<u32*>(p));
    legit<UPtr>(v);
    opt::option<UPtr> o(std::move(v));
    VP_CHECK(o.has_value() && u64(o->get()) == p);
    (void)o->release();
    VP_CHECK(o.has_value());
}
VP_HARNESS(C02, vector_raw) {
    struct { u64 b, e, c; } raw; static_assert(sizeof(raw) == sizeof(Vec));
    raw.b = vp_u64("begin"); raw.e = vp_u64("end"); raw.c = vp_u64("cap");
    vp_assume(user_space(raw.b));
    legit_bits<Vec>(&raw);
    legit_bits<std::vector<std::string>>(&raw);
}
VP_HARNESS(C02, string_raw) {
    struct { u64 p, n; u64 buf[2]; } raw; static_assert(sizeof(raw) == sizeof(std::string));
    vp_bytes(&raw, sizeof raw, "raw");
    vp_assume(user_space(raw.p) & (raw.p != 0));
    legit_bits<std::string>(&raw);
    legit_bits<std::u16string>(&raw);
}
VP_HARNESS(C02, poly_raw) {
    struct { u64 vptr; u64 rest; } raw; static_assert(sizeof(Poly) == 16);
    raw.vptr = vp_u64("vptr"); raw.rest = vp_u64("rest"); vp_assume(user_space(raw.vptr));
    legit_bits<Poly>(&raw);
    legit_bits<PolyD>(&raw);
}
// pointers to members: every offset below 2 GiB and null; virtual and non-virtual function pointers with any adjustment
VP_HARNESS(C02, memptr_raw) {
    std::int64_t off = std::int64_t(vp_u64("offset")); vp_assume((off >= -1) & (off < (std::int64_t(1) << 31)));
    legit_bits<MemP>(&off);
    struct { u64 fn; u64 adj; } f; f.fn = vp_u64("fn"); f.adj = vp_u64("adj"); vp_assume(user_space(f.fn));
    legit_bits<MemF>(&f);
}
struct Base1 { virtual int vf(int) { return 1; } virtual ~Base1() {} int b; };
struct Base2 { int c; int nf(int x) { return x; } };
struct Derived : Base1, Base2 { int vf(int) override { return 2; } int d; };
VP_HARNESS(C02, memptr_real) {
    using F = int (Derived::*)(int); using D = int Derived::*;
    F fs[3] = {&Derived::vf, &Derived::nf, nullptr}; D ds[4] = {&Derived::b, &Derived::c, &Derived::d, nullptr};
    unsigned i = vp_choice(3, "f"), j = vp_choice(4, "d");
    legit<F>(fs[i]); legit<D>(ds[j]);
    opt::option<F> of(fs[i]); opt::option<D> od(ds[j]);
    VP_CHECK(of.has_value() && *of == fs[i]); VP_CHECK(od.has_value() && *od == ds[j]);
}
// enums: every value outside the documented reserved range
enum class S1 : int { a, b, SENTINEL = -5 };
enum class S2 : u8 { a, b, SENTINEL_START = 200 };
enum class S3 : u16 { a, b, SENTINEL_START = 1000, SENTINEL_END = 1500 };
enum class S4 : int { a = -3, b, SENTINEL_START = 70, SENTINEL_END = 90 };
enum class S5 : int { a, b, SENTINEL_START = 0x7fffff00 };
enum class S6 : u64 { a, b, SENTINEL_START = 0xffffffffffffff00u };
enum class S7 : signed char { a, SENTINEL_START = 100, SENTINEL_END = 120 };
enum class S8 : std::int64_t { a, SENTINEL = 7 };
enum S9 : u8 { s9a, SENTINEL9 = 3 };
template<class E> void an_enum(bool (*ok)(std::underlying_type_t<E>)) {
    using U = std::underlying_type_t<E>;
    U u; vp_bytes(&u, sizeof u, "value"); vp_assume(ok(u));
    E e = E(u);
    legit<E>(e);
    opt::option<E> o(e);
    VP_CHECK(o.has_value() && U(*o) == u);
    opt::option<opt::option<E>> oo(o);
    VP_CHECK(oo.has_value() && oo->has_value() && U(**oo) == u);
}
VP_HARNESS(C02, enum_s1) { an_enum<S1>([](int v) { return v != -5; }); }
VP_HARNESS(C02, enum_s2) { an_enum<S2>([](u8 v) { return v < 200; }); }
VP_HARNESS(C02, enum_s3) { an_enum<S3>([](u16 v) { return bool((v < 1000) | (v > 1500)); }); }
VP_HARNESS(C02, enum_s4) { an_enum<S4>([](int v) { return bool((v < 70) | (v > 90)); }); }
VP_HARNESS(C02, enum_s5) { an_enum<S5>([](int v) { return v < 0x7fffff00; }); }
VP_HARNESS(C02, enum_s6) { an_enum<S6>([](u64 v) { return v < 0xffffffffffffff00u; }); }
VP_HARNESS(C02, enum_s7) { an_enum<S7>([](signed char v) { return bool((v < 100) | (v > 120)); }); }
VP_HARNESS(C02, enum_s8) { an_enum<S8>([](std::int64_t v) { return v != 7; }); }
enum class Flags8 : u8 { a = 1, b = 2, c = 4, d = 8 };
enum class Flags16 : u16 { a = 1, b = 16, c = 64 };
enum class One : u32 { only };
enum class Hole : u8 { a = 0, z = 100 };
enum class Top : u8 { a = 0, z = 255 };
enum class Near : u16 { a = 0, z = 1022 };
enum class Big : u32 { a = 0, z = 70000 };
VP_HARNESS(C02, enum_flags8) { an_enum<Flags8>([](u8 v) { return v < 16; }); }
VP_HARNESS(C02, enum_flags16) { an_enum<Flags16>([](u16 v) { return v < 128; }); }
VP_HARNESS(C02, enum_one) { an_enum<One>([](u32 v) { return v == 0; }); }
VP_HARNESS(C02, enum_hole) { an_enum<Hole>([](u8 v) { return v < 128; }); }
VP_HARNESS(C02, enum_top) { an_enum<Top>([](u8) { return true; }); }
VP_HARNESS(C02, enum_near) { an_enum<Near>([](u16 v) { return v <= 1022; }); }
VP_HARNESS(C02, enum_big) { an_enum<Big>([](u32 v) { return bool((v == 0) | (v == 70000)); }); }
enum class Sgn : int { m = -1, z = 0, p = 1 };
enum class Sgn8 : signed char { m = -100, z = 0, p = 100 };
VP_HARNESS(C02, enum_sgn) { an_enum<Sgn>([](int) { return true; }); }
VP_HARNESS(C02, enum_sgn8) { an_enum<Sgn8>([](signed char) { return true; }); }
enum class BoolE : bool { no, yes };
VP_HARNESS(C02, enum_bool) { bool b = vp_bool("v"); BoolE e = BoolE(b); legit<BoolE>(e); opt::option<BoolE> o(e); VP_CHECK(o.has_value() && *o == e);
    opt::option<BoolE> n; VP_CHECK(!n.has_value()); n = e; VP_CHECK(n.has_value() && *n == e); n.reset(); VP_CHECK(!n.has_value()); }
// composites with legitimate members
VP_HARNESS(C02, complex_) {
    u64 a = fresh<double>("re");
    u64 b = vp_u64("im");        // the imaginary part carries no niche
    std::complex<double> c(mk<double>(a), mk<double>(b));
    legit(c);
    opt::option<std::complex<double>> o(c);
    double p[2]; std::memcpy(p, &*o, 16);
    VP_CHECK(o.has_value() && keyof<double>(p[0]) == a && keyof<double>(p[1]) == b);
}
struct PadW { u32 a; u32 PADDING{}; };
struct Pad64 { u32 a; u64 PADDING{}; };
VP_HARNESS(C02, padding) {
    u32 a = vp_u32("a");
    PadW p{a, 0}; legit(p);
    Pad64 q{a, 0}; legit(q);
    Pad r{u16(a), u8(a), 0}; legit(r);
    opt::option<PadW> o(p); VP_CHECK(o.has_value() && o->a == a && o->PADDING == 0);
    opt::option<Pad64> o2(q); VP_CHECK(o2.has_value() && o2->a == a && o2->PADDING == 0);
}
