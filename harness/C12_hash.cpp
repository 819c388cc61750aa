// configs: A B D N
// bound: engaged options built by each of 22 routes and empty options by each of 8 routes in storage with arbitrary previous contents, all values symbolic; all pairs of options for the equality law
#include "ops.hpp"
template<class T> std::size_t hv(const T& v) { return std::hash<T>{}(v); }
template<class T> void engaged_hash() {
    using O = opt::option<T>;
    {
        u64 k = fresh<T>("k"), other = fresh<T>("other");
        alignas(O) unsigned char mem[sizeof(O)]; vp_bytes(mem, sizeof mem, "garbage");
        const T v = mk<T>(k);
        O* o = ::new (static_cast<void*>(mem)) O(build<T>(vp_choice(n_routes<T>, "route"), k, other));
        const O& c = *o;
        const std::size_t want = hv<T>(v);
        VP_CHECK(std::hash<O>{}(c) == want);
        VP_CHECK(std::hash<O>{}(c) == hv<T>(*c));
        VP_CHECK(std::hash<opt::option<O>>{}(opt::option<O>(std::in_place, std::move(*o))) == want);
        o->~O();
    }
    balanced();
}
template<class T> void empty_hash() {
    using O = opt::option<T>;
    {
        u64 other = fresh<T>("other");
        alignas(O) unsigned char mem[sizeof(O)]; vp_bytes(mem, sizeof mem, "garbage");
        O* e = ::new (static_cast<void*>(mem)) O();
        const std::size_t h0 = std::hash<O>{}(*e);
        VP_CHECK(h0 == std::hash<O>{}(O()));
        O o = build_empty<T>(vp_choice(n_empty_routes, "route"), other);
        VP_CHECK(std::hash<O>{}(o) == h0);
        *e = std::move(o); VP_CHECK(std::hash<O>{}(*e) == h0);
        e->emplace(mk<T>(other)); VP_CHECK(std::hash<O>{}(*e) == hv<T>(mk<T>(other)));
        e->reset(); VP_CHECK(std::hash<O>{}(*e) == h0);
        e->~O();
    }
    balanced();
}
template<class T> void law() {
    using O = opt::option<T>;
    {
        bool h, ph; u64 k, pk;
        const O a = sym_option<T>("a", h, k), b = sym_option<T>("b", ph, pk);
        if (a == b) VP_CHECK(std::hash<O>{}(a) == std::hash<O>{}(b));
        bool has = h; u64 kk = k; O c = a;
        step<T>(c, has, kk);
        const O d = has ? O(std::in_place, mk<T>(kk)) : O();
        VP_CHECK(std::hash<O>{}(c) == std::hash<O>{}(d));
        VP_CHECK(std::hash<O>{}(a) == std::hash<O>{}(O(a)));
        expect<T>(a, h, k); expect<T>(b, ph, pk);
    }
    balanced();
}
template<class T> void nested() {
    using O = opt::option<T>;
    {
        u64 a = fresh<O>("a"), b = fresh<O>("b");
        const O x = mk<O>(a), y = mk<O>(b);
        if (x == y) VP_CHECK(std::hash<O>{}(x) == std::hash<O>{}(y));
        if (x.has_value()) VP_CHECK(std::hash<O>{}(x) == std::hash<T>{}(*x));
        VP_CHECK(std::hash<O>{}(x) == std::hash<O>{}(O(x)));
    }
    balanced();
}
template<> struct std::hash<Trk> { std::size_t operator()(const Trk& t) const { t.alive(); return t.k * 0x9e3779b97f4a7c15ull + 5; } };
template<> struct std::hash<TrkN> { std::size_t operator()(const TrkN& t) const { t.alive(); return t.k * 0x9e3779b97f4a7c15ull + 7; } };
template<> struct std::hash<AggNo> { std::size_t operator()(const AggNo& t) const { return t.a * 31u + t.b; } };
bool operator==(const AggNo& a, const AggNo& b) { return (a.a == b.a) & (a.b == b.b); }
template<> struct std::hash<PairIB> { std::size_t operator()(const PairIB& t) const { return t.first * 31u + t.second; } };
enum class E64 : u64 { a = 1, b = 0x100000001 }; enum E32s : int { n1 = -5, n2 = 70000 }; enum class E16 : u16 { a = 300, SENTINEL = 9 };
template<> struct Gen<E64> { static u64 fresh(const char* n) { const u64 k = vp_u64(n); vp_assume(k < 2 || k > 4096); return k; } static E64 make(u64 k) { return E64(k); } static u64 key(const E64& v) { return u64(v); } };
template<> struct Gen<E32s> { static u64 fresh(const char* n) { return vp_u32(n); } static E32s make(u64 k) { return E32s(int(u32(k))); } static u64 key(const E32s& v) { return u32(int(v)); } };
template<> struct Gen<E16> { static u64 fresh(const char* n) { const u64 k = vp_u16(n); vp_assume(k != 9); return k; } static E16 make(u64 k) { return E16(u16(k)); } static u64 key(const E16& v) { return u16(v); } };
using i8 = signed char; using i16 = short; using i64 = long long; using fnp = void (*)();
VP_GEN(i8, return vp_u8(n);, return i8(u8(k));, return u8(v);)
VP_GEN(i16, return vp_u16(n);, return i16(u16(k));, return u16(v);)
VP_GEN(i64, return vp_u64(n);, return i64(k);, return u64(v);)
VP_GEN(char32_t, return vp_u32(n);, return char32_t(k);, return u32(v);)
VP_GEN(fnp, u64 p = vp_u64(n); vp_assume(canonical(p)); return p;, return reinterpret_cast<fnp>(k);, return reinterpret_cast<u64>(v);)
#define X(N, T) VP_HARNESS(C12, hash_##N) { engaged_hash<T>(); } VP_HARNESS(C12, empty_##N) { empty_hash<T>(); } VP_HARNESS(C12, law_##N) { law<T>(); }
X(int, int) X(u8, u8) X(u64, u64) X(bool, bool) X(ptr, int*) X(Color, Color) X(Wide, Wide) X(Trk, Trk) X(TrkN, TrkN) X(string, std::string) X(AggNo, AggNo) X(PairIB, PairIB)
X(E64, E64) X(E32s, E32s) X(E16, E16) X(i8, i8) X(i16, i16) X(i64, i64) X(char32, char32_t) X(fnp, fnp)
#define F(N, T) VP_HARNESS(C12, hash_##N) { engaged_hash<T>(); } VP_HARNESS(C12, empty_##N) { empty_hash<T>(); }
F(float, float) F(double, double)
#define Y(N, T) VP_HARNESS(C12, nest_##N) { nested<T>(); }
Y(int, int) Y(OInt, OInt) Y(OOInt, OOInt) Y(OBool, OBool) Y(OOBool, OOBool) Y(OTrk, OTrk) Y(OTrkN, OTrkN)
VP_HARNESS(C12, floats) {       // equal values hash equal although the representations differ (zeros)
    using O = opt::option<float>;
    const O a(mk<float>(fresh<float>("a"))), b(mk<float>(fresh<float>("b")));
    if (a == b) VP_CHECK(std::hash<O>{}(a) == std::hash<O>{}(b));
    const opt::option<double> p(mk<double>(fresh<double>("p"))), q(mk<double>(fresh<double>("q")));
    if (p == q) VP_CHECK(std::hash<opt::option<double>>{}(p) == std::hash<opt::option<double>>{}(q));
}
VP_HARNESS(C12, references) {
    int x[3] = {int(vp_u32("x0")), int(vp_u32("x1")), 0};
    const unsigned i = vp_choice(3, "i");
    opt::option<int&> l(x[i]); opt::option<const int&> c(x[i]); opt::option<int&&> r(std::move(x[i]));
    const std::size_t want = std::hash<int*>{}(&x[i]);
    VP_CHECK(std::hash<opt::option<int&>>{}(l) == want); VP_CHECK(std::hash<opt::option<const int&>>{}(c) == want); VP_CHECK(std::hash<opt::option<int&&>>{}(r) == want);
    x[i] = int(vp_u32("y"));
    VP_CHECK(std::hash<opt::option<int&>>{}(l) == want);
    l.reset(); VP_CHECK(std::hash<opt::option<int&>>{}(l) == std::hash<opt::option<int&>>{}(opt::option<int&>()));
    VP_CHECK(std::hash<opt::option<int&>>{}(l) == std::hash<int*>{}(nullptr));
    l = x[2]; VP_CHECK(std::hash<opt::option<int&>>{}(l) == std::hash<int*>{}(&x[2]));
    r.reset(); VP_CHECK(std::hash<opt::option<int&&>>{}(r) == std::hash<opt::option<int&&>>{}(opt::option<int&&>()));
}
VP_HARNESS(C12, const_payload) {
    const u32 v = vp_u32("v");
    const opt::option<const u32> o(v), e;
    VP_CHECK(std::hash<opt::option<const u32>>{}(o) == std::hash<u32>{}(v));
    VP_CHECK(std::hash<opt::option<const u32>>{}(e) == std::hash<opt::option<u32>>{}(opt::option<u32>()));
}
