// configs: A B D
// configs-thorough: A B C D N
// bound: every sequence of 2 operations for int (of 1 for the other types and configurations; of 2 for all of them in the thorough tier) out of 20, from every start binding with targets among 3 objects with symbolic contents, then every accessor and read-only operation
#include "ops.hpp"
using std::move;
// an option of a reference to an option is not constructible from that option (it would be ambiguous), it is bound by emplace or assignment
template<class R, class T> opt::option<R> ref_to(T& t) { if constexpr (opt::is_option_v<std::remove_cv_t<T>>) { opt::option<R> o; o.emplace(t); return o; } else return opt::option<R>(t); }
#ifdef VP_DEEP
template<class T> constexpr unsigned STEPS = 2;
#elif defined(NDEBUG) || __cplusplus > 201703L
template<class T> constexpr unsigned STEPS = 1;
#else
template<class T> constexpr unsigned STEPS = 1;
template<> constexpr unsigned STEPS<int> = 2;
#endif
template<class T> struct Pool {         // three objects that no operation may modify
    T x[3]; u64 key[3];
    explicit Pool(u64 a, u64 b, u64 c) : x{mk<T>(a), mk<T>(b), mk<T>(c)}, key{a, b, c} {}
    void same() const { VP_CHECK(keyof<T>(x[0]) == key[0]); VP_CHECK(keyof<T>(x[1]) == key[1]); VP_CHECK(keyof<T>(x[2]) == key[2]); }
};
template<class R, class T> void bound(const opt::option<R>& o, T* p) {
    VP_CHECK(o.has_value() == (p != nullptr)); VP_CHECK(static_cast<bool>(o) == (p != nullptr)); VP_CHECK(o.ptr_or_null() == p);
    VP_CHECK((o == opt::none) == (p == nullptr));
    if (p) VP_CHECK(std::addressof(o.get()) == p);
}
template<class R, class T> void read_ref(opt::option<R>& o, T* p) {        // R is T& or const T&
    using X = std::remove_reference_t<R>;
    const opt::option<R>& c = o;
    bound<R>(o, p);
    VP_CHECK((o.begin() == o.end()) == (p == nullptr)); VP_CHECK((c.begin() == c.end()) == (p == nullptr));
    unsigned n = 0; for (X& e : o) { ++n; VP_CHECK(std::addressof(e) == p); } for (X& e : c) { ++n; VP_CHECK(std::addressof(e) == p); } VP_CHECK(n == (p ? 2u : 0u));
    if (!p) { bool t = false; try { (void)o.value(); } catch (const opt::bad_access&) { t = true; } VP_CHECK(t); t = false; try { (void)move(c).value_or_throw(); } catch (const opt::bad_access&) { t = true; } VP_CHECK(t); }
    else {
        static_assert(std::is_same_v<decltype(c.get()), X&>);       // constness of the option does not reach the object
        X &r1 = o.get(), &r2 = c.get(), &r3 = *o, &r4 = *c, &r5 = o.value(), &r6 = c.value(), &r7 = o.value_or_throw(), &r8 = c.value_or_throw(), &r9 = o.get_unchecked(), &r10 = c.get_unchecked();
        X &m1 = move(o).get(), &m2 = move(c).get(), &m3 = *move(o), &m4 = *move(c), &m5 = move(o).value(), &m6 = move(c).value(), &m7 = move(o).value_or_throw(), &m8 = move(c).value_or_throw(), &m9 = move(o).get_unchecked(), &m10 = move(c).get_unchecked();
        for (X* q : {std::addressof(r1), std::addressof(r2), std::addressof(r3), std::addressof(r4), std::addressof(r5), std::addressof(r6), std::addressof(r7), std::addressof(r8), std::addressof(r9), std::addressof(r10), std::addressof(m1), std::addressof(m2), std::addressof(m3), std::addressof(m4), std::addressof(m5), std::addressof(m6), std::addressof(m7), std::addressof(m8), std::addressof(m9), std::addressof(m10)}) VP_CHECK(q == p);
        VP_CHECK(o.operator->() == p && c.operator->() == p);
        bound<R>(o, p);
    }
}
// operations that look at the referred object but do not change the binding
template<class T> void use(opt::option<T&>& o, Pool<T>& P, T* p) {
    unsigned calls = 0; const unsigned want = p ? 1u : 0u;
    auto seen = [&](const T& v) { ++calls; VP_CHECK(std::addressof(v) == p); };
    const opt::option<T&>& c = o;
    switch (vp_choice(12, "use")) {
    case 0: { auto r = c.map([&](T& v) -> T& { seen(v); return v; }); bound<T&>(r, p); break; }
    case 1: { auto r = move(o).map([&](T& v) -> T& { seen(v); return v; }); bound<T&>(r, p); break; }
    case 2: { auto r = c.and_then([&](T& v) { seen(v); return ref_to<T&>(v); }); bound<T&>(r, p); break; }
    case 3: { if constexpr (opt::is_option_v<T>) { calls = want; break; } else { auto r = o.filter([&](T& v) { seen(v); return true; }); bound<T&>(r, p); auto s = c.filter([](T&) { return false; }); bound<T&>(s, static_cast<T*>(nullptr)); break; } }
    case 4: { auto r = c.or_else([&] { ++calls; return ref_to<T&>(P.x[0]); }); bound<T&>(r, p ? p : std::addressof(P.x[0])); calls = 1 - calls; break; }
    case 5: { auto r = move(o).or_else([&] { ++calls; return ref_to<T&>(P.x[1]); }); bound<T&>(r, p ? p : std::addressof(P.x[1])); calls = 1 - calls; break; }
    case 6: { VP_CHECK(c.has_value_and([&](T& v) { seen(v); return true; }) == (p != nullptr)); break; }
    case 7: { o.inspect([&](T& v) { seen(v); }); break; }
    case 8: { u32 r = c.map_or(7u, [&](T& v) { seen(v); return 9u; }); VP_CHECK(r == (p ? 9u : 7u)); break; }
    case 9: { T* r = c.map_or_else([&] { return std::addressof(P.x[2]); }, [&](T& v) { seen(v); return std::addressof(v); }); VP_CHECK(r == (p ? p : std::addressof(P.x[2]))); break; }
    case 10: { auto z = opt::zip_with([&](T& v) -> u32 { seen(v); return 3; }, c); VP_CHECK(z.has_value() == (p != nullptr)); break; }
    default: { auto z = opt::zip(c, o); VP_CHECK(z.has_value() == (p != nullptr)); if (p) { static_assert(std::is_same_v<decltype(z), opt::option<std::tuple<T&, T&>>>); VP_CHECK(std::addressof(std::get<0>(*z)) == p && std::addressof(std::get<1>(*z)) == p); } calls = want; break; }
    }
    VP_CHECK(calls == want);
}
template<class T> void step_ref(unsigned op, opt::option<T&>& o, Pool<T>& P, T*& p) {
    using O = opt::option<T&>;
    T* const p0 = p;
    T& t = P.x[vp_choice(2, "t")];
    switch (op) {
    case 0: o = t; p = std::addressof(t); break;
    case 1: o = opt::none; p = nullptr; break;
    case 2: o.reset(); p = nullptr; break;
    case 3: { T& r = o.emplace(t); VP_CHECK(std::addressof(r) == std::addressof(t)); p = std::addressof(t); break; }
    case 4: { T& r = o.try_emplace(t); if (!p0) p = std::addressof(t); VP_CHECK(std::addressof(r) == p); break; }
    case 5: { O q = ref_to<T&>(t); o = q; p = std::addressof(t); bound<T&>(q, std::addressof(t)); break; }
    case 6: { O q = ref_to<T&>(t); o = move(q); p = std::addressof(t); bound<T&>(q, std::addressof(t)); break; }
    case 7: { O q; o = q; p = nullptr; break; }
    case 8: { O q = ref_to<T&>(t); o.swap(q); bound<T&>(q, p0); p = std::addressof(t); break; }
    case 9: { O q; opt::swap(o, q); bound<T&>(q, p0); p = nullptr; break; }
    case 10: { O q = o.take(); bound<T&>(q, p0); p = nullptr; break; }
    case 11: { bool yes = vp_fork_(vp_bool("yes")); O q = o.take_if([&](T& v) { VP_CHECK(std::addressof(v) == p0); return yes; }); bound<T&>(q, yes ? p0 : nullptr); if (yes) p = nullptr; break; }
    case 12: { O q(o); bound<T&>(q, p0); q = t; break; }
    case 13: { O q(move(o)); bound<T&>(q, p0); break; }
    case 14: { o |= t; if (!p0) p = std::addressof(t); break; }
    case 15: { O q = ref_to<T&>(t); o |= q; if (!p0) p = std::addressof(t); break; }
    case 16: { std::reference_wrapper<T> w(t); o = w; p = std::addressof(t); break; }
    case 17: { O& s = o; o = s; break; }
    case 18: { opt::option<const T&> c(o); bound<const T&>(c, static_cast<const T*>(p0)); c = t; bound<const T&>(c, static_cast<const T*>(std::addressof(t))); c = o; bound<const T&>(c, static_cast<const T*>(p0)); c = move(o); bound<const T&>(c, static_cast<const T*>(p0)); break; }
    default: { if constexpr (!opt::is_option_v<T>) o = opt::from_nullable(p0); opt::option<O> n(o); VP_CHECK(n.has_value()); bound<T&>(*n, p0); n = o; bound<T&>(*n, p0); *n = t; bound<T&>(*n, std::addressof(t)); n.reset(); VP_CHECK(!n.has_value()); break; }
    }
}
template<class T> void sequence() {
    {
        Pool<T> P(fresh<T>("x"), fresh<T>("x"), fresh<T>("x"));
        const unsigned s = vp_choice(3, "start");
        T* p = s == 2 ? nullptr : std::addressof(P.x[s * 2]);
        opt::option<T&> o; if (p) o = ref_to<T&>(*p);
        bound<T&>(o, p);
        for (unsigned i = 0; i < STEPS<T>; ++i) { step_ref<T>(vp_choice(20, "op"), o, P, p); bound<T&>(o, p); P.same(); }
        read_ref<T&>(o, p);
        P.same();
    }
    balanced();
}
template<class T> void uses() {
    {
        Pool<T> P(fresh<T>("x"), fresh<T>("x"), fresh<T>("x"));
        const unsigned s = vp_choice(4, "start");
        T* p = s == 3 ? nullptr : std::addressof(P.x[s]);
        opt::option<T&> o; if (p) o.emplace(*p);
        use<T>(o, P, p);
        P.same(); read_ref<T&>(o, p); P.same();
        opt::option<const T&> c(o); read_ref<const T&>(c, static_cast<const T*>(p));
        if (p) { u64 w = fresh<T>("w"); *o = mk<T>(w); VP_CHECK(keyof<T>(*p) == w); VP_CHECK(keyof<T>(*c) == w); P.key[s] = w; P.same(); bound<T&>(o, p); bound<const T&>(c, static_cast<const T*>(p)); }
    }
    balanced();
}
#define X(N, T) VP_HARNESS(C13, seq_##N) { sequence<T>(); }
#define U(N, T) VP_HARNESS(C13, use_##N) { uses<T>(); }
X(int, int) X(Trk, Trk) X(OInt, OInt) X(Amp, Amp)
U(int, int) U(bool, bool) U(Trk, Trk) U(TrkN, TrkN) U(TrkM, TrkM) U(string, std::string) U(OInt, OInt) U(OTrk, OTrk) U(Agg, Agg) U(ptr, int*) U(u8, u8) U(double, double) U(Amp, Amp) U(AmpN, AmpN)

// value_or copies the object only when asked for a value
VP_HARNESS(C13, value_or) {
    {
        Trk a(u32(fresh<Trk>("a"))), b(u32(fresh<Trk>("b"))); const u32 ka = a.k, kb = b.k;
        const bool h = vp_fork_(vp_bool("h")); opt::option<Trk&> o; if (h) o = a;
        const Log l0 = g_log;
        opt::option<Trk> v; if (h) v = *o; VP_CHECK(since(l0).cctor == (h ? 1 : 0)); expect<Trk>(v, h, ka);
        VP_CHECK(a.k == ka && b.k == kb);
    }
    balanced();
}
// rvalue references
VP_HARNESS(C13, rvalue) {
    {
        Trk x(u32(fresh<Trk>("x"))), y(u32(fresh<Trk>("y"))); const u32 kx = x.k, ky = y.k;
        using R = opt::option<Trk&&>;
        const bool h = vp_fork_(vp_bool("h"));
        R o; VP_CHECK(!o.has_value());
        if (h) o = move(x);
        bound<Trk&&>(o, h ? &x : nullptr);
        switch (vp_choice(9, "op")) {
        case 0: o = move(y); bound<Trk&&>(o, std::addressof(y)); break;
        case 1: { R p(move(y)); o.swap(p); bound<Trk&&>(o, std::addressof(y)); bound<Trk&&>(p, h ? &x : nullptr); break; }
        case 2: { R p(o); bound<Trk&&>(p, h ? &x : nullptr); R q; q = p; bound<Trk&&>(q, h ? &x : nullptr); break; }
        case 3: { R p = o.take(); bound<Trk&&>(p, h ? std::addressof(x) : nullptr); VP_CHECK(!o.has_value()); break; }
        case 4: { o.emplace(move(y)); bound<Trk&&>(o, std::addressof(y)); break; }
        case 5: { o.try_emplace(move(y)); bound<Trk&&>(o, h ? &x : std::addressof(y)); break; }
        case 6: { if (h) { Trk& l = *o; VP_CHECK(std::addressof(l) == std::addressof(x)); Trk&& r = *move(o); VP_CHECK(std::addressof(r) == std::addressof(x)); Trk&& g = move(o).get(); VP_CHECK(std::addressof(g) == std::addressof(x)); } break; }
        case 7: { o.reset(); VP_CHECK(!o.has_value()); o = opt::none; VP_CHECK(!o.has_value()); break; }
        default: { unsigned n = 0; auto r = move(o).map([&](Trk&& t) { ++n; VP_CHECK(std::addressof(t) == std::addressof(x)); return t.k; }); VP_CHECK(n == (h ? 1u : 0u)); VP_CHECK(r.has_value() == h); break; }
        }
        VP_CHECK(x.k == kx && y.k == ky);       // nothing was moved from
        if (o.has_value()) { Trk taken = *move(o); VP_CHECK(taken.k == kx || taken.k == ky); VP_CHECK(x.k == MOVED || y.k == MOVED); }
    }
    balanced();
}
// polymorphic bases and const additions; conversions between reference options
struct Base { u32 b; virtual u32 id() const { return b; } }; struct Other { u32 o; }; struct Derived : Other, Base { u32 d; u32 id() const override { return d; } };
VP_HARNESS(C13, derived) {
    Derived d[2]; for (unsigned i = 0; i < 2; ++i) { d[i].b = vp_u32("b"); d[i].d = vp_u32("d"); d[i].o = vp_u32("o"); }
    const u32 b0 = d[0].b, d0 = d[0].d, o0 = d[0].o, b1 = d[1].b, d1 = d[1].d, o1 = d[1].o;
    const bool h = vp_fork_(vp_bool("h")), g = vp_fork_(vp_bool("g"));
    opt::option<Derived&> s; if (h) s = d[0];
    opt::option<Base&> t; if (g) t = d[1];
    Base* ps = h ? &d[0] : nullptr; Base* pt = g ? &d[1] : nullptr;
    bound<Base&>(t, pt);
    switch (vp_choice(8, "op")) {
    case 0: { opt::option<Base&> q(s); bound<Base&>(q, ps); break; }
    case 1: { opt::option<Base&> q(move(s)); bound<Base&>(q, ps); break; }
    case 2: { const opt::option<Derived&> cs = s; t = cs; bound<Base&>(t, ps); break; }
    case 3: t = s; bound<Base&>(t, ps); break;
    case 4: t = move(s); bound<Base&>(t, ps); break;
    case 5: t = d[0]; bound<Base&>(t, static_cast<Base*>(std::addressof(d[0]))); t.emplace(d[1]); bound<Base&>(t, static_cast<Base*>(std::addressof(d[1]))); break;
    case 6: { opt::option<const Base&> q(t); bound<const Base&>(q, static_cast<const Base*>(pt)); q = t; bound<const Base&>(q, static_cast<const Base*>(pt)); q = s; bound<const Base&>(q, static_cast<const Base*>(ps)); opt::option<Other&> w(s); bound<Other&>(w, h ? static_cast<Other*>(std::addressof(d[0])) : nullptr); break; }
    default: { opt::option<Derived> v; if (h) v = d[0]; opt::option<Base&> q; if (v.has_value()) q = *v; VP_CHECK(q.has_value() == h); if (h) VP_CHECK(q->id() == d0); break; }
    }
    if (t.has_value()) VP_CHECK(t->id() == (std::addressof(t.get()) == static_cast<Base*>(std::addressof(d[0])) ? d0 : d1));
    VP_CHECK(d[0].b == b0 && d[0].d == d0 && d[0].o == o0 && d[1].b == b1 && d[1].d == d1 && d[1].o == o1);
    bound<Derived&>(s, h ? &d[0] : nullptr);
}
// between options of references and options of values
VP_HARNESS(C13, to_value) {
    int x = int(vp_u32("x")); const int y = x; const bool h = vp_fork_(vp_bool("h"));
    opt::option<int&> r; if (h) r = x;
    opt::option<int> v; v = 5; 
    opt::option<int> w(r); VP_CHECK(w.has_value() == h); if (h) VP_CHECK(*w == y && &*w != std::addressof(x));
    v = r; VP_CHECK(v.has_value() == h); if (h) VP_CHECK(*v == y);
    opt::option<long> l; l = r; VP_CHECK(l.has_value() == h); if (h) VP_CHECK(*l == y);
    opt::option<int> m(move(r)); VP_CHECK(m.has_value() == h); if (h) VP_CHECK(*m == y);
    if (h) { *v = 1; *w = 2; *m = 3; } VP_CHECK(x == y);
    bound<int&>(r, h ? &x : nullptr);
}
VP_HARNESS(C13, wrapper) {
    int x[2] = {int(vp_u32("x")), int(vp_u32("y"))}; const int a = x[0], b = x[1];
    std::reference_wrapper<int> w(x[0]); std::reference_wrapper<int> cw(x[1]);
    opt::option<int&> r(w); bound<int&>(r, std::addressof(x[0])); r = cw; bound<int&>(r, std::addressof(x[1])); r.emplace(w); bound<int&>(r, std::addressof(x[0]));
    opt::option<const int&> c(w); bound<const int&>(c, static_cast<const int*>(std::addressof(x[0]))); c = cw; bound<const int&>(c, static_cast<const int*>(std::addressof(x[1])));
    opt::option<std::reference_wrapper<int>> ow = w; opt::option<int&> q; if (ow.has_value()) q = *ow; bound<int&>(q, std::addressof(x[0]));
    opt::option<int&> q2(ow); bound<int&>(q2, std::addressof(x[0])); q2 = opt::none; q2 = ow; bound<int&>(q2, std::addressof(x[0])); opt::option<const int&> q3(move(ow)); bound<const int&>(q3, static_cast<const int*>(std::addressof(x[0]))); ow = opt::none; q2 = ow; bound<int&>(q2, static_cast<int*>(nullptr));
    w = x[1]; bound<int&>(q, std::addressof(x[0]));
    VP_CHECK(x[0] == a && x[1] == b);
}
VP_HARNESS(C13, functions) {        // references to functions and arrays
    static int arr[3]; 
    opt::option<int(&)[3]> o(arr); VP_CHECK(o.has_value() && std::addressof(o.get()) == std::addressof(arr)); o.reset(); VP_CHECK(!o.has_value()); o = arr; VP_CHECK(std::addressof(*o) == std::addressof(arr));
}
