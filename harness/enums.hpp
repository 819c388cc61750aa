// The description of an enumeration and the properties checked on it (C18).
#pragma once
#include "ops.hpp"
#include <limits>
template<class T, unsigned D> struct nest { using type = opt::option<typename nest<T, D - 1>::type>; };
template<class T> struct nest<T, 0> { using type = T; };
template<class T, unsigned D> using nest_t = typename nest<T, D>::type;
#if !defined(OPTION_USE_BUILTIN_TRAITS) || OPTION_USE_BUILTIN_TRAITS
constexpr bool BUILTIN = true;
#else
constexpr bool BUILTIN = false;
#endif
// Dom<E>::valid(v): v (the underlying value, zero-extended) is a value a user may store: declared, a combination of flags, or outside the declared sentinels
// Dom<E>::levels: documented number of levels, or -1 when only the documented rule for automatic detection applies
template<class E> struct Dom;
template<class E> using UT = std::conditional_t<std::is_same_v<std::underlying_type_t<E>, bool>, u8, std::make_unsigned_t<std::conditional_t<std::is_same_v<std::underlying_type_t<E>, bool>, u8, std::underlying_type_t<E>>>>;
template<class E> u64 raw(const E& e) { UT<E> u; std::memcpy(&u, &e, sizeof u); return u; }
template<class E> E from(u64 k) { UT<E> u = UT<E>(k); E e; std::memcpy(&e, &u, sizeof e); return e; }
template<class E> u64 bits(E e) { return raw(e); }
template<class E, class... V> bool one_of(u64 k, V... v) { bool r = false; ((r |= k == bits<E>(v)), ...); return r; }
template<class E, class... V> bool flags_of(u64 k, V... v) { return (k & ~(bits<E>(v) | ... | 0)) == 0; }
template<class E> bool in_range(u64 k, E a, E b) {   // a <= k <= b in the underlying type
    using U = std::underlying_type_t<E>; U v = U(from<E>(k)); return (v >= U(a)) & (v <= U(b)); }
#define VP_ENUM(E, LEVELS, VALID) template<> struct Dom<E> { static constexpr std::int64_t levels = LEVELS; static bool valid(u64 k) { (void)k; return VALID; } }; \
    VP_GEN(E, UT<E> v; vp_bytes(&v, sizeof v, n); u64 k = v; vp_assume(Dom<E>::valid(k)); return k;, return from<E>(k);, return raw<E>(v);)
// every valid value is none of the levels, every level is none of the valid values, levels are distinct
template<class E> void niche() {
    using TR = opt::option_traits<E>;
    constexpr u64 n = TR::max_level;
    if (BUILTIN && Dom<E>::levels >= 0) VP_CHECK(n == u64(Dom<E>::levels));
    u64 k = fresh<E>("k");
    opt::option<E> o(mk<E>(k));
    VP_CHECK(o.has_value() && raw(o.get()) == k);
    if constexpr (n > 0) {
        VP_CHECK(sizeof(opt::option<E>) == sizeof(E));
        const E v = mk<E>(k);
        VP_CHECK(TR::get_level(&v) >= n);
        u64 l = vp_u64("level"), l2 = vp_u64("level2");
        vp_assume((l < n) & (l2 < n));
        E e = v, f = v;
        TR::set_level(&e, l);
        VP_CHECK(TR::get_level(&e) == l);
        VP_CHECK(!Dom<E>::valid(raw(e)));
        TR::set_level(&f, l2);
        VP_CHECK((raw(e) == raw(f)) == (l == l2));
        VP_CHECK(raw(e) != k);
        e = v;
        VP_CHECK(TR::get_level(&e) >= n && raw(e) == k);
        // writes through the reference keep the option engaged
        u64 k2 = fresh<E>("k2");
        o.get() = mk<E>(k2);
        VP_CHECK(o.has_value() && raw(*o) == k2);
        // storing a level by hand is that level
        std::memcpy(static_cast<void*>(&o.get()), &f, sizeof f);
        VP_CHECK(o.has_value() == (l2 != 0));
    } else VP_CHECK(sizeof(opt::option<E>) == 2 * sizeof(E));
    o.reset();
    VP_CHECK(!o.has_value());
}
// a declared range of sentinels is used from its start
template<class E> void range(u64 start) {
    if constexpr (BUILTIN) {
        E e; u64 l = vp_u64("level"); vp_assume(l < opt::option_traits<E>::max_level);
        opt::option_traits<E>::set_level(&e, l);
        VP_CHECK(raw(e) == u64(UT<E>(start + l)));
        using U = std::underlying_type_t<E>;
        VP_CHECK(U(e) >= U(from<E>(start)));
    } else VP_CHECK(opt::option_traits<E>::max_level == 0);
}
template<class E> void values() {
    bool has = vp_fork_(vp_bool("has"));
    u64 k = fresh<E>("k"), other = fresh<E>("other");
    opt::option<E> o = has ? build<E>(vp_choice(n_routes<E>, "route"), k, other) : build_empty<E>(vp_choice(n_empty_routes, "route"), other);
    read_all<E>(o, has, k);
}
template<class E> void history() {
    bool has; u64 k;
    opt::option<E> o = sym_option<E>("o", has, k);
#ifdef VP_DEEP
    step<E>(o, has, k);
#endif
    step<E>(o, has, k);
}
template<class E> void deep() {
    using O = nest_t<E, 4>;
    vp_assume(true);
    u64 a = fresh<O>("a"), b = fresh<O>("b");
    O o = mk<O>(a); VP_CHECK(keyof<O>(o) == a);
    o = mk<O>(b); VP_CHECK(keyof<O>(o) == b);
    O p(o); VP_CHECK(keyof<O>(p) == b);
    if (b != 0) { o->reset(); VP_CHECK(keyof<O>(o) == 1); }
    VP_CHECK(keyof<O>(p) == b);
}
template<class E> void all() {
    switch (vp_choice(3, "aspect")) { case 0: values<E>(); break; case 1: deep<E>(); break; default: niche<E>(); }
}
