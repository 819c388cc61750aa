// configs: A B D C Q
// bound: 16 symbolic guard bytes on each side, one symbolic operation (two in the thorough tier) from a symbolic start state on each listed type
#include "ops.hpp"
#ifdef VP_DEEP
constexpr unsigned STEPS = 2;
#else
constexpr unsigned STEPS = 1;
#endif
template<class T> struct Slot { unsigned char before[16]; alignas(opt::option<T>) unsigned char mem[sizeof(opt::option<T>)]; unsigned char after[16]; };
template<class T> void layout() {
    using O = opt::option<T>; using TR = opt::option_traits<T>;
    if constexpr (TR::max_level > 0) { VP_CHECK(sizeof(O) == sizeof(T)); }
    else { VP_CHECK(sizeof(O) > sizeof(T)); VP_CHECK(sizeof(O) <= sizeof(T) + alignof(T)); }
    VP_CHECK(alignof(O) == alignof(T));
    if constexpr (TR::max_level > 1) VP_CHECK(sizeof(opt::option<O>) == sizeof(T));
    if constexpr (TR::max_level > 2) VP_CHECK(sizeof(opt::option<opt::option<O>>) == sizeof(T));
    if constexpr (TR::max_level == 0) { VP_CHECK(sizeof(opt::option<O>) == sizeof(O)); VP_CHECK(sizeof(opt::option<opt::option<O>>) == sizeof(O)); }
}
template<class T> void guards() {
    using O = opt::option<T>;
    layout<T>();
    {
        Slot<T> s;
        vp_bytes(s.before, 16, "g1"); vp_bytes(s.mem, sizeof s.mem, "garbage"); vp_bytes(s.after, 16, "g2");
        unsigned char b[16], a[16];
        std::memcpy(b, s.before, 16); std::memcpy(a, s.after, 16);
        bool has = vp_fork_(vp_bool("has")); u64 k = 0;
        O* o;
        if (has) { k = fresh<T>("k"); o = ::new (static_cast<void*>(s.mem)) O(std::in_place, mk<T>(k)); }
        else o = ::new (static_cast<void*>(s.mem)) O();
        expect<T>(*o, has, k);
        for (unsigned i = 0; i < STEPS; ++i) step<T>(*o, has, k);
        read_all<T>(*o, has, k);
        o->~O();
        for (unsigned i = 0; i < 16; ++i) { VP_CHECK(s.before[i] == b[i]); VP_CHECK(s.after[i] == a[i]); }
    }
    balanced();
}
#define X(N, T) VP_HARNESS(C04, guard_##N) { guards<T>(); }
VP_ALL_TYPES(X) VP_MOVE_TYPES(X) VP_OPT_TYPES(X) X(Sp0000, Sp0000) X(Sp1111, Sp1111) X(Sp0110, Sp0110)

// the documented zero-overhead types really have no overhead, also nested
template<class T> void zero() {
    VP_CHECK(sizeof(opt::option<T>) == sizeof(T)); VP_CHECK(alignof(opt::option<T>) == alignof(T));
    VP_CHECK(sizeof(opt::option<opt::option<T>>) == sizeof(T));
    VP_CHECK(sizeof(opt::option<opt::option<opt::option<T>>>) == sizeof(T));
    // qualifiers of the contained type make no difference
    VP_CHECK(sizeof(opt::option<const T>) == sizeof(T)); VP_CHECK(alignof(opt::option<const T>) == alignof(T));
    VP_CHECK(sizeof(opt::option<opt::option<const T>>) == sizeof(T)); VP_CHECK(sizeof(opt::option<opt::option<opt::option<const T>>>) == sizeof(T));
    opt::option<opt::option<T>> o; VP_CHECK(!o.has_value()); o.emplace(); VP_CHECK(o.has_value() && !o->has_value());
}
VP_HARNESS(C04, zero_std) {
    zero<bool>(); zero<int*>(); zero<float>(); zero<double>(); zero<RefW>(); zero<std::string>(); zero<std::string_view>(); zero<Vec>(); zero<UPtr>();
    zero<void (*)()>(); zero<int Obj::*>(); zero<MemF>(); zero<std::complex<float>>(); zero<Poly>(); zero<PolyD>(); zero<Color>(); zero<Wide>();
    zero<std::array<bool, 2>>(); zero<std::tuple<int, bool>>(); zero<std::pair<int, float>>(); zero<std::pair<bool, int>>(); zero<Pad>(); zero<ArrB>();
    zero<opt::option<int>>(); zero<opt::option<int&>>(); zero<opt::option<Trk>>(); zero<std::wstring>(); zero<std::wstring_view>(); zero<std::vector<std::string>>();
}
// as many nested options as documented cost nothing (docs/builtin_traits.md)
template<class T> void levels(u64 documented) { VP_CHECK(opt::option_traits<T>::max_level >= documented); VP_CHECK(opt::option_traits<opt::option<T>>::max_level + 1 >= documented); }
VP_HARNESS(C04, documented_levels) {
    levels<bool>(254); levels<RefW>(256); levels<int*>(512); levels<void (*)()>(512); levels<float>(256); levels<double>(256); levels<Poly>(255); levels<PolyD>(255);
    levels<std::string_view>(255); levels<UPtr>(255); levels<std::string>(255); levels<std::wstring>(255); levels<Vec>(255); levels<std::vector<std::string>>(255);
    levels<int Obj::*>(255); levels<MemF>(255);
    VP_CHECK(opt::option_traits<opt::option<int&>>::max_level >= 255); VP_CHECK(opt::option_traits<opt::option<opt::option<int&>>>::max_level >= 254);
    // composites take the levels of their best member
    levels<std::pair<int, float>>(256); levels<std::pair<bool, int*>>(512); levels<std::pair<int*, bool>>(512); levels<std::tuple<bool, int*, float>>(512); levels<std::array<bool, 2>>(254); levels<std::complex<float>>(256);
    levels<opt::option<int>>(253); levels<opt::option<bool>>(252);
}
VP_HARNESS(C04, refs) {
    VP_CHECK(sizeof(opt::option<int&>) == sizeof(int*)); VP_CHECK(sizeof(opt::option<const Trk&>) == sizeof(int*)); VP_CHECK(sizeof(opt::option<int&&>) == sizeof(int*));
    VP_CHECK(sizeof(opt::option<opt::option<int&>>) == sizeof(int*));
}
VP_HARNESS(C04, deep) { VP_CHECK(sizeof(opt::option<opt::option<opt::option<opt::option<opt::option<bool>>>>>) == 1); VP_CHECK(sizeof(opt::option<opt::option<opt::option<opt::option<int>>>>) == 8); }
// arrays of options: an operation on one element leaves its neighbours alone
template<class T> void neighbours() {
    {
        using O = opt::option<T>;
        u64 a = fresh<O>("a"), c = fresh<O>("c");
        O arr[3] = {mk<O>(a), O(), mk<O>(c)};
        bool has = false; u64 k = 0;
        step<T>(arr[1], has, k);
        VP_CHECK(keyof<O>(arr[0]) == a); VP_CHECK(keyof<O>(arr[2]) == c);
        expect<T>(arr[1], has, k);
    }
    balanced();
}
#define Y(N, T) VP_HARNESS(C04, arr_##N) { neighbours<T>(); }
VP_ALL_TYPES(Y) VP_OPT_TYPES(Y)
// members placed in the tail padding of an engaged / empty option member
struct Tail : OInt { u8 extra; u8 extra2; };
struct Mixed { u8 a; opt::option<u16> o; u8 b; opt::option<bool> p; u8 c; };
VP_HARNESS(C04, members) {
    Tail t; t.extra = vp_u8("e"); t.extra2 = vp_u8("f"); u8 e = t.extra, f = t.extra2;
    bool has = false; u64 k = 0;
    OInt& base = t;
    step<int>(base, has, k);
    VP_CHECK(t.extra == e && t.extra2 == f);
    Mixed m; m.a = e; m.b = f; m.c = e;
    u16 v = vp_u16("v"); bool bv = vp_bool("bv");
    m.o = v; m.p = bv; VP_CHECK(m.a == e && m.b == f && m.c == e && *m.o == v && *m.p == bv);
    m.o.reset(); VP_CHECK(m.a == e && m.b == f && m.c == e && *m.p == bv);
    m.p.reset(); m.o.emplace(v); VP_CHECK(m.a == e && m.b == f && m.c == e && *m.o == v && !m.p.has_value());
}
