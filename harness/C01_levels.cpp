// configs: A D C Q
// flags: -DVP_C01
// bound: one element per type listed in the file; every level 0..max_level-1 and every prior content of the storage is covered symbolically
#include "types.hpp"

template<class T> void round_trip() {
    using TR = opt::option_traits<T>;
    static_assert(std::is_same_v<std::remove_cv_t<decltype(TR::max_level)>, std::uintmax_t>);
    alignas(T) unsigned char buf[sizeof(T)];
    vp_bytes(buf, sizeof(T), "garbage");
    if constexpr (TR::max_level > 0) {
        T* p = reinterpret_cast<T*>(buf);
        u64 l = vp_u64("level");
        vp_assume(l < TR::max_level);
        TR::set_level(p, l);
        VP_CHECK(TR::get_level(p) == l);
        // overwriting a level by another one
        u64 l2 = vp_u64("level2");
        vp_assume(l2 < TR::max_level);
        TR::set_level(p, l2);
        VP_CHECK(TR::get_level(p) == l2);
    }
    // the empty option is empty whatever was in the storage before, and costs nothing when T has spare levels
    using O = opt::option<T>;
    alignas(O) unsigned char ob[sizeof(O)];
    vp_bytes(ob, sizeof(O), "garbage2");
    O* o = ::new (static_cast<void*>(ob)) O;
    VP_CHECK(!o->has_value());
    VP_CHECK(!static_cast<bool>(*o));
    o->reset();
    VP_CHECK(!o->has_value());
    *o = opt::none;
    VP_CHECK(!o->has_value());
    if (TR::max_level > 0) VP_CHECK(sizeof(O) == sizeof(T));
    VP_CHECK(sizeof(O) <= sizeof(T) + alignof(T));
    o->~O();
}
template<class T> void niche() {
#if !defined(OPTION_USE_BUILTIN_TRAITS) || OPTION_USE_BUILTIN_TRAITS
    VP_CHECK(opt::option_traits<T>::max_level > 0);
#endif
    round_trip<T>();
}
template<class T> void no_niche() {
    VP_CHECK(opt::option_traits<T>::max_level == 0);
    round_trip<T>();
}
using namespace std;
VP_HARNESS(C01, bool_) { niche<bool>(); }
VP_HARNESS(C01, int_ptr) { niche<int*>(); }
VP_HARNESS(C01, void_ptr) { niche<const void*>(); }
VP_HARNESS(C01, ptr_ptr) { niche<char**>(); }
VP_HARNESS(C01, fn_ptr) { niche<void (*)(int)>(); }
VP_HARNESS(C01, refwrap) { niche<reference_wrapper<int>>(); }
VP_HARNESS(C01, refwrap_const) { niche<reference_wrapper<const string>>(); }
VP_HARNESS(C01, float_) { niche<float>(); }
VP_HARNESS(C01, double_) { niche<double>(); }
VP_HARNESS(C01, pair_first) { niche<pair<bool, int>>(); }
VP_HARNESS(C01, pair_second) { niche<pair<int, float>>(); }
VP_HARNESS(C01, pair_max_first) { niche<pair<int*, bool>>(); }
VP_HARNESS(C01, pair_max_second) { niche<pair<bool, int*>>(); }
VP_HARNESS(C01, pair_equal) { niche<pair<float, double>>(); }
VP_HARNESS(C01, tuple1) { niche<tuple<bool>>(); }
VP_HARNESS(C01, tuple_mid) { niche<tuple<int, bool, short>>(); }
VP_HARNESS(C01, tuple_last) { niche<tuple<int, bool, int*>>(); }
VP_HARNESS(C01, tuple_first) { niche<tuple<int*, bool, float>>(); }
VP_HARNESS(C01, array_bool) { niche<array<bool, 3>>(); }
VP_HARNESS(C01, array_float) { niche<array<float, 2>>(); }
VP_HARNESS(C01, sview) { niche<string_view>(); }
VP_HARNESS(C01, wsview) { niche<wstring_view>(); }
VP_HARNESS(C01, string_) { niche<string>(); }
VP_HARNESS(C01, u16string_) { niche<u16string>(); }
VP_HARNESS(C01, vector_int) { niche<vector<int>>(); }
VP_HARNESS(C01, vector_string) { niche<vector<string>>(); }
VP_HARNESS(C01, vector_bool) { niche<vector<bool>>(); }
VP_HARNESS(C01, unique_ptr_) { niche<unique_ptr<int>>(); }
VP_HARNESS(C01, mem_data) { niche<int Obj::*>(); }
VP_HARNESS(C01, mem_fn) { niche<int (Obj::*)(int)>(); }
VP_HARNESS(C01, complex_f) { niche<complex<float>>(); }
VP_HARNESS(C01, complex_d) { niche<complex<double>>(); }
VP_HARNESS(C01, enum8) { niche<Color>(); }
VP_HARNESS(C01, enum32) { niche<Wide>(); }
enum class S1 : int { a, b, SENTINEL = -5 };
enum class S2 : u8 { a, b, SENTINEL_START = 200 };
enum class S3 : u16 { a, b, SENTINEL_START = 1000, SENTINEL_END = 1500 };
enum class S4 : int { a, b, SENTINEL_START = 70, SENTINEL_END = 90 };
enum class S5 : int { a, b, SENTINEL_START = 0x7fffff00 };
enum class S6 : u64 { a, b, SENTINEL_START = 0xffffffffffffff00u };
enum class S7 : signed char { a, SENTINEL_START = 100, SENTINEL_END = 120 };
VP_HARNESS(C01, enum_s1) { niche<S1>(); }
VP_HARNESS(C01, enum_s2) { niche<S2>(); VP_CHECK(opt::option_traits<S2>::max_level == 0 || opt::option_traits<S2>::max_level == 56); }
VP_HARNESS(C01, enum_s3) { niche<S3>(); VP_CHECK(opt::option_traits<S3>::max_level == 0 || opt::option_traits<S3>::max_level == 501); }
VP_HARNESS(C01, enum_s4) { niche<S4>(); VP_CHECK(opt::option_traits<S4>::max_level == 0 || opt::option_traits<S4>::max_level == 21); }
VP_HARNESS(C01, enum_s5) { niche<S5>(); VP_CHECK(opt::option_traits<S5>::max_level == 0 || opt::option_traits<S5>::max_level == 256); }
VP_HARNESS(C01, enum_s6) { niche<S6>(); VP_CHECK(opt::option_traits<S6>::max_level == 0 || opt::option_traits<S6>::max_level == 256); }
VP_HARNESS(C01, enum_s7) { niche<S7>(); VP_CHECK(opt::option_traits<S7>::max_level == 0 || opt::option_traits<S7>::max_level == 21); }
#if defined(OPTION_HAS_PFR) || 1
VP_HARNESS(C01, agg) { round_trip<Agg>(); }
struct Agg2 { u8 x; float f; int* p; bool b; };
VP_HARNESS(C01, agg2) { round_trip<Agg2>(); }
#endif
struct PadW { u32 a; u32 PADDING{}; };
VP_HARNESS(C01, padding8) { niche<Pad>(); }
VP_HARNESS(C01, padding32) { niche<PadW>(); }
VP_HARNESS(C01, poly) { niche<Poly>(); }
VP_HARNESS(C01, polyd) { niche<PolyD>(); }
VP_HARNESS(C01, opt_int) { niche<opt::option<int>>(); }
VP_HARNESS(C01, opt_bool) { niche<opt::option<bool>>(); }
VP_HARNESS(C01, opt_string) { niche<opt::option<string>>(); }
VP_HARNESS(C01, opt_trk) { niche<opt::option<Trk>>(); }
VP_HARNESS(C01, opt_trkn) { niche<opt::option<TrkN>>(); }
VP_HARNESS(C01, opt_ref) { niche<opt::option<int&>>(); }
VP_HARNESS(C01, opt_rref) { niche<opt::option<int&&>>(); }
VP_HARNESS(C01, opt_opt_int) { niche<opt::option<opt::option<int>>>(); }
VP_HARNESS(C01, opt_opt_ref) { niche<opt::option<opt::option<int&>>>(); }
VP_HARNESS(C01, pair_opt) { niche<pair<int, opt::option<int>>>(); }
VP_HARNESS(C01, no_int) { no_niche<int>(); }
VP_HARNESS(C01, no_trk) { no_niche<Trk>(); }
VP_HARNESS(C01, no_pair) { no_niche<pair<int, short>>(); }
VP_HARNESS(C01, no_tuple0) { no_niche<tuple<>>(); }
VP_HARNESS(C01, no_agg) { round_trip<AggNo>(); }
VP_HARNESS(C01, no_ldouble) { round_trip<long double>(); }
