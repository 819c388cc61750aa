// configs: A B D N
// configs-thorough: C
// bound: every declared enumerator, every combination of flag bits and every underlying value outside a declared sentinel range is symbolic; every advertised level is symbolic; nesting to depth 4; underlying types of 8 to 64 bits, signed and unsigned, bool and unfixed
#include "enums.hpp"
// automatic detection
enum class A8 : u8 { a, b, c };                                                   VP_ENUM(A8, -1, one_of<A8>(k, A8::a, A8::b, A8::c))
enum class A8top : u8 { a, b = 255 };                                             VP_ENUM(A8top, 0, one_of<A8top>(k, A8top::a, A8top::b))
enum class A8half : u8 { a = 127 };                                               VP_ENUM(A8half, -1, one_of<A8half>(k, A8half::a))
enum class A8f : u8 { f1 = 1, f2 = 2, f4 = 4, f8 = 8, f16 = 16 };                 VP_ENUM(A8f, -1, (flags_of<A8f>(k, A8f::f1, A8f::f2, A8f::f4, A8f::f8, A8f::f16)))
enum class A8f7 : u8 { f1 = 1, f64 = 64 };                                        VP_ENUM(A8f7, -1, (flags_of<A8f7>(k, A8f7::f1, A8f7::f64)))
enum class A8f8 : u8 { f1 = 1, f128 = 128 };                                      VP_ENUM(A8f8, 0, (flags_of<A8f8>(k, A8f8::f1, A8f8::f128)))
enum class A8z : u8 { zero };                                                     VP_ENUM(A8z, -1, one_of<A8z>(k, A8z::zero))
enum class A8e : u8 {};                                                           VP_ENUM(A8e, 0, true)
enum class A8p : u8 { p = 33 };                                                   VP_ENUM(A8p, -1, one_of<A8p>(k, A8p::p))
enum class A16 : u16 { a, b, c = 500 };                                           VP_ENUM(A16, -1, one_of<A16>(k, A16::a, A16::b, A16::c))
enum class A16m : u16 { a = 1023 };                                               VP_ENUM(A16m, 0, one_of<A16m>(k, A16m::a))
enum class A16n : u16 { a = 511, top = 65535 };                                   VP_ENUM(A16n, -1, one_of<A16n>(k, A16n::a, A16n::top))
enum class A16f : u16 { f1 = 1, f2 = 2, f256 = 256 };                             VP_ENUM(A16f, -1, (flags_of<A16f>(k, A16f::f1, A16f::f2, A16f::f256)))
enum class A32 : u32 { a = 3, b = 17, c = 40 };                                   VP_ENUM(A32, -1, one_of<A32>(k, A32::a, A32::b, A32::c))
enum class A32far : u32 { a, b = 100000, c = 0xffffffffu };                       VP_ENUM(A32far, -1, one_of<A32far>(k, A32far::a, A32far::b, A32far::c))
enum class A32f : u32 { f1 = 1, f2 = 2, f4 = 4, hi = 0x80000000u, mid = 0x10000 };VP_ENUM(A32f, -1, (flags_of<A32f>(k, A32f::f1, A32f::f2, A32f::f4, A32f::hi, A32f::mid)))
enum class A32none : u32 { only = 70000 };                                        VP_ENUM(A32none, 0, true)
enum class A64 : u64 { a, b = 200, c = ~0ull };                                   VP_ENUM(A64, -1, one_of<A64>(k, A64::a, A64::b, A64::c))
enum class A64f : u64 { f1 = 1, f8 = 8, hi = u64(1) << 63, mid = u64(1) << 40 };  VP_ENUM(A64f, -1, (flags_of<A64f>(k, A64f::f1, A64f::f8, A64f::hi, A64f::mid)))
enum Old : u8 { old_a, old_b = 9 };                                               VP_ENUM(Old, -1, (one_of<Old>(k, old_a, old_b)))
enum class ABool : bool { no, yes };                                              VP_ENUM(ABool, 0, k < 2)
enum class ABool0 : bool { no };                                                  VP_ENUM(ABool0, 0, k < 2)
enum class AChar : char { a = 'a', b = 'b' };                                     VP_ENUM(AChar, 0, true)
enum class AC16 : char16_t { a = 'a', b = 'b' };                                  VP_ENUM(AC16, -1, one_of<AC16>(k, AC16::a, AC16::b))
// signed: every value is a value
enum class I8 : signed char { a = -128, b = 127 };                                VP_ENUM(I8, 0, true)
enum class I16 : short { a, b, c = -1 };                                          VP_ENUM(I16, 0, true)
enum class I32 : int { a, b = 5 };                                                VP_ENUM(I32, 0, true)
enum class I64 : long long { a, b = std::numeric_limits<long long>::min() };      VP_ENUM(I64, 0, true)
// SENTINEL
enum class S8 : u8 { a, b, SENTINEL };                                            VP_ENUM(S8, 1, k != bits(S8::SENTINEL))
enum class S8m : u8 { a, SENTINEL = 255 };                                        VP_ENUM(S8m, 1, k != bits(S8m::SENTINEL))
enum class S8z : u8 { SENTINEL = 0, a };                                          VP_ENUM(S8z, 1, k != bits(S8z::SENTINEL))
enum class SI8 : signed char { a, SENTINEL = -1 };                                VP_ENUM(SI8, 1, k != bits(SI8::SENTINEL))
enum class SI8m : signed char { a, SENTINEL = -128 };                             VP_ENUM(SI8m, 1, k != bits(SI8m::SENTINEL))
enum class SI16 : short { a = 5, SENTINEL = -32768 };                             VP_ENUM(SI16, 1, k != bits(SI16::SENTINEL))
enum class SI32 : int { a, b, SENTINEL = -5 };                                    VP_ENUM(SI32, 1, k != bits(SI32::SENTINEL))
enum class SI32m : int { a, SENTINEL = std::numeric_limits<int>::min() };         VP_ENUM(SI32m, 1, k != bits(SI32m::SENTINEL))
enum class SI32x : int { a, SENTINEL = std::numeric_limits<int>::max() };         VP_ENUM(SI32x, 1, k != bits(SI32x::SENTINEL))
enum class SI64 : long long { a, SENTINEL = std::numeric_limits<long long>::min() }; VP_ENUM(SI64, 1, k != bits(SI64::SENTINEL))
enum class SU64 : u64 { a, SENTINEL = ~0ull };                                    VP_ENUM(SU64, 1, k != bits(SU64::SENTINEL))
enum SOld : u16 { sold_a, SENTINEL_x, };                                          VP_ENUM(SOld, -1, (one_of<SOld>(k, sold_a, SENTINEL_x)))
// SENTINEL_START
enum class T8 : u8 { a, b, SENTINEL_START = 200 };                                VP_ENUM(T8, 56, k < 200)
enum class T8m : u8 { a, SENTINEL_START = 255 };                                  VP_ENUM(T8m, 1, k < 255)
enum class T8lo : u8 { a, SENTINEL_START = 1 };                                   VP_ENUM(T8lo, 255, k < 1)
enum class TI8 : signed char { a = -128, SENTINEL_START = 100 };                  VP_ENUM(TI8, 28, !in_range<TI8>(k, TI8::SENTINEL_START, TI8(127)))
enum class TI8n : signed char { a = -128, SENTINEL_START = -5 };                  VP_ENUM(TI8n, 133, !in_range<TI8n>(k, TI8n::SENTINEL_START, TI8n(127)))
enum class TI16 : short { a = -3, SENTINEL_START = 32767 };                       VP_ENUM(TI16, 1, !in_range<TI16>(k, TI16::SENTINEL_START, TI16(32767)))
enum class T16 : u16 { a, SENTINEL_START = 60000 };                               VP_ENUM(T16, 5536, k < 60000)
enum class TI32 : int { a = -2147483647 - 1, SENTINEL_START = 0x7fffff00 };       VP_ENUM(TI32, 256, !in_range<TI32>(k, TI32::SENTINEL_START, TI32(0x7fffffff)))
enum class TI32n : int { a = -2147483647 - 1, SENTINEL_START = -1 };              VP_ENUM(TI32n, 0x80000001ll, !in_range<TI32n>(k, TI32n::SENTINEL_START, TI32n(0x7fffffff)))
enum class T32 : u32 { a, SENTINEL_START = 0xfffffff0u };                         VP_ENUM(T32, 16, k < 0xfffffff0u)
enum class T64 : u64 { a, SENTINEL_START = 0xffffffffffffff00ull };               VP_ENUM(T64, 256, k < 0xffffffffffffff00ull)
enum class TI64 : long long { a = std::numeric_limits<long long>::min(), SENTINEL_START = std::numeric_limits<long long>::max() - 3 }; VP_ENUM(TI64, 4, !in_range<TI64>(k, TI64::SENTINEL_START, TI64(std::numeric_limits<long long>::max())))
// SENTINEL_START and SENTINEL_END
enum class R8 : u8 { a, b, SENTINEL_START = 100, SENTINEL_END = 102, z };         VP_ENUM(R8, 3, !in_range<R8>(k, R8::SENTINEL_START, R8::SENTINEL_END))
enum class R8one : u8 { a, SENTINEL_START = 0x80, SENTINEL_END = 0x80, z = 255 }; VP_ENUM(R8one, 1, !in_range<R8one>(k, R8one::SENTINEL_START, R8one::SENTINEL_END))
enum class RI8 : signed char { a = 127, SENTINEL_START = -128, SENTINEL_END = -100 }; VP_ENUM(RI8, 29, !in_range<RI8>(k, RI8::SENTINEL_START, RI8::SENTINEL_END))
enum class RI8c : signed char { a = 127, SENTINEL_START = -3, SENTINEL_END = 3 }; VP_ENUM(RI8c, 7, !in_range<RI8c>(k, RI8c::SENTINEL_START, RI8c::SENTINEL_END))
enum class RI16 : short { a, SENTINEL_START = -32768, SENTINEL_END = -1 };        VP_ENUM(RI16, 32768, !in_range<RI16>(k, RI16::SENTINEL_START, RI16::SENTINEL_END))
enum class R16 : u16 { a, b, SENTINEL_START = 1000, SENTINEL_END = 1500, z = 65535 }; VP_ENUM(R16, 501, !in_range<R16>(k, R16::SENTINEL_START, R16::SENTINEL_END))
enum class RI32 : int { a, b, SENTINEL_START = 70, SENTINEL_END = 90, z = 100 };  VP_ENUM(RI32, 21, !in_range<RI32>(k, RI32::SENTINEL_START, RI32::SENTINEL_END))
enum class RI32w : int { z = 5, SENTINEL_START = -2147483647 - 1, SENTINEL_END = 0 }; VP_ENUM(RI32w, 0x80000001ll, !in_range<RI32w>(k, RI32w::SENTINEL_START, RI32w::SENTINEL_END))
enum class R32 : u32 { a, SENTINEL_START = 1, SENTINEL_END = 0xfffffffeu, z };    VP_ENUM(R32, 0xfffffffell, !in_range<R32>(k, R32::SENTINEL_START, R32::SENTINEL_END))
enum class RI64 : long long { z = 5, SENTINEL_START = std::numeric_limits<long long>::min(), SENTINEL_END = std::numeric_limits<long long>::min() + 9 }; VP_ENUM(RI64, 10, !in_range<RI64>(k, RI64::SENTINEL_START, RI64::SENTINEL_END))
enum class R64 : u64 { a, SENTINEL_START = u64(1) << 63, SENTINEL_END = (u64(1) << 63) + 99, z }; VP_ENUM(R64, 100, !in_range<R64>(k, R64::SENTINEL_START, R64::SENTINEL_END))

#define X(E) VP_HARNESS(C18, E) { all<E>(); }
X(A8) X(A8top) X(A8half) X(A8f) X(A8f7) X(A8f8) X(A8z) X(A8e) X(A8p) X(A16) X(A16m) X(A16n) X(A16f) X(A32) X(A32far) X(A32f) X(A32none) X(A64) X(A64f) X(Old) X(ABool) X(ABool0) X(AChar) X(AC16)
X(I8) X(I16) X(I32) X(I64) X(S8) X(S8m) X(S8z) X(SI8) X(SI8m) X(SI16) X(SI32) X(SI32m) X(SI32x) X(SI64) X(SU64) X(SOld)
X(T8) X(T8m) X(T8lo) X(TI8) X(TI8n) X(TI16) X(T16) X(TI32) X(TI32n) X(T32) X(T64) X(TI64) X(R8) X(R8one) X(RI8) X(RI8c) X(RI16) X(R16) X(RI32) X(RI32w) X(R32) X(RI64) X(R64)
#define XH(E) VP_HARNESS(C18, history_##E) { history<E>(); }
XH(A8f) XH(A16) XH(A32far) XH(A64f) XH(I32) XH(S8z) XH(SI32) XH(SI64) XH(TI8n) XH(TI32) XH(T64) XH(RI8) XH(RI32w) XH(R16)
#define XR(E) VP_HARNESS(C18, range_##E) { range<E>(bits(E::SENTINEL_START)); }
XR(T8) XR(T8m) XR(T8lo) XR(TI8) XR(TI8n) XR(TI16) XR(T16) XR(TI32) XR(TI32n) XR(T32) XR(T64) XR(TI64) XR(R8) XR(R8one) XR(RI8) XR(RI8c) XR(RI16) XR(R16) XR(RI32) XR(RI32w) XR(R32) XR(RI64) XR(R64)
