// Harness interface.  The same harness is (1) translated to LLVM IR and executed
// symbolically and (2) compiled natively to replay concrete inputs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <new>

extern "C" {
std::uint8_t vp_u8(const char* name);
std::uint16_t vp_u16(const char* name);
std::uint32_t vp_u32(const char* name);
std::uint64_t vp_u64(const char* name);
void vp_bytes(void* p, std::size_t n, const char* name);   // n arbitrary bytes
void vp_assume_(int c);
void vp_assert_(int c, const char* msg);
void vp_observe_(const char* name, std::uint64_t v);
std::uint64_t vp_split_(std::uint64_t v);                  // case split over every feasible value
int vp_fork_(int c);                                       // case split over a condition
void vp_expect_trap();                                     // from here on a debug trap is an accepted end
void vp_no_leak_check();
int vp_is_symbolic_engine();
}
#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#define VP_CHECK(...) vp_assert_(int(bool(__VA_ARGS__)), VP_STR(__LINE__) ": " #__VA_ARGS__)
#define VP_FAIL(msg) vp_assert_(0, VP_STR(__LINE__) ": " msg)
#define VP_OBS(name, v) vp_observe_(name, std::uint64_t(v))
inline void vp_assume(bool c) { vp_assume_(int(c)); }
inline bool vp_bool(const char* name) { std::uint8_t v = vp_u8(name); vp_assume_(int(v < 2)); return v != 0; }
// arbitrary value in [0, n), one path per value
inline unsigned vp_choice(unsigned n, const char* name) { std::uint8_t v = vp_u8(name); vp_assume_(int(v < n)); return unsigned(vp_split_(v)); }

#define VP_HARNESS(prop, name) extern "C" void vpH_##prop##__##name()
