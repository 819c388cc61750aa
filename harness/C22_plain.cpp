// configs: A B D
// configs-thorough: C N
// bound: every operation of the interface in each of the four value categories, both states, all values; copy/move counting, move-only, heap-owning and plain payloads
#include "categories.hpp"
X(int, int) X(u64, u64) X(bool, bool) X(double, double) X(ptr, int*) X(Color, Color) X(sview, std::string_view) X(Amp, Amp) X(AmpN, AmpN) X(PairAmp, PairAmp)
#if VP_DEEP
X(u8, u8) X(CplxF, CplxF) X(MemP, MemP) X(Sp1111, Sp1111) X(Sp0011, Sp0011) X(Sp1100, Sp1100)
#endif
