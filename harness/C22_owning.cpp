// configs: A B D
// configs-thorough: C N
// bound: every operation of the interface in each of the four value categories, both states, all values; copy/move counting, move-only, heap-owning and plain payloads
#include "categories.hpp"
X(string, std::string) X(Sp0000, Sp0000) X(Sp1010, Sp1010) X(Agg, Agg) X(AggNo, AggNo)
#if VP_DEEP
X(Pad, Pad) X(Poly, Poly) X(TupIBF, TupIBF) X(ArrB, ArrB)
#endif
