// configs: A B D
// configs-thorough: C N
// bound: every operation of the interface in each of the four value categories, both states, all values; copy/move counting, move-only, heap-owning and plain payloads
#include "categories.hpp"
X(Trk, Trk) X(TrkN, TrkN) X(TrkM, TrkM) X(UPtr, UPtr) X(Vec, Vec) X(PairTB, PairTB) X(AggTb, AggTb)
#if VP_DEEP
X(TrkA, TrkA)
#endif
