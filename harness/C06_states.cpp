// configs: A B D N
// configs-thorough: A B C D N
// bound: from a symbolic start state (empty or engaged with any value), every sequence of 2 operations (3 in the thorough tier for the types in the first list) out of 31 (20 for move-only types), all operand states and values symbolic
#include "ops.hpp"
template<class T> void sequence(unsigned n) {
    {
        bool has; u64 k;
        opt::option<T> o = sym_option<T>("o", has, k);
        expect<T>(o, has, k);
        for (unsigned i = 0; i < n; ++i) step<T>(o, has, k);
        VP_OBS("has", has);
    }
    balanced();
}
#ifdef VP_DEEP
constexpr unsigned N1 = 3;
#else
constexpr unsigned N1 = 2;
#endif
#define X2(N, T) VP_HARNESS(C06, seq_##N) { sequence<T>(N1); }
#define X1(N, T) VP_HARNESS(C06, one_##N) { sequence<T>(1); }
X2(int, int) X2(bool, bool) X2(Trk, Trk) X2(TrkN, TrkN) X2(Color, Color) X2(TrkM, TrkM)
VP_ALL_TYPES(X1) VP_MOVE_TYPES(X1) VP_SP_TYPES(X1) VP_OPT_TYPES(X1) X1(AggTb, AggTb) X1(AggT, AggT) VP_AMP_TYPES(X1)
