// configs: A B D N
// gcc: no
// bound: enumerations without a fixed underlying type: every declared enumerator symbolic
// note: clang and gcc derive different numbers of levels here (clang: none), so traces of the clang build are not replayed on the gcc build
#include "enums.hpp"
enum Unf0 { u0_a, u0_b };                                  VP_ENUM(Unf0, -1, one_of<Unf0>(k, u0_a, u0_b))
enum Unf1 { u1_a, u1_b, u1_c = 100 };                      VP_ENUM(Unf1, -1, (one_of<Unf1>(k, u1_a, u1_b, u1_c)))
enum Unf2 { u2_a = -1, u2_b = 1000 };                      VP_ENUM(Unf2, 0, one_of<Unf2>(k, u2_a, u2_b))
enum Unf3 { u3_a, u3_b = 0x7fffffff };                     VP_ENUM(Unf3, -1, one_of<Unf3>(k, u3_a, u3_b))
#define X(E) VP_HARNESS(C18, E) { all<E>(); }
X(Unf0) X(Unf1) X(Unf2) X(Unf3)
VP_HARNESS(C18, history_Unf1) { history<Unf1>(); }
