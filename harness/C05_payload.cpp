// configs: A B D N
// bound: one construction route out of 22 followed by every accessor, payload value fully symbolic; one instance per listed type
#include "ops.hpp"
template<class T> void payload() {
    {
        u64 k = fresh<T>("k"), other = fresh<T>("other");
        unsigned r = vp_choice(n_routes<T>, "route");
        opt::option<T> o = build<T>(r, k, other);
        read_all<T>(o, true, k);
        if constexpr (copyable<T>) {
            const opt::option<T> c = o;
            VP_CHECK(keyof<T>(c.value_or(mk<T>(other))) == k);
            T copy = *c;
            VP_CHECK(keyof<T>(copy) == k);
        }
        opt::option<T> m = std::move(o);
        read_all<T>(m, true, k);
        T out = std::move(m).get();
        VP_CHECK(keyof<T>(out) == k);
    }
    balanced();
}
template<class T> void empty_payload() {
    {
        u64 other = fresh<T>("other");
        opt::option<T> o = build_empty<T>(vp_choice(n_empty_routes, "route"), other);
        read_all<T>(o, false, 0);
        opt::option<T> m = std::move(o);
        read_all<T>(m, false, 0);
        T out = std::move(m).value_or(mk<T>(other));
        VP_CHECK(keyof<T>(out) == other);
    }
    balanced();
}
#define X(N, T) VP_HARNESS(C05, pay_##N) { payload<T>(); } VP_HARNESS(C05, empty_##N) { empty_payload<T>(); }
VP_ALL_TYPES(X) VP_MOVE_TYPES(X) X(UPtrA, UPtrA) X(Uni, Uni) VP_SP_TYPES(X) X(AggTb, AggTb) X(AggT, AggT) VP_AMP_TYPES(X)
