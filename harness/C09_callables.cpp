// configs: A B
// configs-thorough: A B C D N
// bound: both states, all values, every operation with the callable passed in each of the four value categories and every kind of result storage (trivial or not, with and without spare states, references, aggregates): the callable is invoked once, in the category it was passed in
#include "ops.hpp"
using std::move;
struct Calls { unsigned n[4] = {0, 0, 0, 0}; unsigned total() const { return n[0] + n[1] + n[2] + n[3]; } };
// invocable in every category, and tells which one was used
template<class Fn> struct Every {
    Calls* log; Fn fn;
    template<class... X> decltype(auto) operator()(X&&... x) & { ++log->n[0]; return fn(static_cast<X&&>(x)...); }
    template<class... X> decltype(auto) operator()(X&&... x) const& { ++log->n[1]; return fn(static_cast<X&&>(x)...); }
    template<class... X> decltype(auto) operator()(X&&... x) && { ++log->n[2]; return fn(static_cast<X&&>(x)...); }
    template<class... X> decltype(auto) operator()(X&&... x) const&& { ++log->n[3]; return fn(static_cast<X&&>(x)...); }
};
template<class Fn> Every<Fn> every(Calls& l, Fn fn) { return {&l, fn}; }
template<class F, class G> decltype(auto) pass(unsigned c, F& f, G&& g) {     // g(f) with f in category c
    switch (c) {
    case 0: return g(f);
    case 1: return g(static_cast<const F&>(f));
    case 2: return g(static_cast<F&&>(f));
    default: return g(static_cast<const F&&>(f));
    }
}
#define FW(f) static_cast<decltype(f)&&>(f)
void once(const Calls& l, unsigned c, bool called) { for (unsigned i = 0; i < 4; ++i) VP_CHECK(l.n[i] == (called && i == c ? 1u : 0u)); }

// results of every kind of storage
template<class R> void result() {
    {
        bool h; u64 k; opt::option<u32> o = sym_option<u32>("o", h, k);
        const u64 rk = fresh<R>("r"); const u64 alt = fresh<R>("alt");
        Calls l; auto f = every(l, [&](const u32& x) { VP_CHECK(x == u32(k)); return mk<R>(rk); });
        Calls dl; auto d = every(dl, [&] { return mk<R>(alt); });
        const unsigned c = vp_choice(4, "category"), src = vp_choice(3, "source");
        const opt::option<u32>& co = o;
        switch (vp_choice(4, "op")) {
        case 0: {
            auto r = pass(c, f, [&](auto&& g) { return src == 0 ? o.map(FW(g)) : src == 1 ? co.map(FW(g)) : move(o).map(FW(g)); });
            static_assert(std::is_same_v<decltype(r), opt::option<R>>);
            expect<R>(r, h, rk); once(l, c, h); break; }
        case 1: {
            R r = pass(c, f, [&](auto&& g) { return src == 0 ? o.map_or(mk<R>(alt), FW(g)) : src == 1 ? co.map_or(mk<R>(alt), FW(g)) : move(o).map_or(mk<R>(alt), FW(g)); });
            VP_CHECK(keyof<R>(r) == (h ? rk : alt)); once(l, c, h); break; }
        case 2: {
            R r = pass(c, f, [&](auto&& g) { return pass(c, d, [&](auto&& e) { return src == 0 ? o.map_or_else(FW(e), FW(g)) : src == 1 ? co.map_or_else(FW(e), FW(g)) : move(o).map_or_else(FW(e), FW(g)); }); });
            VP_CHECK(keyof<R>(r) == (h ? rk : alt)); once(l, c, h); once(dl, c, !h); break; }
        default: {
            auto r = pass(c, f, [&](auto&& g) { return src == 0 ? opt::zip_with(FW(g), o) : src == 1 ? opt::zip_with(FW(g), co) : opt::zip_with(FW(g), move(o)); });
            static_assert(std::is_same_v<decltype(r), opt::option<R>>);
            expect<R>(r, h, rk); once(l, c, h); break; }
        }
        expect<u32>(o, h, k);
    }
    balanced();
}
#define X(N, T) VP_HARNESS(C09, result_##N) { result<T>(); }
X(int, int) X(bool, bool) X(Trk, Trk) X(TrkN, TrkN) X(PairTB, PairTB) X(Agg, Agg) X(string, std::string) X(Sp0000, Sp0000) X(OTrk, OTrk) X(UPtr, UPtr) X(AggTb, AggTb) X(AggT, AggT)
// results that are references
VP_HARNESS(C09, result_ref) {
    bool h; u64 k; opt::option<u32> o = sym_option<u32>("o", h, k);
    u32 other = 5; Calls l; auto f = every(l, [&](const u32&) -> u32& { return other; });
    const unsigned c = vp_choice(4, "category");
    auto r = pass(c, f, [&](auto&& g) { return o.map(FW(g)); });
    static_assert(std::is_same_v<decltype(r), opt::option<u32&>>);
    VP_CHECK(r.has_value() == h); if (h) VP_CHECK(&r.get() == &other); once(l, c, h);
}
// the other operations
template<class T> void others() {
    using O = opt::option<T>;
    {
        bool h; u64 k; O o = sym_option<T>("o", h, k); const O& co = o;
        const bool yes = vp_fork_(vp_bool("yes")); const unsigned c = vp_choice(4, "category"), src = vp_choice(3, "source");
        Calls l; auto pred = every(l, [&](const T& x) { VP_CHECK(keyof<T>(x) == k); return yes; });
        switch (vp_choice(5, "op")) {
        case 0: { bool r = pass(c, pred, [&](auto&& g) { return src == 0 ? o.has_value_and(FW(g)) : src == 1 ? co.has_value_and(FW(g)) : move(o).has_value_and(FW(g)); }); VP_CHECK(r == (h & yes)); once(l, c, h); expect<T>(o, h, k); break; }
        case 1: { pass(c, pred, [&](auto&& g) { if (src == 0) o.inspect(FW(g)); else if (src == 1) co.inspect(FW(g)); else move(o).inspect(FW(g)); return 0; }); once(l, c, h); expect<T>(o, h, k); break; }
        case 2: { O r = pass(c, pred, [&](auto&& g) { return o.take_if(FW(g)); }); expect<T>(r, h & yes, k); expect<T>(o, h & !yes, k); once(l, c, h); break; }
        case 3: { const u64 rk = vp_u32("r"); Calls al; auto f = every(al, [&](const T& x) { VP_CHECK(keyof<T>(x) == k); return yes ? opt::option<u32>(u32(rk)) : opt::option<u32>(); });
                  auto r = pass(c, f, [&](auto&& g) { return src == 0 ? o.and_then(FW(g)) : src == 1 ? co.and_then(FW(g)) : move(o).and_then(FW(g)); });
                  expect<u32>(r, h & yes, rk); once(al, c, h); expect<T>(o, h, k); break; }
        default: { const u64 ak = fresh<T>("alt"); Calls al; auto f = every(al, [&] { return yes ? O(mk<T>(ak)) : O(); });
                  O r = pass(c, f, [&](auto&& g) { return move(o).or_else(FW(g)); });
                  expect<T>(r, h | yes, h ? k : ak); once(al, c, !h); VP_CHECK(o.has_value() == h); break; }
        }
    }
    balanced();
}
template<class T> void others_copy() {
    using O = opt::option<T>;
    {
        bool h; u64 k; O o = sym_option<T>("o", h, k); const O& co = o;
        const bool yes = vp_fork_(vp_bool("yes")); const unsigned c = vp_choice(4, "category");
        Calls l; auto pred = every(l, [&](const T& x) { VP_CHECK(keyof<T>(x) == k); return yes; });
        if (vp_fork_(vp_bool("filter"))) {
            const unsigned src = vp_choice(4, "source");
            O r = pass(c, pred, [&](auto&& g) { return src == 0 ? o.filter(FW(g)) : src == 1 ? co.filter(FW(g)) : src == 2 ? move(o).filter(FW(g)) : move(co).filter(FW(g)); });
            expect<T>(r, h & yes, k); once(l, c, h); VP_CHECK(o.has_value() == h); if (src != 2) expect<T>(o, h, k);
        } else {
            const u64 ak = fresh<T>("alt"); Calls al; auto f = every(al, [&] { return yes ? O(mk<T>(ak)) : O(); });
            O r = pass(c, f, [&](auto&& g) { return co.or_else(FW(g)); });
            expect<T>(r, h | yes, h ? k : ak); once(al, c, !h); expect<T>(o, h, k);
        }
    }
    balanced();
}
#define Y(N, T) VP_HARNESS(C09, others_##N) { others<T>(); }
#define Z(N, T) VP_HARNESS(C09, othersc_##N) { others_copy<T>(); }
Y(int, int) Y(bool, bool) Y(Trk, Trk) Y(TrkN, TrkN) Y(UPtr, UPtr) Y(string, std::string)
Z(int, int) Z(bool, bool) Z(Trk, Trk) Z(TrkN, TrkN) Z(string, std::string)
