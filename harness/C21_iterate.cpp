// configs: A B D N
// configs-thorough: C
// bound: both states, every value; every pair of positions of the range and every offset between positions, every iterator operation; reads, writes through iterators, algorithms, nested options and references
#include "ops.hpp"
#include <algorithm>
#include <iterator>
#include <numeric>
#include <string>
#if __cplusplus >= 202002L
#include <ranges>
#include <span>
#endif

// all the relations between positions i and j of a range of n elements (n = 0 or 1) starting at b
template<class It> void relations(const It b, const It e, const long n, const bool deref_ok) {
    const long i = n == 0 ? 0 : long(vp_choice(2, "i")), j = n == 0 ? 0 : long(vp_choice(2, "j"));
    const It x = b + i, y = b + j;
    VP_CHECK(e - b == n && b - e == -n);
    VP_CHECK(b + n == e && e - n == b && n + b == e);
    VP_CHECK((x == y) == (i == j)); VP_CHECK((x != y) == (i != j));
    VP_CHECK((x < y) == (i < j)); VP_CHECK((x > y) == (i > j));
    VP_CHECK((x <= y) == (i <= j)); VP_CHECK((x >= y) == (i >= j));
    VP_CHECK(y - x == j - i);
    VP_CHECK(x + (j - i) == y && y - (j - i) == x && (j - i) + x == y);
    It z = x; It& r1 = (z += j - i); VP_CHECK(std::addressof(r1) == std::addressof(z) && z == y);
    It& r2 = (z -= j - i); VP_CHECK(std::addressof(r2) == std::addressof(z) && z == x);
    z = y; VP_CHECK(z == y); It copy(z); VP_CHECK(copy == y);
    using std::swap; It p = x, q = y; swap(p, q); VP_CHECK(p == y && q == x);
    if (i < n) {
        It u = x; It& s1 = ++u; VP_CHECK(std::addressof(s1) == std::addressof(u) && u == e && u - x == 1);
        It& s2 = --u; VP_CHECK(std::addressof(s2) == std::addressof(u) && u == x);
        const It o1 = u++; VP_CHECK(o1 == x && u == e);
        const It o2 = u--; VP_CHECK(o2 == e && u == x);
        if (deref_ok) {
            VP_CHECK(std::addressof(*x) == std::addressof(x[0]) && x.operator->() == std::addressof(*x));
            VP_CHECK(std::addressof(*x) == std::addressof(y[i - j]) && std::addressof(b[i]) == std::addressof(*x) && std::addressof(e[i - n]) == std::addressof(*x));
        }
    }
    VP_CHECK(std::distance(b, e) == n && std::next(b, n) == e && std::prev(e, n) == b);
    It d1{}, d2{}; VP_CHECK(d1 == d2 && !(d1 != d2) && d1 - d2 == 0);
}
template<class T, class O> void walk(O& o, bool has, T* where) {
    long n = 0;
    for (auto&& v : o) { ++n; VP_CHECK(std::addressof(v) == where); }
    VP_CHECK(n == (has ? 1 : 0));
    n = 0;
    for (auto it = o.begin(); it != o.end(); ++it) { ++n; VP_CHECK(std::addressof(*it) == where && it.operator->() == where); }
    VP_CHECK(n == (has ? 1 : 0));
    n = 0;
    for (auto it = o.end(); it != o.begin();) { --it; ++n; VP_CHECK(std::addressof(*it) == where); }
    VP_CHECK(n == (has ? 1 : 0));
    n = 0;
    std::for_each(std::begin(o), std::end(o), [&](auto& v) { ++n; VP_CHECK(std::addressof(v) == where); });
    VP_CHECK(n == (has ? 1 : 0));
    n = 0;
    for (auto it = std::make_reverse_iterator(o.end()); it != std::make_reverse_iterator(o.begin()); ++it) { ++n; VP_CHECK(std::addressof(*it) == where); }
    VP_CHECK(n == (has ? 1 : 0));
    VP_CHECK(std::count_if(o.begin(), o.end(), [](auto&) { return true; }) == (has ? 1 : 0));
}
template<class T> void all() {
    {
        using O = opt::option<T>;
        using It = typename O::iterator; using CIt = typename O::const_iterator;
        static_assert(std::is_same_v<typename std::iterator_traits<It>::iterator_category, std::random_access_iterator_tag>);
        static_assert(std::is_same_v<typename std::iterator_traits<It>::reference, T&> && std::is_same_v<typename std::iterator_traits<CIt>::reference, const T&>);
        static_assert(std::is_same_v<typename std::iterator_traits<It>::pointer, T*> && std::is_same_v<typename std::iterator_traits<It>::difference_type, std::ptrdiff_t>);
        bool has; u64 k; O o = sym_option<T>("o", has, k); const O& c = o;
        T* const where = has ? std::addressof(o.get()) : nullptr;
        const long n = has ? 1 : 0;
        const Log l = g_log;
        const unsigned what = vp_choice(5, "what");
        if (what == 0) relations<It>(o.begin(), o.end(), n, true);
        if (what == 1) relations<CIt>(c.begin(), c.end(), n, true);
        if (what == 2) { walk<T>(o, has, where); walk<const T>(c, has, where); }
        if (what == 3) {                                  // conversion to const, and mixed uses
            CIt b = o.begin(), e = o.end();
            VP_CHECK(b == c.begin() && e == c.end() && e - b == n);
            VP_CHECK(c.begin() == o.begin() && c.end() == o.end() && (c.begin() == o.end()) == !has);
            VP_CHECK(std::addressof(static_cast<const O&>(o)) == std::addressof(c));
            if (has) VP_CHECK(std::addressof(*b) == where && keyof<T>(*b) == k);
#if __cplusplus >= 202002L
            static_assert(std::contiguous_iterator<It> && std::contiguous_iterator<CIt>);
            static_assert(std::ranges::contiguous_range<O> && std::ranges::sized_range<O> && std::ranges::common_range<O>);
            VP_CHECK(std::ranges::size(o) == std::size_t(n) && std::ranges::empty(o) == !has && std::ranges::distance(c) == n);
            if (has) VP_CHECK(std::to_address(o.begin()) == where && std::to_address(o.end()) == where + 1 && std::ranges::data(c) == where);
            std::span<const T> s(o.begin(), o.end()); VP_CHECK(s.size() == std::size_t(n) && (!has || s.data() == where));
#endif
        }
        {
            const Log d = since(l);
            VP_CHECK(d.ctor + d.cctor + d.mctor + d.cassign + d.massign + d.dtor == 0);        // iteration touches no object
        }
        expect<T>(o, has, k);
        if (what == 4) {                                   // writes go to the contained object
            const u64 w = fresh<T>("w");
            const unsigned by = vp_choice(5, "by");
            if (by == 0) for (auto& v : o) v = mk<T>(w);
            if (by == 1 && has) *o.begin() = mk<T>(w);
            if (by == 2 && has) o.begin()[0] = mk<T>(w);
            if (by == 3 && has) o.end()[-1] = mk<T>(w);
            if (by == 4) std::for_each(o.begin(), o.end(), [&](T& v) { v = mk<T>(w); });
            expect<T>(o, has, w);
            if (has) VP_CHECK(std::addressof(o.get()) == where);
        }
    }
    balanced();
}
#define ONE(NAME, ...) VP_HARNESS(C21, all_##NAME) { all<__VA_ARGS__>(); }
VP_ALL_TYPES(ONE) VP_MOVE_TYPES(ONE) VP_OPT_TYPES(ONE) VP_AMP_TYPES(ONE)

// the iterators stay valid, and keep denoting the option's value, over changes of the value
VP_HARNESS(C21, stable) {
    {
        const u64 k = fresh<Trk>("k"), w = fresh<Trk>("w");
        OTrkN o(std::in_place, u32(k));
        const auto b = o.begin(), e = o.end();
        const auto cb = static_cast<const OTrkN&>(o).begin();
        *o = u32(w);
        VP_CHECK(b->k == w && cb->k == w && (*b).k == w && cb[0].k == w && e - b == 1 && b == o.begin() && e == o.end() && o.begin() == b);
        o.reset();
        VP_CHECK(o.begin() == o.end());
        long n = 0; for (const auto& v : o) { n += 1 + long(v.k); }
        VP_CHECK(n == 0);
        o.emplace(u32(k));
        VP_CHECK(b->k == k && b == o.begin() && e == o.end());
    }
    balanced();
}
// nested options: each level is a range of its own
template<class T> void nested() {
    using O1 = opt::option<T>; using O2 = opt::option<O1>; using O3 = opt::option<O2>;
    unsigned depth = vp_choice(4, "depth"); u64 k = 0;
    O3 o;
    if (depth > 0) o.emplace();
    if (depth > 1) o->emplace();
    if (depth > 2) { k = fresh<T>("k"); (*o)->emplace(mk<T>(k)); }
    unsigned n1 = 0, n2 = 0, n3 = 0;
    for (auto& a : o) { ++n1; VP_CHECK(std::addressof(a) == std::addressof(o.get())); for (auto& b : a) { ++n2; VP_CHECK(std::addressof(b) == std::addressof(a.get())); for (const T& v : b) { ++n3; VP_CHECK(keyof<T>(v) == k); } } }
    VP_CHECK(n1 == (depth > 0) && n2 == (depth > 1) && n3 == (depth > 2));
    const u64 w = fresh<T>("w");
    for (auto& a : o) for (auto& b : a) for (T& v : b) v = mk<T>(w);
    VP_CHECK(o.has_value() == (depth > 0));
    if (depth > 0) VP_CHECK(o->has_value() == (depth > 1));
    if (depth > 1) expect<T>(**o, depth > 2, w);
    if (depth > 1) { for (auto& a : o) for (auto& b : a) b.reset(); VP_CHECK(o.has_value() && o->has_value() && !(*o)->has_value()); }
    if (depth > 0) { for (auto& a : o) a.reset(); VP_CHECK(o.has_value() && !o->has_value() && o->begin() == o->end()); }
}
VP_HARNESS(C21, nested_bool) { nested<bool>(); }
VP_HARNESS(C21, nested_int) { nested<int>(); }
VP_HARNESS(C21, nested_u64) { nested<u64>(); }
VP_HARNESS(C21, nested_double) { nested<double>(); }
VP_HARNESS(C21, nested_Trk) { nested<Trk>(); balanced(); }
VP_HARNESS(C21, nested_TrkN) { nested<TrkN>(); balanced(); }

// options of references: the range is the referred object
VP_HARNESS(C21, refs) {
    u32 x = vp_u32("x"), y = vp_u32("y"); const u32 kx = x, ky = y;
    const unsigned b = vp_choice(3, "b");
    opt::option<u32&> o; if (b == 1) o = x; if (b == 2) o.emplace(y);
    const opt::option<u32&>& c = o;
    u32* const where = b == 0 ? nullptr : b == 1 ? std::addressof(x) : std::addressof(y);
    const unsigned what = vp_choice(5, "what");
    if (what == 0) relations(o.begin(), o.end(), b != 0, true);
    if (what == 1) relations(c.begin(), c.end(), b != 0, true);
    if (what == 2) { walk<u32>(o, b != 0, where); walk<u32>(c, b != 0, where); }
    if (what == 3) { opt::option<const u32&> d(o); walk<const u32>(d, b != 0, where); }
    VP_CHECK(x == kx && y == ky);
    if (what == 4) {
        const u32 w = vp_u32("w");
        if (vp_fork_(vp_bool("const"))) for (u32& v : c) v = w; else for (u32& v : o) v = w;
        VP_CHECK(x == (b == 1 ? w : kx) && y == (b == 2 ? w : ky));
    }
    VP_CHECK(o.ptr_or_null() == where);
}
// algorithms over options of numbers
VP_HARNESS(C21, algorithms) {
    bool h; u64 k; OInt o = sym_option<int>("o", h, k); const OInt& c = o; const u32 v = vp_u32("v");
    VP_CHECK(std::accumulate(c.begin(), c.end(), u32(5), [](u32 a, int b) { return a * 3u + u32(b); }) == (h ? u32(15u + u32(k)) : 5u));
    VP_CHECK((std::find(o.begin(), o.end(), int(v)) != o.end()) == (h && u32(k) == v));
    VP_CHECK(std::is_sorted(o.begin(), o.end()) && (std::max_element(o.begin(), o.end()) == o.end()) == !h);
    VP_CHECK(std::lower_bound(o.begin(), o.end(), int(v)) == o.begin() + (h && int(k) < int(v)));
    VP_CHECK(std::equal(o.begin(), o.end(), c.begin(), c.end()));
    std::vector<int> w(c.begin(), c.end());
    VP_CHECK(w.size() == std::size_t(h) && (!h || u32(w[0]) == u32(k)));
    std::fill(o.begin(), o.end(), int(v)); expect<int>(o, h, v);
    std::reverse(o.begin(), o.end()); expect<int>(o, h, v);
    int out[2] = {7, 7}; int* q = std::copy(c.begin(), c.end(), out);
    VP_CHECK(q - out == h && out[0] == (h ? int(v) : 7) && out[1] == 7);
    std::transform(c.begin(), c.end(), o.begin(), [](int z) { return int(u32(z) ^ 1u); }); expect<int>(o, h, v ^ 1u);
}
#if !defined(NDEBUG)
// a value-initialized iterator is not dereferenceable: the check stops it
VP_HARNESS(C21, null) {
    OInt::iterator it{}; VP_CHECK(it == OInt::iterator());
    OBool::const_iterator ct{}; VP_CHECK(ct == OBool::const_iterator());
    const long off = vp_fork_(vp_bool("neg")) ? -1 : 1;
    const unsigned what = vp_choice(9, "what");
    vp_expect_trap();
    switch (what) {
    case 0: (void)*it; break;
    case 1: ++it; break;
    case 2: it++; break;
    case 3: --it; break;
    case 4: it--; break;
    case 5: it += off; break;
    case 6: it -= off; break;
    case 7: (void)it[0]; break;
    default: (void)*ct; break;
    }
}
#endif
