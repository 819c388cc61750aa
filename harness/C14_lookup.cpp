// configs: A B D
// configs-thorough: A B C D N
// bound: container sizes 0..4 (0..3 for the associative containers), every 64-bit index, all element and key values symbolic; vector, array, string, string_view, deque, vector<bool>, vector of a tracked type, and containers with prvalue, proxy, ref-qualified or narrow-size interfaces; std::map, multimap, set, unordered_map, unordered_set and a minimal associative container
// note: std::map/std::set nodes are linked by a stand-in for the out-of-line libstdc++ tree functions (no rebalancing), unordered containers use one bucket
#include "ops.hpp"
#include <deque>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
using std::move;
// out-of-line parts of libstdc++ that the translated program needs; the trees stay valid search trees, just not balanced
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
}
}
template<class C> void same_contents(const C& c, const u64* k, unsigned n) { VP_CHECK(c.size() == n); for (unsigned i = 0; i < n; ++i) VP_CHECK(keyof<std::remove_cv_t<std::remove_reference_t<decltype(c[i])>>>(c[i]) == k[i]); }

// containers with real elements: reference results
template<class C> void indexed(C& c, unsigned n, const u64* k) {
    using T = std::remove_reference_t<decltype(c[0])>; using V = std::remove_cv_t<T>;
    const C& cc = c;
    const u64 i = vp_u64("i"); const bool in = i < n;
    {
        auto a = opt::at(c, i); static_assert(std::is_same_v<decltype(a), opt::option<T&>>); VP_CHECK(a.has_value() == in);
        auto b = opt::at(cc, i); static_assert(std::is_same_v<decltype(b), opt::option<const T&>>); VP_CHECK(b.has_value() == in);
        auto f = opt::at_front(c); static_assert(std::is_same_v<decltype(f), opt::option<T&>>); VP_CHECK(f.has_value() == (n > 0)); if (n) VP_CHECK(std::addressof(*f) == std::addressof(c[0]));
        auto g = opt::at_front(cc); static_assert(std::is_same_v<decltype(g), opt::option<const T&>>); VP_CHECK(g.has_value() == (n > 0)); if (n) VP_CHECK(std::addressof(*g) == std::addressof(c[0]));
        auto l = opt::at_back(c); static_assert(std::is_same_v<decltype(l), opt::option<T&>>); VP_CHECK(l.has_value() == (n > 0)); if (n) VP_CHECK(std::addressof(*l) == std::addressof(c[n - 1]));
        auto m = opt::at_back(cc); static_assert(std::is_same_v<decltype(m), opt::option<const T&>>); VP_CHECK(m.has_value() == (n > 0)); if (n) VP_CHECK(std::addressof(*m) == std::addressof(c[n - 1]));
        same_contents(cc, k, n);
        if (vp_fork_(in)) {
            const unsigned s = unsigned(vp_split_(i));
            VP_CHECK(std::addressof(*a) == std::addressof(c[s])); VP_CHECK(std::addressof(*b) == std::addressof(cc[s])); VP_CHECK(keyof<V>(*a) == k[s]);
            auto r = opt::at(move(c), i); static_assert(std::is_same_v<decltype(r), opt::option<T&&>>); VP_CHECK(r.has_value()); T&& rr = move(r).get(); VP_CHECK(std::addressof(rr) == std::addressof(c[s]));
            auto q = opt::at(move(cc), i); static_assert(std::is_same_v<decltype(q), opt::option<const T&&>>); VP_CHECK(q.has_value()); const T&& qq = move(q).get(); VP_CHECK(std::addressof(qq) == std::addressof(c[s]));
            auto rf = opt::at_front(move(c)); static_assert(std::is_same_v<decltype(rf), opt::option<T&&>>); T&& rfr = move(rf).get(); VP_CHECK(std::addressof(rfr) == std::addressof(c[0]));
            auto rb = opt::at_back(move(cc)); static_assert(std::is_same_v<decltype(rb), opt::option<const T&&>>); const T&& rbr = move(rb).get(); VP_CHECK(std::addressof(rbr) == std::addressof(c[n - 1]));
            same_contents(cc, k, n);
            const u64 w = fresh<V>("w"); *a = mk<V>(w); VP_CHECK(keyof<V>(cc[s]) == w); for (unsigned j = 0; j < n; ++j) if (j != s) VP_CHECK(keyof<V>(cc[j]) == k[j]);
            V taken = *opt::at(move(c), i); VP_CHECK(keyof<V>(taken) == w);
        } else {
            VP_CHECK(!opt::at(move(c), i).has_value()); VP_CHECK(!opt::at(move(cc), i).has_value()); VP_CHECK(opt::at_front(move(c)).has_value() == (n > 0)); VP_CHECK(opt::at_back(move(c)).has_value() == (n > 0));
            same_contents(cc, k, n);
        }
    }
}
template<class C, class V> void seq(unsigned maxn) {
    {
        const unsigned n = vp_choice(maxn + 1, "n"); u64 k[4] = {};
        C c; for (unsigned i = 0; i < n; ++i) { k[i] = fresh<V>("k"); c.push_back(mk<V>(k[i])); }
        indexed(c, n, k);
    }
    balanced();
}
VP_HARNESS(C14, vector) { seq<std::vector<u32>, u32>(4); }
VP_HARNESS(C14, vector_u8) { seq<std::vector<u8>, u8>(4); }
VP_HARNESS(C14, vector_trk) { seq<std::vector<Trk>, Trk>(3); }
VP_HARNESS(C14, vector_ptr) { seq<std::vector<int*>, int*>(3); }
VP_HARNESS(C14, vector_amp) { seq<std::vector<Amp>, Amp>(2); }
VP_HARNESS(C14, deque) { seq<std::deque<u64>, u64>(3); }
template<std::size_t N> void arr() { std::array<u32, N> c{}; u64 k[4] = {}; for (unsigned i = 0; i < N; ++i) { k[i] = fresh<u32>("k"); c[i] = u32(k[i]); } indexed(c, N, k); }
VP_HARNESS(C14, array) { arr<1>(); arr<3>(); }
VP_HARNESS(C14, string) {
    const unsigned n = vp_choice(5, "n"); char b[5] = {}; for (unsigned i = 0; i < n; ++i) b[i] = char(vp_u8("c"));
    std::string s(b, n); const std::string& cs = s; const std::string_view v(b, n);
    const u64 i = vp_u64("i"); const bool in = i < n;
    auto a = opt::at(s, i); VP_CHECK(a.has_value() == in); auto c = opt::at(cs, i); VP_CHECK(c.has_value() == in); auto d = opt::at(v, i); VP_CHECK(d.has_value() == in);
    auto f = opt::at_front(s), l = opt::at_back(s); VP_CHECK(f.has_value() == (n > 0) && l.has_value() == (n > 0)); if (n) VP_CHECK(std::addressof(*f) == std::addressof(s[0]) && std::addressof(*l) == std::addressof(s[n - 1]));
    auto vf = opt::at_front(v), vl = opt::at_back(v); VP_CHECK(vf.has_value() == (n > 0) && vl.has_value() == (n > 0)); if (n) VP_CHECK(std::addressof(*vf) == b && std::addressof(*vl) == b + n - 1);
    if (vp_fork_(in)) { const unsigned x = unsigned(vp_split_(i)); VP_CHECK(std::addressof(*a) == std::addressof(s[x]) && std::addressof(*c) == std::addressof(s[x]) && std::addressof(*d) == b + x && *d == b[x]); *a = 'x'; VP_CHECK(s[x] == 'x'); b[x] = 'x'; }
    VP_CHECK(s == std::string_view(b, n));
}
// proxies and prvalues are carried by value
VP_HARNESS(C14, vector_bool) {
    const unsigned n = vp_choice(4, "n"); bool b[4] = {}; std::vector<bool> c(n, false); for (unsigned i = 0; i < n; ++i) { b[i] = vp_bool("b"); c[i] = b[i]; } const std::vector<bool>& cc = c;
    const u64 i = vp_u64("i"); const bool in = vp_fork_(i < n);
    auto a = opt::at(c, i); auto d = opt::at(cc, i); VP_CHECK(a.has_value() == in && d.has_value() == in); static_assert(std::is_same_v<decltype(d), opt::option<bool>>);
    auto f = opt::at_front(cc), l = opt::at_back(cc); VP_CHECK(f.has_value() == (n > 0) && l.has_value() == (n > 0)); if (n) VP_CHECK(*f == b[0] && *l == b[n - 1]);
    if (in) { const unsigned x = unsigned(vp_split_(i)); VP_CHECK(bool(*a) == b[x] && *d == b[x]); const bool w = vp_bool("w"); *a = w; b[x] = w; }
    VP_CHECK(c.size() == n); for (unsigned j = 0; j < n; ++j) VP_CHECK(cc[j] == b[j]);
}
struct Gen8 { // computed elements, narrow size type, throwing never
    u8 n; u32 seed; mutable unsigned reads = 0;
    u8 size() const { return n; }
    u32 operator[](std::size_t i) const { VP_CHECK(i < n); ++reads; return seed + u32(i); }
    u32 front() const { VP_CHECK(n > 0); ++reads; return seed; } u32 back() const { VP_CHECK(n > 0); ++reads; return seed + n - 1; }
};
VP_HARNESS(C14, prvalue) {
    Gen8 c{vp_u8("n"), vp_u32("s")}; const u64 i = vp_u64("i"); const bool in = i < c.n; const u32 s = c.seed; const u8 n = c.n;
    auto a = opt::at(c, i); static_assert(std::is_same_v<decltype(a), opt::option<u32>>); VP_CHECK(a.has_value() == in); VP_CHECK(c.reads == (in ? 1u : 0u)); if (in) VP_CHECK(*a == s + u32(i));
    c.reads = 0; auto f = opt::at_front(c); VP_CHECK(f.has_value() == (n > 0)); VP_CHECK(c.reads == (n > 0 ? 1u : 0u)); if (n > 0) VP_CHECK(*f == s);
    c.reads = 0; auto b = opt::at_back(move(c)); VP_CHECK(b.has_value() == (n > 0)); VP_CHECK(c.reads == (n > 0 ? 1u : 0u)); if (n > 0) VP_CHECK(*b == s + n - 1);
    VP_CHECK(c.n == n && c.seed == s);
}
struct RefQ { // the access depends on the value category of the container
    u32 x[2]; unsigned l = 0, cl = 0, r = 0, cr = 0; static inline unsigned crs, cls;
    std::size_t size() const { return 2; }
    u32& operator[](std::size_t i) & { ++l; return x[i]; } const u32& operator[](std::size_t i) const& { ++cls; return x[i]; } u32&& operator[](std::size_t i) && { ++r; return move(x[i]); } const u32&& operator[](std::size_t i) const&& { ++crs; return move(x[i]); }
    u32& front() & { ++l; return x[0]; } const u32& front() const& { ++cls; return x[0]; } u32&& front() && { ++r; return move(x[0]); } const u32&& front() const&& { ++crs; return move(x[0]); }
    u32& back() & { ++l; return x[1]; } const u32& back() const& { ++cls; return x[1]; } u32&& back() && { ++r; return move(x[1]); } const u32&& back() const&& { ++crs; return move(x[1]); }
};
VP_HARNESS(C14, refqual) {
    RefQ c{{vp_u32("a"), vp_u32("b")}}; const RefQ& cc = c; RefQ::cls = RefQ::crs = 0; const u64 i = vp_u64("i"); const bool in = vp_fork_(i < 2);
    auto a = opt::at(c, i); static_assert(std::is_same_v<decltype(a), opt::option<u32&>>); auto b = opt::at(cc, i); static_assert(std::is_same_v<decltype(b), opt::option<const u32&>>);
    auto d = opt::at(move(c), i); static_assert(std::is_same_v<decltype(d), opt::option<u32&&>>); auto e = opt::at(move(cc), i); static_assert(std::is_same_v<decltype(e), opt::option<const u32&&>>);
    const unsigned w = in ? 1 : 0; VP_CHECK(c.l == w && RefQ::cls == w && c.r == w && RefQ::crs == w); VP_CHECK(a.has_value() == in && b.has_value() == in && d.has_value() == in && e.has_value() == in);
    if (in) { const unsigned s = unsigned(vp_split_(i)); VP_CHECK(std::addressof(*a) == &c.x[s] && std::addressof(*b) == &c.x[s] && d.ptr_or_null() == &c.x[s] && e.ptr_or_null() == &c.x[s]); }
    c.l = c.r = RefQ::cls = RefQ::crs = 0;
    VP_CHECK(&*opt::at_front(c) == c.x && &*opt::at_front(cc) == c.x && opt::at_front(move(c)).ptr_or_null() == c.x && opt::at_front(move(cc)).ptr_or_null() == c.x); VP_CHECK(c.l == 1 && RefQ::cls == 1 && c.r == 1 && RefQ::crs == 1);
    VP_CHECK(&*opt::at_back(c) == c.x + 1 && &*opt::at_back(cc) == c.x + 1 && opt::at_back(move(c)).ptr_or_null() == c.x + 1 && opt::at_back(move(cc)).ptr_or_null() == c.x + 1); VP_CHECK(c.l == 2 && RefQ::cls == 2 && c.r == 2 && RefQ::crs == 2);
}
// lookup
template<class M> void maps(unsigned maxn) {
    using K = typename M::key_type; using V = typename M::mapped_type;
    {
        const unsigned n = vp_choice(maxn + 1, "n"); u64 k[3] = {}, v[3] = {}; bool live[3] = {}; M m; unsigned size = 0;
        for (unsigned i = 0; i < n; ++i) {
            k[i] = fresh<K>("k"); v[i] = fresh<V>("v"); live[i] = true; for (unsigned j = 0; j < i; ++j) if (vp_fork_(k[i] == k[j])) live[i] = false;
            if (live[i]) { m.emplace(mk<K>(k[i]), mk<V>(v[i])); ++size; }
        }
        const M& cm = m; const u64 q = fresh<K>("q"); const K key = mk<K>(q);
        int at = -1; for (unsigned i = 0; i < n; ++i) if (live[i] && vp_fork_(k[i] == q)) at = int(i);
        auto r = opt::lookup(m, key); static_assert(std::is_same_v<decltype(r), opt::option<V&>>); auto c = opt::lookup(cm, mk<K>(q)); static_assert(std::is_same_v<decltype(c), opt::option<const V&>>);
        VP_CHECK(r.has_value() == (at >= 0) && c.has_value() == (at >= 0)); VP_CHECK(m.size() == size); VP_CHECK(keyof<K>(key) == q);
        if (at >= 0) { VP_CHECK(std::addressof(*r) == &m.find(key)->second && std::addressof(*c) == std::addressof(*r)); VP_CHECK(keyof<V>(*r) == v[at]); const u64 w = fresh<V>("w"); *r = mk<V>(w); VP_CHECK(keyof<V>(m.find(key)->second) == w); v[at] = w; }
        for (unsigned i = 0; i < n; ++i) if (live[i]) { auto o = opt::lookup(cm, mk<K>(k[i])); VP_CHECK(o.has_value() && keyof<V>(*o) == v[i]); }
        VP_CHECK(m.size() == size);
    }
    balanced();
}
template<class S> void sets(unsigned maxn) {
    using K = typename S::key_type;
    const unsigned n = vp_choice(maxn + 1, "n"); u64 k[3] = {}; S m;
    for (unsigned i = 0; i < n; ++i) { k[i] = fresh<K>("k"); m.insert(mk<K>(k[i])); }
    const std::size_t size = m.size(); const S& cm = m; const u64 q = fresh<K>("q"); const K key = mk<K>(q);
    bool in = false; for (unsigned i = 0; i < n; ++i) if (vp_fork_(k[i] == q)) in = true;
    auto r = opt::lookup(m, key); static_assert(std::is_same_v<decltype(r), opt::option<const K&>>); auto c = opt::lookup(cm, key); static_assert(std::is_same_v<decltype(c), opt::option<const K&>>);
    VP_CHECK(r.has_value() == in && c.has_value() == in); if (in) VP_CHECK(std::addressof(*r) == &*m.find(key) && std::addressof(*c) == std::addressof(*r) && keyof<K>(*r) == q); VP_CHECK(m.size() == size);
}
VP_HARNESS(C14, map) { maps<std::map<u32, u32>>(3); }
VP_HARNESS(C14, map_trk) { maps<std::map<u8, Trk>>(2); }
VP_HARNESS(C14, multimap) { maps<std::multimap<u32, u64>>(2); }
VP_HARNESS(C14, umap) { maps<std::unordered_map<u32, u32>>(3); }
VP_HARNESS(C14, set) { sets<std::set<u32>>(3); }
VP_HARNESS(C14, uset) { sets<std::unordered_set<u64>>(2); }
VP_HARNESS(C14, transparent) {      // the key is forwarded to find as it is
    std::map<u32, u32, std::less<>> m; const u32 a = vp_u32("a"), b = vp_u32("b"); m.emplace(a, 1u); m.emplace(b, 2u);
    const u64 q = vp_u64("q"); auto o = opt::lookup(m, q); const bool in = (q == a) | (q == b); VP_CHECK(o.has_value() == in); if (vp_fork_(in)) VP_CHECK(*o == (q == a ? 1u : 2u));
}
struct KeyM { u32 v; KeyM(u32 x) : v(x) {} KeyM(KeyM&& o) : v(o.v) { o.v = MOVED; } };
struct Assoc {      // find counts calls and takes its key by value category
    using mapped_type = u32; struct P { u32 first; u32 second; }; P p[2]; unsigned lcalls = 0, rcalls = 0;
    P* end() { return p + 2; }
    P* find(const KeyM& k) { ++lcalls; for (P& e : p) if (e.first == k.v) return &e; return end(); }
    P* find(KeyM&& k) { ++rcalls; KeyM t(move(k)); for (P& e : p) if (e.first == t.v) return &e; return end(); }
};
VP_HARNESS(C14, custom) {
    Assoc m{{{vp_u32("a"), vp_u32("x")}, {vp_u32("b"), vp_u32("y")}}}; const u32 q = vp_u32("q"); vp_assume(q != MOVED); KeyM k(q);
    const int at = vp_fork_(m.p[0].first == q) ? 0 : vp_fork_(m.p[1].first == q) ? 1 : -1;
    auto r = opt::lookup(m, k); VP_CHECK(m.lcalls == 1 && m.rcalls == 0 && k.v == q); VP_CHECK(r.ptr_or_null() == (at < 0 ? nullptr : &m.p[at].second));
    auto s = opt::lookup(m, move(k)); VP_CHECK(m.lcalls == 1 && m.rcalls == 1 && k.v == MOVED); VP_CHECK(s.ptr_or_null() == (at < 0 ? nullptr : &m.p[at].second));
}
