// configs: A B D
// configs-thorough: C N
// bound: every argument value symbolic; types whose parenthesised and braced construction differ, aggregates, and types with several constructors, through every in-place route
#include "ops.hpp"
// (a, b) and {a, b} mean different things
struct ListV {
    u32 n, v; bool list; bool niche = true;
    ListV() : n(0), v(0), list(false) {}
    explicit ListV(u32 a) : n(a), v(1), list(false) {}
    ListV(u32 a, u32 b) : n(a), v(b), list(false) {}
    ListV(u32 a, u32 b, u32 c) : n(a + c), v(b), list(false) {}
    ListV(std::initializer_list<u32> l) : n(u32(l.size())), v(l.size() ? *l.begin() : 0), list(true) {}
    ListV(std::initializer_list<u32> l, u32 b) : n(u32(l.size())), v(b), list(true) {}
    bool is(u32 a, u32 b, bool l) const { return (n == a) & (v == b) & (list == l); }
};
struct Agg3 { u32 a; u16 b; bool c; };
struct AggD { u32 a = 5; u32 b = 6; };
using O = opt::option<ListV>;
static O sym(const char* n) { O o; if (vp_fork_(vp_bool(n))) o.emplace(1u, 2u); return o; }
VP_HARNESS(C05, parens) {
    const u32 a = vp_u32("a"), b = vp_u32("b"), c = vp_u32("c");
    switch (vp_choice(9, "route")) {
    case 0: { O o(a, b); VP_CHECK(o.has_value() && o->is(a, b, false)); O p(a, b, c); VP_CHECK(p.has_value() && p->is(a + c, b, false)); break; }
    case 1: { O o(std::in_place, a, b); VP_CHECK(o.has_value() && o->is(a, b, false)); O p(std::in_place, a); VP_CHECK(p.has_value() && p->is(a, 1, false)); O q(std::in_place); VP_CHECK(q.has_value() && q->is(0, 0, false)); break; }
    case 2: { O o = sym("o"); ListV& r = o.emplace(a, b); VP_CHECK(&r == &*o && r.is(a, b, false)); o.emplace(a); VP_CHECK(o.has_value() && o->is(a, 1, false)); o.emplace(); VP_CHECK(o.has_value() && o->is(0, 0, false)); break; }
    case 3: { O o; ListV& r = o.try_emplace(a, b); VP_CHECK(&r == &*o && r.is(a, b, false)); o.try_emplace(b, c); VP_CHECK(r.is(a, b, false)); break; }
    case 4: { O o = opt::make_option<ListV>(a, b); VP_CHECK(o.has_value() && o->is(a, b, false)); break; }
    case 5: { O e; const O& ce = e; VP_CHECK(e.value_or_construct(a, b).is(a, b, false)); VP_CHECK(ce.value_or_construct(a).is(a, 1, false)); VP_CHECK(std::move(e).value_or_construct(a, b, c).is(a + c, b, false)); VP_CHECK(e.value_or_construct().is(0, 0, false)); break; }
    case 6: { O o(std::in_place, {a, b, c}); VP_CHECK(o.has_value() && o->is(3, a, true)); O p(std::in_place, {a, b}, c); VP_CHECK(p.has_value() && p->is(2, c, true)); break; }
    case 7: { O o = sym("o"); ListV& r = o.emplace(std::initializer_list<u32>{a, b, c}); VP_CHECK(&r == &*o && r.is(3, a, true)); o.emplace(std::initializer_list<u32>{a, b}, c); VP_CHECK(o.has_value() && o->is(2, c, true)); O e; VP_CHECK(e.value_or_construct({b, c}).is(2, b, true)); VP_CHECK(e.value_or_construct({b, c, a}, a).is(3, a, true)); break; }
    default: { O o = opt::make_option<ListV>({a, b}); VP_CHECK(o.has_value() && o->is(2, a, true)); O p = opt::make_option<ListV>({a, b, c}, b); VP_CHECK(p.has_value() && p->is(3, b, true)); break; }
    }
}
VP_HARNESS(C05, vector_parens) {
    const u32 v = vp_u32("v"); using OV = opt::option<Vec>;
    OV o(std::size_t(3), v); VP_CHECK(o.has_value() && o->size() == 3 && (*o)[0] == v && (*o)[2] == v);
    OV p(std::in_place, std::size_t(2), v); VP_CHECK(p.has_value() && p->size() == 2 && (*p)[1] == v);
    p.emplace(std::size_t(3), v + 1); VP_CHECK(p.has_value() && p->size() == 3 && (*p)[1] == v + 1);
    p.reset(); p.try_emplace(std::size_t(2), v); VP_CHECK(p.has_value() && p->size() == 2 && (*p)[0] == v);
    OV m = opt::make_option<Vec>(std::size_t(2), v); VP_CHECK(m.has_value() && m->size() == 2 && (*m)[0] == v);
    OV e; VP_CHECK(e.value_or_construct(std::size_t(2), v).size() == 2);
    opt::option<std::string> s(std::size_t(2), 'x'); VP_CHECK(s.has_value() && s->size() == 2 && (*s)[1] == 'x');
}
VP_HARNESS(C05, aggregates) {
    const u32 a = vp_u32("a"); const u16 b = vp_u16("b"); const bool c = vp_bool("c");
    auto ok = [&](const opt::option<Agg3>& o) { VP_CHECK(o.has_value() && o->a == a && o->b == b && o->c == c); };
    { opt::option<Agg3> o(a, b, c); ok(o); } { opt::option<Agg3> o(std::in_place, a, b, c); ok(o); } { opt::option<Agg3> o(Agg3{a, b, c}); ok(o); }
    { opt::option<Agg3> o; o.emplace(a, b, c); ok(o); o.emplace(~a, b, !c); VP_CHECK(o.has_value() && o->a == ~a && o->c == !c); o = Agg3{a, b, c}; ok(o); o.reset(); o.try_emplace(a, b, c); ok(o); }
    { ok(opt::make_option<Agg3>(a, b, c)); }
    { opt::option<Agg3> e; Agg3 v = e.value_or_construct(a, b, c); VP_CHECK(v.a == a && v.b == b && v.c == c); }
    { opt::option<AggD> o(std::in_place); VP_CHECK(o.has_value() && o->a == 5 && o->b == 6); o.emplace(a); VP_CHECK(o.has_value() && o->a == a && o->b == 6); o.emplace(); VP_CHECK(o.has_value() && o->a == 5 && o->b == 6); }
}
