// configs: A B
// flags: -fno-exceptions
// bound: builds without exceptions, debug checks on: value and value_or_throw on an empty option report instead of continuing
#include "types.hpp"
using std::move;
template<class O> void reported(O& o) {
    const O& c = o; VP_CHECK(!o.has_value()); vp_no_leak_check(); const unsigned a = vp_choice(8, "a"); vp_expect_trap();
    switch (a) { case 0: (void)o.value(); break; case 1: (void)c.value(); break; case 2: (void)move(o).value(); break; case 3: (void)move(c).value(); break; case 4: (void)o.value_or_throw(); break; case 5: (void)c.value_or_throw(); break; case 6: (void)move(o).value_or_throw(); break; default: (void)move(c).value_or_throw(); }
    vp_assert_(0, "an empty option was accessed without any report");
}
VP_HARNESS(C16, noexc_int) { opt::option<int> o; if (vp_fork_(vp_bool("w"))) { o = int(vp_u32("x")); VP_CHECK(&o.value() == &*o && o.value_or_throw() == *o); o.reset(); } reported(o); }
VP_HARNESS(C16, noexc_bool) { opt::option<bool> o; if (vp_fork_(vp_bool("w"))) { o = vp_bool("x"); VP_CHECK(&o.value() == &*o && o.value_or_throw() == *o); o = opt::none; } reported(o); }
VP_HARNESS(C16, noexc_ref) { u32 x = 1; opt::option<u32&> o; if (vp_fork_(vp_bool("w"))) { o = x; VP_CHECK(&o.value() == &x); o.reset(); } reported(o); }
