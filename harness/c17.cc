// Registry equality against the reference, on registries built in different orders and with one change.
#include "regs.hh"
using namespace regs;
char const* g_prop = "C17";
void run_case(Rng& r, uint64_t)
{
    Defs a; Maker m(r, a); m.make(r.range(1, 9));
    Defs b = a; Maker n(r, b); n.mutate();
    Registry x, y, z;
    Builder(a, x).all(r);
    if (a.aliases.size() > 1 && r.chance(50)) std::swap(a.aliases[0], a.aliases.back());
    Builder(a, y).all(r); Builder(b, z).all(r);
    note("first registry:\n" + show(x)); note("in another order:\n" + show(y)); note("changed:\n" + show(z));
    CHECK(x.isSame(x), "a registry differs from itself");
    bool w = rsame(x, y);
    CHECK(x.isSame(y) == w && y.isSame(x) == w, "registries built in different orders: isSame is " << x.isSame(y) << " and " << y.isSame(x));
    w = rsame(x, z);
    bool g = x.isSame(z), h = z.isSame(x);
    CHECK(g == w && h == w, "after a change isSame is " << g << " and " << h << " instead of " << w);
    ++g_stats[w ? "same" : "different"];
    // one more, one fewer
    Registry e;
    CHECK(e.isSame(x) == (x.size() == 0) && x.isSame(e) == (x.size() == 0), "the empty registry");
}
