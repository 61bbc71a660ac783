#include "names.hh"
#include <typelib/typename.hh>
using namespace names;
using namespace Typelib;
char const* g_prop = "C12";
static void one(S const& n)
{
    g_trace = n;
    // an exactly sized heap string, so that reading past the end is noticed
    S h(n.data(), n.size()); h.shrink_to_fit();
    for (int a = 0; a < 2; ++a) {
        bool ref = valid(n, a), got = isValidTypename(h, a);
        CHECK(got == ref, "'" << n << "' " << (a ? "as an absolute name " : "") << "is " << (got ? "accepted" : "rejected"));
        ++g_stats[ref ? "valid" : "invalid"];
    }
}
void run_case(Rng& r, uint64_t index)
{
    for (int k = 0; k < 100; ++k) one(any(r));
    // every short string over a small alphabet, a slice per case
    static char const al[] = "/<>[],*A1: -";
    const size_t B = sizeof al - 1;
    for (int k = 0; k < 400; ++k) {
        uint64_t x = index * 400 + k; S s = r.chance(50) ? "/A" : "/A<";
        while (x) { s += al[x % B]; x /= B; }
        one(s);
        if (r.chance(30)) one(s + ">");
        if (r.chance(30)) one(s.substr(1));
    }
    if (index % 50 == 0) { S d; int n = r.range(10, 200); for (int i = 0; i < n; ++i) d += "/A<"; d += "1"; for (int i = 0; i < n - (int)r.below(2); ++i) d += ">"; one(d); }
}
