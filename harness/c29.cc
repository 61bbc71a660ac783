// A minimal path against the lookup it is made for: its first name is searched from the namespace outwards.
#include "names.hh"
#include <typelib/typename.hh>
using namespace names;
using namespace Typelib;
char const* g_prop = "C29";
typedef std::vector<S> V;
static S join(V const& v) { S s = "/"; for (S const& x : v) s += x + "/"; return s; }
static bool prefix(V const& p, V const& v) { return p.size() <= v.size() && std::equal(p.begin(), p.end(), v.begin()); }
static void one(V const& tns, S const& base, V const& ns, bool slash)
{
    S full = join(tns) + base, n = join(ns);
    if (!slash && !ns.empty()) n.resize(n.size() - 1);
    if (ns.empty() && !slash) n = "";
    g_trace = full + " from " + n;
    if (n.empty()) return;
    S path = getMinimalPathTo(full, n);
    if (!path.empty() && path[0] == '/') { CHECK(path == join(tns), "the path to '" << full << "' from '" << n << "' is '" << path << "'"); ++g_stats["absolute"]; return; }
    if (path.empty()) { CHECK(tns == ns, "the path to '" << full << "' from '" << n << "' is empty"); ++g_stats["empty"]; return; }
    CHECK(path[path.size() - 1] == '/', "the path to '" << full << "' from '" << n << "' is '" << path << "'");
    V p = split(path);
    for (size_t e = ns.size() + 1; e-- > 0;) {
        V at(ns.begin(), ns.begin() + e); at.push_back(p[0]);
        if (!prefix(at, ns) && !prefix(at, tns)) continue;      // not known in this scope
        at.insert(at.end(), p.begin() + 1, p.end());
        CHECK(at == tns, "the path to '" << full << "' from '" << n << "' is '" << path << "', which leads to '" << join(at) << "'");
        ++g_stats[e == ns.size() ? "inside" : "relative"];
        return;
    }
    CHECK(false, "the path to '" << full << "' from '" << n << "' is '" << path << "', which leads nowhere");
}
void run_case(Rng& r, uint64_t index)
{
    static std::vector<S> few = { "A", "B", "AB", "BA" };
    for (int k = 0; k < 300; ++k) {
        bool wide = r.chance(20);
        auto comp = [&]() { return wide ? component(r, 1) : r.chance(5) ? S("V</A/B,/B>") : r.pick(few); };
        V t, n; for (int i = r.below(6); i > 0; --i) t.push_back(comp());
        if (r.chance(75)) n.assign(t.begin(), t.begin() + r.below(t.size() + 1));
        for (int i = r.below(4); i > 0; --i) n.push_back(r.chance(25) && !t.empty() ? r.pick(t) : comp());
        one(t, r.chance(70) ? r.pick(few) : comp(), n, r.chance(50));
    }
}
