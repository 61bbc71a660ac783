#include "names.hh"
#include <typelib/typename.hh>
using namespace names;
using namespace Typelib;
char const* g_prop = "C10";
static S normal(S const& n) { return n.empty() ? S("/") : n[n.size() - 1] == '/' ? n : n + "/"; }
static void split_case(S const& n)
{
    std::list<S> l = splitTypename(n);
    std::vector<S> got(l.begin(), l.end()), ref = split(n);
    S gs, rs; for (S const& x : got) gs += "(" + x + ")"; for (S const& x : ref) rs += "(" + x + ")";
    CHECK(got == ref, "splitting '" << n << "' gives " << gs << " instead of " << rs);
    S ns = getNamespace(n), b = getTypename(n);
    S rn = "/"; for (size_t i = 0; i + 1 < ref.size(); ++i) rn += ref[i] + "/";
    CHECK(ns == rn, "namespace of '" << n << "' is '" << ns << "' instead of '" << rn << "'");
    CHECK(ns[0] == '/' && ns[ns.size() - 1] == '/', "namespace '" << ns << "' does not start and end with the separator");
    CHECK(b == (ref.empty() ? S() : ref.back()), "basename of '" << n << "' is '" << b << "'");
    if (!n.empty() && n[0] == '/' && !ref.empty() && n[n.size() - 1] != '/') CHECK(ns + b == n, "'" << ns << "' + '" << b << "' does not give back '" << n << "'");
    CHECK(isAbsoluteName(n) == (!n.empty() && n[0] == '/'), "isAbsoluteName('" << n << "')");
    ++g_stats["names"];
}
static void ns_case(S const& type, S const& ns)
{
    S nn = normal(ns);
    CHECK(getNormalizedNamespace(ns) == nn, "normalised '" << ns << "' is '" << getNormalizedNamespace(ns) << "'");
    bool pre = type.compare(0, nn.size(), nn) == 0;
    CHECK(isInNamespace(type, ns, true) == pre, "'" << type << "' in namespace '" << ns << "' (recursive): " << !pre);
    bool direct = pre && split(type.substr(nn.size())).size() == 1;
    CHECK(isInNamespace(type, ns, false) == direct && isInNamespace(type, ns) == direct, "'" << type << "' directly in namespace '" << ns << "': " << !direct);
    if (pre) CHECK(getRelativeName(type, ns) == type.substr(nn.size()), "'" << type << "' relative to '" << ns << "' is '" << getRelativeName(type, ns) << "'");
    else { try { getRelativeName(type, ns); } catch (std::exception&) {} }
    ++g_stats["memberships"];
}
void run_case(Rng& r, uint64_t)
{
    for (int k = 0; k < 50; ++k) {
        S n = any(r);
        g_trace = n;
        split_case(n);
        S ns = any(r);
        if (r.chance(70)) {      // a prefix of the name, at or near a boundary
            std::vector<size_t> cuts;
            for (size_t i = 0; i < n.size(); ++i) if (n[i] == '/') cuts.push_back(i);
            if (!cuts.empty()) { size_t c = r.pick(cuts); ns = n.substr(0, c + r.below(2)); }
        }
        g_trace = n + " | " + ns;
        ns_case(n, ns);
        ns_case(ns, n);
    }
    // long names
    S l; for (int i = 0; i < 300; ++i) l += "/" + component(r, 2);
    split_case(l);
}
