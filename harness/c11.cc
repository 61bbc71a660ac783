#include "names.hh"
#include <typelib/typename.hh>
using namespace names;
using namespace Typelib;
char const* g_prop = "C11";
static int key(char c) { return c == '/' ? -1000 : (int)c; }
static bool ref(S const& a, S const& b)
{
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (a[i] != b[i]) return key(a[i]) < key(b[i]);
    return a.size() < b.size();
}
static S near(Rng& r, S const& s) { S t = r.chance(50) ? mutate(r, s) : s + junk(r); if (r.chance(20) && !t.empty()) t[r.below(t.size())] = (char)r.range(1, 255); return t; }
void run_case(Rng& r, uint64_t)
{
    for (int k = 0; k < 40; ++k) {
        S a = any(r), b = r.chance(70) ? near(r, a) : any(r), c = r.chance(70) ? near(r, b) : any(r);
        if (r.chance(15)) b = a;
        g_trace = a + " | " + b + " | " + c;
        S v[3] = { a, b, c };
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
            bool lt = nameSort(v[i], v[j]);
            CHECK(lt == ref(v[i], v[j]), "order of '" << v[i] << "' and '" << v[j] << "' is " << lt);
            if (v[i] == v[j]) CHECK(!lt, "not irreflexive on '" << v[i] << "'");
            else CHECK(lt != nameSort(v[j], v[i]), "neither or both orders hold for '" << v[i] << "' and '" << v[j] << "'");
            for (int l = 0; l < 3; ++l) if (lt && nameSort(v[j], v[l])) CHECK(nameSort(v[i], v[l]), "not transitive on '" << v[i] << "' '" << v[j] << "' '" << v[l] << "'");
            ++g_stats["pairs"];
        }
    }
    // the content of a namespace is contiguous
    std::vector<S> l; for (int i = 0; i < 40; ++i) { S x = "/"; x += "AB a"[r.below(4)]; if (r.chance(60)) x += S("/") + "AB!z"[r.below(4)]; if (r.chance(40)) x += "!-+a"[r.below(4)]; l.push_back(x); }
    std::sort(l.begin(), l.end(), nameSort);
    for (size_t i = 0; i < l.size(); ++i) for (size_t p = 1; p <= l[i].size(); ++p) {
        if (l[i][p - 1] != '/') continue;
        S ns = l[i].substr(0, p); bool in = false, out = false;
        for (S const& x : l) { bool m = x.compare(0, p, ns) == 0; if (m && out) FAIL("the content of '" << ns << "' is not contiguous"); if (m) in = true; else if (in) out = true; }
    }
}
