// Random histories of Enum::add against a plain map.
#include "common.hh"
#include <typelib/typemodel.hh>
using namespace Typelib;
char const* g_prop = "C19";
typedef std::string S;
static void check(Enum const& e, std::map<S, int> const& m, std::vector<S> const& all, int last)
{
    CHECK(e.values() == m, "the symbol table differs from what was added");
    for (S const& n : all) {
        auto it = m.find(n);
        try { int v = e.get(n); CHECK(it != m.end() && v == it->second, "symbol '" << n << "' reads back as " << v); }
        catch (Enum::SymbolNotFound&) { CHECK(it == m.end(), "symbol '" << n << "' is not found"); }
    }
    std::set<int> vals;
    for (auto const& kv : m) { vals.insert(kv.second); vals.insert(kv.second + (kv.second < 2147483647)); }
    vals.insert(0); vals.insert(-1); vals.insert(2147483647); vals.insert(-2147483647 - 1);
    for (int v : vals) {
        bool there = false;
        for (auto const& kv : m) there = there || kv.second == v;
        try { S n = e.get(v); auto it = m.find(n); CHECK(it != m.end() && it->second == v, "value " << v << " reads back as '" << n << "'"); }
        catch (Enum::ValueNotFound&) { CHECK(!there, "value " << v << " is not found"); }
    }
    std::list<S> names = e.names();
    std::vector<S> want; for (auto const& kv : m) want.push_back(kv.first);
    CHECK(std::vector<S>(names.begin(), names.end()) == want, "names() differs");
    if (last < 2147483647) CHECK(e.getNextValue() == last + 1, "next value is " << e.getNextValue() << " instead of " << last + 1);
}
void run_case(Rng& r, uint64_t)
{
    int init = r.chance(50) ? 0 : r.range(-5, 5);
    Enum e("/E", init);
    CHECK(e.getSize() == 4 && e.getCategory() == Type::Enum, "size of enums");
    int last = init - 1;
    std::map<S, int> m;
    std::vector<S> all;
    int n = r.range(2, 20);
    for (int i = 0; i < n; ++i) all.push_back(S(r.chance(20) ? "" : r.chance(50) ? "A" : "b") + str(r.range(0, n)));
    all.push_back("");
    check(e, m, all, last);
    int steps = r.range(1, 30);
    for (int i = 0; i < steps; ++i) {
        S nm = r.pick(all);
        int v = r.chance(20) ? e.getNextValue() : r.chance(10) ? (r.chance(50) ? 2147483646 : -2147483647 - 1) : r.range(-3, 6);
        note("add '" + nm + "' = " + str(v));
        auto it = m.find(nm);
        bool ok = it == m.end() || it->second == v;
        try { e.add(nm, v); CHECK(ok, "symbol '" << nm << "' taken with another value was accepted"); m[nm] = v; last = v; }
        catch (Enum::AlreadyExists&) { CHECK(!ok, "adding '" << nm << "' = " << v << " was refused"); }
        check(e, m, all, last);
        ++g_stats["adds"];
    }
    // copies and comparison
    Enum c(e);
    CHECK(c.values() == m && c.isSame(e) && e.isSame(c), "a copy of an enum differs");
    c.add("another", 3);
    CHECK(!c.isSame(e) && !e.isSame(c), "enums with different symbols are the same");
}
