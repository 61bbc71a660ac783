// Random histories of metadata operations against a plain map of sets.
#include "common.hh"
#include <typelib/typemodel.hh>
using namespace Typelib;
char const* g_prop = "C22";
typedef std::string S;
typedef std::map<S, std::set<S>> M;
static std::vector<S> keys = { "", "a", "b", "doc", "source_file_line", "k k" }, vals = { "", "1", "2", "x<y", "/f.h:12", "1 " };
static void check(MetaData const& d, M const& m)
{
    CHECK(d.get() == m, "the stored map differs from what was added");
    for (S const& k : keys) {
        auto it = m.find(k);
        CHECK(d.include(k) == (it != m.end()), "include('" << k << "')");
        CHECK(d.get(k) == (it == m.end() ? std::set<S>() : it->second), "reading '" << k << "' gives something else");
    }
}
static std::set<S> some(Rng& r) { std::set<S> s; int n = r.range(0, 4); for (int i = 0; i < n; ++i) s.insert(r.pick(vals)); return s; }
static void step(Rng& r, MetaData& d, M& m)
{
    S k = r.pick(keys), v = r.pick(vals);
    switch (r.below(7)) {
    case 0: case 1: note("add " + k + " " + v); d.add(k, v); m[k].insert(v); break;
    case 2: { std::set<S> s = some(r); note("add " + k + " " + str(s.size()) + " values"); d.add(k, s); m[k].insert(s.begin(), s.end()); break; }
    case 3: note("set " + k + " " + v); d.set(k, v); m[k] = { v }; break;
    case 4: note("clear " + k); d.clear(k); m.erase(k); break;
    case 5: if (r.chance(15)) { note("clear all"); d.clear(); m.clear(); } break;
    default: {
        MetaData o; M om;
        for (int i = r.range(0, 6); i > 0; --i) { S k = r.pick(keys); if (r.chance(30)) { o.add(k, std::set<S>()); om[k]; } else { S v = r.pick(vals); o.add(k, v); om[k].insert(v); } }
        note("merge " + str(om.size()) + " keys");
        d.merge(o);
        for (auto const& kv : om) m[kv.first].insert(kv.second.begin(), kv.second.end());
        CHECK(o.get() == om, "merging changed the source");
    } }
    ++g_stats["operations"];
}
void run_case(Rng& r, uint64_t)
{
    MetaData d; M m;
    for (int i = 0; i < 25; ++i) { step(r, d, m); check(d, m); }
    // through types and fields
    Numeric n("/n", 4, Numeric::SInt), n2("/n", 4, Numeric::SInt);
    n.getMetaData().merge(d);
    M got = n.getMetaData().get();
    CHECK(got == m, "metadata of a type after merge");
    n2.getMetaData().add("a", "other");
    n2.mergeMetaData(n);
    m["a"].insert("other");
    check(n2.getMetaData(), m);
    for (S const& k : keys) CHECK(n2.getMetaData(k) == n2.getMetaData().get(k), "type metadata of a key");
    Compound c("/c"), c2("/c");
    c.addField("f", n, 0); c.addField("g", n, 4);
    c2.addField("f", n, 0); c2.addField("h", n, 4);
    M fm, fm2;
    MetaData& fd = c.getField("f")->getMetaData();
    MetaData& fd2 = c2.getField("f")->getMetaData();
    for (int i = 0; i < 6; ++i) { step(r, fd, fm); step(r, fd2, fm2); }
    c.mergeMetaData(c2);
    for (auto const& kv : fm2) fm[kv.first].insert(kv.second.begin(), kv.second.end());
    check(c.getField("f")->getMetaData(), fm);
    check(c.getField("g")->getMetaData(), M());
    // copies are independent
    Compound cc(c);
    cc.getField("f")->getMetaData().add("only", "here");
    check(c.getField("f")->getMetaData(), fm);
    MetaData dd(n2.getMetaData());
    dd.clear();
    check(n2.getMetaData(), m);
}
