#include "names.hh"
#include <typelib/typename.hh>
#include <typelib/typebuilder.hh>
#include <typelib/registry.hh>
#include <typelib/typemodel.hh>
using namespace names;
using namespace Typelib;
char const* g_prop = "C13";
typedef std::vector<std::pair<int, int> > Mods;      // category, size
static S show(Mods const& m) { S s; for (auto const& x : m) s += x.first == Type::Array ? "[" + str(x.second) + "]" : S("*"); return s; }
static Mods of(TypeBuilder::ModifierList const& l) { Mods m; for (auto const& x : l) m.push_back(std::make_pair((int)x.category, x.size)); return m; }
// reference: modifiers are read from the end
static bool ref(S const& n, S& base, Mods& m)
{
    int e = (int)n.size() - 1; m.clear();
    while (e > 0) {
        if (n[e] == '*') { m.insert(m.begin(), std::make_pair((int)Type::Pointer, 1)); --e; }
        else if (n[e] == ' ') --e;
        else if (n[e] == ']') {
            int b = e - 1; while (b >= 0 && n[b] >= '0' && n[b] <= '9') --b;
            if (b < 0 || n[b] != '[' || b + 1 == e) return false;
            long v = 0; for (int i = b + 1; i < e; ++i) { v = v * 10 + (n[i] - '0'); if (v > 2147483647L) return false; }
            m.insert(m.begin(), std::make_pair((int)Type::Array, (int)v)); e = b - 1;
        } else { base = n.substr(0, e + 1); return true; }
    }
    return false;
}
static void one(S const& n)
{
    g_trace = n;
    S h(n.data(), n.size()); h.shrink_to_fit();
    S base; Mods m; bool ok = ref(n, base, m);
    bool threw = false; TypeBuilder::ParsedTypename p;
    try { p = TypeBuilder::parseTypename(h); } catch (std::exception&) { threw = true; }
    CHECK(threw == !ok, "'" << n << "' is " << (threw ? "refused" : "parsed"));
    if (ok) {
        CHECK(p.first == base, "'" << n << "' has base '" << p.first << "' instead of '" << base << "'");
        CHECK(of(p.second) == m, "'" << n << "' has modifiers " << show(of(p.second)) << " instead of " << show(m));
        CHECK(TypeBuilder::getBaseTypename(h) == base, "base name of '" << n << "'");
    }
    ++g_stats[ok ? "parsed" : "refused"];
}
void run_case(Rng& r, uint64_t index)
{
    for (int k = 0; k < 60; ++k) one(any(r));
    for (int k = 0; k < 30; ++k) {
        S base = name(r, 2, true); while (base[base.size() - 1] == ' ') base.resize(base.size() - 1);
        if (base.size() < 2 || base[base.size() - 1] == '/') continue;
        S n = base; Mods m; int cnt = r.range(0, 5);
        for (int i = 0; i < cnt; ++i) {
            if (r.chance(50)) { n = Pointer::getPointerName(n); m.push_back(std::make_pair((int)Type::Pointer, 1)); }
            else { int d = r.chance(10) ? 2147483647 : r.chance(20) ? 0 : (int)r.below(5000); n = Array::getArrayName(n, d); m.push_back(std::make_pair((int)Type::Array, d)); }
        }
        g_trace = n;
        TypeBuilder::ParsedTypename p = TypeBuilder::parseTypename(n);
        CHECK(p.first == base && of(p.second) == m, "'" << n << "' parses to '" << p.first << "' and " << show(of(p.second)));
        if (r.chance(50)) one(mutate(r, n));
        ++g_stats["built"];
    }
    if (index % 4 == 0) {      // through the registry: building a derived type from its name
        Registry reg; S base = "/T<" + str(r.below(9)) + ">"; if (r.chance(50)) base = "/ns/base";
        reg.add(new Numeric(base, 1, Numeric::UInt));
        Type const* t = reg.get(base); S n = base; size_t sz = 1; std::vector<std::pair<int, int> > m; int cnt = r.range(1, 4);
        std::vector<S> pre;
        for (int i = 0; i < cnt; ++i) {
            if (r.chance(40)) { n += "*"; sz = sizeof(void*); m.push_back(std::make_pair((int)Type::Pointer, 1)); }
            else { int d = r.range(1, 9); n += "[" + str(d) + "]"; sz *= d; m.push_back(std::make_pair((int)Type::Array, d)); }
            pre.push_back(n);
        }
        if (r.chance(50)) reg.build(r.pick(pre));      // some of the types are there already
        g_trace = "build " + n;
        CHECK(reg.has(n), "derived type is not available");
        Type const* b = reg.build(n);
        CHECK(b && b->getName() == n && b->getSize() == sz, "built type is not '" << n << "' with " << sz << " bytes");
        for (size_t i = m.size(); i-- > 0;) {
            CHECK((int)b->getCategory() == m[i].first, "category of '" << b->getName() << "'");
            if (m[i].first == Type::Array) CHECK((int)static_cast<Array const*>(b)->getDimension() == m[i].second, "dimension of '" << b->getName() << "'");
            b = &static_cast<Indirect const*>(b)->getIndirection();
        }
        CHECK(b == t, "the base of '" << n << "' is not the registered type");
        CHECK(reg.build(n) == reg.get(n), "building twice gives another type");
        // dimensions added on the element's side of the ones that are there
        TypeBuilder tb(reg, b); S want = base; int e = r.range(0, 3); std::vector<int> dims;
        for (int i = 0; i < e; ++i) { dims.push_back(r.range(1, 9)); tb.addArrayMajor(dims.back()); }
        int inner = r.range(1, 9); tb.addArrayMinor(inner); dims.insert(dims.begin(), inner);
        for (int d : dims) want += "[" + str(d) + "]";
        CHECK(tb.getType().getName() == want, "an inner dimension gives '" << tb.getType().getName() << "' instead of '" << want << "'");
        ++g_stats["registry_builds"];
    }
}
