// Type equality and castability against a reference bisimulation, on types of two related registries.
#include "regs.hh"
using namespace regs;
char const* g_prop = "C18";
namespace {
// "can be cast to": the size of compounds does not count, and enumerations may have more values
bool rcast(Type const& a, Type const& b, Pairs& p, Pairs& same)
{
    if (&a == &b || !p.insert({ &a, &b }).second) return true;
    if (a.getCategory() != b.getCategory()) return false;
    if (a.getCategory() == Type::Compound) {
        auto const& x = static_cast<Compound const&>(a).getFields(); auto const& y = static_cast<Compound const&>(b).getFields();
        if (x.size() != y.size()) return false;
        auto j = y.begin();
        for (Field const& f : x) { if (f.getName() != j->getName() || f.getOffset() != j->getOffset() || !rcast(f.getType(), j->getType(), p, same)) return false; ++j; }
        return true;
    }
    if (a.getSize() != b.getSize()) return false;
    if (a.getCategory() == Type::Pointer) return rcast(static_cast<Indirect const&>(a).getIndirection(), static_cast<Indirect const&>(b).getIndirection(), p, same);
    if (a.getCategory() == Type::Enum) {
        auto const& x = static_cast<Enum const&>(a).values(); auto const& y = static_cast<Enum const&>(b).values();
        for (auto& v : x) { auto j = y.find(v.first); if (j == y.end() || j->second != v.second) return false; }
        return true;
    }
    return req(a, b, same);
}
}
void run_case(Rng& r, uint64_t)
{
    Defs a; Maker m(r, a); m.make(r.range(2, 9));
    Defs b = a; Maker n(r, b); for (int i = r.below(3); i > 0; --i) n.mutate();
    Registry x, y;
    Builder(a, x).all(r); Builder(b, y).all(r);
    if (r.chance(25)) for (RegistryIterator i = y.begin(); i != y.end(); ++i)      // enums of another size
        if (i->getCategory() == Type::Enum && r.chance(50)) const_cast<Type&>(*i).setSize(r.pick(std::vector<int>{ 1, 2, 8 }));
    note("first registry:\n" + show(x)); note("second registry:\n" + show(y));
    std::vector<Type const*> ts;
    for (RegistryIterator i = x.begin(); i != x.end(); ++i) if (!i.isAlias()) ts.push_back(&*i);
    for (RegistryIterator i = y.begin(); i != y.end(); ++i) if (!i.isAlias()) ts.push_back(&*i);
    // copies of definitions under other names in the first registry
    for (Type const* s : ts) for (Type const* t : ts) {
        bool want = req(*s, *t), got = s->isSame(*t);
        CHECK(got == want, show(*s) << " and " << show(*t) << " are " << (got ? "the same" : "different"));
        if (got) CHECK(s->canCastTo(*t), show(*s) << " cannot be cast to the equal " << show(*t));
        Pairs p, q;
        bool casts = rcast(*s, *t, p, q);
        CHECK(s->canCastTo(*t) == casts, show(*s) << (casts ? " cannot be cast to " : " can be cast to ") << show(*t));
        if (casts && !want) ++g_stats["cast_to_others"];
        if (s->getCategory() == Type::Pointer || s->getCategory() == Type::Array) ++g_stats["indirect_pairs"];
        ++g_stats[want ? "equal_pairs" : "different_pairs"];
    }
    // fields
    for (Type const* s : ts) if (s->getCategory() == Type::Compound) for (Type const* t : ts) if (t->getCategory() == Type::Compound)
        for (Field const& f : static_cast<Compound const*>(s)->getFields()) for (Field const& g : static_cast<Compound const*>(t)->getFields())
            CHECK((f == g) == (f.getName() == g.getName() && f.getOffset() == g.getOffset() && req(f.getType(), g.getType())), "fields " << f.getName() << " of " << show(*s) << " and " << g.getName() << " of " << show(*t));
}
