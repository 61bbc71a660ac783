// Reverse dependencies against a fixpoint over the registered types, and removal of exactly that set.
#include "regs.hh"
using namespace regs;
char const* g_prop = "C28";
static std::set<Type const*> closure(Registry const& reg, Type const& d)
{
    std::set<Type const*> s; s.insert(&d);
    for (bool more = true; more; ) {
        more = false;
        for (RegistryIterator i = reg.begin(); i != reg.end(); ++i) {
            if (s.count(&*i)) continue;
            for (Type const* c : children(*i)) if (s.count(c)) { s.insert(&*i); more = true; break; }
        }
    }
    return s;
}
static S names(std::set<Type const*> const& s) { std::set<S> n; for (Type const* t : s) n.insert(t->getName()); S r; for (S const& x : n) r += x + " "; return r; }
void run_case(Rng& r, uint64_t)
{
    Defs a; Maker m(r, a); m.make(r.range(1, 10));
    Registry x; Builder(a, x).all(r);
    if (r.chance(30)) x.setDefaultNamespace(r.pick(m.spaces));
    note("registry:\n" + show(x));
    int n = r.range(1, 3);
    for (int k = 0; k < n && x.size(); ++k) {
        std::vector<Type const*> all; std::vector<S> keys;
        for (RegistryIterator i = x.begin(); i != x.end(); ++i) { all.push_back(&*i); keys.push_back(i.getName()); }
        Registry const& cx = x;
        for (Type const* t : all) {
            std::set<Type const*> want = closure(x, *t), got = cx.reverseDepends(*t);
            CHECK(want == got, "depending on " << t->getName() << ": " << names(got) << " instead of " << names(want));
        }
        Type const* t = all[r.below(all.size())];
        std::set<Type const*> want = closure(x, *t);
        auto before = table(x);
        note("removing " + t->getName());
        S tn = t->getName();
        std::set<Type*> got = x.remove(*t);
        CHECK(std::set<Type const*>(got.begin(), got.end()) == want, "removing " << tn << " returns something else than the types that depend on it");
        auto after = table(x);
        for (auto& e : before) {
            bool gone = want.count(e.second);
            auto f = after.find(e.first);
            CHECK((f == after.end()) == gone, e.first << (gone ? " is still there" : " disappeared") << " after removing " << tn);
            CHECK(gone || f->second == e.second, e.first << " is bound to another type after removing " << tn);
            CHECK(x.get(e.first) == (gone ? (Type const*)0 : e.second), "looking up " << e.first << " after removing " << tn);
            CHECK(x.has(e.first, false) == !gone, "has " << e.first << " after removing " << tn);
        }
        CHECK(after.size() <= before.size() && x.size() == after.size(), "size after removing");
        g_stats["removed"] += got.size(); ++g_stats["removals"];
        for (Type* p : got) delete p;
    }
}
