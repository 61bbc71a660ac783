// Merging and minimising against reference answers about the definitions on both sides.
#include "regs.hh"
using namespace regs;
char const* g_prop = "C15";
namespace {
typedef std::map<S, std::set<S>> Meta;
struct Snap { Type const* t; S text; Meta meta; S source; };
S show(Meta const& m) { S s; for (auto& k : m) { s += k.first + "={"; for (S const& v : k.second) s += v + " "; s += "} "; } return s; }
using regs::show;
std::map<S, Snap> snap(Registry const& r)
{
    std::map<S, Snap> m;
    for (RegistryIterator i = r.begin(); i != r.end(); ++i) { Snap s; s.t = &*i; s.text = show(*i); s.meta = i->getMetaData().get(); s.meta.erase("source_id"); s.source = i.getSource(); m[i.getName()] = s; }
    return m;
}
// every type a registered type refers to is registered as well
void inside(Registry const& r, S const& what)
{
    std::set<Type const*> own;
    for (RegistryIterator i = r.begin(); i != r.end(); ++i) own.insert(&*i);
    for (RegistryIterator i = r.begin(); i != r.end(); ++i)
        for (Type const* c : children(*i)) CHECK(own.count(c), what << ": " << i.getName() << " refers to a type that is not in the registry");
}
std::set<Type const*> reach(Type const& t)
{
    std::set<Type const*> s; std::vector<Type const*> q(1, &t);
    while (!q.empty()) { Type const* x = q.back(); q.pop_back(); if (s.insert(x).second) for (Type const* c : children(*x)) q.push_back(c); }
    return s;
}
// the part of the definitions that can be built on its own
bool known(Defs const& d, S n) { for (S b = base_of(n); !b.empty(); b = base_of(n)) n = b; if (n == "/std/string") return true; for (Def const& x : d.d) if (x.name == n) return true; return false; }
void cut(Defs& d)
{
    for (Def& x : d.d) for (size_t i = 0; i < x.fields.size(); ) if (known(d, x.fields[i].type)) ++i; else x.fields.erase(x.fields.begin() + i);
    for (size_t i = 0; i < d.derived.size(); ) if (known(d, d.derived[i])) ++i; else d.derived.erase(d.derived.begin() + i);
    for (size_t i = 0; i < d.aliases.size(); ) if (known(d, d.aliases[i].first)) ++i; else d.aliases.erase(d.aliases.begin() + i);
}
// pointers and arrays need not be listed: they are known when what they are made of is
bool auto_has(std::set<S> const& a, S n)
{
    for (;;) { if (a.count(n)) return true; if (n.back() != '*' && n.back() != ']') return false; n = base_of(n); }
}
// a container inside a value of the type
bool holds(Type const& t)
{
    switch (t.getCategory()) {
    case Type::Container: return true;
    case Type::Array: return static_cast<Array const&>(t).getDimension() != 0 && holds(static_cast<Array const&>(t).getIndirection());
    case Type::Compound: for (Field const& f : static_cast<Compound const&>(t).getFields()) if (holds(f.getType())) return true; return false;
    default: return false;
    }
}
// vectors know what their elements are made of
void vectors(Registry const& r)
{
    for (RegistryIterator i = r.begin(); i != r.end(); ++i)
        if (Vector const* v = dynamic_cast<Vector const*>(&*i))
            if (v->hasElementLayout()) { ++g_stats["vectors"]; CHECK(!v->isElementMemcpy() || !holds(v->getIndirection()), v->getName() << " copies its elements as plain memory"); }
}
void merge_case(Rng& r)
{
    Defs a; Maker m(r, a); m.make(r.range(1, 8));
    if (r.chance(40)) {
        // a compound that reaches a vector or an array of itself through a pointer
        std::vector<size_t> c; for (size_t i = 0; i < a.d.size(); ++i) if (a.d[i].kind == 'C') c.push_back(i);
        if (c.size() > 1) {
            size_t i = r.below(c.size() - 1), j = i + 1 + r.below(c.size() - i - 1);
            Def& x = a.d[c[i]]; Def& y = a.d[c[j]];
            x.fields.insert(x.fields.begin() + r.below(x.fields.size() + 1), { "u", y.name + "*", 0 });
            if (r.chance(60)) x.fields.push_back({ "v", "/std/string", 0 });
            y.fields.insert(y.fields.begin() + r.below(y.fields.size() + 1), { "w", r.chance(60) ? "/std/vector<" + x.name + ">" : x.name + "[3]", 0 });
        }
    }
    Defs b = a;
    if (r.chance(60)) { b.d.resize(r.range(0, b.d.size())); cut(b); }
    if (r.chance(20)) b.aliases.clear();
    if (r.chance(35) && !b.d.empty()) { Maker mb(r, b); mb.mutate(); cut(b); }
    if (r.chance(30)) { Maker mb(r, b); for (int i = r.range(1, 3); i > 0; --i) { Def d = mb.one(b.d.size()); if (!a.find(d.name)) b.d.push_back(d); } }
    if (r.chance(25) && !a.aliases.empty() && !b.aliases.empty()) {
        // a name of the target that stands for nearly the same definition as in the source
        auto& al = b.aliases[r.below(b.aliases.size())];
        Def* d = b.find(al.first);
        if (d) {
            Def x = *d; x.name = m.fresh();
            Defs one; one.d.push_back(x);
            if (r.chance(70)) { Maker mo(r, one); S keep = one.d[0].name; mo.mutate(); one.d[0].name = keep; }
            if (!a.find(x.name) && !b.find(x.name)) { b.d.push_back(one.d[0]); al.first = x.name; cut(b); }
        }
    }
    for (Def& d : b.d) { if (r.chance(15)) d.meta.push_back({ S(1, 'k' + r.below(3)), S(1, 'v' + r.below(4)) }); if (r.chance(20)) d.source = "other"; }
    std::unique_ptr<Registry> src(new Registry), dst(new Registry);
    Builder(a, *src).all(r);
    try { Builder(b, *dst).all(r); } catch (std::exception&) { return; }
    if (r.chance(30)) dst->setDefaultNamespace(r.pick(m.spaces));
    if (r.chance(15)) src->setDefaultNamespace(r.pick(m.spaces));
    note("source:\n" + show(*src)); note("target:\n" + show(*dst));
    auto s0 = snap(*src), d0 = snap(*dst);
    S clash;
    for (auto& e : s0) { auto f = d0.find(e.first); if (f != d0.end() && !req(*e.second.t, *f->second.t)) clash = e.first; }
    bool ok = true; S why;
    try { dst->merge(*src); } catch (DefinitionMismatch& e) { ok = false; why = e.what(); }
    CHECK(ok || !clash.empty(), "the registries are compatible and merging them is refused: " << why);
    CHECK(!ok || clash.empty(), "both registries define " << clash << " in different ways and merging them is not refused");
    note(ok ? "merged" : "refused");
    auto d1 = snap(*dst), s1 = snap(*src);
    CHECK(s1.size() == s0.size(), "the source changed");
    for (auto& e : s0) CHECK(s1.count(e.first) && s1[e.first].t == e.second.t && s1[e.first].text == e.second.text && s1[e.first].meta == e.second.meta && s1[e.first].source == e.second.source, e.first << " changed in the source");
    for (auto& e : d0) {
        CHECK(d1.count(e.first) && d1[e.first].t == e.second.t, "the target lost its " << e.first);
        CHECK(d1[e.first].text == e.second.text, "the target's " << e.first << " changed from " << e.second.text << " to " << d1[e.first].text);
        CHECK(e.second.source.empty() || d1[e.first].source == e.second.source, "the target's " << e.first << " comes from " << d1[e.first].source << " now");
    }
    inside(*dst, ok ? "after merging" : "after refusing to merge");
    if (ok) {
        for (auto& e : s0) {
            CHECK(d1.count(e.first), e.first << " of the source is not in the target");
            CHECK(req(*d1[e.first].t, *e.second.t), e.first << " is " << d1[e.first].text << " in the target and " << e.second.text << " in the source");
            CHECK(d1[e.first].t != e.second.t, e.first << " in the target is the source's own object");
            for (auto& k : e.second.meta) for (S const& v : k.second) CHECK(d1[e.first].meta[k.first].count(v), "metadata " << k.first << "=" << v << " of " << e.first << " is not in the target");
            if (!e.second.source.empty() && e.second.t->getName() == e.first) CHECK(!d1[d1[e.first].t->getName()].source.empty(), "the target does not know where " << e.first << " comes from");
            if (!d0.count(e.first)) CHECK(d1[e.first].t->getName() == (d0.count(e.second.t->getName()) ? d0[e.second.t->getName()].t->getName() : e.second.t->getName()) || d1[e.first].t->getName() != "", "name");
        }
        for (auto& e : d1) if (!d0.count(e.first) && !s0.count(e.first)) {
            // only another name for something that was merged or was there
            bool other = false;
            for (auto& o : d1) other = other || (o.second.t == e.second.t && (d0.count(o.first) || s0.count(o.first)));
            CHECK(other, e.first << " is in neither registry and the target has it now");
        }
        for (auto& e : d0) for (auto& k : d1[e.first].meta) for (S const& v : k.second) {
            bool from = e.second.meta.count(k.first) && e.second.meta.at(k.first).count(v);
            for (auto& o : s0) if (d1.count(o.first) && d1[o.first].t == e.second.t) from = from || (o.second.meta.count(k.first) && o.second.meta.at(k.first).count(v));
            CHECK(from, "metadata " << k.first << "=" << v << " of " << e.first << " comes from nowhere");
        }
        vectors(*dst);
        src.reset();
        for (auto& e : d1) CHECK(show(*dst->get(e.first)) == e.second.text, e.first << " changed when the source went away");
        ++g_stats["merged"];
    } else ++g_stats["refused"];
    g_stats["overlap"] += d0.size();
}
void minimal_case(Rng& r)
{
    Defs a; Maker m(r, a); m.make(r.range(1, 9));
    std::unique_ptr<Registry> src(new Registry); Builder(a, *src).all(r);
    note("registry:\n" + show(*src));
    auto s0 = snap(*src);
    std::vector<S> keys; for (auto& e : s0) keys.push_back(e.first);
    std::unique_ptr<Registry> res; std::set<Type const*> want; bool with; std::set<S> autos; bool one = r.chance(50), keepa = false;
    if (one) {
        S n = r.chance(92) ? r.pick(keys) : S("/nothing");
        with = r.chance(60);
        note("minimal " + n + (with ? " with aliases" : ""));
        try { res.reset(src->minimal(n, with)); } catch (std::runtime_error& e) { CHECK(!s0.count(n), "the minimal registry of " << n << " is refused: " << e.what()); return; }
        CHECK(s0.count(n), "there is a minimal registry of an unknown name");
        want = reach(*s0[n].t);
    } else {
        Defs b = a; b.d.resize(r.range(0, b.d.size())); cut(b);
        Registry au; Builder(b, au).all(r);
        note("without\n" + show(au));
        for (RegistryIterator i = au.begin(); i != au.end(); ++i) autos.insert(i.getName());
        keepa = r.chance(50);
        S clash;
        try { res.reset(src->minimal(au, keepa)); } catch (std::runtime_error& e) { FAIL("refused: " << e.what()); }
        for (auto& e : s0) if (e.second.t->getName() == e.first && !auto_has(autos, e.first)) { auto x = reach(*e.second.t); want.insert(x.begin(), x.end()); }
        with = true;
    }
    inside(*res, "in the minimal registry");
    auto d1 = snap(*res);
    for (Type const* t : want) {
        S n = t->getName();
        CHECK(d1.count(n), n << " is missing");
        CHECK(req(*d1[n].t, *t), n << " is " << d1[n].text << " instead of " << show(*t));
        CHECK(d1[n].meta == s0[n].meta, "metadata of " << n << " is " << show(d1[n].meta) << " instead of " << show(s0[n].meta));
        CHECK(d1[n].source == s0[n].source, "source of " << n << " is '" << d1[n].source << "' instead of '" << s0[n].source << "'");
    }
    for (auto& e : d1) {
        CHECK(s0.count(e.first), e.first << " comes from nowhere");
        CHECK(want.count(s0[e.first].t), e.first << " is not needed");
        CHECK(with || s0[e.first].t->getName() == e.first, e.first << " is an alias");
    }
    if (with) for (auto& e : s0) if (want.count(e.second.t) && e.second.t->getName() != e.first) {
        if (!one && !keepa && auto_has(autos, e.first)) continue;
        CHECK(d1.count(e.first), "the alias " << e.first << " is missing");
        CHECK(d1[e.first].t->getName() == e.second.t->getName(), "the alias " << e.first << " stands for " << d1[e.first].t->getName());
    }
    auto s1 = snap(*src);
    for (auto& e : s0) CHECK(s1.count(e.first) && s1[e.first].t == e.second.t && s1[e.first].text == e.second.text && s1[e.first].meta == e.second.meta, e.first << " changed in the registry itself");
    src.reset();
    for (auto& e : d1) CHECK(show(*res->get(e.first)) == e.second.text, e.first << " changed when the registry went away");
    ++g_stats["minimal"];
}
}
void run_case(Rng& r, uint64_t)
{
    containers();
    if (r.chance(70)) merge_case(r); else minimal_case(r);
}
