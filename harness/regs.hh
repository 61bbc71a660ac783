// Random registries from abstract definitions, and reference answers about them.
#ifndef VERIF_REGS_HH
#define VERIF_REGS_HH
#include "common.hh"
#include <typelib/typemodel.hh>
#include <typelib/typebuilder.hh>
#include <typelib/typename.hh>
#include <typelib/registry.hh>
#include <typelib/registryiterator.hh>
#include <lang/csupport/containers.hh>

namespace regs {
using namespace Typelib;
typedef std::string S;
struct FDef { S name, type; size_t gap; };
struct Def {
    char kind;            // N numeric, E enum, C compound, O opaque, X null
    S name; size_t size; int cat; std::vector<std::pair<S, int>> vals; std::vector<FDef> fields;
    std::vector<std::pair<S, S>> meta; S source;
};
struct Defs {
    std::vector<Def> d;
    std::vector<S> derived;                       // pointer, array and container names to build as well
    std::vector<std::pair<S, S>> aliases;         // base, new name
    Def* find(S const& n) { for (Def& x : d) if (x.name == n) return &x; return 0; }
};
inline void containers()
{
    static bool done = false;
    if (!done) { Container::registerContainer("/std/vector", Vector::factory); Container::registerContainer("/std/string", String::factory); done = true; }
}
inline S base_of(S n)   // strips one modifier; empty when there is none
{
    if (n.back() == '*') return n.substr(0, n.size() - 1);
    if (n.back() == ']') return n.substr(0, n.rfind('['));
    if (n.compare(0, 12, "/std/vector<") == 0) return n.substr(12, n.size() - 13);
    return "";
}
struct Builder {
    Defs& defs; Registry& reg; std::map<S, Compound*> comps; std::set<S> complete, added;
    Builder(Defs& d, Registry& r) : defs(d), reg(r) { containers(); }
    void create(Def& d)
    {
        if (!added.insert(d.name).second) return;
        Type* t = 0;
        switch (d.kind) {
        case 'N': t = new Numeric(d.name, d.size, (Numeric::NumericCategory)d.cat); break;
        case 'E': { Enum* e = new Enum(d.name); for (auto& v : d.vals) e->add(v.first, v.second); t = e; break; }
        case 'O': t = new OpaqueType(d.name, d.size); break;
        case 'X': t = new NullType(d.name); break;
        case 'C': t = comps[d.name] = new Compound(d.name); break;
        }
        for (auto& m : d.meta) t->getMetaData().add(m.first, m.second);
        reg.add(t, d.source);
        if (d.kind != 'C') complete.insert(d.name);
    }
    // the type, complete when it is used by value
    Type const& need(S const& n, bool whole)
    {
        if (n == "/std/string") {
            Type const* t = reg.get(n);
            if (!t) { static Numeric any("/any", 1, Numeric::SInt); t = &Container::createContainer(reg, "/std/string", any); }
            return *t;
        }
        S b = base_of(n);
        if (b.empty()) {
            Def* d = defs.find(n);
            if (!d) throw std::runtime_error("definition of " + n);
            create(*d);
            if (whole) finish(*d);
            return *reg.get(n);
        }
        bool ptr = n.back() == '*';
        Type const& on = need(b, !ptr);
        if (Type const* t = reg.get(n)) return *t;
        if (n.back() == '>') return Container::createContainer(reg, "/std/vector", on);
        return *reg.build(n);
    }
    void finish(Def& d)
    {
        create(d);
        if (!complete.insert(d.name).second) return;
        Compound* c = comps[d.name];
        size_t o = 0;
        for (FDef& f : d.fields) {
            Type const& t = need(f.type, f.type.back() != '*');
            o += f.gap;
            c->addField(f.name, t, o);
            o += t.getSize();
        }
        if (d.size) c->setSize(c->getSize() + d.size);   // trailing padding
    }
    void all(Rng& r)
    {
        std::vector<int> ix; for (size_t i = 0; i < defs.d.size(); ++i) ix.push_back(i);
        for (size_t i = ix.size(); i > 1; --i) std::swap(ix[i - 1], ix[r.below(i)]);
        for (int i : ix) { if (r.chance(50)) create(defs.d[i]); else finish(defs.d[i]); }
        for (int i : ix) finish(defs.d[i]);
        for (S const& n : defs.derived) need(n, true);
        for (auto& a : defs.aliases) { need(a.first, true); reg.alias(a.first, a.second); }
    }
};
struct Maker {
    Rng& r; Defs& defs; std::vector<S> spaces; bool opq, null, cont, ptr;
    Maker(Rng& r, Defs& d) : r(r), defs(d), opq(true), null(true), cont(true), ptr(true) { spaces = { "/", "/", "/A/", "/A/B/", "/C/" }; }
    S fresh()
    {
        for (;;) {
            S n = r.pick(spaces) + S(1, (char)('a' + r.below(8)));
            if (r.chance(8)) n += "</x,3>";
            if (taken(n)) continue;
            return n;
        }
    }
    bool taken(S const& n) { if (defs.find(n)) return true; for (auto& a : defs.aliases) if (a.second == n) return true; return false; }
    // a type usable by value in a definition at position k, or behind a pointer
    S ref(size_t k, bool value)
    {
        S n;
        if (cont && r.chance(6)) n = "/std/string";
        else if (k > 0 && (value || r.chance(50))) n = defs.d[r.below(k)].name;
        else if (!defs.d.empty()) n = r.pick(defs.d).name;
        else return "";
        bool isval = n == "/std/string";
        for (size_t i = 0; i < k && i < defs.d.size(); ++i) if (defs.d[i].name == n) isval = true;
        Def* d = defs.find(n);
        if (d && d->kind == 'X') { if (!ptr) return ""; return n + "*"; }
        if (!isval) { if (!ptr) return ""; n += "*"; }
        else if (ptr && r.chance(15)) n += "*";
        while (r.chance(25)) n += "[" + str(r.chance(5) ? 0 : r.range(1, 4)) + "]";
        if (cont && r.chance(10) && n.back() != ']') n = "/std/vector<" + n + ">";
        if (ptr && r.chance(5)) n += "*";
        return n;
    }
    Def one(size_t k)
    {
        Def d; d.name = fresh(); d.size = 0; d.cat = 0;
        int w = r.range(0, 99);
        if (w < 25 || k == 0) { d.kind = 'N'; d.size = 1u << r.below(4); d.cat = Numeric::SInt + r.below(3); if (d.cat == Numeric::Float && d.size < 4) d.size = 4; }
        else if (w < 40) { d.kind = 'E'; std::set<int> used; int n = r.range(1, 4); for (int i = 0; i < n; ++i) { int v = r.range(-3, 6); if (used.insert(v).second) d.vals.push_back({ S(1, 'A' + i), v }); } }
        else if (w < 46 && opq) { d.kind = 'O'; d.size = r.range(0, 9); }
        else if (w < 50 && null) d.kind = 'X';
        else {
            d.kind = 'C';
            if (r.chance(12)) d.size = r.range(1, 4);
            int n = r.range(0, 4);
            for (int i = 0; i < n; ++i) {
                S t = ref(k, r.chance(75));
                if (t.empty()) continue;
                d.fields.push_back({ S(1, 'p' + i), t, r.chance(25) ? r.below(5) : 0 });
            }
        }
        if (r.chance(20)) d.meta.push_back({ S(1, 'k' + r.below(3)), S(1, 'v' + r.below(3)) });
        if (r.chance(20)) d.source = S("src") + str(r.below(3));
        return d;
    }
    void make(int n)
    {
        for (int i = 0; i < n; ++i) { Def d = one(defs.d.size()); defs.d.push_back(d); }
        // recursive compounds
        if (ptr) for (Def& d : defs.d) if (d.kind == 'C' && r.chance(30)) d.fields.push_back({ "z", r.pick(defs.d).name + "*" + (r.chance(20) ? "[2]" : ""), 0 });
        for (int i = r.below(4); i > 0; --i) { S t = ref(defs.d.size(), true); if (!t.empty()) defs.derived.push_back(t); }
        for (int i = r.below(4); i > 0; --i) {
            S b = r.chance(80) || defs.derived.empty() ? r.pick(defs.d).name : r.pick(defs.derived);
            S n = fresh();
            defs.aliases.push_back({ b, n });
        }
    }
    // changes one thing (or nothing that matters)
    void mutate()
    {
        int i = r.below(defs.d.size());
        Def& d = defs.d[i];
        int w = r.below(10);
        if (w == 0 && !defs.aliases.empty()) { defs.aliases.pop_back(); return; }
        if (w == 1) { Def n = one(defs.d.size()); defs.d.push_back(n); return; }
        if (w == 2) { S b = r.pick(defs.d).name; S n = fresh(); defs.aliases.push_back({ b, n }); return; }
        if (w == 3 && !defs.derived.empty()) { defs.derived.erase(defs.derived.begin() + r.below(defs.derived.size())); return; }
        if (d.kind == 'N') { if (r.chance(50)) d.size = d.size == 8 ? 4 : 8; else d.cat = d.cat == Numeric::SInt ? Numeric::UInt : Numeric::SInt; }
        else if (d.kind == 'E') { int k = r.below(3); if (k == 0) d.vals.push_back({ "Z", 77 }); else if (k == 1) d.vals.back().second = 99; else d.vals.back().first = "Y"; }
        else if (d.kind == 'O') ++d.size;
        else if (d.kind == 'C' && !d.fields.empty()) {
            FDef& f = d.fields[r.below(d.fields.size())];
            int k = r.below(5);
            if (k == 4) { d.size = d.size ? 0 : r.range(1, 4); return; }
            if (k == 0) f.name += "q"; else if (k == 1) ++f.gap; else if (k == 2) d.fields.pop_back(); else { S t = ref(i, true); if (!t.empty()) f.type = t; }
        }
        else if (d.kind == 'C') { S t = ref(i, true); if (!t.empty()) d.fields.push_back({ "n", t, 0 }); }
    }
};
// ---- reference answers
typedef std::set<std::pair<Type const*, Type const*>> Pairs;
inline bool req(Type const& a, Type const& b, Pairs& p)
{
    if (&a == &b || !p.insert({ &a, &b }).second) return true;
    if (a.getCategory() != b.getCategory() || a.getSize() != b.getSize()) return false;
    switch (a.getCategory()) {
    case Type::NullType: case Type::Opaque: return a.getName() == b.getName();
    case Type::Numeric: return static_cast<Numeric const&>(a).getNumericCategory() == static_cast<Numeric const&>(b).getNumericCategory();
    case Type::Enum: return static_cast<Enum const&>(a).values() == static_cast<Enum const&>(b).values();
    case Type::Array: if (static_cast<Array const&>(a).getDimension() != static_cast<Array const&>(b).getDimension()) return false;
        return req(static_cast<Indirect const&>(a).getIndirection(), static_cast<Indirect const&>(b).getIndirection(), p);
    case Type::Container: if (static_cast<Container const&>(a).kind() != static_cast<Container const&>(b).kind()) return false;
    case Type::Pointer: return req(static_cast<Indirect const&>(a).getIndirection(), static_cast<Indirect const&>(b).getIndirection(), p);
    case Type::Compound: {
        auto const& x = static_cast<Compound const&>(a).getFields(); auto const& y = static_cast<Compound const&>(b).getFields();
        if (x.size() != y.size()) return false;
        auto j = y.begin();
        for (Field const& f : x) { if (f.getName() != j->getName() || f.getOffset() != j->getOffset() || !req(f.getType(), j->getType(), p)) return false; ++j; }
        return true; }
    default: return false;
    }
}
inline bool req(Type const& a, Type const& b) { Pairs p; return req(a, b, p); }
inline std::vector<Type const*> children(Type const& t)
{
    std::vector<Type const*> r;
    switch (t.getCategory()) {
    case Type::Array: case Type::Container: case Type::Pointer: r.push_back(&static_cast<Indirect const&>(t).getIndirection()); break;
    case Type::Compound: for (Field const& f : static_cast<Compound const&>(t).getFields()) r.push_back(&f.getType()); break;
    default: break;
    }
    return r;
}
inline std::map<S, Type const*> table(Registry const& r) { std::map<S, Type const*> m; for (RegistryIterator i = r.begin(); i != r.end(); ++i) m[i.getName()] = &*i; return m; }
inline bool rsame(Registry const& a, Registry const& b)
{
    auto x = table(a), y = table(b);
    if (x.size() != y.size()) return false;
    for (auto& p : x) if (!y.count(p.first) || !req(*p.second, *y[p.first])) return false;
    return true;
}
inline S show(Type const& t)
{
    std::ostringstream o;
    o << t.getName() << " cat=" << t.getCategory() << " size=" << t.getSize();
    if (t.getCategory() == Type::Numeric) o << " num=" << static_cast<Numeric const&>(t).getNumericCategory();
    if (t.getCategory() == Type::Enum) for (auto& v : static_cast<Enum const&>(t).values()) o << " " << v.first << "=" << v.second;
    if (t.getCategory() == Type::Array) o << " dim=" << static_cast<Array const&>(t).getDimension();
    if (t.getCategory() == Type::Container) o << " kind=" << static_cast<Container const&>(t).kind();
    if (t.getCategory() == Type::Compound) for (Field const& f : static_cast<Compound const&>(t).getFields()) o << " " << f.getName() << "@" << f.getOffset() << ":" << f.getType().getName();
    else for (Type const* c : children(t)) o << " of " << c->getName();
    return o.str();
}
inline S show(Registry const& r)
{
    S s;
    for (RegistryIterator i = r.begin(); i != r.end(); ++i) s += i.getName() + (i.isAlias() ? " -> " + i->getName() : ": " + show(*i)) + (i.isPersistent() ? "" : " (derived)") + (i.getSource().empty() ? "" : " from " + i.getSource()) + "\n";
    return s;
}
}
#endif
