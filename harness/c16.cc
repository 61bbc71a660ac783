// Resizing types against sizes and offsets computed from the definitions.
#include "regs.hh"
#include <typelib/value_ops.hh>
using namespace regs;
char const* g_prop = "C16";
namespace {
typedef std::map<S, size_t> Sizes;
struct Old { size_t size; std::vector<size_t> off; S text; };
std::map<Type const*, Old> old;
std::map<Type const*, size_t> asked, fresh;
void remember(Registry const& r)
{
    old.clear(); asked.clear(); fresh.clear();
    for (RegistryIterator i = r.begin(); i != r.end(); ++i) {
        Old o; o.size = i->getSize(); o.text = show(*i);
        if (Compound const* c = dynamic_cast<Compound const*>(&*i)) for (Field const& f : c->getFields()) o.off.push_back(f.getOffset());
        old[&*i] = o;
    }
}
// the size the type should have afterwards
size_t ns(Type const& t)
{
    auto f = fresh.find(&t); if (f != fresh.end()) return f->second;
    size_t s = old[&t].size;
    if (asked.count(&t)) s = asked[&t];
    else if (Array const* a = dynamic_cast<Array const*>(&t)) s = a->getDimension() * ns(a->getIndirection());
    else if (Compound const* c = dynamic_cast<Compound const*>(&t)) for (Field const& x : c->getFields()) s += ns(x.getType()) - old[&x.getType()].size;
    return fresh[&t] = s;
}
std::vector<size_t> offsets(Compound const& c)
{
    std::vector<size_t> v; size_t d = 0, i = 0;
    for (Field const& x : c.getFields()) { v.push_back(old[&c].off[i++] + d); d += ns(x.getType()) - old[&x.getType()].size; }
    return v;
}
// a value of the type by value depends on one of the given types
bool affected(Type const& t)
{
    if (asked.count(&t)) return true;
    if (t.getCategory() == Type::Array) return affected(static_cast<Array const&>(t).getIndirection());
    if (t.getCategory() == Type::Compound) for (Field const& f : static_cast<Compound const&>(t).getFields()) if (affected(f.getType())) return true;
    return false;
}
// which bytes are plain data (1), containers (2); false when the type has something else
bool paint(Type const& t, std::vector<char>& m, size_t o)
{
    switch (t.getCategory()) {
    case Type::Numeric: case Type::Enum: std::fill(m.begin() + o, m.begin() + o + t.getSize(), 1); return true;
    case Type::Container: if (static_cast<Container const&>(t).kind() != "/std/vector") return false;
        if (t.getSize() < sizeof(std::vector<char>)) return false;
        std::fill(m.begin() + o, m.begin() + o + t.getSize(), 2); return true;
    case Type::Array: { Array const& a = static_cast<Array const&>(t);
        for (size_t i = 0; i < a.getDimension(); ++i) if (!paint(a.getIndirection(), m, o + i * a.getIndirection().getSize())) return false;
        return true; }
    case Type::Compound: for (Field const& f : static_cast<Compound const&>(t).getFields()) if (!paint(f.getType(), m, o + f.getOffset())) return false;
        return true;
    default: return false;
    }
}
// what it is made of, directly or through containers, includes itself
bool loops(Type const& t)
{
    std::set<Type const*> seen; std::vector<Type const*> q = children(t);
    while (!q.empty()) { Type const* x = q.back(); q.pop_back(); if (!seen.insert(x).second || x->getCategory() == Type::Pointer) continue; if (x == &t) return true; for (Type const* y : children(*x)) q.push_back(y); }
    for (Type const* x : seen) if (x->getCategory() == Type::Container && x != &t && loops(*x)) return true;
    return false;
}
// something in it has no size: vectors of such elements cannot tell how many there are
bool empty(Type const& t)
{
    if (t.getCategory() == Type::Pointer) return false;
    if (!t.getSize()) return true;
    for (Type const* c : children(t)) if (empty(*c)) return true;
    return false;
}
// a vector copies its elements with the layout they have now
void copies(Rng& r, Vector const& v)
{
    Type const& e = v.getIndirection();
    size_t n = e.getSize(); if (!n || loops(v) || empty(e)) return;
    std::vector<char> m(n, 0);
    if (!v.hasElementLayout() || !paint(e, m, 0) || v.getSize() < sizeof(std::vector<char>)) return;
    std::vector<uint8_t> a(2 * n, 0), b;
    for (size_t i = 0; i < 2 * n; ++i) if (m[i % n] == 1) a[i] = r.below(256);
    v.copy(&b, &a);
    CHECK(b.size() == 2 * n, v.getName() << " copies " << b.size() << " bytes for two elements of " << n << " bytes");
    for (size_t i = 0; i < 2 * n; ++i) if (m[i % n] == 1) CHECK(a[i] == b[i], v.getName() << " does not copy byte " << i % n << " of element " << i / n << ", which are " << n << " bytes long now");
    ++g_stats["vectors"];
}
bool sound(Type const& t)   // a mix of sizes that can be resized consistently
{
    Compound const* c = dynamic_cast<Compound const*>(&t); if (!c) return true;
    size_t e = 0; for (Field const& f : c->getFields()) { if (f.getOffset() < e) return false; e = f.getOffset() + f.getType().getSize(); }
    return e <= c->getSize();
}
void one_resize(Rng& r, Registry& reg)
{
    remember(reg);
    std::map<S, Type const*> names = table(reg);
    std::vector<S> keys; for (auto& k : names) keys.push_back(k.first);
    // sizes for everything but compounds first, then for compounds that have room for their fields
    std::map<S, size_t> req; std::set<Type const*> comp;
    for (int i = r.range(1, 3); i > 0; --i) {
        S k = r.pick(keys); Type const& t = *names[k];
        if (t.getCategory() == Type::Array) continue;
        if (t.getCategory() == Type::Compound) { comp.insert(&t); continue; }
        size_t s = r.chance(20) ? old[&t].size : t.getCategory() == Type::Container ? sizeof(std::vector<char>) + r.below(40) : 1 + r.below(24);
        if (!asked.count(&t)) { asked[&t] = s; req[k] = s; }
    }
    if (r.chance(30)) for (auto& k : names) if (k.second->getCategory() == Type::Compound && r.chance(40)) { comp.insert(k.second); break; }
    for (bool more = true; more; ) {
        more = false;
        for (Type const* t : comp) {
            if (asked.count(t)) continue;
            // only once everything it holds is decided
            bool wait = false;
            for (Type const* o : comp) if (o != t && !asked.count(o)) {
                std::vector<Type const*> q = children(*t); std::set<Type const*> seen;
                while (!q.empty()) { Type const* x = q.back(); q.pop_back(); if (!seen.insert(x).second || x->getCategory() == Type::Pointer || x->getCategory() == Type::Container) continue; if (x == o) wait = true; for (Type const* y : children(*x)) q.push_back(y); }
            }
            if (wait) continue;
            fresh.clear();
            auto off = offsets(static_cast<Compound const&>(*t));
            size_t end = 0, i = 0;
            for (Field const& f : static_cast<Compound const&>(*t).getFields()) end = off[i++] + ns(f.getType());
            size_t s = end + r.below(12);
            S k = t->getName();
            if (r.chance(30)) for (auto& n : names) if (n.second == t && r.chance(50)) k = n.first;
            asked[t] = s; req[k] = s; more = true;
        }
    }
    fresh.clear();
    S text; for (auto& q : req) text += " " + q.first + "=" + str(q.second);
    bool bad = r.chance(8);
    if (bad) { S k = r.chance(50) ? "/nothing" : "/A/zz"; req[k] = 4; text += " " + k + "=4"; }
    note("resize" + text);
    for (auto& o : old) if (Vector const* v = dynamic_cast<Vector const*>(o.first)) if (r.chance(70) && !loops(*v)) v->hasElementLayout();
    bool thrown = false;
    try { reg.resize(req); } catch (Undefined&) { thrown = true; }
    CHECK(thrown == bad, (bad ? "an unknown type is resized" : "known types are not resized"));
    std::map<S, Type const*> after = table(reg);
    CHECK(after == names, "the names in the registry changed");
    for (auto& o : old) {
        Type const& t = *o.first;
        if (bad) { CHECK(show(t) == o.second.text, t.getName() << " changed although the resize was refused"); continue; }
        if (!affected(t)) { CHECK(show(t) == o.second.text, t.getName() << " does not depend on a resized type and changed from " << o.second.text << " to " << show(t)); ++g_stats["untouched"]; }
        CHECK(t.getSize() == ns(t), t.getName() << " has size " << t.getSize() << " instead of " << ns(t) << "; it was " << o.second.text << " and is " << show(t));
        if (Array const* a = dynamic_cast<Array const*>(&t)) CHECK(t.getSize() == a->getDimension() * a->getIndirection().getSize(), t.getName() << " has size " << t.getSize());
        if (Compound const* c = dynamic_cast<Compound const*>(&t)) {
            auto off = offsets(*c); size_t i = 0;
            for (Field const& f : c->getFields()) { CHECK(f.getOffset() == off[i], "field " << f.getName() << " of " << t.getName() << " is at " << f.getOffset() << " instead of " << off[i] << "; it was " << o.second.text << " and is " << show(t)); ++i; }
            CHECK(sound(t), t.getName() << " has overlapping fields: " << show(t));
        }
        if (affected(t)) ++g_stats["resized"];
    }
    if (bad) return;
    for (auto& o : old) if (Vector const* v = dynamic_cast<Vector const*>(o.first)) copies(r, *v);
}
}
void run_case(Rng& r, uint64_t)
{
    containers();
    Defs a; Maker m(r, a); m.make(r.range(1, 9));
    if (r.chance(40)) for (Def& d : a.d) if (d.kind == 'C' && r.chance(40)) d.fields.insert(d.fields.begin() + r.below(d.fields.size() + 1), { "u", r.chance(50) ? "/std/vector<" + d.name + ">" : d.name + "*", 0 });
    std::unique_ptr<Registry> reg(new Registry);
    Builder(a, *reg).all(r);
    note("registry:\n" + show(*reg));
    for (int i = r.range(1, 3); i > 0; --i) one_resize(r, *reg);
}
