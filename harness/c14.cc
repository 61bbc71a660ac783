// Histories of additions, aliases, removals and default namespaces against a table of absolute names.
#include "regs.hh"
using namespace regs;
char const* g_prop = "C14";
namespace {
// a type of the model, known by its own name
struct T { Type const* p; std::vector<S> deps; S tail; bool vec; };
struct Model {
    std::map<S, S> g; std::map<S, T> types; std::vector<S> ns;
    S space(size_t n) const { S s = "/"; for (size_t i = 0; i < n; ++i) s += ns[i] + "/"; return s; }
    S look(S const& k) const   // the type a name stands for, or nothing
    {
        if (k.empty()) return "";
        for (size_t n = ns.size(); n > 0; --n) if (g.count(space(n) + k)) return g.at(space(n) + k);
        if (g.count(k)) return g.at(k);
        if (g.count("/" + k)) return g.at("/" + k);
        return "";
    }
    std::vector<S> aliases(S const& t) const { std::vector<S> r; for (auto& e : g) if (e.second == t && e.first != t) r.push_back(e.first); return r; }
    void alias(S const& t, S const& n)
    {
        g.insert({ n, t });
        std::vector<S> trig;
        for (auto& e : g) if (e.first == e.second) for (S const& d : types[e.second].deps) if (d == t) { trig.push_back(e.second); break; }
        for (S const& x : trig) derived(x);
    }
    // names over the other names of what a type refers to
    void derived(S const& t)
    {
        T const& d = types[t];
        if (d.tail.empty() && !d.vec) return;
        for (S const& a : aliases(d.deps[0])) {
            S n = d.vec ? "/std/vector<" + a + ">" : a + d.tail;
            if (!g.count(n)) alias(t, n);
        }
    }
    void add(S const& t, T const& d)
    {
        types[t] = d; g[t] = t;
        for (S const& x : d.deps) if (!aliases(x).empty()) { derived(t); break; }
    }
    std::set<S> closure(S const& t) const
    {
        std::set<S> s; s.insert(t);
        for (bool more = true; more; ) { more = false; for (auto& e : g) if (!s.count(e.second)) for (S const& d : types.at(e.second).deps) if (s.count(d)) { s.insert(e.second); more = true; break; } }
        return s;
    }
};
struct Run {
    Rng& r; Registry reg; Model m; std::vector<S> pool;
    Run(Rng& r) : r(r)
    {
        for (char const* ns : { "/", "/A/", "/A/B/", "/A/A/", "/B/", "/A/B/C/" }) for (char const* b : { "a", "b", "A", "c", "B" }) pool.push_back(S(ns) + b);
        pool.push_back("/v</A/a,2>"); pool.push_back("/A/v</a>");
    }
    S bad() { static std::vector<S> b = { "", "a", "A/a", "/", "//a", "/a+b", "/A//a", "/a/", "/a-b", "/a</x", "/a[", "/a*]", "a*", "/A/a>" }; return r.pick(b); }
    S newname() { return r.chance(12) ? bad() : r.pick(pool); }
    S known() { if (m.g.empty()) return "/a"; auto i = m.g.begin(); std::advance(i, r.below(m.g.size())); return i->first; }
    // an absolute or relative way to name something
    S query() { S n = r.chance(80) ? known() : newname(); if (r.chance(50)) return n; for (int k = r.range(1, 3); k > 0; --k) { size_t p = n.find('/', n.empty() || n[0] != '/' ? 0 : 1); if (!n.empty() && n[0] == '/' && k == 1) return n.substr(1); if (p == S::npos) break; n = n.substr(p); } return n.empty() ? n : n.substr(1); }
    void absorb() { for (RegistryIterator i = reg.begin(); i != reg.end(); ++i) { auto t = m.types.find(i->getName()); if (t != m.types.end() && !t->second.p) t->second.p = &*i; } }
    void check(S const& what)
    {
        absorb();
        auto t = table(reg);
        for (auto& e : m.g) {
            CHECK(t.count(e.first), "after " << what << ": " << e.first << " is gone (it names " << e.second << ")");
            CHECK(t[e.first] == m.types[e.second].p, "after " << what << ": " << e.first << " is bound to " << t[e.first]->getName() << " instead of " << e.second);
        }
        for (auto& e : t) CHECK(m.g.count(e.first), "after " << what << ": " << e.first << " is bound to " << e.second->getName() << " and nobody bound it");
        CHECK(reg.size() == m.g.size(), "after " << what << ": size");
        std::set<S> q;
        for (auto& e : m.g) for (size_t p = 0; p < e.first.size(); ++p) if (e.first[p] == '/') { q.insert(e.first.substr(p)); q.insert(e.first.substr(p + 1)); }
        for (S const& n : pool) q.insert(n);
        q.insert(query()); q.insert(bad());
        for (S const& k : q) {
            S w = m.look(k);
            Type const* got = reg.get(k);
            CHECK(got == (w.empty() ? 0 : m.types[w].p), "after " << what << ": '" << k << "' finds " << (got ? got->getName() : S("nothing")) << " instead of " << (w.empty() ? S("nothing") : w) << ", namespace " << reg.getDefaultNamespace());
            CHECK(reg.has(k, false) == !w.empty(), "after " << what << ": has '" << k << "'");
        }
        CHECK(reg.getDefaultNamespace() == m.space(m.ns.size()) || (m.ns.empty()), "after " << what << ": the default namespace is " << reg.getDefaultNamespace());
        // what starts with a prefix
        for (int k = 0; k < 3; ++k) {
            S p = query(); p = p.substr(0, r.below(p.size() + 1));
            std::vector<S> want, got;
            for (RegistryIterator i = reg.begin(); i != reg.end(); ++i) if (i.getName().compare(0, p.size(), p) == 0) want.push_back(i.getName());
            RegistryIterator end = reg.end(p);
            for (RegistryIterator i = reg.begin(p); i != end && got.size() <= m.g.size(); ++i) got.push_back(i.getName());
            S a, b; for (S const& x : want) a += " " + x; for (S const& x : got) b += " " + x;
            CHECK(a == b, "after " << what << ": with the prefix '" << p << "' there are" << b << " instead of" << a);
        }
        ++g_stats["checks"];
    }
    bool valid(S const& n) { return std::find(pool.begin(), pool.end(), n) != pool.end(); }
    void step()
    {
        int w = r.below(100);
        S what;
        if (w < 20) {
            S n = newname();
            bool comp = r.chance(35) && !m.g.empty();
            std::unique_ptr<Type> t; T d; d.p = 0; d.vec = false;
            if (comp) { Compound* c = new Compound(n); t.reset(c); size_t o = 0; for (int i = r.range(1, 3); i > 0; --i) { Type const& f = *m.types[m.g[known()]].p; c->addField("f" + str(i), f, o); o += f.getSize(); d.deps.push_back(f.getName()); } }
            else t.reset(new Numeric(n, 4, Numeric::SInt));
            bool refused = !valid(n) || m.g.count(n);
            what = "adding " + n + (comp ? " (compound)" : "");
            note(what + (refused ? " (to be refused)" : ""));
            bool ok = true;
            try { if (r.chance(50)) reg.add(t.get(), "src"); else reg.add(t.get(), true, "src"); } catch (std::runtime_error&) { ok = false; }
            CHECK(ok == !refused, what << (refused ? " was not refused" : " was refused"));
            if (ok) { d.p = t.release(); m.add(n, d); ++g_stats["types"]; } else ++g_stats["refused"];
        } else if (w < 32 && !m.g.empty()) {
            S b = m.g[known()]; S k = query(); S base = r.chance(60) ? b : k;
            if (m.look(base).empty()) return;
            S n = base; S t = m.look(base);
            for (int i = r.range(1, 2); i > 0; --i) {
                S tail = r.chance(50) ? S("*") : "[" + str(r.range(1, 3)) + "]";
                n += tail;
                S nt = t + tail;
                if (!m.look(nt).empty()) { t = m.look(nt); continue; }
                T d; d.p = 0; d.vec = false; d.deps.push_back(t); d.tail = tail;
                t = nt; m.add(nt, d);
            }
            // the base is looked up under the full name
            what = "building " + n;
            if (n[0] != '/') { what += " as " + reg.getFullName(n); }
            note(what);
            Type const* x = reg.build(m.types[m.look(base)].p->getName() + n.substr(base.size()));
            absorb();
            CHECK(x && x == m.types[t].p, what << " gives " << (x ? x->getName() : S("nothing")) << " instead of " << t);
            ++g_stats["built"];
        } else if (w < 38 && !m.g.empty()) {
            S on = m.g[known()]; S n = "/std/vector<" + on + ">";
            what = "a vector of " + on;
            note(what);
            if (!m.g.count(n)) { T d; d.p = 0; d.vec = true; d.deps.push_back(on); m.add(n, d); }
            S w = m.g[n];
            Type const& x = Container::createContainer(reg, "/std/vector", *m.types[on].p);
            absorb();
            CHECK(&x == m.types[w].p, what << " is not what " << n << " names");
        } else if (w < 62) {
            S base = query(), n = r.chance(85) ? newname() : known();
            S b = m.look(base);
            bool okn = valid(n) || m.g.count(n);
            bool refused = b.empty() || !okn || (m.g.count(n) && m.g[n] != b);
            what = "naming '" + base + "' also '" + n + "'";
            note(what + (refused ? " (to be refused)" : ""));
            bool ok = true;
            try { if (r.chance(50)) reg.alias(base, n); else reg.alias(base, n, true, "s"); } catch (std::runtime_error&) { ok = false; }
            CHECK(ok == !refused, what << (refused ? " was not refused" : " was refused"));
            if (ok) { m.alias(b, n); ++g_stats["aliases"]; } else ++g_stats["refused"];
        } else if (w < 76) {
            S n = r.chance(70) ? known() : r.chance(50) ? query() : newname();
            bool refused = !m.g.count(n) || m.g[n] == n;
            what = "removing the alias " + n;
            note(what + (refused ? " (to be refused)" : ""));
            bool ok = true;
            try { reg.removeAlias(n); } catch (std::runtime_error&) { ok = false; }
            CHECK(ok == !refused, what << (refused ? " was not refused" : " was refused"));
            if (ok) m.g.erase(n);
        } else if (w < 79) {
            what = "clearing aliases"; note(what);
            reg.clearAliases();
            for (auto i = m.g.begin(); i != m.g.end(); ) if (i->first != i->second) m.g.erase(i++); else ++i;
        } else if (w < 85 && !m.g.empty()) {
            S t = m.g[known()];
            what = "removing " + t; note(what);
            std::set<S> c = m.closure(t);
            std::set<Type*> got = reg.remove(*const_cast<Type*>(m.types[t].p));
            CHECK(got.size() == c.size(), what << " gives " << got.size() << " types instead of " << c.size());
            for (Type* x : got) CHECK(c.count(x->getName()), what << " gives " << x->getName() << " as well");
            for (auto i = m.g.begin(); i != m.g.end(); ) if (c.count(i->second)) m.g.erase(i++); else ++i;
            for (S const& x : c) m.types.erase(x);
            for (Type* x : got) delete x;
            ++g_stats["removals"];
        } else if (w < 97) {
            static std::vector<std::vector<S>> c = { {}, { "A" }, { "A", "B" }, { "B" }, { "A", "A" }, { "A", "B", "C" }, { "zz" } };
            std::vector<S> const& n = r.pick(c);
            S s = "/"; for (S const& x : n) s += x + "/";
            if (r.chance(30) && s.size() > 1) s.erase(s.size() - 1);
            bool refused = r.chance(12);
            if (refused) s = r.chance(50) ? "/a+b/" : "/A/a-";
            what = "the namespace " + s; note(what);
            bool ok = reg.setDefaultNamespace(s);
            CHECK(ok == !refused, what << (refused ? " was not refused" : " was refused"));
            if (ok) m.ns = n;
        } else if (w < 98) { what = "clearing"; note(what); reg.clear(); m.g.clear(); m.types.clear(); }
        else return;
        check(what);
    }
};
}
void run_case(Rng& r, uint64_t)
{
    containers();
    Run x(r);
    for (int n = r.range(3, 25); n > 0; --n) x.step();
}
