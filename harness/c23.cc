// C23: what the native format exports is XML, and importing it gives the same registry.
#include "regs.hh"
#include <lang/tlb/export.hh>
#include <lang/tlb/import.hh>
#include <typelib/utilmm/configset.hh>
#include <typelib/pluginmanager.hh>
#include <typelib/plugins.hh>
#include <fstream>
#include <unistd.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
using namespace regs;
char const* g_prop = "C23";
namespace {
typedef std::map<S, std::set<S>> Meta;
S show(Meta const& m) { S s; for (auto& k : m) { s += k.first + "={"; for (S const& v : k.second) s += v + "|"; s += "} "; } return s; }
using regs::show;
S text(Rng& r, int least)
{
    static char const* const parts[] = { "a", "b", "x", "1", " ", "<", ">", "&", "\"", "'", "]", "]]", "]]>", "<![CDATA[", "&lt;", "&#13;", "\t", "\n", "\r", "\r\n", "--", "-->", "\xc3\xa9", "%", "/", "=", "\\" };
    S s;
    for (int n = r.range(least, 5); n > 0; --n) s += parts[r.below(r.chance(30) ? 5 : sizeof parts / sizeof *parts)];
    return s;
}
// in a type that reaches itself, or depends on one
bool recursive(Type const& t, std::set<Type const*>& on, std::map<Type const*, bool>& done)
{
    if (done.count(&t)) return done[&t];
    if (!on.insert(&t).second) return true;
    bool r = false;
    for (Type const* c : children(t)) r = r || recursive(*c, on, done);
    on.erase(&t);
    if (on.empty() || !r) done[&t] = r;
    return r;
}
void quiet(void*, char const*, ...) {}
// a directory of its own, removed at the end
struct Scratch {
    char dir[32];
    Scratch() { strcpy(dir, "/tmp/c23.XXXXXX"); if (!mkdtemp(dir)) abort(); }
    ~Scratch() { unlink(file().c_str()); rmdir(dir); }
    S file() const { return S(dir) + "/f"; }
};
// the formats as the plugin manager knows them
struct Plugins {
    PluginManager::self manager;
    Plugins() { manager->add(new GenericIOPlugin<TlbExport>("c23tlb")); manager->add(new GenericIOPlugin<TlbImport>("c23tlb")); }
};
Meta meta(MetaData const& m) { Meta r = m.get(); r.erase("source_id"); return r; }
}
void run_case(Rng& r, uint64_t)
{
    containers();
    Defs a; Maker m(r, a); m.ptr = r.chance(70); m.make(r.range(1, 8));
    bool odd = r.chance(70);
    for (Def& d : a.d) {
        if (odd) {
            std::set<S> used;
            for (FDef& f : d.fields) { S n = r.chance(50) ? f.name : text(r, 1); if (used.insert(n).second) f.name = n; else used.insert(f.name); }
            used.clear();
            for (auto& v : d.vals) { S n = r.chance(50) ? v.first : text(r, 1); if (used.insert(n).second && !used.count(v.first)) v.first = n; }
            for (auto& v : d.vals) if (r.chance(10)) v.second = r.chance(50) ? 2147483647 - r.below(3) : -2147483647 - 1 + (int)r.below(3);
            if (r.chance(40)) d.source = text(r, 1);
        }
        for (int n = r.below(3); n > 0; --n) d.meta.push_back({ odd ? text(r, 1) : S("key"), odd ? text(r, 0) : S("value") });
    }
    // far away fields, large numbers and opaques
    for (Def& d : a.d) {
        for (FDef& f : d.fields) if (r.chance(5)) f.gap = r.below(uint64_t(1) << r.range(4, 34));
        if (r.chance(5)) d.size = d.kind == 'C' || d.kind == 'O' ? r.below(uint64_t(1) << r.range(4, 34)) : d.size;
    }
    // names inside templates
    if (r.chance(40)) {
        for (Def& d : a.d) if (r.chance(30)) {
            if (d.name.back() == '>') continue;
            S n = d.name + (r.chance(50) ? "</x,3>/n" : "</A/b>"), was = d.name;
            if (m.taken(n)) continue;
            bool used = false;
            for (Def& x : a.d) for (FDef& f : x.fields) used = used || f.type.find(was) != S::npos;
            for (S const& x : a.derived) used = used || x.find(was) != S::npos;
            for (auto& x : a.aliases) used = used || x.first.find(was) != S::npos;
            if (!used) d.name = n;
        }
    }
    std::unique_ptr<Registry> src(new Registry);
    try { Builder(a, *src).all(r); } catch (BadCategory&) { return; }
    // what is imported has its fields in the normal order
    for (RegistryIterator i = src->begin(); i != src->end(); ++i) if (i->getCategory() == Type::Compound) static_cast<Compound&>(src->get_(*i)).normalizeFieldOrder();
    for (Def& d : a.d) if (d.kind == 'C') for (Field const& f : static_cast<Compound const&>(*src->get(d.name)).getFields())
        if (r.chance(25)) f.getMetaData().add(odd ? text(r, 1) : S("k"), odd ? text(r, 0) : S("v"));
    for (RegistryIterator i = src->begin(); i != src->end(); ++i) {
        if (r.chance(5)) i->getMetaData().add(text(r, 1), MetaData::Values());
        if (i->getCategory() == Type::Container && r.chance(20)) i->getMetaData().add("c", odd ? text(r, 0) : S("v"));
    }
    for (RegistryIterator i = src->begin(); i != src->end(); ++i) if (i->getCategory() == Type::Container && r.chance(15)) {
        bool in_array = false;
        for (RegistryIterator j = src->begin(); j != src->end(); ++j) in_array = in_array || (j->getCategory() == Type::Array && children(*j)[0] == &*i);
        if (!in_array) src->get_(*i).setSize(r.range(1, 70));
    }
    note("registry:\n" + show(*src));
    bool cyclic = false;
    for (RegistryIterator i = src->begin(); i != src->end(); ++i) { std::set<Type const*> on; std::map<Type const*, bool> done; cyclic = cyclic || recursive(*i, on, done); }
    utilmm::config_set config;
    static Plugins plugins;
    // 0: a stream, 1: a file, 2-4: the plugin manager
    int way = r.chance(50) ? 0 : r.range(1, 4);
    std::unique_ptr<Scratch> scratch;
    if (way == 1) scratch.reset(new Scratch);
    note(S("through ") + (way == 0 ? "a stream" : way == 1 ? "a file" : "the plugin manager") + "\n");
    std::ostringstream out;
    TlbExport ex;
    Exporter& exporter = ex;
    bool ok = true; S why, doc;
    try {
        if (way == 0) exporter.save(out, config, *src);
        else if (way == 1) {
            { std::ofstream old(scratch->file().c_str()); old << S(r.chance(50) ? 0 : r.below(20000), '>'); }
            exporter.save(scratch->file(), config, *src);
            std::ifstream f(scratch->file().c_str());
            out << f.rdbuf();
        }
        else if (way == 2) out << PluginManager::save("c23tlb", *src);
        else if (way == 3) out << PluginManager::save("c23tlb", config, *src);
        else PluginManager::save("c23tlb", *src, out);
        doc = out.str();
    } catch (ExportError& e) { ok = false; why = e.what(); }
    CHECK(ok || cyclic, "exporting is refused: " << why);
    CHECK(!ok || !cyclic, "a registry with a recursive type is exported");
    if (!ok) { ++g_stats["recursive"]; return; }
    note("exported:\n" + doc);
    if (way == 1) {
        // nothing of it can be written there
        for (S const& bad : { S("/dev/full"), S(scratch->dir), scratch->file() + "/g" }) {
            bool refused = false;
            try { TlbExport().Exporter::save(bad, config, *src); } catch (std::exception&) { refused = true; }
            CHECK(refused, "saving " << doc.size() << " bytes to " << (bad == "/dev/full" ? bad : bad == S(scratch->dir) ? "a directory" : "a file below a file") << " seems to work");
        }
        bool refused = false;
        try { Registry none; TlbImport().load(scratch->file() + "/g", config, none); } catch (std::exception&) { refused = true; }
        CHECK(refused, "importing a file which is not there seems to work");
    }
    // every persistent entry is there once
    xmlSetGenericErrorFunc(0, quiet);
    xmlDocPtr x = xmlReadMemory(doc.c_str(), doc.size(), "x", 0, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
    CHECK(x, "the exported text is not XML");
    std::map<S, int> seen, order;
    for (xmlNodePtr n = xmlFirstElementChild(xmlDocGetRootElement(x)); n; n = xmlNextElementSibling(n)) {
        xmlChar* at = xmlGetProp(n, (xmlChar const*)"name");
        S name = at ? (char const*)at : "?";
        ++seen[name]; order[name] = order.size(); xmlFree(at);
    }
    xmlFreeDoc(x);
    for (RegistryIterator i = src->begin(); i != src->end(); ++i) CHECK(seen[i.getName()] == (i.isPersistent() ? 1 : 0), i.getName() << " is exported " << seen[i.getName()] << " times");
    for (RegistryIterator i = src->begin(); i != src->end(); ++i) {
        if (!i.isPersistent()) continue;
        if (i.isAlias()) { CHECK(!order.count(i->getName()) || order[i->getName()] < order[i.getName()], i.getName() << " is exported before " << i->getName()); continue; }
        for (Type const* c : i->dependsOn()) CHECK(!order.count(c->getName()) || order[c->getName()] < order[i.getName()], i.getName() << " is exported before " << c->getName());
    }
    // and back
    std::unique_ptr<Registry> into(new Registry);
    TlbImport im;
    std::istringstream in(doc);
    try {
        if (way == 0) static_cast<Importer&>(im).load(in, config, *into);
        else if (way == 1) { if (r.chance(50)) static_cast<Importer&>(im).load(scratch->file(), config, *into); else PluginManager::load("c23tlb", scratch->file(), *into); }
        else if (way == 2) into.reset(PluginManager::load("c23tlb", in));
        else if (way == 3) PluginManager::load("c23tlb", in, *into);
        else PluginManager::load("c23tlb", in, config, *into);
    } catch (Violation&) { throw; } catch (std::exception& e) { FAIL("importing what was exported is refused: " << e.what()); }
    Registry& dst = *into;
    std::set<S> names; std::map<S, S> sources;
    for (RegistryIterator i = dst.begin(); i != dst.end(); ++i) sources[i.getName()] = i.getSource();
    for (RegistryIterator i = src->begin(); i != src->end(); ++i) {
        S n = i.getName();
        names.insert(n);
        Type const* t = i.isPersistent() ? dst.get(n) : dst.build(n);
        CHECK(t, n << " is not in the imported registry");
        CHECK(req(*i, *t), n << " is " << show(*t) << " in the imported registry instead of " << show(*i));
        if (!i.isPersistent()) continue;
        CHECK(t->getName() == i->getName(), n << " stands for " << t->getName() << " in the imported registry instead of " << i->getName());
        if (i.isAlias()) continue;
        CHECK(meta(i->getMetaData()) == meta(t->getMetaData()), "metadata of " << n << " is " << show(meta(t->getMetaData())) << " instead of " << show(meta(i->getMetaData())));
        if (i->getCategory() != Type::Container) CHECK(sources[n] == i.getSource(), "source of " << n << " is '" << sources[n] << "' instead of '" << i.getSource() << "'");
        if (i->getCategory() == Type::Compound) {
            auto j = static_cast<Compound const&>(*t).getFields().begin();
            for (Field const& f : static_cast<Compound const&>(*i).getFields()) {
                CHECK(meta(f.getMetaData()) == meta(j->getMetaData()), "metadata of " << n << "." << f.getName() << " is " << show(meta(j->getMetaData())) << " instead of " << show(meta(f.getMetaData())));
                ++j;
            }
        }
    }
    for (RegistryIterator i = dst.begin(); i != dst.end(); ++i) CHECK(names.count(i.getName()) || (!i.isPersistent() && src->build(i.getName())), i.getName() << " is only in the imported registry");
    ++g_stats["exported"]; g_stats["types"] += names.size(); g_stats["bytes"] += doc.size();
}
