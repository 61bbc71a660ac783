// C25: an IDL export declares every expressible type once, after what it uses, in its module; the rest is refused or skipped.
#include "regs.hh"
#include <lang/idl/export.hh>
#include <typelib/utilmm/configset.hh>
#include <typelib/typevisitor.hh>
#include <algorithm>
using namespace regs;
char const* g_prop = "C25";
namespace {
typedef std::vector<S> V;
struct Decl { S kind, name, module, what; V fields; };   // what: canonical type of a typedef; fields: "name canonical" or symbols
S trim_(S n) { while (!n.empty() && n[0] == '_') { n.erase(0, 1); break; } return n; }
S norm(S n) { for (char& c : n) if (c == '<' || c == '>' || c == '/' || c == ',') c = '_'; return trim_(n); }
V split(S const& ns) { V r; S s; for (char c : ns + "/") if (c == '/') { if (!s.empty()) r.push_back(s); s.clear(); } else s += c; return r; }
struct Options { S prefix, suffix; int blob; bool any; std::set<S> selected; };
Options g_o;
S module_of(S const& ns) { S r; for (S const& s : split(g_o.prefix + "/" + ns + "/" + g_o.suffix)) r += "::" + norm(s); return r; }
struct Parser {
    V tok; size_t at; std::vector<Decl> out; std::map<S, Decl> by; std::set<S> containers; S module;
    Parser(S const& text) : at(0)
    {
        for (size_t i = 0; i < text.size();) {
            char c = text[i];
            if (isspace((unsigned char)c)) { ++i; continue; }
            if (isalnum((unsigned char)c) || c == '_') { size_t j = i; while (j < text.size() && (isalnum((unsigned char)text[j]) || text[j] == '_')) ++j; tok.push_back(text.substr(i, j - i)); i = j; continue; }
            if (c == ':') { CHECK(i + 1 < text.size() && text[i + 1] == ':', "stray ':' in the exported text"); tok.push_back("::"); i += 2; continue; }
            CHECK(strchr("{};<>[],", c), "stray '" << c << "' in the exported text");
            tok.push_back(S(1, c)); ++i;
        }
    }
    S peek() { return at < tok.size() ? tok[at] : S(); }
    S next() { CHECK(at < tok.size(), "the exported text ends early"); return tok[at++]; }
    void want(S const& s) { S g = next(); CHECK(g == s, "'" << g << "' where '" << s << "' must be"); }
    S id() { S g = next(); CHECK(isalpha((unsigned char)g[0]) || g[0] == '_', "'" << g << "' where a name must be"); return g; }
    S type()
    {
        S g = next();
        if (g == "sequence") { want("<"); S e = type(); want(">"); return "sequence<" + e + ">"; }
        if (g == "::") {
            S n = "::" + id();
            while (peek() == "::") { ++at; n += "::" + id(); }
            auto i = by.find(n);
            if (i == by.end()) { CHECK(!g_o.selected.empty(), n << " is used before it is declared"); return "?"; }
            return i->second.kind == "typedef" && i->second.what.compare(0, 8, "sequence") == 0 && i->second.what != "sequence<octet>" ? i->second.what : i->second.what == "sequence<octet>" ? "?" + n : n;
        }
        if (g == "unsigned") { S h = next(); CHECK(h == "short" || h == "long", "'unsigned " << h << "' is no type"); g += " " + h; if (h == "long" && peek() == "long") { ++at; g += " long"; } return g; }
        if (g == "long" && peek() == "long") { ++at; return "long long"; }
        CHECK(g == "octet" || g == "boolean" || g == "short" || g == "long" || g == "float" || g == "double" || g == "string" || g == "any", "'" << g << "' where a type must be");
        return g;
    }
    S member(S& what)   // declarator
    {
        S n = id();
        if (peek() == "[") { ++at; S d = next(); CHECK(d.find_first_not_of("0123456789") == S::npos, "'" << d << "' where a dimension must be"); want("]"); what += "[" + d + "]"; }
        return n;
    }
    void declare(Decl d)
    {
        d.module = module;
        S full = module + "::" + d.name;
        CHECK(!by.count(full), full << " is declared twice");
        by[full] = d; out.push_back(d);
    }
    void defs(bool top)
    {
        size_t n = 0;
        for (;; ++n) {
            if (top ? at == tok.size() : peek() == "}") break;
            S k = next(); Decl d; d.kind = k;
            if (k == "module") { S was = module; module += "::" + id(); want("{"); defs(false); want("}"); want(";"); module = was; continue; }
            if (k == "struct") {
                d.name = id(); want("{");
                while (peek() != "}") { S t = type(); S n = member(t); d.fields.push_back(n + " " + t); want(";"); }
                want("}"); want(";");
            } else if (k == "enum") {
                d.name = id(); want("{"); d.fields.push_back(id());
                while (peek() == ",") { ++at; d.fields.push_back(id()); }
                want("}"); want(";");
                std::sort(d.fields.begin(), d.fields.end());
            } else { CHECK(k == "typedef", "'" << k << "' where a declaration must be"); d.what = type(); d.name = member(d.what); want(";"); }
            declare(d);
        }
        CHECK(top || n, "module " << module << " is empty");
    }
};
bool is_string(Type const& t) { return t.getCategory() == Type::Container && t.getName() == "/std/string"; }
Type const& of(Type const& t) { return static_cast<Indirect const&>(t).getIndirection(); }
bool big(Type const& t) { return g_o.blob && t.getCategory() != Type::Numeric && t.getCategory() != Type::Container && (int)t.getSize() > g_o.blob; }
bool ref_ok(Type const& t)
{
    switch (t.getCategory()) {
    case Type::Numeric: return t.getName() == "/bool" || static_cast<Numeric const&>(t).getNumericCategory() == Numeric::Float || t.getSize() == 1 || t.getSize() == 2 || t.getSize() == 4 || t.getSize() == 8;
    case Type::Enum: case Type::Compound: return true;
    case Type::Opaque: return g_o.any;
    case Type::Container: return is_string(t) || (of(t).getCategory() != Type::Array && ref_ok(of(t)));
    case Type::Array: return of(t).getCategory() != Type::Array && ref_ok(of(t));
    default: return false;
    }
}
bool struct_of(RegistryIterator const& i)
{
    S a = i.getBasename(), b = i->getBasename();
    return i.getNamespace() == i->getNamespace() && (b == "struct " + a || b == "enum " + a || a == "struct " + b || a == "enum " + b);
}
bool entry_ok(RegistryIterator const& i)
{
    Type const& t = *i;
    if (i.isAlias()) {
        if (struct_of(i)) return true;
        if (t.getCategory() == Type::Pointer) return false;
        if (t.getCategory() == Type::Array && (of(t).getCategory() == Type::Array || of(t).getCategory() == Type::Pointer)) return false;
        if (t.getCategory() == Type::Container && of(t).getCategory() == Type::Array) return false;
        if (i.getBasename().find_first_of("/<>") != S::npos || t.getCategory() == Type::Opaque) return true;
        if (t.getCategory() == Type::Array || (t.getCategory() == Type::Container && !is_string(t))) return ref_ok(of(t));
        return ref_ok(t);
    }
    if (big(t)) return true;
    if (t.getCategory() == Type::Numeric) return true;
    if (t.getCategory() == Type::Compound) { for (Field const& f : static_cast<Compound const&>(t).getFields()) if (!ref_ok(f.getType())) return false; return true; }
    return ref_ok(t);
}
bool g_blobs;
S canon(Type const& t)
{
    switch (t.getCategory()) {
    case Type::Numeric: {
        if (t.getName() == "/bool") return "boolean";
        int c = static_cast<Numeric const&>(t).getNumericCategory(), s = t.getSize();
        if (c == Numeric::Float) return s == 4 ? "float" : "double";
        if (s == 1) return "octet";
        return S(c == Numeric::UInt ? "unsigned " : "") + (s == 2 ? "short" : s == 4 ? "long" : "long long"); }
    case Type::Opaque: return "any";
    case Type::Container: return is_string(t) ? "string" : "sequence<" + canon(of(t)) + ">";
    case Type::Array: return canon(of(t)) + "[" + str(static_cast<Array const&>(t).getDimension()) + "]";
    default: { S n = module_of(t.getNamespace()) + "::" + norm(t.getBasename()); if (!g_o.selected.empty() && !g_o.selected.count(t.getName())) return "?"; return big(t) ? "?" + n : n; }
    }
}
// the module in which the typedef of a container is
S container_module(Type const& t)
{
    Type const& e = of(t);
    switch (e.getCategory()) {
    case Type::Container: return is_string(e) ? module_of("/") : container_module(e);
    case Type::Enum: case Type::Compound: return module_of(e.getNamespace());
    default: return module_of("/");
    }
}
bool same(S const& a, S const& b)   // '?' stands for something that was left out
{
    return a == b || a.find('?') != S::npos || (b.find('?') != S::npos && !g_o.selected.empty());
}
bool recursive(Type const& t, std::set<Type const*>& on)
{
    if (!on.insert(&t).second) return true;
    bool r = false;
    for (Type const* c : children(t)) r = r || recursive(*c, on);
    on.erase(&t);
    return r;
}
void set_all(utilmm::config_set& c)
{
    if (!g_o.prefix.empty()) c.set("namespace_prefix", g_o.prefix);
    if (!g_o.suffix.empty()) c.set("namespace_suffix", g_o.suffix);
    if (g_o.blob) c.set("blob_threshold", str(g_o.blob));
    if (g_o.any) c.set("opaque_as_any", "true");
    if (!g_o.selected.empty()) c.set("selected", std::list<S>(g_o.selected.begin(), g_o.selected.end()));
}
}
void run_case(Rng& r, uint64_t)
{
    regs::containers();
    Defs a; Maker m(r, a); m.ptr = r.chance(10); m.null = r.chance(5); m.opq = r.chance(50); m.make(r.range(1, 8));
    for (Def& d : a.d) {
        if (d.kind == 'E' && r.chance(30)) d.vals.push_back({ "_u", 50 });
        if (d.kind == 'N' && d.cat != Numeric::Float && r.chance(3)) d.size = 3;
        if (d.kind == 'C' && !r.chance(5)) {
            std::vector<FDef> keep;
            for (FDef& f : d.fields) {
                // what IDL does not have is rare, so that most registries are exported
                if (f.type.find("][") != S::npos || f.type.find("]>") != S::npos) if (!r.chance(2)) continue;
                if (r.chance(8)) f.name = "_" + f.name;
                keep.push_back(f);
            }
            d.fields = keep;
        }
    }
    if (!r.chance(5)) { V keep; for (S const& x : a.derived) if (x.find("]>") == S::npos) keep.push_back(x); a.derived = keep;
        std::vector<std::pair<S, S>> al; for (auto& x : a.aliases) if (x.first.find("][") == S::npos && x.first.find("]>") == S::npos) al.push_back(x); a.aliases = al; }
    std::unique_ptr<Registry> src(new Registry);
    try { Builder(a, *src).all(r); } catch (BadCategory&) { return; }
    g_o = Options{ "", "", 0, false, {} };
    if (r.chance(30)) g_o.prefix = r.chance(50) ? "/P" : r.chance(50) ? "P/Q" : "/P/Q";
    if (r.chance(30)) g_o.suffix = r.chance(50) ? "T" : "T/U/";
    if (r.chance(25)) g_o.blob = r.range(1, 40);
    g_o.any = r.chance(60);
    V names;
    for (RegistryIterator i = src->begin(); i != src->end(); ++i) names.push_back(i.getName());
    if (r.chance(20)) for (S const& n : names) if (r.chance(60)) g_o.selected.insert(n);
    if (r.chance(5)) g_o.selected.insert("/not/there");
    note("registry:\n" + show(*src) + "prefix " + g_o.prefix + " suffix " + g_o.suffix + " blob " + str(g_o.blob) + " any " + str(g_o.any) + " selected " + str(g_o.selected.size()) + [] { S s; for (S const& n : g_o.selected) s += " " + n; return s; }());
    bool cyclic = false; S refused;
    for (RegistryIterator i = src->begin(); i != src->end(); ++i) {
        std::set<Type const*> on; cyclic = cyclic || recursive(*i, on);
        if (i.isPersistent() && (g_o.selected.empty() || g_o.selected.count(i->getName())) && !entry_ok(i)) refused = i.getName();
    }
    utilmm::config_set config; set_all(config);
    IDLExport ex;
    if (r.chance(15)) {   // the exporter was used before
        utilmm::config_set other; Options was = g_o; g_o.any = !g_o.any; g_o.selected.clear(); set_all(other); g_o = was;
        std::ostringstream o; try { static_cast<Exporter&>(ex).save(o, other, *src); } catch (std::exception&) {}
    }
    std::ostringstream out;
    bool ok = true; S why;
    try { static_cast<Exporter&>(ex).save(out, config, *src); }
    catch (UnsupportedType& e) { ok = false; why = e.what(); }
    catch (NullTypeFound& e) { ok = false; why = "null type"; }
    catch (ExportError& e) { ok = false; why = e.what(); CHECK(cyclic, "exporting is refused: " << why); }
    CHECK(!ok || !cyclic, "a registry with a recursive type is exported");
    CHECK(!ok || refused.empty(), refused << " is exported though IDL cannot express it:\n" << out.str());
    CHECK(ok || cyclic || !refused.empty(), "exporting is refused: " << why);
    if (!ok) { ++g_stats["refused"]; return; }
    S doc = out.str();
    note("exported:\n" + doc);
    Parser p(doc); p.defs(true);
    // every declaration is the one of an entry
    size_t found = 0; std::map<S, int> want;
    std::set<S> named;
    for (RegistryIterator i = src->begin(); i != src->end(); ++i) {
        Type const& t = *i;
        if (!i.isPersistent() || (!g_o.selected.empty() && !g_o.selected.count(t.getName()))) continue;
        S full = module_of(i.getNamespace()) + "::" + norm(i.getBasename());
        Decl const* d = p.by.count(full) ? &p.by[full] : 0;
        if (i.isAlias()) {
            if (struct_of(i) || i.getBasename().find_first_of("/<> ") != S::npos || (t.getCategory() == Type::Opaque && !g_o.any)) continue;
            CHECK(d, i.getName() << " is not declared as " << full);
            ++found; named.insert(full);
            CHECK(d->kind == "typedef" && same(d->what, canon(t)), i.getName() << " is declared as " << d->kind << " " << d->what << " instead of " << canon(t));
        } else if (big(t) || t.getCategory() == Type::Compound || t.getCategory() == Type::Enum) {
            CHECK(d, i.getName() << " is not declared as " << full);
            ++found; named.insert(full);
            if (big(t)) { CHECK(d->kind == "typedef" && d->what == "sequence<octet>", i.getName() << " is not declared as a blob"); continue; }
            V f;
            if (t.getCategory() == Type::Enum) { for (auto& v : static_cast<Enum const&>(t).values()) f.push_back(trim_(v.first)); std::sort(f.begin(), f.end()); }
            else for (Field const& x : static_cast<Compound const&>(t).getFields()) f.push_back(trim_(x.getName()) + " " + canon(x.getType()));
            CHECK(d->kind == (t.getCategory() == Type::Enum ? "enum" : "struct") && d->fields.size() == f.size(), i.getName() << " is declared as " << d->kind << " with " << d->fields.size() << " members");
            for (size_t k = 0; k < f.size(); ++k) CHECK(same(d->fields[k], f[k]), "member of " << i.getName() << " is " << d->fields[k] << " instead of " << f[k]);
        } else if (t.getCategory() == Type::Container && !is_string(t)) { ++found; ++want[container_module(t) + " " + canon(t)]; }
    }
    CHECK(found == p.out.size(), p.out.size() << " declarations for " << found << " types");
    std::map<S, int> got;
    for (Decl const& d : p.out) if (!named.count(d.module + "::" + d.name)) { CHECK(d.kind == "typedef", d.module << "::" << d.name << " is declared"); ++got[d.module + " " + d.what]; }
    if (g_o.selected.empty()) for (auto& w : want) CHECK(got[w.first] == w.second, "'" << w.first << "' is declared " << got[w.first] << " times");
    ++g_stats["exported"]; g_stats["declarations"] += p.out.size(); g_stats["typedefs of sequences"] += want.size(); if (g_o.blob) ++g_stats["blobs"]; if (!g_o.selected.empty()) ++g_stats["selected"];
}
