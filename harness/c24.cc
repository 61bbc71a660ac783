// C24: a CSV header and a CSV line have the same columns in the same order; every scalar is shown once.
#include <math.h>
#include "gen.hh"
#include <typelib/csvoutput.hh>
using namespace gen;
char const* g_prop = "C24";

// memory that pointers point to
struct Pool { std::vector<void*> all; ~Pool() { for (void* p : all) free(p); } };
static void fill(Rng& r, Type const& t, uint8_t* m, Pool& pool)
{
    switch (t.getCategory()) {
    case Type::Pointer: {
        Type const& on = static_cast<Indirect const&>(t).getIndirection();
        uint8_t* to = (uint8_t*)malloc(on.getSize() ? on.getSize() : 1); pool.all.push_back(to);
        for (size_t i = 0; i < on.getSize(); ++i) to[i] = (uint8_t)r.next();
        memcpy(m, &to, sizeof to);
        fill(r, on, to, pool); break;
    }
    case Type::Array: {
        Array const& a = static_cast<Array const&>(t);
        for (size_t i = 0; i < a.getDimension(); ++i) fill(r, a.getIndirection(), m + i * a.getIndirection().getSize(), pool);
        break;
    }
    case Type::Compound: for (Field const& f : static_cast<Compound const&>(t).getFields()) fill(r, f.getType(), m + f.getOffset(), pool); break;
    case Type::Enum: {
        std::map<std::string, Enum::integral_type> const& v = static_cast<Enum const&>(t).values();
        if (!v.empty() && r.chance(70)) { std::map<std::string, Enum::integral_type>::const_iterator it = v.begin(); std::advance(it, r.below(v.size())); memcpy(m, &it->second, sizeof it->second); }
        break;
    }
    case Type::Numeric:
        if (static_cast<Numeric const&>(t).getNumericCategory() == Numeric::Float) {
            if (t.getSize() == 4) { float f = r.chance(50) ? (float)(int)r.next() : (float)ldexp((double)(int64_t)r.next(), r.range(-120, 40)); memcpy(m, &f, 4); }
            else { double f = r.chance(50) ? (double)(int)r.next() : ldexp((double)(int64_t)r.next(), r.range(-900, 900)); memcpy(m, &f, 8); }
        }
        else if (t.getSize() == 1) m[0] = "abcxyzABCXYZ"[r.below(12)];   // printable, in no separator
        break;
    default: break;
    }
}
// what a column must contain
struct Col {
    std::string head; Type const* t; uint8_t const* m;
    Col(std::string const& h, Type const& t, uint8_t const* m) : head(h), t(&t), m(m) {}
};
static void columns(std::vector<Col>& out, std::string const& name, Type const& t, uint8_t const* m)
{
    switch (t.getCategory()) {
    case Type::Pointer: { uint8_t* to; memcpy(&to, m, sizeof to); columns(out, "*(" + name + ")", static_cast<Indirect const&>(t).getIndirection(), to); break; }
    case Type::Array: {
        Array const& a = static_cast<Array const&>(t);
        for (size_t i = 0; i < a.getDimension(); ++i) columns(out, name + "[" + str(i) + "]", a.getIndirection(), m + i * a.getIndirection().getSize());
        break;
    }
    case Type::Compound: for (Field const& f : static_cast<Compound const&>(t).getFields()) columns(out, name + "." + f.getName(), f.getType(), m + f.getOffset()); break;
    default: out.push_back(Col(name, t, m));
    }
}
static bool shows(Col const& c, std::string const& s, bool as_numeric)
{
    Type const& t = *c.t;
    if (t.getCategory() == Type::Opaque) return s == "<" + t.getName() + ">";
    if (t.getCategory() == Type::Enum) {
        Enum::integral_type v; memcpy(&v, c.m, sizeof v);
        std::map<std::string, Enum::integral_type> const& all = static_cast<Enum const&>(t).values();
        bool known = false;
        for (auto const& e : all) if (e.second == v) { known = true; if (e.first == s) return true; }
        return !known && s == str(v);
    }
    Numeric const& n = static_cast<Numeric const&>(t);
    if (n.getNumericCategory() == Numeric::Float) {
        char* end;
        if (t.getSize() == 4) { float f; memcpy(&f, c.m, 4); float g = strtof(s.c_str(), &end); return !*end && !s.empty() && f == g; }
        double f; memcpy(&f, c.m, 8); double g = strtod(s.c_str(), &end); return !*end && !s.empty() && f == g;
    }
    bool sg = n.getNumericCategory() == Numeric::SInt;
    if (t.getSize() == 1 && !as_numeric) return s == std::string(1, (char)*c.m);
    switch (t.getSize()) {
    case 1: return s == (sg ? str((int)*(int8_t const*)c.m) : str((unsigned)*c.m));
    case 2: { int16_t v; memcpy(&v, c.m, 2); return s == (sg ? str(v) : str((uint16_t)v)); }
    case 4: { int32_t v; memcpy(&v, c.m, 4); return s == (sg ? str(v) : str((uint32_t)v)); }
    default: { int64_t v; memcpy(&v, c.m, 8); return s == (sg ? str(v) : str((uint64_t)v)); }
    }
}
static std::vector<std::string> split(std::string const& s, std::string const& sep)
{
    std::vector<std::string> r; size_t p = 0;
    for (;;) { size_t q = s.find(sep, p); r.push_back(s.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) return r; p = q + sep.size(); }
}
void run_case(Rng& r, uint64_t index)
{
    World w(r);
    w.want_cont = false; w.want_ptr = w.want_opq = true; w.enum4 = true; w.plain_sizes = true;
    for (int k = 0; k < 6; ++k) {
        Type const* pt = r.chance(70) ? &w.compound(3) : &w.type(3);
        if (pt->getCategory() != Type::Opaque && r.chance(30) && !w.reg.has(pt->getName() + "*")) { Pointer* q = new Pointer(*pt); w.reg.add(q); pt = r.chance(50) ? q : &w.array(*q, r.below(3)); }
        Type const& t = *pt;
        Pool pool;
        size_t n = t.getSize();
        uint8_t* m = (uint8_t*)malloc(n ? n : 1); pool.all.push_back(m);
        for (size_t i = 0; i < n; ++i) m[i] = (uint8_t)r.next();
        fill(r, t, m, pool);
        static char const* const seps[] = { " ", ",", ";", "\t", "; ", "||", ", ", "\n", "--|--" };
        std::string sep = seps[r.below(9)], base = r.chance(20) ? "" : r.chance(50) ? "x" : "some_name";
        bool as_numeric = r.chance(50);
        g_trace = describe(t) + "separator '" + sep + "' base '" + base + "'";
        std::vector<Col> want; columns(want, base, t, m);
        std::ostringstream ho, lo;
        ho << csv_header(t, base, sep);
        lo << csv(t, m, sep, as_numeric);
        std::vector<std::string> h = split(ho.str(), sep), l = split(lo.str(), sep);
        if (want.empty()) { CHECK(ho.str().empty() && lo.str().empty(), "a type without scalars has columns: '" << ho.str() << "', '" << lo.str() << "'"); ++g_stats["empty"]; continue; }
        CHECK(h.size() == l.size(), "the header has " << h.size() << " columns, the line " << l.size() << ":\n" << ho.str() << "\n" << lo.str());
        CHECK(h.size() == want.size(), "the type has " << want.size() << " scalars, the header " << h.size() << " columns:\n" << ho.str());
        for (size_t i = 0; i < want.size(); ++i) {
            CHECK(h[i] == want[i].head, "column " << i << " has the header '" << h[i] << "' instead of '" << want[i].head << "'");
            CHECK(shows(want[i], l[i], as_numeric), "column " << i << " ('" << h[i] << "') shows '" << l[i] << "' for " << hexs(want[i].m, want[i].t->getSize()) << " of " << describe(*want[i].t));
        }
        g_stats["columns"] += want.size(); ++g_stats["lines"];
        // and again: nothing is kept between two lines
        CSVOutput o(t, sep, as_numeric);
        std::ostringstream h2, h3, l2, l3;
        o.header(h2, base); o.display(l2, m); o.header(h3, base); o.display(l3, m);
        CHECK(h2.str() == ho.str() && h3.str() == ho.str() && l2.str() == lo.str() && l3.str() == lo.str(), "writing the same twice gives something else");
    }
}
