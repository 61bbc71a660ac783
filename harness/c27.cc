// C27: a field of a value is a view into it; numbers are cast only to the C++ type they are.
#include <limits>
#include <boost/mpl/if.hpp>
#include <boost/mpl/bool.hpp>
#include "gen.hh"
#include <typelib/value_cast.hh>
using namespace gen;
char const* g_prop = "C27";

template<typename T> static void cast_one(Rng& r, Value v, Type const& t, int size, int cat, char const* name)
{
    bool ref = t.getCategory() == Type::Numeric && int(t.getSize()) == size && static_cast<Numeric const&>(t).getNumericCategory() == cat;
    bool ok = true; T got = T();
    try { got = r.chance(50) ? value_cast<T>(v) : value_cast<T>(v.getData(), v.getType()); }
    catch (BadValueCast const&) { ok = false; }
    catch (UnsupportedType const&) { ok = false; }
    CHECK(ok == ref, "a value of " << describe(t) << " is " << (ok ? "cast" : "refused") << " as " << name);
    if (ok) {
        T want; memcpy(&want, v.getData(), sizeof want);
        CHECK(!memcmp(&want, &got, sizeof want), "the value of " << describe(t) << " cast to " << name << " is another one");
    }
    ++g_stats[ref ? "casts" : "refused casts"];
}
static void casts(Rng& r, Value v, Type const& t)
{
    cast_one<char>(r, v, t, 1, Numeric::SInt, "char");
    cast_one<int8_t>(r, v, t, 1, Numeric::SInt, "int8_t");
    cast_one<uint8_t>(r, v, t, 1, Numeric::UInt, "uint8_t");
    cast_one<int16_t>(r, v, t, 2, Numeric::SInt, "int16_t");
    cast_one<uint16_t>(r, v, t, 2, Numeric::UInt, "uint16_t");
    cast_one<int32_t>(r, v, t, 4, Numeric::SInt, "int32_t");
    cast_one<uint32_t>(r, v, t, 4, Numeric::UInt, "uint32_t");
    cast_one<int64_t>(r, v, t, 8, Numeric::SInt, "int64_t");
    cast_one<uint64_t>(r, v, t, 8, Numeric::UInt, "uint64_t");
    cast_one<long long>(r, v, t, 8, Numeric::SInt, "long long");
    cast_one<unsigned long long>(r, v, t, 8, Numeric::UInt, "unsigned long long");
    cast_one<float>(r, v, t, 4, Numeric::Float, "float");
    cast_one<double>(r, v, t, 8, Numeric::Float, "double");
}
static void field(Rng& r, Value v, Type const& t, std::string const& name)
{
    Field const* ref = 0;
    if (t.getCategory() == Type::Compound) {
        Compound::FieldList const& fs = static_cast<Compound const&>(t).getFields();
        for (Compound::FieldList::const_iterator it = fs.begin(); it != fs.end() && !ref; ++it)
            if (it->getName() == name) ref = &*it;
    }
    bool ok = true; Value f;
    try { f = r.chance(50) ? value_get_field(v, name) : value_get_field(v.getData(), v.getType(), name); }
    catch (FieldNotFound const& e) { ok = false; CHECK(e.name == name, "the error for '" << name << "' names '" << e.name << "'"); }
    CHECK(ok == (ref != 0), "field '" << name << "' of " << describe(t) << (ok ? " is found" : " is not found"));
    if (ok) {
        CHECK(f.getData() == static_cast<uint8_t*>(v.getData()) + ref->getOffset(), "field '" << name << "' of " << describe(t) << " is at another place");
        CHECK(&f.getType() == &ref->getType(), "field '" << name << "' of " << describe(t) << " has type " << f.getType().getName());
    }
    ++g_stats[ok ? "fields" : "unknown fields"];
}
static void walk(Rng& r, Value v, int depth)
{
    Type const& t = v.getType();
    g_trace = describe(t);
    casts(r, v, t);
    static char const* const more[] = { "", "f", "x", "f0", "f00", "F0" };
    field(r, v, t, more[r.below(6)]);
    // the names of fields further inside are no fields of this value
    Type const* in = &t;
    while (in->getCategory() == Type::Array || in->getCategory() == Type::Pointer || in->getCategory() == Type::Container) in = &static_cast<Indirect const&>(*in).getIndirection();
    if (in->getCategory() == Type::Compound) {
        Compound::FieldList const& fs = static_cast<Compound const&>(*in).getFields();
        for (Compound::FieldList::const_iterator it = fs.begin(); it != fs.end(); ++it) {
            field(r, v, t, it->getName());
            if (it->getType().getCategory() == Type::Compound) {
                Compound::FieldList const& gs = static_cast<Compound const&>(it->getType()).getFields();
                if (!gs.empty()) field(r, v, t, gs.back().getName() + (r.chance(30) ? "x" : ""));
            }
            if (in == &t && depth < 5) { Value f = value_get_field(v, it->getName()); walk(r, f, depth + 1); }
        }
    }
}
// visiting: everything in a value once, in order, at its own place
typedef std::vector<std::string> Log;
static void put(Log& l, void const* p, std::string const& what) { std::ostringstream o; o << what << " at " << p; l.push_back(o.str()); }
struct Recorder : ValueVisitor {
    Log log;
    bool own;       // goes into fields itself
    Recorder(bool own) : own(own) {}
    template<typename T> bool num(T& v, char const* n) { put(log, &v, n); return true; }
    using ValueVisitor::visit_;
    bool visit_(int8_t& v) { return num(v, "int8"); }
    bool visit_(uint8_t& v) { return num(v, "uint8"); }
    bool visit_(int16_t& v) { return num(v, "int16"); }
    bool visit_(uint16_t& v) { return num(v, "uint16"); }
    bool visit_(int32_t& v) { return num(v, "int32"); }
    bool visit_(uint32_t& v) { return num(v, "uint32"); }
    bool visit_(int64_t& v) { return num(v, "int64"); }
    bool visit_(uint64_t& v) { return num(v, "uint64"); }
    bool visit_(float& v) { return num(v, "float"); }
    bool visit_(double& v) { return num(v, "double"); }
    bool visit_(Value const& v, OpaqueType const& t) { put(log, v.getData(), "opaque " + t.getName() + (&v.getType() == &t ? "" : "?")); return true; }
    bool visit_(Value const& v, Pointer const& t) { put(log, v.getData(), "pointer " + t.getName() + (&v.getType() == &t ? "" : "?")); return true; }
    bool visit_(Value const& v, Array const& t) { put(log, v.getData(), "array " + t.getName() + (&v.getType() == &t ? "" : "?")); return ValueVisitor::visit_(v, t); }
    bool visit_(Value const& v, Container const& t) { put(log, v.getData(), "container " + t.getName() + (&v.getType() == &t ? "" : "?")); return ValueVisitor::visit_(v, t); }
    bool visit_(Value const& v, Compound const& t) { put(log, v.getData(), "compound " + t.getName() + (&v.getType() == &t ? "" : "?")); return ValueVisitor::visit_(v, t); }
    bool visit_(Value const& v, Compound const& t, Field const& f)
    {
        put(log, v.getData(), "field " + f.getName() + " of " + t.getName() + (&v.getType() == &f.getType() ? "" : "?"));
        if (own) { dispatch(v); return true; }
        return ValueVisitor::visit_(v, t, f);
    }
    bool visit_(Enum::integral_type& v, Enum const& t) { put(log, &v, "enum " + t.getName()); return true; }
};
struct Unsupported {};
static void expect(uint8_t* p, Type const& t, Log& l)
{
    switch (t.getCategory()) {
    case Type::Numeric: {
        static char const* const n[3][9] = { { 0, "int8", "int16", 0, "int32", 0, 0, 0, "int64" }, { 0, "uint8", "uint16", 0, "uint32", 0, 0, 0, "uint64" }, { 0, 0, 0, 0, "float", 0, 0, 0, "double" } };
        char const* w = t.getSize() > 8 ? 0 : n[static_cast<Numeric const&>(t).getNumericCategory() - Numeric::SInt][t.getSize()];
        if (!w) throw Unsupported();
        put(l, p, w); break; }
    case Type::Enum: put(l, p, "enum " + t.getName()); break;
    case Type::Opaque: put(l, p, "opaque " + t.getName()); break;
    case Type::Pointer: put(l, p, "pointer " + t.getName()); break;
    case Type::Array: {
        put(l, p, "array " + t.getName());
        Array const& a = static_cast<Array const&>(t);
        for (size_t i = 0; i < a.getDimension(); ++i) expect(p + i * a.getIndirection().getSize(), a.getIndirection(), l);
        break; }
    case Type::Container: {
        put(l, p, "container " + t.getName());
        Type const& e = static_cast<Container const&>(t).getIndirection();
        if (static_cast<Container const&>(t).kind() == "/std/string") { std::string& s = *(std::string*)p; for (size_t i = 0; i < s.size(); ++i) expect((uint8_t*)&s[i], e, l); }
        else { std::vector<uint8_t>& v = *(std::vector<uint8_t>*)p; for (size_t i = 0; i + e.getSize() <= v.size(); i += e.getSize()) expect(&v[i], e, l); }
        break; }
    case Type::Compound: {
        put(l, p, "compound " + t.getName());
        Compound::FieldList const& fs = static_cast<Compound const&>(t).getFields();
        for (Compound::FieldList::const_iterator i = fs.begin(); i != fs.end(); ++i) { put(l, p + i->getOffset(), "field " + i->getName() + " of " + t.getName()); expect(p + i->getOffset(), i->getType(), l); }
        break; }
    default: throw Unsupported();
    }
}
static void visits(Rng& r, Value v)
{
    g_trace = describe(v.getType());
    Recorder rec(r.chance(30));
    Log want; bool supported = true, ok = true;
    try { expect((uint8_t*)v.getData(), v.getType(), want); } catch (Unsupported&) { supported = false; }
    for (int k = r.range(1, 2); k > 0; --k) {       // a visitor can be used again
        rec.log.clear();
        ok = true;
        try { rec.apply(v); } catch (UnsupportedType&) { ok = false; }
        CHECK(ok == supported, "visiting a value of " << describe(v.getType()) << (ok ? " works" : " is refused"));
        for (size_t i = 0; i < std::max(want.size(), rec.log.size()); ++i)
            CHECK(i < want.size() && i < rec.log.size() && want[i] == rec.log[i], "visit " << i << " of the value at " << v.getData() << " of " << describe(v.getType()) << ": " << (i < rec.log.size() ? rec.log[i] : std::string("missing")) << " instead of " << (i < want.size() ? want[i] : std::string("nothing")));
    }
    ++g_stats[ok ? "visits" : "refused visits"];
}
void run_case(Rng& r, uint64_t index)
{
    World w(r);
    w.want_ptr = r.chance(30);
    for (int k = 0; k < 4; ++k) {
        static size_t const sz[] = { 1, 2, 4, 8, 3, 1, 2, 4, 8 };
        static Numeric::NumericCategory const ct[] = { Numeric::SInt, Numeric::UInt, Numeric::Float };
        Numeric* nn = new Numeric(w.fresh("num"), sz[r.below(9)], ct[r.below(3)]); w.reg.add(nn);
        Type const& t = k == 3 ? static_cast<Type const&>(*nn) : r.chance(70) ? w.compound(3) : w.type(3);
        if (t.getSize() == 0) continue;
        Cells c = cells(t, true, true);
        Val v(c, t.getSize()); v.rand(r);
        std::string before = image(c, v.m);
        walk(r, Value(v.m, t), 0);
        visits(r, Value(v.m, t));
        CHECK(image(c, v.m) == before, "looking at a value changes it");
        // arrays, pointers and vectors of it
        if (t.getCategory() != Type::Opaque) {
            Type const& a = w.array(t, 1 + r.below(3));
            Cells ac = cells(a, true, true);
            Val av(ac, a.getSize()); av.rand(r);
            walk(r, Value(av.m, a), 4);
            visits(r, Value(av.m, a));
            Pointer const* p = static_cast<Pointer const*>(w.reg.get(t.getName() + "*"));
            if (!p) { Pointer* q = new Pointer(t); w.reg.add(q); p = q; }
            void* m = r.chance(80) ? (void*)v.m : (void*)0;
            walk(r, Value(&m, *p), 4);
            CHECK(m == 0 || m == v.m, "looking at a pointer changes it");
        }
    }
}
