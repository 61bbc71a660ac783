// Random field additions against a plain list.
#include "common.hh"
#include <typelib/typemodel.hh>
#include <typelib/registry.hh>
#include <typelib/value.hh>
using namespace Typelib;
char const* g_prop = "C20";
typedef std::string S;
struct F { S n; Type const* t; size_t o; };
static void check(Compound const& c, std::vector<F> const& fs, size_t size, std::vector<S> const& all)
{
    CHECK(c.getSize() == size, "size is " << c.getSize() << " instead of " << size);
    CHECK(c.getFields().size() == fs.size(), "there are " << c.getFields().size() << " fields instead of " << fs.size());
    size_t k = 0, end = 0;
    for (Field const& f : c.getFields()) {
        CHECK(f.getName() == fs[k].n && &f.getType() == fs[k].t && f.getOffset() == fs[k].o, "field " << k << " is '" << f.getName() << "' at " << f.getOffset() << " instead of '" << fs[k].n << "' at " << fs[k].o);
        end = std::max(end, fs[k].o + fs[k].t->getSize());
        ++k;
    }
    for (S const& n : all) {
        Field const* f = c.getField(n);
        size_t i = 0;
        while (i < fs.size() && fs[i].n != n) ++i;
        if (i == fs.size()) CHECK(!f, "field '" << n << "' is found");
        else CHECK(f && f->getName() == n && &f->getType() == fs[i].t && f->getOffset() == fs[i].o, "field '" << n << "' is not found as added");
    }
    CHECK(size >= end, "a field reaches beyond the size");
    if (size - end < 0xffffffffu)
        CHECK(c.getTrailingPadding() == size - end, "trailing padding is " << c.getTrailingPadding() << " instead of " << size - end);
}
struct Sized : Compound { Sized(S const& n) : Compound(n) {} void grow(size_t s) { setSize(s); } };
void run_case(Rng& r, uint64_t)
{
    std::vector<std::unique_ptr<Type>> own;
    std::vector<Type const*> ts;
    for (size_t s : { 1, 2, 4, 8 }) { own.emplace_back(new Numeric("/n" + str(s), s, Numeric::SInt)); ts.push_back(own.back().get()); }
    for (int i = 0; i < 3; ++i) { own.emplace_back(new Array(*r.pick(ts), r.below(r.chance(5) ? 700000000 : 9))); ts.push_back(own.back().get()); }
    Sized* in = new Sized("/in");
    own.emplace_back(in);
    std::vector<S> all; for (int i = 0; i < 6; ++i) all.push_back(S(1, 'a' + i)); all.push_back("");
    std::vector<F> fs0;
    in->addField("x", *ts[0], 0); in->addField("y", *ts[3], 8); in->grow(24);
    ts.push_back(in);
    Sized c("/c");
    std::vector<F> fs;
    size_t size = 0;
    check(c, fs, size, all);
    int n = r.range(1, 12);
    for (int i = 0; i < n; ++i) {
        if (r.chance(15)) { size_t s = size + r.below(40); c.grow(s); size = s; note("size " + str(s)); check(c, fs, size, all); }
        F f;
        // names are distinct, offsets are anything
        f.n = "f" + str(i); f.t = r.pick(ts);
        f.o = r.chance(60) ? size + r.below(4) : r.chance(95) ? r.below(size + 20) : r.below(3000000000u);
        all.push_back(f.n);
        note("field " + f.n + " of " + f.t->getName() + " at " + str(f.o));
        Field const* got;
        if (r.chance(50)) got = &c.addField(f.n, *f.t, f.o);
        else { Field proto(f.n, *f.t); got = &c.addField(proto, f.o); }
        fs.push_back(f);
        size = std::max(size, f.o + f.t->getSize());
        CHECK(got == &c.getFields().back(), "addField does not return the new field");
        check(c, fs, size, all);
        ++g_stats["fields"];
    }
    // a copy has the same fields
    Compound d(c);
    check(d, fs, size, all);
    // merging into a registry gives the same layout
    bool small = size < 100000;
    if (small) {
        Registry a; 
        Type const& m = c.merge(a);
        Compound const& mc = dynamic_cast<Compound const&>(m);
        std::vector<F> ms = fs;
        size_t k = 0;
        for (Field const& f : mc.getFields()) { if (k < ms.size()) { CHECK(f.getType().isSame(*ms[k].t), "merged field type"); ms[k].t = &f.getType(); } ++k; }
        check(mc, ms, size, all);
    }
}
