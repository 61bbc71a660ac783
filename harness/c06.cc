#include "gen.hh"
using namespace gen;
char const* g_prop = "C06";
// changes one meaningful byte, or the number of elements of a container; returns false if there is nothing to change
static bool perturb(Rng& r, Cells const& c, uint8_t* m, bool data)
{
    std::vector<size_t> at;
    for (size_t i = 0; i < c.size(); ++i) if (data ? (c[i].k == 'D' || c[i].k == 'C') : (c[i].k == 'P' || (c[i].k == 'C' && count_of(c[i].c, m + i)))) at.push_back(i);
    while (!at.empty()) {
        size_t x = r.below(at.size()), i = at[x];
        at.erase(at.begin() + x);
        if (c[i].k == 'D' || c[i].k == 'P') { m[i] ^= (uint8_t)(1 << r.below(8)); return true; }
        size_t n = count_of(c[i].c, m + i);
        if (n && (!data || r.chance(60))) { if (perturb(r, *c[i].e, elem(c[i].c, m + i, r.below(n)), data)) return true; }
        if (data) {
            // drop or add one element, keeping the others
            Cells one(1, c[i]); size_t k = n && r.chance(50) ? n - 1 : n + 1;
            std::vector<std::unique_ptr<Val>> keep;
            size_t es = c[i].c->getIndirection().getSize();
            for (size_t j = 0; j < std::min(n, k); ++j) { keep.emplace_back(new Val(*c[i].e, es)); keep.back()->make(); rcopy(*c[i].e, keep.back()->m, elem(c[i].c, m + i, j)); }
            set_count(c[i].c, *c[i].e, m + i, k);
            for (size_t j = 0; j < keep.size(); ++j) rcopy(*c[i].e, elem(c[i].c, m + i, j), keep[j]->m);
            return true;
        }
    }
    return false;
}
void run_case(Rng& r, uint64_t)
{
    live.clear();
    World w(r);
    bool special = r.chance(15);
    if (special) { w.want_ptr = true; w.want_cont = false; }
    Type const& t = r.chance(60) ? w.compound(r.range(1, 4)) : w.type(r.range(1, 4));
    note(describe(t));
    Cells V = cells(t, true, true);
    Val a(V, t.getSize()), b(V, t.getSize());
    a.rand(r); b.rand(r);
    Value va(a.m, t), vb(b.m, t);
    std::string ia = image(V, a.m), ib = image(V, b.m);
    note("a " + ia); note("b " + ib);
    // comparison of arbitrary values
    auto cmp = [&](char const* what) {
        bool e = requal(V, a.m, b.m);
        std::string x = image(V, a.m), y = image(V, b.m);
        CHECK(Typelib::compare(va, vb) == e, what << ": compare() says " << !e << " for " << x << " and " << y);
        CHECK(Typelib::compare(b.m, a.m, t) == e, what << ": compare() (swapped) says " << !e << " for " << y << " and " << x);
        CHECK(image(V, a.m) == x && image(V, b.m) == y, what << ": compare() changed a value");
        ++g_stats[e ? "equal" : "different"];
    };
    cmp("random values");
    bool merge = r.chance(50), trail = r.chance(60);
    int form = special ? 2 : (int)r.below(3);
    MemoryLayout L = form == 2 ? layout_of(t, special, false, merge, trail) : layout_of(t);
    Cells C = decode(L.ops);
    Bytes keep(b.m, b.m + b.n);
    if (form == 0) Typelib::copy(vb, va); else if (form == 1) Typelib::copy(b.m, a.m, t); else Typelib::copy(b.m, a.m, L);
    CHECK(image(V, a.m) == ia, "copy() changed its source to " << image(V, a.m));
    CHECK(requal(V, a.m, b.m), "after copy() the destination is " << image(V, b.m));
    for (size_t i = 0; i < V.size(); ++i)
        if (V[i].k == 'P' && (i >= C.size() || C[i].k == 'P')) CHECK(b.m[i] == keep[i], "copy() wrote padding byte " << i);
    cmp("after copy");
    // only padding differs
    rcopy(V, b.m, a.m);
    if (perturb(r, V, b.m, false)) { CHECK(requal(V, a.m, b.m), "harness"); cmp("padding changed"); }
    rcopy(V, b.m, a.m);
    for (int i = 0; i < 4; ++i) if (perturb(r, V, b.m, true)) { CHECK(i > 0 || !requal(V, a.m, b.m), "harness"); cmp("data changed"); if (r.chance(50)) rcopy(V, b.m, a.m); }
    // copying is independent of aliasing of later changes
    { Typelib::copy(b.m, a.m, L); std::string before = image(V, a.m); perturb(r, V, b.m, true); CHECK(image(V, a.m) == before, "source and copy share storage"); }
    // values of another type: copying is refused, comparing never says equal
    {
        Type const& o = r.chance(50) ? w.numeric() : w.compound(1);
        if (&o != &t && o.getSize() && !o.canCastTo(t) && !t.canCastTo(o)) {
            Cells O = cells(o, true, true);
            Val x(O, o.getSize()); x.rand(r);
            std::string before = image(O, x.m), own = image(V, a.m);
            Value vx(x.m, o);
            for (int k = 0; k < 2; ++k) {
                bool refused = false;
                try { k ? Typelib::copy(vx, va) : Typelib::copy(va, vx); } catch (std::runtime_error&) { refused = true; }
                CHECK(refused, "a value is copied to one of another type: " << describe(o));
                CHECK(image(O, x.m) == before && image(V, a.m) == own, "a refused copy changed a value");
                CHECK(!(k ? Typelib::compare(vx, va) : Typelib::compare(va, vx)), "a value compares equal to one of another type: " << describe(o));
            }
            x.kill();
            ++g_stats["other types"];
        }
    }
    a.kill(); b.kill();
    CHECK(live.empty(), "containers left over");
}
