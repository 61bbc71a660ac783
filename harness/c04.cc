#include "gen.hh"
using namespace gen;
char const* g_prop = "C04";
static std::unique_ptr<Registry> reg;
static std::vector<Container const*> conts;
// random well-formed program
static void prog(Rng& r, MemoryLayout& l, int depth)
{
    for (int n = r.range(0, depth ? 4 : 6); n > 0; --n) {
        int k = (int)r.below(depth > 3 ? 60 : 100);
        size_t sz = r.chance(15) ? 0 : r.range(1, 6);
        if (k < 30) { if (r.chance(70)) l.pushMemcpy(sz); else { std::vector<uint8_t> b; for (size_t i = 0; i < sz; ++i) b.push_back((uint8_t)r.next()); l.pushMemcpy(sz, b); } }
        else if (k < 60) l.pushSkip(sz);
        else if (k < 85) { MemoryLayout s; prog(r, s, depth + 1); l.pushArray(r.chance(12) ? 0 : r.range(1, 3), s); }
        else { MemoryLayout s; prog(r, s, depth + 1); l.pushContainer(*r.pick(conts), s); }
    }
}
static void refines(Cells const& a, Cells const& b, bool merge, bool trail, std::string const& where)
{
    CHECK(b.size() <= a.size(), where << "the simplified layout covers " << b.size() << " bytes, the original " << a.size());
    if (!trail) CHECK(b.size() == a.size(), where << "the simplified layout covers " << b.size() << " bytes, the original " << a.size());
    for (size_t i = b.size(); i < a.size(); ++i) CHECK(a[i].k == 'P', where << "byte " << i << " dropped although it is not padding");
    for (size_t i = 0; i < b.size(); ++i) {
        if (a[i].k == 'P' && b[i].k == 'D') CHECK(merge, where << "padding byte " << i << " became data");
        else CHECK(a[i].k == b[i].k, where << "byte " << i << " was " << a[i].k << " and became " << b[i].k);
        if (a[i].k == 'C') {
            CHECK(a[i].c == b[i].c, where << "container at " << i << " changed");
            refines(*a[i].e, *b[i].e, merge, false, where + "elements of the container at " + str(i) + ": ");
        }
    }
}
void run_case(Rng& r, uint64_t)
{
    live.clear();
    if (!reg.get()) {
        reg.reset(new Registry);
        Type* n = new Numeric("/n4", 4, Numeric::SInt); reg->add(n);
        Type* v = new TVector(*n); reg->add(v); conts.push_back((Container*)v);
        Type* v2 = new TVector(*v); reg->add(v2); conts.push_back((Container*)v2);
    }
    MemoryLayout L;
    World w(r);
    if (r.chance(50)) prog(r, L, 0);
    else { w.want_ptr = w.want_opq = true; Type const& t = r.chance(60) ? w.compound(4) : w.type(3); note(describe(t)); L = raw_layout_of(t, true, true); }
    note("ops " + show_ops(L.ops)); note("init " + show_ops(L.init_ops));
    Cells a = decode(L.ops);
    ICells ia = decode_init(L.init_ops);
    for (int f = 0; f < 4; ++f) {
        bool merge = f & 1, trail = f & 2;
        note(std::string("merge=") + str(merge) + " trailing=" + str(trail));
        MemoryLayout S;
        try { S = L.simplify(merge, trail); } catch (std::exception& e) { FAIL("simplify() failed: " << e.what()); }
        note("simplified " + show_ops(S.ops)); note("simplified init " + show_ops(S.init_ops));
        Cells b = decode(S.ops);
        refines(a, b, merge, trail, "");
        ICells ib = decode_init(S.init_ops);
        CHECK(ib.size() <= ia.size(), "the simplified init layout is longer");
        for (size_t i = 0; i < ia.size(); ++i) {
            if (i >= ib.size()) CHECK(ia[i].k == 'K', "init of byte " << i << " dropped");
            else CHECK(ia[i].k == ib[i].k && ia[i].b == ib[i].b && ia[i].c == ib[i].c, "init of byte " << i << " changed from " << ia[i].k << " to " << ib[i].k);
        }
        ++g_stats["simplified"];
        g_stats["bytes"] += a.size();
    }
}
