#include "gen.hh"
using namespace gen;
char const* g_prop = "C05";
void run_case(Rng& r, uint64_t)
{
    live.clear();
    World w(r);
    w.want_ptr = r.chance(40); w.want_opq = r.chance(40);
    Type const& t = r.chance(60) ? w.compound(r.range(1, 4)) : w.type(r.range(1, 4));
    note(describe(t));
    for (int f = 0; f < 4; ++f) {
        bool p = f & 1, o = f & 2;
        note(std::string("accept pointers=") + str(p) + " opaques=" + str(o));
        Cells ref; bool refused = false;
        try { ref = cells(t, p, o); } catch (NoRef&) { refused = true; }
        bool threw = false; MemoryLayout L;
        try { L = raw_layout_of(t, p, o); } catch (NoLayout&) { threw = true; }
        CHECK(threw == refused, (threw ? "a layout was refused" : "a layout was given although it must be refused"));
        ++g_stats[refused ? "refused" : "laid_out"];
        if (threw) {
            bool again = false;
            try { layout_of(t, p, o); } catch (NoLayout&) { again = true; }
            CHECK(again, "layout_of() gave a layout");
            continue;
        }
        note("ops " + show_ops(L.ops)); note("init " + show_ops(L.init_ops));
        try { L.validate(); } catch (std::exception& e) { FAIL("the generated layout is malformed: " << e.what()); }
        Cells got = decode(L.ops);
        CHECK(same(got, ref), "layout is " << show(got) << "instead of " << show(ref));
        ICells gi = decode_init(L.init_ops), ri = icells(t);
        CHECK(show(gi) == show(ri), "init layout is " << show(gi) << " instead of " << show(ri));
        CHECK(got.size() == t.getSize(), "layout covers " << got.size() << " of " << t.getSize() << " bytes");
        g_stats["bytes"] += got.size();
        for (int s = 0; s < 4; ++s) {
            MemoryLayout S = layout_of(t, p, o, s & 1, s & 2);
            try { S.validate(); } catch (std::exception& e) { FAIL("layout_of() gives a malformed layout: " << e.what()); }
        }
    }
}
