#include "gen.hh"
using namespace gen;
char const* g_prop = "C01";
void run_case(Rng& r, uint64_t)
{
    live.clear();
    World w(r);
    bool special = r.chance(20);
    if (special) { w.want_ptr = w.want_opq = true; w.want_cont = false; }
    Type const& t = r.chance(60) ? w.compound(r.range(1, 4)) : w.type(r.range(1, 4));
    bool dflt = !special && r.chance(50);
    bool merge = r.chance(50), trail = r.chance(60), raw = !dflt && r.chance(15);
    MemoryLayout L = dflt ? layout_of(t) : raw ? raw_layout_of(t, special, special) : layout_of(t, special, special, merge, trail);
    note(describe(t)); note(dflt ? "default layout" : raw ? "raw layout" : std::string("layout merge=") + str(merge) + " trailing=" + str(trail));
    Cells V = cells(t, true, true), C = decode(L.ops);
    Val a(V, t.getSize()), b(V, t.getSize());
    a.rand(r); b.rand(r);
    std::string ia = image(V, a.m);
    note("value " + ia); note("target " + image(V, b.m));
    Bytes keep(b.m, b.m + b.n);
    Bytes expect = rdump(C, a.m), d;
    Value va(a.m, t), vb(b.m, t);
    if (dflt) { d = Typelib::dump(va); }
    else Typelib::dump(va, d, L);
    CHECK(d == expect, "dump is " << hexs(d) << " instead of " << hexs(expect));
    CHECK(image(V, a.m) == ia, "dump changed the value");
    int how = r.range(0, 2);
    uint8_t* ex = (uint8_t*)malloc(d.size()); memcpy(ex, d.data(), d.size());
    try {
        if (how == 0) { if (dflt) Typelib::load(vb, d); else Typelib::load(vb, d, L); }
        else if (how == 1) { if (dflt) Typelib::load(vb, ex, d.size()); else Typelib::load(vb, ex, d.size(), L); }
        else {
            struct S : InputStream { uint8_t* p; size_t n, i; void read(uint8_t* o, size_t k) { if (k > n - i) throw std::runtime_error("short"); memcpy(o, p + i, k); i += k; } } s;
            s.p = ex; s.n = d.size(); s.i = 0;
            if (dflt) Typelib::load(vb, s); else Typelib::load(vb, s, L);
            CHECK(s.i == s.n, "load left " << s.n - s.i << " bytes of the dump");
        }
    } catch (std::exception& e) { free(ex); if (dynamic_cast<Violation*>(&e)) throw; FAIL("load of a dump failed: " << e.what()); }
    free(ex);
    CHECK(requal(V, a.m, b.m), "the loaded value is " << image(V, b.m));
    for (size_t i = 0; i < V.size(); ++i)
        if ((V[i].k == 'P') && (i >= C.size() || C[i].k == 'P'))
            CHECK(b.m[i] == keep[i], "padding byte " << i << " of the target changed");
    if (!special) CHECK(Typelib::compare(va, vb), "compare() says the loaded value differs");
    a.kill(); b.kill();
    CHECK(live.empty(), "containers left over");
    g_stats["dumped_bytes"] += d.size();
    g_stats["with_containers"] += std::any_of(V.begin(), V.end(), [](Cell const& c) { return c.k == 'C'; });
}
