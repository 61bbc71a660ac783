#include "gen.hh"
using namespace gen;
char const* g_prop = "C07";
void run_case(Rng& r, uint64_t)
{
    live.clear();
    World w(r);
    bool special = r.chance(15);
    if (special) { w.want_ptr = w.want_opq = true; w.want_cont = false; }
    Type const& t = r.chance(60) ? w.compound(r.range(1, 4)) : w.type(r.range(1, 4));
    note(describe(t));
    Cells V = cells(t, true, true);
    ICells I = icells(t);
    CHECK(I.size() == V.size(), "harness");
    bool dflt = !special && r.chance(50), merge = r.chance(50), trail = r.chance(50);
    MemoryLayout L = dflt ? layout_of(t) : layout_of(t, special, special, merge, trail);
    note(dflt ? "default layout" : std::string("layout merge=") + str(merge) + " trailing=" + str(trail));
    Cells C = decode(L.ops);
    size_t nc = 0; for (Cell const& c : V) nc += c.k == 'C';
    Val a(V, t.getSize());
    for (size_t i = 0; i < a.n; ++i) a.m[i] = (uint8_t)r.next();
    Bytes keep(a.m, a.m + a.n);
    Value v(a.m, t);
    n_init = n_destroy = 0;
    note("init of " + hexs(a.m, a.n));
    if (dflt) Typelib::init(v); else if (r.chance(50)) Typelib::init(v, L); else Typelib::init(a.m, L);
    CHECK(n_init == nc, "init() constructed " << n_init << " containers, the value has " << nc);
    for (size_t i = 0; i < V.size(); ++i) {
        if (V[i].k == 'C') {
            CHECK(live.count(a.m + i) && live[a.m + i] == V[i].c, "init() did not construct the container at " << i);
            CHECK(count_of(V[i].c, a.m + i) == 0, "container at " << i << " is not empty after init()");
        } else if (I[i].k == 'S') CHECK(a.m[i] == I[i].b, "byte " << i << " is " << (int)a.m[i] << " instead of the enum's initial " << (int)I[i].b);
        else if (I[i].k == 'K') CHECK(a.m[i] == keep[i], "init() changed byte " << i);
    }
    a.made = true;
    a.rand(r);
    keep.assign(a.m, a.m + a.n);
    note("zero of " + image(V, a.m));
    size_t outer_live = 0; for (size_t i = 0; i < V.size(); ++i) outer_live += V[i].k == 'C';
    if (dflt) Typelib::zero(v); else if (r.chance(50)) Typelib::zero(v, L); else Typelib::zero(a.m, L);
    for (size_t i = 0; i < V.size(); ++i) {
        if (V[i].k == 'C') {
            CHECK(live.count(a.m + i), "zero() destroyed the container at " << i);
            CHECK(count_of(V[i].c, a.m + i) == 0, "zero() did not empty the container at " << i);
        } else if (V[i].k == 'D' || (V[i].k == 'P' && i < C.size())) CHECK(a.m[i] == 0, "byte " << i << " is " << (int)a.m[i] << " after zero()");
        else if (V[i].k == 'P') CHECK(a.m[i] == keep[i] || a.m[i] == 0, "zero() wrote something else than zero at " << i);
    }
    CHECK(live.size() == outer_live, "after zero(), " << live.size() << " containers are alive, expected " << outer_live);
    a.rand(r);
    keep.assign(a.m, a.m + a.n);
    note("destroy of " + image(V, a.m));
    n_destroy = 0;
    if (dflt) Typelib::destroy(v); else if (r.chance(50)) Typelib::destroy(v, L); else Typelib::destroy(a.m, L);
    a.made = false;
    CHECK(live.empty(), live.size() << " containers left alive by destroy()");
    for (size_t i = 0; i < V.size(); ++i) if (V[i].k == 'D' || V[i].k == 'P') CHECK(a.m[i] == keep[i], "destroy() wrote byte " << i);
    g_stats["containers"] += nc;
    g_stats["init_bytes"] += std::count_if(I.begin(), I.end(), [](ICell const& c) { return c.k == 'S'; });
}
