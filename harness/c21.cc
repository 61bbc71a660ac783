#include "gen.hh"
using namespace gen;
char const* g_prop = "C21";
namespace {
// conditional deletion: by the value's significant bytes, or by a list of positions
struct Pred {
    Cells const* e; uint64_t salt; int pct;
    std::vector<Bytes>* seen;
    bool hit(Bytes const& b) const { uint64_t h = salt; for (uint8_t x : b) h = (h ^ x) * 0x100000001B3ULL; return (int)(h % 100) < pct; }
    bool operator()(Value const& v) const { Bytes b = rdump(*e, (uint8_t const*)v.getData()); seen->push_back(b); return hit(b); }
};
typedef std::vector<Bytes> Seq;
std::string shows(Seq const& s) { std::string r = "["; for (auto const& b : s) r += hexs(b.data(), b.size()) + ","; return r + "]"; }
}
void run_case(Rng& r, uint64_t)
{
    live.clear();
    World w(r);
    w.want_zero = false;
    Type const* e = 0;
    do e = r.chance(30) ? &w.vec(w.type(r.range(0, 1))) : r.chance(30) ? &w.compound(r.range(1, 3)) : &w.type(r.range(0, 3)); while (!e->getSize());
    Type const& t = w.vec(*e);
    Container const& c = static_cast<Container const&>(t);
    Type const& other_t = w.numeric();
    note(describe(t));
    Cells E = cells(*e, false, false);
    size_t per = 0; for (Cell const& x : E) per += x.k == 'C';
    size_t const NV = 2;
    struct Vec { uint8_t* m; Seq s; } v[NV];
    for (size_t k = 0; k < NV; ++k) { v[k].m = (uint8_t*)malloc(c.getSize()); memset(v[k].m, 0xA5, c.getSize()); c.init(v[k].m); CHECK(c.getElementCount(v[k].m) == 0, "a new vector is not empty"); }
    auto check = [&](char const* what) {
        for (size_t k = 0; k < NV; ++k) {
            CHECK(c.getElementCount(v[k].m) == v[k].s.size(), "after " << what << ", vector " << k << " has " << c.getElementCount(v[k].m) << " elements instead of " << v[k].s.size());
            for (size_t i = 0; i < v[k].s.size(); ++i) {
                Value x = c.getElement(v[k].m, i);
                CHECK(x.getType() == *e, "type of an element");
                for (size_t b = 0; b < E.size(); ++b) if (E[b].k == 'C') CHECK(live.count((uint8_t*)x.getData() + b), "after " << what << ", element " << i << " of vector " << k << " is not constructed");
                Bytes got = rdump(E, (uint8_t const*)x.getData());
                CHECK(got == v[k].s[i], "after " << what << ", element " << i << " of vector " << k << " is " << hexs(got.data(), got.size()) << " in " << shows(v[k].s));
            }
        }
    };
    Val x(E, e->getSize()); 
    Val pool(E, e->getSize()), pool2(E, e->getSize());
    pool.rand(r); pool2.rand(r); x.rand(r);
    int steps = r.range(3, 25);
    for (int k = 0; k < steps; ++k) {
        size_t a = r.below(NV), b = r.chance(15) ? a : 1 - a;
        Seq& s = v[a].s;
        // a value: new, one of two that come back, or an element of a vector
        uint8_t* p = x.m;
        std::string from = "a value";
        if (r.chance(30)) { p = r.chance(50) ? pool.m : pool2.m; from = "a value seen before"; }
        else if (r.chance(40) && !v[b].s.empty()) { size_t i = r.below(v[b].s.size()); p = (uint8_t*)c.getElement(v[b].m, i).getData(); from = b == a ? "element " + str(i) + " of itself" : "element " + str(i) + " of the other"; }
        else x.rand(r);
        Bytes val = rdump(E, p);
        switch (r.below(11)) {
        case 0: case 1: case 2: case 3:
            note("push " + from + " " + hexs(val.data(), val.size()) + " to " + str(a));
            c.push(v[a].m, Value(p, *e));
            s.push_back(val);
            check("push"); break;
        case 4: {
            note("erase " + from + " " + hexs(val.data(), val.size()) + " from " + str(a));
            Seq::iterator it = std::find(s.begin(), s.end(), val);
            bool done = c.erase(v[a].m, Value(p, *e));
            CHECK(done == (it != s.end()), "erase returned " << done);
            if (it != s.end()) s.erase(it);
            check("erase"); break; }
        case 5: {
            Seq seen;
            Pred q = { &E, r.next(), r.range(0, 4) * 25, &seen };
            note("delete_if (" + str(q.pct) + "%) in " + str(a));
            Seq before = s;
            s.erase(std::remove_if(s.begin(), s.end(), [&](Bytes const& y) { return q.hit(y); }), s.end());
            c.delete_if(v[a].m, q);
            CHECK(seen == before, "the condition was evaluated on " << shows(seen) << " instead of " << shows(before));
            check("delete_if"); break; }
        case 6:
            note("copy " + str(b) + " to " + str(a));
            c.copy(v[a].m, v[b].m);
            s = Seq(v[b].s);
            check("copy");
            CHECK(c.compare(v[a].m, v[b].m), "a copy does not compare equal"); break;
        case 7: if (r.chance(30)) {
            note("clear " + str(a));
            c.clear(v[a].m); s.clear();
            check("clear"); } break;
        case 8: if (!s.empty()) {
            size_t i = r.below(s.size());
            note("set element " + str(i) + " of " + str(a) + " to " + from);
            c.setElement(v[a].m, i, Value(p, *e));
            s[i] = val;
            check("setElement"); } break;
        case 9: {
            bool eq = c.compare(v[0].m, v[1].m);
            CHECK(eq == (v[0].s == v[1].s), "compare returned " << eq << " on " << shows(v[0].s) << " and " << shows(v[1].s));
            check("compare"); break; }
        case 10: {
            uint8_t buf[16] = {0};
            bool th = false;
            if (other_t == *e) break;
            try { if (r.chance(50)) c.push(v[a].m, Value(buf, other_t)); else c.erase(v[a].m, Value(buf, other_t)); } catch (std::runtime_error&) { th = true; }
            CHECK(th, "a value of another type was accepted");
            check("a refused value"); break; }
        }
        // the elements that are containers, and the elements of those
        size_t inner = 0;
        std::function<void(Cells const&, uint8_t const*)> count = [&](Cells const& cs, uint8_t const* m) { for (size_t i = 0; i < cs.size(); ++i) if (cs[i].k == 'C') { ++inner; for (size_t j = 0, q = count_of(cs[i].c, m + i); j < q; ++j) count(*cs[i].e, elem(cs[i].c, m + i, j)); } };
        for (size_t z = 0; z < NV; ++z) for (size_t i = 0; i < v[z].s.size(); ++i) count(E, (uint8_t const*)c.getElement(v[z].m, i).getData());
        count(E, x.m); count(E, pool.m); count(E, pool2.m);
        CHECK(live.size() == inner + NV, live.size() << " containers are alive, the values have " << inner + NV);
        g_stats["operations"]++;
    }
    for (size_t k = 0; k < NV; ++k) { c.destroy(v[k].m); free(v[k].m); }
    x.kill(); pool.kill(); pool2.kill();
    CHECK(live.empty(), live.size() << " containers left alive");
    g_stats["elements_with_containers"] += per > 0;
}
