#include "gen.hh"
using namespace gen;
char const* g_prop = "C03";
static void le(Bytes& b, size_t at, uint64_t v) { for (int i = 0; i < 8 && at + i < b.size(); ++i) b[at + i] = (uint8_t)(v >> (8 * i)); }
// positions of element counts in the dump
static void counts(Cells const& c, uint8_t const* m, size_t& pos, std::vector<std::pair<size_t, size_t>>& out)
{
    for (size_t i = 0; i < c.size(); ++i) {
        if (c[i].k == 'D') ++pos;
        else if (c[i].k == 'C') {
            out.push_back(std::make_pair(pos, c[i].c->getIndirection().getSize()));
            pos += 8;
            for (size_t k = 0, n = count_of(c[i].c, m + i); k < n; ++k) counts(*c[i].e, elem(c[i].c, m + i, k), pos, out);
        }
    }
}
static size_t volume(Cells const& c, uint8_t const* m)
{
    size_t v = 0;
    for (size_t i = 0; i < c.size(); ++i) if (c[i].k == 'C') {
        size_t n = count_of(c[i].c, m + i);
        v += n * c[i].e->size();
        if (v > 100000) return v;
        for (size_t k = 0; k < n; ++k) v += volume(*c[i].e, elem(c[i].c, m + i, k));
    }
    return v;
}
void run_case(Rng& r, uint64_t)
{
    live.clear();
    World w(r);
    Type const& t = r.chance(60) ? w.compound(r.range(1, 4)) : w.type(r.range(1, 4));
    bool dflt = r.chance(70);
    MemoryLayout L = dflt ? layout_of(t) : layout_of(t, false, false, r.chance(50), r.chance(50));
    note(describe(t));
    Cells V = cells(t, true, true), C = decode(L.ops);
    Val a(V, t.getSize());
    a.rand(r);
    Bytes D = rdump(C, a.m);
    std::vector<std::pair<size_t, size_t>> cnt; size_t pos = 0;
    counts(C, a.m, pos, cnt);
    size_t trail = t.getTrailingPadding(), reftrail = 0;
    if (t.getCategory() == Type::Compound) {
        size_t e = 0;
        for (Field const& f : static_cast<Compound const&>(t).getFields()) e = std::max(e, f.getOffset() + f.getType().getSize());
        reftrail = t.getSize() - e;
    }
    CHECK(trail == reftrail, "trailing padding");
    Val b(V, t.getSize());
    b.rand(r);
    for (int round = 0; round < 12; ++round) {
        Bytes in = D;
        bool must_fail = false, must_pass = false;
        int k = (int)r.below(cnt.empty() ? 4 : 7);
        if (k == 0) { if (in.empty()) continue; in.resize(r.below(in.size())); must_fail = true; if (round == 0) { in = D; in.pop_back(); } }
        else if (k == 1) { size_t x = r.chance(50) ? trail : 1 + r.below(trail + 4); in.resize(in.size() + x, 0x77); if (x == trail) must_pass = true; else must_fail = true; }
        else if (k == 2) { must_pass = true; }
        else if (k == 3) { for (int i = 0; i < 4 && !in.empty(); ++i) in[r.below(in.size())] = (uint8_t)r.next(); if (cnt.empty()) must_pass = true; else continue; }
        else {
            std::pair<size_t, size_t> c = r.pick(cnt);
            uint64_t sz = c.second, v;
            switch (r.below(7)) {
            case 0: v = r.next(); break;
            case 1: v = (~0ULL) / sz + 1 + r.below(3); break;           // byte size wraps to a small number
            case 2: v = (1ULL << 63) / sz + r.below(3); break;
            case 3: v = ~0ULL; break;
            case 4: v = r.below(50); break;
            case 5: v = (1ULL << 32) + r.below(3); break;
            default: v = ~0ULL / 24 + 1; break;
            }
            le(in, c.first, v);
            if (r.chance(50)) in.resize(in.size() + r.below(200), (uint8_t)r.next());
        }
        note("input " + hexs(in.data(), std::min<size_t>(in.size(), 400)) + " (" + str(in.size()) + " bytes)");
        int how = (int)r.below(3);
        uint8_t* ex = (uint8_t*)malloc(in.size()); memcpy(ex, in.data(), in.size());
        bool ok = false; std::string why; size_t used = in.size(); bool violation = false;
        struct S : InputStream { uint8_t* p; size_t n, i; void read(uint8_t* o, size_t k) { if (k > n - i) throw std::runtime_error("short"); memcpy(o, p + i, k); i += k; } } s;
        try {
            Bytes const cin(in);
            Value vb(b.m, t);
            if (how == 0) { if (dflt) Typelib::load(vb, cin); else Typelib::load(vb, cin, L); }
            else if (how == 1) { if (dflt) Typelib::load(vb, ex, in.size()); else Typelib::load(vb, ex, in.size(), L); }
            else { s.p = ex; s.n = in.size(); s.i = 0; if (dflt) Typelib::load(vb, s); else Typelib::load(vb, s, L); used = s.i; }
            ok = true;
        } catch (Violation& e) { violation = true; why = e.what(); } catch (std::exception& e) { why = e.what(); }
        free(ex);
        if (violation) FAIL(why);
        ++g_stats[ok ? "accepted" : "rejected"];
        if (must_pass && how != 2) CHECK(ok, "a complete buffer was rejected: " << why);
        if (must_fail && (how != 2 || in.size() < D.size())) CHECK(!ok, "a " << (in.size() < D.size() ? "short" : "surplus") << " buffer of " << in.size() << " bytes was accepted (dump has " << D.size() << ")");
        if (volume(V, b.m) > 100000) { b.kill(); b.rand(r); continue; }
        if (ok) {
            Bytes back = rdump(C, b.m);
            CHECK(back.size() <= used, "the loaded value has more data than was consumed");
            CHECK(std::equal(back.begin(), back.end(), in.begin()), "the loaded value " << hexs(back) << " is not the one in the buffer");
            if (how != 2) CHECK(back.size() == in.size() || back.size() + trail == in.size(), "surplus bytes accepted");
            else CHECK(back.size() == used, "consumed " << used << " bytes for " << back.size());
        }
        // whatever happened, the value is still a value
        image(V, b.m);
    }
    a.kill(); b.kill();
    CHECK(live.empty(), "containers left over");
}
