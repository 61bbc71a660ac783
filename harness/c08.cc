#include "gen.hh"
using namespace gen;
char const* g_prop = "C08";
static bool ok_ops(std::vector<size_t> const& s)
{
    size_t nest = 0, i = 0;
    while (i < s.size()) {
        if (s[i] == MemLayout::FLAG_END) { if (!nest) return false; --nest; ++i; continue; }
        if (s[i] > MemLayout::FLAG_END) return false;
        if (i + 1 >= s.size()) return false;
        if (s[i] == MemLayout::FLAG_ARRAY || s[i] == MemLayout::FLAG_CONTAINER) ++nest;
        i += 2;
    }
    return nest == 0;
}
static bool ok_init(std::vector<size_t> const& s)
{
    size_t nest = 0, i = 0;
    while (i < s.size()) {
        if (s[i] == MemLayout::FLAG_INIT_END) { if (!nest) return false; --nest; ++i; continue; }
        if (s[i] > MemLayout::FLAG_INIT_END) return false;
        if (i + 1 >= s.size()) return false;
        if (s[i] == MemLayout::FLAG_INIT_REPEAT) ++nest;
        if (s[i] == MemLayout::FLAG_INIT) { if (s[i + 1] > s.size() - i - 2) return false; i += s[i + 1]; }
        i += 2;
    }
    return nest == 0;
}
static size_t ref_skip(std::vector<size_t> const& s, size_t i)
{
    size_t nest = 0;
    while (i < s.size()) {
        if (s[i] == MemLayout::FLAG_END) { if (!nest) return i; --nest; ++i; }
        else if (s[i] > MemLayout::FLAG_END) ++i;
        else { if (i + 1 >= s.size()) return s.size(); if (s[i] == MemLayout::FLAG_ARRAY || s[i] == MemLayout::FLAG_CONTAINER) ++nest; i += 2; }
    }
    return s.size();
}
static std::vector<size_t> words(Rng& r)
{
    std::vector<size_t> s;
    int n = r.range(0, 14), depth = 0;
    bool good = r.chance(60);
    for (int i = 0; i < n; ++i) {
        if (!good) { s.push_back(r.chance(85) ? r.below(5) : r.chance(50) ? r.below(20) : r.next()); continue; }
        switch (r.below(6)) {
        case 0: s.push_back(0); s.push_back(r.below(4)); for (size_t k = s.back(); r.chance(80) && k > 0; --k) s.push_back(r.next() & 255); break;
        case 1: s.push_back(1); s.push_back(r.below(6)); ++depth; break;
        case 2: s.push_back(2); s.push_back(r.below(6)); if (r.chance(60)) ++depth; break;
        case 3: s.push_back(3); s.push_back(r.chance(90) ? r.below(6) : r.next()); break;
        default: if (depth > 0) { s.push_back(4); --depth; } break;
        }
    }
    while (good && depth-- > 0) s.push_back(4);
    if (r.chance(15) && !s.empty()) s.pop_back();
    if (r.chance(10)) s.push_back(r.below(6));
    if (r.chance(10) && !s.empty()) s[r.below(s.size())] = r.chance(50) ? r.below(6) : r.next();
    return s;
}
void run_case(Rng& r, uint64_t)
{
    for (int k = 0; k < 20; ++k) {
        MemoryLayout L;
        int which = (int)r.below(3);
        if (which != 1) L.ops = words(r);
        if (which != 0) L.init_ops = words(r);
        L.ops.shrink_to_fit(); L.init_ops.shrink_to_fit();
        note("ops"); for (size_t x : L.ops) note(" " + str(x));
        note("init"); for (size_t x : L.init_ops) note(" " + str(x));
        bool ok = true; std::string why;
        try { L.validate(); } catch (InvalidMemoryLayout& e) { ok = false; why = e.what(); }
        bool ref = ok_ops(L.ops) && ok_init(L.init_ops);
        CHECK(ok == ref, "validate() " << (ok ? "accepts a malformed" : "rejects a well-formed") << " program " << why);
        ++g_stats[ok ? "valid" : "invalid"];
        for (size_t i = 0; i <= L.ops.size(); ++i) {
            size_t got = MemoryLayout::skipBlock(L.ops.begin() + i, L.ops.end()) - L.ops.begin();
            CHECK(got == ref_skip(L.ops, i), "skipBlock() from " << i << " stops at " << got << " instead of " << ref_skip(L.ops, i));
            ++g_stats["skips"];
        }
    }
}
