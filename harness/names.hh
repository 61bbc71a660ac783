// Independent reading of type names, and generators for names and near-names.
#ifndef VERIF_NAMES_HH
#define VERIF_NAMES_HH
#include "common.hh"
namespace names {
typedef std::string S;
inline std::vector<S> split(S const& n)
{
    // pieces between separators at template depth 0; a leading separator is not a piece, a trailing one adds none
    std::vector<S> r; S cur; int lvl = 0; bool open = false;
    size_t i = (!n.empty() && n[0] == '/') ? 1 : 0;
    size_t start = i;
    for (; i < n.size(); ++i) {
        if (n[i] == '/' && lvl == 0) { r.push_back(n.substr(start, i - start)); start = i + 1; continue; }
        if (n[i] == '<') ++lvl;
        if (n[i] == '>') --lvl;
    }
    (void)open;
    if (start < n.size()) r.push_back(n.substr(start));
    return r;
}
inline bool identch(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == ' '; }
// recursive descent over the grammar; every function returns the end of what it read, or npos
struct Grammar {
    S const& s;
    Grammar(S const& s) : s(s) {}
    bool at(size_t i, char c) const { return i < s.size() && s[i] == c; }
    size_t component(size_t i) const
    {
        size_t b = i;
        while (i < s.size() && identch(s[i])) ++i;
        if (i == b) return S::npos;
        if (at(i, '*')) while (at(i, '*') || at(i, ' ')) ++i;
        if (at(i, '<')) {
            ++i;
            while (true) {
                i = argument(i);
                if (i == S::npos) return i;
                if (at(i, '>')) break;
                if (!at(i, ',')) return S::npos;
                ++i;
            }
            ++i;
            while (at(i, '*')) ++i;
        }
        while (at(i, '[')) {
            size_t d = ++i;
            while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i;
            if (i == d || !at(i, ']')) return S::npos;
            ++i;
            while (at(i, '*')) ++i;
        }
        return i;
    }
    size_t name(size_t i, bool absolute) const
    {
        if (at(i, '/')) ++i;
        else if (absolute) return S::npos;
        while (true) {
            i = component(i);
            if (i == S::npos) return i;
            if (!at(i, '/')) return i;
            ++i;
        }
    }
    size_t argument(size_t i) const
    {
        if (at(i, '/')) return name(i, true);
        while (i < s.size() && (s[i] == '-' || (s[i] >= '0' && s[i] <= '9'))) ++i;
        return i;
    }
};
inline bool valid(S const& n, bool absolute) { return !n.empty() && Grammar(n).name(0, absolute) == n.size(); }

inline S ident(Rng& r) { static char const al[] = "ABab_ 09"; S s; int k = r.range(1, 3); for (int i = 0; i < k; ++i) s += al[r.below(8)]; return s; }
S name(Rng& r, int depth, bool absolute);
inline S mods(Rng& r) { S s; while (r.chance(25)) s += r.chance(50) ? S("*") : "[" + str(r.below(30)) + "]"; return s; }
inline S component(Rng& r, int depth)
{
    S s = ident(r);
    if (depth && r.chance(35)) {
        s += '<';
        int n = r.range(1, 3);
        for (int i = 0; i < n; ++i) { if (i) s += ','; s += r.chance(65) ? name(r, depth - 1, true) + (r.chance(20) ? mods(r) : S()) : str(r.range(-3, 40)); }
        s += '>';
    }
    return s;
}
inline S name(Rng& r, int depth, bool absolute)
{
    S s; int k = r.range(1, 3);
    for (int i = 0; i < k; ++i) { if (i || absolute) s += '/'; s += component(r, depth); }
    return s;
}
inline S junk(Rng& r) { static char const al[] = "/<>[],*Aa_ 1:-"; S s; int k = r.range(0, 12); for (int i = 0; i < k; ++i) s += al[r.below(sizeof al - 1)]; return s; }
inline S mutate(Rng& r, S s)
{
    static char const al[] = "/<>[],*Aa 1:-.";
    int k = r.range(1, 2);
    for (int i = 0; i < k; ++i) {
        size_t p = r.below(s.size() + 1);
        switch (r.below(3)) {
            case 0: s.insert(p, 1, al[r.below(sizeof al - 1)]); break;
            case 1: if (p < s.size()) s.erase(p, 1); break;
            case 2: if (p < s.size()) s[p] = al[r.below(sizeof al - 1)]; break;
        }
    }
    return s;
}
inline S any(Rng& r) { switch (r.below(4)) { case 0: return junk(r); case 1: return mutate(r, name(r, 3, r.chance(70)) + mods(r)); default: return name(r, 3, r.chance(80)) + mods(r); } }
}
#endif
