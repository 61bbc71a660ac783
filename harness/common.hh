// Support for the bounded stand-ins: seeded cases, violation reports with the failing input.
#ifndef VERIF_COMMON_HH
#define VERIF_COMMON_HH
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <list>
#include <iostream>
#include <algorithm>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    template <class C> typename C::value_type const& pick(C const& c) { return c[below(c.size())]; }
};

struct Violation : std::runtime_error { Violation(std::string const& m) : std::runtime_error(m) {} };

// what the current case is doing, for reports (also from a crash handler)
extern std::string g_trace;
void note(std::string const& s);
template <class A> std::string str(A const& a) { std::ostringstream o; o << a; return o.str(); }
inline std::string hexs(std::vector<uint8_t> const& v) { std::ostringstream o; for (uint8_t b : v) { char t[4]; snprintf(t, 4, "%02x", b); o << t; } return o.str(); }
inline std::string hexs(void const* p, size_t n) { return hexs(std::vector<uint8_t>((uint8_t const*)p, (uint8_t const*)p + n)); }

#define FAIL(msg) do { std::ostringstream o_; o_ << msg; throw Violation(o_.str()); } while (0)
#define CHECK(cond, msg) do { if (!(cond)) FAIL(msg << " [" #cond "]"); } while (0)

// counters reported to the evidence file
extern std::map<std::string, uint64_t> g_stats;

// defined by the file of each property
void run_case(Rng& rng, uint64_t index);
extern char const* g_prop;
#endif
