#include "common.hh"
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>

std::string g_trace;
std::map<std::string, uint64_t> g_stats;
static char const* g_replay = 0;
static uint64_t g_case, g_seed;

void note(std::string const& s) { if (g_trace.size() < 60000) { g_trace += s; g_trace += '\n'; } }

// allocation failures are reported the way the standard library does, and early
#include <new>
void* operator new(size_t n) { if (n > (48u << 20)) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

static std::string esc(std::string const& s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char t[8]; snprintf(t, 8, "\\u%04x", c); r += t; }
        else r += c;
    }
    return r;
}
static void report(std::string const& what)
{
    std::string o = "{\"property\": \"" + std::string(g_prop) + "\", \"kind\": \"concrete-input\", \"seed\": " + std::to_string(g_seed)
        + ", \"case\": " + std::to_string(g_case) + ", \"violation\": \"" + esc(what) + "\", \"trace\": \"" + esc(g_trace) + "\"}\n";
    int fd = open(g_replay, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { ssize_t w = write(fd, o.data(), o.size()); (void)w; close(fd); }
}
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
static bool g_reported = false;
static void on_death() { if (!g_reported) { g_reported = true; report("the code under test crashed (memory error or fatal signal); see the sanitizer output"); } }
static void on_alarm(int) { if (!g_reported) { g_reported = true; report("the code under test does not terminate (no answer within 60 s on this case)"); } _exit(3); }
static void on_abrt(int) { on_death(); _exit(4); }

int main(int argc, char** argv)
{
    if (argc < 5) { fprintf(stderr, "usage: harness SEED SECONDS MAXCASES REPLAY [CASE]\n"); return 2; }
    g_seed = strtoull(argv[1], 0, 10);
    double secs = atof(argv[2]);
    uint64_t maxc = strtoull(argv[3], 0, 10);
    g_replay = argv[4];
    uint64_t first = 0;
    if (argc > 5) { first = strtoull(argv[5], 0, 10); maxc = first + 1; }
    if (__asan_set_death_callback) __asan_set_death_callback(on_death);
    signal(SIGALRM, on_alarm);
    signal(SIGABRT, on_abrt);
    // the code under test prints; keep our protocol on the real stdout
    int out = dup(1);
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    struct timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    uint64_t n = 0;
    for (g_case = first; g_case < maxc; ++g_case) {
        clock_gettime(CLOCK_MONOTONIC, &t);
        if ((t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > secs && n >= 50) break;
        g_trace.clear();
        alarm(60);
        try {
            Rng rng(g_seed * 0x1000003ULL + g_case * 0x9E3779B97F4A7C15ULL + 12345);
            run_case(rng, g_case);
            ++n;
        } catch (Violation& e) {
            report(e.what());
            g_reported = true;
            dprintf(out, "VIOLATION case=%llu %s\n", (unsigned long long)g_case, e.what());
            _exit(1);
        } catch (std::exception& e) {
            report(std::string("unexpected exception: ") + e.what());
            g_reported = true;
            dprintf(out, "VIOLATION case=%llu unexpected exception: %s\n", (unsigned long long)g_case, e.what());
            _exit(1);
        }
    }
    alarm(0);
    std::string s = "STATS {\"cases\": " + std::to_string(n);
    for (auto const& kv : g_stats) s += ", \"" + kv.first + "\": " + std::to_string(kv.second);
    s += "}\n";
    dprintf(out, "%s", s.c_str());
    _exit(0);
}
