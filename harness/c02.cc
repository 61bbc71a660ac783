#include "gen.hh"
#include <unistd.h>
#include <sys/mman.h>
using namespace gen;
char const* g_prop = "C02";
static Bytes slurp(int fd) { Bytes r; char t[4096]; lseek(fd, 0, SEEK_SET); for (;;) { ssize_t n = read(fd, t, sizeof t); if (n <= 0) break; r.insert(r.end(), t, t + n); } return r; }
void run_case(Rng& r, uint64_t)
{
    live.clear();
    World w(r);
    Type const& t = r.chance(60) ? w.compound(r.range(1, 4)) : w.type(r.range(1, 4));
    bool dflt = r.chance(50), merge = r.chance(50), trail = r.chance(60);
    MemoryLayout L = dflt ? layout_of(t) : layout_of(t, false, false, merge, trail);
    note(describe(t));
    Cells V = cells(t, true, true), C = decode(L.ops);
    Val a(V, t.getSize());
    a.rand(r);
    note("value " + image(V, a.m));
    Bytes D = rdump(C, a.m);
    Value v(a.m, t);
    uint8_t const* p = a.m;
    int form = dflt ? 0 : r.range(1, 2);
    note("form " + str(form));
    size_t sz = form == 0 ? Typelib::getDumpSize(v) : form == 1 ? Typelib::getDumpSize(v, L) : Typelib::getDumpSize(p, L);
    CHECK(sz == D.size(), "getDumpSize says " << sz << " for a dump of " << D.size() << " bytes");
    Bytes pre; for (int i = r.range(0, 3); i > 0; --i) pre.push_back((uint8_t)r.next());
    Bytes want = pre; want.insert(want.end(), D.begin(), D.end());
    { Bytes o = pre;
      if (form == 0) Typelib::dump(v, o); else if (form == 1) Typelib::dump(v, o, L); else Typelib::dump(p, o, L);
      CHECK(o == want, "vector sink holds " << hexs(o) << " instead of " << hexs(want)); }
    if (form == 0) CHECK(Typelib::dump(v) == D, "dump() returns something else than the dump");
    { std::ostringstream o; o.write((char*)pre.data(), pre.size());
      if (form == 0) Typelib::dump(v, o); else if (form == 1) Typelib::dump(v, o, L); else Typelib::dump(p, o, L);
      std::string s = o.str();
      CHECK(Bytes(s.begin(), s.end()) == want, "ostream sink holds " << hexs(s.data(), s.size()) << " instead of " << hexs(want)); }
    { int fd = memfd_create("d", 0);
      if (fd >= 0) {
        if (!pre.empty()) { ssize_t k = write(fd, pre.data(), pre.size()); (void)k; }
        if (form == 0) Typelib::dump(v, fd); else if (form == 1) Typelib::dump(v, fd, L); else Typelib::dump(p, fd, L);
        Bytes o = slurp(fd); close(fd);
        CHECK(o == want, "file descriptor sink holds " << hexs(o) << " instead of " << hexs(want)); } }
    { FILE* f = tmpfile();
      if (f) {
        if (!pre.empty()) fwrite(pre.data(), 1, pre.size(), f);
        if (form == 0) Typelib::dump(v, f); else if (form == 1) Typelib::dump(v, f, L); else Typelib::dump(p, f, L);
        fflush(f); Bytes o = slurp(fileno(f)); fclose(f);
        CHECK(o == want, "FILE sink holds " << hexs(o) << " instead of " << hexs(want)); } }
    { struct S : OutputStream { Bytes o; void write(uint8_t const* d, size_t n) { o.insert(o.end(), d, d + n); } } s;
      if (form == 0) Typelib::dump(v, s); else if (form == 1) Typelib::dump(v, s, L); else Typelib::dump(p, s, L);
      CHECK(s.o == D, "stream sink received " << hexs(s.o)); }
    size_t n = D.size();
    if (n) {
        // sinks that fail: the dump must say so
        size_t room = r.below(n);
        struct Lim : std::streambuf { size_t room; Bytes got; int overflow(int c) { if (got.size() >= room) return EOF; got.push_back((uint8_t)c); return c; } } lb;
        lb.room = room;
        std::ostream lo(&lb);
        note("ostream with room for " + str(room));
        bool thrown = false;
        try { if (form == 0) Typelib::dump(v, lo); else if (form == 1) Typelib::dump(v, lo, L); else Typelib::dump(p, lo, L); } catch (std::exception const&) { thrown = true; }
        CHECK(thrown, "a stream that takes " << room << " bytes received a dump of " << n << " without an error");
        CHECK(lb.got == Bytes(D.begin(), D.begin() + room), "stream with room for " << room << " holds " << hexs(lb.got));
        FILE* f = fopen("/dev/full", "w");
        if (f) {
            note("FILE without room");
            setvbuf(f, 0, _IONBF, 0);
            thrown = false;
            try { if (form == 0) Typelib::dump(v, f); else if (form == 1) Typelib::dump(v, f, L); else Typelib::dump(p, f, L); } catch (std::exception const&) { thrown = true; }
            CHECK(thrown, "a full FILE received a dump of " << n << " without an error");
            thrown = false;
            note("descriptor without room");
            try { int fd = fileno(f); if (form == 0) Typelib::dump(v, fd); else if (form == 1) Typelib::dump(v, fd, L); else Typelib::dump(p, fd, L); } catch (std::exception const&) { thrown = true; }
            fclose(f);
            CHECK(thrown, "a full file received a dump of " << n << " without an error");
        }
        struct S : OutputStream { Bytes o; size_t room; void write(uint8_t const* d, size_t k) { if (o.size() + k > room) throw std::runtime_error("full"); o.insert(o.end(), d, d + k); } } s;
        s.room = room; thrown = false;
        note("stream with room for " + str(room));
        try { if (form == 0) Typelib::dump(v, s); else if (form == 1) Typelib::dump(v, s, L); else Typelib::dump(p, s, L); } catch (std::exception const&) { thrown = true; }
        CHECK(thrown, "an output stream that throws does not stop the dump");
        CHECK(s.o.size() <= n && std::equal(s.o.begin(), s.o.end(), D.begin()), "a throwing output stream received " << hexs(s.o));
        ++g_stats["failing_sinks"];
    }
    // the size of a buffer is any unsigned number
    for (unsigned cap : { 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu }) {
        if (!r.chance(20)) continue;
        note("fixed buffer said to have " + str(cap));
        uint8_t* buf = (uint8_t*)malloc(n + 8);
        memset(buf, 0x5A, n + 8);
        int ret = form == 0 ? Typelib::dump(v, buf, cap) : form == 1 ? Typelib::dump(v, buf, cap, L) : Typelib::dump(p, buf, cap, L);
        Bytes got(buf, buf + n + 8);
        free(buf);
        CHECK(ret == (int)n && std::equal(D.begin(), D.end(), got.begin()), "dump into a buffer of " << cap << " bytes returned " << ret << " instead of " << n);
    }
    std::set<size_t> caps; caps.insert(n); caps.insert(n + 1); caps.insert(n + 17); caps.insert(0); caps.insert(n / 2); if (n) caps.insert(n - 1);
    for (int i = 0; i < 3; ++i) caps.insert(r.below(n + 3));
    for (size_t cap : caps) {
        note("fixed buffer of " + str(cap));
        uint8_t* buf = (uint8_t*)malloc(cap);
        memset(buf, 0x5A, cap);
        int ret = form == 0 ? Typelib::dump(v, buf, cap) : form == 1 ? Typelib::dump(v, buf, cap, L) : Typelib::dump(p, buf, cap, L);
        Bytes got(buf, buf + cap);
        free(buf);
        if (cap >= n) {
            CHECK(ret == (int)n, "dump into " << cap << " bytes returned " << ret << " instead of " << n);
            CHECK(std::equal(D.begin(), D.end(), got.begin()), "buffer holds " << hexs(got) << " instead of " << hexs(D));
            for (size_t i = n; i < cap; ++i) CHECK(got[i] == 0x5A, "byte " << i << " behind the dump was written");
        } else CHECK(ret == 0, "dump of " << n << " bytes into " << cap << " returned " << ret);
        ++g_stats["fixed_buffers"];
    }
    g_stats["dumped_bytes"] += n;
    a.kill();
}
