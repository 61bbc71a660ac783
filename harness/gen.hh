// Random types and values, and an independent reference semantics for them.
#ifndef VERIF_GEN_HH
#define VERIF_GEN_HH
#include "common.hh"
#include <typelib/typemodel.hh>
#include <typelib/registry.hh>
#include <typelib/registryiterator.hh>
#include <typelib/value.hh>
#include <typelib/value_ops.hh>
#include <typelib/memory_layout.hh>
#include <lang/csupport/containers.hh>

namespace gen {
using namespace Typelib;
typedef std::vector<uint8_t> Bytes;

// ---- live container objects, by address
extern std::map<void const*, Container const*> live;
extern uint64_t n_init, n_destroy;
extern bool tracking;

struct TVector : public ::Vector {
    TVector(Type const& on) : ::Vector(on) {}
    void init(void* p) const { if (tracking) { ++n_init; if (live.count(p)) FAIL("container constructed twice at one address"); live[p] = this; } ::Vector::init(p); }
    void destroy(void* p) const { if (tracking) { ++n_destroy; if (!live.count(p)) FAIL("container destroyed that is not constructed"); live.erase(p); } ::Vector::destroy(p); }
};
struct TString : public ::String {
    TString(Type const& on) : ::String(on) {}
    void init(void* p) const { if (tracking) { ++n_init; if (live.count(p)) FAIL("container constructed twice at one address"); live[p] = this; } ::String::init(p); }
    void destroy(void* p) const { if (tracking) { ++n_destroy; if (!live.count(p)) FAIL("container destroyed that is not constructed"); live.erase(p); } ::String::destroy(p); }
};

struct Cell {
    char k;                                        // D data, P padding, C container head, T container body
    Container const* c;
    std::shared_ptr<std::vector<Cell>> e;
    Cell(char k) : k(k), c(0) {}
    Cell(Container const* c, std::shared_ptr<std::vector<Cell>> e) : k('C'), c(c), e(e) {}
};
typedef std::vector<Cell> Cells;
struct NoRef : std::runtime_error { NoRef(char const* m) : std::runtime_error(m) {} };

// reference layout of a type: every byte exactly once
Cells cells(Type const& t, bool ptr_ok, bool opq_ok);
std::string show(Cells const& c);
bool same(Cells const& a, Cells const& b);
// decodes a layout program; throws Violation when it is malformed
Cells decode(MemoryLayout::Ops const& ops);
struct ICell { char k; uint8_t b; Container const* c; };   // S set byte, K keep, N new container, T its body
typedef std::vector<ICell> ICells;
ICells decode_init(MemoryLayout::Ops const& ops);
ICells icells(Type const& t);
std::string show(ICells const& c);
std::string show_ops(MemoryLayout::Ops const& ops);

// reference operations on values
void construct(Cells const& c, uint8_t* m);        // containers constructed empty, other bytes untouched
void destruct(Cells const& c, uint8_t* m);
void randomize(Rng& r, Cells const& c, uint8_t* m, int depth = 0);   // random bytes and container contents
Bytes rdump(Cells const& c, uint8_t const* m);
bool requal(Cells const& c, uint8_t const* a, uint8_t const* b);
void rcopy(Cells const& c, uint8_t* dst, uint8_t const* src);   // whole value, padding included; dst constructed
// everything observable, padding included
std::string image(Cells const& c, uint8_t const* m);
void set_count(Container const* c, Cells const& e, uint8_t* p, size_t n);
uint8_t* elem(Container const* c, uint8_t const* p, size_t i);
size_t count_of(Container const* c, uint8_t const* p);

struct World {
    Registry reg;
    Rng& rng;
    int counter;
    bool want_ptr, want_opq, want_cont, want_zero, want_enum, enum4, plain_sizes;
    World(Rng& r) : rng(r), counter(0), want_ptr(false), want_opq(false), want_cont(true), want_zero(true), want_enum(true), enum4(false), plain_sizes(false) {}
    std::string fresh(char const* p) { return std::string("/") + p + str(counter++); }
    Type const& numeric();
    Type const& type(int depth, bool elem = false);
    Type const& compound(int depth);
    Type const& array(Type const& on, size_t n);
    Type const& vec(Type const& on);
    Type const& string();
};
std::string describe(Type const& t, int indent = 0);

// an exactly sized block with a constructed, random value
struct Val {
    Cells c;
    uint8_t* m;
    size_t n;
    bool made;
    Val(Cells const& c, size_t n) : c(c), m((uint8_t*)malloc(n)), n(n), made(false) { memset(m, 0xA5, n); }
    void make() { construct(c, m); made = true; }
    void rand(Rng& r) { if (!made) make(); randomize(r, c, m); }
    void kill() { if (made) destruct(c, m); made = false; }
    ~Val() { if (made) { try { destruct(c, m); } catch (...) {} } free(m); }
private:
    Val(Val const&);
};
}
#endif
