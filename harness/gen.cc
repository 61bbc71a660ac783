#include "gen.hh"
namespace gen {
std::map<void const*, Container const*> live;
uint64_t n_init = 0, n_destroy = 0;
bool tracking = true;

static void put(Cells& c, Cells const& x) { c.insert(c.end(), x.begin(), x.end()); }
static void fill(Cells& c, char k, size_t n) { for (size_t i = 0; i < n; ++i) c.push_back(Cell(k)); }

Cells cells(Type const& t, bool ptr_ok, bool opq_ok)
{
    Cells r;
    switch (t.getCategory()) {
    case Type::Numeric: case Type::Enum: fill(r, 'D', t.getSize()); break;
    case Type::Pointer: if (!ptr_ok) throw NoRef("pointer"); fill(r, 'D', t.getSize()); break;
    case Type::Opaque: if (!opq_ok) throw NoRef("opaque"); fill(r, 'P', t.getSize()); break;
    case Type::Array: {
        Array const& a = static_cast<Array const&>(t);
        Cells e = cells(a.getIndirection(), ptr_ok, opq_ok);
        for (size_t i = 0; i < a.getDimension(); ++i) put(r, e);
        break; }
    case Type::Container: {
        Container const& k = static_cast<Container const&>(t);
        r.push_back(Cell(&k, std::make_shared<Cells>(cells(k.getIndirection(), ptr_ok, opq_ok))));
        fill(r, 'T', k.getSize() - 1);
        break; }
    case Type::Compound: {
        Compound const& k = static_cast<Compound const&>(t);
        fill(r, 'P', t.getSize());
        for (Field const& f : k.getFields()) {
            Cells e = cells(f.getType(), ptr_ok, opq_ok);
            for (size_t i = 0; i < e.size(); ++i) r[f.getOffset() + i] = e[i];
        }
        break; }
    default: throw NoRef("null");
    }
    return r;
}
std::string show(Cells const& c)
{
    std::string s; size_t i = 0;
    while (i < c.size()) {
        size_t j = i; while (j < c.size() && c[j].k == c[i].k && (j == i || c[j].k != 'C')) ++j;
        s += c[i].k; if (j - i > 1) s += str(j - i);
        if (c[i].k == 'C') s += "<" + show(*c[i].e) + ">";
        s += ' '; i = j;
    }
    return s;
}
bool same(Cells const& a, Cells const& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].k != b[i].k || a[i].c != b[i].c) return false;
        if (a[i].k == 'C' && !same(*a[i].e, *b[i].e)) return false;
    }
    return true;
}
static Cells dec(MemoryLayout::Ops const& s, size_t& i, int depth)
{
    Cells r;
    while (i < s.size() && s[i] != MemLayout::FLAG_END) {
        size_t op = s[i];
        if (i + 1 >= s.size()) FAIL("layout: operation without operand at " << i << ": " << show_ops(s));
        size_t n = s[i + 1];
        i += 2;
        if (op == MemLayout::FLAG_MEMCPY || op == MemLayout::FLAG_SKIP) {
            if (n > (1u << 22)) FAIL("layout: absurd size " << n << ": " << show_ops(s));
            fill(r, op == MemLayout::FLAG_MEMCPY ? 'D' : 'P', n);
        } else if (op == MemLayout::FLAG_ARRAY || op == MemLayout::FLAG_CONTAINER) {
            Cells e = dec(s, i, depth + 1);
            if (i >= s.size()) FAIL("layout: block without end: " << show_ops(s));
            ++i;
            if (op == MemLayout::FLAG_ARRAY) {
                if (n * (e.size() + 1) > (1u << 22)) FAIL("layout: absurd array " << n << ": " << show_ops(s));
                for (size_t k = 0; k < n; ++k) put(r, e);
            } else {
                Container const* c = reinterpret_cast<Container const*>(n);
                r.push_back(Cell(c, std::make_shared<Cells>(e)));
                fill(r, 'T', c->getSize() - 1);
            }
        } else FAIL("layout: unknown operation " << op << " at " << i - 2 << ": " << show_ops(s));
    }
    if (depth == 0 && i < s.size()) FAIL("layout: stray end at " << i << ": " << show_ops(s));
    return r;
}
Cells decode(MemoryLayout::Ops const& ops) { size_t i = 0; return dec(ops, i, 0); }
static ICells deci(MemoryLayout::Ops const& s, size_t& i, int depth)
{
    ICells r;
    while (i < s.size() && s[i] != MemLayout::FLAG_INIT_END) {
        size_t op = s[i];
        if (i + 1 >= s.size()) FAIL("init layout: operation without operand: " << show_ops(s));
        size_t n = s[i + 1];
        i += 2;
        if (op == MemLayout::FLAG_INIT) {
            if (n > s.size() - i) FAIL("init layout: data missing: " << show_ops(s));
            for (size_t k = 0; k < n; ++k) { ICell c = { 'S', (uint8_t)s[i + k], 0 }; r.push_back(c); }
            i += n;
        } else if (op == MemLayout::FLAG_INIT_SKIP) {
            if (n > (1u << 22)) FAIL("init layout: absurd size: " << show_ops(s));
            ICell c = { 'K', 0, 0 }; r.insert(r.end(), n, c);
        } else if (op == MemLayout::FLAG_INIT_REPEAT) {
            ICells e = deci(s, i, depth + 1);
            if (i >= s.size()) FAIL("init layout: block without end: " << show_ops(s));
            ++i;
            if (n * (e.size() + 1) > (1u << 22)) FAIL("init layout: absurd repeat: " << show_ops(s));
            for (size_t k = 0; k < n; ++k) r.insert(r.end(), e.begin(), e.end());
        } else if (op == MemLayout::FLAG_INIT_CONTAINER) {
            Container const* c = reinterpret_cast<Container const*>(n);
            ICell h = { 'N', 0, c }, t = { 'T', 0, 0 };
            r.push_back(h); r.insert(r.end(), c->getSize() - 1, t);
        } else FAIL("init layout: unknown operation " << op << ": " << show_ops(s));
    }
    if (depth == 0 && i < s.size()) FAIL("init layout: stray end: " << show_ops(s));
    return r;
}
ICells decode_init(MemoryLayout::Ops const& ops) { size_t i = 0; return deci(ops, i, 0); }
ICells icells(Type const& t)
{
    ICell keep = { 'K', 0, 0 };
    ICells r;
    switch (t.getCategory()) {
    case Type::Enum: {
        r.assign(t.getSize(), keep);
        Enum const& e = static_cast<Enum const&>(t);
        if (!e.values().empty()) {
            int64_t v = e.values().begin()->second;
            for (size_t i = 0; i < t.getSize(); ++i) { r[i].k = 'S'; r[i].b = (uint8_t)((uint64_t)v >> (8 * i)); }
        }
        break; }
    case Type::Array: {
        Array const& a = static_cast<Array const&>(t);
        ICells e = icells(a.getIndirection());
        for (size_t i = 0; i < a.getDimension(); ++i) r.insert(r.end(), e.begin(), e.end());
        break; }
    case Type::Container: {
        Container const& k = static_cast<Container const&>(t);
        ICell h = { 'N', 0, &k }, b = { 'T', 0, 0 };
        r.push_back(h); r.insert(r.end(), k.getSize() - 1, b);
        break; }
    case Type::Compound: {
        r.assign(t.getSize(), keep);
        for (Field const& f : static_cast<Compound const&>(t).getFields()) {
            ICells e = icells(f.getType());
            std::copy(e.begin(), e.end(), r.begin() + f.getOffset());
        }
        break; }
    default: r.assign(t.getSize(), keep);
    }
    return r;
}
std::string show(ICells const& c)
{
    std::ostringstream o;
    for (ICell const& x : c) { o << x.k; if (x.k == 'S') o << (int)x.b << ' '; }
    return o.str();
}
std::string show_ops(MemoryLayout::Ops const& ops)
{
    std::ostringstream o;
    for (size_t w : ops) o << (w > 1000000 ? 999999999 : w) << ' ';
    return o.str();
}

static bool is_string(Container const* c) { return c->kind() == "/std/string"; }
size_t count_of(Container const* c, uint8_t const* p)
{
    if (is_string(c)) return reinterpret_cast<std::string const*>(p)->size() / c->getIndirection().getSize();
    return reinterpret_cast<Bytes const*>(p)->size() / c->getIndirection().getSize();
}
uint8_t* elem(Container const* c, uint8_t const* p, size_t i)
{
    size_t n = c->getIndirection().getSize();
    if (is_string(c)) return (uint8_t*)(reinterpret_cast<std::string const*>(p)->data()) + i * n;
    return (uint8_t*)(reinterpret_cast<Bytes const*>(p)->data()) + i * n;
}
void set_count(Container const* c, Cells const& e, uint8_t* p, size_t n)
{
    size_t sz = c->getIndirection().getSize();
    size_t old = count_of(c, p);
    for (size_t i = 0; i < old; ++i) destruct(e, elem(c, p, i));
    if (is_string(c)) { std::string s(n * sz, 0); reinterpret_cast<std::string*>(p)->swap(s); }
    else { Bytes b(n * sz); reinterpret_cast<Bytes*>(p)->swap(b); }
    for (size_t i = 0; i < n; ++i) construct(e, elem(c, p, i));
}
void construct(Cells const& c, uint8_t* m)
{
    for (size_t i = 0; i < c.size(); ++i) if (c[i].k == 'C') {
        if (live.count(m + i)) FAIL("harness: container already live");
        live[m + i] = c[i].c;
        if (is_string(c[i].c)) new (m + i) std::string; else new (m + i) Bytes;
    }
}
void destruct(Cells const& c, uint8_t* m)
{
    for (size_t i = 0; i < c.size(); ++i) if (c[i].k == 'C') {
        size_t n = count_of(c[i].c, m + i);
        for (size_t k = 0; k < n; ++k) destruct(*c[i].e, elem(c[i].c, m + i, k));
        if (!live.count(m + i)) FAIL("a container of the value is not constructed (destroyed, or never constructed)");
        live.erase(m + i);
        typedef std::string S;
        if (is_string(c[i].c)) reinterpret_cast<S*>(m + i)->~S(); else reinterpret_cast<Bytes*>(m + i)->~Bytes();
    }
}
void randomize(Rng& r, Cells const& c, uint8_t* m, int depth)
{
    for (size_t i = 0; i < c.size(); ++i) {
        if (c[i].k == 'D' || c[i].k == 'P') m[i] = r.chance(20) ? 0 : (uint8_t)r.next();
        else if (c[i].k == 'C') {
            size_t n = r.chance(25) ? 0 : r.below(depth > 1 ? 3 : 6);
            if (depth == 0 && r.chance(3)) n = 40;
            set_count(c[i].c, *c[i].e, m + i, n);
            for (size_t k = 0; k < n; ++k) randomize(r, *c[i].e, elem(c[i].c, m + i, k), depth + 1);
        }
    }
}
Bytes rdump(Cells const& c, uint8_t const* m)
{
    Bytes r;
    for (size_t i = 0; i < c.size(); ++i) {
        if (c[i].k == 'D') r.push_back(m[i]);
        else if (c[i].k == 'C') {
            uint64_t n = count_of(c[i].c, m + i);
            for (int k = 0; k < 8; ++k) r.push_back((uint8_t)(n >> (8 * k)));
            for (size_t k = 0; k < n; ++k) { Bytes e = rdump(*c[i].e, elem(c[i].c, m + i, k)); r.insert(r.end(), e.begin(), e.end()); }
        }
    }
    return r;
}
bool requal(Cells const& c, uint8_t const* a, uint8_t const* b)
{
    for (size_t i = 0; i < c.size(); ++i) {
        if (c[i].k == 'D') { if (a[i] != b[i]) return false; }
        else if (c[i].k == 'C') {
            size_t n = count_of(c[i].c, a + i);
            if (n != count_of(c[i].c, b + i)) return false;
            for (size_t k = 0; k < n; ++k) if (!requal(*c[i].e, elem(c[i].c, a + i, k), elem(c[i].c, b + i, k))) return false;
        }
    }
    return true;
}
void rcopy(Cells const& c, uint8_t* dst, uint8_t const* src)
{
    for (size_t i = 0; i < c.size(); ++i) {
        if (c[i].k == 'D' || c[i].k == 'P') dst[i] = src[i];
        else if (c[i].k == 'C') {
            size_t n = count_of(c[i].c, src + i);
            set_count(c[i].c, *c[i].e, dst + i, n);
            for (size_t k = 0; k < n; ++k) rcopy(*c[i].e, elem(c[i].c, dst + i, k), elem(c[i].c, src + i, k));
        }
    }
}
std::string image(Cells const& c, uint8_t const* m)
{
    std::string r;
    for (size_t i = 0; i < c.size(); ++i) {
        if (c[i].k == 'D' || c[i].k == 'P') { char t[4]; snprintf(t, 4, "%02x", m[i]); r += t; }
        else if (c[i].k == 'C') {
            size_t n = count_of(c[i].c, m + i);
            r += "{"; for (size_t k = 0; k < n; ++k) r += image(*c[i].e, elem(c[i].c, m + i, k)) + ";"; r += "}";
        }
    }
    return r;
}

Type const& World::numeric()
{
    static size_t const sizes[] = { 1, 1, 2, 4, 8, 4, 8, 3, 16 };
    size_t n = sizes[rng.below(plain_sizes ? 7 : 9)];
    Numeric* t = new Numeric(fresh("n"), n, n == 4 || n == 8 ? (rng.chance(40) ? Numeric::Float : rng.chance(50) ? Numeric::SInt : Numeric::UInt) : (rng.chance(50) ? Numeric::SInt : Numeric::UInt));
    reg.add(t);
    return *t;
}
Type const& World::array(Type const& on, size_t n) { Type* t = new Array(on, n); if (Type const* o = reg.get(t->getName())) { delete t; return *o; } reg.add(t); return *t; }
Type const& World::vec(Type const& on) { Type* t = new TVector(on); if (Type const* o = reg.get(t->getName())) { delete t; return *o; } reg.add(t); return *t; }
Type const& World::string()
{
    if (Type const* o = reg.get("/std/string")) return *o;
    if (!reg.has("/int8_t")) reg.add(new Numeric("/int8_t", 1, Numeric::SInt));
    Type* t = new TString(*reg.get("/int8_t"));
    reg.add(t);
    return *t;
}
Type const& World::compound(int depth)
{
    Compound* t = new Compound(fresh("c"));
    int n = rng.range(want_zero ? 0 : 1, 4);
    size_t off = 0;
    for (int i = 0; i < n; ++i) {
        if (rng.chance(40)) off += rng.range(1, 5);
        Type const& f = type(depth - 1);
        t->addField("f" + str(i), f, off);
        off += f.getSize();
    }
    if (rng.chance(40)) t->setSize(t->getSize() + rng.range(1, 7));
    reg.add(t);
    return *t;
}
Type const& World::type(int depth, bool)
{
    for (;;) {
        int k = (int)rng.below(100);
        if (depth <= 0 || k < 22) {
            if (want_ptr && rng.chance(25)) { Type* t = new Pointer(numeric()); reg.add(t); return *t; }
            if (want_opq && rng.chance(25)) { Type* t = new OpaqueType(fresh("o"), rng.range(1, 9)); reg.add(t); return *t; }
            if (want_enum && rng.chance(30)) {
                Enum* t = new Enum(fresh("e"));
                static size_t const sz[] = { 1, 2, 4, 8 };
                if (rng.chance(30) && !enum4) t->setSize(sz[rng.below(4)]);
                for (int i = 0, n = rng.range(0, 3); i < n; ++i) t->add("S" + str(i), (int)rng.next());
                reg.add(t); return *t;
            }
            if (want_cont && rng.chance(10)) return string();
            return numeric();
        }
        if (k < 45) return array(type(depth - 1), want_zero && rng.chance(12) ? 0 : rng.range(1, 4));
        if (k < 65 && want_cont) {
            Type const& e = type(depth - 1);
            if (e.getSize() == 0) continue;
            return rng.chance(20) ? string() : vec(e);
        }
        return compound(depth);
    }
}
std::string describe(Type const& t, int indent)
{
    std::string pad(indent, ' ');
    std::ostringstream o;
    o << pad << t.getName() << " size=" << t.getSize();
    switch (t.getCategory()) {
    case Type::Numeric: o << " numeric\n"; break;
    case Type::Enum: o << " enum"; for (auto const& v : static_cast<Enum const&>(t).values()) o << ' ' << v.first << '=' << v.second; o << '\n'; break;
    case Type::Pointer: o << " pointer\n"; break;
    case Type::Opaque: o << " opaque\n"; break;
    case Type::Array: o << " array of " << static_cast<Array const&>(t).getDimension() << ":\n" << describe(static_cast<Indirect const&>(t).getIndirection(), indent + 2); break;
    case Type::Container: o << " container of:\n" << describe(static_cast<Indirect const&>(t).getIndirection(), indent + 2); break;
    case Type::Compound:
        o << " compound:\n";
        for (Field const& f : static_cast<Compound const&>(t).getFields()) o << pad << "  @" << f.getOffset() << ' ' << f.getName() << ":\n" << describe(f.getType(), indent + 4);
        break;
    default: o << " null\n";
    }
    return o.str();
}
}
