// Byte-order conversion against a reference that reverses each scalar.
#include "gen.hh"
#define endian_swap endian_swap_here   // the header defines it out of line
#include <typelib/endianness.hh>
using namespace gen;
char const* g_prop = "C09";
struct Refused {};
static void ref(Type const& t, uint8_t* m, bool compiled)
{
    switch (t.getCategory()) {
    case Type::Numeric: { size_t n = t.getSize(); if (n != 1 && n != 2 && n != 4 && n != 8) throw Refused(); if (m) std::reverse(m, m + n); break; }
    case Type::Enum: if (m) std::reverse(m, m + 4); break;
    case Type::Pointer: throw Refused();
    case Type::Opaque: if (compiled) throw Refused(); break;
    case Type::Container: {
        if (compiled) throw Refused();
        Container const& c = static_cast<Container const&>(t);
        size_t n = m ? count_of(&c, m) : 0;
        for (size_t i = 0; i < n; ++i) ref(c.getIndirection(), elem(&c, m, i), compiled);
        break; }
    case Type::Array: {
        Array const& a = static_cast<Array const&>(t);
        size_t n = a.getDimension();
        if (!n || !m) { if (compiled) ref(a.getIndirection(), 0, compiled); }
        else for (size_t i = 0; i < n; ++i) ref(a.getIndirection(), m + i * a.getIndirection().getSize(), compiled);
        break; }
    case Type::Compound:
        for (Field const& f : static_cast<Compound const&>(t).getFields()) ref(f.getType(), m ? m + f.getOffset() : 0, compiled);
        break;
    default: throw Refused();
    }
}
template <class T> static void scalar(Rng& r)
{
    T v; uint8_t b[sizeof(T)], s[sizeof(T)], o[sizeof(T)];
    for (size_t i = 0; i < sizeof(T); ++i) b[i] = r.chance(10) ? (r.chance(50) ? 0 : 255) : (uint8_t)r.next();
    memcpy(&v, b, sizeof(T));
    T w = Endian::swap(v);
    memcpy(o, &w, sizeof(T));
    memcpy(s, b, sizeof(T)); std::reverse(s, s + sizeof(T));
    note("scalar " + hexs(b, sizeof(T)));
    CHECK(!memcmp(s, o, sizeof(T)), "swap of a scalar of " << sizeof(T) << " bytes gives " << hexs(o, sizeof(T)));
    T x; Endian::swap(w, x);
    CHECK(!memcmp(&x, b, sizeof(T)), "swapping twice gives " << hexs(&x, sizeof(T)));
    T y = Endian::to_big(v), z = Endian::to_little(v), n = Endian::to_network(v);
    CHECK(!memcmp(&y, s, sizeof(T)) && !memcmp(&z, b, sizeof(T)) && !memcmp(&n, s, sizeof(T)), "to_big/to_little/to_network");
    T p = Endian::from_big(y), q = Endian::from_little(z), k = Endian::from_network(n);
    CHECK(!memcmp(&p, b, sizeof(T)) && !memcmp(&q, b, sizeof(T)) && !memcmp(&k, b, sizeof(T)), "from_big/from_little/from_network");
    T yy, zz, nn; Endian::to_big(v, yy); Endian::to_little(v, zz); Endian::to_network(v, nn);
    CHECK(!memcmp(&yy, s, sizeof(T)) && !memcmp(&zz, b, sizeof(T)) && !memcmp(&nn, s, sizeof(T)), "to_* into a buffer");
    T pp, qq, kk; Endian::from_big(y, pp); Endian::from_little(z, qq); Endian::from_network(n, kk);
    CHECK(!memcmp(&pp, b, sizeof(T)) && !memcmp(&qq, b, sizeof(T)) && !memcmp(&kk, b, sizeof(T)), "from_* into a buffer");
}
void run_case(Rng& r, uint64_t)
{
    scalar<int8_t>(r); scalar<uint8_t>(r); scalar<int16_t>(r); scalar<uint16_t>(r); scalar<int32_t>(r); scalar<uint32_t>(r);
    scalar<int64_t>(r); scalar<uint64_t>(r); scalar<float>(r); scalar<double>(r);
    live.clear();
    World w(r);
    w.enum4 = true; w.plain_sizes = r.chance(85);
    w.want_ptr = r.chance(10); w.want_opq = r.chance(10); w.want_cont = r.chance(25);
    Type const& t = r.chance(60) ? w.compound(r.range(1, 4)) : w.type(r.range(1, 4));
    note(describe(t));
    size_t n = t.getSize();
    Cells c = cells(t, true, true);
    // in place
    {
        Val v(c, n), e(c, n);
        v.rand(r); e.make(); rcopy(c, e.m, v.m);
        note("value " + image(c, v.m));
        bool refused = false, threw = false;
        try { ref(t, e.m, false); } catch (Refused&) { refused = true; }
        EndianSwapVisitor sw;
        try { sw.apply(Value(v.m, t)); } catch (UnsupportedEndianSwap&) { threw = true; } catch (UnsupportedType&) { threw = true; }
        CHECK(threw == refused, (threw ? "in-place swap is refused" : "in-place swap is not refused"));
        if (!refused) {
            CHECK(image(c, v.m) == image(c, e.m), "in-place swap gives " << image(c, v.m) << " instead of " << image(c, e.m));
            Val b(c, n); b.make(); rcopy(c, b.m, v.m);
            ref(t, b.m, false);
            endian_swap(Value(v.m, t));
            CHECK(image(c, v.m) == image(c, b.m), "swapping back in place gives " << image(c, v.m));
            ++g_stats["in_place"];
        } else ++g_stats["refused"];
    }
    // compiled
    bool refused = false, threw = false;
    Bytes in(n), want, got(n, 0x5A);
    for (size_t i = 0; i < n; ++i) in[i] = (uint8_t)r.next();
    want = in;
    uint8_t dummy = 0;
    try { ref(t, n ? &want[0] : &dummy, true); } catch (Refused&) { refused = true; }
    CompileEndianSwapVisitor comp;
    if (r.chance(30)) { try { comp.apply(w.compound(1)); } catch (UnsupportedEndianSwap&) {} }   // what was compiled before does not matter
    try { comp.apply(t); } catch (UnsupportedEndianSwap&) { threw = true; }
    CHECK(threw == refused, (threw ? "compiled swap is refused" : "compiled swap is not refused"));
    if (refused) return;
    note("compiled " + show_ops(comp.m_compiled));
    std::unique_ptr<uint8_t[]> a(new uint8_t[n]), b(new uint8_t[n]);
    std::copy(in.begin(), in.end(), a.get()); std::fill(b.get(), b.get() + n, 0x5A);
    note("value " + hexs(in));
    comp.swap(Value(a.get(), t), Value(b.get(), t));
    CHECK(Bytes(a.get(), a.get() + n) == in, "the input is changed");
    CHECK(Bytes(b.get(), b.get() + n) == want, "compiled swap gives " << hexs(b.get(), n) << " instead of " << hexs(want));
    comp.swap(Value(b.get(), t), Value(a.get(), t));
    CHECK(Bytes(a.get(), a.get() + n) == in, "swapping back gives " << hexs(a.get(), n));
    ++g_stats["compiled"];
}
