//@include tree.rs
// ---------------------------------------------------------------- scalars
pub open spec fn bswap2(x: u16) -> u16 { ((x >> 8) & 0xff) | ((x & 0xff) << 8) }
pub open spec fn bswap4(x: u32) -> u32 { ((x >> 24) & 0xff) | ((x >> 8) & 0xff00) | ((x & 0xff00) << 8) | ((x & 0xff) << 24) }
pub open spec fn bswap8(x: usize) -> usize { ((bswap4((x & 0xffff_ffff) as u32) as usize) << 32) | (bswap4((x >> 32) as u32) as usize) }
// byte i of the result is byte n-1-i of the argument, and swapping twice is the identity
pub proof fn theorem_bswap2(x: u16)
    ensures bswap2(x) & 0xff == (x >> 8) & 0xff, (bswap2(x) >> 8) & 0xff == x & 0xff, bswap2(bswap2(x)) == x
{
    assert((((x >> 8) & 0xff) | ((x & 0xff) << 8)) & 0xff == (x >> 8) & 0xff) by (bit_vector);
    assert(((((x >> 8) & 0xff) | ((x & 0xff) << 8)) >> 8) & 0xff == x & 0xff) by (bit_vector);
    let y = bswap2(x);
    assert(y == ((x >> 8) & 0xff) | ((x & 0xff) << 8) ==> ((y >> 8) & 0xff) | ((y & 0xff) << 8) == x) by (bit_vector);
}
pub proof fn theorem_bswap4(x: u32)
    ensures bswap4(x) & 0xff == (x >> 24) & 0xff, (bswap4(x) >> 8) & 0xff == (x >> 16) & 0xff, (bswap4(x) >> 16) & 0xff == (x >> 8) & 0xff, (bswap4(x) >> 24) & 0xff == x & 0xff,
        bswap4(bswap4(x)) == x
{
    let y = bswap4(x);
    assert(y == ((x >> 24) & 0xff) | ((x >> 8) & 0xff00) | ((x & 0xff00) << 8) | ((x & 0xff) << 24) ==>
        y & 0xff == (x >> 24) & 0xff && (y >> 8) & 0xff == (x >> 16) & 0xff && (y >> 16) & 0xff == (x >> 8) & 0xff && (y >> 24) & 0xff == x & 0xff
        && ((y >> 24) & 0xff) | ((y >> 8) & 0xff00) | ((y & 0xff00) << 8) | ((y & 0xff) << 24) == x) by (bit_vector);
}
pub open spec fn b4(x: u32, i: int) -> u8 { if i == 0 { (x & 0xff) as u8 } else if i == 1 { ((x >> 8) & 0xff) as u8 } else if i == 2 { ((x >> 16) & 0xff) as u8 } else { ((x >> 24) & 0xff) as u8 } }
pub open spec fn b8(x: usize, i: int) -> u8 { if i < 4 { b4((x & 0xffff_ffff) as u32, i) } else { b4((x >> 32) as u32, i - 4) } }
pub proof fn theorem_bswap8(x: usize)
    ensures forall|i: int| 0 <= i < 8 ==> #[trigger] b8(bswap8(x), i) == b8(x, 7 - i), bswap8(bswap8(x)) == x
{
    let l = (x & 0xffff_ffff) as u32; let h = (x >> 32) as u32;
    let sl = bswap4(l); let sh = bswap4(h);
    let y = bswap8(x);
    theorem_bswap4(l); theorem_bswap4(h);
    assert(y == ((sl as usize) << 32) | (sh as usize) ==> ((y & 0xffff_ffff) as u32) == sh && ((y >> 32) as u32) == sl) by (bit_vector);
    assert((((x & 0xffff_ffff) as u32) as usize) | ((((x >> 32) as u32) as usize) << 32) == x) by (bit_vector);
    let z = bswap8(y);
    assert(z == ((h as usize) << 32) | (l as usize));
    assert(((h as usize) << 32) | (l as usize) == (l as usize) | ((h as usize) << 32)) by (bit_vector);
}
//@fn swap_helper1 name=swap_helper types=^const~unsigned~char file=typelib/endian_swap.hh filter=swap_helper
//@spec
    ensures *final(buffer) == data
//@end
//@fn swap_helper2 name=swap_helper types=^const~unsigned~short file=typelib/endian_swap.hh filter=swap_helper wrap=yes
//@spec
    ensures *final(buffer) == bswap2(data)
//@at assign:buffer
    assert($rhs == ((data >> 8) & 0xff) | ((data & 0xff) << 8)) by (bit_vector);
//@end
//@fn swap_helper4 name=swap_helper types=^const~unsigned~int file=typelib/endian_swap.hh filter=swap_helper wrap=yes
//@spec
    ensures *final(buffer) == bswap4(data)
//@at assign:buffer
    assert($rhs == ((data >> 24) & 0xff) | ((data >> 8) & 0xff00) | ((data & 0xff00) << 8) | ((data & 0xff) << 24)) by (bit_vector);
//@end
//@fn swap_helper8 name=swap_helper types=^const~unsigned~long file=typelib/endian_swap.hh filter=swap_helper wrap=yes
//@spec
    ensures *final(buffer) == bswap8(data)
//@end
// ---------------------------------------------------------------- the compiled description (typelib/endianness.hh)
pub const ES_SKIP: usize = 0xffff_ffff_ffff_ffff;
pub const ES_ARRAY: usize = 0xffff_ffff_ffff_fffe;
pub const ES_END: usize = 0xffff_ffff_ffff_fffd;
pub const ES_SWAP_4: usize = 0xffff_ffff_ffff_fffc;
pub const ES_SWAP_8: usize = 0xffff_ffff_ffff_fffb;
pub const ES_SIZEOFENUM: usize = 4;
pub open spec fn lim() -> int { 0x7fff_ffff }
// where the block that starts at i ends
pub open spec fn eend(s: Seq<usize>, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() || s[i] == ES_END { i }
    else if s[i] == ES_SKIP { if i + 1 < s.len() { eend(s, i + 2) } else { i } }
    else if s[i] == ES_ARRAY { if i + 2 < s.len() { let e = eend(s, i + 3); if e <= i || e >= s.len() { i } else { eend(s, e + 1) } } else { i } }
    else { eend(s, i + 1) }
}
// how many bytes the block writes
pub open spec fn pmul(a: int, b: int) -> int { a * b }
pub open spec fn eln(s: Seq<usize>, i: int) -> int decreases s.len() - i {
    if i < 0 || i >= s.len() || s[i] == ES_END { 0 }
    else if s[i] == ES_SKIP { if i + 1 < s.len() { s[i + 1] + eln(s, i + 2) } else { 0 } }
    else if s[i] == ES_ARRAY { if i + 2 < s.len() { let e = eend(s, i + 3); if i < e < s.len() { pmul(s[i + 2] as int, s[i + 1] as int) + eln(s, e + 1) } else { 0 } } else { 0 } }
    else if s[i] == ES_SWAP_4 { 4 + eln(s, i + 1) }
    else if s[i] == ES_SWAP_8 { 8 + eln(s, i + 1) }
    else { 1 + eln(s, i + 1) }
}
pub open spec fn ewf(s: Seq<usize>, i: int) -> bool decreases s.len() - i {
    if i < 0 || i > s.len() { false }
    else if i == s.len() || s[i] == ES_END { true }
    else if s[i] == ES_SKIP { i + 1 < s.len() && s[i + 1] <= lim() && ewf(s, i + 2) }
    else if s[i] == ES_ARRAY {
        i + 2 < s.len() && 1 <= s[i + 1] <= lim() && s[i + 2] <= lim() && ewf(s, i + 3) && s[i + 2] == eln(s, i + 3) && ({ let e = eend(s, i + 3); i < e < s.len() && ewf(s, e + 1) })
    }
    else { (s[i] == ES_SWAP_4 || s[i] == ES_SWAP_8 || s[i] <= lim()) && ewf(s, i + 1) }
}
pub open spec fn ident(o: int, n: nat) -> Seq<int> { Seq::new(n, |k: int| o + k) }
pub open spec fn rev(o: int, n: nat) -> Seq<int> { Seq::new(n, |k: int| o + n - 1 - k) }
// for every byte the block writes from o on, the byte of the input it takes; d is the displacement of the array element
pub open spec fn srcs(s: Seq<usize>, i: int, o: int, d: int) -> Seq<int> decreases s.len() - i, 0nat {
    if i < 0 || i >= s.len() || s[i] == ES_END { seq![] }
    else if s[i] == ES_SKIP { if i + 1 < s.len() { ident(o, s[i + 1] as nat) + srcs(s, i + 2, o + s[i + 1], d) } else { seq![] } }
    else if s[i] == ES_SWAP_4 { rev(o, 4) + srcs(s, i + 1, o + 4, d) }
    else if s[i] == ES_SWAP_8 { rev(o, 8) + srcs(s, i + 1, o + 8, d) }
    else if s[i] == ES_ARRAY {
        let e = if i + 2 < s.len() { eend(s, i + 3) } else { i };
        if i < e < s.len() { let r = srep(s, i + 3, o, d, s[i + 2] as int, s[i + 1] as nat); r + srcs(s, e + 1, o + r.len(), d) } else { seq![] }
    }
    else { seq![s[i] + d] + srcs(s, i + 1, o + 1, d) }
}
// n elements of the block at i
pub open spec fn srep(s: Seq<usize>, i: int, o: int, d: int, es: int, n: nat) -> Seq<int> decreases s.len() - i, n + 1 {
    if n == 0 { seq![] } else { let r = srep(s, i, o, d, es, (n - 1) as nat); r + srcs(s, i, o + r.len(), d + es * (n - 1)) }
}
pub open spec fn agree(a: Seq<usize>, c: Seq<usize>, i: int, e: int) -> bool { forall|k: int| i <= k <= e && 0 <= k < a.len() && k < c.len() ==> a[k] == c[k] }
pub proof fn lemma_eend(s: Seq<usize>, i: int)
    requires ewf(s, i)
    ensures i <= eend(s, i) <= s.len(), eend(s, i) < s.len() ==> s[eend(s, i)] == ES_END
    decreases s.len() - i
{
    if i == s.len() || s[i] == ES_END {} else if s[i] == ES_SKIP { lemma_eend(s, i + 2); }
    else if s[i] == ES_ARRAY { lemma_eend(s, i + 3); lemma_eend(s, eend(s, i + 3) + 1); }
    else { lemma_eend(s, i + 1); }
}
pub open spec fn nx(s: Seq<usize>, i: int) -> int { if s[i] == ES_SKIP { i + 2 } else if s[i] == ES_ARRAY { eend(s, i + 3) + 1 } else { i + 1 } }
pub open spec fn hd(s: Seq<usize>, i: int, o: int, d: int) -> Seq<int> {
    if s[i] == ES_SKIP { ident(o, s[i + 1] as nat) } else if s[i] == ES_SWAP_4 { rev(o, 4) } else if s[i] == ES_SWAP_8 { rev(o, 8) }
    else if s[i] == ES_ARRAY { srep(s, i + 3, o, d, s[i + 2] as int, s[i + 1] as nat) } else { seq![s[i] + d] }
}
pub proof fn lemma_step(s: Seq<usize>, i: int)
    requires ewf(s, i), i < s.len(), s[i] != ES_END
    ensures ewf(s, nx(s, i)), i < nx(s, i) <= s.len(), eend(s, i) == eend(s, nx(s, i)), nx(s, i) <= eend(s, i) <= s.len(),
        s[i] == ES_ARRAY ==> ewf(s, i + 3) && i + 3 <= eend(s, i + 3) < s.len() && s[eend(s, i + 3)] == ES_END,
        forall|o: int, d: int| #[trigger] srcs(s, i, o, d) == hd(s, i, o, d) + srcs(s, nx(s, i), o + hd(s, i, o, d).len(), d)
{
    lemma_eend(s, i);
    lemma_eend(s, nx(s, i));
    if s[i] == ES_ARRAY { lemma_eend(s, i + 3); }
}
// a closed block means the same wherever the rest changes
pub proof fn lemma_local(a: Seq<usize>, c: Seq<usize>, i: int)
    requires ewf(a, i), eend(a, i) < a.len(), a.len() <= c.len(), agree(a, c, i, eend(a, i))
    ensures ewf(c, i), eend(c, i) == eend(a, i), eln(c, i) == eln(a, i), forall|o: int, d: int| #[trigger] srcs(c, i, o, d) == srcs(a, i, o, d)
    decreases a.len() - i
{
    lemma_eend(a, i);
    assert(a[i] == c[i]);
    if a[i] != ES_END {
        lemma_step(a, i);
        if a[i] == ES_SKIP { assert(a[i + 1] == c[i + 1]); }
        if a[i] == ES_ARRAY { assert(a[i + 1] == c[i + 1] && a[i + 2] == c[i + 2]); lemma_local(a, c, i + 3); }
        lemma_local(a, c, nx(a, i));
        assert(nx(c, i) == nx(a, i));
        lemma_step(c, i);
        assert forall|o: int, d: int| #[trigger] srcs(c, i, o, d) == srcs(a, i, o, d) by {
            if a[i] == ES_ARRAY { lemma_local_rep(a, c, i + 3, o, d, a[i + 2] as int, a[i + 1] as nat); }
            let h = hd(a, i, o, d);
            assert(hd(c, i, o, d) == h);
            assert(srcs(a, i, o, d) == h + srcs(a, nx(a, i), o + h.len(), d));
            assert(srcs(c, i, o, d) == h + srcs(c, nx(a, i), o + h.len(), d));
        }
    }
}
pub proof fn lemma_local_rep(a: Seq<usize>, c: Seq<usize>, i: int, o: int, d: int, es: int, n: nat)
    requires forall|o: int, d: int| #[trigger] srcs(c, i, o, d) == srcs(a, i, o, d)
    ensures srep(c, i, o, d, es, n) == srep(a, i, o, d, es, n)
    decreases n
{
    if n > 0 {
        lemma_local_rep(a, c, i, o, d, es, (n - 1) as nat);
        let r = srep(a, i, o, d, es, (n - 1) as nat);
        assert(srcs(c, i, o + r.len(), d + es * (n - 1)) == srcs(a, i, o + r.len(), d + es * (n - 1)));
        assert(srep(a, i, o, d, es, n) == r + srcs(a, i, o + r.len(), d + es * (n - 1)));
        assert(srep(c, i, o, d, es, n) == r + srcs(c, i, o + r.len(), d + es * (n - 1)));
    }
}
pub open spec fn open_at(a: Seq<usize>, st: int) -> bool { ewf(a, st) && eend(a, st) == a.len() }
// code appended to an open block
pub proof fn lemma_append(a: Seq<usize>, x: Seq<usize>, i: int)
    requires open_at(a, i)
    ensures ewf(a + x, i) == ewf(a + x, a.len() as int), ewf(a + x, i) ==> eend(a + x, i) == eend(a + x, a.len() as int),
        forall|o: int, d: int| #[trigger] srcs(a + x, i, o, d) == srcs(a, i, o, d) + srcs(a + x, a.len() as int, o + srcs(a, i, o, d).len(), d)
    decreases a.len() - i
{
    let c = a + x;
    if i == a.len() { assert forall|o: int, d: int| #[trigger] srcs(c, i, o, d) == srcs(a, i, o, d) + srcs(c, a.len() as int, o + srcs(a, i, o, d).len(), d) by { assert(srcs(a, i, o, d) =~= seq![]); assert(srcs(c, i, o, d) =~= seq![] + srcs(c, i, o, d)); } }
    else {
        if a[i] == ES_END { assert(eend(a, i) == i); }
        lemma_step(a, i);
        assert(c[i] == a[i]);
        if a[i] == ES_SKIP { assert(a[i + 1] == c[i + 1]); }
        if a[i] == ES_ARRAY { assert(a[i + 1] == c[i + 1] && a[i + 2] == c[i + 2]); lemma_local(a, c, i + 3); }
        assert(nx(c, i) == nx(a, i));
        lemma_append(a, x, nx(a, i));
        assert(ewf(c, i) == ewf(c, nx(a, i)));
        lemma_head(c, i);
        assert forall|o: int, d: int| #[trigger] srcs(c, i, o, d) == srcs(a, i, o, d) + srcs(c, a.len() as int, o + srcs(a, i, o, d).len(), d) by {
            if a[i] == ES_ARRAY { lemma_local_rep(a, c, i + 3, o, d, a[i + 2] as int, a[i + 1] as nat); }
            let h = hd(a, i, o, d); let o1 = o + h.len();
            assert(hd(c, i, o, d) == h);
            let r = srcs(a, nx(a, i), o1, d);
            assert(srcs(a, i, o, d) == h + r);
            assert(srcs(c, nx(a, i), o1, d) == r + srcs(c, a.len() as int, o1 + r.len(), d));
            assert(srcs(c, i, o, d) == h + srcs(c, nx(a, i), o1, d));
            assert(h + (r + srcs(c, a.len() as int, o1 + r.len(), d)) =~= (h + r) + srcs(c, a.len() as int, o1 + r.len(), d));
        }
    }
}
pub proof fn lemma_head(s: Seq<usize>, i: int)
    requires 0 <= i < s.len(), s[i] != ES_END, s[i] == ES_SKIP ==> i + 1 < s.len(), s[i] == ES_ARRAY ==> i + 2 < s.len() && i < eend(s, i + 3) < s.len()
    ensures forall|o: int, d: int| #[trigger] srcs(s, i, o, d) == hd(s, i, o, d) + srcs(s, nx(s, i), o + hd(s, i, o, d).len(), d)
{}
// a final skip made longer
pub proof fn lemma_longer(a: Seq<usize>, c: Seq<usize>, k: int, i: int)
    requires open_at(a, i), i <= a.len() - 2, a[a.len() - 2] == ES_SKIP, k >= 0, a[a.len() - 1] + k <= lim(), c == a.update(a.len() - 1, (a[a.len() - 1] + k) as usize)
    ensures open_at(c, i), forall|o: int, d: int| #[trigger] srcs(c, i, o, d) == srcs(a, i, o, d) + ident(o + srcs(a, i, o, d).len(), k as nat)
    decreases a.len() - i
{
    let z = a.len() - 1;
    let n = a[z];
    if a[i] == ES_END { assert(eend(a, i) == i); }
    lemma_step(a, i);
    if i == z - 1 {
        assert(c[i] == a[i]);
        assert(ewf(c, i + 2) && eend(c, i + 2) == c.len());
        assert(ewf(c, i) && eend(c, i) == eend(c, i + 2));
        assert forall|o: int, d: int| #[trigger] srcs(c, i, o, d) == srcs(a, i, o, d) + ident(o + srcs(a, i, o, d).len(), k as nat) by {
            assert(srcs(a, i + 2, o + n, d) =~= seq![]); assert(srcs(c, i + 2, o + n + k, d) =~= seq![]);
            assert(srcs(a, i, o, d) =~= ident(o, n as nat));
            assert(srcs(c, i, o, d) =~= ident(o, n as nat) + ident(o + n, k as nat));
        }
    } else {
        if a[i] == ES_SKIP { assert(a[i + 1] != ES_SKIP); assert(c[i + 1] == a[i + 1]); }
        if a[i] == ES_ARRAY {
            let e = eend(a, i + 3);
            lemma_inblock(a, i + 3);
            assert(a[e] == ES_END && a[i + 1] != ES_SKIP && a[i + 2] != ES_SKIP);
            assert(e != z - 1);
            if e == z { lemma_eend(a, z); lemma_last(a, i + 3); }
            assert(c[i + 1] == a[i + 1] && c[i + 2] == a[i + 2]);
            lemma_local(a, c, i + 3);
        }
        let j = nx(a, i);
        if j > z - 1 {
            if j == z { assert(a[i] != ES_ARRAY || a[z - 1] == ES_END); assert(false); }
            assert(j == z + 1);
            assert(false);
        }
        assert(c[i] == a[i]);
        assert(nx(c, i) == j);
        lemma_longer(a, c, k, j);
        lemma_head(c, i);
        assert(ewf(c, j) && eend(c, j) == c.len());
        assert(ewf(c, i) && eend(c, i) == eend(c, j));
        assert forall|o: int, d: int| #[trigger] srcs(c, i, o, d) == srcs(a, i, o, d) + ident(o + srcs(a, i, o, d).len(), k as nat) by {
            if a[i] == ES_ARRAY { lemma_local_rep(a, c, i + 3, o, d, a[i + 2] as int, a[i + 1] as nat); }
            let h = hd(a, i, o, d); let o1 = o + h.len();
            assert(hd(c, i, o, d) == h);
            let r = srcs(a, j, o1, d);
            assert(srcs(a, i, o, d) == h + r);
            assert(srcs(c, i, o, d) == h + srcs(c, j, o1, d));
            assert(h + (r + ident(o1 + r.len(), k as nat)) =~= (h + r) + ident(o1 + r.len(), k as nat));
        }
    }
}
pub proof fn lemma_last(a: Seq<usize>, i: int)
    requires ewf(a, i), eend(a, i) == a.len() - 1, i <= a.len() - 2
    ensures a[a.len() - 2] != ES_SKIP
{ lemma_inblock(a, i); }
// no skip can be the word before the end of a closed block, nor the end itself
pub proof fn lemma_inblock(a: Seq<usize>, i: int)
    requires ewf(a, i), eend(a, i) < a.len()
    ensures eend(a, i) > i ==> a[eend(a, i) - 1] != ES_SKIP, a[eend(a, i)] == ES_END
    decreases a.len() - i
{
    lemma_eend(a, i);
    if a[i] == ES_END {} else if a[i] == ES_SKIP { lemma_eend(a, i + 2); lemma_inblock(a, i + 2); }
    else if a[i] == ES_ARRAY { let e = eend(a, i + 3); lemma_eend(a, i + 3); lemma_eend(a, e + 1); lemma_inblock(a, i + 3); lemma_inblock(a, e + 1); }
    else { lemma_eend(a, i + 1); lemma_inblock(a, i + 1); }
}
pub proof fn lemma_eln(s: Seq<usize>, i: int)
    requires ewf(s, i)
    ensures forall|o: int, d: int| (#[trigger] srcs(s, i, o, d)).len() == eln(s, i), eln(s, i) >= 0
    decreases s.len() - i
{
    if i == s.len() || s[i] == ES_END {}
    else {
        lemma_step(s, i);
        lemma_eln(s, nx(s, i));
        if s[i] == ES_ARRAY { lemma_eln(s, i + 3); lemma_srep_len(s, i + 3, 0, 0, s[i + 1] as nat); assert(pmul(s[i + 2] as int, s[i + 1] as int) >= 0); }
        assert forall|o: int, d: int| (#[trigger] srcs(s, i, o, d)).len() == eln(s, i) by {
            if s[i] == ES_ARRAY { lemma_srep_len(s, i + 3, o, d, s[i + 1] as nat); }
            let h = hd(s, i, o, d);
            assert(srcs(s, nx(s, i), o + h.len(), d).len() == eln(s, nx(s, i)));
        }
    }
}
pub proof fn lemma_srep_len(s: Seq<usize>, i: int, o: int, d: int, n: nat)
    requires forall|o: int, d: int| (#[trigger] srcs(s, i, o, d)).len() == eln(s, i)
    ensures srep(s, i, o, d, eln(s, i), n).len() == pmul(eln(s, i), n as int)
    decreases n
{
    let es = eln(s, i);
    if n > 0 {
        lemma_srep_len(s, i, o, d, (n - 1) as nat);
        let r = srep(s, i, o, d, es, (n - 1) as nat);
        assert(srep(s, i, o, d, es, n) == r + srcs(s, i, o + r.len(), d + es * (n - 1)));
        assert(pmul(es, n as int) == pmul(es, n - 1) + es) by (nonlinear_arith);
    } else { assert(pmul(es, 0) == 0) by (nonlinear_arith); }
}
