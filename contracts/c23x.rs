//@include prelude.rs
//@include tree.rs
//@include strs.rs
// ---- what is written between the quotes of an attribute
pub open spec fn escc(c: u8) -> Seq<u8> {
    if c == 60 { seq![38u8, 108, 116, 59] }                        // <  &lt;
    else if c == 62 { seq![38u8, 103, 116, 59] }                   // >  &gt;
    else if c == 38 { seq![38u8, 97, 109, 112, 59] }               // &  &amp;
    else if c == 34 { seq![38u8, 113, 117, 111, 116, 59] }         // "  &quot;
    else if c == 9 { seq![38u8, 35, 57, 59] }                      // tab
    else if c == 10 { seq![38u8, 35, 49, 48, 59] }                 // newline
    else if c == 13 { seq![38u8, 35, 49, 51, 59] }                 // carriage return
    else { seq![c] }
}
pub open spec fn esc(s: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { seq![] } else { esc(s.drop_last()) + escc(s.last()) } }
// what an XML reader makes of it
pub open spec fn starts(s: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub open spec fn entity(s: Seq<u8>) -> Option<(u8, int)> {
    if starts(s, seq![38u8, 108, 116, 59]) { Some((60u8, 4)) }
    else if starts(s, seq![38u8, 103, 116, 59]) { Some((62u8, 4)) }
    else if starts(s, seq![38u8, 97, 109, 112, 59]) { Some((38u8, 5)) }
    else if starts(s, seq![38u8, 113, 117, 111, 116, 59]) { Some((34u8, 6)) }
    else if starts(s, seq![38u8, 35, 57, 59]) { Some((9u8, 4)) }
    else if starts(s, seq![38u8, 35, 49, 48, 59]) { Some((10u8, 5)) }
    else if starts(s, seq![38u8, 35, 49, 51, 59]) { Some((13u8, 5)) }
    else { None }
}
// attribute values: references are replaced, white space becomes a space; a quote, < or any other & has no business there
pub open spec fn unesc(s: Seq<u8>) -> Option<Seq<u8>> decreases s.len() {
    if s.len() == 0 { Some(seq![]) }
    else if s[0] == 38 {
        match entity(s) { Some((c, n)) => if 0 < n <= s.len() { match unesc(s.skip(n)) { Some(r) => Some(seq![c] + r), None => None } } else { None }, None => None }
    }
    else if s[0] == 34 || s[0] == 60 { None }
    else { match unesc(s.skip(1)) { Some(r) => Some(seq![if s[0] == 9 || s[0] == 10 || s[0] == 13 { 32u8 } else { s[0] }] + r), None => None } }
}
pub proof fn lemma_esc_front(s: Seq<u8>)
    requires s.len() > 0
    ensures esc(s) == escc(s[0]) + esc(s.skip(1))
    decreases s.len()
{
    if s.len() == 1 { assert(s.drop_last() =~= seq![]); assert(s.skip(1) =~= seq![]); assert(esc(s) =~= escc(s[0]) + esc(s.skip(1))); }
    else {
        lemma_esc_front(s.drop_last());
        assert(s.drop_last().skip(1) =~= s.skip(1).drop_last());
        assert(esc(s) =~= escc(s[0]) + esc(s.skip(1)));
    }
}
pub proof fn lemma_starts(p: Seq<u8>, r: Seq<u8>) ensures starts(p + r, p), (p + r).skip(p.len() as int) == r { assert((p + r).take(p.len() as int) =~= p); assert((p + r).skip(p.len() as int) =~= r); }
pub proof fn lemma_not(s: Seq<u8>, p: Seq<u8>, k: int) requires 0 <= k < p.len(), k < s.len(), s[k] != p[k] ensures !starts(s, p) { if starts(s, p) { assert(s.take(p.len() as int)[k] == s[k]); } }
pub proof fn lemma_entity(c: u8, r: Seq<u8>)
    requires escc(c).len() > 1
    ensures entity(escc(c) + r) == Some((c, escc(c).len() as int)), (escc(c) + r).skip(escc(c).len() as int) == r
{
    let e = escc(c); let s = e + r;
    lemma_starts(e, r);
    assert(s[1] == e[1]); assert(s[2] == e[2]); assert(s[3] == e[3]);
    if c != 60 { lemma_not(s, seq![38u8, 108, 116, 59], 1); }
    if c != 62 { lemma_not(s, seq![38u8, 103, 116, 59], 1); }
    if c != 38 { lemma_not(s, seq![38u8, 97, 109, 112, 59], 1); }
    if c != 34 { lemma_not(s, seq![38u8, 113, 117, 111, 116, 59], 1); }
    if c == 10 || c == 13 { lemma_not(s, seq![38u8, 35, 57, 59], 2); }
    if c == 13 { assert(s[3] == 51u8); lemma_not(s, seq![38u8, 35, 49, 48, 59], 3); }
}
// reading gives the text back
pub proof fn lemma_unesc(s: Seq<u8>)
    ensures unesc(esc(s)) == Some(s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_esc_front(s);
        lemma_unesc(s.skip(1));
        let e = escc(s[0]); let r = esc(s.skip(1)); let t = e + r;
        assert(seq![s[0]] + s.skip(1) =~= s);
        if e.len() > 1 { lemma_entity(s[0], r); assert(t[0] == 38u8); }
        else { assert(t[0] == s[0]); assert(t.skip(1) =~= r); }
    }
}
// the markup of an attribute never ends inside its value
pub proof fn lemma_esc_plain(s: Seq<u8>)
    ensures forall|i: int| 0 <= i < esc(s).len() ==> #[trigger] esc(s)[i] != 34 && esc(s)[i] != 60 && esc(s)[i] != 62
    decreases s.len()
{
    if s.len() > 0 {
        let a = esc(s.drop_last()); let b = escc(s.last());
        lemma_esc_plain(s.drop_last());
        assert forall|i: int| 0 <= i < esc(s).len() implies #[trigger] esc(s)[i] != 34 && esc(s)[i] != 60 && esc(s)[i] != 62 by {
            if i < a.len() { assert(esc(s)[i] == a[i]); } else { assert(esc(s)[i] == b[i - a.len()]); }
        }
    }
}
//@fn xmlEscape file=lang/tlb/export.cc filter=xmlEscape
//@spec
    ensures r@ == esc(source@)
//@loop 1
invariant i <= source@.len(), result@ == esc(source@.take(i as int))
decreases source@.len() - i
//@at loop1.end
proof { assert(source@.take(i as int).drop_last() =~= source@.take(i as int - 1)); }
//@at return
proof { assert(source@.take(source@.len() as int) =~= source@); }
//@end
// ---- what is written between <![CDATA[ and ]]>
pub open spec fn brk() -> Seq<u8> { seq![93u8, 93, 62] }                                   // ]]>
pub open spec fn cdo() -> Seq<u8> { seq![60u8, 33, 91, 67, 68, 65, 84, 65, 91] }           // <![CDATA[
pub open spec fn crr() -> Seq<u8> { seq![38u8, 35, 49, 51, 59] }                           // &#13;
pub open spec fn cdc(s: Seq<u8>, i: int) -> Seq<u8> {
    if s[i] == 62 && i >= 2 && s[i - 1] == 93 && s[i - 2] == 93 { brk() + cdo() + seq![62u8] }
    else if s[i] == 13 { brk() + crr() + cdo() }
    else { seq![s[i]] }
}
pub open spec fn cd(s: Seq<u8>, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { cd(s, n - 1) + cdc(s, n - 1) } }
// reading: inside a block the text is taken as it is up to the first ]]>, between blocks there are only references
pub open spec fn rd(t: Seq<u8>, inside: bool) -> Option<Seq<u8>> decreases t.len() {
    if inside {
        if starts(t, brk()) { rd(t.skip(3), false) }
        else if t.len() == 0 { None }
        else { match rd(t.skip(1), true) { Some(r) => Some(seq![if t[0] == 13 { 10u8 } else { t[0] }] + r), None => None } }
    }
    else if t.len() == 0 { Some(seq![]) }
    else if starts(t, cdo()) { rd(t.skip(9), true) }
    else if starts(t, crr()) { match rd(t.skip(5), false) { Some(r) => Some(seq![13u8] + r), None => None } }
    else { None }
}
pub open spec fn tl(s: Seq<u8>, i: int) -> Seq<u8> decreases s.len() - i { if i >= s.len() { brk() } else { cdc(s, i) + tl(s, i + 1) } }
pub proof fn lemma_cd_tl(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures cd(s, i) + tl(s, i) == cd(s, s.len() as int) + brk()
    decreases s.len() - i
{ if i < s.len() { lemma_cd_tl(s, i + 1); assert(cd(s, i) + tl(s, i) =~= cd(s, i + 1) + tl(s, i + 1)); } }
// the first bytes of what follows
pub proof fn lemma_tl_head(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures tl(s, i).len() > 0, tl(s, i)[0] == 93 || (i < s.len() && tl(s, i)[0] == s[i] && tl(s, i) == seq![s[i]] + tl(s, i + 1) && s[i] != 13 && !(s[i] == 62 && i >= 2 && s[i - 1] == 93 && s[i - 2] == 93)),
        i == s.len() || cdc(s, i).len() > 1 ==> starts(tl(s, i), brk()) && tl(s, i)[0] == 93 && tl(s, i)[1] == 93 && tl(s, i)[2] == 62
{
    if i < s.len() { let e = cdc(s, i); let t = tl(s, i); assert(t[0] == e[0]); if e.len() > 1 { lemma_starts(brk(), t.skip(3)); assert(t =~= brk() + t.skip(3)); assert(t[1] == e[1]); assert(t[2] == e[2]); } }
    else { assert(brk().take(3) =~= brk()); }
}
pub proof fn lemma_rd(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len()
    ensures rd(tl(s, i), true) == Some(s.skip(i))
    decreases s.len() - i
{
    let t = tl(s, i);
    lemma_tl_head(s, i);
    if i == s.len() {
        assert(t.skip(3) =~= seq![]);
        assert(s.skip(i) =~= seq![]);
        assert(rd(t.skip(3), false) == Some(Seq::<u8>::empty()));
    } else {
        let r = tl(s, i + 1);
        lemma_rd(s, i + 1);
        lemma_tl_head(s, i + 1);
        assert(seq![s[i]] + s.skip(i + 1) =~= s.skip(i));
        let e = cdc(s, i);
        if s[i] == 62 && i >= 2 && s[i - 1] == 93 && s[i - 2] == 93 {
            let u = seq![62u8] + r;
            assert(t.skip(3) =~= cdo() + u);
            lemma_starts(cdo(), u);
            lemma_not(u, brk(), 0);
            assert(u.skip(1) =~= r);
            assert(rd(u, true) == Some(s.skip(i)));
            assert(rd(t.skip(3), false) == rd(u, true));
        } else if s[i] == 13 {
            let u = cdo() + r;
            assert(t.skip(3) =~= crr() + u);
            lemma_starts(crr(), u);
            lemma_not(crr() + u, cdo(), 0);
            lemma_starts(cdo(), r);
            assert(rd(u, false) == rd(r, true));
            assert(rd(t.skip(3), false) == Some(s.skip(i)));
        } else {
            assert(t =~= seq![s[i]] + r);
            assert(t.skip(1) =~= r);
            assert(!starts(t, brk())) by {
                if starts(t, brk()) {
                    assert(t.take(3)[0] == t[0]); assert(t.take(3)[1] == t[1]); assert(t.take(3)[2] == t[2]);
                    assert(r[0] == 93 && r[1] == 62);
                    // the second bracket is a character of the text: a block end would go on with a bracket
                    assert(i + 1 < s.len() && cdc(s, i + 1).len() == 1);
                    assert(r =~= seq![s[i + 1]] + tl(s, i + 2));
                    lemma_tl_head(s, i + 2);
                    assert(tl(s, i + 2)[0] == 62);
                }
            }
        }
    }
}
// reading a CDATA section gives the text back
pub proof fn lemma_cdata(s: Seq<u8>) ensures rd(cd(s, s.len() as int) + brk(), true) == Some(s)
{ lemma_cd_tl(s, 0); lemma_rd(s, 0); assert(cd(s, 0) + tl(s, 0) =~= tl(s, 0)); assert(s.skip(0) =~= s); }
//@fn cdataEscape file=lang/tlb/export.cc filter=cdataEscape
//@spec
    ensures r@ == cd(source@, source@.len() as int)
//@loop 1
invariant i <= source@.len(), result@ == cd(source@, i as int)
decreases source@.len() - i
//@end
