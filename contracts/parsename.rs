//@include strs.rs
// Type::Category
pub const Array: u32 = 1;
pub const Pointer: u32 = 3;
#[derive(Clone, Copy)]
pub struct Modifier { pub category: u32, pub size: i32 }
impl Modifier {
    // a local that is not initialised
    #[verifier::external_body]
    pub fn new() -> (r: Modifier) { unimplemented!() }
}
pub open spec fn last_open(s: Seq<u8>, e: int) -> int { fl(s, seq![91u8], e, true) }
// what a name means, read from position e backwards
pub open spec fn parse(s: Seq<u8>, e: int, acc: Seq<Modifier>) -> Option<(Seq<u8>, Seq<Modifier>)> decreases e + 1
{
    if e <= 0 || e >= s.len() { None }
    else if s[e] == 93 {
        let st = last_open(s, e);
        let d = s.subrange(st + 1, e);
        if st < 0 || st >= e || !digits(d) || dval(d) > 0x7fff_ffff { None }
        else { parse(s, st - 1, seq![Modifier { category: Array, size: dval(d) as i32 }] + acc) }
    }
    else if s[e] == 42 { parse(s, e - 1, seq![Modifier { category: Pointer, size: 1 }] + acc) }
    else if s[e] == 32 { parse(s, e - 1, acc) }
    else { Some((s.take(e + 1), acc)) }
}
pub open spec fn meaning(s: Seq<u8>) -> Option<(Seq<u8>, Seq<Modifier>)> { parse(s, s.len() - 1, seq![]) }
// the name a modifier builds
pub open spec fn modname(s: Seq<u8>, m: Modifier) -> Seq<u8> { if m.category == Array { s + seq![91u8] + sdec(m.size as int) + seq![93u8] } else { s + seq![42u8] } }
pub open spec fn okmod(m: Modifier) -> bool { (m.category == Array && m.size >= 0) || (m.category == Pointer && m.size == 1) }
pub open spec fn built(s: Seq<u8>, ms: Seq<Modifier>) -> Seq<u8> decreases ms.len() { if ms.len() == 0 { s } else { modname(built(s, ms.drop_last()), ms.last()) } }
proof fn lemma_fl_prefix(s: Seq<u8>, t: Seq<u8>, set: Seq<u8>, e: int)
    requires e < s.len(), e < t.len(), forall|i: int| 0 <= i <= e ==> s[i] == t[i]
    ensures fl(s, set, e, true) == fl(t, set, e, true)
    decreases e
{ if e > 0 { lemma_fl_prefix(s, t, set, e - 1); } }
proof fn lemma_parse_prefix(s: Seq<u8>, t: Seq<u8>, e: int, acc: Seq<Modifier>)
    requires e < s.len(), e < t.len(), forall|i: int| 0 <= i <= e ==> s[i] == t[i]
    ensures parse(s, e, acc) == parse(t, e, acc)
    decreases e + 1
{
    if e > 0 {
        lemma_fl_prefix(s, t, seq![91u8], e);
        let st = last_open(s, e);
        lemma_fl(s, seq![91u8], e, true);
        if s[e] == 93 && st >= 0 && st < e {
            assert(s.subrange(st + 1, e) =~= t.subrange(st + 1, e));
            let d = s.subrange(st + 1, e);
            lemma_parse_prefix(s, t, st - 1, seq![Modifier { category: Array, size: dval(d) as i32 }] + acc);
        }
        lemma_parse_prefix(s, t, e - 1, seq![Modifier { category: Pointer, size: 1 }] + acc);
        lemma_parse_prefix(s, t, e - 1, acc);
        assert(s.take(e + 1) =~= t.take(e + 1));
    }
}
pub proof fn lemma_mod(s: Seq<u8>, m: Modifier, acc: Seq<Modifier>)
    requires s.len() > 1, okmod(m)
    ensures parse(modname(s, m), modname(s, m).len() - 1, acc) == parse(s, s.len() - 1, seq![m] + acc)
{
    let t = modname(s, m);
    if m.category == Array {
        let d = sdec(m.size as int);
        lemma_dec(m.size as nat);
        let e = t.len() - 1;
        assert(t[e] == 93);
        let st = last_open(t, e);
        lemma_fl(t, seq![91u8], e, true);
        let p = s.len() as int;
        assert(t[p] == 91);
        assert(seq![91u8].contains(91u8)) by { assert(seq![91u8][0] == 91); }
        assert forall|i: int| p < i <= e implies t[i] != 91 by { if i < e { assert(t[i] == d[i - p - 1]); assert(digit(d[i - p - 1])); } }
        if st != -1 { assert(t[st] == 91); }
        assert(st == p);
        assert(t.subrange(p + 1, e) =~= d);
        assert(m == Modifier { category: Array, size: dval(d) as i32 });
        lemma_parse_prefix(t, s, p - 1, seq![m] + acc);
    } else {
        assert(t[t.len() - 1] == 42);
        lemma_parse_prefix(t, s, s.len() - 1, seq![m] + acc);
    }
}
// a base name is one that does not itself end with modifier marks
pub open spec fn is_base(s: Seq<u8>) -> bool { s.len() > 1 && s.last() != 93 && s.last() != 42 && s.last() != 32 }
pub proof fn lemma_built_len(s: Seq<u8>, ms: Seq<Modifier>) requires s.len() > 1 ensures built(s, ms).len() > 1 decreases ms.len()
{ if ms.len() > 0 { lemma_built_len(s, ms.drop_last()); } }
pub proof fn lemma_roundtrip(s: Seq<u8>, ms: Seq<Modifier>, acc: Seq<Modifier>)
    requires is_base(s), forall|i: int| 0 <= i < ms.len() ==> okmod(#[trigger] ms[i])
    ensures parse(built(s, ms), built(s, ms).len() - 1, acc) == Some((s, ms + acc))
    decreases ms.len()
{
    if ms.len() == 0 { assert(s.take(s.len() as int) =~= s); assert(ms + acc =~= acc); }
    else {
        lemma_built_len(s, ms.drop_last());
        assert(okmod(ms[ms.len() - 1]));
        lemma_mod(built(s, ms.drop_last()), ms.last(), acc);
        assert forall|i: int| 0 <= i < ms.drop_last().len() implies okmod(#[trigger] ms.drop_last()[i]) by { assert(okmod(ms[i])); }
        lemma_roundtrip(s, ms.drop_last(), seq![ms.last()] + acc);
        assert(ms.drop_last() + (seq![ms.last()] + acc) =~= ms + acc);
    }
}
// the property: a name built by modifiers reads back as the same base and modifiers
pub proof fn theorem_roundtrip(s: Seq<u8>, ms: Seq<Modifier>)
    requires is_base(s), forall|i: int| 0 <= i < ms.len() ==> okmod(#[trigger] ms[i])
    ensures meaning(built(s, ms)) == Some((s, ms))
{ lemma_roundtrip(s, ms, seq![]); assert(ms + Seq::<Modifier>::empty() =~= ms); }
pub open spec fn digset() -> Seq<u8> { seq![48u8, 49u8, 50u8, 51u8, 52u8, 53u8, 54u8, 55u8, 56u8, 57u8] }
pub proof fn lemma_digset()
    ensures forall|s: Seq<u8>, set: Seq<u8>| set =~= digset() ==> (#[trigger] ff(s, set, 0, false) == -1 <==> (forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]))) && -1 <= ff(s, set, 0, false) && (ff(s, set, 0, false) < s.len() || s.len() == 0)
{
    assert forall|c: u8| #[trigger] digset().contains(c) == digit(c) by { if digit(c) { assert(digset()[c - 48] == c); } }
    assert forall|s: Seq<u8>| #[trigger] ff(s, digset(), 0, false) == -1 <==> (forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i])) by { lemma_ff(s, digset(), 0, false); }
    assert forall|s: Seq<u8>| -1 <= #[trigger] ff(s, digset(), 0, false) && (ff(s, digset(), 0, false) < s.len() || s.len() == 0) by { lemma_ff(s, digset(), 0, false); }
}
pub proof fn lemma_low(r: i32, a: usize) requires (r as int - a as int) % 0x1_0000_0000 == 0 ensures a <= 0x7fff_ffff ==> r == a, a == 0xffff_ffff_ffff_ffff ==> r == -1 {}
//@fn getArrayName file=typelib/typemodel.cc class=Array static=yes
//@locals stream:OStr
//@spec
    requires dim <= 0x7fff_ffff
    ensures r@ == modname(name@, Modifier { category: Array, size: dim as i32 })
//@at return
    proof { assert($ret@ =~= modname(name@, Modifier { category: Array, size: dim as i32 })); }
//@end
//@fn getPointerName file=typelib/typemodel.cc class=Pointer static=yes
//@spec
    ensures r@ == modname(base@, Modifier { category: Pointer, size: 1 })
//@end
//@fn parseTypename file=typelib/typebuilder.cc class=TypeBuilder static=yes throws=yes wrap=yes
//@locals result:(Vec<u8>,Vec<Modifier>) end:i32 new_mod:Modifier start:usize dimension:Vec<u8>
//@spec
    requires full_name@.len() <= 0x7fff_ffff
    ensures r is Ok <==> meaning(full_name@) is Some,
        r is Ok ==> (r->Ok_0.0@, r->Ok_0.1@) == meaning(full_name@)->Some_0
//@loop 1
    invariant full_name@.len() <= 0x7fff_ffff, -1 <= end < full_name@.len(),
        parse(full_name@, end as int, result.1@) == meaning(full_name@)
    decreases end + 1
//@at loop1.begin
    proof { axiom_str_len(*full_name); lemma_fl(full_name@, seq![91u8], end as int, true); lemma_digset(); assert(seq![91u8].contains(91u8)) by { assert(seq![91u8][0] == 91); } }
    let ghost a0 = result.1@;
    let ghost e0 = end as int;
//@at call:str_sub#1.before
    proof {
        let st = last_open(full_name@, e0);
        assert(start == st);
        assert(full_name@[st] == 91) by { assert forall|c: u8| seq![91u8].contains(c) implies c == 91 by {} }
        assert(st < e0);
    }
    let ghost st0 = start as int;
    let ghost d0 = full_name@.subrange(st0 + 1, e0);
//@at call:lexical_cast#1.before
    proof { axiom_str_len(dimension); assert(dimension@ == d0); assert(digits(d0)); }
//@at call:push_front#1.before
    proof { assert(new_mod == Modifier { category: Array, size: dval(d0) as i32 }); lemma_low(end, if st0 == 0 { 0xffff_ffff_ffff_ffff } else { (st0 - 1) as usize }); assert(end == st0 - 1); }
//@at throw#2
    proof { assert(dimension@ == d0); assert(!digits(d0)); }
//@end
