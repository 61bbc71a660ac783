//@include strs.rs
// The grammar of type names.  A name is a row of components, each behind a separator (the first one
// only when an absolute name is asked for); a component is a run of identifier characters with pointer
// marks behind it, template arguments, array modifiers.
pub open spec fn special(c: u8) -> bool { c == 47 || c == 60 || c == 62 || c == 91 || c == 93 || c == 44 }
pub open spec fn idchar(c: u8) -> bool { c == 95 || c == 32 || alnum(c) || c == 60 || c == 62 }
pub open spec fn ident(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> idchar(#[trigger] s[i]) }
// first position that ends a run of plain characters
pub open spec fn nsp(s: Seq<u8>, i: int) -> int decreases s.len() - i { if i < 0 || i >= s.len() { s.len() as int } else if special(s[i]) { i } else { nsp(s, i + 1) } }
pub open spec fn skipsep(s: Seq<u8>, b: int) -> int { if chr_at(s, b) == 47 { b + 1 } else { b } }
// identifier, then nothing or pointer marks (with spaces between and after them)
pub open spec fn basename(s: Seq<u8>, abs: bool) -> bool {
    let p = skipsep(s, 0);
    let m = ff(s, seq![42u8, 91u8], 0, true);
    (abs ==> p == 1) && p <= s.len() && (if m < 0 { ident(s.skip(p)) } else { ff(s, seq![42u8, 32u8], m, false) < 0 && p <= m && ident(s.subrange(p, m)) })
}
// last of the pointer marks that follow position i
pub open spec fn marks(s: Seq<u8>, i: int) -> int decreases s.len() - i { if i + 1 < s.len() && s[i + 1] == 42 { marks(s, i + 1) } else { i } }
// end of a name that starts at b (at the end of the text, at a template bracket or at a comma)
pub open spec fn name(s: Seq<u8>, b: int, abs: bool) -> Option<int> decreases s.len() - b, 1int
{
    if b < 0 || b >= s.len() { None } else {
        let j = nsp(s, skipsep(s, b));
        if j <= b || j > s.len() || !basename(s.subrange(b, j), abs) { None }
        else if j == s.len() { Some(j) }
        else if s[j] == 47 { name(s, j, abs) }
        else if s[j] == 60 { match args(s, j) { Some(k) => { let p = marks(s, k) + 1; if j < p <= s.len() { after(s, p, abs) } else { None } }, None => None } }
        else if s[j] == 91 { bracket(s, j, abs) }
        else if s[j] == 93 { None }
        else { Some(j) }
    }
}
// position of the bracket that closes the template arguments; j is at '<' or ','
pub open spec fn args(s: Seq<u8>, j: int) -> Option<int> decreases s.len() - j, 2int
{
    if j < 0 || j >= s.len() { None } else if s[j] == 62 { Some(j) } else {
        let a = if chr_at(s, j + 1) == 47 { name(s, j + 1, true) } else { Some(numend(s, j + 1)) };
        match a { Some(e) => if j < e < s.len() && (s[e] == 44 || s[e] == 62) { args(s, e) } else { None }, None => None }
    }
}
pub open spec fn numset() -> Seq<u8> { seq![45u8, 48u8, 49u8, 50u8, 51u8, 52u8, 53u8, 54u8, 55u8, 56u8, 57u8] }
pub open spec fn digset() -> Seq<u8> { seq![48u8, 49u8, 50u8, 51u8, 52u8, 53u8, 54u8, 55u8, 56u8, 57u8] }
pub open spec fn numend(s: Seq<u8>, p: int) -> int { let e = ff(s, numset(), p, false); if e < 0 { s.len() as int } else { e } }
// array modifier that opens at p
pub open spec fn bracket(s: Seq<u8>, p: int, abs: bool) -> Option<int> decreases s.len() - p, 0int
{
    if p < 0 || p >= s.len() { None } else {
        let e = ff(s, digset(), p + 1, false);
        if e <= p + 1 || e >= s.len() || s[e] != 93 { None } else { let k = marks(s, e) + 1; if e < k <= s.len() { after(s, k, abs) } else { None } }
    }
}
// what may follow a complete component
pub open spec fn after(s: Seq<u8>, p: int, abs: bool) -> Option<int> decreases s.len() - p, 2int
{
    if p >= s.len() { Some(s.len() as int) }
    else if s[p] == 47 { name(s, p, abs) }
    else if s[p] == 91 { bracket(s, p, abs) }
    else if s[p] == 62 || s[p] == 44 { Some(p) }
    else { None }
}
pub open spec fn valid(s: Seq<u8>, abs: bool) -> bool { s.len() > 0 && name(s, 0, abs) == Some(s.len() as int) }
proof fn lemma_nsp(s: Seq<u8>, i: int) requires 0 <= i <= s.len() ensures i <= nsp(s, i) <= s.len(), nsp(s, i) < s.len() ==> special(s[nsp(s, i)]) decreases s.len() - i
{ if i < s.len() && !special(s[i]) { lemma_nsp(s, i + 1); } }
proof fn lemma_marks(s: Seq<u8>, i: int) ensures i <= marks(s, i), i < s.len() ==> marks(s, i) < s.len() decreases s.len() - i
{ if i + 1 < s.len() && s[i + 1] == 42 { lemma_marks(s, i + 1); } }
// where the scan stands: inside a run of plain characters, or just behind a complete component
pub open spec fn chunk(s: Seq<u8>, st: int, i: int, abs: bool, w: Option<int>) -> bool
{ st < s.len() && skipsep(s, st) <= i && nsp(s, skipsep(s, st)) == nsp(s, i) && name(s, st, abs) == w }
pub open spec fn state(s: Seq<u8>, st: int, i: int, first: int, abs: bool, w: Option<int>) -> bool
{ if st == i && i > first { after(s, st, abs) == w && (st < s.len() ==> s[st] == 91 || s[st] == 62 || s[st] == 44) } else { chunk(s, st, i, abs, w) } }
// a name that is read ends behind its start
proof fn lemma_name(s: Seq<u8>, b: int, abs: bool) ensures name(s, b, abs) is Some ==> b < name(s, b, abs)->Some_0 <= s.len() decreases s.len() - b, 1int
{
    if b >= 0 && b < s.len() {
        let j = nsp(s, skipsep(s, b));
        if j <= b || j > s.len() || !basename(s.subrange(b, j), abs) || j == s.len() { }
        else if s[j] == 47 { lemma_name(s, j, abs); }
        else if s[j] == 60 { match args(s, j) { Some(k) => { let p = marks(s, k) + 1; if j < p <= s.len() { lemma_after(s, p, abs); } }, None => {} } }
        else if s[j] == 91 { lemma_bracket(s, j, abs); }
    }
}
proof fn lemma_bracket(s: Seq<u8>, p: int, abs: bool) ensures bracket(s, p, abs) is Some ==> p < bracket(s, p, abs)->Some_0 <= s.len() decreases s.len() - p, 0int
{
    if p >= 0 && p < s.len() {
        let e = ff(s, digset(), p + 1, false);
        let k = marks(s, e) + 1;
        if e <= p + 1 || e >= s.len() || s[e] != 93 { } else if e < k <= s.len() { lemma_after(s, k, abs); }
    }
}
proof fn lemma_after(s: Seq<u8>, p: int, abs: bool) requires p <= s.len() ensures after(s, p, abs) is Some ==> p <= after(s, p, abs)->Some_0 <= s.len() decreases s.len() - p, 2int
{
    if p >= s.len() { } else if s[p] == 47 { lemma_name(s, p, abs); } else if s[p] == 91 { lemma_bracket(s, p, abs); }
}
proof fn lemma_marks_auto(s: Seq<u8>) ensures forall|i: int| #![trigger marks(s, i)] i <= marks(s, i) && (i < s.len() ==> marks(s, i) < s.len())
{ assert forall|i: int| #![trigger marks(s, i)] i <= marks(s, i) && (i < s.len() ==> marks(s, i) < s.len()) by { lemma_marks(s, i); } }
//@fn isValidIdentifier file=typelib/typename.cc
//@locals length:i32 i:i32 c:u8
//@spec
    requires identifier@.len() < 0x7fff_ffff
    ensures r == ident(identifier@)
//@loop 1
    invariant identifier@.len() < 0x7fff_ffff, 0 <= i <= identifier@.len(), length == identifier@.len(), forall|k: int| 0 <= k < i ==> idchar(#[trigger] identifier@[k])
    decreases length - i
//@end
//@fn isValidTypeBasename file=typelib/typename.cc
//@locals pos:i32 modifiers:usize
//@spec
    requires s@.len() < 0x7fff_ffff
    ensures r == basename(s@, absolute)
//@at entry
    proof {
        axiom_str_len(s);
        lemma_ff(s@, seq![42u8, 91u8], 0, true);
        let m = ff(s@, seq![42u8, 91u8], 0, true);
        if m >= 0 { lemma_ff(s@, seq![42u8, 32u8], m, false); }
        if s@.len() > 0 && s@[0] == 47 && m == 0 { assert forall|c: u8| seq![42u8, 91u8].contains(c) implies c == 42 || c == 91 by {} }
    }
//@end
//@fn skipPointerMarks file=typelib/typename.cc
//@spec
    requires s@.len() < 0x7fff_ffff, *old(i) < s@.len()
    ensures *final(i) == marks(s@, *old(i) as int), *final(i) < s@.len(),
        r == (*final(i) + 1 >= s@.len() || s@[*final(i) + 1] == 47 || s@[*final(i) + 1] == 62 || s@[*final(i) + 1] == 91 || s@[*final(i) + 1] == 44)
//@loop 1
    invariant s@.len() < 0x7fff_ffff, *i < s@.len(), marks(s@, *i as int) == marks(s@, *old(i) as int)
    decreases s@.len() - *i
//@end
//@fn isValidTypename4 file=typelib/typename.cc name=isValidTypename nparams=4
//@locals start_pos:u32 first_pos:u32 end:usize i:u32 valid_arg:(bool,i32)
//@spec
    requires s@.len() < 0x7fff_ffff, 0 <= pos <= s@.len(), accept_integers || pos < s@.len()
    ensures ({
        let m = if accept_integers && chr_at(s@, pos as int) != 47 { Some(numend(s@, pos as int)) } else { name(s@, pos as int, absolute) };
        r.0 == m.is_some() && (r.0 ==> r.1 == m->Some_0) && 0 <= r.1 <= s@.len() })
    decreases s@.len() - pos
//@at entry
    proof { axiom_str_len(*s); lemma_ff(s@, numset(), pos as int, false); lemma_nsp(s@, skipsep(s@, pos as int)); }
    let ghost w = name(s@, pos as int, absolute);
//@loop 1
    invariant s@.len() < 0x7fff_ffff, first_pos < s@.len(), first_pos <= start_pos <= i <= s@.len(),
        state(s@, start_pos as int, i as int, first_pos as int, absolute, w), skipsep(s@, first_pos as int) == pos, pos <= i
    decreases s@.len() - i
//@at loop1.begin
    proof { lemma_nsp(s@, i as int); lemma_ff(s@, digset(), i + 1, false); lemma_marks_auto(s@); }
    let ghost i0 = i as int;
    let ghost st0 = start_pos as int;
    proof {
        if special(s@[i0]) {
            assert(nsp(s@, i0) == i0);
            if st0 == i0 && i0 > first_pos { assert(s@[i0] == 91 ==> w == bracket(s@, i0, absolute)); }
            else if basename(s@.subrange(st0, i0), absolute) && i0 > st0 {
                assert(name(s@, st0, absolute) == w);
                assert(s@[i0] == 47 ==> w == name(s@, i0, absolute));
                assert(s@[i0] == 91 ==> w == bracket(s@, i0, absolute));
            } else { assert(w is None); }
        } else { assert(nsp(s@, i0) == nsp(s@, i0 + 1)); }
        if s@[i0] == 91 {
            let e = ff(s@, digset(), i0 + 1, false);
            if e > i0 + 1 && e < s@.len() && s@[e] == 93 { let p = marks(s@, e) + 1; assert(bracket(s@, i0, absolute) == after(s@, p, absolute)); }
            else { assert(bracket(s@, i0, absolute) is None); }
        }
    }
//@at loop2.before
    let ghost k = args(s@, i0);
//@loop 2
    invariant i0 <= i < s@.len(), s@[i0] == 60, args(s@, i as int) == k, i > i0 ==> (s@[i as int] == 44 || s@[i as int] == 62)
    decreases s@.len() - i
//@at loop2.begin
    proof { lemma_ff(s@, numset(), i + 1, false); lemma_name(s@, i + 1, true); }
//@at loop2.after
    proof { assert(k == Some(i as int)); assert(nsp(s@, i0) == i0); assert(name(s@, st0, absolute) == w);
        let p = marks(s@, i as int) + 1; assert(w == after(s@, p, absolute)); }
//@end
//@fn isValidTypename2 file=typelib/typename.cc name=isValidTypename nparams=2
//@locals result:(bool,i32)
//@spec
    requires name@.len() < 0x7fff_ffff
    ensures r == valid(name@, absolute)
//@end
