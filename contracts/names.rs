//@include strs.rs
// Splitting at the separators that are outside template arguments.  start: where the current piece
// starts, i: reading position, l: template level.
pub open spec fn spl(s: Seq<u8>, start: int, i: int, l: int) -> Seq<Seq<u8>>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { if 0 <= start < s.len() { seq![s.subrange(start, s.len() as int)] } else { seq![] } }
    else if s[i] == 47 && l == 0 { seq![s.subrange(start, i)] + spl(s, i + 1, i + 1, l) }
    else { spl(s, start, i + 1, if s[i] == 60 { l + 1 } else if s[i] == 62 { l - 1 } else { l }) }
}
pub open spec fn first(s: Seq<u8>) -> int { if s.len() > 0 && s[0] == 47 { 1 } else { 0 } }
pub open spec fn pieces(s: Seq<u8>) -> Seq<Seq<u8>> { spl(s, first(s), first(s), 0) }
// "/a/b/" for the pieces a, b
pub open spec fn path(p: Seq<Seq<u8>>) -> Seq<u8> decreases p.len() { if p.len() == 0 { seq![] } else { path(p.drop_last()) + (seq![47u8] + p.last()) } }
pub open spec fn nspace(s: Seq<u8>) -> Seq<u8> { path(if pieces(s).len() > 0 { pieces(s).drop_last() } else { seq![] }) + seq![47u8] }
pub open spec fn norm(s: Seq<u8>) -> Seq<u8> { if s.len() == 0 { seq![47u8] } else if s.last() != 47 { s + seq![47u8] } else { s } }
pub open spec fn is_prefix(p: Seq<u8>, s: Seq<u8>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
// lossless: the pieces, each behind a separator, give back the text, up to a separator at the very end
pub open spec fn pre(p: Seq<Seq<u8>>) -> Seq<u8> decreases p.len() { if p.len() == 0 { seq![] } else { seq![47u8] + p[0] + pre(p.drop_first()) } }
pub proof fn lemma_pre_path(p: Seq<Seq<u8>>)
    ensures pre(p) == path(p)
    decreases p.len()
{
    if p.len() > 0 {
        lemma_pre_path(p.drop_first());
        let q = p.drop_first();
        if q.len() == 0 { assert(p.drop_last() =~= Seq::<Seq<u8>>::empty()); assert(q =~= Seq::<Seq<u8>>::empty()); assert(pre(p) =~= path(p)); }
        else {
            lemma_pre_path(p.drop_last());
            assert(q.drop_last() =~= p.drop_last().drop_first());
            lemma_pre_path(p.drop_last().drop_first());
            assert(q.last() == p.last());
            assert(p.drop_last()[0] == p[0]);
            assert(path(q) == path(q.drop_last()) + (seq![47u8] + q.last()));
            assert(pre(p.drop_last()) == seq![47u8] + p[0] + pre(p.drop_last().drop_first()));
            assert(pre(p) =~= path(p));
        }
    }
}
pub proof fn lemma_spl_lossless(s: Seq<u8>, start: int, i: int, l: int)
    requires 0 <= start <= i <= s.len()
    ensures ({ let p = spl(s, start, i, l); let t = seq![47u8] + s.subrange(start, s.len() as int);
        pre(p) == t || (pre(p) + seq![47u8] == t && s.len() > 0 && (s.last() == 47 || start == s.len())) || (start == s.len() && p.len() == 0) })
    decreases s.len() - i
{
    if i < s.len() {
        if s[i] == 47 && l == 0 {
            lemma_spl_lossless(s, i + 1, i + 1, l);
            let p1 = spl(s, i + 1, i + 1, l);
            let p = seq![s.subrange(start, i)] + p1;
            assert(p.drop_first() =~= p1);
            assert(p[0] =~= s.subrange(start, i));
            let t1 = seq![47u8] + s.subrange(i + 1, s.len() as int);
            assert(seq![47u8] + s.subrange(start, s.len() as int) =~= seq![47u8] + s.subrange(start, i) + t1);
            if p1.len() == 0 && i + 1 == s.len() {
                assert(pre(p1) =~= seq![]);
                assert(pre(p) + seq![47u8] =~= seq![47u8] + s.subrange(start, s.len() as int));
            } else if pre(p1) == t1 { assert(pre(p) =~= seq![47u8] + s.subrange(start, s.len() as int)); }
            else { assert(pre(p) + seq![47u8] =~= seq![47u8] + s.subrange(start, s.len() as int)); }
        } else { lemma_spl_lossless(s, start, i + 1, if s[i] == 60 { l + 1 } else if s[i] == 62 { l - 1 } else { l }); }
    } else if start < s.len() {
        let x = s.subrange(start, s.len() as int);
        let p = seq![x];
        assert(p.drop_first() =~= Seq::<Seq<u8>>::empty());
        assert(p[0] == x);
        assert(pre(p.drop_first()) =~= seq![]);
        assert(pre(p) =~= seq![47u8] + x);
    }
}
// namespace and basename give back every absolute name that does not end with a separator
pub proof fn theorem_recompose(s: Seq<u8>)
    requires s.len() > 1, s[0] == 47, s.last() != 47
    ensures pieces(s).len() > 0, nspace(s) + pieces(s).last() == s, nspace(s)[0] == 47, nspace(s).last() == 47
{
    lemma_spl_lossless(s, 1, 1, 0);
    let p = pieces(s);
    assert(seq![47u8] + s.subrange(1, s.len() as int) =~= s);
    if p.len() == 0 { assert(pre(p) =~= seq![]); assert(pre(p).len() == 0); assert((pre(p) + seq![47u8]).len() == 1); }
    lemma_pre_path(p);
    assert(pre(p) == s) by { if pre(p) + seq![47u8] == s { assert((pre(p) + seq![47u8]).last() == 47); } }
    assert(nspace(s) + p.last() =~= path(p));
    theorem_namespace_shape(s);
}
pub proof fn theorem_namespace_shape(s: Seq<u8>)
    ensures nspace(s).len() >= 1, nspace(s)[0] == 47, nspace(s).last() == 47
{
    let q = if pieces(s).len() > 0 { pieces(s).drop_last() } else { seq![] };
    lemma_pre_path(q);
    if q.len() > 0 { assert(pre(q)[0] == 47); }
}

//@fn isAbsoluteName file=typelib/typename.cc
//@spec
    ensures r == (identifier@.len() > 0 && identifier@[0] == 47)
//@end
//@fn splitTypename file=typelib/typename.cc
//@locals start_pos:u32 template_level:i32 result:Vec<Vec<u8>> i:u32
//@spec
    requires name@.len() < 0x7fff_ffff
    ensures svw(r@) == pieces(name@)
//@loop 1
    invariant name@.len() < 0x7fff_ffff, start_pos <= i <= name@.len() + 1, start_pos <= name@.len(), i <= name@.len(), -i <= template_level <= i,
        svw(result@) + spl(name@, start_pos as int, i as int, template_level as int) == pieces(name@)
    decreases name@.len() + 1 - i
//@at loop1.begin
    proof { axiom_str_len(*name); }
    let ghost r0 = svw(result@);
    let ghost st0 = start_pos as int;
    let ghost i0 = i as int;
//@at loop1.end
    proof { if name@[i0] == 47 && start_pos != st0 {
        let x = name@.subrange(st0, i0);
        assert(svw(result@) =~= r0.push(x));
        assert(svw(result@) + spl(name@, i0 + 1, i0 + 1, 0) =~= r0 + (seq![x] + spl(name@, i0 + 1, i0 + 1, 0)));
    } }
//@at loop1.after
//@at return
    proof {
        if start_pos < name@.len() {
            let x = name@.subrange(start_pos as int, name@.len() as int);
            assert(svw(result@) =~= svw(result@).drop_last() + seq![x]);
        }
    }
//@end
//@fn getNormalizedNamespace file=typelib/typename.cc
//@spec
    ensures r@ == norm(name@), r@.len() > 0, r@.last() == 47
//@end
//@fn getTypename file=typelib/typename.cc
//@locals split:Vec<Vec<u8>>
//@spec
    requires name@.len() < 0x7fff_ffff
    ensures r@ == if pieces(name@).len() > 0 { pieces(name@).last() } else { seq![] }
//@end
//@fn getNamespace file=typelib/typename.cc
//@locals split:Vec<Vec<u8>> result:Vec<u8> it:SIt<'a>
//@spec
    requires name@.len() < 0x7fff_ffff
    ensures r@ == nspace(name@)
//@loop 1
    invariant it.v == &split, it.i <= split@.len(), svw(split@) == pieces(name@).drop_last(), pieces(name@).len() > 0,
        result@ == path(svw(split@).take(it.i as int))
    decreases split@.len() - it.i
//@at loop1.before
    proof { assert(svw(split@) =~= pieces(name@).drop_last()); assert(svw(split@).take(0) =~= Seq::<Seq<u8>>::empty()); }
//@at loop1.begin
    proof {
        let q = svw(split@).take(it.i + 1);
        assert(q.drop_last() =~= svw(split@).take(it.i as int));
        assert(q.last() == split@[it.i as int]@);
    }
//@at loop1.after
    proof { assert(svw(split@).take(it.i as int) =~= svw(split@)); }
//@end
//@fn isInNamespace file=typelib/typename.cc
//@locals normalized_nspace:Vec<u8> length:i32 begins_with:bool remainder:Vec<u8>
//@spec
    requires type_@.len() < 0x7fff_fff0, nspace@.len() < 0x7fff_fff0
    ensures r == (is_prefix(norm(nspace@), type_@) && (recursive || pieces(type_@.skip(norm(nspace@).len() as int)).len() == 1))
//@at entry
    proof { axiom_str_len(*type_); axiom_str_len(*nspace); }
//@end
//@fn getRelativeName file=typelib/typename.cc throws=yes
//@spec
    ensures r is Err <==> norm(ns@).len() > name@.len(), r is Ok ==> r->Ok_0@ == name@.skip(norm(ns@).len() as int)
//@at entry
    proof { axiom_str_len(*name); axiom_str_len(*ns); }
//@at return
    proof { axiom_str_len(*name); assert($ret@ =~= name@.skip(norm(ns@).len() as int)); }
//@end
