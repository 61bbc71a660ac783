//@include csv.rs
//@fn h_output name=output file=typelib/csvoutput.cc class=HeaderVisitor filter=Visitor flat=m_name:&mut~Vec<Vec<u8>>,m_headers:&mut~Vec<Vec<u8>> dyn=HeaderVisitor,TypeVisitor link=-:- vals=addr 
//@spec
    ensures final(m_name)@ == old(m_name)@, svw(final(m_headers)@) == svw(old(m_headers)@).push(flat(svw(final(m_name)@)))
//@at end
    proof { lemma_flat_joined(svw(m_name@)); assert(svw(m_headers@) =~= svw(old(m_headers)@).push(flat(svw(m_name@)))); }
//@end
//@fn h_opaque name=visit_ types=^const~OpaqueType file=typelib/csvoutput.cc class=HeaderVisitor filter=Visitor flat=m_name:&mut~Vec<Vec<u8>>,m_headers:&mut~Vec<Vec<u8>> dyn=HeaderVisitor,TypeVisitor link=-:- vals=addr throws=yes params=ty
//@spec
    requires tcat(ty) == Opaque
    ensures hpost(old(m_name)@, final(m_name)@, old(m_headers)@, final(m_headers)@, ty, r)

//@at return#1
    proof { assert(svw(m_headers@) =~= svw(old(m_headers)@) + heads(ty, flat(svw(m_name@)))); }
//@end
//@fn h_numeric name=visit_ types=^const~Numeric file=typelib/csvoutput.cc class=HeaderVisitor filter=Visitor flat=m_name:&mut~Vec<Vec<u8>>,m_headers:&mut~Vec<Vec<u8>> dyn=HeaderVisitor,TypeVisitor link=-:- vals=addr throws=yes params=ty
//@spec
    requires tcat(ty) == Numeric
    ensures hpost(old(m_name)@, final(m_name)@, old(m_headers)@, final(m_headers)@, ty, r)

//@at return#1
    proof { assert(svw(m_headers@) =~= svw(old(m_headers)@) + heads(ty, flat(svw(m_name@)))); }
//@end
//@fn h_enum name=visit_ types=^const~Enum file=typelib/csvoutput.cc class=HeaderVisitor filter=Visitor flat=m_name:&mut~Vec<Vec<u8>>,m_headers:&mut~Vec<Vec<u8>> dyn=HeaderVisitor,TypeVisitor link=-:- vals=addr throws=yes params=ty
//@spec
    requires tcat(ty) == Enum
    ensures hpost(old(m_name)@, final(m_name)@, old(m_headers)@, final(m_headers)@, ty, r)

//@at return#1
    proof { assert(svw(m_headers@) =~= svw(old(m_headers)@) + heads(ty, flat(svw(m_name@)))); }
//@end
//@fn tv_nulltype name=visit_ types=^const~NullType file=typelib/typevisitor.cc class=TypeVisitor flat=m_name:&mut~Vec<Vec<u8>>,m_headers:&mut~Vec<Vec<u8>> dyn=HeaderVisitor,TypeVisitor link=-:- vals=addr throws=yes params=ty assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn tv_pointer name=visit_ types=^const~Pointer file=typelib/typevisitor.cc class=TypeVisitor flat=m_name:&mut~Vec<Vec<u8>>,m_headers:&mut~Vec<Vec<u8>> dyn=HeaderVisitor,TypeVisitor link=-:- vals=addr throws=yes params=ty
//@spec
    requires tcat(ty) == Pointer, okh(ty)
    ensures hpost(old(m_name)@, final(m_name)@, old(m_headers)@, final(m_headers)@, tind(ty), r)
    decreases trank(tind(ty)), 0int, 5int
//@end
//@fn tv_array name=visit_ types=^const~Array file=typelib/typevisitor.cc class=TypeVisitor flat=m_name:&mut~Vec<Vec<u8>>,m_headers:&mut~Vec<Vec<u8>> dyn=HeaderVisitor,TypeVisitor link=-:- vals=addr throws=yes params=ty
//@spec
    requires tcat(ty) == Array, okh(ty)
    ensures hpost(old(m_name)@, final(m_name)@, old(m_headers)@, final(m_headers)@, tind(ty), r)
    decreases trank(tind(ty)), 0int, 5int
//@end
//@fn tv_container name=visit_ types=^const~Container file=typelib/typevisitor.cc class=TypeVisitor flat=m_name:&mut~Vec<Vec<u8>>,m_headers:&mut~Vec<Vec<u8>> dyn=HeaderVisitor,TypeVisitor link=-:- vals=addr throws=yes params=ty assumed=never~reached:~the~precondition~is~false
//@spec
    requires false
//@end
//@fn tv_field name=visit_ types=const~Compound.*const~Field file=typelib/typevisitor.cc class=TypeVisitor flat=m_name:&mut~Vec<Vec<u8>>,m_headers:&mut~Vec<Vec<u8>> dyn=HeaderVisitor,TypeVisitor link=-:- vals=addr throws=yes nparams=2 params=ty,field
//@spec
    requires okh(field.m_type)
    ensures hpost(old(m_name)@, final(m_name)@, old(m_headers)@, final(m_headers)@, field.m_type, r)
    decreases trank(field.m_type), 0int, 5int
//@end
//@fn tv_compound name=visit_ types=^const~Compound file=typelib/typevisitor.cc class=TypeVisitor flat=m_name:&mut~Vec<Vec<u8>>,m_headers:&mut~Vec<Vec<u8>> dyn=HeaderVisitor,TypeVisitor link=-:- vals=addr throws=yes nparams=1 params=ty
//@spec
    requires tcat(ty) == Compound, okh(ty)
    ensures cpost(old(m_name)@, final(m_name)@, old(m_headers)@, final(m_headers)@, ty, r)
    decreases trank(ty), 0int, 1int
//@loop 1
    invariant *it.v == tfieldlist(ty), end.v == it.v, end.i == it.v@.len(), it.i <= it.v@.len(), m_name@ == old(m_name)@, okh(ty), tcat(ty) == Compound,
        svw(m_headers@) == svw(old(m_headers)@) + fheads(ty, flat(svw(m_name@)), it.i as int)
    decreases it.v@.len() - it.i
//@at loop1.begin
    proof { lemma_okf(ty, it.i as int, tfields(ty).len() as int); }
    let ghost h1 = m_headers@; let ghost i0 = it.i as int;
//@at loop1.end
    proof { assert(svw(m_headers@) =~= svw(old(m_headers)@) + fheads(ty, flat(svw(m_name@)), it.i as int)); }
//@at end
    proof { assert(it.i == tfields(ty).len()); }
//@end
//@fn h_field name=visit_ types=const~Compound.*const~Field file=typelib/csvoutput.cc class=HeaderVisitor filter=Visitor flat=m_name:&mut~Vec<Vec<u8>>,m_headers:&mut~Vec<Vec<u8>> dyn=HeaderVisitor,TypeVisitor link=-:- vals=addr throws=yes nparams=2 params=ty,field
//@spec
    requires okh(field.m_type)
    ensures r is Ok, r->Ok_0, final(m_name)@ == old(m_name)@, svw(final(m_headers)@) == svw(old(m_headers)@) + heads(field.m_type, flat(svw(old(m_name)@)) + field.m_name@)
    decreases trank(field.m_type), 0int, 6int
//@at call:tv_field#1.before
    let ghost n1 = m_name@;
    proof { let o = old(m_name)@; assert(n1 =~= o.push(n1.last())); lemma_svw_push(o, n1.last()); lemma_flat_push(svw(o), n1.last()@); }
//@at return#1
    proof { assert(m_name@ =~= old(m_name)@); }
//@end
//@fn h_compound name=visit_ types=^const~Compound file=typelib/csvoutput.cc class=HeaderVisitor filter=Visitor flat=m_name:&mut~Vec<Vec<u8>>,m_headers:&mut~Vec<Vec<u8>> dyn=HeaderVisitor,TypeVisitor link=-:- vals=addr throws=yes nparams=1 params=ty
//@spec
    requires tcat(ty) == Compound, okh(ty)
    ensures hpost(old(m_name)@, final(m_name)@, old(m_headers)@, final(m_headers)@, ty, r)
    decreases trank(ty), 0int, 2int
//@at call:tv_compound#1.before
    let ghost n1 = m_name@;
    proof { let o = old(m_name)@; assert(n1 =~= o.push(n1.last())); lemma_svw_push(o, n1.last()); lemma_flat_push(svw(o), n1.last()@); }
//@at return#1
    proof { assert(m_name@ =~= old(m_name)@); }
//@end
//@fn h_pointer name=visit_ types=^const~Pointer file=typelib/csvoutput.cc class=HeaderVisitor filter=Visitor flat=m_name:&mut~Vec<Vec<u8>>,m_headers:&mut~Vec<Vec<u8>> dyn=HeaderVisitor,TypeVisitor link=-:- vals=addr throws=yes params=ty
//@spec
    requires tcat(ty) == Pointer, okh(ty)
    ensures hpost(old(m_name)@, final(m_name)@, old(m_headers)@, final(m_headers)@, ty, r)
    decreases trank(ty), 0int, 2int
//@at call:tv_pointer#1.before
    let ghost n1 = m_name@;
    proof {
        let o = old(m_name)@;
        assert(n1 =~= (seq![n1[0]] + o).push(n1.last()));
        assert(svw(n1) =~= (seq![n1[0]@] + svw(o)).push(n1.last()@));
        lemma_flat_push(seq![n1[0]@] + svw(o), n1.last()@);
        lemma_flat_front(n1[0]@, svw(o));
        assert(flat(svw(n1)) =~= derefd(flat(svw(o))));
    }
//@at return#1
    proof { assert(m_name@ =~= old(m_name)@); }
//@end
//@fn h_array name=visit_ types=^const~Array file=typelib/csvoutput.cc class=HeaderVisitor filter=Visitor flat=m_name:&mut~Vec<Vec<u8>>,m_headers:&mut~Vec<Vec<u8>> dyn=HeaderVisitor,TypeVisitor link=-:- vals=addr throws=yes params=ty
//@spec
    requires tcat(ty) == Array, okh(ty)
    ensures hpost(old(m_name)@, final(m_name)@, old(m_headers)@, final(m_headers)@, ty, r)
    decreases trank(ty), 0int, 2int
//@loop 1
    invariant tcat(ty) == Array, okh(ty), i <= tdim(ty), m_name@.len() == old(m_name)@.len() + 3, count == old(m_name)@.len() + 1,
        forall|k: int| 0 <= k < old(m_name)@.len() ==> m_name@[k] == #[trigger] old(m_name)@[k],
        m_name@[old(m_name)@.len() as int]@ == seq![91u8], m_name@[old(m_name)@.len() as int + 2]@ == seq![93u8],
        svw(m_headers@) == svw(old(m_headers)@) + aheads(tind(ty), flat(svw(old(m_name)@)), i as int)
    decreases tdim(ty) - i
//@at loop1.before
    proof { assert(svw(m_headers@) =~= svw(old(m_headers)@) + aheads(tind(ty), flat(svw(old(m_name)@)), 0)); }
//@at call:tv_array#1.before
    let ghost n1 = m_name@;
    let ghost h1 = m_headers@;
    proof {
        let o = svw(old(m_name)@);
        let l = old(m_name)@.len() as int;
        let d = n1[l + 1]@;
        assert(d == sdec(i as int));
        assert(svw(n1) =~= o.push(seq![91u8]).push(d).push(seq![93u8]));
        lemma_flat_push(o, seq![91u8]); lemma_flat_push(o.push(seq![91u8]), d); lemma_flat_push(o.push(seq![91u8]).push(d), seq![93u8]);
        assert(flat(svw(n1)) =~= indexed(flat(o), i as int));
    }
//@at loop1.end
    proof { assert(svw(m_headers@) =~= svw(old(m_headers)@) + aheads(tind(ty), flat(svw(old(m_name)@)), i as int)); }
//@at return#1
    proof { assert(m_name@ =~= old(m_name)@); assert(svw(m_headers@) =~= svw(old(m_headers)@) + heads(ty, flat(svw(old(m_name)@)))); }
//@end
//@fn h_dispatch name=dispatch file=typelib/typevisitor.cc class=TypeVisitor flat=m_name:&mut~Vec<Vec<u8>>,m_headers:&mut~Vec<Vec<u8>> dyn=HeaderVisitor,TypeVisitor link=-:- vals=addr throws=yes params=ty
//@spec
    requires okh(ty)
    ensures hpost(old(m_name)@, final(m_name)@, old(m_headers)@, final(m_headers)@, ty, r)
    decreases trank(ty), 0int, 4int
//@end
//@fn h_tapply name=apply file=typelib/typevisitor.cc class=TypeVisitor flat=m_name:&mut~Vec<Vec<u8>>,m_headers:&mut~Vec<Vec<u8>> dyn=HeaderVisitor,TypeVisitor link=-:- vals=addr throws=yes params=ty
//@spec
    requires okh(ty)
    ensures r is Ok, hpost(old(m_name)@, final(m_name)@, old(m_headers)@, final(m_headers)@, ty, Ok(r is Ok))

//@end
//@fn h_apply name=apply file=typelib/csvoutput.cc class=HeaderVisitor filter=Visitor flat=m_name:&mut~Vec<Vec<u8>>,m_headers:&mut~Vec<Vec<u8>> dyn=HeaderVisitor,TypeVisitor link=-:- vals=addr throws=yes params=ty,basename
//@spec
    requires okh(ty)
    ensures r is Ok, svw(r->Ok_0@) == heads(ty, basename@)

//@at call:h_tapply#1.before
    proof {
        assert(svw(m_name@) =~= Seq::empty().push(basename@)); lemma_flat_push(Seq::empty(), basename@);
        assert(flat(svw(m_name@)) =~= basename@);
        assert(svw(m_headers@) =~= Seq::empty());
    }
//@at return#1
    proof { assert(svw(m_headers@) =~= heads(ty, basename@)); }
//@end
pub struct CSVOutput { pub m_type: TyRef, pub m_separator: Vec<u8>, pub m_char_as_numeric: bool }
//@fn header file=typelib/csvoutput.cc class=CSVOutput impl=impl~CSVOutput vals=addr throws=yes link=-:-
//@spec
    requires okh(old(self).m_type)
    ensures r is Ok, final(out).v@ == old(out).v@ + joined(heads(old(self).m_type, basename@), old(self).m_separator@)
//@end
