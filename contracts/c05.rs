//@include pushops.rs
//@include pushinit.rs
//@include tree.rs
// containers are referred to by the address of their type
pub open spec fn chandle(t: TyRef) -> usize { t.id }
#[verifier::external_body]
pub fn as_container(t: TyRef) -> (r: ContRef) requires tcat(t) == Container ensures r.h() == chandle(t), is_cont(chandle(t)), csize(chandle(t)) == tsize(t), r.ty() == t { unimplemented!() }
impl ContRef {
    pub uninterp spec fn ty(self) -> TyRef;
    #[verifier::external_body]
    pub fn getIndirection(self) -> (r: TyRef) ensures r == tind(self.ty()) { unimplemented!() }
}
pub open spec fn contok(t: TyRef) -> bool { is_cont(chandle(t)) && csize(chandle(t)) == tsize(t) }
// what a type is made of, byte by byte; None if it cannot be laid out
pub open spec fn ocat(a: Option<Seq<Cell>>, b: Option<Seq<Cell>>) -> Option<Seq<Cell>> { if a is Some && b is Some { Some(a->Some_0 + b->Some_0) } else { None } }
pub open spec fn tcells(t: TyRef, p: bool, o: bool) -> Option<Seq<Cell>>
    decreases trank(t), tfields(t).len() + 1
{
    let n = tsize(t) as nat;
    if tcat(t) == Numeric { Some(datas(n)) }
    else if tcat(t) == Enum { if n > 8 { None } else { Some(datas(n)) } }
    else if tcat(t) == Pointer { if p { Some(datas(n)) } else { None } }
    else if tcat(t) == Opaque { if o { Some(pads(n)) } else { None } }
    else if tcat(t) == Array || tcat(t) == Container {
        match if trank(tind(t)) < trank(t) { tcells(tind(t), p, o) } else { None } {
            Some(b) => Some(if tcat(t) == Array { rep(b, tdim(t) as nat) } else { cont(chandle(t), b) }),
            None => None,
        }
    }
    else if tcat(t) == Compound { ocat(fcells(t, tfields(t).len() as int, p, o), Some(pads((tsize(t) - lend(t, tfields(t).len() as int)) as nat))) }
    else { None }
}
pub open spec fn fcells(t: TyRef, n: int, p: bool, o: bool) -> Option<Seq<Cell>>
    decreases trank(t), n
{
    if n <= 0 || n > tfields(t).len() { Some(seq![]) }
    else {
        let f = tfields(t)[n - 1];
        ocat(ocat(fcells(t, n - 1, p, o), Some(pads((f.m_offset - lend(t, n - 1)) as nat))), if trank(f.m_type) < trank(t) { tcells(f.m_type, p, o) } else { None })
    }
}
// how a fresh value of the type is initialised
pub open spec fn le_bytes(v: int, n: nat) -> Seq<u8> decreases n { if n == 0 { seq![] } else { seq![(v % 256) as u8] + le_bytes(v / 256, (n - 1) as nat) } }
pub open spec fn ticells(t: TyRef) -> Seq<ICell>
    decreases trank(t), tfields(t).len() + 1
{
    let n = tsize(t) as nat;
    if tcat(t) == Enum && tvals(t).v@.len() > 0 { bsets(le_bytes(tvals(t).v@[0].1 as int, n)) }
    else if tcat(t) == Array { if trank(tind(t)) < trank(t) { irep(ticells(tind(t)), tdim(t) as nat) } else { seq![] } }
    else if tcat(t) == Container { icont(chandle(t)) }
    else if tcat(t) == Compound { ficells(t, tfields(t).len() as int) + ikeeps((tsize(t) - lend(t, tfields(t).len() as int)) as nat) }
    else { ikeeps(n) }
}
pub open spec fn ficells(t: TyRef, n: int) -> Seq<ICell>
    decreases trank(t), n
{
    if n <= 0 || n > tfields(t).len() { seq![] }
    else {
        let f = tfields(t)[n - 1];
        ficells(t, n - 1) + ikeeps((f.m_offset - lend(t, n - 1)) as nat) + (if trank(f.m_type) < trank(t) { ticells(f.m_type) } else { seq![] })
    }
}
pub proof fn lemma_le_len(v: int, n: nat) ensures le_bytes(v, n).len() == n decreases n { if n > 0 { lemma_le_len(v / 256, (n - 1) as nat); } }
pub open spec fn pow256(m: nat) -> int decreases m { if m == 0 { 1 } else { 256 * pow256((m - 1) as nat) } }
pub proof fn lemma_le_wrap(v: int, m: nat, n: nat)
    requires n <= m
    ensures le_bytes(v + pow256(m), n) == le_bytes(v, n)
    decreases n
{ if n > 0 { let x = pow256((m - 1) as nat); assert((v + 256 * x) % 256 == v % 256); assert((v + 256 * x) / 256 == v / 256 + x); lemma_le_wrap(v / 256, (m - 1) as nat, (n - 1) as nat); } }
// every byte of the type is described exactly once
pub proof fn lemma_tlen(t: TyRef, p: bool, o: bool)
    requires wft(t), allcont(t)
    ensures tcells(t, p, o) is Some ==> tcells(t, p, o)->Some_0.len() == tsize(t) && ticells(t).len() == tsize(t)
    decreases trank(t), tfields(t).len() + 1
{
    if tcells(t, p, o) is Some {
        if tcat(t) == Enum { lemma_le_len(tvals(t).v@[0].1 as int, tsize(t) as nat); }
        else if tcat(t) == Array {
            lemma_tlen(tind(t), p, o);
            lemma_rep_mul(tcells(tind(t), p, o)->Some_0, tdim(t) as nat);
            lemma_irep_mul(ticells(tind(t)), tdim(t) as nat);
            assert(tdim(t) * tsize(tind(t)) == tsize(tind(t)) * tdim(t)) by (nonlinear_arith);
        }
        else if tcat(t) == Container { axiom_cont(chandle(t)); }
        else if tcat(t) == Compound { lemma_flen(t, tfields(t).len() as int, p, o); }
    }
}
pub proof fn lemma_flen(t: TyRef, n: int, p: bool, o: bool)
    requires wff(t, n), 0 <= n <= tfields(t).len(), allcontf(t, n), fcells(t, n, p, o) is Some
    ensures fcells(t, n, p, o)->Some_0.len() == lend(t, n), ficells(t, n).len() == lend(t, n)
    decreases trank(t), n
{
    if n > 0 { lemma_flen(t, n - 1, p, o); lemma_tlen(tfields(t)[n - 1].m_type, p, o); }
}
// the containers inside a type are containers of the layout model
pub open spec fn allcont(t: TyRef) -> bool
    decreases trank(t), tfields(t).len() + 1
{
    if tcat(t) == Array { trank(tind(t)) < trank(t) ==> allcont(tind(t)) }
    else if tcat(t) == Container { contok(t) && (trank(tind(t)) < trank(t) ==> allcont(tind(t))) }
    else if tcat(t) == Compound { allcontf(t, tfields(t).len() as int) }
    else { true }
}
pub open spec fn allcontf(t: TyRef, n: int) -> bool
    decreases trank(t), n
{
    if n <= 0 || n > tfields(t).len() { true }
    else { allcontf(t, n - 1) && (trank(tfields(t)[n - 1].m_type) < trank(t) ==> allcont(tfields(t)[n - 1].m_type)) }
}
pub proof fn lemma_allcontf(t: TyRef, i: int, n: int)
    requires allcontf(t, n), 0 <= i < n <= tfields(t).len()
    ensures allcontf(t, i), trank(tfields(t)[i].m_type) < trank(t) ==> allcont(tfields(t)[i].m_type)
    decreases n
{ if i < n - 1 { lemma_allcontf(t, i, n - 1); } }
pub proof fn lemma_fnone(t: TyRef, i: int, n: int, p: bool, o: bool)
    requires 0 <= i <= n <= tfields(t).len(), fcells(t, i, p, o) is None
    ensures fcells(t, n, p, o) is None
    decreases n
{ if i < n { lemma_fnone(t, i, n - 1, p, o); } }
// room left in the address space
pub open spec fn room(l: MemoryLayout, n: int) -> bool { prog(l.ops@) && iprog(l.init_ops@) && cells(l.ops@).len() + n <= usize::MAX && icl(l.init_ops@).len() + n <= usize::MAX }
// the layout grew by the given cells
pub open spec fn grew(l: MemoryLayout, m: MemoryLayout, c: Seq<Cell>, ic: Seq<ICell>) -> bool {
    prog(m.ops@) && iprog(m.init_ops@) && cells(m.ops@) == cells(l.ops@) + c && icl(m.init_ops@) == icl(l.init_ops@) + ic
}
pub proof fn lemma_grew(l: MemoryLayout, m: MemoryLayout, k: MemoryLayout, a: Seq<Cell>, b: Seq<Cell>, ia: Seq<ICell>, ib: Seq<ICell>)
    requires grew(l, m, a, ia), grew(m, k, b, ib)
    ensures grew(l, k, a + b, ia + ib)
{ assert(cells(l.ops@) + a + b =~= cells(l.ops@) + (a + b)); assert(icl(l.init_ops@) + ia + ib =~= icl(l.init_ops@) + (ia + ib)); }
pub proof fn lemma_grew0(l: MemoryLayout)
    requires prog(l.ops@), iprog(l.init_ops@)
    ensures grew(l, l, seq![], seq![])
{ assert(cells(l.ops@) + Seq::<Cell>::empty() =~= cells(l.ops@)); assert(icl(l.init_ops@) + Seq::<ICell>::empty() =~= icl(l.init_ops@)); }

//@fn pushMemcpy file=typelib/memory_layout.cc class=MemoryLayout throws=yes impl=impl~MemoryLayout
//@spec
    requires room(*old(self), size as int)
    ensures r is Ok <==> init_data@.len() == 0 || init_data@.len() == size,
        r is Ok ==> grew(*old(self), *final(self), datas(size as nat), if init_data@.len() == 0 { ikeeps(size as nat) } else { bsets(init_data@) })
//@at entry
    proof { let o = FLAG_MEMCPY; lemma_prog_op(o, size); lemma_iprog_skip(size); if init_data@.len() > 0 && init_data@.len() == size { lemma_iprog_init(init_data@); lemma_iprog_cat(self.init_ops@, iop(init_data@)); }
        lemma_prog_cat(self.ops@, seq![o, size]); lemma_iprog_cat(self.init_ops@, seq![FLAG_INIT_SKIP, size]); }
//@at end
    proof { assert(self.ops@ =~= old(self).ops@ + seq![FLAG_MEMCPY, size]); }
//@end
//@fn pushSkip file=typelib/memory_layout.cc class=MemoryLayout impl=impl~MemoryLayout
//@spec
    requires room(*old(self), size as int)
    ensures grew(*old(self), *final(self), pads(size as nat), ikeeps(size as nat))
//@at entry
    proof { let o = FLAG_SKIP; lemma_prog_op(o, size); lemma_iprog_skip(size); lemma_prog_cat(self.ops@, seq![o, size]); lemma_iprog_cat(self.init_ops@, seq![FLAG_INIT_SKIP, size]); }
//@at end
    proof { assert(self.ops@ =~= old(self).ops@ + seq![FLAG_SKIP, size]); }
//@end
//@fn pushInitRepeat file=typelib/memory_layout.cc class=MemoryLayout impl=impl~MemoryLayout
//@spec
    ensures final(self).init_ops@ == old(self).init_ops@ + inest(dimension, array_ops.init_ops@), final(self).ops@ == old(self).ops@
//@at end
    proof { assert(array_ops.init_ops@.subrange(0, array_ops.init_ops@.len() as int) =~= array_ops.init_ops@); assert(self.init_ops@ =~= old(self).init_ops@ + inest(dimension, array_ops.init_ops@)); }
//@end
//@fn pushInitContainer file=typelib/memory_layout.cc class=MemoryLayout impl=impl~MemoryLayout
//@spec
    ensures final(self).init_ops@ == old(self).init_ops@ + seq![FLAG_INIT_CONTAINER, container.h()], final(self).ops@ == old(self).ops@
//@end
//@fn pushArray file=typelib/memory_layout.cc class=MemoryLayout types=long impl=impl~MemoryLayout
//@spec
    requires prog(array_ops.ops@), iprog(array_ops.init_ops@), cells(array_ops.ops@).len() == icl(array_ops.init_ops@).len(),
        cells(array_ops.ops@).len() * dimension <= usize::MAX, room(*old(self), cells(array_ops.ops@).len() * dimension)
    ensures grew(*old(self), *final(self), rep(cells(array_ops.ops@), dimension as nat), irep(icl(array_ops.init_ops@), dimension as nat))
//@at entry
    proof {
        let o = FLAG_ARRAY;
        lemma_rep_mul(cells(array_ops.ops@), dimension as nat); lemma_irep_mul(icl(array_ops.init_ops@), dimension as nat);
        lemma_prog_nest(o, dimension, array_ops.ops@); lemma_iprog_nest(dimension, array_ops.init_ops@);
        lemma_prog_cat(self.ops@, nest(o, dimension, array_ops.ops@)); lemma_iprog_cat(self.init_ops@, inest(dimension, array_ops.init_ops@));
    }
//@at end
    proof { assert(array_ops.ops@.subrange(0, array_ops.ops@.len() as int) =~= array_ops.ops@); assert(self.ops@ =~= old(self).ops@ + nest(FLAG_ARRAY, dimension, array_ops.ops@)); }
//@end
//@fn pushArray_type name=pushArray file=typelib/memory_layout.cc class=MemoryLayout types=Array impl=impl~MemoryLayout
//@spec
    requires tcat(type_) == Array, prog(array_ops.ops@), iprog(array_ops.init_ops@), cells(array_ops.ops@).len() == icl(array_ops.init_ops@).len(),
        cells(array_ops.ops@).len() * tdim(type_) <= usize::MAX, room(*old(self), cells(array_ops.ops@).len() * tdim(type_))
    ensures grew(*old(self), *final(self), rep(cells(array_ops.ops@), tdim(type_) as nat), irep(icl(array_ops.init_ops@), tdim(type_) as nat))
//@end
//@fn pushContainer file=typelib/memory_layout.cc class=MemoryLayout impl=impl~MemoryLayout
//@spec
    requires prog(container_ops.ops@), is_cont(type_.h()), room(*old(self), csize(type_.h()) as int)
    ensures grew(*old(self), *final(self), cont(type_.h(), cells(container_ops.ops@)), icont(type_.h()))
//@at entry
    proof {
        let o = FLAG_CONTAINER;
        axiom_cont(type_.h());
        lemma_prog_nest(o, type_.h(), container_ops.ops@); lemma_iprog_cont(type_.h());
        lemma_prog_cat(self.ops@, nest(o, type_.h(), container_ops.ops@)); lemma_iprog_cat(self.init_ops@, seq![FLAG_INIT_CONTAINER, type_.h()]);
    }
//@at end
    proof { assert(container_ops.ops@.subrange(0, container_ops.ops@.len() as int) =~= container_ops.ops@); assert(self.ops@ =~= old(self).ops@ + nest(FLAG_CONTAINER, type_.h(), container_ops.ops@)); }
//@end
//@fn visit_numeric name=visit_ types=const~Numeric file=typelib/memory_layout.cc class=Visitor flat=ops:&mut~MemoryLayout,accept_pointers:bool,accept_opaques:bool dyn=Visitor,TypeVisitor throws=yes wrap=yes
//@spec
    requires wft(type_), allcont(type_), tcat(type_) == Numeric, room(*old(ops), tsize(type_) as int)
    ensures r is Ok <==> tcells(type_, accept_pointers, accept_opaques) is Some,
        r is Ok ==> grew(*old(ops), *final(ops), tcells(type_, accept_pointers, accept_opaques)->Some_0, ticells(type_))
    decreases trank(type_), 0nat
//@end
//@fn visit_enum name=visit_ types=const~Enum file=typelib/memory_layout.cc class=Visitor flat=ops:&mut~MemoryLayout,accept_pointers:bool,accept_opaques:bool dyn=Visitor,TypeVisitor throws=yes wrap=yes
//@spec
    requires wft(type_), allcont(type_), tcat(type_) == Enum, room(*old(ops), tsize(type_) as int)
    ensures r is Ok <==> tcells(type_, accept_pointers, accept_opaques) is Some,
        r is Ok ==> grew(*old(ops), *final(ops), tcells(type_, accept_pointers, accept_opaques)->Some_0, ticells(type_))
    decreases trank(type_), 0nat
//@loop 1
    invariant init_data@.len() == tsize(type_), i <= tsize(type_), tsize(type_) <= 8, tvals(type_).v@.len() > 0,
        le_bytes(tvals(type_).v@[0].1 as int, tsize(type_) as nat) == init_data@.take(i as int) + le_bytes(init_value as int, (tsize(type_) - i) as nat)
    decreases tsize(type_) - i
//@at loop1.before
    proof {
        let v = tvals(type_).v@[0].1 as int;
        assert(pow256(8) == 0x1_0000_0000_0000_0000) by (compute);
        lemma_le_wrap(v, 8, tsize(type_) as nat);
        assert(init_data@.take(0) + le_bytes(init_value as int, tsize(type_) as nat) =~= le_bytes(init_value as int, tsize(type_) as nat));
    }
//@at loop1.begin
    let ghost d0 = init_data@; let ghost v0 = init_value;
    assert(v0 >> 8 == v0 / 256) by (bit_vector);
//@at loop1.end
    proof {
        let k = (tsize(type_) - i) as nat;
        assert(le_bytes(v0 as int, k + 1) == seq![(v0 % 256) as u8] + le_bytes(init_value as int, k));
        assert(init_data@.take(i as int) =~= d0.take(i - 1).push((v0 % 256) as u8));
        assert(d0.take(i - 1) + (seq![(v0 % 256) as u8] + le_bytes(init_value as int, k)) =~= init_data@.take(i as int) + le_bytes(init_value as int, k));
    }
//@at loop1.after
    proof { assert(init_data@.take(tsize(type_) as int) + le_bytes(init_value as int, 0) =~= init_data@); lemma_le_len(tvals(type_).v@[0].1 as int, tsize(type_) as nat); }
//@end
//@fn visit_array name=visit_ types=const~Array file=typelib/memory_layout.cc class=Visitor flat=ops:&mut~MemoryLayout,accept_pointers:bool,accept_opaques:bool dyn=Visitor,TypeVisitor throws=yes wrap=yes
//@spec
    requires wft(type_), allcont(type_), tcat(type_) == Array, room(*old(ops), tsize(type_) as int)
    ensures r is Ok <==> tcells(type_, accept_pointers, accept_opaques) is Some,
        r is Ok ==> grew(*old(ops), *final(ops), tcells(type_, accept_pointers, accept_opaques)->Some_0, ticells(type_))
    decreases trank(type_), 0nat
//@at call:apply#1.before
    proof { lemma_prog_empty(); lemma_iprog_empty(); assert(tsize(type_) == tdim(type_) * tsize(tind(type_))); }
//@at call:apply#1.after
    proof {
        let e = tcells(tind(type_), accept_pointers, accept_opaques)->Some_0;
        lemma_tlen(tind(type_), accept_pointers, accept_opaques);
        assert(cells(subops.ops@) =~= e); assert(icl(subops.init_ops@) =~= ticells(tind(type_)));
        assert(e.len() * tdim(type_) == tdim(type_) * e.len()) by (nonlinear_arith);
    }
//@end
//@fn visit_pointer name=visit_ types=const~Pointer file=typelib/memory_layout.cc class=Visitor flat=ops:&mut~MemoryLayout,accept_pointers:bool,accept_opaques:bool dyn=Visitor,TypeVisitor throws=yes wrap=yes
//@spec
    requires wft(type_), allcont(type_), tcat(type_) == Pointer, room(*old(ops), tsize(type_) as int)
    ensures r is Ok <==> tcells(type_, accept_pointers, accept_opaques) is Some,
        r is Ok ==> grew(*old(ops), *final(ops), tcells(type_, accept_pointers, accept_opaques)->Some_0, ticells(type_))
    decreases trank(type_), 0nat
//@end
//@fn visit_opaque name=visit_ types=const~OpaqueType file=typelib/memory_layout.cc class=Visitor flat=ops:&mut~MemoryLayout,accept_pointers:bool,accept_opaques:bool dyn=Visitor,TypeVisitor throws=yes wrap=yes
//@spec
    requires wft(type_), allcont(type_), tcat(type_) == Opaque, room(*old(ops), tsize(type_) as int)
    ensures r is Ok <==> tcells(type_, accept_pointers, accept_opaques) is Some,
        r is Ok ==> grew(*old(ops), *final(ops), tcells(type_, accept_pointers, accept_opaques)->Some_0, ticells(type_))
    decreases trank(type_), 0nat
//@end
//@fn visit_compound name=visit_ types=const~Compound file=typelib/memory_layout.cc class=Visitor flat=ops:&mut~MemoryLayout,accept_pointers:bool,accept_opaques:bool dyn=Visitor,TypeVisitor throws=yes wrap=yes
//@spec
    requires wft(type_), allcont(type_), tcat(type_) == Compound, room(*old(ops), tsize(type_) as int)
    ensures r is Ok <==> tcells(type_, accept_pointers, accept_opaques) is Some,
        r is Ok ==> grew(*old(ops), *final(ops), tcells(type_, accept_pointers, accept_opaques)->Some_0, ticells(type_))
    decreases trank(type_), 0nat
//@loop 1
    invariant *it.v == tfieldlist(type_), end.v == it.v, end.i == it.v@.len(), it.i <= it.v@.len(), current_offset == lend(type_, it.i as int), wft(type_), allcont(type_), tcat(type_) == Compound,
        room(*old(ops), tsize(type_) as int),
        fcells(type_, it.i as int, accept_pointers, accept_opaques) is Some,
        grew(*old(ops), *ops, fcells(type_, it.i as int, accept_pointers, accept_opaques)->Some_0, ficells(type_, it.i as int))
    decreases it.v@.len() - it.i
//@at entry
    proof { lemma_grew0(*ops); }
//@at loop1.begin
    let ghost o1 = *ops;
    proof {
        lemma_wff(type_, it.i as int, tfields(type_).len() as int); lemma_allcontf(type_, it.i as int, tfields(type_).len() as int);
        lemma_wff(type_, it.i + 1, tfields(type_).len() as int);
        lemma_flen(type_, it.i as int, accept_pointers, accept_opaques);
        if tcells(tfields(type_)[it.i as int].m_type, accept_pointers, accept_opaques) is None { lemma_fnone(type_, it.i + 1, tfields(type_).len() as int, accept_pointers, accept_opaques); }
        assert(fend(tfields(type_)[it.i as int]) <= tsize(type_));
    }
    let ghost gap = (tfields(type_)[it.i as int].m_offset - current_offset) as nat;
    let ghost ft = tfields(type_)[it.i as int].m_type;
    let ghost fc = fcells(type_, it.i as int, accept_pointers, accept_opaques)->Some_0;
    let ghost ic = ficells(type_, it.i as int);
//@at call:pushSkip#1.after
    proof { lemma_grew(*old(ops), o1, *ops, fc, pads(gap), ic, ikeeps(gap)); assert(gap == (tfields(type_)[it.i as int].m_offset - lend(type_, it.i as int)) as nat); }
    let ghost o2 = *ops;
//@at call:dispatch#1.after
    proof {
        lemma_grew(*old(ops), o2, *ops, fc + pads(gap), tcells(ft, accept_pointers, accept_opaques)->Some_0, ic + ikeeps(gap), ticells(ft));
        assert(fcells(type_, it.i + 1, accept_pointers, accept_opaques)->Some_0 == fc + pads(gap) + tcells(ft, accept_pointers, accept_opaques)->Some_0);
        assert(ficells(type_, it.i + 1) == ic + ikeeps(gap) + ticells(ft));
    }
//@at call:pushSkip#2.before
    let ghost o3 = *ops;
    proof { lemma_flen(type_, tfields(type_).len() as int, accept_pointers, accept_opaques); }
//@at call:pushSkip#2.after
    proof { let nf = tfields(type_).len() as int; let k = (tsize(type_) - lend(type_, nf)) as nat; lemma_grew(*old(ops), o3, *ops, fcells(type_, nf, accept_pointers, accept_opaques)->Some_0, pads(k), ficells(type_, nf), ikeeps(k)); }
//@end
//@fn visit_container name=visit_ types=const~Container file=typelib/memory_layout.cc class=Visitor flat=ops:&mut~MemoryLayout,accept_pointers:bool,accept_opaques:bool dyn=Visitor,TypeVisitor throws=yes wrap=yes
//@spec
    requires type_.h() == chandle(type_.ty()), wft(type_.ty()), allcont(type_.ty()), tcat(type_.ty()) == Container, room(*old(ops), tsize(type_.ty()) as int)
    ensures r is Ok <==> tcells(type_.ty(), accept_pointers, accept_opaques) is Some,
        r is Ok ==> grew(*old(ops), *final(ops), tcells(type_.ty(), accept_pointers, accept_opaques)->Some_0, ticells(type_.ty()))
    decreases trank(type_.ty()), 0nat
//@at call:apply#1.before
    proof { lemma_prog_empty(); lemma_iprog_empty(); assert(true); }
//@at call:apply#1.after
    proof {
        let e = tcells(tind(type_.ty()), accept_pointers, accept_opaques)->Some_0;
        lemma_tlen(tind(type_.ty()), accept_pointers, accept_opaques);
        assert(cells(subops.ops@) =~= e); assert(icl(subops.init_ops@) =~= ticells(tind(type_.ty())));
    }
//@end
//@fn visit_null name=visit_ types=const~NullType file=typelib/typevisitor.cc class=TypeVisitor flat=ops:&mut~MemoryLayout,accept_pointers:bool,accept_opaques:bool dyn=Visitor,TypeVisitor throws=yes wrap=yes
//@spec
    ensures r is Err
    decreases trank(type_), 0nat
//@end
//@fn dispatch file=typelib/typevisitor.cc class=TypeVisitor flat=ops:&mut~MemoryLayout,accept_pointers:bool,accept_opaques:bool dyn=Visitor,TypeVisitor throws=yes wrap=yes
//@spec
    requires wft(type_), allcont(type_), room(*old(ops), tsize(type_) as int)
    ensures r is Ok <==> tcells(type_, accept_pointers, accept_opaques) is Some,
        r is Ok ==> grew(*old(ops), *final(ops), tcells(type_, accept_pointers, accept_opaques)->Some_0, ticells(type_))
    decreases trank(type_), 1nat
//@end
//@fn apply file=typelib/typevisitor.cc class=TypeVisitor flat=ops:&mut~MemoryLayout,accept_pointers:bool,accept_opaques:bool dyn=Visitor,TypeVisitor throws=yes wrap=yes
//@spec
    requires wft(type_), allcont(type_), room(*old(ops), tsize(type_) as int)
    ensures r is Ok <==> tcells(type_, accept_pointers, accept_opaques) is Some,
        r is Ok ==> grew(*old(ops), *final(ops), tcells(type_, accept_pointers, accept_opaques)->Some_0, ticells(type_))
    decreases trank(type_), 2nat
//@end
//@fn raw_layout_of file=typelib/memory_layout.cc throws=yes
//@spec
    requires wft(t), allcont(t)
    ensures r is Ok <==> tcells(t, accept_pointers, accept_opaques) is Some,
        r is Ok ==> prog(r->Ok_0.ops@) && iprog(r->Ok_0.init_ops@) && cells(r->Ok_0.ops@) == tcells(t, accept_pointers, accept_opaques)->Some_0 && icl(r->Ok_0.init_ops@) == ticells(t)
            && cells(r->Ok_0.ops@).len() == tsize(t)
//@at entry
    proof { lemma_prog_empty(); lemma_iprog_empty(); lemma_tlen(t, accept_pointers, accept_opaques); }
//@at end
    proof { assert(Seq::<Cell>::empty() + cells(ret.ops@) =~= cells(ret.ops@)); }
//@end
