//@include cells.rs

//@fn skipBlock file=typelib/memory_layout.cc class=MemoryLayout static=yes params=begin,end impl=impl~MemoryLayout
//@locals nesting:usize it:OpIt<'a>
//@spec
    requires begin.ok(), end.ok(), begin.v == end.v, begin.i <= end.i, end.i == end.v@.len()
    ensures r.v == begin.v, r.i == sb(begin.v@, begin.i as int, 0), r.i <= end.i, begin.i <= r.i, r.i < end.i ==> r.v@[r.i as int] == FLAG_END
//@loop 1
    invariant it.v == begin.v, begin.i <= it.i <= end.i, nesting <= it.i,
        sb(begin.v@, begin.i as int, 0) == sb(begin.v@, it.i as int, nesting as nat)
    decreases end.i - it.i
//@end
// appending to programs
pub open spec fn starts(p: Seq<usize>, q: Seq<usize>) -> bool { p.len() <= q.len() && q.take(p.len() as int) == p }
pub open spec fn rest(p: Seq<usize>, q: Seq<usize>) -> Seq<usize> { q.skip(p.len() as int) }
pub proof fn lemma_starts(p: Seq<usize>, t: Seq<usize>)
    ensures starts(p, p + t), rest(p, p + t) == t
{ assert((p + t).take(p.len() as int) =~= p); assert(rest(p, p + t) =~= t); }
pub proof fn lemma_starts2(p: Seq<usize>, q: Seq<usize>)
    requires starts(p, q)
    ensures q == p + rest(p, q)
{ assert(q =~= p + rest(p, q)); }
