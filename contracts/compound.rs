//@include types.rs
pub struct Compound { pub m_fields: Vec<Field>, pub m_size: usize }
// the end of the last-ending of the first n fields
pub open spec fn maxend(f: Seq<Field>, n: int) -> int decreases n { if n <= 0 { 0 } else if fend(f[n - 1]) > maxend(f, n - 1) { fend(f[n - 1]) } else { maxend(f, n - 1) } }
pub proof fn lemma_maxend(f: Seq<Field>, n: int)
    requires 0 <= n <= f.len()
    ensures forall|i: int| 0 <= i < n ==> fend(#[trigger] f[i]) <= maxend(f, n), maxend(f, n) > 0 ==> exists|i: int| 0 <= i < n && fend(#[trigger] f[i]) == maxend(f, n), maxend(f, n) >= 0
    decreases n
{ if n > 0 { lemma_maxend(f, n - 1); } }
pub proof fn lemma_maxend_same(f: Seq<Field>, g: Seq<Field>, n: int)
    requires 0 <= n <= f.len(), n <= g.len(), forall|i: int| 0 <= i < n ==> f[i] == g[i]
    ensures maxend(f, n) == maxend(g, n)
    decreases n
{ if n > 0 { lemma_maxend_same(f, g, n - 1); } }
impl Compound {
    // the invariant of compounds: the size covers every field
    pub open spec fn covers(self) -> bool { forall|i: int| 0 <= i < self.m_fields@.len() ==> fend(#[trigger] self.m_fields@[i]) <= self.m_size }
}
//@fn addField file=typelib/typemodel.cc class=Compound nparams=2 impl=impl~Compound ret=Field
//@spec
    requires old(self).covers(), offset + tsize(field.m_type) <= usize::MAX
    ensures final(self).covers(),
        // one field more, with its name and type, at the offset; the others unchanged
        final(self).m_fields@.len() == old(self).m_fields@.len() + 1,
        forall|i: int| 0 <= i < old(self).m_fields@.len() ==> #[trigger] final(self).m_fields@[i] == old(self).m_fields@[i],
        final(self).m_fields@.last().m_name@ == field.m_name@, final(self).m_fields@.last().m_type == field.m_type, final(self).m_fields@.last().m_offset == offset,
        // the size grows exactly as needed
        final(self).m_size == if old(self).m_size < offset + tsize(field.m_type) { (offset + tsize(field.m_type)) as usize } else { old(self).m_size },
        r == final(self).m_fields@.last()
//@end
//@fn addField_named file=typelib/typemodel.cc name=addField class=Compound nparams=3 impl=impl~Compound ret=Field
//@spec
    requires old(self).covers(), offset + tsize(type_) <= usize::MAX
    ensures final(self).covers(),
        final(self).m_fields@.len() == old(self).m_fields@.len() + 1,
        forall|i: int| 0 <= i < old(self).m_fields@.len() ==> #[trigger] final(self).m_fields@[i] == old(self).m_fields@[i],
        final(self).m_fields@.last().m_name@ == name@, final(self).m_fields@.last().m_type == type_, final(self).m_fields@.last().m_offset == offset,
        final(self).m_size == if old(self).m_size < offset + tsize(type_) { (offset + tsize(type_)) as usize } else { old(self).m_size },
        r == final(self).m_fields@.last()
//@end
//@fn getField file=typelib/typemodel.cc class=Compound impl=impl~Compound
//@spec
    ensures r is None <==> forall|i: int| 0 <= i < self.m_fields@.len() ==> (#[trigger] self.m_fields@[i]).m_name@ != name@,
        r is Some ==> exists|i: int| 0 <= i < self.m_fields@.len() && #[trigger] self.m_fields@[i] == *r->Some_0 && self.m_fields@[i].m_name@ == name@
            && forall|j: int| 0 <= j < i ==> (#[trigger] self.m_fields@[j]).m_name@ != name@
//@loop 1
    invariant it.v == self.m_fields, it.i <= it.v@.len(), forall|j: int| 0 <= j < it.i ==> (#[trigger] self.m_fields@[j]).m_name@ != name@
    decreases it.v@.len() - it.i
//@end
//@fn getTrailingPadding file=typelib/typemodel.cc class=Compound impl=impl~Compound
//@spec
    requires self.covers(), self.m_size - maxend(self.m_fields@, self.m_fields@.len() as int) <= u32::MAX
    ensures r == self.m_size - maxend(self.m_fields@, self.m_fields@.len() as int)
//@at entry
    proof { lemma_maxend(self.m_fields@, self.m_fields@.len() as int); }
//@loop 1
    invariant it.v == self.m_fields, end.v == self.m_fields, end.i == self.m_fields@.len(), it.i <= it.v@.len(), self.covers(), max_offset == maxend(self.m_fields@, it.i as int), max_offset <= self.m_size
    decreases it.v@.len() - it.i
//@at loop1.begin
    proof { assert(fend(self.m_fields@[it.i as int]) <= self.m_size); }
//@end
// trailing padding is the size minus the end of the last-ending field, so no field reaches into it
pub proof fn theorem_padding(c: Compound, pad: int)
    requires c.covers(), pad == c.m_size - maxend(c.m_fields@, c.m_fields@.len() as int)
    ensures forall|i: int| 0 <= i < c.m_fields@.len() ==> fend(#[trigger] c.m_fields@[i]) <= c.m_size - pad, c.m_size > pad ==> exists|i: int| 0 <= i < c.m_fields@.len() && fend(#[trigger] c.m_fields@[i]) == c.m_size - pad
{ lemma_maxend(c.m_fields@, c.m_fields@.len() as int); }
