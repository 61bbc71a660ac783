//@include strs.rs
// the documented order: the separator before every other character, a proper prefix first
pub open spec fn key(c: u8) -> int { if c == 47 { -1000 } else { sc(c) } }
// first position where the texts differ (or one of them ends)
pub open spec fn dif(a: Seq<u8>, b: Seq<u8>, i: int) -> int decreases a.len() - i
{ if i < 0 || i >= a.len() || i >= b.len() || a[i] != b[i] { i } else { dif(a, b, i + 1) } }
pub open spec fn lt(a: Seq<u8>, b: Seq<u8>) -> bool
{ let d = dif(a, b, 0); if d >= b.len() { false } else if d >= a.len() { true } else { key(a[d]) < key(b[d]) } }
pub proof fn lemma_dif(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i <= a.len(), i <= b.len()
    ensures i <= dif(a, b, i) <= a.len(), dif(a, b, i) <= b.len(),
        forall|j: int| i <= j < dif(a, b, i) ==> a[j] == b[j],
        dif(a, b, i) < a.len() && dif(a, b, i) < b.len() ==> a[dif(a, b, i)] != b[dif(a, b, i)]
    decreases a.len() - i
{ if i < a.len() && i < b.len() && a[i] == b[i] { lemma_dif(a, b, i + 1); } }
pub proof fn lemma_dif_is(a: Seq<u8>, b: Seq<u8>, i: int, d: int)
    requires 0 <= i <= d, d <= a.len(), d <= b.len(), forall|j: int| i <= j < d ==> a[j] == b[j],
        d == a.len() || d == b.len() || a[d] != b[d]
    ensures dif(a, b, i) == d
    decreases d - i
{ if i < d { lemma_dif_is(a, b, i + 1, d); } }
pub proof fn theorem_irreflexive(a: Seq<u8>) ensures !lt(a, a) { lemma_dif(a, a, 0); }
pub proof fn theorem_total(a: Seq<u8>, b: Seq<u8>)
    requires a != b
    ensures lt(a, b) || lt(b, a), !(lt(a, b) && lt(b, a))
{
    lemma_dif(a, b, 0); lemma_dif(b, a, 0);
    lemma_dif_is(b, a, 0, dif(a, b, 0));
    if dif(a, b, 0) == a.len() && a.len() == b.len() { assert(a =~= b); }
}
pub proof fn theorem_transitive(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lt(a, b), lt(b, c)
    ensures lt(a, c)
{
    lemma_dif(a, b, 0); lemma_dif(b, c, 0);
    let x = dif(a, b, 0); let y = dif(b, c, 0);
    let d = if x < y { x } else { y };
    lemma_dif_is(a, c, 0, d);
}
pub proof fn theorem_prefix(a: Seq<u8>, b: Seq<u8>)
    requires a.len() < b.len(), b.take(a.len() as int) == a
    ensures lt(a, b)
{ assert forall|j: int| 0 <= j < a.len() implies a[j] == b[j] by { assert(b.take(a.len() as int)[j] == b[j]); } lemma_dif_is(a, b, 0, a.len() as int); }
// names that start with the same namespace stand together
pub proof fn theorem_contiguous(ns: Seq<u8>, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lt(a, b), lt(b, c), ns.len() <= a.len(), ns.len() <= c.len(), a.take(ns.len() as int) == ns, c.take(ns.len() as int) == ns
    ensures ns.len() <= b.len(), b.take(ns.len() as int) == ns
{
    assert forall|j: int| 0 <= j < ns.len() implies a[j] == c[j] by { assert(a.take(ns.len() as int)[j] == ns[j]); assert(c.take(ns.len() as int)[j] == ns[j]); }
    lemma_dif(a, b, 0); lemma_dif(b, c, 0); lemma_dif(a, c, 0);
    let x = dif(a, b, 0); let y = dif(b, c, 0);
    assert(dif(a, c, 0) >= ns.len()) by { if dif(a, c, 0) < ns.len() { } }
    if x < ns.len() || y < ns.len() {
        let d = if x < y { x } else { y };
        lemma_dif_is(a, c, 0, d);
    }
    assert(b.take(ns.len() as int) =~= ns) by { assert forall|j: int| 0 <= j < ns.len() implies b[j] == ns[j] by { assert(a.take(ns.len() as int)[j] == ns[j]); } }
}
// the separator comes before every other continuation
pub proof fn theorem_separator_first(p: Seq<u8>, c: u8, s: Seq<u8>, t: Seq<u8>)
    requires c != 47
    ensures lt(p + seq![47u8] + s, p + seq![c] + t)
{
    let a = p + seq![47u8] + s; let b = p + seq![c] + t;
    assert(a[p.len() as int] == 47); assert(b[p.len() as int] == c);
    lemma_dif_is(a, b, 0, p.len() as int);
}
//@fn nameSort file=typelib/registry.cc
//@spec
    ensures r == lt(name1@, name2@)
//@loop 1
    invariant i <= name1@.len(), i <= name2@.len(), forall|j: int| 0 <= j < i ==> name1@[j] == name2@[j]
    decreases name1@.len() - i
//@at loop1.begin
    proof { if i == name2@.len() || name1@[i as int] != name2@[i as int] { lemma_dif_is(name1@, name2@, 0, i as int); } }
//@at loop1.after
    proof { lemma_dif_is(name1@, name2@, 0, name1@.len() as int); }
//@end
