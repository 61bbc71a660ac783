//@include prelude.rs
//@include revdep.rs
// iterators into the maps of this function: the end stays the end
pub const END_IX: usize = usize::MAX;
pub fn first_ix(n: usize) -> (r: usize) ensures r == if n == 0 { END_IX } else { 0 } { if n == 0 { END_IX } else { 0 } }
pub fn next_ix(i: usize, n: usize) -> (r: usize) requires i < n ensures r == if i + 1 == n { END_IX as int } else { i + 1 } { if i + 1 == n { END_IX } else { i + 1 } }
pub fn here_ix(i: usize, n: usize) -> (r: usize) requires i <= n ensures r == if i == n { END_IX } else { i } { if i == n { END_IX } else { i } }
//@fn RegIt::isPersistent file=typelib/registry.cc class=RegistryIterator impl=impl<'b>~RegIt<'b> self=self
//@spec
    requires self.m_iter.i < self.m_iter.m.v@.len()
    ensures r == self.m_iter.m.v@[self.m_iter.i as int].1.persistent
//@end
#[verifier::external_body]
pub fn tset_includes(a: &TSet, b: &TSet) -> (r: bool) ensures r == (forall|t: TyRef| #[trigger] b.has(t) ==> a.has(t)) { unimplemented!() }
#[verifier::external_body]
pub fn dup_entry<'a>(e: &(Vec<u8>, RegIt<'a>)) -> (r: (Vec<u8>, RegIt<'a>)) ensures r.0@ == e.0@, r.1 == e.1 { unimplemented!() }
pub struct Cfg {}
// ghost: what has been written, and whether an exporter gave up
pub struct Exporter { pub log: Ghost<Seq<int>>, pub failed: Ghost<bool> }
//@fn Exporter::begin file=typelib/exporter.cc class=Exporter impl=impl~Exporter throws=yes assumed=overridden~by~the~exporters:~the~interface
//@spec
    ensures final(self).log@ == old(self).log@, r is Ok ==> final(self).failed@ == old(self).failed@, r is Err ==> final(self).failed@
//@end
//@fn Exporter::end file=typelib/exporter.cc class=Exporter impl=impl~Exporter throws=yes assumed=overridden~by~the~exporters:~the~interface
//@spec
    ensures final(self).log@ == old(self).log@, r is Ok ==> final(self).failed@ == old(self).failed@, r is Err ==> final(self).failed@
//@end
//@fn Exporter::save_one file=typelib/exporter.cc class=Exporter name=save nparams=2 impl=impl~Exporter throws=yes assumed=overridden~by~the~exporters:~the~interface
//@spec
    requires type_.m_iter.i < type_.m_iter.m.v@.len()
    ensures r is Ok ==> final(self).log@ == old(self).log@.push(type_.m_iter.i as int), r is Ok ==> final(self).failed@ == old(self).failed@, r is Err ==> final(self).failed@
//@end
pub uninterp spec fn ns_of(n: Seq<u8>) -> Seq<u8>;
//@fn RegIt::getNamespace file=typelib/registry.cc class=RegistryIterator impl=impl<'b>~RegIt<'b> self=self assumed=some~function~of~the~name
//@spec
    requires self.m_iter.i < self.m_iter.m.v@.len()
    ensures r@ == ns_of(self.m_iter.m.v@[self.m_iter.i as int].0@)
//@end
// ---- orders of the entries of a registry
pub open spec fn typ(m: TMap, i: int) -> TyRef { m.v@[i].1.type_ }
// an entry for type t is among the first ones
pub open spec fn done(m: TMap, d: Seq<int>, t: TyRef) -> bool { exists|j: int| 0 <= j < d.len() && typ(m, #[trigger] d[j]) == t }
// what the entry needs is among the first ones: an alias its type, a definition all types it depends on
pub open spec fn ready(m: TMap, d: Seq<int>, i: int) -> bool
{ if isalias(m.v@[i]) { done(m, d, typ(m, i)) } else { forall|x: TyRef| #[trigger] dep(typ(m, i), x) ==> done(m, d, x) } }
pub open spec fn topo(m: TMap, d: Seq<int>) -> bool { forall|j: int| 0 <= j < d.len() ==> ready(m, d.take(j), #[trigger] d[j]) }
pub open spec fn within(m: TMap, d: Seq<int>) -> bool { d.no_duplicates() && forall|j: int| 0 <= j < d.len() ==> 0 <= #[trigger] d[j] < m.v@.len() }
// every entry once, after everything it needs
pub open spec fn order(m: TMap, d: Seq<int>) -> bool { within(m, d) && topo(m, d) && forall|i: int| 0 <= i < m.v@.len() ==> #[trigger] d.contains(i) }
// those that are to be written, in that order
pub open spec fn pers(m: TMap, d: Seq<int>) -> Seq<int> decreases d.len()
{ if d.len() == 0 { seq![] } else if m.v@[d.last()].1.persistent { pers(m, d.drop_last()).push(d.last()) } else { pers(m, d.drop_last()) } }
pub proof fn lemma_push(m: TMap, d: Seq<int>, i: int)
    requires topo(m, d), ready(m, d, i)
    ensures topo(m, d.push(i)), forall|k: int| ready(m, d, k) ==> #[trigger] ready(m, d.push(i), k),
        forall|t: TyRef| #[trigger] done(m, d.push(i), t) == (done(m, d, t) || t == typ(m, i)),
        pers(m, d.push(i)) == (if m.v@[i].1.persistent { pers(m, d).push(i) } else { pers(m, d) })
{
    let e = d.push(i);
    assert forall|t: TyRef| #[trigger] done(m, e, t) == (done(m, d, t) || t == typ(m, i)) by {
        if done(m, d, t) { let j = choose|j: int| 0 <= j < d.len() && typ(m, #[trigger] d[j]) == t; assert(e[j] == d[j]); }
        if t == typ(m, i) { assert(e[d.len() as int] == i); }
        if done(m, e, t) { let j = choose|j: int| 0 <= j < e.len() && typ(m, #[trigger] e[j]) == t; if j < d.len() { assert(d[j] == e[j]); } }
    }
    assert forall|j: int| 0 <= j < e.len() implies ready(m, e.take(j), #[trigger] e[j]) by {
        if j < d.len() { assert(e.take(j) =~= d.take(j)); assert(e[j] == d[j]); } else { assert(e.take(j) =~= d); }
    }
    assert(e.drop_last() =~= d);
}
// when nothing that is left is ready, no order exists
pub proof fn lemma_stuck(m: TMap, d: Seq<int>, i: int, o: Seq<int>)
    requires within(m, d), 0 <= i < m.v@.len(), !d.contains(i), forall|k: int| 0 <= k < m.v@.len() && !d.contains(k) ==> !#[trigger] ready(m, d, k), order(m, o)
    ensures false
{
    assert(o.contains(i));
    let j = o.index_of(i);
    assert(o[j] == i);
    lemma_first(m, d, o, j);
}
pub proof fn lemma_first(m: TMap, d: Seq<int>, o: Seq<int>, j: int)
    requires within(m, d), forall|k: int| 0 <= k < m.v@.len() && !d.contains(k) ==> !#[trigger] ready(m, d, k), order(m, o), 0 <= j < o.len(), !d.contains(o[j])
    ensures false
    decreases j
{
    if exists|h: int| 0 <= h < j && !d.contains(#[trigger] o[h]) {
        let h = choose|h: int| 0 <= h < j && !d.contains(#[trigger] o[h]);
        lemma_first(m, d, o, h);
    } else {
        assert forall|t: TyRef| done(m, o.take(j), t) implies done(m, d, t) by {
            let h = choose|h: int| 0 <= h < o.take(j).len() && typ(m, #[trigger] o.take(j)[h]) == t;
            assert(o.take(j)[h] == o[h]);
            assert(d.contains(o[h]));
            let g = d.index_of(o[h]);
            assert(d[g] == o[h]);
        }
        assert(ready(m, o.take(j), o[j]));
        assert(ready(m, d, o[j]));
    }
}
// ---- the maps of entries
pub type EMap<'a> = SMap<RegIt<'a>>;
pub open spec fn good(m: TMap, e: (Vec<u8>, RegIt)) -> bool { rit(e.1, m) && e.1.m_iter.i < m.v@.len() && e.0@ == m.v@[e.1.m_iter.i as int].0@ }
pub open spec fn okm(m: TMap, a: EMap) -> bool { a.ok() && forall|k: int| 0 <= k < a.v@.len() ==> good(m, #[trigger] a.v@[k]) }
pub open spec fn nm(m: TMap, i: int) -> Seq<u8> { m.v@[i].0@ }
pub open spec fn num(a: EMap, k: int) -> int { a.v@[k].1.m_iter.i as int }
pub proof fn lemma_erase(m: TMap, a: EMap, b: EMap, i: int)
    requires okm(m, a), 0 <= i < a.v@.len(), b.v@ == a.v@.remove(i)
    ensures okm(m, b), forall|x: Seq<u8>| #[trigger] b.has(x) == (a.has(x) && x != a.v@[i].0@)
{
    assert forall|k: int| 0 <= k < b.v@.len() implies #[trigger] b.v@[k] == a.v@[if k < i { k } else { k + 1 }] by {}
    assert forall|p: int, q: int| 0 <= p < q < b.v@.len() implies (#[trigger] b.v@[p]).0@ != (#[trigger] b.v@[q]).0@ by {
        let p2 = if p < i { p } else { p + 1 };
        let q2 = if q < i { q } else { q + 1 };
        assert(a.v@[p2].0@ != a.v@[q2].0@);
    }
    assert forall|x: Seq<u8>| #[trigger] b.has(x) == (a.has(x) && x != a.v@[i].0@) by {
        if b.has(x) {
            let k = b.ix(x); assert(b.v@[k].0@ == x);
            let k2 = if k < i { k } else { k + 1 };
            assert(a.v@[k2].0@ == x);
            if k2 < i { assert(a.v@[k2].0@ != a.v@[i].0@); } else { assert(a.v@[i].0@ != a.v@[k2].0@); }
        }
        if a.has(x) && x != a.v@[i].0@ {
            let k = a.ix(x); assert(a.v@[k].0@ == x);
            if k < i { assert(b.v@[k].0@ == x); } else { assert(b.v@[k - 1].0@ == x); }
        }
    }
}
pub proof fn lemma_insert(m: TMap, a: EMap, b: EMap, i: int)
    requires okm(m, a), b.ok(), 0 <= i < b.v@.len(), b.v@.remove(i) == a.v@, good(m, b.v@[i])
    ensures okm(m, b)
{
    assert forall|k: int| 0 <= k < b.v@.len() implies good(m, #[trigger] b.v@[k]) by {
        if k < i { assert(a.v@[k] == b.v@[k]); } else if k > i { assert(a.v@[k - 1] == b.v@[k]); }
    }
}
pub proof fn lemma_num(m: TMap, a: EMap, k: int, i: int)
    requires m.ok(), okm(m, a), 0 <= k < a.v@.len(), 0 <= i < m.v@.len(), a.v@[k].0@ == nm(m, i)
    ensures num(a, k) == i
{
    let j = num(a, k);
    assert(good(m, a.v@[k]));
    if j < i { assert(m.v@[j].0@ != m.v@[i].0@); }
    if i < j { assert(m.v@[i].0@ != m.v@[j].0@); }
}
// every entry is done, free or still waiting
pub open spec fn one(m: TMap, d: Seq<int>, t: EMap, f: EMap, i: int) -> bool {
    (d.contains(i) || t.has(nm(m, i)) || f.has(nm(m, i)))
        && !(d.contains(i) && t.has(nm(m, i))) && !(d.contains(i) && f.has(nm(m, i))) && !(t.has(nm(m, i)) && f.has(nm(m, i)))
}
pub open spec fn part(m: TMap, d: Seq<int>, t: EMap, f: EMap) -> bool {
    &&& okm(m, t) && okm(m, f) && within(m, d)
    &&& forall|i: int| 0 <= i < m.v@.len() ==> #[trigger] one(m, d, t, f, i)
}
pub open spec fn state(m: TMap, d: Seq<int>, t: EMap, f: EMap, s: TSet) -> bool {
    &&& part(m, d, t, f) && topo(m, d)
    &&& forall|x: TyRef| #[trigger] s.has(x) == done(m, d, x)
    &&& forall|k: int| 0 <= k < f.v@.len() ==> ready(m, d, #[trigger] num(f, k))
}
// an entry becomes free
pub proof fn lemma_freed(m: TMap, d: Seq<int>, t0: EMap, f0: EMap, t1: EMap, f1: EMap, s: TSet, i: int, p: int)
    requires m.ok(), state(m, d, t0, f0, s), 0 <= i < t0.v@.len(), t1.v@ == t0.v@.remove(i), ready(m, d, num(t0, i)),
        f1.ok(), 0 <= p < f1.v@.len(), f1.v@[p].0@ == t0.v@[i].0@, !f0.has(t0.v@[i].0@) ==> f1.v@[p].1 == t0.v@[i].1 && f1.v@.remove(p) == f0.v@,
        forall|x: Seq<u8>| #[trigger] f1.has(x) == (f0.has(x) || x == t0.v@[i].0@)
    ensures state(m, d, t1, f1, s), t1.v@.len() + f1.v@.len() == t0.v@.len() + f0.v@.len()
{
    let ei = num(t0, i);
    let key = t0.v@[i].0@;
    assert(good(m, t0.v@[i]));
    assert(t0.has(key));
    assert(nm(m, ei) == key);
    assert(one(m, d, t0, f0, ei));
    assert(!f0.has(key));
    lemma_erase(m, t0, t1, i);
    assert(good(m, f1.v@[p]));
    lemma_insert(m, f0, f1, p);
    assert forall|k: int| 0 <= k < f1.v@.len() implies ready(m, d, #[trigger] num(f1, k)) by {
        if k < p { assert(f0.v@[k] == f1.v@[k]); assert(ready(m, d, num(f0, k))); } else if k > p { assert(f0.v@[k - 1] == f1.v@[k]); assert(ready(m, d, num(f0, k - 1))); }
    }
    assert forall|k: int| 0 <= k < m.v@.len() && d.contains(k) implies nm(m, k) != key by { if nm(m, k) == key { lemma_num(m, t0, i, k); } }
    assert forall|k: int| 0 <= k < m.v@.len() implies #[trigger] one(m, d, t1, f1, k) by { assert(one(m, d, t0, f0, k)); }
    assert(part(m, d, t1, f1));
}
// a free entry is done
pub proof fn lemma_done(m: TMap, d: Seq<int>, t: EMap, f0: EMap, f1: EMap, s0: TSet, s1: TSet, i: int)
    requires m.ok(), state(m, d, t, f0, s0), 0 <= i < f0.v@.len(), f1.v@ == f0.v@.remove(i),
        forall|x: TyRef| #[trigger] s1.has(x) == (s0.has(x) || x == typ(m, num(f0, i)))
    ensures state(m, d.push(num(f0, i)), t, f1, s1), pers(m, d.push(num(f0, i))) == (if m.v@[num(f0, i)].1.persistent { pers(m, d).push(num(f0, i)) } else { pers(m, d) }), 0 <= num(f0, i) < m.v@.len()
{
    let ei = num(f0, i);
    let e = d.push(ei);
    let key = f0.v@[i].0@;
    assert(good(m, f0.v@[i]));
    assert(f0.has(key));
    assert(nm(m, ei) == key);
    assert(ready(m, d, ei));
    assert(one(m, d, t, f0, ei));
    assert(!d.contains(ei));
    lemma_push(m, d, ei);
    lemma_erase(m, f0, f1, i);
    assert forall|k: int| 0 <= k < m.v@.len() implies #[trigger] e.contains(k) == (d.contains(k) || k == ei) by {
        if d.contains(k) { let j = d.index_of(k); assert(e[j] == k); }
        if k == ei { assert(e[d.len() as int] == k); }
        if e.contains(k) { let j = e.index_of(k); assert(e[j] == k); if j < d.len() { assert(d[j] == k); } }
    }
    assert forall|k: int| 0 <= k < m.v@.len() && nm(m, k) == key implies k == ei by { lemma_num(m, f0, i, k); }
    assert forall|k: int| 0 <= k < m.v@.len() implies #[trigger] one(m, e, t, f1, k) by {
        assert(one(m, d, t, f0, k));
        assert(e.contains(k) == (d.contains(k) || k == ei));
    }
    assert(e.no_duplicates()) by {
        assert forall|p: int, q: int| 0 <= p < e.len() && 0 <= q < e.len() && p != q implies e[p] != e[q] by {
            if p < d.len() { assert(d.contains(d[p])); } if q < d.len() { assert(d.contains(d[q])); }
        }
    }
    assert forall|k: int| 0 <= k < f1.v@.len() implies ready(m, e, #[trigger] num(f1, k)) by {
        let k2 = if k < i { k } else { k + 1 };
        assert(f1.v@[k] == f0.v@[k2]);
        assert(ready(m, d, num(f0, k2)));
    }
}
pub open spec fn place(i: usize, a: EMap) -> int { if i == END_IX { a.v@.len() as int } else { i as int } }
pub open spec fn at_ok(i: usize, a: EMap) -> bool { i == END_IX || i < a.v@.len() }
// the end: what is left, from a place on, is ready
pub open spec fn waits(f: EMap, p: int, i: int) -> bool { exists|k: int| p <= k < f.v@.len() && #[trigger] num(f, k) == i }
pub open spec fn tail(m: TMap, d: Seq<int>, f: EMap, p: int) -> bool {
    &&& within(m, d) && topo(m, d)
    &&& forall|k: int| p <= k < f.v@.len() ==> ready(m, d, #[trigger] num(f, k)) && !d.contains(num(f, k))
    &&& forall|i: int| 0 <= i < m.v@.len() ==> d.contains(i) || #[trigger] waits(f, p, i)
}
pub proof fn lemma_tail(m: TMap, d: Seq<int>, f: EMap, p: int)
    requires m.ok(), okm(m, f), tail(m, d, f, p), 0 <= p < f.v@.len()
    ensures tail(m, d.push(num(f, p)), f, p + 1)
{
    let ei = num(f, p);
    let e = d.push(ei);
    assert(good(m, f.v@[p]));
    assert(ready(m, d, ei));
    lemma_push(m, d, ei);
    assert forall|k: int| #[trigger] e.contains(k) == (d.contains(k) || k == ei) by {
        if d.contains(k) { let j = d.index_of(k); assert(e[j] == k); }
        if k == ei { assert(e[d.len() as int] == k); }
        if e.contains(k) { let j = e.index_of(k); assert(e[j] == k); if j < d.len() { assert(d[j] == k); } }
    }
    assert(e.no_duplicates()) by {
        assert forall|x: int, q: int| 0 <= x < e.len() && 0 <= q < e.len() && x != q implies e[x] != e[q] by {
            if x < d.len() { assert(d.contains(d[x])); } if q < d.len() { assert(d.contains(d[q])); }
        }
    }
    assert forall|k: int| p + 1 <= k < f.v@.len() implies ready(m, e, #[trigger] num(f, k)) && !e.contains(num(f, k)) by {
        assert(ready(m, d, num(f, k)));
        assert(good(m, f.v@[k]));
        assert(f.v@[p].0@ != f.v@[k].0@);
    }
    assert forall|i: int| 0 <= i < m.v@.len() implies e.contains(i) || #[trigger] waits(f, p + 1, i) by {
        if !d.contains(i) {
            assert(waits(f, p, i));
            let k = choose|k: int| p <= k < f.v@.len() && #[trigger] num(f, k) == i;
            if k != p { assert(p + 1 <= k < f.v@.len() && num(f, k) == i); }
        }
    }
}
pub proof fn lemma_start(m: TMap, t: EMap, f: EMap, s: TSet, l: Seq<int>)
    requires m.ok(), okm(m, t), okm(m, f), f.v@.len() == 0, forall|x: TyRef| !#[trigger] s.has(x),
        forall|x: Seq<u8>| #[trigger] t.has(x) == (exists|i: int| 0 <= i < m.v@.len() && #[trigger] nm(m, i) == x)
    ensures state(m, seq![], t, f, s), l + pers(m, seq![]) == l
{
    let d: Seq<int> = seq![];
    assert forall|x: TyRef| #[trigger] s.has(x) == done(m, d, x) by {}
    assert forall|x: Seq<u8>| !#[trigger] f.has(x) by { if f.has(x) { let k = f.ix(x); assert(0 <= k < f.v@.len()); } }
    assert forall|i: int| 0 <= i < m.v@.len() implies #[trigger] one(m, d, t, f, i) by { assert(0 <= i < m.v@.len() && nm(m, i) == nm(m, i)); }
    assert(pers(m, d) =~= seq![]);
    assert(l + pers(m, d) =~= l);
}
pub proof fn lemma_recursive(m: TMap, d: Seq<int>, t: EMap, f: EMap, s: TSet)
    requires m.ok(), state(m, d, t, f, s), f.v@.len() == 0, t.v@.len() > 0, forall|k: int| 0 <= k < t.v@.len() ==> !ready(m, d, #[trigger] num(t, k))
    ensures forall|o: Seq<int>| !#[trigger] order(m, o)
{
    let i = num(t, 0);
    assert forall|x: Seq<u8>| !#[trigger] f.has(x) by { if f.has(x) { let k = f.ix(x); assert(0 <= k < f.v@.len()); } }
    assert(good(m, t.v@[0]));
    assert(t.has(nm(m, i)));
    assert(one(m, d, t, f, i));
    assert forall|k: int| 0 <= k < m.v@.len() && !d.contains(k) implies !#[trigger] ready(m, d, k) by {
        assert(!f.has(nm(m, k)));
        assert(one(m, d, t, f, k));
        assert(t.has(nm(m, k)));
        let q = t.ix(nm(m, k));
        assert(t.v@[q].0@ == nm(m, k));
        lemma_num(m, t, q, k);
        assert(!ready(m, d, num(t, q)));
    }
    assert forall|o: Seq<int>| !#[trigger] order(m, o) by { if order(m, o) { lemma_stuck(m, d, i, o); } }
}
pub proof fn lemma_rest(m: TMap, d: Seq<int>, t: EMap, f: EMap, s: TSet)
    requires m.ok(), state(m, d, t, f, s), t.v@.len() == 0
    ensures tail(m, d, f, 0)
{
    assert forall|k: int| 0 <= k < f.v@.len() implies !d.contains(#[trigger] num(f, k)) by {
        assert(good(m, f.v@[k]));
        assert(f.v@[k].0@ == nm(m, num(f, k)));
        assert(f.has(nm(m, num(f, k))));
        assert(one(m, d, t, f, num(f, k)));
    }
    assert forall|i: int| 0 <= i < m.v@.len() && !d.contains(i) implies #[trigger] waits(f, 0, i) by {
        assert(one(m, d, t, f, i));
        if t.has(nm(m, i)) { let k = t.ix(nm(m, i)); assert(0 <= k < t.v@.len()); }
        assert(f.has(nm(m, i)));
        let k = f.ix(nm(m, i));
        lemma_num(m, f, k, i);
    }
}
pub proof fn lemma_all(m: TMap, d: Seq<int>, f: EMap)
    requires tail(m, d, f, f.v@.len() as int)
    ensures order(m, d)
{
    assert forall|i: int| 0 <= i < m.v@.len() implies #[trigger] d.contains(i) by { if !d.contains(i) { assert(waits(f, f.v@.len() as int, i)); } }
}
// one more entry: it is written exactly when it is to be written
pub proof fn lemma_one_more(m: TMap, d: Seq<int>, f: EMap, p: int, l: Seq<int>)
    requires m.ok(), okm(m, f), tail(m, d, f, p), 0 <= p < f.v@.len()
    ensures tail(m, d.push(num(f, p)), f, p + 1),
        l + pers(m, d.push(num(f, p))) == (if m.v@[num(f, p)].1.persistent { (l + pers(m, d)).push(num(f, p)) } else { l + pers(m, d) })
{
    lemma_tail(m, d, f, p);
    lemma_push(m, d, num(f, p));
    assert(l + pers(m, d).push(num(f, p)) =~= (l + pers(m, d)).push(num(f, p)));
}
//@fn Exporter::save file=typelib/exporter.cc class=Exporter types=ostream.*Registry impl=impl~Exporter ends=yes throws=yes
//@hide pers topo one order within waits tail
//@attrs
#[verifier::allow_complex_invariants]
//@spec
    requires !old(self).failed@, registry.m_global.ok()
    ensures
        r is Ok ==> exists|d: Seq<int>| order(registry.m_global, d) && final(self).log@ == old(self).log@ + #[trigger] pers(registry.m_global, d),
        r is Err && !final(self).failed@ ==> forall|d: Seq<int>| !#[trigger] order(registry.m_global, d)
//@at entry
let ghost m = registry.m_global;
let ghost log0 = self.log@;
let ghost mut d: Seq<int> = seq![];
//@loop 1
invariant
    rit(it, m), it_end.m_iter.i == m.v@.len(), okm(m, types), m.ok(), !self.failed@, self.log@ == log0,
    forall|x: Seq<u8>| #[trigger] types.has(x) == (exists|i: int| 0 <= i < it.m_iter.i && #[trigger] nm(m, i) == x)
decreases m.v@.len() - it.m_iter.i
//@at loop1.begin
let ghost i0 = it.m_iter.i as int;
let ghost t0 = types;
proof {
    assert(!t0.has(nm(m, i0))) by {
        if t0.has(nm(m, i0)) { let i = choose|i: int| 0 <= i < i0 && #[trigger] nm(m, i) == nm(m, i0); assert(m.v@[i].0@ != m.v@[i0].0@); }
    }
}
//@at loop1.end
proof {
    let p = types.ix(nm(m, i0));
    assert(types.has(nm(m, i0)));
    assert(good(m, types.v@[p]));
    lemma_insert(m, t0, types, p);
    assert forall|x: Seq<u8>| #[trigger] types.has(x) == (exists|i: int| 0 <= i < it.m_iter.i && #[trigger] nm(m, i) == x) by {
        if t0.has(x) { let i = choose|i: int| 0 <= i < i0 && #[trigger] nm(m, i) == x; assert(0 <= i < it.m_iter.i && nm(m, i) == x); }
        if x == nm(m, i0) { assert(0 <= i0 < it.m_iter.i && nm(m, i0) == x); }
    }
}
//@at loop2.before
proof { lemma_start(m, types, free_types, saved_types, log0); }
//@loop 2
invariant m == registry.m_global, m.ok(), !self.failed@, state(m, d, types, free_types, saved_types), self.log@ == log0 + pers(m, d)
decreases types.v@.len() + free_types.v@.len()
//@at loop2.begin
let ghost total = types.v@.len() + free_types.v@.len();
//@loop 3
invariant
    m == registry.m_global, m.ok(), !self.failed@, state(m, d, types, free_types, saved_types), self.log@ == log0 + pers(m, d),
    types.v@.len() + free_types.v@.len() == total, at_ok(it, types),
    forall|k: int| 0 <= k < place(it, types) ==> !ready(m, d, #[trigger] num(types, k))
decreases types.v@.len() - place(it, types)
//@at loop3.begin
let ghost t0 = types;
let ghost f0 = free_types;
let ghost p0 = it as int;
let ghost ei = num(types, it as int);
proof { assert(good(m, types.v@[it as int])); }
//@at loop3.end
proof {
    if types.v@.len() < t0.v@.len() {
        lemma_freed(m, d, t0, f0, types, free_types, saved_types, p0, free_types.ix(t0.v@[p0].0@));
        assert forall|k: int| 0 <= k < place(it, types) implies !ready(m, d, #[trigger] num(types, k)) by { assert(types.v@[k] == t0.v@[k]); assert(!ready(m, d, num(t0, k))); }
    }
}
//@at loop3.after
proof { if free_types.v@.len() == 0 { lemma_recursive(m, d, types, free_types, saved_types); } }
//@loop 4
invariant at_ok(it, types)
ensures true
decreases types.v@.len() - place(it, types)
//@loop 5
invariant
    m == registry.m_global, m.ok(), !self.failed@, state(m, d, types, free_types, saved_types), self.log@ == log0 + pers(m, d),
    at_ok(free_it, free_types), at_ok(save_it, free_types), save_it == END_IX || save_it < place(free_it, free_types),
    got_some ==> types.v@.len() + free_types.v@.len() < total,
    !got_some ==> free_types.v@.len() > 0 && types.v@.len() + free_types.v@.len() == total,
    forall|k: int| 0 <= k < place(free_it, free_types) ==> m.v@[#[trigger] num(free_types, k)].1.persistent
ensures
    free_it == END_IX
decreases free_types.v@.len() - place(free_it, free_types)
//@at loop5.begin
let ghost f0 = free_types;
let ghost s0 = saved_types;
let ghost p0 = free_it as int;
proof { assert(good(m, free_types.v@[p0])); }
//@at loop5.end
proof {
    if free_types.v@.len() < f0.v@.len() {
        lemma_done(m, d, types, f0, free_types, s0, saved_types, p0);
        d = d.push(num(f0, p0));
        assert forall|k: int| 0 <= k < place(free_it, free_types) implies m.v@[#[trigger] num(free_types, k)].1.persistent by { assert(free_types.v@[k] == f0.v@[k]); assert(m.v@[num(f0, k)].1.persistent); }
    }
}
//@at loop6.before
let ghost flen = free_types.v@.len();
proof { assert(good(m, free_types.v@[save_it as int])); }
//@loop 6
invariant
    m == registry.m_global, m.ok(), !self.failed@, state(m, d, types, free_types, saved_types), self.log@ == log0 + pers(m, d),
    free_it == END_IX, at_ok(save_it, free_types), free_types.v@.len() <= flen,
    free_types.v@.len() == flen ==> save_it != END_IX && ns_of(free_types.v@[save_it as int].0@) == ns@,
    forall|k: int| 0 <= k < free_types.v@.len() ==> good(m, #[trigger] free_types.v@[k]),
    forall|k: int| 0 <= k < free_types.v@.len() ==> m.v@[#[trigger] num(free_types, k)].1.persistent
ensures
    free_types.v@.len() < flen
decreases free_types.v@.len() - place(save_it, free_types)
//@at loop6.begin
let ghost f0 = free_types;
let ghost s0 = saved_types;
let ghost p0 = save_it as int;
let ghost l0 = self.log@;
//@at loop6.end
proof {
    lemma_done(m, d, types, f0, free_types, s0, saved_types, p0);
    assert(m.v@[num(f0, p0)].1.persistent);
    assert(log0 + pers(m, d).push(num(f0, p0)) =~= (log0 + pers(m, d)).push(num(f0, p0)));
    d = d.push(num(f0, p0));
    assert forall|k: int| 0 <= k < free_types.v@.len() implies m.v@[#[trigger] num(free_types, k)].1.persistent by {
        let k2 = if k < p0 { k } else { k + 1 };
        assert(free_types.v@[k] == f0.v@[k2]);
        assert(m.v@[num(f0, k2)].1.persistent);
    }
}
//@at loop7.before
proof { lemma_rest(m, d, types, free_types, saved_types); }
//@loop 7
invariant
    m == registry.m_global, m.ok(), !self.failed@, okm(m, free_types), at_ok(it, free_types), tail(m, d, free_types, place(it, free_types)), self.log@ == log0 + pers(m, d)
ensures
    it == END_IX
decreases free_types.v@.len() - place(it, free_types)
//@at loop7.begin
let ghost p0 = it as int;
let ghost ei = num(free_types, p0);
proof { assert(good(m, free_types.v@[p0])); }
//@at loop7.end
proof { lemma_one_more(m, d, free_types, p0, log0); d = d.push(ei); }
//@at loop7.after
proof { lemma_all(m, d, free_types); }
//@end
