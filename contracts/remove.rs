// the entries of a map that meet a condition
pub open spec fn keep(e: Seq<(Vec<u8>, RegistryType)>, f: spec_fn((Vec<u8>, RegistryType)) -> bool) -> Seq<(Vec<u8>, RegistryType)> decreases e.len()
{ if e.len() == 0 { seq![] } else if !f(e[0]) { keep(e.skip(1), f) } else { seq![e[0]] + keep(e.skip(1), f) } }
pub proof fn lemma_keep(e: Seq<(Vec<u8>, RegistryType)>, f: spec_fn((Vec<u8>, RegistryType)) -> bool, x: (Vec<u8>, RegistryType))
    ensures keep(e, f).contains(x) == (e.contains(x) && f(x))
    decreases e.len()
{
    if e.len() > 0 {
        lemma_keep(e.skip(1), f, x);
        let k = keep(e.skip(1), f);
        assert(e.contains(x) == (x == e[0] || e.skip(1).contains(x))) by {
            if e.contains(x) { let i = choose|i: int| 0 <= i < e.len() && e[i] == x; if i > 0 { assert(e.skip(1)[i - 1] == x); } }
            if e.skip(1).contains(x) { let i = choose|i: int| 0 <= i < e.skip(1).len() && e.skip(1)[i] == x; assert(e[i + 1] == x); }
            if x == e[0] { assert(e.contains(e[0])); }
        }
        if f(e[0]) {
            let q = seq![e[0]] + k;
            assert(q.contains(x) == (x == e[0] || k.contains(x))) by {
                if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; if i > 0 { assert(k[i - 1] == x); } }
                if k.contains(x) { let i = choose|i: int| 0 <= i < k.len() && k[i] == x; assert(q[i + 1] == x); }
                if x == e[0] { assert(q[0] == x); }
            }
        }
    }
}
pub open spec fn live(s: TSet) -> spec_fn((Vec<u8>, RegistryType)) -> bool { |x: (Vec<u8>, RegistryType)| !s.has(x.1.type_) }
//@fn Registry::remove file=typelib/registry.cc impl=impl~Registry class=Registry name=remove
//@spec
    requires rpre(*old(self))
    ensures rpre(*final(self)), forall|t: TyRef| #[trigger] r.has(t) == reaches(old(self).m_global, t, type_),
        final(self).m_global.v@ == keep(old(self).m_global.v@, live(r)),
        final(self).m_namespace == old(self).m_namespace
//@at entry
let ghost m0 = self.m_global.v@;
//@at loop1.before
proof { assert(self.m_global.v@.skip(0) =~= m0); assert(m0.skip(0) =~= m0); assert(self.m_global.v@.take(0) =~= Seq::empty()); assert(self.m_global.v@.take(0) + keep(m0, live(types)) =~= keep(m0, live(types))); }
//@loop 1
invariant
    global_it <= self.m_global.v@.len(), self.m_global.v@.len() - global_it <= m0.len(), self.m_namespace == old(self).m_namespace,
    self.m_global.v@.skip(global_it as int) == m0.skip(m0.len() - (self.m_global.v@.len() - global_it)),
    self.m_global.v@.take(global_it as int) + keep(m0.skip(m0.len() - (self.m_global.v@.len() - global_it)), live(types)) == keep(m0, live(types))
decreases self.m_global.v@.len() - global_it
//@at loop1.begin
let ghost v0 = self.m_global.v@;
let ghost g0 = global_it as int;
let ghost n0 = m0.len() - (v0.len() - g0);
proof { assert(v0.skip(g0)[0] == v0[g0]); assert(m0.skip(n0)[0] == m0[n0]); assert(m0[n0] == v0[g0]); assert(m0.skip(n0).skip(1) =~= m0.skip(n0 + 1)); assert(v0.skip(g0).skip(1) =~= v0.skip(g0 + 1)); }
//@at loop1.end
proof {
    let v1 = self.m_global.v@;
    if types.has(v0[g0].1.type_) {
        assert(v1 == v0.remove(g0));
        assert(v1.skip(g0) =~= v0.skip(g0 + 1));
        assert(v1.take(g0) =~= v0.take(g0));
    } else {
        assert(v1.take(g0 + 1) =~= v0.take(g0) + seq![v0[g0]]);
        assert(v1.take(g0 + 1) + keep(m0.skip(n0 + 1), live(types)) =~= v0.take(g0) + (seq![v0[g0]] + keep(m0.skip(n0 + 1), live(types))));
    }
}
//@at loop1.after
proof {
    lemma_keep_inv(*old(self), live(types));
    assert(m0.skip(m0.len() as int) =~= Seq::empty());
    assert(self.m_global.v@.take(self.m_global.v@.len() as int) =~= self.m_global.v@);
    assert(self.m_global.v@ + keep(m0.skip(m0.len() as int), live(types)) =~= self.m_global.v@);
}
//@end
