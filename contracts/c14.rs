//@include prelude.rs
//@include reginv.rs
//@include noss.rs
// ---- lengths
pub open spec fn tot(c: Seq<Seq<u8>>) -> int decreases c.len() { if c.len() == 0 { 0 } else { tot(c.drop_last()) + c.last().len() + 1 } }
pub proof fn lemma_tot_cat(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) ensures tot(a + b) == tot(a) + tot(b) decreases b.len()
{ if b.len() > 0 { lemma_tot_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); } else { assert(a + b =~= a); } }
pub proof fn lemma_tot_one(x: Seq<u8>) ensures tot(seq![x]) == x.len() + 1 { assert(seq![x].drop_last() =~= Seq::<Seq<u8>>::empty()); assert(tot(seq![x].drop_last()) == 0); }
pub proof fn lemma_toks_len(s: Seq<u8>, st: int, i: int) requires 0 <= st <= i <= s.len() ensures tot(toks(s, st, i)) <= s.len() - st + 1 decreases s.len() - i
{
    if i < s.len() {
        if s[i] == 47 {
            lemma_toks_len(s, i + 1, i + 1);
            if st < i { lemma_tot_cat(seq![s.subrange(st, i)], toks(s, i + 1, i + 1)); lemma_tot_one(s.subrange(st, i)); }
            else { assert(toks(s, st, i) =~= toks(s, i + 1, i + 1)); }
        } else { lemma_toks_len(s, st, i + 1); }
    } else if st < s.len() { lemma_tot_one(s.skip(st)); }
}
pub proof fn lemma_space_len(c: Seq<Seq<u8>>, n: int) requires 0 <= n <= c.len() ensures space(c, n).len() <= 1 + tot(c), space(c, n).len() >= 1, space(c, n).last() == 47 decreases c.len()
{
    if c.len() > 0 {
        if n < c.len() { lemma_space_same(c.drop_last(), c, n); lemma_space_len(c.drop_last(), n); }
        else { lemma_space_len(c.drop_last(), n - 1); lemma_space_same(c.drop_last(), c, n - 1); }
    }
}
pub proof fn lemma_space_same(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, n: int) requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i] ensures space(a, n) == space(b, n) decreases n
{ if n > 0 { lemma_space_same(a, b, n - 1); } }
// ---- importing: the keys with a prefix stand together behind the lower bound
pub proof fn lemma_import_run(g: TMap, p: Seq<u8>, lo: int, i: int)
    requires ginv(g), below(g, p, lo), lo <= i <= g.v@.len(), i == g.v@.len() || !is_prefix(p, g.v@[i].0@)
    ensures forall|k: Seq<u8>| k.len() > 0 && #[trigger] g.has(p + k) ==> lo <= g.ix(p + k) < i
{
    assert forall|k: Seq<u8>| k.len() > 0 && #[trigger] g.has(p + k) implies lo <= g.ix(p + k) < i by {
        let x = g.ix(p + k);
        assert(g.v@[x].0@ == p + k);
        assert((p + k).take(p.len() as int) =~= p);
        theorem_prefix(p, p + k);
        if x < lo { theorem_total(p, p + k); }
        if x >= i {
            if x > i {
                let b = g.v@[i].0@;
                assert(lt(b, g.v@[x].0@));
                assert(!lt(b, p));
                if b != p { theorem_total(b, p); assert(p.take(p.len() as int) =~= p); theorem_contiguous(p, p, b, p + k); }
                else { assert(b.take(p.len() as int) =~= p); }
            }
        }
    }
}
// a namespace is valid when its pieces are identifiers
pub open spec fn vspace(s: Seq<u8>, abs: bool) -> bool { s.len() > 0 && (abs ==> s[0] == 47) && forall|i: int| 0 <= i < comps(s).len() ==> ident(#[trigger] comps(s)[i]) }
pub proof fn lemma_tok_len(c: Seq<Seq<u8>>, i: int) requires 0 <= i < c.len() ensures c[i].len() + 1 <= tot(c) decreases c.len()
{ lemma_tot_pos(c.drop_last()); if i < c.len() - 1 { lemma_tok_len(c.drop_last(), i); } }
pub proof fn lemma_tot_pos(c: Seq<Seq<u8>>) ensures tot(c) >= 0 decreases c.len() { if c.len() > 0 { lemma_tot_pos(c.drop_last()); } }
//@fn isValidNamespace file=typelib/typename.cc
//@spec
    requires name@.len() < 0x7fff_fff0
    ensures r == vspace(name@, absolute)
//@at entry
proof { lemma_toks_len(name@, 0, 0); }
//@loop 1
invariant it.i <= it.v@.len(), it.v == tokenizer, svw(tokenizer@) == comps(name@), tot(comps(name@)) <= name@.len() + 1, name@.len() < 0x7fff_fff0, forall|i: int| 0 <= i < it.i ==> ident(#[trigger] comps(name@)[i])
decreases it.v@.len() - it.i
//@at loop1.begin
proof { lemma_tok_len(comps(name@), it.i as int); assert(comps(name@)[it.i as int] == it.v@[it.i as int]@); }
//@end
//@fn Registry::importNamespace file=typelib/registry.cc impl=impl~Registry class=Registry
//@spec
    requires ginv(old(self).m_global), old(self).m_current.ok(), name@.len() < 0x7fff_ffe0
    ensures final(self).m_global == old(self).m_global, final(self).m_namespace == old(self).m_namespace, final(self).m_current.ok(),
        forall|k: Seq<u8>| k.len() > 0 ==> #[trigger] final(self).m_current.has(k) == (old(self).m_current.has(k) || old(self).m_global.has(norm(name@) + k)),
        forall|k: Seq<u8>| k.len() > 0 && #[trigger] final(self).m_current.has(k) ==> final(self).m_current.at(k).type_ ==
            (if old(self).m_global.has(norm(name@) + k) && (erase_existing || !old(self).m_current.has(k)) { old(self).m_global.at(norm(name@) + k).type_ } else { old(self).m_current.at(k).type_ })
//@at entry
let ghost g = self.m_global;
let ghost c0 = self.m_current;
let ghost p = norm(name@);
//@loop 1
invariant *it.m == g, self.m_global == g, self.m_namespace == old(self).m_namespace, self.m_current.ok(), it.i <= g.v@.len(), norm_name@ == p, norm_length == p.len(), ginv(g), below(g, p, lo), lo <= it.i,
    forall|k: Seq<u8>| k.len() > 0 ==> #[trigger] self.m_current.has(k) == (c0.has(k) || (g.has(p + k) && lo <= g.ix(p + k) < it.i)),
    forall|k: Seq<u8>| k.len() > 0 && #[trigger] self.m_current.has(k) ==> self.m_current.at(k).type_ ==
            (if g.has(p + k) && lo <= g.ix(p + k) < it.i && (erase_existing || !c0.has(k)) { g.at(p + k).type_ } else { c0.at(k).type_ })
decreases g.v@.len() - it.i
//@at loop1.before
let ghost lo = it.i as int;
//@at loop1.begin
let ghost i0 = it.i as int;
let ghost key = g.v@[i0].0@;
let ghost k0 = key.skip(p.len() as int);
let ghost m0 = self.m_current;
proof {
    axiom_str_len(g.v@[i0].0);
    assert(p + k0 =~= key) by { assert(key =~= key.take(p.len() as int) + k0); }
    g.lemma_at(i0);
    assert forall|k: Seq<u8>| #[trigger] g.has(p + k) && k != k0 implies g.ix(p + k) != i0 by { assert((p + k).skip(p.len() as int) =~= k); assert(g.v@[g.ix(p + k)].0@ == p + k); }
}
//@at loop1.end
proof {
    assert(rel_name@ =~= k0);
    assert forall|k: Seq<u8>| k.len() > 0 implies #[trigger] self.m_current.has(k) == (c0.has(k) || (g.has(p + k) && lo <= g.ix(p + k) < it.i)) by { if k != k0 { assert(self.m_current.has(k) == m0.has(k)); } }
    assert forall|k: Seq<u8>| k.len() > 0 && #[trigger] self.m_current.has(k) implies self.m_current.at(k).type_ ==
            (if g.has(p + k) && lo <= g.ix(p + k) < it.i && (erase_existing || !c0.has(k)) { g.at(p + k).type_ } else { c0.at(k).type_ }) by { if k != k0 { assert(m0.has(k)); assert(self.m_current.at(k) == m0.at(k)); } }
}
//@at loop1.after
proof { lemma_import_run(g, p, lo, it.i as int); }
//@end
//@fn Registry::updateCurrentNameMap file=typelib/registry.cc impl=impl~Registry class=Registry
//@spec
    requires ginv(old(self).m_global), nsinv(*old(self))
    ensures final(self).m_global == old(self).m_global, final(self).m_namespace == old(self).m_namespace, rinv(*final(self))
//@at entry
let ghost g = self.m_global;
let ghost c = comps(self.m_namespace@);
let ghost mut n: int = 0;
proof { lemma_toks_len(self.m_namespace@, 0, 0); }
//@loop 1
invariant self.m_global == g, self.m_namespace == old(self).m_namespace, self.m_current.ok(), it <= g.v@.len(), ginv(g),
    forall|k: Seq<u8>| #[trigger] self.m_current.has(k) == (g.has(k) && g.ix(k) < it),
    forall|k: Seq<u8>| #[trigger] self.m_current.has(k) ==> self.m_current.at(k).type_ == g.at(k).type_
decreases g.v@.len() - it
//@at loop1.begin
let ghost i0 = it as int;
let ghost m0 = self.m_current;
proof { g.lemma_at(i0); }
//@at loop1.end
proof {
    assert forall|k: Seq<u8>| #[trigger] self.m_current.has(k) == (g.has(k) && g.ix(k) < it) by { if g.has(k) { assert(g.v@[g.ix(k)].0@ == k); } if k != g.v@[i0].0@ { assert(self.m_current.has(k) == m0.has(k)); } }
    assert forall|k: Seq<u8>| #[trigger] self.m_current.has(k) implies self.m_current.at(k).type_ == g.at(k).type_ by { if k != g.v@[i0].0@ { assert(m0.has(k)); } }
}
//@at call:importNamespace#1.before
let ghost m1 = self.m_current;
proof { assert forall|k: Seq<u8>| #[trigger] m1.has(k) == g.has(k) by { if g.has(k) { assert(g.v@[g.ix(k)].0@ == k); } } }
//@at call:importNamespace#1.after
proof {
    assert forall|k: Seq<u8>| k.len() > 0 implies #[trigger] binds(self.m_current, k, g, rname(g, c, k, 0)) by { assert(self.m_current.has(k) == (m1.has(k) || g.has(seq![47u8] + k))); }
}
//@loop 2
invariant self.m_global == g, self.m_namespace == old(self).m_namespace, self.m_current.ok(), ginv(g), nsinv(*self), ns_it.i <= ns_it.v@.len(), ns_it.v == tokens, svw(tokens@) == c,
    c == comps(self.m_namespace@), tot(c) <= self.m_namespace@.len() + 1, n == ns_it.i, cur_space@ == space(c, n), cur(g, c, n, self.m_current)
decreases c.len() - ns_it.i
//@at loop2.begin
let ghost m2 = self.m_current;
proof { lemma_space_len(c, n + 1); lemma_space_len(c, n); assert(c[n] == ns_it.v@[n]@); }
//@at loop2.end
proof {
    n = n + 1;
    assert(cur_space@ =~= space(c, n));
    assert forall|k: Seq<u8>| k.len() > 0 implies #[trigger] binds(self.m_current, k, g, rname(g, c, k, n)) by { assert(binds(m2, k, g, rname(g, c, k, n - 1))); assert(self.m_current.has(k) == (m2.has(k) || g.has(space(c, n) + k))); }
}
//@end
//@fn Registry::setDefaultNamespace file=typelib/registry.cc impl=impl~Registry class=Registry
//@spec
    requires ginv(old(self).m_global), nsinv(*old(self)), space@.len() < 0x7fff_fef0
    ensures r == vspace(space@, true), !r ==> *final(self) == *old(self),
        r ==> final(self).m_global == old(self).m_global && final(self).m_namespace@ == norm(space@) && rinv(*final(self))
//@end
// ---- lookups
pub open spec fn hit(m: TMap, k: Seq<u8>) -> TyRef { if m.has(k) { m.at(k).type_ } else { TyRef { id: 0 } } }
//@fn Registry::get_ file=typelib/registry.cc impl=impl~Registry class=Registry types=string self=&self
//@spec
    requires self.m_current.ok()
    ensures r == hit(self.m_current, name@)
//@end
//@fn Registry::get file=typelib/registry.cc impl=impl~Registry class=Registry
//@spec
    requires self.m_current.ok()
    ensures r == hit(self.m_current, name@)
//@end
//@fn Registry::find file=typelib/registry.cc impl=impl~Registry class=Registry
//@spec
    requires self.m_global.ok()
    ensures rit(r, self.m_global), (r.m_iter.i < self.m_global.v@.len()) == self.m_global.has(name@), self.m_global.has(name@) ==> self.m_global.v@[r.m_iter.i as int].0@ == name@
//@end
//@fn Registry::isPersistent file=typelib/registry.cc class=Registry static=yes impl=impl~Registry
//@spec
    ensures r == (name@ != tname(type_) || (tcat(type_) != Pointer && tcat(type_) != Array))
//@end
// ---- one more name
pub open spec fn added(g: TMap, h: TMap, name: Seq<u8>, t: TyRef) -> bool
{ (forall|x: Seq<u8>| #[trigger] h.has(x) == (g.has(x) || x == name)) && h.at(name).type_ == t && !g.has(name) && forall|x: Seq<u8>| g.has(x) ==> #[trigger] h.at(x) == g.at(x) }
// k reaches name through one of the first j namespaces
pub open spec fn aff(c: Seq<Seq<u8>>, name: Seq<u8>, k: Seq<u8>, j: int) -> bool { exists|i: int| 0 <= i < j && #[trigger] space(c, i) + k == name }
pub proof fn lemma_space_inc(c: Seq<Seq<u8>>, a: int, b: int) requires 0 <= a < b ensures space(c, a).len() < space(c, b).len(), is_prefix(space(c, a), space(c, b)) decreases b
{
    if a < b - 1 { lemma_space_inc(c, a, b - 1); assert(space(c, b).take(space(c, a).len() as int) =~= space(c, b - 1).take(space(c, a).len() as int)); }
    else { assert(space(c, b).take(space(c, a).len() as int) =~= space(c, a)); }
}
pub proof fn lemma_space_end(c: Seq<Seq<u8>>, n: int) ensures space(c, n).len() >= 1, space(c, n).last() == 47, space(c, n)[0] == 47 decreases n
{ if n > 0 { lemma_space_end(c, n - 1); } }
// names of the table that are not name are resolved as before
pub proof fn lemma_unaffected(g: TMap, h: TMap, c: Seq<Seq<u8>>, name: Seq<u8>, t: TyRef, k: Seq<u8>, n: int)
    requires added(g, h, name, t), !aff(c, name, k, n + 1), k != name, n >= 0
    ensures rname(h, c, k, n) == rname(g, c, k, n), rname(g, c, k, n) != name
    decreases n
{
    assert(space(c, n) + k != name);
    if n > 0 { assert(!aff(c, name, k, n)) by { if aff(c, name, k, n) { let i = choose|i: int| 0 <= i < n && #[trigger] space(c, i) + k == name; assert(0 <= i < n + 1); } } lemma_unaffected(g, h, c, name, t, k, n - 1); }
}
pub open spec fn hid(h: TMap, c: Seq<Seq<u8>>, k: Seq<u8>, j: int, n: int) -> bool { exists|i: int| j < i <= n && h.has(#[trigger] space(c, i) + k) }
pub proof fn lemma_affected(g: TMap, h: TMap, c: Seq<Seq<u8>>, name: Seq<u8>, t: TyRef, k: Seq<u8>, j: int, n: int)
    requires added(g, h, name, t), space(c, j) + k == name, 0 <= j <= n, gname(name), ginv(h), k.len() > 0
    ensures hid(h, c, k, j, n) ==> rname(h, c, k, n) == rname(g, c, k, n) && rname(h, c, k, n) != name, !hid(h, c, k, j, n) ==> rname(h, c, k, n) == name
    decreases n
{
    if n > j {
        lemma_space_inc(c, j, n);
        assert(space(c, n) + k != name) by { assert((space(c, n) + k).len() != name.len()); }
        lemma_affected(g, h, c, name, t, k, j, n - 1);
        if h.has(space(c, n) + k) { assert(hid(h, c, k, j, n)); }
        else {
            assert(hid(h, c, k, j, n) == hid(h, c, k, j, n - 1)) by {
                if hid(h, c, k, j, n) { let i = choose|i: int| j < i <= n && h.has(#[trigger] space(c, i) + k); assert(j < i <= n - 1); }
                if hid(h, c, k, j, n - 1) { let i = choose|i: int| j < i <= n - 1 && h.has(#[trigger] space(c, i) + k); assert(j < i <= n); }
            }
        }
    } else {
        assert(!hid(h, c, k, j, n));
        lemma_space_end(c, j);
        if j == 0 {
            assert(name[0] == 47 && name[1] == k[0]);
            assert(!h.has(k)) by { if h.has(k) { let i = h.ix(k); assert(h.v@[i].0@ == k); assert(gname(h.v@[i].0@)); } }
        }
    }
}
// an absolute name means itself
pub proof fn lemma_absolute(g: TMap, c: Seq<Seq<u8>>, k: Seq<u8>, n: int)
    requires ginv(g), k.len() > 0, k[0] == 47, n >= 0
    ensures g.has(k) ==> rname(g, c, k, n) == k, g.has(rname(g, c, k, n)) == g.has(k)
    decreases n
{
    let s = space(c, n) + k;
    lemma_space_end(c, n);
    assert(!g.has(s)) by { if g.has(s) { let i = g.ix(s); assert(g.v@[i].0@ == s); assert(gname(g.v@[i].0@)); let x = space(c, n).len() - 1; assert(s[x] == 47 && s[x + 1] == 47); } }
    if n > 0 { lemma_absolute(g, c, k, n - 1); }
}
// when the name is not inside a namespace it is not inside the deeper ones
pub proof fn lemma_deeper(c: Seq<Seq<u8>>, nm: Seq<u8>, k: Seq<u8>, j: int, n: int)
    requires 0 <= j, k.len() > 0, nm.len() <= space(c, j).len() || nm.take(space(c, j).len() as int) != space(c, j)
    ensures aff(c, nm, k, n + 1) ==> aff(c, nm, k, j)
{
    if aff(c, nm, k, n + 1) {
        let i = choose|i: int| 0 <= i < n + 1 && #[trigger] space(c, i) + k == nm;
        if i >= j {
            if i > j { lemma_space_inc(c, j, i); }
            assert(nm.take(space(c, j).len() as int) =~= space(c, i).take(space(c, j).len() as int));
            if i == j { assert(space(c, i).take(space(c, j).len() as int) =~= space(c, j)); }
            assert(false);
        }
    }
}
// the maps agree on what the new name does not touch
pub proof fn lemma_rest(g: TMap, h: TMap, c: Seq<Seq<u8>>, nm: Seq<u8>, t: TyRef, k: Seq<u8>, n: int, m: TMap)
    requires added(g, h, nm, t), k != nm, !aff(c, nm, k, n + 1), binds(m, k, g, rname(g, c, k, n)), n >= 0
    ensures binds(m, k, h, rname(h, c, k, n))
{ lemma_unaffected(g, h, c, nm, t, k, n); }
//@fn Registry::add4 file=typelib/registry.cc impl=impl~Registry class=Registry name=add nparams=4 throws=yes
//@attrs
#[verifier::allow_complex_invariants]
//@spec
    requires rinv(*old(self)), new_type.id != 0, name@.len() < 0x7fff_ff00
    ensures
        r is Err <==> !valid(name@, true) || (hit(old(self).m_global, name@).id != 0 && hit(old(self).m_global, name@) != new_type),
        r is Err ==> *final(self) == *old(self),
        r is Ok && old(self).m_global.has(name@) ==> *final(self) == *old(self),
        r is Ok && !old(self).m_global.has(name@) ==> added(old(self).m_global, final(self).m_global, name@, new_type) && final(self).m_namespace == old(self).m_namespace
            && final(self).m_global.at(name@).persistent == persistent && final(self).m_global.at(name@).source_id@ == source_id@,
        rinv(*final(self))
//@at entry
let ghost g = self.m_global;
let ghost m0 = self.m_current;
let ghost nm = name@;
let ghost c = comps(self.m_namespace@);
let ghost n = c.len() as int;
let ghost mut j: int = 0;
proof {
    lemma_toks_len(self.m_namespace@, 0, 0);
    if valid(nm, true) { lemma_valid_gname(nm); lemma_absolute(g, c, nm, n); assert(binds(m0, nm, g, rname(g, c, nm, n))); if g.has(nm) { assert(g.v@[g.ix(nm)].0@ == nm); assert(g.v@[g.ix(nm)].1.type_.id != 0); } }
}
//@at loop1.before
let ghost h = self.m_global;
proof {
    assert(ginv(h)) by { assert forall|i: int| 0 <= i < h.v@.len() implies gname((#[trigger] h.v@[i]).0@) && h.v@[i].1.type_.id != 0 by {
        let x = h.v@[i].0@;
        h.lemma_at(i);
        if x != nm { assert(g.has(x)); assert(h.at(x) == g.at(x)); assert(g.v@[g.ix(x)].0@ == x); } } }
    assert(added(g, h, nm, new_type));
    assert forall|k: Seq<u8>| k.len() > 0 && k != nm implies #[trigger] binds(self.m_current, k, g, rname(g, c, k, n)) by { assert(binds(m0, k, g, rname(g, c, k, n))); assert(self.m_current.has(k) == m0.has(k)); }
    lemma_absolute(h, c, nm, n);
}
//@loop 1
invariant_except_break
    true
invariant 0 <= j <= n, ns_it.i == j, ns_it.v == tokens, svw(tokens@) == c, cur_space@ == space(c, j), h == self.m_global, self.m_namespace == old(self).m_namespace, self.m_current.ok(),
    forall|k: Seq<u8>| k.len() > 0 && (k == nm || aff(c, nm, k, j)) ==> #[trigger] binds(self.m_current, k, h, rname(h, c, k, n)),
    forall|k: Seq<u8>| k.len() > 0 && !(k == nm || aff(c, nm, k, j)) ==> #[trigger] binds(self.m_current, k, g, rname(g, c, k, n)),
ensures forall|k: Seq<u8>| k.len() > 0 ==> #[trigger] binds(self.m_current, k, h, rname(h, c, k, n))
decreases n - j
//@loop 2
invariant j <= it.i <= n, it.v == tokens, deeper_space@ == space(c, it.i as int), hidden == hid(h, c, k0, j, it.i as int), cur_name@ == k0, h == self.m_global, self.m_current == mj
decreases n - it.i
//@at loop2.begin
let ghost i0 = it.i as int;
proof { assert(c[i0] == it.v@[i0]@); }
//@at loop2.end
proof {
    assert(deeper_space@ =~= space(c, i0 + 1));
    assert(hid(h, c, k0, j, i0 + 1) == h.has(space(c, i0 + 1) + k0)) by { if hid(h, c, k0, j, i0 + 1) { let i = choose|i: int| j < i <= i0 + 1 && h.has(#[trigger] space(c, i) + k0); if i < i0 + 1 { assert(j < i <= i0); } } }
}
//@at loop1.begin
let ghost mj = self.m_current;
let ghost k0 = nm.skip(space(c, j).len() as int);
proof {
    lemma_space_end(c, j);
    axiom_str_len(*name); axiom_str_len(cur_space);
    if nm.len() <= space(c, j).len() || nm.take(space(c, j).len() as int) != space(c, j) {
        assert forall|k: Seq<u8>| k.len() > 0 implies #[trigger] binds(mj, k, h, rname(h, c, k, n)) by {
            lemma_deeper(c, nm, k, j, n);
            if !(k == nm || aff(c, nm, k, j)) { assert(binds(mj, k, g, rname(g, c, k, n))); lemma_rest(g, h, c, nm, new_type, k, n, mj); }
        }
    } else {
        assert(space(c, j) + k0 =~= nm);
        lemma_affected(g, h, c, nm, new_type, k0, j, n);
        assert(!aff(c, nm, k0, j)) by { if aff(c, nm, k0, j) { let i = choose|i: int| 0 <= i < j && #[trigger] space(c, i) + k0 == nm; lemma_space_inc(c, i, j); assert((space(c, i) + k0).len() == nm.len()); } }
        assert forall|k: Seq<u8>| k.len() > 0 implies #[trigger] aff(c, nm, k, j + 1) == (aff(c, nm, k, j) || k == k0) by {
            if space(c, j) + k == nm { assert(nm.skip(space(c, j).len() as int) =~= k); }
            if aff(c, nm, k, j + 1) { let i = choose|i: int| 0 <= i < j + 1 && #[trigger] space(c, i) + k == nm; if i < j { assert(aff(c, nm, k, j)); } }
            if aff(c, nm, k, j) { let i = choose|i: int| 0 <= i < j && #[trigger] space(c, i) + k == nm; assert(i < j + 1); }
        }
        assert(binds(mj, k0, g, rname(g, c, k0, n)));
        assert forall|k: Seq<u8>| k.len() > 0 && k != k0 && j == n implies #[trigger] binds(mj, k, h, rname(h, c, k, n)) by {
            if !(k == nm || aff(c, nm, k, j)) { assert(binds(mj, k, g, rname(g, c, k, n))); assert(!aff(c, nm, k, n + 1)); lemma_rest(g, h, c, nm, new_type, k, n, mj); }
        }
    }
}
//@at call:getRelativeName#1.after
proof { assert(norm(space(c, j)) == space(c, j)); }
//@at loop1.end
proof {
    assert(cur_space@ =~= space(c, j + 1)) by { assert(c[j] == tokens@[j]@); }
    assert forall|k: Seq<u8>| k.len() > 0 && (k == nm || aff(c, nm, k, j + 1)) implies #[trigger] binds(self.m_current, k, h, rname(h, c, k, n)) by {
        if k != k0 { assert(binds(mj, k, h, rname(h, c, k, n))); assert(self.m_current.has(k) == mj.has(k)); }
    }
    assert forall|k: Seq<u8>| k.len() > 0 && !(k == nm || aff(c, nm, k, j + 1)) implies #[trigger] binds(self.m_current, k, g, rname(g, c, k, n)) by {
        assert(k != k0); assert(binds(mj, k, g, rname(g, c, k, n))); assert(self.m_current.has(k) == mj.has(k));
    }
    j = j + 1;
}
//@at break#1
proof { assert(self.m_current == mj); assert(cur(h, c, n, self.m_current)); }
//@at break#2
proof {
    assert(j == n);
    assert forall|k: Seq<u8>| k.len() > 0 implies #[trigger] binds(self.m_current, k, h, rname(h, c, k, n)) by { if k != k0 { assert(binds(mj, k, h, rname(h, c, k, n))); assert(self.m_current.has(k) == mj.has(k)); } else { } }
    assert(cur(h, c, n, self.m_current));
}
//@at loop1.after
proof {
    assert(ginv(self.m_global)); assert(nsinv(*self)); assert(comps(self.m_namespace@) == c);
    assert(self.m_current.ok());
    assert(cur(h, c, n, self.m_current));
}
//@end
// ---- more names for types that are there already
pub open spec fn grown(g: TMap, h: TMap) -> bool
{ (forall|x: Seq<u8>| #[trigger] g.has(x) ==> h.has(x) && h.at(x) == g.at(x)) && forall|x: Seq<u8>| #[trigger] h.has(x) && !g.has(x) ==> held(g, h.at(x).type_) }
// new names only for types that are there, or for t
pub open spec fn grown_with(g: TMap, h: TMap, t: TyRef) -> bool
{ (forall|x: Seq<u8>| #[trigger] g.has(x) ==> h.has(x) && h.at(x) == g.at(x)) && forall|x: Seq<u8>| #[trigger] h.has(x) && !g.has(x) ==> held(g, h.at(x).type_) || h.at(x).type_ == t }
pub proof fn lemma_grown_with(g: TMap, h: TMap, k: TMap, t: TyRef)
    requires grown(h, k), grown_with(g, h, t)
    ensures grown_with(g, k, t)
{
    assert forall|x: Seq<u8>| #[trigger] k.has(x) && !g.has(x) implies held(g, k.at(x).type_) || k.at(x).type_ == t by {
        if h.has(x) {} else { let y = choose|y: Seq<u8>| #[trigger] h.has(y) && h.at(y).type_ == k.at(x).type_; if g.has(y) { assert(g.at(y) == h.at(y)); } }
    }
}
pub open spec fn held(g: TMap, t: TyRef) -> bool { exists|y: Seq<u8>| #[trigger] g.has(y) && g.at(y).type_ == t }
pub proof fn lemma_grown(a: TMap, b: TMap, c: TMap) requires grown(a, b), grown(b, c) ensures grown(a, c)
{
    assert forall|x: Seq<u8>| #[trigger] c.has(x) && !a.has(x) implies held(a, c.at(x).type_) by {
        if b.has(x) { assert(c.at(x) == b.at(x)); assert(held(a, b.at(x).type_)); }
        else { let y = choose|y: Seq<u8>| #[trigger] b.has(y) && b.at(y).type_ == c.at(x).type_; if !a.has(y) { assert(held(a, b.at(y).type_)); } else { assert(a.at(y) == b.at(y)); } }
    }
    assert forall|x: Seq<u8>| #[trigger] a.has(x) implies c.has(x) && c.at(x) == a.at(x) by { assert(b.has(x)); }
}
pub proof fn lemma_added_grown(g: TMap, h: TMap, n: Seq<u8>, t: TyRef) requires added(g, h, n, t), held(g, t) ensures grown(g, h) {}
//@fn Type_eq this=TyRef file=typelib/typemodel.cc class=Type name=operator==
//@spec
    ensures r == (this_ == with)
//@end
//@fn Registry::getAliasesOf file=typelib/registry.cc impl=impl~Registry class=Registry
//@spec
    ensures forall|x: Seq<u8>| #[trigger] r.has(x) == (exists|i: int| 0 <= i < self.m_global.v@.len() && (#[trigger] self.m_global.v@[i]).0@ == x && isalias(self.m_global.v@[i]) && self.m_global.v@[i].1.type_ == type_)
//@loop 1
invariant rit(it, self.m_global), end.m_iter.i == self.m_global.v@.len(),
    forall|x: Seq<u8>| #[trigger] result.has(x) == (exists|i: int| 0 <= i < it.m_iter.i && (#[trigger] self.m_global.v@[i]).0@ == x && isalias(self.m_global.v@[i]) && self.m_global.v@[i].1.type_ == type_)
decreases self.m_global.v@.len() - it.m_iter.i
//@end
//@fn Registry::getFullName file=typelib/registry.cc impl=impl~Registry class=Registry
//@spec
    ensures r@ == if name@.len() > 0 && name@[0] == 47 { name@ } else { self.m_namespace@ + name@ }
//@end
pub struct TypeBuilder {}
//@fn TypeBuilder::getBaseType impl=impl~TypeBuilder file=typelib/typebuilder.cc class=TypeBuilder static=yes assumed=not~constrained
//@spec
//@end
//@fn Registry::has file=typelib/registry.cc impl=impl~Registry class=Registry
//@spec
    requires self.m_current.ok()
    ensures self.m_current.has(name@) ==> r, !build_if_missing ==> r == self.m_current.has(name@)
//@end
// the name of the type over another name of what it refers to (a string below 2^31 characters)
#[verifier::external_body]
pub fn any_getIndirectTypeName(t: TyRef, inside: &Vec<u8>) -> (r: Vec<u8>) ensures r@.len() < 0x7fff_ff00 { unimplemented!() }
//@fn Array_getIndirectTypeName this=TyRef file=typelib/typemodel.cc class=Array name=getIndirectTypeName dispatch=any_getIndirectTypeName overrides=Array,Pointer assumed=any~string
//@spec
//@end
//@fn Type_modifiedDependencyAliases this=TyRef file=typelib/typemodel.cc class=Type name=modifiedDependencyAliases dispatch=any_modifiedDependencyAliases overrides=Type,Indirect throws=yes
//@spec
    ensures r is Ok, *final(registry) == *old(registry)
//@end
// registered types have a name
#[verifier::external_body]
pub proof fn axiom_named(t: TyRef) ensures tname(t).len() > 0 {}
//@fn Indirect_modifiedDependencyAliases this=TyRef file=typelib/typemodel.cc class=Indirect name=modifiedDependencyAliases throws=yes
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires rinv(*old(registry)), tcat(this_) == Array || tcat(this_) == Pointer || tcat(this_) == Container
    ensures rinv(*final(registry)), grown(old(registry).m_global, final(registry).m_global), final(registry).m_namespace == old(registry).m_namespace
//@at entry
proof { axiom_named(this_); }
let ghost g0 = registry.m_global;
let ghost ns0 = registry.m_namespace;
//@loop 1
invariant alias_it.i <= alias_it.v@.len(), *alias_it.v == aliases.v, rinv(*registry), grown(g0, registry.m_global), registry.m_namespace == ns0
decreases alias_it.v@.len() - alias_it.i
//@at loop1.begin
let ghost g1 = registry.m_global;
//@at loop1.end
proof { lemma_grown(g0, g1, registry.m_global); }
//@at call:alias4#1.err
proof { lemma_grown(g0, g1, registry.m_global); }
//@end
// virtual call; a container class may override it to do nothing
#[verifier::external_body]
pub fn overrides_aliases(t: TyRef) -> bool { unimplemented!() }
#[verifier::exec_allows_no_decreases_clause]
pub fn any_modifiedDependencyAliases(this_: TyRef, registry: &mut Registry) -> (r: Result<(), Ex>)
    requires rinv(*old(registry))
    ensures rinv(*final(registry)), grown(old(registry).m_global, final(registry).m_global), final(registry).m_namespace == old(registry).m_namespace
{
    let c = this_.getCategory();
    if c == Array || c == Pointer || (c == Container && !overrides_aliases(this_)) { Indirect_modifiedDependencyAliases(this_, registry) } else { Type_modifiedDependencyAliases(this_, registry) }
}
//@fn Registry::alias4 file=typelib/registry.cc impl=impl~Registry class=Registry name=alias nparams=4 throws=yes
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires rinv(*old(self)), base@.len() > 0, newname@.len() < 0x7fff_ff00
    ensures
        ({ let b = hit(old(self).m_current, base@);
           let refused = !valid(newname@, true) || b.id == 0 || (hit(old(self).m_global, newname@).id != 0 && hit(old(self).m_global, newname@) != b);
           &&& refused ==> r is Err && *final(self) == *old(self)
           &&& !refused ==> grown(old(self).m_global, final(self).m_global) && final(self).m_global.has(newname@) && final(self).m_global.at(newname@).type_ == b && final(self).m_namespace == old(self).m_namespace }),
        rinv(*final(self))
//@at entry
let ghost g0 = self.m_global;
let ghost ns0 = self.m_namespace;
//@at call:add4#1.before
let ghost cs = comps(ns0@);
proof { assert(binds(self.m_current, base@, g0, rname(g0, cs, base@, cs.len() as int))); assert(held(g0, base_type)); }
//@at call:add4#1.after
proof { if !g0.has(newname@) { lemma_added_grown(g0, self.m_global, newname@, base_type); } }
//@loop 1
invariant rit(it, self.m_global), rit(end, self.m_global), end.m_iter.i == self.m_global.v@.len()
decreases self.m_global.v@.len() - it.m_iter.i
//@loop 2
invariant trigger_it.i <= trigger_it.v@.len(), *trigger_it.v == triggers, rinv(*self), grown(g0, self.m_global), self.m_namespace == ns0, self.m_global.has(newname@), self.m_global.at(newname@).type_ == base_type
decreases trigger_it.v@.len() - trigger_it.i
//@at loop2.begin
let ghost g1 = self.m_global;
//@at loop2.end
proof { lemma_grown(g0, g1, self.m_global); }
//@end
//@fn Registry::alias3 file=typelib/registry.cc impl=impl~Registry class=Registry name=alias nparams=3 throws=yes
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires rinv(*old(self)), base@.len() > 0, newname@.len() < 0x7fff_ff00
    ensures
        ({ let b = hit(old(self).m_current, base@);
           let refused = !valid(newname@, true) || b.id == 0 || (hit(old(self).m_global, newname@).id != 0 && hit(old(self).m_global, newname@) != b);
           &&& refused ==> r is Err && *final(self) == *old(self)
           &&& !refused ==> grown(old(self).m_global, final(self).m_global) && final(self).m_global.has(newname@) && final(self).m_global.at(newname@).type_ == b && final(self).m_namespace == old(self).m_namespace }),
        rinv(*final(self))
//@end
// adding a type under its own name: the same, plus names derived from the aliases of what it refers to
//@fn Registry::add3 file=typelib/registry.cc impl=impl~Registry class=Registry name=add types=bool throws=yes nparams=3
//@attrs
#[verifier::exec_allows_no_decreases_clause]
#[verifier::allow_complex_invariants]
//@spec
    requires rinv(*old(self)), new_type.id != 0, tname(new_type).len() < 0x7fff_ff00
    ensures
        ({ let n = tname(new_type);
           let refused = !valid(n, true) || (hit(old(self).m_global, n).id != 0 && hit(old(self).m_global, n) != new_type);
           &&& refused ==> r is Err && *final(self) == *old(self)
           &&& !refused ==> grown_with(old(self).m_global, final(self).m_global, new_type) && final(self).m_global.has(n) && final(self).m_global.at(n).type_ == new_type && final(self).m_namespace == old(self).m_namespace }),
        rinv(*final(self))
//@at entry
let ghost g0 = self.m_global;
let ghost ns0 = self.m_namespace;
//@at loop1.before
let ghost g1 = self.m_global;
proof { if g0.has(tname(new_type)) { assert(g0.v@[g0.ix(tname(new_type))].1.type_.id != 0); } assert(grown_with(g0, g1, new_type)); assert(g1.has(tname(new_type))); assert(g1.at(tname(new_type)).type_ == new_type); }
//@loop 1
invariant_except_break dep_it.i <= dep_it.v@.len(), dep_it.v == &dependencies.v, rinv(*self), self.m_global == g1, self.m_namespace == ns0
ensures rinv(*self), grown_with(g0, self.m_global, new_type), self.m_global.has(tname(new_type)), self.m_global.at(tname(new_type)).type_ == new_type, self.m_namespace == ns0
decreases dep_it.v@.len() - dep_it.i
//@at call:modifiedDependencyAliases#1.after
proof { lemma_grown_with(g0, g1, self.m_global, new_type); }
//@at call:modifiedDependencyAliases#1.err
proof { lemma_grown_with(g0, g1, self.m_global, new_type); }
//@end
//@fn Registry::add2 file=typelib/registry.cc impl=impl~Registry class=Registry name=add nparams=2 throws=yes
//@attrs
#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires rinv(*old(self)), new_type.id != 0, tname(new_type).len() < 0x7fff_ff00
    ensures
        ({ let n = tname(new_type);
           let refused = !valid(n, true) || (hit(old(self).m_global, n).id != 0 && hit(old(self).m_global, n) != new_type);
           &&& refused ==> r is Err && *final(self) == *old(self)
           &&& !refused ==> grown_with(old(self).m_global, final(self).m_global, new_type) && final(self).m_global.has(n) && final(self).m_global.at(n).type_ == new_type && final(self).m_namespace == old(self).m_namespace }),
        rinv(*final(self))
//@end
// ---- removing names
pub open spec fn rpre(r: Registry) -> bool { rinv(r) }
//@include remove.rs
pub proof fn lemma_keep_order(e: Seq<(Vec<u8>, RegistryType)>, f: spec_fn((Vec<u8>, RegistryType)) -> bool, i: int, j: int)
    requires forall|i: int, j: int| 0 <= i < j < e.len() ==> lt((#[trigger] e[i]).0@, (#[trigger] e[j]).0@), 0 <= i < j < keep(e, f).len()
    ensures lt(keep(e, f)[i].0@, keep(e, f)[j].0@)
    decreases e.len()
{
    if e.len() > 0 {
        let t = e.skip(1);
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies lt((#[trigger] t[i]).0@, (#[trigger] t[j]).0@) by { assert(t[i] == e[i + 1] && t[j] == e[j + 1]); }
        let k = keep(t, f);
        if f(e[0]) {
            if i > 0 { lemma_keep_order(t, f, i - 1, j - 1); }
            else { lemma_keep(t, f, k[j - 1]); assert(k.contains(k[j - 1])); let x = choose|x: int| 0 <= x < t.len() && t[x] == k[j - 1]; assert(t[x] == e[x + 1]); }
        } else { lemma_keep_order(t, f, i, j); }
    }
}
pub proof fn lemma_keep_ginv(a: TMap, b: TMap, f: spec_fn((Vec<u8>, RegistryType)) -> bool)
    requires ginv(a), b.v@ == keep(a.v@, f)
    ensures ginv(b)
{
    assert forall|i: int, j: int| 0 <= i < j < b.v@.len() implies lt((#[trigger] b.v@[i]).0@, (#[trigger] b.v@[j]).0@) by { lemma_keep_order(a.v@, f, i, j); }
    assert forall|i: int| 0 <= i < b.v@.len() implies gname((#[trigger] b.v@[i]).0@) && b.v@[i].1.type_.id != 0 by {
        lemma_keep(a.v@, f, b.v@[i]); assert(b.v@.contains(b.v@[i])); let x = choose|x: int| 0 <= x < a.v@.len() && a.v@[x] == b.v@[i];
    }
    assert(b.ok()) by { assert forall|i: int, j: int| 0 <= i < j < b.v@.len() implies (#[trigger] b.v@[i]).0@ != (#[trigger] b.v@[j]).0@ by { theorem_irreflexive(b.v@[i].0@); } }
}
pub proof fn lemma_keep_inv(r: Registry, f: spec_fn((Vec<u8>, RegistryType)) -> bool)
    requires rinv(r)
    ensures nsinv(r), forall|b: TMap| b.v@ == keep(r.m_global.v@, f) ==> #[trigger] ginv(b)
{
    assert forall|b: TMap| b.v@ == keep(r.m_global.v@, f) implies #[trigger] ginv(b) by { lemma_keep_ginv(r.m_global, b, f); }
}
pub open spec fn named() -> spec_fn((Vec<u8>, RegistryType)) -> bool { |x: (Vec<u8>, RegistryType)| !isalias(x) }
//@fn Registry::clearAliases file=typelib/registry.cc impl=impl~Registry class=Registry
//@spec
    requires rinv(*old(self))
    ensures rinv(*final(self)), final(self).m_namespace == old(self).m_namespace, final(self).m_global.v@ == keep(old(self).m_global.v@, named())
//@hide rinv ginv cur
//@at entry
let ghost m0 = self.m_global.v@;
//@at loop1.before
proof { assert(self.m_global.v@.skip(0) =~= m0); assert(m0.skip(0) =~= m0); assert(self.m_global.v@.take(0) =~= Seq::empty()); assert(self.m_global.v@.take(0) + keep(m0, named()) =~= keep(m0, named())); }
//@loop 1
invariant
    global_it <= self.m_global.v@.len(), self.m_global.v@.len() - global_it <= m0.len(), self.m_namespace == old(self).m_namespace,
    self.m_global.v@.skip(global_it as int) == m0.skip(m0.len() - (self.m_global.v@.len() - global_it)),
    self.m_global.v@.take(global_it as int) + keep(m0.skip(m0.len() - (self.m_global.v@.len() - global_it)), named()) == keep(m0, named())
decreases self.m_global.v@.len() - global_it
//@at loop1.begin
let ghost v0 = self.m_global.v@;
let ghost g0 = global_it as int;
let ghost n0 = m0.len() - (v0.len() - g0);
proof { assert(v0.skip(g0)[0] == v0[g0]); assert(m0.skip(n0)[0] == m0[n0]); assert(m0[n0] == v0[g0]); assert(m0.skip(n0).skip(1) =~= m0.skip(n0 + 1)); assert(v0.skip(g0).skip(1) =~= v0.skip(g0 + 1)); }
//@at loop1.end
proof {
    let v1 = self.m_global.v@;
    if isalias(v0[g0]) {
        assert(v1 == v0.remove(g0));
        assert(v1.skip(g0) =~= v0.skip(g0 + 1));
        assert(v1.take(g0) =~= v0.take(g0));
    } else {
        assert(v1.take(g0 + 1) =~= v0.take(g0) + seq![v0[g0]]);
        assert(v1.take(g0 + 1) + keep(m0.skip(n0 + 1), named()) =~= v0.take(g0) + (seq![v0[g0]] + keep(m0.skip(n0 + 1), named())));
    }
}
//@at loop1.after
proof {
    assert(m0.skip(m0.len() as int) =~= Seq::empty());
    assert(self.m_global.v@.take(self.m_global.v@.len() as int) =~= self.m_global.v@);
    assert(self.m_global.v@ + keep(m0.skip(m0.len() as int), named()) =~= self.m_global.v@);
    lemma_keep_inv(*old(self), named());
}
//@end
//@fn Registry::removeAlias file=typelib/registry.cc impl=impl~Registry class=Registry throws=yes
//@spec
    requires rinv(*old(self))
    ensures rinv(*final(self)), final(self).m_namespace == old(self).m_namespace,
        r is Ok <==> old(self).m_global.has(name@) && tname(old(self).m_global.at(name@).type_) != name@,
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> final(self).m_global.v@ == old(self).m_global.v@.remove(old(self).m_global.ix(name@))
//@at call:erase_at#1.after
proof { lemma_rm(g0, self.m_global, global_it as int); }
//@at entry
let ghost g0 = self.m_global;
//@end
pub proof fn lemma_rm(a: TMap, b: TMap, n: int) requires ginv(a), 0 <= n < a.v@.len(), b.v@ == a.v@.remove(n) ensures ginv(b)
{
    assert forall|i: int| 0 <= i < b.v@.len() implies #[trigger] b.v@[i] == a.v@[if i < n { i } else { i + 1 }] by {}
    assert(b.ok()) by { assert forall|i: int, j: int| 0 <= i < j < b.v@.len() implies (#[trigger] b.v@[i]).0@ != (#[trigger] b.v@[j]).0@ by { theorem_irreflexive(b.v@[i].0@); } }
}
//@fn Registry::size file=typelib/registry.cc impl=impl~Registry class=Registry
//@spec
    ensures r == self.m_global.v@.len()
//@end
// ---- the names with a prefix
// std::string::compare(pos, n, t), which throws behind the end
#[verifier::external_body]
pub fn str_compare_at(s: &Vec<u8>, pos: usize, n: usize, t: &Vec<u8>) -> (r: i32)
    requires pos <= s@.len()
    ensures (r == 0) == (s@.subrange(pos as int, if pos + n <= s@.len() { pos + n } else { s@.len() as int }) == t@)
{ unimplemented!() }
pub open spec fn pkey(g: TMap, p: Seq<u8>, i: int) -> bool { is_prefix(p, g.v@[i].0@) }
pub proof fn lemma_prefix_run(g: TMap, p: Seq<u8>, lo: int, i: int)
    requires sorted(g), below(g, p, lo), lo <= i <= g.v@.len(), i == g.v@.len() || !pkey(g, p, i)
    ensures forall|x: int| 0 <= x < g.v@.len() && #[trigger] pkey(g, p, x) ==> lo <= x < i
{
    assert forall|x: int| 0 <= x < g.v@.len() && #[trigger] pkey(g, p, x) implies lo <= x < i by {
        let k = g.v@[x].0@;
        assert(k.take(p.len() as int) =~= p);
        if k.len() > p.len() { theorem_prefix(p, k); } else { assert(k =~= p); }
        theorem_irreflexive(p);
        if x < lo { if k != p { theorem_total(p, k); } }
        if x > i {
            let b = g.v@[i].0@;
            assert(lt(b, k));
            assert(!lt(b, p));
            assert(p.take(p.len() as int) =~= p);
            if b != p { theorem_total(b, p); theorem_contiguous(p, p, b, k); assert(b =~= p + b.skip(p.len() as int)); }
            else { assert(b.take(p.len() as int) =~= p); }
        }
    }
}
// nothing before the first position not below the prefix has it, and nothing after a position from there on that does not have it
pub proof fn lemma_prefix_facts(g: TMap, p: Seq<u8>)
    requires sorted(g)
    ensures forall|lo: int, x: int| #[trigger] below(g, p, lo) && 0 <= x < g.v@.len() && #[trigger] pkey(g, p, x) ==> lo <= x,
        forall|lo: int, i: int, x: int| #[trigger] below(g, p, lo) && lo <= i <= x < g.v@.len() && #[trigger] pkey(g, p, x) ==> is_prefix(p, (#[trigger] g.v@[i]).0@)
{
    assert forall|lo: int, x: int| #[trigger] below(g, p, lo) && 0 <= x < g.v@.len() && #[trigger] pkey(g, p, x) implies lo <= x by { lemma_prefix_run(g, p, lo, g.v@.len() as int); }
    assert forall|lo: int, i: int, x: int| #[trigger] below(g, p, lo) && lo <= i <= x < g.v@.len() && #[trigger] pkey(g, p, x) implies is_prefix(p, (#[trigger] g.v@[i]).0@) by { if !pkey(g, p, i) { lemma_prefix_run(g, p, lo, i); } }
}
//@fn Registry::begin1 file=typelib/registry.cc impl=impl~Registry class=Registry name=begin nparams=1
//@spec
    requires sorted(self.m_global)
    ensures rit(r, self.m_global), r.m_iter.i < self.m_global.v@.len() ==> pkey(self.m_global, prefix@, r.m_iter.i as int),
        forall|x: int| 0 <= x < self.m_global.v@.len() && #[trigger] pkey(self.m_global, prefix@, x) ==> r.m_iter.i <= x,
        r.m_iter.i < self.m_global.v@.len() ==> below(self.m_global, prefix@, r.m_iter.i as int)
//@at entry
proof { lemma_prefix_facts(self.m_global, prefix@); }
//@end
// from begin(prefix) to end(prefix) there are the names with the prefix, all of them
//@fn Registry::end1 file=typelib/registry.cc impl=impl~Registry class=Registry name=end nparams=1
//@spec
    requires sorted(self.m_global)
    ensures rit(r, self.m_global), forall|x: int| 0 <= x < self.m_global.v@.len() && #[trigger] pkey(self.m_global, prefix@, x) ==> x < r.m_iter.i,
        forall|x: int, y: int| 0 <= x <= y < r.m_iter.i && pkey(self.m_global, prefix@, x) ==> #[trigger] pkey(self.m_global, prefix@, x) && #[trigger] pkey(self.m_global, prefix@, y)
//@attrs
#[verifier::loop_isolation(false)]
//@at entry
proof { lemma_prefix_facts(self.m_global, prefix@); }
//@at loop1.before
let ghost lo = it.m_iter.i as int;
//@loop 1
invariant rit(it, self.m_global), lo <= it.m_iter.i,
    forall|x: int| lo <= x < it.m_iter.i ==> #[trigger] pkey(self.m_global, prefix@, x)
decreases self.m_global.v@.len() - it.m_iter.i
//@end
