//@include names.rs
//@include validname.rs
//@include revdep.rs
pub fn null_handle() -> (r: TyRef) ensures r.id == 0 { TyRef { id: 0 } }
// ---- boost::tokenizer at the separators, empty pieces dropped
pub open spec fn toks(s: Seq<u8>, st: int, i: int) -> Seq<Seq<u8>> decreases s.len() - i
{
    if i < 0 || i >= s.len() { if 0 <= st < s.len() { seq![s.skip(st)] } else { seq![] } }
    else if s[i] == 47 { (if st < i { seq![s.subrange(st, i)] } else { seq![] }) + toks(s, i + 1, i + 1) }
    else { toks(s, st, i + 1) }
}
pub open spec fn comps(s: Seq<u8>) -> Seq<Seq<u8>> { toks(s, 0, 0) }
#[verifier::external_body]
pub fn tokenize(s: &Vec<u8>) -> (r: Vec<Vec<u8>>) ensures svw(r@) == comps(s@) { unimplemented!() }
// ---- the ordered map of absolute names
pub open spec fn below(m: TMap, k: Seq<u8>, n: int) -> bool { 0 <= n <= m.v@.len() && (forall|i: int| 0 <= i < n ==> lt((#[trigger] m.v@[i]).0@, k)) && forall|i: int| n <= i < m.v@.len() ==> !lt((#[trigger] m.v@[i]).0@, k) }
impl SMap<RegistryType> {
    #[verifier::external_body]
    pub fn lower_bound(&self, k: &Vec<u8>) -> (r: MX) requires sorted(*self) ensures below(*self, k@, r as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_ordered(&mut self, kv: (Vec<u8>, RegistryType)) -> (r: (MX, bool))
        requires sorted(*old(self))
        ensures sorted(*final(self)), final(self).ok(), r.0 < final(self).v@.len(), final(self).v@[r.0 as int].0@ == kv.0@, final(self).ix(kv.0@) == r.0,
            r.1 == !old(self).has(kv.0@),
            !r.1 ==> *final(self) == *old(self),
            r.1 ==> final(self).v@[r.0 as int].1 == kv.1 && final(self).v@.remove(r.0 as int) == old(self).v@,
            forall|x: Seq<u8>| #[trigger] final(self).has(x) == (old(self).has(x) || x == kv.0@),
            forall|x: Seq<u8>| x != kv.0@ && old(self).has(x) ==> #[trigger] final(self).at(x) == old(self).at(x)
    { unimplemented!() }
}
// ---- absolute names
pub open spec fn noss(s: Seq<u8>, a: int, b: int) -> bool { forall|i: int| a <= i && i + 1 < b ==> !(#[trigger] s[i] == 47 && s[i + 1] == 47) }
pub open spec fn gname(k: Seq<u8>) -> bool { k.len() > 1 && k[0] == 47 && noss(k, 0, k.len() as int) && k.len() < 0x7fff_ff00 }
// ---- resolution: the deepest namespace of the current one that has the name wins, then the name itself, then the root
pub open spec fn space(c: Seq<Seq<u8>>, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![47u8] } else { space(c, n - 1) + (c[n - 1] + seq![47u8]) } }
pub open spec fn rname(g: TMap, c: Seq<Seq<u8>>, k: Seq<u8>, n: int) -> Seq<u8> decreases n
{ if n <= 0 { if g.has(k) { k } else { seq![47u8] + k } } else if g.has(space(c, n) + k) { space(c, n) + k } else { rname(g, c, k, n - 1) } }
pub open spec fn binds(m: TMap, k: Seq<u8>, g: TMap, f: Seq<u8>) -> bool { m.has(k) == g.has(f) && (m.has(k) ==> m.at(k).type_ == g.at(f).type_) }
pub open spec fn cur(g: TMap, c: Seq<Seq<u8>>, n: int, m: TMap) -> bool { forall|k: Seq<u8>| k.len() > 0 ==> #[trigger] binds(m, k, g, rname(g, c, k, n)) }
// the table of absolute names
pub open spec fn ginv(g: TMap) -> bool { sorted(g) && (forall|i: int| 0 <= i < g.v@.len() ==> gname((#[trigger] g.v@[i]).0@) && g.v@[i].1.type_.id != 0) }
pub open spec fn nsinv(r: Registry) -> bool { r.m_namespace@.len() < 0x7fff_ff00 }
pub open spec fn rinv(r: Registry) -> bool { ginv(r.m_global) && nsinv(r) && r.m_current.ok() && cur(r.m_global, comps(r.m_namespace@), comps(r.m_namespace@).len() as int, r.m_current) }
