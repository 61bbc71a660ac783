//@include namesort.rs
// A registry: its two maps of names, in iteration order.
pub struct RegistryType { pub type_: TyRef, pub persistent: bool, pub source_id: Vec<u8> }
#[verifier::external_body]
pub fn dup_registrytype(e: &RegistryType) -> (r: RegistryType) ensures r.type_ == e.type_, r.persistent == e.persistent, r.source_id@ == e.source_id@ { unimplemented!() }
pub struct Registry { pub m_global: SMap<RegistryType>, pub m_current: SMap<RegistryType>, pub m_namespace: Vec<u8> }
pub type TMap = SMap<RegistryType>;
// std::map keeps its keys in the order it was given (nameSort)
pub open spec fn sorted(m: TMap) -> bool { m.ok() && forall|i: int, j: int| 0 <= i < j < m.v@.len() ==> lt((#[trigger] m.v@[i]).0@, (#[trigger] m.v@[j]).0@) }
//@include tsets.rs
// iterating over the types of a registry
pub struct RegIt<'a> { pub m_registry: &'a Registry, pub m_iter: MIt<'a, RegistryType> }
impl<'a> Copy for RegIt<'a> {}
impl<'a> Clone for RegIt<'a> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub open spec fn rit(it: RegIt, m: TMap) -> bool { *it.m_iter.m == m && it.m_iter.i <= m.v@.len() }
//@fn RegIt::isAlias file=typelib/registry.cc class=RegistryIterator impl=impl<'b>~RegIt<'b> self=self
//@spec
    requires self.m_iter.i < self.m_iter.m.v@.len()
    ensures r == isalias(self.m_iter.m.v@[self.m_iter.i as int])
//@end
//@fn RegIt::getName file=typelib/registry.cc class=RegistryIterator impl=impl<'b>~RegIt<'b> self=self
//@spec
    requires self.m_iter.i < self.m_iter.m.v@.len()
    ensures r@ == self.m_iter.m.v@[self.m_iter.i as int].0@
//@end
//@fn RegIt::dereference file=typelib/registry.cc class=RegistryIterator impl=impl<'b>~RegIt<'b> self=self
//@spec
    requires self.m_iter.i < self.m_iter.m.v@.len()
    ensures r == self.m_iter.m.v@[self.m_iter.i as int].1.type_
//@end
//@fn RegIt::inc file=typelib/registry.cc class=RegistryIterator name=increment impl=impl<'b>~RegIt<'b>
//@spec
    requires old(self).m_iter.i < old(self).m_iter.m.v@.len()
    ensures final(self).m_iter.i == old(self).m_iter.i + 1, final(self).m_iter.m == old(self).m_iter.m, final(self).m_registry == old(self).m_registry
//@end
//@fn RegIt::equal file=typelib/registry.cc class=RegistryIterator impl=impl<'b>~RegIt<'b> self=&self
//@spec
    ensures r == (self.m_iter.i == other.m_iter.i)
//@end
//@fn Registry::begin file=typelib/registry.cc impl=impl~Registry class=Registry nparams=0
//@spec
    ensures rit(r, self.m_global), r.m_iter.i == 0
//@end
//@fn Registry::end file=typelib/registry.cc impl=impl~Registry class=Registry nparams=0
//@spec
    ensures rit(r, self.m_global), r.m_iter.i == self.m_global.v@.len()
//@end
pub open spec fn isalias(e: (Vec<u8>, RegistryType)) -> bool { e.0@ != tname(e.1.type_) }
