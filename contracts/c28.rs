//@include prelude.rs
//@include revdep.rs
// what updateCurrentNameMap leaves alone
//@fn Registry::updateCurrentNameMap file=typelib/registry.cc impl=impl~Registry class=Registry assumed=discharged~in~unit~c14
//@spec
    ensures final(self).m_global == old(self).m_global, final(self).m_namespace == old(self).m_namespace
//@end
pub open spec fn rpre(r: Registry) -> bool { true }
//@include remove.rs
pub proof fn lemma_keep_inv(r: Registry, f: spec_fn((Vec<u8>, RegistryType)) -> bool) {}
