//@include strs.rs
// boost::join and boost::lexical_cast<std::string>
pub open spec fn joined(s: Seq<Seq<u8>>, sep: Seq<u8>) -> Seq<u8> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { joined(s.drop_last(), sep) + sep + s.last() } }
#[verifier::external_body]
pub fn str_join(v: &Vec<Vec<u8>>, sep: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == joined(svw(v@), sep@) { unimplemented!() }
#[verifier::external_body]
pub fn num_str(n: i128) -> (r: Vec<u8>) ensures r@ == sdec(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn vec_pop_front<T>(v: &mut Vec<T>) requires old(v)@.len() > 0 ensures final(v)@ == old(v)@.skip(1) { unimplemented!() }
