//@include prelude.rs
// The conversion of numbers to Ruby and back: Ruby's VALUEs are numbers, is_int tells those that are Integers, and
// rint which.
pub struct World { pub g: Ghost<int> }
pub uninterp spec fn is_int(v: usize) -> bool;
pub uninterp spec fn rint(v: usize) -> int;
pub open spec fn int_of(v: usize, i: int) -> bool { is_int(v) && rint(v) == i }
// small integers only
#[verifier::external_body]
pub fn int2fix(x: i64) -> (r: usize) requires -0x4000_0000_0000_0000 <= x < 0x4000_0000_0000_0000 ensures int_of(r, x as int) { unimplemented!() }
#[verifier::external_body]
pub fn int2num(x: i32) -> (r: usize) ensures int_of(r, x as int) { unimplemented!() }
#[verifier::external_body]
pub fn uint2num(x: u32) -> (r: usize) ensures int_of(r, x as int) { unimplemented!() }
#[verifier::external_body]
pub fn ll2num(x: i64) -> (r: usize) ensures int_of(r, x as int) { unimplemented!() }
#[verifier::external_body]
pub fn ull2num(x: usize) -> (r: usize) ensures int_of(r, x as int) { unimplemented!() }
// integers that do not fit raise
#[verifier::external_body]
pub fn num2int(v: usize) -> (r: Result<i32, Ex>) ensures is_int(v) && -0x8000_0000 <= rint(v) < 0x8000_0000 ==> r is Ok && r->Ok_0 == rint(v), is_int(v) && r is Ok ==> r->Ok_0 == rint(v) { unimplemented!() }
#[verifier::external_body]
pub fn num2uint(v: usize) -> (r: Result<u32, Ex>) ensures is_int(v) && 0 <= rint(v) < 0x1_0000_0000 ==> r is Ok && r->Ok_0 == rint(v) { unimplemented!() }
#[verifier::external_body]
pub fn num2ll(v: usize) -> (r: Result<i64, Ex>) ensures is_int(v) && -0x8000_0000_0000_0000 <= rint(v) < 0x8000_0000_0000_0000 ==> r is Ok && r->Ok_0 == rint(v), is_int(v) && r is Ok ==> r->Ok_0 == rint(v) { unimplemented!() }
#[verifier::external_body]
pub fn num2ull(v: usize) -> (r: Result<usize, Ex>) ensures is_int(v) && 0 <= rint(v) < 0x1_0000_0000_0000_0000 ==> r is Ok && r->Ok_0 == rint(v) { unimplemented!() }
//@fn to_ruby_int8_t name=visit_ nparams=1 types=^int8_t~& world=ruby filter=Ruby file=bindings/ruby/ext/convert.cc class=RubyGetter flat=m_value:&mut~usize
//@spec
    ensures int_of(*final(m_value), *old(value) as int), *final(value) == *old(value), !r
//@end
//@fn from_ruby_int8_t name=visit_ nparams=1 types=^int8_t~& world=ruby throws=yes filter=Ruby file=bindings/ruby/ext/convert.cc class=RubySetter flat=m_value:&mut~usize
//@spec
    ensures *final(m_value) == *old(m_value), is_int(*old(m_value)) && -128 <= rint(*old(m_value)) <= 127 ==> r is Ok && *final(value) == rint(*old(m_value))
//@end
//@fn to_ruby_uint8_t name=visit_ nparams=1 types=^uint8_t~& world=ruby filter=Ruby file=bindings/ruby/ext/convert.cc class=RubyGetter flat=m_value:&mut~usize
//@spec
    ensures int_of(*final(m_value), *old(value) as int), *final(value) == *old(value), !r
//@end
//@fn from_ruby_uint8_t name=visit_ nparams=1 types=^uint8_t~& world=ruby throws=yes filter=Ruby file=bindings/ruby/ext/convert.cc class=RubySetter flat=m_value:&mut~usize
//@spec
    ensures *final(m_value) == *old(m_value), is_int(*old(m_value)) && 0 <= rint(*old(m_value)) <= 255 ==> r is Ok && *final(value) == rint(*old(m_value))
//@end
//@fn to_ruby_int16_t name=visit_ nparams=1 types=^int16_t~& world=ruby filter=Ruby file=bindings/ruby/ext/convert.cc class=RubyGetter flat=m_value:&mut~usize
//@spec
    ensures int_of(*final(m_value), *old(value) as int), *final(value) == *old(value), !r
//@end
//@fn from_ruby_int16_t name=visit_ nparams=1 types=^int16_t~& world=ruby throws=yes filter=Ruby file=bindings/ruby/ext/convert.cc class=RubySetter flat=m_value:&mut~usize
//@spec
    ensures *final(m_value) == *old(m_value), is_int(*old(m_value)) && -32768 <= rint(*old(m_value)) <= 32767 ==> r is Ok && *final(value) == rint(*old(m_value))
//@end
//@fn to_ruby_uint16_t name=visit_ nparams=1 types=^uint16_t~& world=ruby filter=Ruby file=bindings/ruby/ext/convert.cc class=RubyGetter flat=m_value:&mut~usize
//@spec
    ensures int_of(*final(m_value), *old(value) as int), *final(value) == *old(value), !r
//@end
//@fn from_ruby_uint16_t name=visit_ nparams=1 types=^uint16_t~& world=ruby throws=yes filter=Ruby file=bindings/ruby/ext/convert.cc class=RubySetter flat=m_value:&mut~usize
//@spec
    ensures *final(m_value) == *old(m_value), is_int(*old(m_value)) && 0 <= rint(*old(m_value)) <= 65535 ==> r is Ok && *final(value) == rint(*old(m_value))
//@end
//@fn to_ruby_int32_t name=visit_ nparams=1 types=^int32_t~& world=ruby filter=Ruby file=bindings/ruby/ext/convert.cc class=RubyGetter flat=m_value:&mut~usize
//@spec
    ensures int_of(*final(m_value), *old(value) as int), *final(value) == *old(value), !r
//@end
//@fn from_ruby_int32_t name=visit_ nparams=1 types=^int32_t~& world=ruby throws=yes filter=Ruby file=bindings/ruby/ext/convert.cc class=RubySetter flat=m_value:&mut~usize
//@spec
    ensures *final(m_value) == *old(m_value), is_int(*old(m_value)) && -2147483648 <= rint(*old(m_value)) <= 2147483647 ==> r is Ok && *final(value) == rint(*old(m_value))
//@end
//@fn to_ruby_uint32_t name=visit_ nparams=1 types=^uint32_t~& world=ruby filter=Ruby file=bindings/ruby/ext/convert.cc class=RubyGetter flat=m_value:&mut~usize
//@spec
    ensures int_of(*final(m_value), *old(value) as int), *final(value) == *old(value), !r
//@end
//@fn from_ruby_uint32_t name=visit_ nparams=1 types=^uint32_t~& world=ruby throws=yes filter=Ruby file=bindings/ruby/ext/convert.cc class=RubySetter flat=m_value:&mut~usize
//@spec
    ensures *final(m_value) == *old(m_value), is_int(*old(m_value)) && 0 <= rint(*old(m_value)) <= 4294967295 ==> r is Ok && *final(value) == rint(*old(m_value))
//@end
//@fn to_ruby_int64_t name=visit_ nparams=1 types=^int64_t~& world=ruby filter=Ruby file=bindings/ruby/ext/convert.cc class=RubyGetter flat=m_value:&mut~usize
//@spec
    ensures int_of(*final(m_value), *old(value) as int), *final(value) == *old(value), !r
//@end
//@fn from_ruby_int64_t name=visit_ nparams=1 types=^int64_t~& world=ruby throws=yes filter=Ruby file=bindings/ruby/ext/convert.cc class=RubySetter flat=m_value:&mut~usize
//@spec
    ensures *final(m_value) == *old(m_value), is_int(*old(m_value)) && -9223372036854775808 <= rint(*old(m_value)) <= 9223372036854775807 ==> r is Ok && *final(value) == rint(*old(m_value))
//@end
//@fn to_ruby_uint64_t name=visit_ nparams=1 types=^uint64_t~& world=ruby filter=Ruby file=bindings/ruby/ext/convert.cc class=RubyGetter flat=m_value:&mut~usize
//@spec
    ensures int_of(*final(m_value), *old(value) as int), *final(value) == *old(value), !r
//@end
//@fn from_ruby_uint64_t name=visit_ nparams=1 types=^uint64_t~& world=ruby throws=yes filter=Ruby file=bindings/ruby/ext/convert.cc class=RubySetter flat=m_value:&mut~usize
//@spec
    ensures *final(m_value) == *old(m_value), is_int(*old(m_value)) && 0 <= rint(*old(m_value)) <= 18446744073709551615 ==> r is Ok && *final(value) == rint(*old(m_value))
//@end
// every number comes back
pub proof fn round_trip(v: usize, x: int, lo: int, hi: int)
    requires int_of(v, x), lo <= x <= hi
    ensures is_int(v) && lo <= rint(v) <= hi && rint(v) == x
{}
