//@include dump.rs
//@include load.rs
//@include values.rs
// nothing more is used of layout_of here
pub open spec fn layout_more(t: TyRef, r: Result<MemoryLayout, Ex>) -> bool { true }
pub open spec fn full(c: Seq<Cell>, m: MV) -> Seq<u8> { dmp(c, m, 0, c.len() as int) }

// ---------------------------------------------------------------- the system's files
#[verifier::external_body]
pub struct OFile { _p: u8 }
impl OFile {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    // beyond this length, writing may fail
    pub uninterp spec fn limit(&self) -> Option<int>;
    pub uninterp spec fn bad(&self) -> bool;
    #[verifier::external_body]
    pub fn failed(&self) -> (r: bool) ensures r == self.bad() { unimplemented!() }
}
pub open spec fn partial(a: Seq<u8>, b: Seq<u8>, p: CPtr, k: int) -> bool { b == a + p.m().b.subrange(p.o(), p.o() + k) }
pub open spec fn room(f: &OFile, n: int) -> bool { f.limit() is Some ==> f.data().len() + n <= f.limit()->Some_0 }
// ::write: the number of bytes written, or -1
#[verifier::external_body]
pub fn sys_write(f: &mut OFile, p: CPtr, n: usize) -> (r: i64)
    requires 0 <= p.o(), p.o() + n <= p.m().b.len(), n > 0 ==> free(p.m(), p.o(), n as int), n <= OBJ_MAX
    ensures final(f).limit() == old(f).limit(), final(f).bad() == old(f).bad(), -1 <= r <= n,
        partial(old(f).data(), final(f).data(), p, if r < 0 { 0 } else { r as int }),
        room(old(f), n as int) ==> r == n,
{ unimplemented!() }
// fwrite: the number of complete items written
#[verifier::external_body]
pub fn c_fwrite(p: CPtr, size: usize, n: usize, f: &mut OFile) -> (r: usize)
    requires 0 <= p.o(), p.o() + size * n <= p.m().b.len(), size * n > 0 ==> free(p.m(), p.o(), size * n), size * n <= OBJ_MAX
    ensures final(f).limit() == old(f).limit(), final(f).bad() == old(f).bad(), r <= n, size == 0 ==> r == 0,
        exists|k: int| r * size <= k <= size * n && #[trigger] partial(old(f).data(), final(f).data(), p, k),
        size > 0 && r == n ==> partial(old(f).data(), final(f).data(), p, size * n),
        size > 0 && room(old(f), size * n) ==> r == n,
{ unimplemented!() }
// std::ostream::write: nothing is written after a failure
#[verifier::external_body]
pub fn ostream_write(f: &mut OFile, p: CPtr, n: i64)
    requires 0 <= p.o(), p.o() + n <= p.m().b.len(), n > 0 ==> free(p.m(), p.o(), n as int), n >= 0
    ensures final(f).limit() == old(f).limit(),
        exists|k: int| 0 <= k <= n && #[trigger] partial(old(f).data(), final(f).data(), p, k) && (old(f).bad() ==> k == 0),
        !final(f).bad() ==> partial(old(f).data(), final(f).data(), p, n as int),
        final(f).bad() ==> old(f).bad() || !room(old(f), n as int),
        old(f).bad() ==> final(f).bad(),
{ unimplemented!() }
// memcpy(&v[i], p, n)
#[verifier::external_body]
pub fn vec_put(v: &mut Vec<u8>, i: usize, p: CPtr, n: usize)
    requires i + n <= old(v)@.len(), 0 <= p.o(), p.o() + n <= p.m().b.len(), n > 0 ==> free(p.m(), p.o(), n as int)
    ensures final(v)@ == splice(old(v)@, i as int, p.m().b.subrange(p.o(), p.o() + n))
{ unimplemented!() }
impl<'a> CPtr<'a> {
    // &v[i]
    #[verifier::external_body]
    pub fn of_vec(v: &'a Vec<u8>, i: usize) -> (r: CPtr<'a>)
        requires i <= v@.len()
        ensures r.m().b == v@, r.m().c == Map::<int, CV>::empty(), r.o() == i, forall|o: int, n: int| #[trigger] free(r.m(), o, n)
    { unimplemented!() }
}
// unsigned arithmetic is modulo 2^32
pub fn wadd32(a: u32, b: u32) -> (r: u32) ensures r == (a + b) % 0x1_0000_0000 { a.wrapping_add(b) }
pub fn wsub32(a: u32, b: u32) -> (r: u32) ensures r == (a - b) % 0x1_0000_0000 { a.wrapping_sub(b) }
pub fn to_signed(x: u32) -> (r: i32) ensures x <= 0x7FFF_FFFF ==> r == x, r == #[verifier::truncate] (x as i32) { #[verifier::truncate] (x as i32) }
pub fn to_unsigned(x: i32) -> (r: u32) ensures x >= 0 ==> r == x, r == #[verifier::truncate] (x as u32) { #[verifier::truncate] (x as u32) }
pub proof fn lemma_resign(x: u32) ensures #[verifier::truncate] ((#[verifier::truncate] (x as i32)) as u32) == x
{ assert(((x as i32) as u32) == x) by (bit_vector); }

pub proof fn lemma_partial(a: Seq<u8>, b: Seq<u8>, p: CPtr, k: int)
    requires partial(a, b, p, k), 0 <= k, 0 <= p.o(), p.o() + k <= p.m().b.len()
    ensures pre(a, b), k == 0 ==> b == a
{ lemma_pre_add(a, p.m().b.subrange(p.o(), p.o() + k)); if k == 0 { assert(b =~= a); } }

pub broadcast proof fn lemma_partial_pre(a: Seq<u8>, b: Seq<u8>, p: CPtr, k: int)
    requires #[trigger] partial(a, b, p, k), 0 <= k, 0 <= p.o(), p.o() + k <= p.m().b.len()
    ensures pre(a, b)
{ lemma_pre_add(a, p.m().b.subrange(p.o(), p.o() + k)); }

// ---------------------------------------------------------------- dump to a vector
pub struct VectorOutputStream<'b> { pub buffer: &'b mut Vec<u8> }
impl<'b> OutputStream for VectorOutputStream<'b> {
    open spec fn out(&self) -> Seq<u8> { self.buffer@ }
    open spec fn cap(&self) -> Option<int> { None }
    open spec fn lim(&self) -> Option<int> { Some(OBJ_MAX) }
    open spec fn ok(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn fixed(&self) -> Fixed { Fixed { b: mut_ref_future(self.buffer)@, m: MV { b: seq![], c: Map::empty() }, c: Map::empty(), o: 0, n: 0, k: None } }
    fn write(&mut self, p: CPtr, n: usize) -> (r: Result<(), Ex>) {
        proof { lemma_pre_add(self.buffer@, p.m().b.subrange(p.o(), p.o() + n)); }
        self.vec_write(p, n); Ok(())
    }
}
//@fn vec_write name=write class=VectorOutputStream file=typelib/value_ops.cc filter=Stream value=const impl=impl<'b>~VectorOutputStream<'b>
//@spec
    requires 0 <= data.o(), data.o() + size <= data.m().b.len(), size > 0 ==> free(data.m(), data.o(), size as int), old(self).buffer@.len() + size <= OBJ_MAX
    ensures mut_ref_future(final(self).buffer) == mut_ref_future(old(self).buffer),
        final(self).buffer@ == old(self).buffer@ + data.m().b.subrange(data.o(), data.o() + size)
//@at entry
    let ghost b0 = self.buffer@;
//@at call:vec_put#1.after
    proof { assert(self.buffer@ =~= b0 + data.m().b.subrange(data.o(), data.o() + size)); }
//@end
//@fn dump_r name=dump file=typelib/value_ops.cc nparams=1 value=const throws=yes
//@spec
    requires v.p.o() == 0, v.p.m().b.len() <= OBJ_MAX, tc(v.t) is Some ==> wf(tc(v.t)->Some_0, v.p.m(), 0), tc(v.t) is Some ==> full(tc(v.t)->Some_0, v.p.m()).len() <= OBJ_MAX
    ensures r is Ok ==> tc(v.t) is Some && r->Ok_0@ == full(tc(v.t)->Some_0, v.p.m()), r is Err ==> tc(v.t) is None
//@at return
    proof { assert(buffer@ =~= full(tc(v.t)->Some_0, v.p.m())); }
//@end
//@fn dump_s3 name=dump file=typelib/value_ops.cc types=^const.*\*,~OutputStream nparams=3 value=const throws=yes
//@spec
    requires lok(ops), v.o() == 0, v.m().b.len() <= OBJ_MAX, wf(lc(ops), v.m(), 0),
        old(stream).ok(), (old(stream).lim() is Some ==> old(stream).out().len() + full(lc(ops), v.m()).len() <= old(stream).lim()->Some_0)
    ensures r is Ok ==> final(stream).ok() && final(stream).out() == old(stream).out() + full(lc(ops), v.m()),
        r is Err ==> (old(stream).cap() is Some && old(stream).out().len() + full(lc(ops), v.m()).len() > old(stream).cap()->Some_0),
        final(stream).cap() == old(stream).cap(), final(stream).lim() == old(stream).lim(), final(stream).fixed() == old(stream).fixed(), pre(old(stream).out(), final(stream).out())
//@at entry
    proof { lemma_pre_self(stream.out()); }
//@end
//@fn dump_s2 name=dump file=typelib/value_ops.cc types=^(Typelib::)?Value,~OutputStream nparams=3 value=const throws=yes
//@spec
    requires lok(ops), v.p.o() == 0, v.p.m().b.len() <= OBJ_MAX, wf(lc(ops), v.p.m(), 0),
        old(stream).ok(), (old(stream).lim() is Some ==> old(stream).out().len() + full(lc(ops), v.p.m()).len() <= old(stream).lim()->Some_0)
    ensures r is Ok ==> final(stream).ok() && final(stream).out() == old(stream).out() + full(lc(ops), v.p.m()),
        r is Err ==> (old(stream).cap() is Some && old(stream).out().len() + full(lc(ops), v.p.m()).len() > old(stream).cap()->Some_0),
        final(stream).cap() == old(stream).cap(), final(stream).lim() == old(stream).lim(), final(stream).fixed() == old(stream).fixed(), pre(old(stream).out(), final(stream).out())
//@at entry
    proof { lemma_pre_self(stream.out()); }
//@end
//@fn dump_s1 name=dump file=typelib/value_ops.cc types=^(Typelib::)?Value,~OutputStream nparams=2 value=const throws=yes
//@spec
    requires v.p.o() == 0, v.p.m().b.len() <= OBJ_MAX, tc(v.t) is Some ==> wf(tc(v.t)->Some_0, v.p.m(), 0),
        old(stream).ok(), tc(v.t) is Some ==> ( (old(stream).lim() is Some ==> old(stream).out().len() + full(tc(v.t)->Some_0, v.p.m()).len() <= old(stream).lim()->Some_0))
    ensures r is Ok ==> tc(v.t) is Some && final(stream).ok() && final(stream).out() == old(stream).out() + full(tc(v.t)->Some_0, v.p.m()),
        r is Err ==> tc(v.t) is None || (old(stream).cap() is Some && old(stream).out().len() + full(tc(v.t)->Some_0, v.p.m()).len() > old(stream).cap()->Some_0),
        final(stream).cap() == old(stream).cap(), final(stream).lim() == old(stream).lim(), final(stream).fixed() == old(stream).fixed(), pre(old(stream).out(), final(stream).out())
//@at entry
    proof { lemma_pre_self(stream.out()); }
//@end
//@fn dump_v3 name=dump file=typelib/value_ops.cc types=^const.*\*,~std::vector nparams=3 value=const throws=yes
//@spec
    requires lok(ops), v.o() == 0, v.m().b.len() <= OBJ_MAX, wf(lc(ops), v.m(), 0),
        old(buffer)@.len() + full(lc(ops), v.m()).len() <= OBJ_MAX
    ensures r is Ok ==> final(buffer)@ == old(buffer)@ + full(lc(ops), v.m()),
        r is Err ==> (false),
        pre(old(buffer)@, final(buffer)@)
//@end
//@fn dump_v2 name=dump file=typelib/value_ops.cc types=^(Typelib::)?Value,~std::vector nparams=3 value=const throws=yes
//@spec
    requires lok(ops), v.p.o() == 0, v.p.m().b.len() <= OBJ_MAX, wf(lc(ops), v.p.m(), 0),
        old(buffer)@.len() + full(lc(ops), v.p.m()).len() <= OBJ_MAX
    ensures r is Ok ==> final(buffer)@ == old(buffer)@ + full(lc(ops), v.p.m()),
        r is Err ==> (false),
        pre(old(buffer)@, final(buffer)@)
//@end
//@fn dump_v1 name=dump file=typelib/value_ops.cc types=^(Typelib::)?Value,~std::vector nparams=2 value=const throws=yes
//@spec
    requires v.p.o() == 0, v.p.m().b.len() <= OBJ_MAX, tc(v.t) is Some ==> wf(tc(v.t)->Some_0, v.p.m(), 0),
        tc(v.t) is Some ==> (old(buffer)@.len() + full(tc(v.t)->Some_0, v.p.m()).len() <= OBJ_MAX)
    ensures r is Ok ==> tc(v.t) is Some && final(buffer)@ == old(buffer)@ + full(tc(v.t)->Some_0, v.p.m()),
        r is Err ==> tc(v.t) is None || (false),
        pre(old(buffer)@, final(buffer)@)
//@end
// ---------------------------------------------------------------- dump to an ostream
pub struct OstreamOutputStream<'b> { pub stream: &'b mut OFile }
impl<'b> OutputStream for OstreamOutputStream<'b> {
    open spec fn out(&self) -> Seq<u8> { self.stream.data() }
    open spec fn cap(&self) -> Option<int> { self.stream.limit() }
    open spec fn lim(&self) -> Option<int> { None }
    open spec fn ok(&self) -> bool { !self.stream.bad() }
    #[verifier::prophetic]
    open spec fn fixed(&self) -> Fixed { Fixed { b: mut_ref_future(self.stream).data(), m: MV { b: seq![], c: Map::empty() }, c: Map::empty(), o: 0, n: if mut_ref_future(self.stream).bad() { 1 } else { 0 }, k: mut_ref_future(self.stream).limit() } }
    fn write(&mut self, p: CPtr, n: usize) -> (r: Result<(), Ex>) { self.ostream_put(p, n) }
}
//@fn ostream_put name=write class=OstreamOutputStream file=typelib/value_ops.cc filter=Stream value=const impl=impl<'b>~OstreamOutputStream<'b> throws=yes
//@spec
    requires 0 <= data.o(), data.o() + size <= data.m().b.len(), size > 0 ==> free(data.m(), data.o(), size as int), data.m().b.len() <= OBJ_MAX, !old(self).stream.bad()
    ensures mut_ref_future(final(self).stream) == mut_ref_future(old(self).stream), final(self).stream.limit() == old(self).stream.limit(),
        r is Ok ==> final(self).stream.data() == old(self).stream.data() + data.m().b.subrange(data.o(), data.o() + size) && !final(self).stream.bad(),
        r is Err ==> !room(&*old(self).stream, size as int),
        pre(old(self).stream.data(), final(self).stream.data())
//@at entry
    broadcast use lemma_partial_pre;
//@end
//@fn dump_o3 name=dump file=typelib/value_ops.cc types=^const.*uint8_t~\*,~(std::)?(basic_)?ostream nparams=3 value=const throws=yes
//@spec
    requires lok(ops), v.o() == 0, v.m().b.len() <= OBJ_MAX, wf(lc(ops), v.m(), 0),
        !old(ostream).bad()
    ensures r is Ok ==> final(ostream).data() == old(ostream).data() + full(lc(ops), v.m()) && !final(ostream).bad(),
        r is Err ==> (!room(&*old(ostream), full(lc(ops), v.m()).len() as int)),
        pre(old(ostream).data(), final(ostream).data()), final(ostream).limit() == old(ostream).limit()
//@end
//@fn dump_o2 name=dump file=typelib/value_ops.cc types=^(Typelib::)?Value,~(std::)?(basic_)?ostream nparams=3 value=const throws=yes
//@spec
    requires lok(ops), v.p.o() == 0, v.p.m().b.len() <= OBJ_MAX, wf(lc(ops), v.p.m(), 0),
        !old(ostream).bad()
    ensures r is Ok ==> final(ostream).data() == old(ostream).data() + full(lc(ops), v.p.m()) && !final(ostream).bad(),
        r is Err ==> (!room(&*old(ostream), full(lc(ops), v.p.m()).len() as int)),
        pre(old(ostream).data(), final(ostream).data()), final(ostream).limit() == old(ostream).limit()
//@end
//@fn dump_o1 name=dump file=typelib/value_ops.cc types=^(Typelib::)?Value,~(std::)?(basic_)?ostream nparams=2 value=const throws=yes
//@spec
    requires v.p.o() == 0, v.p.m().b.len() <= OBJ_MAX, tc(v.t) is Some ==> wf(tc(v.t)->Some_0, v.p.m(), 0),
        !old(ostream).bad()
    ensures r is Ok ==> tc(v.t) is Some && final(ostream).data() == old(ostream).data() + full(tc(v.t)->Some_0, v.p.m()) && !final(ostream).bad(),
        r is Err ==> tc(v.t) is None || (!room(&*old(ostream), full(tc(v.t)->Some_0, v.p.m()).len() as int)),
        pre(old(ostream).data(), final(ostream).data()), final(ostream).limit() == old(ostream).limit()
//@end
// ---------------------------------------------------------------- dump to a file descriptor
pub struct FDOutputStream<'b> { pub fd: &'b mut OFile }
impl<'b> OutputStream for FDOutputStream<'b> {
    open spec fn out(&self) -> Seq<u8> { self.fd.data() }
    open spec fn cap(&self) -> Option<int> { self.fd.limit() }
    open spec fn lim(&self) -> Option<int> { None }
    open spec fn ok(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn fixed(&self) -> Fixed { Fixed { b: mut_ref_future(self.fd).data(), m: MV { b: seq![], c: Map::empty() }, c: Map::empty(), o: 0, n: if mut_ref_future(self.fd).bad() { 1 } else { 0 }, k: mut_ref_future(self.fd).limit() } }
    fn write(&mut self, p: CPtr, n: usize) -> (r: Result<(), Ex>) { self.fd_put(p, n) }
}
//@fn fd_put name=write class=FDOutputStream file=typelib/value_ops.cc filter=Stream value=const impl=impl<'b>~FDOutputStream<'b> throws=yes
//@spec
    requires 0 <= data.o(), data.o() + size <= data.m().b.len(), size > 0 ==> free(data.m(), data.o(), size as int), data.m().b.len() <= OBJ_MAX
    ensures mut_ref_future(final(self).fd) == mut_ref_future(old(self).fd), final(self).fd.limit() == old(self).fd.limit(),
        r is Ok ==> final(self).fd.data() == old(self).fd.data() + data.m().b.subrange(data.o(), data.o() + size),
        r is Err ==> !room(&*old(self).fd, size as int),
        pre(old(self).fd.data(), final(self).fd.data())
//@at entry
    broadcast use lemma_partial_pre;
//@end
//@fn dump_d3 name=dump file=typelib/value_ops.cc types=^const.*uint8_t~\*,~int nparams=3 value=const throws=yes ptype=fd:&mut~OFile
//@spec
    requires lok(ops), v.o() == 0, v.m().b.len() <= OBJ_MAX, wf(lc(ops), v.m(), 0)
    ensures r is Ok ==> final(fd).data() == old(fd).data() + full(lc(ops), v.m()),
        r is Err ==> (!room(&*old(fd), full(lc(ops), v.m()).len() as int)),
        pre(old(fd).data(), final(fd).data()), final(fd).limit() == old(fd).limit()
//@end
//@fn dump_d2 name=dump file=typelib/value_ops.cc types=^(Typelib::)?Value,~int nparams=3 value=const throws=yes ptype=fd:&mut~OFile
//@spec
    requires lok(ops), v.p.o() == 0, v.p.m().b.len() <= OBJ_MAX, wf(lc(ops), v.p.m(), 0)
    ensures r is Ok ==> final(fd).data() == old(fd).data() + full(lc(ops), v.p.m()),
        r is Err ==> (!room(&*old(fd), full(lc(ops), v.p.m()).len() as int)),
        pre(old(fd).data(), final(fd).data()), final(fd).limit() == old(fd).limit()
//@end
//@fn dump_d1 name=dump file=typelib/value_ops.cc types=^(Typelib::)?Value,~int nparams=2 value=const throws=yes ptype=fd:&mut~OFile
//@spec
    requires v.p.o() == 0, v.p.m().b.len() <= OBJ_MAX, tc(v.t) is Some ==> wf(tc(v.t)->Some_0, v.p.m(), 0)
    ensures r is Ok ==> tc(v.t) is Some && final(fd).data() == old(fd).data() + full(tc(v.t)->Some_0, v.p.m()),
        r is Err ==> tc(v.t) is None || (!room(&*old(fd), full(tc(v.t)->Some_0, v.p.m()).len() as int)),
        pre(old(fd).data(), final(fd).data()), final(fd).limit() == old(fd).limit()
//@end
// ---------------------------------------------------------------- dump to a FILE
pub struct FileOutputStream<'b> { pub fd: &'b mut OFile }
impl<'b> OutputStream for FileOutputStream<'b> {
    open spec fn out(&self) -> Seq<u8> { self.fd.data() }
    open spec fn cap(&self) -> Option<int> { self.fd.limit() }
    open spec fn lim(&self) -> Option<int> { None }
    open spec fn ok(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn fixed(&self) -> Fixed { Fixed { b: mut_ref_future(self.fd).data(), m: MV { b: seq![], c: Map::empty() }, c: Map::empty(), o: 0, n: if mut_ref_future(self.fd).bad() { 1 } else { 0 }, k: mut_ref_future(self.fd).limit() } }
    fn write(&mut self, p: CPtr, n: usize) -> (r: Result<(), Ex>) { self.file_put(p, n) }
}
//@fn file_put name=write class=FileOutputStream file=typelib/value_ops.cc filter=Stream value=const impl=impl<'b>~FileOutputStream<'b> throws=yes
//@spec
    requires 0 <= data.o(), data.o() + size <= data.m().b.len(), size > 0 ==> free(data.m(), data.o(), size as int), data.m().b.len() <= OBJ_MAX
    ensures mut_ref_future(final(self).fd) == mut_ref_future(old(self).fd), final(self).fd.limit() == old(self).fd.limit(),
        r is Ok ==> final(self).fd.data() == old(self).fd.data() + data.m().b.subrange(data.o(), data.o() + size),
        r is Err ==> !room(&*old(self).fd, size as int),
        pre(old(self).fd.data(), final(self).fd.data())
//@at entry
    broadcast use lemma_partial_pre;
//@end
//@fn dump_f3 name=dump file=typelib/value_ops.cc types=^const.*uint8_t~\*,~FILE nparams=3 value=const throws=yes ptype=fd:&mut~OFile
//@spec
    requires lok(ops), v.o() == 0, v.m().b.len() <= OBJ_MAX, wf(lc(ops), v.m(), 0)
    ensures r is Ok ==> final(fd).data() == old(fd).data() + full(lc(ops), v.m()),
        r is Err ==> (!room(&*old(fd), full(lc(ops), v.m()).len() as int)),
        pre(old(fd).data(), final(fd).data()), final(fd).limit() == old(fd).limit()
//@end
//@fn dump_f2 name=dump file=typelib/value_ops.cc types=^(Typelib::)?Value,~FILE nparams=3 value=const throws=yes ptype=fd:&mut~OFile
//@spec
    requires lok(ops), v.p.o() == 0, v.p.m().b.len() <= OBJ_MAX, wf(lc(ops), v.p.m(), 0)
    ensures r is Ok ==> final(fd).data() == old(fd).data() + full(lc(ops), v.p.m()),
        r is Err ==> (!room(&*old(fd), full(lc(ops), v.p.m()).len() as int)),
        pre(old(fd).data(), final(fd).data()), final(fd).limit() == old(fd).limit()
//@end
//@fn dump_f1 name=dump file=typelib/value_ops.cc types=^(Typelib::)?Value,~FILE nparams=2 value=const throws=yes ptype=fd:&mut~OFile
//@spec
    requires v.p.o() == 0, v.p.m().b.len() <= OBJ_MAX, tc(v.t) is Some ==> wf(tc(v.t)->Some_0, v.p.m(), 0)
    ensures r is Ok ==> tc(v.t) is Some && final(fd).data() == old(fd).data() + full(tc(v.t)->Some_0, v.p.m()),
        r is Err ==> tc(v.t) is None || (!room(&*old(fd), full(tc(v.t)->Some_0, v.p.m()).len() as int)),
        pre(old(fd).data(), final(fd).data()), final(fd).limit() == old(fd).limit()
//@end
// ---------------------------------------------------------------- dump to a fixed buffer
pub struct ByteArrayOutputStream<'b> { pub mem_buffer: &'b mut Mem, pub buffer: usize, pub buffer_size: u32, pub current: u32 }
pub open spec fn outside(m: MV, o: int, n: int) -> Seq<u8> { Seq::new(m.b.len(), |i: int| if o <= i < o + n { 0u8 } else { m.b[i] }) }
pub open spec fn bufok(m: MV, o: int, n: int) -> bool { 0 <= o && o + n <= m.b.len() && m.b.len() <= OBJ_MAX && (n > 0 ==> free(m, o, n)) }
impl<'b> OutputStream for ByteArrayOutputStream<'b> {
    open spec fn out(&self) -> Seq<u8> { self.mem_buffer@.b.subrange(self.buffer as int, self.buffer + self.current) }
    open spec fn cap(&self) -> Option<int> { Some(self.buffer_size as int) }
    open spec fn lim(&self) -> Option<int> { None }
    open spec fn ok(&self) -> bool { self.current <= self.buffer_size && bufok(self.mem_buffer@, self.buffer as int, self.buffer_size as int) }
    #[verifier::prophetic]
    open spec fn fixed(&self) -> Fixed {
        Fixed { b: outside(self.mem_buffer@, self.buffer as int, self.buffer_size as int), m: mut_ref_future(self.mem_buffer)@, c: self.mem_buffer@.c, o: self.buffer as int, n: self.mem_buffer@.b.len() as int, k: None }
    }
    fn write(&mut self, p: CPtr, n: usize) -> (r: Result<(), Ex>) {
        proof { lemma_pre_self(self.out()); lemma_pre_add(self.out(), p.m().b.subrange(p.o(), p.o() + n)); }
        self.array_write(p, n)
    }
}
//@fn array_write name=write class=ByteArrayOutputStream file=typelib/value_ops.cc filter=Stream value=const impl=impl<'b>~ByteArrayOutputStream<'b> throws=yes
//@spec
    requires 0 <= data.o(), data.o() + size <= data.m().b.len(), size > 0 ==> free(data.m(), data.o(), size as int), data.m().b.len() <= OBJ_MAX, old(self).ok()
    ensures mut_ref_future(final(self).mem_buffer) == mut_ref_future(old(self).mem_buffer), 
        final(self).ok(), final(self).buffer == old(self).buffer, final(self).buffer_size == old(self).buffer_size,
        final(self).mem_buffer@.c == old(self).mem_buffer@.c, final(self).mem_buffer@.b.len() == old(self).mem_buffer@.b.len(),
        outside(final(self).mem_buffer@, old(self).buffer as int, old(self).buffer_size as int) == outside(old(self).mem_buffer@, old(self).buffer as int, old(self).buffer_size as int),
        r is Ok ==> final(self).out() == old(self).out() + data.m().b.subrange(data.o(), data.o() + size),
        r is Err ==> final(self).out() == old(self).out() && old(self).out().len() + size > old(self).buffer_size
//@at entry
    let ghost m0 = self.mem_buffer@; let ghost o0 = self.out(); let ghost c0 = self.current; let ghost x = data.m().b.subrange(data.o(), data.o() + size);
//@at call:mem_cpy#1.after
    proof {
        let m1 = self.mem_buffer@; let b = self.buffer as int;
        assert(m1.b.subrange(b, b + c0 + size) =~= o0 + x);
        assert(outside(m1, b, self.buffer_size as int) =~= outside(m0, b, self.buffer_size as int));
        if self.buffer_size > 0 { assert(free(m1, b, self.buffer_size as int)); }
    }
//@end
pub open spec fn filled(a: MV, b: MV, o: int, n: int) -> bool {
    b.c == a.c && b.b.len() == a.b.len() && forall|i: int| 0 <= i < a.b.len() && !(o <= i < o + n) ==> #[trigger] b.b[i] == a.b[i]
}
//@fn dump_b3 name=dump file=typelib/value_ops.cc types=^const.*uint8_t~\*,~(boost::|std::)?uint8_t~\*,~unsigned nparams=4 value=const throws=yes
//@spec
    requires lok(ops), v.o() == 0, v.m().b.len() <= OBJ_MAX, wf(lc(ops), v.m(), 0),
        bufok(old(mem_buffer)@, buffer as int, buffer_size as int)
    ensures filled(old(mem_buffer)@, final(mem_buffer)@, buffer as int, buffer_size as int),
        r is Ok ==> (if full(lc(ops), v.m()).len() <= buffer_size {
            (full(lc(ops), v.m()).len() <= 0x7FFF_FFFF ==> r->Ok_0 == full(lc(ops), v.m()).len()) && final(mem_buffer)@.b.subrange(buffer as int, buffer + full(lc(ops), v.m()).len()) == full(lc(ops), v.m())
        } else { r->Ok_0 == 0 }),
        r is Err ==> false
//@at entry
    proof { lemma_resign(buffer_size); }
    let ghost m0 = mem_buffer@; let ghost fb = outside(m0, buffer as int, buffer_size as int);
    proof { assert(m0.b.subrange(buffer as int, buffer + 0) =~= seq![]); assert(seq![] + full(lc(ops), v.m()) =~= full(lc(ops), v.m())); }
//@at call:vdump#1.after
    proof { lemma_filled(m0, stream.mem_buffer@, buffer as int, buffer_size as int); }
//@at call:vdump#1.err
    proof { lemma_filled(m0, stream.mem_buffer@, buffer as int, buffer_size as int); }
//@end
//@fn dump_b2 name=dump file=typelib/value_ops.cc types=^(Typelib::)?Value,~(boost::|std::)?uint8_t~\*,~unsigned nparams=4 value=const throws=yes
//@spec
    requires lok(ops), v.p.o() == 0, v.p.m().b.len() <= OBJ_MAX, wf(lc(ops), v.p.m(), 0),
        bufok(old(mem_buffer)@, buffer as int, buffer_size as int)
    ensures filled(old(mem_buffer)@, final(mem_buffer)@, buffer as int, buffer_size as int),
        r is Ok ==> (if full(lc(ops), v.p.m()).len() <= buffer_size {
            (full(lc(ops), v.p.m()).len() <= 0x7FFF_FFFF ==> r->Ok_0 == full(lc(ops), v.p.m()).len()) && final(mem_buffer)@.b.subrange(buffer as int, buffer + full(lc(ops), v.p.m()).len()) == full(lc(ops), v.p.m())
        } else { r->Ok_0 == 0 }),
        r is Err ==> false
//@end
//@fn dump_b1 name=dump file=typelib/value_ops.cc types=^(Typelib::)?Value,~(boost::|std::)?uint8_t~\*,~unsigned nparams=3 value=const throws=yes
//@spec
    requires v.p.o() == 0, v.p.m().b.len() <= OBJ_MAX, tc(v.t) is Some ==> wf(tc(v.t)->Some_0, v.p.m(), 0),
        bufok(old(mem_buffer)@, buffer as int, buffer_size as int)
    ensures filled(old(mem_buffer)@, final(mem_buffer)@, buffer as int, buffer_size as int),
        r is Ok ==> tc(v.t) is Some && (if full(tc(v.t)->Some_0, v.p.m()).len() <= buffer_size {
            (full(tc(v.t)->Some_0, v.p.m()).len() <= 0x7FFF_FFFF ==> r->Ok_0 == full(tc(v.t)->Some_0, v.p.m()).len()) && final(mem_buffer)@.b.subrange(buffer as int, buffer + full(tc(v.t)->Some_0, v.p.m()).len()) == full(tc(v.t)->Some_0, v.p.m())
        } else { r->Ok_0 == 0 }),
        r is Err ==> tc(v.t) is None
//@end
pub proof fn lemma_filled(a: MV, b: MV, o: int, n: int)
    requires outside(a, o, n) == outside(b, o, n), a.c == b.c, a.b.len() == b.b.len()
    ensures filled(a, b, o, n)
{ assert forall|i: int| 0 <= i < a.b.len() && !(o <= i < o + n) implies #[trigger] b.b[i] == a.b[i] by {
    assert(outside(b, o, n)[i] == b.b[i]); assert(outside(a, o, n)[i] == a.b[i]); } }
// ---------------------------------------------------------------- the size of a dump
pub struct ByteCounterStream { pub result: usize, pub ghost_: Ghost<Seq<u8>> }
impl OutputStream for ByteCounterStream {
    open spec fn out(&self) -> Seq<u8> { self.ghost_@ }
    open spec fn cap(&self) -> Option<int> { None }
    open spec fn lim(&self) -> Option<int> { Some(OBJ_MAX) }
    open spec fn ok(&self) -> bool { self.result == self.ghost_@.len() }
    open spec fn fixed(&self) -> Fixed { Fixed { b: seq![], m: MV { b: seq![], c: Map::empty() }, c: Map::empty(), o: 0, n: 0, k: None } }
    fn write(&mut self, p: CPtr, n: usize) -> (r: Result<(), Ex>) {
        proof { lemma_pre_add(self.ghost_@, p.m().b.subrange(p.o(), p.o() + n)); }
        self.count_write(p, n); Ok(())
    }
}
//@fn count_write name=write class=ByteCounterStream file=typelib/value_ops.cc filter=Stream value=const impl=impl~ByteCounterStream
//@spec
    requires 0 <= data.o(), data.o() + size <= data.m().b.len(), old(self).ok(), old(self).result + size <= OBJ_MAX
    ensures final(self).ok(), final(self).ghost_@ == old(self).ghost_@ + data.m().b.subrange(data.o(), data.o() + size)
//@at entry
    proof { self.ghost_@ = self.ghost_@ + data.m().b.subrange(data.o(), data.o() + size); }
//@end
//@fn size_3 name=getDumpSize file=typelib/value_ops.cc types=^const nparams=2 value=const throws=yes
//@spec
    requires lok(ops), v.o() == 0, v.m().b.len() <= OBJ_MAX, wf(lc(ops), v.m(), 0),
        full(lc(ops), v.m()).len() <= OBJ_MAX
    ensures r is Ok ==> r->Ok_0 == full(lc(ops), v.m()).len(), r is Err ==> false
//@at entry
    proof { assert(Seq::<u8>::empty() + full(lc(ops), v.m()) =~= full(lc(ops), v.m())); }
//@end
//@fn size_2 name=getDumpSize file=typelib/value_ops.cc types=^(Typelib::)?Value nparams=2 value=const throws=yes
//@spec
    requires lok(ops), v.p.o() == 0, v.p.m().b.len() <= OBJ_MAX, wf(lc(ops), v.p.m(), 0),
        full(lc(ops), v.p.m()).len() <= OBJ_MAX
    ensures r is Ok ==> r->Ok_0 == full(lc(ops), v.p.m()).len(), r is Err ==> false
//@end
//@fn size_1 name=getDumpSize file=typelib/value_ops.cc types=^(Typelib::)?Value nparams=1 value=const throws=yes
//@spec
    requires v.p.o() == 0, v.p.m().b.len() <= OBJ_MAX, tc(v.t) is Some ==> wf(tc(v.t)->Some_0, v.p.m(), 0),
        tc(v.t) is Some ==> full(tc(v.t)->Some_0, v.p.m()).len() <= OBJ_MAX
    ensures r is Ok ==> tc(v.t) is Some && r->Ok_0 == full(tc(v.t)->Some_0, v.p.m()).len(), r is Err ==> tc(v.t) is None
//@end
// ---------------------------------------------------------------- loading
// the dump of w is all of the input, up to the padding at the end of the type
pub open spec fn fills(c: Seq<Cell>, w: MV, s: Seq<u8>, pad: int) -> bool { pre(full(c, w), s) && (full(c, w).len() == s.len() || full(c, w).len() + pad == s.len()) }
pub open spec fn nofill(c: Seq<Cell>, s: Seq<u8>, pad: int) -> bool { forall|w: MV| #[trigger] wf(c, w, 0) ==> !fills(c, w, s, pad) }
pub proof fn lemma_noval(c: Seq<Cell>, s: Seq<u8>, pad: int) requires noval(c, 0, s) ensures nofill(c, s, pad) {}
pub proof fn lemma_loaded(c: Seq<Cell>, m: MV, s: Seq<u8>, rest: Seq<u8>, pad: int)
    requires wf(c, m, 0), s == full(c, m) + rest
    ensures pre(full(c, m), s), full(c, m).len() + rest.len() == s.len(), rest.len() == 0 || rest.len() == pad ==> fills(c, m, s, pad),
        rest.len() != 0 && rest.len() != pad ==> nofill(c, s, pad)
{
    lemma_pre_add(full(c, m), rest);
    if rest.len() != 0 && rest.len() != pad {
        assert forall|w: MV| #[trigger] wf(c, w, 0) implies !fills(c, w, s, pad) by {
            if fills(c, w, s, pad) {
                let y = s.skip(full(c, w).len() as int);
                assert(full(c, w) + y =~= s);
                lemma_pf(c, m, 0, w, 0, c.len() as int, rest, y);
            }
        }
    }
}
pub struct VectorInputStream<'b> { pub buffer: &'b Vec<u8>, pub in_index: usize }
impl<'b> InputStream for VectorInputStream<'b> {
    open spec fn rest(&self) -> Seq<u8> { self.buffer@.skip(self.in_index as int) }
    open spec fn ok(&self) -> bool { self.in_index <= self.buffer@.len() && self.buffer@.len() <= OBJ_MAX }
    open spec fn fixed(&self) -> Fixed { Fixed { b: self.buffer@, m: MV { b: seq![], c: Map::empty() }, c: Map::empty(), o: 0, n: 0, k: None } }
    fn read(&mut self, m: &mut Mem, o: usize, n: usize) -> (r: Result<(), Ex>) { self.vector_read(m, o, n) }
}
//@fn vector_read name=read class=VectorInputStream file=typelib/value_ops.cc filter=Stream value=mut impl=impl<'b>~VectorInputStream<'b> throws=yes
//@spec
    requires out_buffer + size <= old(mem_out_buffer)@.b.len(), size > 0 ==> free(old(mem_out_buffer)@, out_buffer as int, size as int), old(mem_out_buffer)@.b.len() <= OBJ_MAX, old(self).ok()
    ensures final(self).ok(), final(self).fixed() == old(self).fixed(),
        r is Ok <==> size <= old(self).rest().len(),
        r is Ok ==> final(self).rest() == old(self).rest().skip(size as int) && final(mem_out_buffer)@.c == old(mem_out_buffer)@.c
            && final(mem_out_buffer)@.b == splice(old(mem_out_buffer)@.b, out_buffer as int, old(self).rest().take(size as int)),
        r is Err ==> final(mem_out_buffer)@ == old(mem_out_buffer)@ && final(self).rest() == old(self).rest()
//@at entry
    let ghost r0 = self.rest(); let ghost i0 = self.in_index;
//@at call:mem_cpy#1.before
    proof { assert(self.buffer@.subrange(i0 as int, i0 + size) =~= r0.take(size as int)); assert(self.buffer@.skip(i0 + size) =~= r0.skip(size as int)); }
//@end
pub struct ByteArrayInputStream<'b> { pub buffer: CPtr<'b>, pub buffer_size: u32, pub in_index: u32 }
// bytes given by an address and a length
pub open spec fn given(p: CPtr, n: int) -> Seq<u8> { p.m().b.subrange(p.o(), p.o() + n) }
pub open spec fn givenok(p: CPtr, n: int) -> bool { 0 <= p.o() && p.o() + n <= p.m().b.len() && p.m().b.len() <= OBJ_MAX && (n > 0 ==> free(p.m(), p.o(), n)) }
impl<'b> InputStream for ByteArrayInputStream<'b> {
    open spec fn rest(&self) -> Seq<u8> { given(self.buffer, self.buffer_size as int).skip(self.in_index as int) }
    open spec fn ok(&self) -> bool { self.in_index <= self.buffer_size && givenok(self.buffer, self.buffer_size as int) }
    open spec fn fixed(&self) -> Fixed { Fixed { b: given(self.buffer, self.buffer_size as int), m: MV { b: seq![], c: Map::empty() }, c: Map::empty(), o: 0, n: self.buffer_size as int, k: None } }
    fn read(&mut self, m: &mut Mem, o: usize, n: usize) -> (r: Result<(), Ex>) { self.array_read(m, o, n) }
}
//@fn array_read name=read class=ByteArrayInputStream file=typelib/value_ops.cc filter=Stream value=mut impl=impl<'b>~ByteArrayInputStream<'b> throws=yes
//@spec
    requires out_buffer + size <= old(mem_out_buffer)@.b.len(), size > 0 ==> free(old(mem_out_buffer)@, out_buffer as int, size as int), old(mem_out_buffer)@.b.len() <= OBJ_MAX, old(self).ok()
    ensures final(self).ok(), final(self).fixed() == old(self).fixed(),
        r is Ok <==> size <= old(self).rest().len(),
        r is Ok ==> final(self).rest() == old(self).rest().skip(size as int) && final(mem_out_buffer)@.c == old(mem_out_buffer)@.c
            && final(mem_out_buffer)@.b == splice(old(mem_out_buffer)@.b, out_buffer as int, old(self).rest().take(size as int)),
        r is Err ==> final(mem_out_buffer)@ == old(mem_out_buffer)@ && final(self).rest() == old(self).rest()
//@at entry
    let ghost r0 = self.rest(); let ghost i0 = self.in_index; let ghost g = given(self.buffer, self.buffer_size as int);
//@at call:mem_cpy#1.before
    proof { assert(self.buffer.m().b.subrange(self.buffer.o() + i0, self.buffer.o() + i0 + size) =~= r0.take(size as int)); assert(g.skip(i0 + size) =~= r0.skip(size as int)); }
//@end
//@fn load_s3 name=load file=typelib/value_ops.cc types=^(boost::|std::)?uint8_t~\*,~.*InputStream~& nparams=4 value=mut throws=yes
//@spec
    requires lok(ops), v == 0, old(mem_v)@.b.len() <= OBJ_MAX, wf(lc(ops), old(mem_v)@, 0),
        old(stream).ok()
    ensures kept(lc(ops), old(mem_v)@, final(mem_v)@, 0),
        final(stream).ok(), final(stream).fixed() == old(stream).fixed(),
        r is Ok ==> old(stream).rest() == full(lc(ops), final(mem_v)@) + final(stream).rest(),
        r is Err ==> noval(lc(ops), 0, old(stream).rest())
//@end
//@fn load_s2 name=load file=typelib/value_ops.cc types=^(Typelib::)?Value,~InputStream~& nparams=3 value=mut throws=yes
//@spec
    requires lok(ops), v.o == 0, old(mem_v)@.b.len() <= OBJ_MAX, wf(lc(ops), old(mem_v)@, 0),
        old(stream).ok()
    ensures kept(lc(ops), old(mem_v)@, final(mem_v)@, 0),
        final(stream).ok(), final(stream).fixed() == old(stream).fixed(),
        r is Ok ==> old(stream).rest() == full(lc(ops), final(mem_v)@) + final(stream).rest(),
        r is Err ==> noval(lc(ops), 0, old(stream).rest())
//@end
//@fn load_s1 name=load file=typelib/value_ops.cc types=^(Typelib::)?Value,~InputStream~& nparams=2 value=mut throws=yes
//@spec
    requires v.o == 0, old(mem_v)@.b.len() <= OBJ_MAX, tc(v.t) is Some ==> wf(tc(v.t)->Some_0, old(mem_v)@, 0),
        old(stream).ok()
    ensures tc(v.t) is Some ==> kept(tc(v.t)->Some_0, old(mem_v)@, final(mem_v)@, 0),
        tc(v.t) is None ==> final(mem_v)@ == old(mem_v)@,
        final(stream).ok(), final(stream).fixed() == old(stream).fixed(),
        r is Ok ==> tc(v.t) is Some && old(stream).rest() == full(tc(v.t)->Some_0, final(mem_v)@) + final(stream).rest(),
        r is Err ==> tc(v.t) is None || noval(tc(v.t)->Some_0, 0, old(stream).rest())
//@end
//@fn load_v3 name=load file=typelib/value_ops.cc types=^(boost::|std::)?uint8_t~\*,~.*std::vector nparams=4 value=mut throws=yes
//@spec
    requires lok(ops), v == 0, old(mem_v)@.b.len() <= OBJ_MAX, wf(lc(ops), old(mem_v)@, 0),
        buffer@.len() <= OBJ_MAX
    ensures kept(lc(ops), old(mem_v)@, final(mem_v)@, 0),
        r is Ok ==> fills(lc(ops), final(mem_v)@, buffer@, tpad(type_)),
        r is Err ==> nofill(lc(ops), buffer@, tpad(type_))
//@at entry
    proof { assert(buffer@.skip(0) =~= buffer@); }
//@at call:vload#1.err
    proof { lemma_noval(lc(ops), buffer@, tpad(type_)); }
//@at call:vload#1.after
    proof { lemma_loaded(lc(ops), mem_v@, buffer@, stream.rest(), tpad(type_)); }
//@end
//@fn load_v2 name=load file=typelib/value_ops.cc types=^(Typelib::)?Value,~const~std::vector nparams=3 value=mut throws=yes
//@spec
    requires lok(ops), v.o == 0, old(mem_v)@.b.len() <= OBJ_MAX, wf(lc(ops), old(mem_v)@, 0),
        buffer@.len() <= OBJ_MAX
    ensures kept(lc(ops), old(mem_v)@, final(mem_v)@, 0),
        r is Ok ==> fills(lc(ops), final(mem_v)@, buffer@, tpad(v.t)),
        r is Err ==> nofill(lc(ops), buffer@, tpad(v.t))
//@end
//@fn load_v1 name=load file=typelib/value_ops.cc types=^(Typelib::)?Value,~const~std::vector nparams=2 value=mut throws=yes
//@spec
    requires v.o == 0, old(mem_v)@.b.len() <= OBJ_MAX, tc(v.t) is Some ==> wf(tc(v.t)->Some_0, old(mem_v)@, 0),
        buffer@.len() <= OBJ_MAX
    ensures tc(v.t) is Some ==> kept(tc(v.t)->Some_0, old(mem_v)@, final(mem_v)@, 0),
        tc(v.t) is None ==> final(mem_v)@ == old(mem_v)@,
        r is Ok ==> tc(v.t) is Some && fills(tc(v.t)->Some_0, final(mem_v)@, buffer@, tpad(v.t)),
        r is Err ==> tc(v.t) is None || nofill(tc(v.t)->Some_0, buffer@, tpad(v.t))
//@end
//@fn load_b3 wrap=all name=load file=typelib/value_ops.cc types=^(boost::|std::)?uint8_t~\*,~.*(boost::|std::)?uint8_t~\*,~unsigned nparams=5 value=mut throws=yes
//@spec
    requires lok(ops), v == 0, old(mem_v)@.b.len() <= OBJ_MAX, wf(lc(ops), old(mem_v)@, 0),
        givenok(buffer, buffer_size as int)
    ensures kept(lc(ops), old(mem_v)@, final(mem_v)@, 0),
        r is Ok ==> fills(lc(ops), final(mem_v)@, given(buffer, buffer_size as int), tpad(type_)),
        r is Err ==> nofill(lc(ops), given(buffer, buffer_size as int), tpad(type_))
//@at entry
    let ghost g = given(buffer, buffer_size as int);
    proof { assert(g.skip(0) =~= g); lemma_resign(buffer_size); }
//@at call:vload#1.err
    proof { lemma_noval(lc(ops), g, tpad(type_)); }
//@at call:vload#1.after
    proof { lemma_loaded(lc(ops), mem_v@, g, stream.rest(), tpad(type_)); }
//@end
//@fn load_b2 name=load file=typelib/value_ops.cc types=^(Typelib::)?Value,~const~(boost::|std::)?uint8_t~\*,~unsigned nparams=4 value=mut throws=yes
//@spec
    requires lok(ops), v.o == 0, old(mem_v)@.b.len() <= OBJ_MAX, wf(lc(ops), old(mem_v)@, 0),
        givenok(buffer, buffer_size as int)
    ensures kept(lc(ops), old(mem_v)@, final(mem_v)@, 0),
        r is Ok ==> fills(lc(ops), final(mem_v)@, given(buffer, buffer_size as int), tpad(v.t)),
        r is Err ==> nofill(lc(ops), given(buffer, buffer_size as int), tpad(v.t))
//@end
//@fn load_b1 name=load file=typelib/value_ops.cc types=^(Typelib::)?Value,~const~(boost::|std::)?uint8_t~\*,~unsigned nparams=3 value=mut throws=yes
//@spec
    requires v.o == 0, old(mem_v)@.b.len() <= OBJ_MAX, tc(v.t) is Some ==> wf(tc(v.t)->Some_0, old(mem_v)@, 0),
        givenok(buffer, buffer_size as int)
    ensures tc(v.t) is Some ==> kept(tc(v.t)->Some_0, old(mem_v)@, final(mem_v)@, 0),
        tc(v.t) is None ==> final(mem_v)@ == old(mem_v)@,
        r is Ok ==> tc(v.t) is Some && fills(tc(v.t)->Some_0, final(mem_v)@, given(buffer, buffer_size as int), tpad(v.t)),
        r is Err ==> tc(v.t) is None || nofill(tc(v.t)->Some_0, given(buffer, buffer_size as int), tpad(v.t))
//@end
// ---------------------------------------------------------------- what was dumped can be loaded
// into any value of the same type, whatever it held, and the result is equal on every meaningful byte
pub fn round_trip<'a>(v: CVal<'a>, mem_w: &mut Mem, w: MVal) -> (r: Result<(), Ex>)
    requires v.t == w.t, v.p.o() == 0, w.o == 0, v.p.m().b.len() <= OBJ_MAX, old(mem_w)@.b.len() <= OBJ_MAX,
        tc(v.t) is Some ==> wf(tc(v.t)->Some_0, v.p.m(), 0) && wf(tc(v.t)->Some_0, old(mem_w)@, 0) && full(tc(v.t)->Some_0, v.p.m()).len() <= OBJ_MAX
    ensures r is Ok <==> tc(v.t) is Some,
        r is Ok ==> eqc(tc(v.t)->Some_0, v.p.m(), 0, final(mem_w)@, 0, tc(v.t)->Some_0.len() as int) && kept(tc(v.t)->Some_0, old(mem_w)@, final(mem_w)@, 0)
{
    let b = dump_r(v)?;
    let ghost c = tc(v.t)->Some_0;
    proof { lemma_pre_self(b@); assert(fills(c, v.p.m(), b@, tpad(v.t))); }
    load_v1(mem_w, w, &b)?;
    proof {
        let s = full(c, mem_w@); let y = b@.skip(s.len() as int);
        assert(full(c, v.p.m()) + Seq::<u8>::empty() =~= s + y) by { assert(b@ =~= s + y); assert(b@ + Seq::<u8>::empty() =~= b@); }
        lemma_pf(c, v.p.m(), 0, mem_w@, 0, c.len() as int, Seq::<u8>::empty(), y);
    }
    Ok(())
}
// and the dump of what was loaded is the dump that was loaded
pub fn round_trip_back<'a>(v: CVal<'a>, mem_w: &mut Mem, w: MVal) -> (r: Result<(), Ex>)
    requires v.t == w.t, v.p.o() == 0, w.o == 0, v.p.m().b.len() <= OBJ_MAX, old(mem_w)@.b.len() <= OBJ_MAX,
        tc(v.t) is Some ==> wf(tc(v.t)->Some_0, v.p.m(), 0) && wf(tc(v.t)->Some_0, old(mem_w)@, 0) && full(tc(v.t)->Some_0, v.p.m()).len() <= OBJ_MAX
{
    if round_trip(v, mem_w, w).is_ok() {
        let ghost c = tc(v.t)->Some_0;
        proof { lemma_eq_dmp(c, v.p.m(), 0, mem_w@, 0, c.len() as int); assert(full(c, mem_w@) == full(c, v.p.m())); }
        let n = size_1(v);
        let k = size_1(CVal { p: CPtr::of(mem_w, 0), t: w.t });
        assert(n is Ok && k is Ok && n->Ok_0 == k->Ok_0);
    }
    Ok(())
}
