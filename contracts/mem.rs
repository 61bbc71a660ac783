//@include skip.rs
// ---------------------------------------------------------------- memory images
// A value in memory: raw bytes, and at some offsets live container objects with their elements.
pub struct MV { pub b: Seq<u8>, pub c: Map<int, CV> }
pub struct CV { pub p: usize, pub e: Seq<MV> }

#[verifier::external_body]
pub struct Mem { _p: u8 }
impl View for Mem { type V = MV; uninterp spec fn view(&self) -> MV; }

// the element layout E describes the elements of container type p
pub uninterp spec fn lay(p: usize, e: Seq<Cell>) -> bool;

pub open spec fn ext(m: MV, k: int) -> int { k + csize(m.c[k].p) }
pub open spec fn disj(m: MV) -> bool {
    &&& forall|k: int| #[trigger] m.c.dom().contains(k) ==> 0 <= k && ext(m, k) <= m.b.len() && is_cont(m.c[k].p)
    &&& forall|k: int, q: int| #[trigger] m.c.dom().contains(k) && #[trigger] m.c.dom().contains(q) && k < q ==> ext(m, k) <= q
}
pub open spec fn free(m: MV, o: int, n: int) -> bool {
    forall|k: int| #[trigger] m.c.dom().contains(k) ==> ext(m, k) <= o || o + n <= k
}
// m holds a well-formed value of layout c at offset off
pub open spec fn wf(c: Seq<Cell>, m: MV, off: int) -> bool
    decreases c
{
    disj(m) && 0 <= off && off + c.len() <= m.b.len()
    && forall|j: int| 0 <= j < c.len() ==> cellok(#[trigger] c[j], m, off + j)
}
pub open spec fn cellok(c: Cell, m: MV, k: int) -> bool
    decreases c
{
    match c {
        Cell::Data => free(m, k, 1),
        Cell::Pad => free(m, k, 1),
        Cell::Tail => true,
        Cell::Cont(p, e) => m.c.dom().contains(k) && m.c[k].p == p && is_cont(p) && lay(p, e) && m.c[k].e.len() <= usize::MAX
            && forall|i: int| 0 <= i < m.c[k].e.len() ==> wf(e, #[trigger] m.c[k].e[i], 0),
    }
}
// equality of two values on their meaningful bytes
pub open spec fn eqc(c: Seq<Cell>, a: MV, ao: int, b: MV, bo: int, d: int) -> bool
    decreases c
{
    forall|j: int| 0 <= j < d && j < c.len() ==> celleq(#[trigger] c[j], a, ao + j, b, bo + j)
}
pub open spec fn celleq(c: Cell, a: MV, ao: int, b: MV, bo: int) -> bool
    decreases c
{
    match c {
        Cell::Data => a.b[ao] == b.b[bo],
        Cell::Pad => true,
        Cell::Tail => true,
        Cell::Cont(p, e) => a.c[ao].e.len() == b.c[bo].e.len()
            && forall|i: int| 0 <= i < a.c[ao].e.len() ==> eqc(e, #[trigger] a.c[ao].e[i], 0, b.c[bo].e[i], 0, e.len() as int),
    }
}
// bytes a dump of the first d cells produces
pub open spec fn le64(w: usize) -> Seq<u8> {
    seq![(w & 0xff) as u8, ((w >> 8) & 0xff) as u8, ((w >> 16) & 0xff) as u8, ((w >> 24) & 0xff) as u8,
         ((w >> 32) & 0xff) as u8, ((w >> 40) & 0xff) as u8, ((w >> 48) & 0xff) as u8, ((w >> 56) & 0xff) as u8]
}
pub open spec fn dmp(c: Seq<Cell>, m: MV, off: int, d: int) -> Seq<u8>
    decreases c, 0int, d
{
    if d <= 0 || d > c.len() { seq![] }
    else {
        dmp(c, m, off, d - 1) + (match c[d - 1] {
            Cell::Data => seq![m.b[off + d - 1]],
            Cell::Pad => seq![],
            Cell::Tail => seq![],
            Cell::Cont(p, e) => le64(m.c[off + d - 1].e.len() as usize) + dmpe(e, m.c[off + d - 1].e, m.c[off + d - 1].e.len() as int),
        })
    }
}
pub open spec fn dmpe(e: Seq<Cell>, s: Seq<MV>, k: int) -> Seq<u8>
    decreases e, 1int, k
{
    if k <= 0 || k > s.len() { seq![] } else { dmpe(e, s, k - 1) + dmp(e, s[k - 1], 0, e.len() as int) }
}

// ---------------------------------------------------------------- lemmas about dumps
pub proof fn lemma_dmp_data(c: Seq<Cell>, m: MV, off: int, d: int, n: int)
    requires 0 <= d, 0 <= n, d + n <= c.len(), forall|j: int| d <= j < d + n ==> #[trigger] c[j] == Cell::Data, 0 <= off, off + c.len() <= m.b.len()
    ensures dmp(c, m, off, d + n) == dmp(c, m, off, d) + m.b.subrange(off + d, off + d + n)
    decreases n
{
    if n > 0 {
        lemma_dmp_data(c, m, off, d, n - 1);
        assert(c[d + n - 1] == Cell::Data);
        assert(m.b.subrange(off + d, off + d + n) =~= m.b.subrange(off + d, off + d + n - 1) + seq![m.b[off + d + n - 1]]);
        assert(dmp(c, m, off, d + n) =~= dmp(c, m, off, d) + m.b.subrange(off + d, off + d + n));
    } else { assert(dmp(c, m, off, d + n) =~= dmp(c, m, off, d) + m.b.subrange(off + d, off + d + n)); }
}
pub open spec fn silent(x: Cell) -> bool { x is Pad || x is Tail }
pub proof fn lemma_dmp_skip(c: Seq<Cell>, m: MV, off: int, d: int, n: int)
    requires 0 <= d, 0 <= n, d + n <= c.len(), forall|j: int| d <= j < d + n ==> silent(#[trigger] c[j])
    ensures dmp(c, m, off, d + n) == dmp(c, m, off, d)
    decreases n
{
    if n > 0 {
        lemma_dmp_skip(c, m, off, d, n - 1);
        assert(silent(c[d + n - 1]));
        assert(dmp(c, m, off, d + n) =~= dmp(c, m, off, d));
    }
}
pub proof fn lemma_dmp_sub(c: Seq<Cell>, b: Seq<Cell>, m: MV, off: int, d: int, n: int)
    requires 0 <= d, 0 <= n <= b.len(), d + b.len() <= c.len(), forall|j: int| 0 <= j < b.len() ==> #[trigger] c[d + j] == b[j]
    ensures dmp(c, m, off, d + n) == dmp(c, m, off, d) + dmp(b, m, off + d, n)
    decreases n
{
    if n > 0 {
        lemma_dmp_sub(c, b, m, off, d, n - 1);
        assert(c[d + (n - 1)] == b[n - 1]);
    }
    assert(dmp(c, m, off, d + n) =~= dmp(c, m, off, d) + dmp(b, m, off + d, n));
}
pub proof fn lemma_dmp_mono(c: Seq<Cell>, m: MV, off: int, d: int, n: int)
    requires 0 <= d <= n <= c.len()
    ensures dmp(c, m, off, d).len() <= dmp(c, m, off, n).len()
    decreases n
{
    if d < n { lemma_dmp_mono(c, m, off, d, n - 1); }
}
pub proof fn lemma_dmpe_mono(e: Seq<Cell>, s: Seq<MV>, d: int, n: int)
    requires 0 <= d <= n <= s.len()
    ensures dmpe(e, s, d).len() <= dmpe(e, s, n).len()
    decreases n
{
    if d < n { lemma_dmpe_mono(e, s, d, n - 1); }
}
pub proof fn lemma_rep_sub(b: Seq<Cell>, i: nat, n: nat)
    requires i < n
    ensures rep(b, i).len() + b.len() <= rep(b, n).len(), rep(b, i + 1) == rep(b, i) + b,
        forall|j: int| 0 <= j < b.len() ==> #[trigger] rep(b, n)[rep(b, i).len() + j] == b[j]
    decreases n
{
    lemma_rep_len(b, i, n);
    if i + 1 < n { lemma_rep_sub(b, i, (n - 1) as nat);
        assert forall|j: int| 0 <= j < b.len() implies #[trigger] rep(b, n)[rep(b, i).len() + j] == b[j] by {
            assert(rep(b, (n - 1) as nat)[rep(b, i).len() + j] == b[j]);
        }
    }
}
// sub-blocks of well-formed values are well-formed
pub proof fn lemma_wf_sub(c: Seq<Cell>, b: Seq<Cell>, m: MV, off: int, d: int)
    requires wf(c, m, off), 0 <= d, d + b.len() <= c.len(), forall|j: int| 0 <= j < b.len() ==> #[trigger] c[d + j] == b[j]
    ensures wf(b, m, off + d)
{
    assert forall|j: int| 0 <= j < b.len() implies cellok(#[trigger] b[j], m, off + d + j) by { assert(c[d + j] == b[j]); assert(cellok(c[d + j], m, off + (d + j))); }
}

// ---------------------------------------------------------------- raw memory
#[verifier::external_body]
pub struct CPtr<'a> { p: &'a Mem }
impl<'a> Copy for CPtr<'a> {}
impl<'a> Clone for CPtr<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<'a> CPtr<'a> {
    pub uninterp spec fn m(self) -> MV;
    pub uninterp spec fn o(self) -> int;
    #[verifier::external_body]
    pub fn of(m: &'a Mem, o: usize) -> (r: CPtr<'a>) requires o <= m@.b.len() ensures r.m() == m@, r.o() == o { unimplemented!() }
    #[verifier::external_body]
    pub fn of_word(w: usize) -> (r: CPtr<'a>) ensures r.m().b == le64(w), r.m().c == Map::<int, CV>::empty(), r.o() == 0, free(r.m(), 0, 8) { unimplemented!() }
    // pointer arithmetic stays inside the object
    #[verifier::external_body]
    pub fn add(self, n: usize) -> (r: CPtr<'a>) requires 0 <= self.o() + n <= self.m().b.len() ensures r.m() == self.m(), r.o() == self.o() + n { unimplemented!() }
}

// ---------------------------------------------------------------- streams (interface contracts)
pub open spec fn pre(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && a == b.take(a.len() as int) }
pub broadcast proof fn lemma_pre_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires #[trigger] pre(a, b), #[trigger] pre(b, c)
    ensures pre(a, c)
{ assert(a =~= c.take(a.len() as int)) by { assert forall|i: int| 0 <= i < a.len() implies a[i] == c[i] by { assert(b.take(a.len() as int)[i] == b[i]); assert(c.take(b.len() as int)[i] == c[i]); } } }
pub proof fn lemma_pre_self(a: Seq<u8>) ensures pre(a, a) { assert(a =~= a.take(a.len() as int)); }
pub proof fn lemma_pre_add(a: Seq<u8>, x: Seq<u8>) ensures pre(a, a + x) { assert(a =~= (a + x).take(a.len() as int)); }
pub spec const OBJ_MAX: int = 0x7FFF_FFFF_FFFF_FFFF;   // no object is larger
// what a stream never changes: what it was made from
pub struct Fixed { pub b: Seq<u8>, pub m: MV, pub c: Map<int, CV>, pub o: int, pub n: int, pub k: Option<int> }
pub trait OutputStream {
    spec fn out(&self) -> Seq<u8>;
    // the length beyond which writing may fail
    spec fn cap(&self) -> Option<int>;
    // the length that callers must not go beyond
    spec fn lim(&self) -> Option<int>;
    spec fn ok(&self) -> bool;
    #[verifier::prophetic]
    spec fn fixed(&self) -> Fixed;
    fn write(&mut self, p: CPtr, n: usize) -> (r: Result<(), Ex>)
        requires 0 <= p.o(), p.o() + n <= p.m().b.len(), n > 0 ==> free(p.m(), p.o(), n as int), p.m().b.len() <= OBJ_MAX,
            old(self).ok(), old(self).lim() is Some ==> old(self).out().len() + n <= old(self).lim()->Some_0
        ensures final(self).cap() == old(self).cap(), final(self).lim() == old(self).lim(), r is Ok ==> final(self).ok(), final(self).fixed() == old(self).fixed(),
            r is Ok ==> final(self).out() == old(self).out() + p.m().b.subrange(p.o(), p.o() + n),
            r is Err ==> old(self).cap() is Some && old(self).out().len() + n > old(self).cap()->Some_0,
            pre(old(self).out(), final(self).out());
}
pub trait InputStream {
    spec fn rest(&self) -> Seq<u8>;
    spec fn ok(&self) -> bool;
    spec fn fixed(&self) -> Fixed;
    fn read(&mut self, m: &mut Mem, o: usize, n: usize) -> (r: Result<(), Ex>)
        requires o + n <= old(m)@.b.len(), n > 0 ==> free(old(m)@, o as int, n as int), old(m)@.b.len() <= OBJ_MAX, old(self).ok()
        ensures final(self).ok(), final(self).fixed() == old(self).fixed(),
            r is Ok <==> n <= old(self).rest().len(),
            r is Ok ==> final(self).rest() == old(self).rest().skip(n as int) && final(m)@.c == old(m)@.c
                && final(m)@.b == splice(old(m)@.b, o as int, old(self).rest().take(n as int)),
            r is Err ==> final(m)@ == old(m)@ && final(self).rest() == old(self).rest();
}
pub open spec fn splice(b: Seq<u8>, o: int, s: Seq<u8>) -> Seq<u8> {
    Seq::new(b.len(), |i: int| if o <= i < o + s.len() { s[i - o] } else { b[i] })
}

// ---------------------------------------------------------------- container objects (contracts of the virtual interface)
#[verifier::external_body]
pub struct ContRef { _p: u8 }
impl Copy for ContRef {}
impl Clone for ContRef {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub fn container_at(w: usize) -> (r: ContRef) requires is_cont(w) ensures r.h() == w { unimplemented!() }
pub open spec fn has(m: MV, k: int, p: usize) -> bool { m.c.dom().contains(k) && m.c[k].p == p }
impl ContRef {
    pub uninterp spec fn h(self) -> usize;
    #[verifier::external_body]
    pub fn handle(self) -> (r: usize) ensures r == self.h(), is_cont(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn getSize(self) -> (r: usize) ensures r == csize(self.h()) { unimplemented!() }
    #[verifier::external_body]
    pub fn getElementCount(self, p: CPtr) -> (r: usize)
        requires has(p.m(), p.o(), self.h()), p.m().c[p.o()].e.len() <= usize::MAX
        ensures r == p.m().c[p.o()].e.len()
    { unimplemented!() }
    // called only on containers that have elements
    #[verifier::external_body]
    pub fn dump<'a, S: OutputStream>(self, p: CPtr, n: usize, stream: &mut S, begin: OpIt<'a>, end: OpIt<'a>) -> (r: Result<OpIt<'a>, Ex>)
        requires has(p.m(), p.o(), self.h()), n == p.m().c[p.o()].e.len(), n > 0,
            begin.v == end.v, begin.i <= end.i, end.i == end.v@.len(), blk(begin.v@, begin.i as int) is Some,
            lay(self.h(), bc(begin.v@, begin.i as int)),
            forall|i: int| 0 <= i < n ==> wf(bc(begin.v@, begin.i as int), #[trigger] p.m().c[p.o()].e[i], 0),
            old(stream).ok(), old(stream).lim() is Some ==> old(stream).out().len() + dmpe(bc(begin.v@, begin.i as int), p.m().c[p.o()].e, n as int).len() <= old(stream).lim()->Some_0
        ensures final(stream).cap() == old(stream).cap(), final(stream).lim() == old(stream).lim(), r is Ok ==> final(stream).ok(), final(stream).fixed() == old(stream).fixed(),
            pre(old(stream).out(), final(stream).out()),
            r is Ok ==> r->Ok_0.v == begin.v && r->Ok_0.i == be(begin.v@, begin.i as int)
                && final(stream).out() == old(stream).out() + dmpe(bc(begin.v@, begin.i as int), p.m().c[p.o()].e, n as int),
            r is Err ==> old(stream).cap() is Some
                && old(stream).out().len() + dmpe(bc(begin.v@, begin.i as int), p.m().c[p.o()].e, n as int).len() > old(stream).cap()->Some_0,
    { unimplemented!() }
}

// ---------------------------------------------------------------- stepping through a program
pub proof fn lemma_step(c: Seq<Cell>, d: int, head: Seq<Cell>, tail: Seq<Cell>)
    requires 0 <= d <= c.len(), c.skip(d) == head + tail
    ensures d + head.len() <= c.len(), c.skip(d + head.len()) == tail,
        forall|j: int| 0 <= j < head.len() ==> #[trigger] c[d + j] == head[j]
{
    assert(c.skip(d).len() == head.len() + tail.len());
    assert(c.skip(d + head.len()) =~= tail) by {
        assert forall|j: int| 0 <= j < tail.len() implies c.skip(d + head.len())[j] == tail[j] by { assert(c.skip(d)[head.len() + j] == tail[j]); }
    }
    assert forall|j: int| 0 <= j < head.len() implies #[trigger] c[d + j] == head[j] by { assert(c.skip(d)[j] == head[j]); }
}
// a run of non-container cells is raw memory
pub proof fn lemma_free_run(c: Seq<Cell>, m: MV, off: int, d: int, n: int)
    requires wf(c, m, off), 0 <= d, 0 <= n, d + n <= c.len(), forall|j: int| 0 <= j < n ==> (#[trigger] c[d + j] is Data || c[d + j] is Pad)
    ensures n > 0 ==> free(m, off + d, n)
{
    if n > 0 {
        assert forall|k: int| #[trigger] m.c.dom().contains(k) implies ext(m, k) <= off + d || off + d + n <= k by {
            axiom_cont(m.c[k].p);
            if !(ext(m, k) <= off + d || off + d + n <= k) {
                let j = if k >= off + d { k - off - d } else { 0 };
                assert(c[d + j] is Data || c[d + j] is Pad);
                assert(cellok(c[d + j], m, off + (d + j)));
                assert(free(m, off + d + j, 1));
            }
        }
    }
}

// the position in a program that corresponds to cell d of its meaning cc
pub open spec fn at(s: Seq<usize>, i: int, cc: Seq<Cell>, d: int, e0: int) -> bool {
    0 <= i <= s.len() && blk(s, i) is Some && be(s, i) == e0 && 0 <= d <= cc.len() && cc.skip(d) == bc(s, i) && cc.len() <= usize::MAX
        && i <= e0 <= s.len() && (e0 < s.len() ==> s[e0] == FLAG_END)
}
pub proof fn lemma_at_start(s: Seq<usize>, i: int)
    requires blk(s, i) is Some
    ensures at(s, i, bc(s, i), 0, be(s, i))
{ lemma_blk_end(s, i); assert(bc(s, i).skip(0) =~= bc(s, i)); }
pub proof fn lemma_at_end(s: Seq<usize>, i: int, cc: Seq<Cell>, d: int, e0: int)
    requires at(s, i, cc, d, e0), i >= s.len() || s[i] == FLAG_END
    ensures i == e0, d == cc.len()
{ assert(cc.skip(d).len() == 0); }
// what the operation at a position says about the cells there
pub open spec fn op_run(s: Seq<usize>, i: int, cc: Seq<Cell>, d: int, e0: int) -> bool {
    &&& i + 1 < s.len()
    &&& d + s[i + 1] <= cc.len()
    &&& at(s, i + 2, cc, d + s[i + 1], e0)
    &&& s[i] == FLAG_MEMCPY ==> forall|j: int| d <= j < d + s[i + 1] ==> #[trigger] cc[j] == Cell::Data
    &&& s[i] == FLAG_SKIP ==> forall|j: int| d <= j < d + s[i + 1] ==> #[trigger] cc[j] == Cell::Pad
}
pub proof fn lemma_at_run(s: Seq<usize>, i: int, cc: Seq<Cell>, d: int, e0: int)
    requires at(s, i, cc, d, e0), i < s.len(), s[i] == FLAG_MEMCPY || s[i] == FLAG_SKIP
    ensures op_run(s, i, cc, d, e0)
{
    let n = s[i + 1] as nat;
    lemma_blk_end(s, i + 2);
    let h = if s[i] == FLAG_MEMCPY { datas(n) } else { pads(n) };
    lemma_step(cc, d, h, bc(s, i + 2));
    assert forall|j: int| d <= j < d + n implies cc[j] == h[j - d] by { assert(cc[d + (j - d)] == h[j - d]); }
    assert forall|j: int| d <= j < d + n && s[i] == FLAG_MEMCPY implies #[trigger] cc[j] == Cell::Data by { assert(cc[d + (j - d)] == h[j - d]); }
    assert forall|j: int| d <= j < d + n && s[i] == FLAG_SKIP implies #[trigger] cc[j] == Cell::Pad by { assert(cc[d + (j - d)] == h[j - d]); }
}
pub open spec fn same_run(cc: Seq<Cell>, d: int, h: Seq<Cell>) -> bool {
    d + h.len() <= cc.len() && forall|j: int| 0 <= j < h.len() ==> #[trigger] cc[d + j] == h[j]
}
// the array at position i: b is its element layout, e1 the position of its end
pub open spec fn op_array(s: Seq<usize>, i: int, cc: Seq<Cell>, d: int, e0: int, b: Seq<Cell>, e1: int) -> bool {
    &&& i + 2 <= e1 < s.len()
    &&& s[e1] == FLAG_END
    &&& blk(s, i + 2) == Some((b, e1))
    &&& sb(s, i + 2, 0) == e1
    &&& same_run(cc, d, rep(b, s[i + 1] as nat))
    &&& at(s, e1 + 1, cc, d + rep(b, s[i + 1] as nat).len(), e0)
}
pub proof fn lemma_at_array(s: Seq<usize>, i: int, cc: Seq<Cell>, d: int, e0: int)
    requires at(s, i, cc, d, e0), i < s.len(), s[i] == FLAG_ARRAY
    ensures op_array(s, i, cc, d, e0, bc(s, i + 2), be(s, i + 2))
{
    let b = bc(s, i + 2); let e1 = be(s, i + 2);
    lemma_blk_end(s, i + 2); lemma_blk_end(s, e1 + 1); lemma_sb_blk(s, i + 2, 0);
    lemma_step(cc, d, rep(b, s[i + 1] as nat), bc(s, e1 + 1));
}
// one more element of the array: the element's cells are at d + |rep(b, k)|
pub proof fn lemma_elem(cc: Seq<Cell>, d: int, b: Seq<Cell>, k: nat, n: nat)
    requires same_run(cc, d, rep(b, n)), k < n, 0 <= d
    ensures same_run(cc, d + rep(b, k).len(), b), rep(b, k + 1).len() == rep(b, k).len() + b.len(), rep(b, k + 1).len() <= rep(b, n).len()
{
    lemma_rep_sub(b, k, n);
    assert forall|j: int| 0 <= j < b.len() implies #[trigger] cc[d + rep(b, k).len() + j] == b[j] by {
        assert(cc[d + (rep(b, k).len() + j)] == rep(b, n)[rep(b, k).len() + j]);
    }
}
pub open spec fn op_cont(s: Seq<usize>, i: int, cc: Seq<Cell>, d: int, e0: int, b: Seq<Cell>, e1: int) -> bool {
    let p = s[i + 1];
    &&& i + 2 <= e1 < s.len()
    &&& s[e1] == FLAG_END
    &&& blk(s, i + 2) == Some((b, e1))
    &&& sb(s, i + 2, 0) == e1
    &&& is_cont(p) && p > 4 && 1 <= csize(p) <= 0xFFFF_FFFF
    &&& d + csize(p) <= cc.len()
    &&& cc[d] == Cell::Cont(p, b)
    &&& forall|j: int| d < j < d + csize(p) ==> #[trigger] cc[j] == Cell::Tail
    &&& at(s, e1 + 1, cc, d + csize(p), e0)
}
pub proof fn lemma_at_cont(s: Seq<usize>, i: int, cc: Seq<Cell>, d: int, e0: int)
    requires at(s, i, cc, d, e0), i < s.len(), s[i] == FLAG_CONTAINER
    ensures op_cont(s, i, cc, d, e0, bc(s, i + 2), be(s, i + 2))
{
    let p = s[i + 1];
    axiom_cont(p);
    let b = bc(s, i + 2); let e1 = be(s, i + 2);
    lemma_blk_end(s, i + 2); lemma_blk_end(s, e1 + 1); lemma_sb_blk(s, i + 2, 0);
    lemma_step(cc, d, cont(p, b), bc(s, e1 + 1));
    assert(cc[d + 0] == cont(p, b)[0]);
    assert forall|j: int| d < j < d + csize(p) implies #[trigger] cc[j] == Cell::Tail by { assert(cc[d + (j - d)] == cont(p, b)[j - d]); }
}
// the operation at a position inside a block is one of the four, and has its operand
pub proof fn lemma_at_op(s: Seq<usize>, i: int, cc: Seq<Cell>, d: int, e0: int)
    requires at(s, i, cc, d, e0), i < s.len(), s[i] != FLAG_END
    ensures i + 1 < s.len(), s[i] <= 3, i < e0,
        s[i] == FLAG_ARRAY || s[i] == FLAG_CONTAINER ==> i + 2 < s.len()
{
    if s[i] == FLAG_ARRAY || s[i] == FLAG_CONTAINER { lemma_blk_end(s, i + 2); lemma_blk_end(s, be(s, i + 2) + 1); } else { lemma_blk_end(s, i + 2); }
}
