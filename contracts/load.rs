//@include frame.rs
// no value of layout c at offset o has a dump that starts the bytes s
pub open spec fn noval(c: Seq<Cell>, o: int, s: Seq<u8>) -> bool { forall|w: MV| #[trigger] wf(c, w, o) ==> !pre(dmp(c, w, o, c.len() as int), s) }
pub open spec fn novals(e: Seq<Cell>, n: int, s: Seq<u8>) -> bool {
    forall|ws: Seq<MV>| ws.len() == n && (forall|i: int| 0 <= i < n ==> wf(e, #[trigger] ws[i], 0)) ==> !pre(#[trigger] dmpe(e, ws, n), s)
}
pub open spec fn pads_same(c: Seq<Cell>, a: MV, b: MV, o: int) -> bool {
    forall|j: int| 0 <= j < c.len() && #[trigger] c[j] is Pad ==> b.b[o + j] == a.b[o + j]
}
impl ContRef {
    // called only for a non-zero number of elements
    #[verifier::external_body]
    pub fn load<'a, S: InputStream>(self, m: &mut Mem, o: usize, n: usize, stream: &mut S, begin: OpIt<'a>, end: OpIt<'a>) -> (r: Result<OpIt<'a>, Ex>)
        requires has(old(m)@, o as int, self.h()), n > 0,
            begin.v == end.v, begin.i <= end.i, end.i == end.v@.len(), blk(begin.v@, begin.i as int) is Some,
            lay(self.h(), bc(begin.v@, begin.i as int)), old(stream).ok(),
        ensures final(stream).ok(), final(stream).fixed() == old(stream).fixed(),
            ({ let e = bc(begin.v@, begin.i as int); let es = final(m)@.c[o as int].e;
            &&& cont_changed(old(m)@, final(m)@, o as int, self.h(), es)
            &&& es.len() <= usize::MAX && forall|i: int| 0 <= i < es.len() ==> wf(e, #[trigger] es[i], 0)
            &&& r is Ok ==> r->Ok_0.v == begin.v && r->Ok_0.i == be(begin.v@, begin.i as int) && es.len() == n
                    && old(stream).rest() == dmpe(e, es, n as int) + final(stream).rest()
            &&& r is Err ==> novals(e, n as int, old(stream).rest()) })
    { unimplemented!() }
}
#[verifier::external_body]
pub fn read_word<S: InputStream>(stream: &mut S, n: usize) -> (r: Result<usize, Ex>)
    requires n == 8, old(stream).ok()
    ensures final(stream).ok(), final(stream).fixed() == old(stream).fixed(),
        r is Ok <==> old(stream).rest().len() >= 8,
        r is Ok ==> old(stream).rest() == le64(r->Ok_0) + final(stream).rest(),
        r is Err ==> final(stream).rest() == old(stream).rest()
{ unimplemented!() }

// the state of a load in progress
pub open spec fn loading(cc: Seq<Cell>, m0: MV, m: MV, o0: int, d: int, in0: Seq<u8>, rest: Seq<u8>) -> bool {
    &&& wf(cc, m, o0) && shp(m0, m) && frm(m0, m, o0, o0 + d) && 0 <= d <= cc.len()
    &&& in0 == dmp(cc, m, o0, d) + rest
    &&& pads_same(cc, m0, m, o0)
}
pub proof fn lemma_load_start(cc: Seq<Cell>, m: MV, o0: int, in0: Seq<u8>)
    requires wf(cc, m, o0)
    ensures loading(cc, m, m, o0, 0, in0, in0)
{ assert(dmp(cc, m, o0, 0) + in0 =~= in0); }
// failing on a part means that the whole cannot be read
pub proof fn lemma_load_err(cc: Seq<Cell>, m0: MV, m: MV, o0: int, d: int, in0: Seq<u8>, rest: Seq<u8>, b: Seq<Cell>)
    requires loading(cc, m0, m, o0, d, in0, rest), same_run(cc, d, b), noval(b, o0 + d, rest)
    ensures noval(cc, o0, in0)
{
    assert forall|w: MV| #[trigger] wf(cc, w, o0) implies !pre(dmp(cc, w, o0, cc.len() as int), in0) by {
        let full = dmp(cc, w, o0, cc.len() as int);
        if pre(full, in0) {
            lemma_wf_sub(cc, b, w, o0, d);
            lemma_dmp_sub(cc, b, w, o0, d, b.len() as int);
            lemma_dmp_pre(cc, w, o0, d + b.len(), cc.len() as int);
            let part = dmp(b, w, o0 + d, b.len() as int);
            let y = full.skip(dmp(cc, w, o0, d).len() as int) + in0.skip(full.len() as int);
            assert(dmp(cc, w, o0, d + b.len()) == dmp(cc, w, o0, d) + part);
            assert(full.take(dmp(cc, w, o0, d + b.len()).len() as int) == dmp(cc, w, o0, d + b.len()));
            assert(full.take(dmp(cc, w, o0, d).len() as int) =~= dmp(cc, w, o0, d)) by {
                assert forall|q: int| 0 <= q < dmp(cc, w, o0, d).len() implies full[q] == dmp(cc, w, o0, d)[q] by {
                    assert(full.take(dmp(cc, w, o0, d + b.len()).len() as int)[q] == full[q]);
                }
            }
            assert(in0 =~= dmp(cc, w, o0, d) + y) by { assert(in0.take(full.len() as int) == full); assert(in0 =~= in0.take(full.len() as int) + in0.skip(full.len() as int)); }
            lemma_pf(cc, m, o0, w, o0, d, rest, y);
            assert(part =~= rest.take(part.len() as int)) by {
                assert forall|q: int| 0 <= q < part.len() implies part[q] == rest[q] by {
                    assert(full.take(dmp(cc, w, o0, d + b.len()).len() as int)[dmp(cc, w, o0, d).len() + q] == part[q]);
                }
            }
            assert(pre(part, rest));
        }
    }
}
pub proof fn lemma_dmp_pre(c: Seq<Cell>, m: MV, off: int, d: int, n: int)
    requires 0 <= d <= n <= c.len()
    ensures pre(dmp(c, m, off, d), dmp(c, m, off, n))
    decreases n
{
    if d < n { lemma_dmp_pre(c, m, off, d, n - 1); 
        assert(dmp(c, m, off, n).take(dmp(c, m, off, d).len() as int) =~= dmp(c, m, off, n - 1).take(dmp(c, m, off, d).len() as int)); }
    else { assert(dmp(c, m, off, d) =~= dmp(c, m, off, d).take(dmp(c, m, off, d).len() as int)); }
}
// one part has been loaded
pub proof fn lemma_load_part(cc: Seq<Cell>, m0: MV, m: MV, m2: MV, o0: int, d: int, in0: Seq<u8>, rest: Seq<u8>, rest2: Seq<u8>, b: Seq<Cell>)
    requires loading(cc, m0, m, o0, d, in0, rest), same_run(cc, d, b), loading(b, m, m2, o0 + d, b.len() as int, rest, rest2),
    ensures loading(cc, m0, m2, o0, d + b.len(), in0, rest2)
{
    lemma_wf_merge(cc, m, m2, o0, d, b);
    lemma_frm_trans(m0, m, m2, o0, o0 + d, o0 + d + b.len());
    lemma_dmp_frame(cc, m, m2, o0, d, o0 + d, o0 + d + b.len());
    lemma_dmp_sub(cc, b, m2, o0, d, b.len() as int);
    assert(in0 =~= dmp(cc, m2, o0, d + b.len()) + rest2);
    assert forall|j: int| 0 <= j < cc.len() && #[trigger] cc[j] is Pad implies m2.b[o0 + j] == m0.b[o0 + j] by {
        assert(m.b[o0 + j] == m0.b[o0 + j]);
        if d <= j < d + b.len() { assert(cc[d + (j - d)] == b[j - d]); assert(m2.b[o0 + d + (j - d)] == m.b[o0 + d + (j - d)]); }
    }
}
// the same for a part that failed: what remains true of memory
pub open spec fn kept(cc: Seq<Cell>, m0: MV, m: MV, o0: int) -> bool { wf(cc, m, o0) && shp(m0, m) && frm(m0, m, o0, o0 + cc.len()) && pads_same(cc, m0, m, o0) }
pub proof fn lemma_kept_part(cc: Seq<Cell>, m0: MV, m: MV, m2: MV, o0: int, d: int, in0: Seq<u8>, rest: Seq<u8>, b: Seq<Cell>)
    requires loading(cc, m0, m, o0, d, in0, rest), same_run(cc, d, b), kept(b, m, m2, o0 + d)
    ensures kept(cc, m0, m2, o0)
{
    lemma_wf_merge(cc, m, m2, o0, d, b);
    lemma_frm_trans(m0, m, m2, o0, o0 + d, o0 + d + b.len());
    assert forall|j: int| 0 <= j < cc.len() && #[trigger] cc[j] is Pad implies m2.b[o0 + j] == m0.b[o0 + j] by {
        assert(m.b[o0 + j] == m0.b[o0 + j]);
        if d <= j < d + b.len() { assert(cc[d + (j - d)] == b[j - d]); assert(m2.b[o0 + d + (j - d)] == m.b[o0 + d + (j - d)]); }
    }
}
pub proof fn lemma_load_data1(cc: Seq<Cell>, m0: MV, m: MV, m2: MV, o0: int, d: int, n: nat, in0: Seq<u8>, rest: Seq<u8>)
    requires loading(cc, m0, m, o0, d, in0, rest), same_run(cc, d, datas(n)), wf(datas(n), m, o0 + d), rest.len() >= n,
        m2.b == splice(m.b, o0 + d, rest.take(n as int)), m2.c == m.c
    ensures loading(cc, m0, m2, o0, d + n, in0, rest.skip(n as int))
{
    let b = datas(n);
    let x = rest.take(n as int);
    lemma_wf_same(b, m, m2, o0 + d);
    lemma_dmp_data(b, m2, o0 + d, 0, n as int);
    assert(dmp(b, m2, o0 + d, 0) + x =~= x);
    assert(m2.b.subrange(o0 + d, o0 + d + n) =~= x);
    assert(dmp(b, m2, o0 + d, n as int) == x);
    assert(rest =~= x + rest.skip(n as int));
    assert(shp(m, m2)); assert(frm(m, m2, o0 + d, o0 + d + n));
    assert(pads_same(b, m, m2, o0 + d)) by { assert forall|j: int| 0 <= j < b.len() implies !(#[trigger] b[j] is Pad) by {} }
    assert(loading(b, m, m2, o0 + d, b.len() as int, rest, rest.skip(n as int)));
    lemma_load_part(cc, m0, m, m2, o0, d, in0, rest, rest.skip(n as int), b);
}
pub proof fn lemma_load_data(cc: Seq<Cell>, m0: MV, m: MV, o0: int, d: int, n: nat, in0: Seq<u8>, rest: Seq<u8>)
    requires loading(cc, m0, m, o0, d, in0, rest), same_run(cc, d, datas(n))
    ensures n > 0 ==> free(m, o0 + d, n as int), o0 + d + n <= m.b.len(),
        rest.len() < n ==> noval(cc, o0, in0) && kept(cc, m0, m, o0),
        rest.len() >= n ==> forall|m2: MV| #[trigger] m2.b == splice(m.b, o0 + d, rest.take(n as int)) && m2.c == m.c ==> loading(cc, m0, m2, o0, d + n, in0, rest.skip(n as int))
{
    let b = datas(n);
    assert forall|j: int| 0 <= j < n implies (#[trigger] cc[d + j] is Data || cc[d + j] is Pad) by { assert(cc[d + j] == b[j]); }
    lemma_free_run(cc, m, o0, d, n as int);
    lemma_wf_sub(cc, b, m, o0, d);
    if rest.len() < n {
        assert forall|w: MV| #[trigger] wf(b, w, o0 + d) implies !pre(dmp(b, w, o0 + d, b.len() as int), rest) by {
            lemma_dmp_data(b, w, o0 + d, 0, n as int);
        }
        lemma_load_err(cc, m0, m, o0, d, in0, rest, b);
    } else {
        assert forall|m2: MV| #[trigger] m2.b == splice(m.b, o0 + d, rest.take(n as int)) && m2.c == m.c implies loading(cc, m0, m2, o0, d + n, in0, rest.skip(n as int)) by {
            lemma_load_data1(cc, m0, m, m2, o0, d, n, in0, rest);
        }
    }
}
pub proof fn lemma_load_skip(cc: Seq<Cell>, m0: MV, m: MV, o0: int, d: int, n: nat, in0: Seq<u8>, rest: Seq<u8>)
    requires loading(cc, m0, m, o0, d, in0, rest), same_run(cc, d, pads(n))
    ensures loading(cc, m0, m, o0, d + n, in0, rest), o0 + d + n <= m.b.len()
{
    assert forall|j: int| d <= j < d + n implies silent(#[trigger] cc[j]) by { assert(cc[d + (j - d)] == pads(n)[j - d]); }
    lemma_dmp_skip(cc, m, o0, d, n as int);
}
pub proof fn lemma_load_cont(cc: Seq<Cell>, m0: MV, m: MV, o0: int, d: int, p: usize, e: Seq<Cell>, in0: Seq<u8>, rest: Seq<u8>)
    requires loading(cc, m0, m, o0, d, in0, rest), same_run(cc, d, cont(p, e)), is_cont(p)
    ensures has(m, o0 + d, p), lay(p, e), o0 + d + csize(p) <= m.b.len(),
        rest.len() < 8 ==> noval(cc, o0, in0),
        kept(cc, m0, m, o0),
{
    axiom_cont(p);
    assert(cc[d + 0] == cont(p, e)[0]); assert(cellok(cc[d], m, o0 + d));
    let b = cont(p, e);
    if rest.len() < 8 {
        assert forall|w: MV| #[trigger] wf(b, w, o0 + d) implies !pre(dmp(b, w, o0 + d, b.len() as int), rest) by { lemma_dmp_cont(b, w, o0 + d, p, e); }
        lemma_load_err(cc, m0, m, o0, d, in0, rest, b);
    }
}
pub proof fn lemma_dmp_cont(b: Seq<Cell>, w: MV, o: int, p: usize, e: Seq<Cell>)
    requires is_cont(p), b == cont(p, e), wf(b, w, o)
    ensures dmp(b, w, o, b.len() as int) == le64(w.c[o].e.len() as usize) + dmpe(e, w.c[o].e, w.c[o].e.len() as int), has(w, o, p), w.c[o].e.len() <= usize::MAX,
        forall|i: int| 0 <= i < w.c[o].e.len() ==> wf(e, #[trigger] w.c[o].e[i], 0)
{
    axiom_cont(p);
    assert(b[0] == Cell::Cont(p, e)); assert(cellok(b[0], w, o + 0));
    assert forall|j: int| 1 <= j < b.len() implies silent(#[trigger] b[j]) by {}
    lemma_dmp_skip(b, w, o, 1, b.len() - 1);
    assert(dmp(b, w, o, 0) =~= seq![]);
    assert(dmp(b, w, o, 1) =~= cell_dump(b[0], w, o));
}
// what a container load leaves
pub proof fn lemma_load_cont2(cc: Seq<Cell>, m0: MV, m: MV, m2: MV, o0: int, d: int, p: usize, e: Seq<Cell>, in0: Seq<u8>, rest: Seq<u8>, n: usize, rest1: Seq<u8>, es: Seq<MV>, ok: bool, rest2: Seq<u8>)
    requires loading(cc, m0, m, o0, d, in0, rest), same_run(cc, d, cont(p, e)), is_cont(p), rest == le64(n) + rest1,
        cont_changed(m, m2, o0 + d, p, es), es.len() <= usize::MAX, forall|i: int| 0 <= i < es.len() ==> wf(e, #[trigger] es[i], 0),
        ok ==> es.len() == n && rest1 == dmpe(e, es, n as int) + rest2,
        !ok ==> novals(e, n as int, rest1)
    ensures ok ==> loading(cc, m0, m2, o0, d + csize(p), in0, rest2),
        !ok ==> kept(cc, m0, m2, o0) && noval(cc, o0, in0)
{
    axiom_cont(p);
    let b = cont(p, e);
    lemma_wf_sub(cc, b, m, o0, d);
    assert(b[0] == Cell::Cont(p, e));
    assert(cellok(b[0], m, o0 + d + 0));
    lemma_wf_cont(b, m, m2, o0 + d, 0, p, e, es);
    assert(frm(m, m2, o0 + d, o0 + d + b.len()));
    assert forall|j: int| 0 <= j < b.len() && #[trigger] b[j] is Pad implies m2.b[o0 + d + j] == m.b[o0 + d + j] by {}
    lemma_dmp_cont(b, m2, o0 + d, p, e);
    if ok {
        assert(rest =~= dmp(b, m2, o0 + d, b.len() as int) + rest2);
        lemma_load_part(cc, m0, m, m2, o0, d, in0, rest, rest2, b);
    } else {
        lemma_kept_part(cc, m0, m, m2, o0, d, in0, rest, b);
        assert forall|w: MV| #[trigger] wf(b, w, o0 + d) implies !pre(dmp(b, w, o0 + d, b.len() as int), rest) by {
            lemma_dmp_cont(b, w, o0 + d, p, e);
            let ws = w.c[o0 + d].e; let x = le64(ws.len() as usize); let y = dmpe(e, ws, ws.len() as int);
            if pre(x + y, rest) {
                let t = rest.skip((x + y).len() as int);
                assert(x + (y + t) =~= le64(n) + rest1) by { assert(rest =~= rest.take((x + y).len() as int) + t); }
                lemma_cat(x, le64(n), y + t, rest1);
                lemma_le64(ws.len() as usize, n);
                assert(y =~= rest1.take(y.len() as int));
                assert(pre(dmpe(e, ws, n as int), rest1));
            }
        }
        lemma_load_err(cc, m0, m, o0, d, in0, rest, b);
    }
}

pub proof fn lemma_load_done(cc: Seq<Cell>, m0: MV, m: MV, o0: int, in0: Seq<u8>, rest: Seq<u8>)
    requires loading(cc, m0, m, o0, cc.len() as int, in0, rest)
    ensures kept(cc, m0, m, o0), in0 == dmp(cc, m, o0, cc.len() as int) + rest
{}
pub proof fn lemma_load_elem(cc: Seq<Cell>, m0: MV, m: MV, o0: int, d: int, in0: Seq<u8>, rest: Seq<u8>, b: Seq<Cell>)
    requires loading(cc, m0, m, o0, d, in0, rest), same_run(cc, d, b)
    ensures wf(b, m, o0 + d), o0 + d + b.len() <= m.b.len(), m.b.len() == m0.b.len()
{ lemma_wf_sub(cc, b, m, o0, d); }
pub proof fn lemma_load_elem_ok(cc: Seq<Cell>, m0: MV, m: MV, m2: MV, o0: int, d: int, in0: Seq<u8>, rest: Seq<u8>, rest2: Seq<u8>, b: Seq<Cell>)
    requires loading(cc, m0, m, o0, d, in0, rest), same_run(cc, d, b), kept(b, m, m2, o0 + d), rest == dmp(b, m2, o0 + d, b.len() as int) + rest2
    ensures loading(cc, m0, m2, o0, d + b.len(), in0, rest2)
{ lemma_load_part(cc, m0, m, m2, o0, d, in0, rest, rest2, b); }
pub proof fn lemma_load_len(cc: Seq<Cell>, m0: MV, m: MV, o0: int, d: int, in0: Seq<u8>, rest: Seq<u8>)
    requires loading(cc, m0, m, o0, d, in0, rest)
    ensures m.b.len() == m0.b.len(), o0 + cc.len() <= m.b.len()
{}
//@fn vload file=typelib/value_ops.cc name=load static=yes params=data,out_offset,stream,begin,end throws=yes filter=Typelib::ValueOps
//@locals it:OpIt<'a>
//@spec
    requires begin.v == end.v, begin.i <= end.i, end.i == end.v@.len(), blk(begin.v@, begin.i as int) is Some,
        data == 0, old(mem_data)@.b.len() <= OBJ_MAX, wf(bc(begin.v@, begin.i as int), old(mem_data)@, out_offset as int), old(stream).ok()
    ensures final(stream).ok(), final(stream).fixed() == old(stream).fixed(),
        kept(bc(begin.v@, begin.i as int), old(mem_data)@, final(mem_data)@, out_offset as int),
        r is Ok ==> r->Ok_0.1.v == begin.v && r->Ok_0.1.i == be(begin.v@, begin.i as int) && r->Ok_0.0 == out_offset + bc(begin.v@, begin.i as int).len()
            && old(stream).rest() == dmp(bc(begin.v@, begin.i as int), final(mem_data)@, out_offset as int, bc(begin.v@, begin.i as int).len() as int) + final(stream).rest(),
        r is Err ==> noval(bc(begin.v@, begin.i as int), out_offset as int, old(stream).rest())
    decreases end.i - begin.i
//@hide blk dmp dmpe sb rep le64 at wf free cellok shp frm loading noval novals pads_same op_run cont_changed kept
//@at entry
    let ghost s = begin.v@; let ghost cc = bc(s, begin.i as int); let ghost e0 = be(s, begin.i as int); let ghost m0 = mem_data@;
    let ghost o0 = out_offset as int; let ghost in0 = stream.rest();
    proof { lemma_at_start(s, begin.i as int); lemma_load_start(cc, m0, o0, in0); }
//@loop 1
    invariant stream.ok(), stream.fixed() == old(stream).fixed(), it.v == begin.v, begin.i <= it.i <= end.i, o0 <= out_offset, at(s, it.i as int, cc, out_offset - o0, e0),
        loading(cc, m0, mem_data@, o0, out_offset - o0, in0, stream.rest())
    decreases end.i - it.i
//@at loop1.begin
    let ghost d0 = out_offset - o0; let ghost m1 = mem_data@; let ghost rest1 = stream.rest();
    proof { lemma_at_op(s, it.i as int, cc, d0, e0); lemma_load_len(cc, m0, m1, o0, d0, in0, rest1); }
//@at loop1.after
    proof { lemma_at_end(s, it.i as int, cc, out_offset - o0, e0); lemma_load_done(cc, m0, mem_data@, o0, in0, stream.rest()); }
//@at case:FLAG_MEMCPY.begin
    let ghost n = s[it.i + 1] as nat;
    proof { lemma_at_run(s, it.i as int, cc, d0, e0); lemma_op_run_data(s, it.i as int, cc, d0, e0); lemma_load_data(cc, m0, m1, o0, d0, n, in0, rest1); }
//@at case:FLAG_SKIP.begin
    let ghost n = s[it.i + 1] as nat;
    proof { lemma_at_run(s, it.i as int, cc, d0, e0); lemma_op_run_data(s, it.i as int, cc, d0, e0); lemma_load_skip(cc, m0, m1, o0, d0, n, in0, rest1); }
//@at case:FLAG_ARRAY.begin
    let ghost n = s[it.i + 1] as nat; let ghost b = bc(s, it.i + 2); let ghost e1 = be(s, it.i + 2);
    proof { lemma_at_array(s, it.i as int, cc, d0, e0); reveal_with_fuel(rep, 1); }
//@loop 2
    invariant stream.ok(), stream.fixed() == old(stream).fixed(), i <= n, out_offset == o0 + d0 + rep(b, i as nat).len(),
        i > 0 ==> it.v == begin.v && it.i == e1,
        loading(cc, m0, mem_data@, o0, out_offset - o0, in0, stream.rest())
    decreases n - i
//@at loop2.begin
    let ghost m2 = mem_data@; let ghost rest2 = stream.rest(); let ghost d2 = out_offset - o0;
    proof { lemma_elem(cc, d0, b, i as nat, n); lemma_load_elem(cc, m0, m2, o0, d2, in0, rest2, b); }
//@at call:vload#1.err
    proof { lemma_kept_part(cc, m0, m2, mem_data@, o0, d2, in0, rest2, b); lemma_load_err(cc, m0, m2, o0, d2, in0, rest2, b); }
//@at call:vload#1.after
    proof { lemma_load_elem_ok(cc, m0, m2, mem_data@, o0, d2, in0, rest2, stream.rest(), b); }
//@at case:FLAG_CONTAINER.begin
    let ghost p = s[it.i + 1]; let ghost b = bc(s, it.i + 2); let ghost e1 = be(s, it.i + 2);
    proof { lemma_at_cont(s, it.i as int, cc, d0, e0); lemma_op_cont_run(s, it.i as int, cc, d0, e0, b, e1); lemma_load_cont(cc, m0, m1, o0, d0, p, b, in0, rest1); }
//@at call:cont_clear#1.after
    proof { reveal_with_fuel(dmpe, 1); assert(dmpe(b, Seq::<MV>::empty(), 0) + stream.rest() =~= stream.rest());
            lemma_load_cont2(cc, m0, m1, mem_data@, o0, d0, p, b, in0, rest1, 0usize, stream.rest(), Seq::<MV>::empty(), true, stream.rest()); }
//@at call:cont_load#1.before
    let ghost rest3 = stream.rest();
//@at call:cont_load#1.err
    proof { lemma_load_cont2(cc, m0, m1, mem_data@, o0, d0, p, b, in0, rest1, element_count, rest3, mem_data@.c[o0 + d0].e, false, stream.rest()); }
//@at call:cont_load#1.after
    proof { lemma_load_cont2(cc, m0, m1, mem_data@, o0, d0, p, b, in0, rest1, element_count, rest3, mem_data@.c[o0 + d0].e, true, stream.rest()); }
//@end
