//@include mem.rs
pub proof fn lemma_dump_run(s: Seq<usize>, i: int, cc: Seq<Cell>, d: int, e0: int, m: MV, o0: int, out0: Seq<u8>)
    requires op_run(s, i, cc, d, e0), wf(cc, m, o0), d >= 0, s[i] == FLAG_MEMCPY || s[i] == FLAG_SKIP
    ensures dmp(cc, m, o0, d + s[i + 1]).len() <= dmp(cc, m, o0, cc.len() as int).len(),
        o0 + d + s[i + 1] <= m.b.len(),
        s[i] == FLAG_MEMCPY ==> (s[i + 1] > 0 ==> free(m, o0 + d, s[i + 1] as int)),
        s[i] == FLAG_MEMCPY ==> out0 + dmp(cc, m, o0, d) + m.b.subrange(o0 + d, o0 + d + s[i + 1]) == out0 + dmp(cc, m, o0, d + s[i + 1]),
        s[i] == FLAG_MEMCPY ==> dmp(cc, m, o0, d + s[i + 1]).len() == dmp(cc, m, o0, d).len() + s[i + 1],
        s[i] == FLAG_SKIP ==> dmp(cc, m, o0, d + s[i + 1]) == dmp(cc, m, o0, d)
{
    let n = s[i + 1] as int;
    lemma_dmp_mono(cc, m, o0, d + n, cc.len() as int);
    if s[i] == FLAG_MEMCPY {
        lemma_dmp_data(cc, m, o0, d, n); lemma_free_run(cc, m, o0, d, n);
        assert(out0 + dmp(cc, m, o0, d) + m.b.subrange(o0 + d, o0 + d + n) =~= out0 + (dmp(cc, m, o0, d) + m.b.subrange(o0 + d, o0 + d + n)));
    } else { lemma_dmp_skip(cc, m, o0, d, n); }
}
pub proof fn lemma_dump_elem(cc: Seq<Cell>, b: Seq<Cell>, m: MV, o0: int, d: int, out0: Seq<u8>)
    requires same_run(cc, d, b), wf(cc, m, o0), d >= 0
    ensures wf(b, m, o0 + d), o0 + d + b.len() <= m.b.len(),
        out0 + dmp(cc, m, o0, d) + dmp(b, m, o0 + d, b.len() as int) == out0 + dmp(cc, m, o0, d + b.len()),
        dmp(cc, m, o0, d + b.len()).len() <= dmp(cc, m, o0, cc.len() as int).len(),
        dmp(cc, m, o0, d + b.len()).len() == dmp(cc, m, o0, d).len() + dmp(b, m, o0 + d, b.len() as int).len()
{
    lemma_wf_sub(cc, b, m, o0, d);
    lemma_dmp_sub(cc, b, m, o0, d, b.len() as int);
    lemma_dmp_mono(cc, m, o0, d + b.len(), cc.len() as int);
    assert(out0 + dmp(cc, m, o0, d) + dmp(b, m, o0 + d, b.len() as int) =~= out0 + (dmp(cc, m, o0, d) + dmp(b, m, o0 + d, b.len() as int)));
}
pub proof fn lemma_dump_cont(s: Seq<usize>, i: int, cc: Seq<Cell>, d: int, e0: int, b: Seq<Cell>, e1: int, m: MV, o0: int, out0: Seq<u8>)
    requires op_cont(s, i, cc, d, e0, b, e1), wf(cc, m, o0), d >= 0
    ensures
        ({ let p = s[i + 1]; let e = m.c[o0 + d].e; let y = le64(e.len() as usize); let z = dmpe(b, e, e.len() as int); let w = dmp(cc, m, o0, d);
           let n = csize(p) as int;
           has(m, o0 + d, p) && lay(p, b) && e.len() <= usize::MAX && (forall|k: int| 0 <= k < e.len() ==> wf(b, #[trigger] e[k], 0))
           && o0 + d + n <= m.b.len()
           && y.subrange(0, 8) == y && y.len() == 8
           && out0 + w + y + z == out0 + dmp(cc, m, o0, d + n)
           && w.len() + 8 + z.len() == dmp(cc, m, o0, d + n).len()
           && dmp(cc, m, o0, d + n).len() <= dmp(cc, m, o0, cc.len() as int).len()
           && (e.len() == 0 ==> out0 + w + y == out0 + dmp(cc, m, o0, d + n)) })
{
    let p = s[i + 1]; let n = csize(p) as int;
    assert(cellok(cc[d], m, o0 + d));
    assert forall|j: int| d + 1 <= j < d + n implies silent(#[trigger] cc[j]) by {}
    lemma_dmp_skip(cc, m, o0, d + 1, n - 1);
    let e = m.c[o0 + d].e;
    let y = le64(e.len() as usize); let z = dmpe(b, e, e.len() as int); let w = dmp(cc, m, o0, d);
    assert(dmp(cc, m, o0, d + n) == w + (y + z));
    lemma_dmp_mono(cc, m, o0, d + n, cc.len() as int);
    assert(y.subrange(0, 8) =~= y);
    assert(out0 + w + y + z =~= out0 + (w + (y + z)));
    if e.len() == 0 { assert(out0 + w + y =~= out0 + w + y + z); }
}
//@fn vdump file=typelib/value_ops.cc name=dump static=yes params=data,in_offset,stream,begin,end throws=yes
//@locals it:OpIt<'a>
//@spec
    requires begin.v == end.v, begin.i <= end.i, end.i == end.v@.len(), blk(begin.v@, begin.i as int) is Some,
        data.o() == 0, data.m().b.len() <= OBJ_MAX, wf(bc(begin.v@, begin.i as int), data.m(), in_offset as int),
        old(stream).ok(), old(stream).lim() is Some ==> old(stream).out().len() + dmp(bc(begin.v@, begin.i as int), data.m(), in_offset as int, bc(begin.v@, begin.i as int).len() as int).len() <= old(stream).lim()->Some_0
    ensures final(stream).cap() == old(stream).cap(), final(stream).lim() == old(stream).lim(), r is Ok ==> final(stream).ok(), final(stream).fixed() == old(stream).fixed(),
        pre(old(stream).out(), final(stream).out()),
        r is Ok ==> r->Ok_0.1.v == begin.v && r->Ok_0.1.i == be(begin.v@, begin.i as int) && r->Ok_0.0 == in_offset + bc(begin.v@, begin.i as int).len()
            && final(stream).out() == old(stream).out() + dmp(bc(begin.v@, begin.i as int), data.m(), in_offset as int, bc(begin.v@, begin.i as int).len() as int),
        r is Err ==> old(stream).cap() is Some
            && old(stream).out().len() + dmp(bc(begin.v@, begin.i as int), data.m(), in_offset as int, bc(begin.v@, begin.i as int).len() as int).len() > old(stream).cap()->Some_0
    decreases end.i - begin.i
//@hide blk dmp dmpe sb rep le64 at wf free cellok pre
//@at entry
    broadcast use lemma_pre_trans;
    let ghost s = begin.v@; let ghost cc = bc(s, begin.i as int); let ghost e0 = be(s, begin.i as int); let ghost m = data.m();
    let ghost o0 = in_offset as int; let ghost out0 = stream.out();
    proof { lemma_at_start(s, begin.i as int); reveal_with_fuel(dmp, 1); assert(out0 + dmp(cc, m, o0, 0) =~= out0); lemma_pre_self(out0); }
//@loop 1
    invariant it.v == begin.v, begin.i <= it.i <= end.i, o0 <= in_offset, at(s, it.i as int, cc, in_offset - o0, e0),
        stream.cap() == old(stream).cap(), stream.lim() == old(stream).lim(), stream.ok(), stream.fixed() == old(stream).fixed(), pre(out0, stream.out()), stream.out() == out0 + dmp(cc, m, o0, in_offset - o0)
    decreases end.i - it.i
//@at loop1.begin
    proof { lemma_at_op(s, it.i as int, cc, in_offset - o0, e0); }
//@at loop1.after
    proof { lemma_at_end(s, it.i as int, cc, in_offset - o0, e0); }
//@at case:FLAG_MEMCPY.begin
    proof { lemma_at_run(s, it.i as int, cc, in_offset - o0, e0); lemma_dump_run(s, it.i as int, cc, in_offset - o0, e0, m, o0, out0); }
//@at case:FLAG_SKIP.begin
    proof { lemma_at_run(s, it.i as int, cc, in_offset - o0, e0); lemma_dump_run(s, it.i as int, cc, in_offset - o0, e0, m, o0, out0); }
//@at case:FLAG_ARRAY.begin
    let ghost d0 = in_offset - o0; let ghost n = s[it.i + 1] as nat; let ghost b = bc(s, it.i + 2); let ghost e1 = be(s, it.i + 2);
    proof { lemma_at_array(s, it.i as int, cc, d0, e0); reveal_with_fuel(rep, 1); }
//@loop 2
    invariant i <= n, in_offset == o0 + d0 + rep(b, i as nat).len(), 
        i > 0 ==> it.v == begin.v && it.i == e1,
        stream.cap() == old(stream).cap(), stream.lim() == old(stream).lim(), stream.ok(), stream.fixed() == old(stream).fixed(), pre(out0, stream.out()), stream.out() == out0 + dmp(cc, m, o0, in_offset - o0)
    decreases n - i
//@at loop2.begin
    proof { lemma_elem(cc, d0, b, i as nat, n); lemma_dump_elem(cc, b, m, o0, in_offset - o0, out0); }
//@at case:FLAG_CONTAINER.begin
    let ghost d0 = in_offset - o0; let ghost p = s[it.i + 1]; let ghost b = bc(s, it.i + 2); let ghost e1 = be(s, it.i + 2);
    proof { lemma_at_cont(s, it.i as int, cc, d0, e0); lemma_dump_cont(s, it.i as int, cc, d0, e0, b, e1, m, o0, out0); }
//@end
