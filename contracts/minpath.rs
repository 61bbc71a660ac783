//@include names.rs
//@include maps.rs
#[verifier::external_body]
pub fn str_compare(a: &Vec<u8>, b: &Vec<u8>) -> (r: i32) ensures (r == 0) == (a@ == b@) { unimplemented!() }
// level of template nesting at the end, read from i on level l
pub open spec fn lev(s: Seq<u8>, i: int, l: int) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { l } else { lev(s, i + 1, if s[i] == 60 { l + 1 } else if s[i] == 62 { l - 1 } else { l }) }
}
// a namespace: absolute, with balanced template marks
pub open spec fn namespace_ok(s: Seq<u8>) -> bool { s.len() > 0 && s[0] == 47 && lev(s, 1, 0) == 0 }
pub open spec fn full_ok(s: Seq<u8>) -> bool { s.len() > 1 && s[0] == 47 && s.last() != 47 && forall|k: int| 0 <= k < pieces(s).len() ==> (#[trigger] pieces(s)[k]).len() > 0 }
// the namespaces of the name
pub open spec fn scopes(s: Seq<u8>) -> Seq<Seq<u8>> { pieces(s).drop_last() }
// "a/b/" for the pieces a, b
pub open spec fn rel(p: Seq<Seq<u8>>) -> Seq<u8> { (path(p) + seq![47u8]).skip(1) }
pub open spec fn pfx(p: Seq<Seq<u8>>, q: Seq<Seq<u8>>) -> bool { p.len() <= q.len() && q.take(p.len() as int) == p }
// the name x is known in the scope made of the first e namespaces of n: it is a namespace around n or around the type in t
pub open spec fn known(t: Seq<Seq<u8>>, n: Seq<Seq<u8>>, e: int, x: Seq<u8>) -> bool { pfx(n.take(e).push(x), n) || pfx(n.take(e).push(x), t) }
// looked up from n outwards, the path made of the last namespaces of t, from the d-th on, leads to t
pub open spec fn leads(t: Seq<Seq<u8>>, n: Seq<Seq<u8>>, d: int) -> bool {
    0 <= d <= t.len() && d <= n.len() && t.take(d) == n.take(d)
    && (d == t.len() ==> d == n.len())
    && (d < t.len() ==> forall|e: int| d < e <= n.len() ==> !#[trigger] known(t, n, e, t[d]))
}
// what a reader of the path finds: the first name is searched from the innermost scope outwards
pub open spec fn found(t: Seq<Seq<u8>>, n: Seq<Seq<u8>>, e: int, p: Seq<Seq<u8>>) -> Option<Seq<Seq<u8>>>
    decreases e + 1
{
    if p.len() == 0 { Some(n) }
    else if e < 0 || e > n.len() { None }
    else if known(t, n, e, p[0]) { Some(n.take(e) + p) }
    else { found(t, n, e - 1, p) }
}
pub proof fn theorem_found(t: Seq<Seq<u8>>, n: Seq<Seq<u8>>, d: int, e: int)
    requires leads(t, n, d), d <= e <= n.len()
    ensures found(t, n, e, t.skip(d)) == Some(t)
    decreases e
{
    if d == t.len() { assert(t.take(d) =~= t); assert(n.take(d) =~= n); }
    else {
        assert(t.skip(d)[0] == t[d]);
        if e == d {
            assert(t.take(d + 1) =~= n.take(d).push(t[d]));
            assert(n.take(d) + t.skip(d) =~= t);
        } else { assert(!known(t, n, e, t[d])); theorem_found(t, n, d, e - 1); }
    }
}
pub proof fn lemma_lev_step(s: Seq<u8>, i: int, l: int)
    requires 0 <= i < s.len(), s[i] == 47
    ensures lev(s, i, l) == lev(s, i + 1, l)
{}
pub proof fn lemma_spl_some(s: Seq<u8>, start: int, i: int, l: int)
    requires 0 <= start < s.len(), start <= i
    ensures spl(s, start, i, l).len() >= 1
    decreases s.len() - i
{ if i < s.len() && !(s[i] == 47 && l == 0) { lemma_spl_some(s, start, i + 1, if s[i] == 60 { l + 1 } else if s[i] == 62 { l - 1 } else { l }); } }
// a closed text that ends with a separator is what its pieces give
pub proof fn lemma_closed(q: Seq<u8>, start: int, i: int, l: int)
    requires 0 <= start <= i <= q.len(), q.len() > 0, q.last() == 47, lev(q, i, l) == 0, i == q.len() ==> start == q.len()
    ensures pre(spl(q, start, i, l)) + seq![47u8] == seq![47u8] + q.subrange(start, q.len() as int)
    decreases q.len() - i
{
    if i == q.len() { assert(spl(q, start, i, l) =~= seq![]); assert(pre(spl(q, start, i, l)) + seq![47u8] =~= seq![47u8] + q.subrange(start, q.len() as int)); }
    else if q[i] == 47 && l == 0 {
        lemma_closed(q, i + 1, i + 1, l);
        let x = q.subrange(start, i); let p1 = spl(q, i + 1, i + 1, l); let p = seq![x] + p1;
        assert(p.drop_first() =~= p1); assert(p[0] == x);
        assert(seq![47u8] + q.subrange(start, q.len() as int) =~= seq![47u8] + x + (seq![47u8] + q.subrange(i + 1, q.len() as int)));
        assert(pre(p) + seq![47u8] =~= seq![47u8] + x + (pre(p1) + seq![47u8]));
    } else {
        let l2 = if q[i] == 60 { l + 1 } else if q[i] == 62 { l - 1 } else { l };
        if i + 1 == q.len() { assert(lev(q, i + 1, l2) == l2); }
        lemma_closed(q, start, i + 1, l2);
    }
}
// a separator behind a closed text adds no piece
pub proof fn lemma_trailing(s: Seq<u8>, start: int, i: int, l: int)
    requires 0 <= start <= i <= s.len(), start < s.len(), s.last() != 47, lev(s, i, l) == 0
    ensures spl(s.push(47), start, i, l) == spl(s, start, i, l), lev(s.push(47), i, l) == 0
    decreases s.len() - i
{
    let q = s.push(47);
    if i == s.len() {
        assert(q[i] == 47); assert(l == 0);
        assert(spl(q, i + 1, i + 1, 0) =~= seq![]);
        assert(q.subrange(start, i) =~= s.subrange(start, i));
        assert(spl(q, start, i, l) =~= seq![s.subrange(start, i)]);
        assert(lev(q, i + 1, l) == l);
    } else {
        assert(q[i] == s[i]);
        let l2 = if s[i] == 60 { l + 1 } else if s[i] == 62 { l - 1 } else { l };
        if s[i] == 47 && l == 0 {
            lemma_trailing(s, i + 1, i + 1, l);
            assert(q.subrange(start, i) =~= s.subrange(start, i));
        } else { lemma_trailing(s, start, i + 1, l2); }
    }
}
pub proof fn lemma_norm(s: Seq<u8>)
    requires namespace_ok(s)
    ensures pieces(norm(s)) == pieces(s), norm(s) == path(pieces(s)) + seq![47u8], lev(norm(s), 1, 0) == 0, norm(s).len() > 0, norm(s)[0] == 47, norm(s).last() == 47
{
    let q = norm(s);
    if s.last() != 47 { lemma_trailing(s, 1, 1, 0); assert(q =~= s.push(47)); }
    lemma_closed(q, 1, 1, 0);
    assert(seq![47u8] + q.subrange(1, q.len() as int) =~= q);
    lemma_pre_path(pieces(s));
}
// the text in front of the last piece has the other pieces
pub proof fn lemma_front(s: Seq<u8>, start: int, i: int, l: int)
    requires 0 <= start <= i <= s.len(), start < s.len(), s.last() != 47
    ensures ({ let p = spl(s, start, i, l); let k = s.len() - p.last().len();
        p.len() >= 1 && start <= k <= s.len() && (p.len() == 1 ==> k == start) && (p.len() > 1 ==> k > i) && spl(s.take(k), start, i, l) == p.drop_last() })
    decreases s.len() - i
{
    let p = spl(s, start, i, l); let k = s.len() - p.last().len();
    if i == s.len() {
        assert(p =~= seq![s.subrange(start, s.len() as int)]);
        assert(spl(s.take(k), start, i, l) =~= p.drop_last());
    } else if s[i] == 47 && l == 0 {
        lemma_front(s, i + 1, i + 1, l);
        let p1 = spl(s, i + 1, i + 1, l);
        assert(p =~= seq![s.subrange(start, i)] + p1);
        assert(p.last() == p1.last());
        assert(s.take(k)[i] == 47);
        assert(s.take(k).subrange(start, i) =~= s.subrange(start, i));
        assert(p.drop_last() =~= seq![s.subrange(start, i)] + p1.drop_last());
    } else {
        lemma_front(s, start, i + 1, if s[i] == 60 { l + 1 } else if s[i] == 62 { l - 1 } else { l });
        if p.len() == 1 { assert(p.drop_last() =~= seq![]); assert(spl(s.take(k), start, i, l) =~= seq![]); }
        else { assert(s.take(k)[i] == s[i]); }
    }
}
pub proof fn lemma_scopes(s: Seq<u8>)
    requires full_ok(s)
    ensures nspace(s) == path(scopes(s)) + seq![47u8], pieces(nspace(s)) == scopes(s), nspace(s).len() <= s.len(), nspace(s).len() > 0, nspace(s)[0] == 47, pieces(s).len() > 0, is_prefix(nspace(s), s),
        nspace(s).len() + pieces(s).last().len() == s.len()
{
    theorem_recompose(s);
    lemma_front(s, 1, 1, 0);
    let k = s.len() - pieces(s).last().len();
    assert(s.take(k) =~= nspace(s));
}
// the pieces of a name in a closed namespace are those of the namespace and of the rest
pub proof fn lemma_split_prefix(s: Seq<u8>, q: Seq<u8>, start: int, i: int, l: int)
    requires is_prefix(q, s), 0 <= start <= i <= q.len(), q.len() > 0, q.last() == 47, lev(q, i, l) == 0, i == q.len() ==> start == q.len() && l == 0
    ensures spl(s, start, i, l) == spl(q, start, i, l) + spl(s, q.len() as int, q.len() as int, 0)
    decreases q.len() - i
{
    if i == q.len() { assert(spl(q, start, i, l) =~= seq![]); assert(spl(s, start, i, l) =~= seq![] + spl(s, i, i, 0)); }
    else {
        assert(s.take(q.len() as int)[i] == s[i]);
        if q[i] == 47 && l == 0 {
            lemma_split_prefix(s, q, i + 1, i + 1, l);
            assert(s.subrange(start, i) =~= q.subrange(start, i)) by { assert(s.take(q.len() as int).subrange(start, i) =~= s.subrange(start, i)); }
            assert(spl(s, start, i, l) =~= spl(q, start, i, l) + spl(s, q.len() as int, q.len() as int, 0));
        } else {
            let l2 = if q[i] == 60 { l + 1 } else if q[i] == 62 { l - 1 } else { l };
            if i + 1 == q.len() { assert(lev(q, i + 1, l2) == l2); }
            lemma_split_prefix(s, q, start, i + 1, l2);
        }
    }
}
pub proof fn lemma_path_add(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    ensures path(a + b) == path(a) + path(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(path(a) + path(b) =~= path(a)); }
    else {
        lemma_path_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(path(a + b) =~= path(a) + path(b));
    }
}
pub proof fn lemma_path_one(x: Seq<u8>)
    ensures path(seq![x]) == seq![47u8] + x
{ assert(seq![x].drop_last() =~= seq![]); assert(path(seq![x].drop_last()) =~= seq![]); assert(path(seq![x]) =~= seq![47u8] + x); }
pub proof fn lemma_path_cons(x: Seq<u8>, b: Seq<Seq<u8>>)
    ensures path(seq![x] + b) == seq![47u8] + x + path(b)
{ lemma_path_add(seq![x], b); lemma_path_one(x); }
// pieces do not begin with a separator
pub proof fn lemma_first_char(s: Seq<u8>, start: int, i: int, l: int, k: int)
    requires 0 <= start <= i <= s.len(), i == start ==> l == 0, i > start ==> s[start] != 47, 0 <= k < spl(s, start, i, l).len(), spl(s, start, i, l)[k].len() > 0
    ensures spl(s, start, i, l)[k][0] != 47
    decreases s.len() - i
{
    let p = spl(s, start, i, l);
    if i == s.len() {}
    else if s[i] == 47 && l == 0 {
        let p1 = spl(s, i + 1, i + 1, l);
        assert(p =~= seq![s.subrange(start, i)] + p1);
        if k > 0 { assert(p[k] == p1[k - 1]); lemma_first_char(s, i + 1, i + 1, l, k - 1); }
    } else {
        lemma_first_char(s, start, i + 1, if s[i] == 60 { l + 1 } else if s[i] == 62 { l - 1 } else { l }, k);
    }
}
// a type in the namespace: the rest of its namespace is a path to it
pub proof fn lemma_inside(s: Seq<u8>, ns: Seq<u8>)
    requires full_ok(s), namespace_ok(ns), is_prefix(norm(ns), s)
    ensures ({ let t = scopes(s); let n = pieces(ns);
        norm(ns).len() <= nspace(s).len() && leads(t, n, n.len() as int) && nspace(s).skip(norm(ns).len() as int) == rel(t.skip(n.len() as int)) })
{
    lemma_scopes(s); lemma_norm(ns);
    let q = norm(ns); let n = pieces(ns); let t = scopes(s); let m = q.len() as int;
    assert(m < s.len()) by { if m == s.len() { assert(s.take(m) =~= s); } }
    assert(s[0] == 47);
    lemma_split_prefix(s, q, 1, 1, 0);
    let rest = spl(s, m, m, 0);
    lemma_spl_some(s, m, m, 0);
    assert(pieces(s) == n + rest);
    assert(t =~= n + rest.drop_last());
    assert(t.take(n.len() as int) =~= n); assert(n.take(n.len() as int) =~= n);
    let r1 = rest.drop_last();
    assert(t.skip(n.len() as int) =~= r1);
    lemma_path_add(n, r1);
    assert(nspace(s).skip(m) =~= rel(r1));
}
// all namespaces of the type are around the other namespace: then its text is there, or the type is inside
pub proof fn lemma_outside(s: Seq<u8>, ns: Seq<u8>)
    requires full_ok(s), namespace_ok(ns), !is_prefix(norm(ns), s), pfx(scopes(s), pieces(ns))
    ensures occurs(ns, nspace(s), 0)
{
    lemma_scopes(s); lemma_norm(ns);
    let n = pieces(ns); let t = scopes(s); let c = t.len() as int;
    if c == n.len() {
        assert(n.take(c) =~= n);
        assert(norm(ns) == nspace(s));
    } else {
        let x = n.skip(c + 1);
        assert(n =~= t + (seq![n[c]] + x)) by { assert(n.take(c) == t); assert(n =~= n.take(c) + n.skip(c)); assert(n.skip(c) =~= seq![n[c]] + x); }
        lemma_path_add(t, seq![n[c]] + x); lemma_path_cons(n[c], x);
        assert(path(n) == path(t) + (seq![47u8] + n[c] + path(x)));
        let k = nspace(s).len() as int;
        assert(path(n).take(k) =~= nspace(s));
        assert(path(n).len() + 1 == norm(ns).len());
        assert(path(n).take(k) == norm(ns).take(k)) by { assert(norm(ns).take(k) =~= path(n).take(k)); }
        assert(ns.len() + 1 >= norm(ns).len());
        assert(ns.subrange(0, k) =~= norm(ns).take(k));
    }
}
pub open spec fn path_ok(r: Seq<u8>, s: Seq<u8>, ns: Seq<u8>) -> bool {
    if r.len() > 0 && r[0] == 47 { r == nspace(s) }
    else { exists|d: int| #[trigger] leads(scopes(s), pieces(ns), d) && r == rel(scopes(s).skip(d)) }
}
pub proof fn lemma_rel_ok(s: Seq<u8>, ns: Seq<u8>, d: int)
    requires full_ok(s), namespace_ok(ns), leads(scopes(s), pieces(ns), d)
    ensures path_ok(rel(scopes(s).skip(d)), s, ns)
{
    let t = scopes(s); let r = rel(t.skip(d));
    lemma_scopes(s);
    if d < t.len() {
        let b = t.skip(d + 1);
        assert(t.skip(d) =~= seq![t[d]] + b);
        lemma_path_cons(t[d], b);
        assert(t[d] == pieces(s)[d]);
        lemma_first_char(s, 1, 1, 0, d);
        assert(r =~= t[d] + path(b) + seq![47u8]);
        assert(r[0] == t[d][0]);
    } else { assert(t.skip(d) =~= seq![]); assert(path(t.skip(d)) =~= seq![]); assert(r =~= seq![]); }
}

//@fn getMinimalPathTo file=typelib/typename.cc throws=yes
//@attrs
#[verifier::allow_complex_invariants]
//@spec
    requires full_name@.len() < 0x7fff_0000, ns@.len() < 0x7fff_0000, full_ok(full_name@), namespace_ok(ns@)
    ensures r is Ok, path_ok(r->Ok_0@, full_name@, ns@)
//@at entry
    proof { lemma_scopes(full_name@); lemma_norm(ns@);
        if is_prefix(norm(ns@), full_name@) { lemma_inside(full_name@, ns@); lemma_rel_ok(full_name@, ns@, pieces(ns@).len() as int); } }
    let ghost t = scopes(full_name@);
    let ghost n = pieces(ns@);
    let ghost mut c: int = 0;
//@at loop1.before
    proof { assert(svw(tok1@) == t); assert(svw(tok2@) == n); assert(svw(common_tokens@) =~= t.take(0)); assert(n.take(0) =~= t.take(0)); }
//@loop 1
    invariant it1.v == &tok1, it2.v == &tok2, svw(tok1@) == t, svw(tok2@) == n, it1.i == it2.i, it1.i <= tok1@.len(), it2.i <= tok2@.len(),
        tok1@.len() == t.len(), tok2@.len() == n.len(),
        svw(common_tokens@) == t.take(it1.i as int), t.take(it1.i as int) == n.take(it1.i as int)
    ensures it1.i < t.len() && it1.i < n.len() ==> t[it1.i as int] != n[it1.i as int]
    decreases tok1@.len() - it1.i
//@at loop1.begin
    let ghost k0 = it1.i as int;
    let ghost m0 = svw(common_tokens@);
    proof { assert(svw(tok1@)[k0] == tok1@[k0]@); assert(svw(tok2@)[k0] == tok2@[k0]@); }
//@at loop1.end
    proof { assert(svw(common_tokens@) =~= m0.push(t[k0])); assert(t.take(k0 + 1) =~= t.take(k0).push(t[k0])); assert(n.take(k0 + 1) =~= n.take(k0).push(n[k0])); }
//@at loop1.after
    proof {
        c = it1.i as int;
        assert(svw(common_tokens@).len() == c);
        if c == t.len() { assert(t.take(c) =~= t); lemma_outside(full_name@, ns@); }
    }
//@at loop2.before
    proof { assert(svw(tok1@)[c] == tok1@[c]@); assert(svw(tok1@).subrange(c, c + 1) =~= seq![t[c]]); lemma_path_one(t[c]); }
//@loop 2
    invariant remainder_it.v == &tok1, svw(tok1@) == t, tok1@.len() == t.len(), 0 <= c < remainder_it.i <= tok1@.len(), seq![47u8] + result@ == path(t.subrange(c, remainder_it.i as int))
    decreases tok1@.len() - remainder_it.i
//@at loop2.begin
    let ghost j0 = remainder_it.i as int;
    let ghost r0 = result@;
//@at loop2.end
    proof {
        assert(svw(tok1@)[j0] == tok1@[j0]@);
        assert(t.subrange(c, j0 + 1).drop_last() =~= t.subrange(c, j0));
        assert(t.subrange(c, j0 + 1).last() == t[j0]);
        assert(seq![47u8] + result@ =~= path(t.subrange(c, j0)) + (seq![47u8] + t[j0]));
    }
//@at loop3.before
    proof {
        assert(t.subrange(c, t.len() as int) =~= t.skip(c));
        assert forall|e: int| c <= e < n.len() implies deeper.has(#[trigger] n[e]) by { assert(svw(tok2@)[e] == tok2@[e]@); }
    }
//@loop 3
    invariant 0 <= c < t.len(), c <= n.len(), common_tokens@.len() <= c, svw(common_tokens@) == t.take(common_tokens@.len() as int), t.take(c) == n.take(c),
        seq![47u8] + result@ == path(t.skip(common_tokens@.len() as int)), first@ == t[common_tokens@.len() as int],
        forall|e: int| c <= e < n.len() ==> deeper.has(#[trigger] n[e]),
        forall|e: int| common_tokens@.len() < e <= c ==> deeper.has(#[trigger] t[e])
    ensures common_tokens@.len() > 0 ==> !deeper.has(first@)
    decreases common_tokens@.len()
//@at loop3.begin
    let ghost d0 = common_tokens@.len() as int;
    let ghost q0 = svw(common_tokens@);
    proof { assert(q0[d0 - 1] == common_tokens@[d0 - 1]@); }
    let ghost f0 = first@;
    let ghost r1 = result@;
//@at loop3.end
    proof {
        assert(svw(common_tokens@) =~= q0.take(d0 - 1));
        assert(t.take(d0).take(d0 - 1) =~= t.take(d0 - 1));
        assert(t.skip(d0 - 1) =~= seq![t[d0 - 1]] + t.skip(d0));
        lemma_path_cons(t[d0 - 1], t.skip(d0));
        assert(seq![47u8] + result@ =~= seq![47u8] + t[d0 - 1] + (seq![47u8] + r1));
    }
//@at loop3.after
    proof {
        let d = common_tokens@.len() as int;
        if d > 0 {
            assert(t.take(d) =~= n.take(d)) by { assert(t.take(c).take(d) =~= t.take(d)); assert(n.take(c).take(d) =~= n.take(d)); }
            assert forall|e: int| d < e <= n.len() implies !#[trigger] known(t, n, e, t[d]) by {
                let at = n.take(e).push(t[d]);
                if pfx(at, n) { assert(n.take(e + 1)[e] == at[e]); assert(n[e] == t[d]); if e < c { assert(t.take(c)[e] == n.take(c)[e]); assert(t[e] == n[e]); } }
                else if pfx(at, t) {
                    assert(t.take(e + 1)[e] == at[e]); assert(t[e] == t[d]);
                    if e > c { assert(t.take(e + 1)[c] == at[c]); assert(t[c] == n[c]); }
                }
            }
            assert(leads(t, n, d));
            lemma_rel_ok(full_name@, ns@, d);
            assert(rel(t.skip(d)) =~= result@ + seq![47u8]) by { assert((seq![47u8] + result@ + seq![47u8]).skip(1) =~= result@ + seq![47u8]); }
            lemma_path_cons(t[d], t.skip(d + 1)); assert(t.skip(d) =~= seq![t[d]] + t.skip(d + 1)); assert(t[d] == pieces(full_name@)[d]);
            assert(result@.len() > 0) by { assert((seq![47u8] + result@).len() == 1 + t[d].len() + path(t.skip(d + 1)).len()); }
        }
    }
//@end
