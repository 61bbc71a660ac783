// ---- a valid absolute name has no two separators in a row
pub proof fn lemma_nsp_run(s: Seq<u8>, i: int) requires 0 <= i <= s.len() ensures i <= nsp(s, i) <= s.len(), nsp(s, i) < s.len() ==> special(s[nsp(s, i)]), forall|x: int| i <= x < nsp(s, i) ==> !special(#[trigger] s[x]) decreases s.len() - i
{ if i < s.len() && !special(s[i]) { lemma_nsp_run(s, i + 1); } }
pub proof fn lemma_marks_run(s: Seq<u8>, i: int) requires 0 <= i < s.len() ensures i <= marks(s, i) < s.len(), forall|x: int| i < x <= marks(s, i) ==> #[trigger] s[x] == 42 decreases s.len() - i
{ if i + 1 < s.len() && s[i + 1] == 42 { lemma_marks_run(s, i + 1); } }
pub open spec fn stop(s: Seq<u8>, e: int) -> bool { e >= s.len() || s[e] != 47 }
pub proof fn lemma_name_noss(s: Seq<u8>, b: int, abs: bool)
    ensures name(s, b, abs) is Some ==> b < name(s, b, abs)->Some_0 <= s.len() && stop(s, name(s, b, abs)->Some_0) && noss(s, b, name(s, b, abs)->Some_0)
        && (s[b] == 47 ==> b + 1 < s.len() && s[b + 1] != 47)
    decreases s.len() - b, 1int
{
    if b >= 0 && b < s.len() && name(s, b, abs) is Some {
        let p = skipsep(s, b);
        let j = nsp(s, p);
        lemma_nsp_run(s, p);
        let t = s.subrange(b, j);
        assert(chr_at(t, 0) == chr_at(s, b));
        assert(j > p) by {
            if j == p {
                let m = ff(t, seq![42u8, 91u8], 0, true);
                lemma_ff(t, seq![42u8, 91u8], 0, true);
                if m >= 0 { assert(t.subrange(skipsep(t, 0), m).len() > 0); assert(t[m] == s[b + m]); } else { assert(t.skip(skipsep(t, 0)).len() > 0); }
            }
        }
        assert(!special(s[p]));
        if j == s.len() { }
        else if s[j] == 47 { lemma_name_noss(s, j, abs); }
        else if s[j] == 60 { lemma_args_noss(s, j); let k = args(s, j)->Some_0; lemma_marks_run(s, k); lemma_after_noss(s, marks(s, k) + 1, abs); }
        else if s[j] == 91 { lemma_bracket_noss(s, j, abs); }
    }
}
pub proof fn lemma_args_noss(s: Seq<u8>, j: int)
    ensures args(s, j) is Some ==> j <= args(s, j)->Some_0 < s.len() && s[args(s, j)->Some_0] == 62 && (s[j] != 47 ==> noss(s, j, args(s, j)->Some_0 + 1))
    decreases s.len() - j, 2int
{
    if j >= 0 && j < s.len() && s[j] != 62 && args(s, j) is Some {
        if chr_at(s, j + 1) == 47 { lemma_name_noss(s, j + 1, true); lemma_args_noss(s, name(s, j + 1, true)->Some_0); }
        else {
            lemma_ff(s, numset(), j + 1, false);
            let e = numend(s, j + 1);
            lemma_args_noss(s, e);
            assert forall|x: int| j < x < e implies #[trigger] s[x] != 47 by { assert(numset().contains(s[x])); lemma_numset(s[x]); }
        }
    }
}
pub proof fn lemma_numset(c: u8) ensures numset().contains(c) ==> c != 47, digset().contains(c) ==> c != 47 { }
pub proof fn lemma_bracket_noss(s: Seq<u8>, p: int, abs: bool)
    ensures bracket(s, p, abs) is Some ==> p < bracket(s, p, abs)->Some_0 <= s.len() && stop(s, bracket(s, p, abs)->Some_0) && (s[p] != 47 ==> noss(s, p, bracket(s, p, abs)->Some_0))
    decreases s.len() - p, 0int
{
    if p >= 0 && p < s.len() && bracket(s, p, abs) is Some {
        lemma_ff(s, digset(), p + 1, false);
        let e = ff(s, digset(), p + 1, false);
        assert forall|x: int| p < x < e implies #[trigger] s[x] != 47 by { assert(digset().contains(s[x])); lemma_numset(s[x]); }
        lemma_marks_run(s, e);
        lemma_after_noss(s, marks(s, e) + 1, abs);
    }
}
pub proof fn lemma_after_noss(s: Seq<u8>, p: int, abs: bool)
    requires 0 <= p <= s.len()
    ensures after(s, p, abs) is Some ==> p <= after(s, p, abs)->Some_0 <= s.len() && stop(s, after(s, p, abs)->Some_0) && noss(s, p, after(s, p, abs)->Some_0)
    decreases s.len() - p, 2int
{
    if p >= s.len() { } else if s[p] == 47 { lemma_name_noss(s, p, abs); } else if s[p] == 91 { lemma_bracket_noss(s, p, abs); }
}
pub proof fn lemma_valid_gname(s: Seq<u8>) requires valid(s, true), s.len() < 0x7fff_ff00 ensures gname(s)
{
    lemma_name_noss(s, 0, true);
    let j = nsp(s, skipsep(s, 0));
    lemma_nsp_run(s, skipsep(s, 0));
    let t = s.subrange(0, j);
    assert(chr_at(t, 0) == chr_at(s, 0));
}
