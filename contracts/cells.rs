//@include prelude.rs
// The meaning of a layout program: one cell per byte of the described value.

pub enum Cell { Data, Pad, Cont(usize, Seq<Cell>), Tail }

// handles of Container types: which words are valid handles, and the size of the container object
pub uninterp spec fn is_cont(p: usize) -> bool;
pub uninterp spec fn csize(p: usize) -> nat;
// an object address is larger than any opcode, an object has a size that fits the machine
#[verifier::external_body]
pub broadcast proof fn axiom_cont(p: usize)
    ensures #[trigger] is_cont(p) ==> p > 4 && 1 <= csize(p) <= 0xFFFF_FFFF {}

pub open spec fn datas(n: nat) -> Seq<Cell> { Seq::new(n, |i: int| Cell::Data) }
pub open spec fn pads(n: nat) -> Seq<Cell> { Seq::new(n, |i: int| Cell::Pad) }
pub open spec fn tails(n: nat) -> Seq<Cell> { Seq::new(n, |i: int| Cell::Tail) }
pub open spec fn cont(p: usize, b: Seq<Cell>) -> Seq<Cell> { seq![Cell::Cont(p, b)] + tails((csize(p) - 1) as nat) }
pub open spec fn rep(b: Seq<Cell>, n: nat) -> Seq<Cell> decreases n { if n == 0 { seq![] } else { rep(b, (n - 1) as nat) + b } }

pub open spec fn fits(c: Seq<Cell>, e: int) -> Option<(Seq<Cell>, int)> { if c.len() <= usize::MAX { Some((c, e)) } else { None } }

// The block that starts at word i: its cells and the position of its end (FLAG_END or end of program).
// None if the program is malformed there or describes more bytes than the address space has.
pub open spec fn blk(s: Seq<usize>, i: int) -> Option<(Seq<Cell>, int)>
    decreases s.len() - i
{
    if i < 0 || i > s.len() { None }
    else if i == s.len() || s[i] == FLAG_END { Some((seq![], i)) }
    else if i + 1 >= s.len() { None }
    else if s[i] == FLAG_MEMCPY {
        match blk(s, i + 2) { Some((c, e)) => fits(datas(s[i + 1] as nat) + c, e), None => None }
    } else if s[i] == FLAG_SKIP {
        match blk(s, i + 2) { Some((c, e)) => fits(pads(s[i + 1] as nat) + c, e), None => None }
    } else if s[i] == FLAG_ARRAY || s[i] == FLAG_CONTAINER {
        match blk(s, i + 2) {
            Some((b, e1)) => if i + 2 <= e1 < s.len() {
                match blk(s, e1 + 1) {
                    Some((c, e)) => if s[i] == FLAG_ARRAY { fits(rep(b, s[i + 1] as nat) + c, e) }
                                    else if is_cont(s[i + 1]) { fits(cont(s[i + 1], b) + c, e) } else { None },
                    None => None,
                }
            } else { None },
            None => None,
        }
    } else { None }
}

pub open spec fn be(s: Seq<usize>, i: int) -> int { blk(s, i)->Some_0.1 }
pub open spec fn bc(s: Seq<usize>, i: int) -> Seq<Cell> { blk(s, i)->Some_0.0 }

pub proof fn lemma_blk_end(s: Seq<usize>, i: int)
    requires blk(s, i) is Some
    ensures i <= be(s, i) <= s.len(), be(s, i) < s.len() ==> s[be(s, i)] == FLAG_END, bc(s, i).len() <= usize::MAX
    decreases s.len() - i
{
    if i == s.len() || s[i] == FLAG_END {}
    else {
        if s[i] == FLAG_MEMCPY || s[i] == FLAG_SKIP { lemma_blk_end(s, i + 2); }
        else { lemma_blk_end(s, i + 2); let e1 = be(s, i + 2); lemma_blk_end(s, e1 + 1); }
    }
}

pub proof fn lemma_rep_len(b: Seq<Cell>, i: nat, n: nat)
    requires i <= n
    ensures rep(b, i).len() <= rep(b, n).len(), i < n ==> rep(b, i).len() + b.len() <= rep(b, n).len()
    decreases n
{
    if i < n { lemma_rep_len(b, i, (n - 1) as nat); }
}

// ---------------------------------------------------------------- skipping blocks, validity
pub open spec fn sb(s: Seq<usize>, i: int, nest: nat) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { s.len() as int }
    else if s[i] == FLAG_END { if nest == 0 { i } else { sb(s, i + 1, (nest - 1) as nat) } }
    else if s[i] == FLAG_ARRAY || s[i] == FLAG_CONTAINER { if i + 1 >= s.len() { s.len() as int } else { sb(s, i + 2, nest + 1) } }
    else if s[i] == FLAG_MEMCPY || s[i] == FLAG_SKIP { if i + 1 >= s.len() { s.len() as int } else { sb(s, i + 2, nest) } }
    else { sb(s, i + 1, nest) }
}
// skipping from a block start with nesting n lands where skipping from the block's end with nesting n lands
pub proof fn lemma_sb_blk(s: Seq<usize>, i: int, n: nat)
    requires blk(s, i) is Some
    ensures be(s, i) < s.len() ==> sb(s, i, n) == sb(s, be(s, i), n), n == 0 ==> sb(s, i, n) == be(s, i)
    decreases s.len() - i
{
    lemma_blk_end(s, i);
    if i == s.len() || s[i] == FLAG_END {}
    else if s[i] == FLAG_MEMCPY || s[i] == FLAG_SKIP { lemma_sb_blk(s, i + 2, n); }
    else {
        lemma_blk_end(s, i + 2);
        let e1 = be(s, i + 2);
        lemma_sb_blk(s, i + 2, n + 1);
        assert(sb(s, i + 2, n + 1) == sb(s, e1, n + 1));
        assert(sb(s, e1, n + 1) == sb(s, e1 + 1, n));
        lemma_sb_blk(s, e1 + 1, n);
    }
}

// grammar of programs, as a nesting-depth recogniser
pub open spec fn wf_ops(s: Seq<usize>, i: int, nest: nat) -> bool
    decreases s.len() - i
{
    if i < 0 || i > s.len() { false }
    else if i == s.len() { nest == 0 }
    else if s[i] == FLAG_END { nest > 0 && wf_ops(s, i + 1, (nest - 1) as nat) }
    else if s[i] == FLAG_ARRAY || s[i] == FLAG_CONTAINER { i + 1 < s.len() && wf_ops(s, i + 2, nest + 1) }
    else if s[i] == FLAG_MEMCPY || s[i] == FLAG_SKIP { i + 1 < s.len() && wf_ops(s, i + 2, nest) }
    else { false }
}
pub open spec fn wf_init(s: Seq<usize>, i: int, nest: nat) -> bool
    decreases s.len() - i
{
    if i < 0 || i > s.len() { false }
    else if i == s.len() { nest == 0 }
    else if s[i] == FLAG_INIT_END { nest > 0 && wf_init(s, i + 1, (nest - 1) as nat) }
    else if s[i] == FLAG_INIT_REPEAT { i + 1 < s.len() && wf_init(s, i + 2, nest + 1) }
    else if s[i] == FLAG_INIT_SKIP || s[i] == FLAG_INIT_CONTAINER { i + 1 < s.len() && wf_init(s, i + 2, nest) }
    else if s[i] == FLAG_INIT { i + 1 < s.len() && i + 2 + s[i + 1] <= s.len() && wf_init(s, i + 2 + s[i + 1], nest) }
    else { false }
}
// a program that has a meaning is in the grammar
pub proof fn lemma_blk_wf(s: Seq<usize>, i: int, n: nat)
    requires blk(s, i) is Some
    ensures wf_ops(s, i, n) == wf_ops(s, be(s, i), n)
    decreases s.len() - i
{
    lemma_blk_end(s, i);
    if i == s.len() || s[i] == FLAG_END {}
    else if s[i] == FLAG_MEMCPY || s[i] == FLAG_SKIP { lemma_blk_wf(s, i + 2, n); }
    else {
        let e1 = be(s, i + 2);
        lemma_blk_end(s, i + 2);
        lemma_blk_wf(s, i + 2, n + 1);
        lemma_blk_wf(s, e1 + 1, n);
    }
}

pub struct MemoryLayout { pub ops: Vec<usize>, pub init_ops: Vec<usize> }
impl MemoryLayout {
    pub fn new() -> (r: MemoryLayout) ensures r.ops@.len() == 0, r.init_ops@.len() == 0 { MemoryLayout { ops: Vec::new(), init_ops: Vec::new() } }
}
#[verifier::external_body]
pub fn dup_memorylayout(v: &MemoryLayout) -> (r: MemoryLayout) ensures r.ops@ == v.ops@, r.init_ops@ == v.init_ops@ { unimplemented!() }
